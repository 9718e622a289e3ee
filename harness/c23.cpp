// C23: command line parsing
#include "lib.hpp"
#include "argparser.hpp"
#include <sstream>
typedef std::vector<std::string> Toks;
static ArgParser mkParser(const Toks&t){ std::vector<const char*> v; v.push_back("prog"); for(auto&s:t) v.push_back(s.c_str()); return ArgParser((int)v.size(),v.data()); }
static bool flagLike(const std::string&s){ return s.size()>=2&&s[0]=='-'&&s[1]=='-'; }
// what the command line says: the flags with the value that follows each (first occurrence counts)
struct Line { std::vector<std::string> flag,val; std::vector<int> has; int repeats; bool help,bad; };
static Line line(const Toks&all){ Line L; L.repeats=0; L.help=L.bad=false; Toks t; for(auto&s:all) if(s=="--help") L.help=true; else t.push_back(s); size_t i=0; while(i<t.size()){ std::string f=t[i++]; if(f[0]!='-'){ L.bad=true; return L; } std::string v; int h=0; if(i<t.size()&&!flagLike(t[i])){ v=t[i++]; h=1; } bool seen=false; for(auto&g:L.flag) seen|=g==f; if(seen) L.repeats++; else { L.flag.push_back(f); L.val.push_back(v); L.has.push_back(h); } } return L; }
static int at(const Line&L,const std::string&f){ for(size_t i=0;i<L.flag.size();i++) if(L.flag[i]==f) return (int)i; return -1; }
static std::string num(int v){ std::stringstream s; s<<v; return s.str(); } static std::string num(double v){ std::stringstream s; s.precision(17); s<<v; return s.str(); }
static std::string pick(const char*n,std::vector<std::string>&vals,std::vector<int>&ints){ int k=CI(n,0,7); switch(k){ case 0: return "--help"; case 1: return "--a"; case 2: return "--b"; case 3: return "--ab"; case 4: return "-"; case 5: return "-x"; case 6: { int v=SI("ival",0,9999); ints.push_back(v); vals.push_back(num(v)); return vals.back(); } default: { int v=SI("nval",-9999,-1); ints.push_back(v); std::string s=num(v); vals.push_back(s); return s; } } }
static int valueOf(const std::string&s,const std::vector<std::string>&vals,const std::vector<int>&ints,bool&ok){ for(size_t i=0;i<vals.size();i++) if(vals[i]==s){ ok=true; return ints[i]; } ok=false; return 0; }
// every sequence of tokens: flags, values, unknown flags, single dashes, repeated flags, help anywhere
H(tokens){ int n=P(1); { Toks t; std::vector<std::string> vals; std::vector<int> ints; for(int i=0;i<n;i++){ std::string s=pick("tok",vals,ints); t.push_back(s); }
  Line L=line(t); if(L.bad){ REFUSED(mkParser(t),"a value without a flag is refused"); COVER("end"); return; }
  ArgParser A=mkParser(t); CHECK(A.IsGood()==(L.repeats==0&&!L.help),"good unless a flag is repeated or help is requested"); const ArgParser&C=A;
  const char* names[]={"--a","--b","--ab","-x"}; for(auto f:names){ int k=at(L,f); int d=SI("default",-50,50),v=d; C.Parse(v,f,"text"); if(k<0) CHECK(v==d,"absent flag keeps the default"); else if(L.has[k]){ bool ok; int e=valueOf(L.val[k],vals,ints,ok); if(ok) CHECK(v==e,"the variable gets the value that followed its flag"); } else CHECK(v==d,"a flag without value leaves a number alone"); }
  CHECK(A.IsGood()==(L.repeats==0&&!L.help),"parsing different flags raises no problem"); ArgParser B=mkParser(t); for(auto f:names){ int k=at(L,f); for(int d=0;d<2;d++){ bool v=d!=0; ArgParser D(B); D.Parse(v,f,"text"); CHECK(v==((d!=0)!=(k>=0)),"a given boolean flag flips the default"); std::stringstream o; D.ShowOptions(o); std::string txt=o.str(),w=v?"true":"false"; CHECK(txt.find(f)!=std::string::npos&&txt.find(w)!=std::string::npos,"reported options show the boolean in force"); } }
  { int v=1; ArgParser D(B); D.Parse(v,"--a"); D.Parse(v,"--b"); bool g=D.IsGood(); CHECK(g==(L.repeats==0&&!L.help),"each flag parsed once"); D.Parse(v,"--a"); CHECK(!D.IsGood(),"a flag parsed twice is a problem"); std::stringstream e; D.ShowErrors(e); CHECK(e.str().find("--a")!=std::string::npos,"the problem names the flag"); bool q=false; ArgParser E(B); E.Parse(v,"--b"); E.Parse(q,"--b"); CHECK(!E.IsGood(),"a flag parsed twice is a problem"); }
  { std::stringstream e; B.ShowErrors(e); CHECK(e.str().empty()==(L.repeats==0),"errors are shown exactly when there are some"); } } COVER("end"); }
// flags and values made of arbitrary characters
H(chars){ int n=P(1),len=P(2); { Toks t; for(int i=0;i<n;i++){ int m=CI("len",1,len); std::string s; for(int k=0;k<m;k++){ int v=SI("ch",0,2); s.push_back((char)(v==0?'-':v==1?'a':'b')); } t.push_back(s); } Line L=line(t); if(L.bad){ REFUSED(mkParser(t),"a value without a flag is refused"); COVER("end"); return; }
  ArgParser A=mkParser(t); CHECK(A.IsGood()==(L.repeats==0),"good unless a flag is repeated"); const char*names[]={"--a","-a","--","-b","--b"}; for(auto f:names){ int k=at(L,f); std::string v="dflt"; A.Parse(v,f); CHECK(v==(k>=0&&L.has[k]?L.val[k]:std::string("dflt")),"the variable gets the value that followed its flag"); } CHECK(A.IsGood()==(L.repeats==0),"parsing different flags raises no problem"); } COVER("end"); }
H(values){ int order=P(1); { double d=SR("d"); int i=SI("i",-100000,100000); std::string w="Some-Text_1"; Toks t; if(order==0) t={"--d",num(d),"--i",num(i),"--flag","--w",w}; else if(order==1) t={"--flag","--w",w,"--i",num(i),"--d",num(d)}; else if(order==2) t={"--i",num(i),"--d",num(d),"--w",w,"--flag"}; else t={"--w",w,"--flag","--d",num(d),"--i",num(i),"--help"};
  ArgParser A=mkParser(t); double x=SR("dx"); int y=SI("di",-9,9),z=SI("dz",-9,9); bool b=P(2)!=0,c=P(2)!=0; std::string s="none",s2="other"; double x2=SR("dx2"); double keep=x2; int kz=z; A.Parse(x,"--d","a double"); A.Parse(y,"--i","an int"); A.Parse(b,"--flag","a switch"); A.Parse(s,"--w","a word"); A.Parse(c,"--off","not given"); A.Parse(x2,"--x2","not given"); A.Parse(z,"--z","not given"); A.Parse(s2,"--s2","not given");
  CHECKEQ(x,d,"double value"); CHECK(y==i,"integer value"); CHECK(b==(P(2)==0),"switch given"); CHECK(s==w,"text value"); CHECK(c==(P(2)!=0),"switch not given"); CHECKEQ(x2,keep,"default kept"); CHECK(z==kz,"default kept"); CHECK(s2=="other","default kept"); CHECK(A.IsGood()==(order!=3),"good");
  std::stringstream o; A.ShowOptions(o); std::string l; std::getline(o,l); int seen=0; while(std::getline(o,l)){ std::stringstream q(l); std::string f; if(!(q>>f)) continue; seen++; if(f=="--i"){ int v=0; q>>v; CHECK(v==i,"reported integer"); } else if(f=="--z"){ int v=0; q>>v; CHECK(v==kz,"reported default"); } else if(f=="--d"){ double v=0; q>>v; double r=v-d; CHECK(__sym_fork(__sym_eq(v,__sym_round_digits(d,6)))||(r<=1e-2&&r>=-1e-2),"reported double"); } else if(f=="--w"||f=="--s2"||f=="--flag"||f=="--off"){ std::string v; q>>v; CHECK(v==(f=="--w"?w:f=="--s2"?"other":f=="--flag"?(b?"true":"false"):(c?"true":"false")),"reported text"); } else CHECK(f=="--x2","only parsed flags are reported"); } CHECK(seen==8,"every parsed flag is reported");
  std::stringstream h; A.ShowHelp(h); std::string H=h.str(); for(auto f:{"--d","--i","--flag","--w","--off","--x2","--z","--s2","a double","an int","a switch","a word","not given"}) CHECK(H.find(f)!=std::string::npos,"help lists every parsed flag and its description"); } COVER("end"); }
H(empty){ { ArgParser A,B=mkParser(Toks()); int v=SI("v",-9,9),d=v; A.Parse(v,"--a"); CHECK(v==d&&A.IsGood(),"nothing given"); B.Parse(v,"--a"); CHECK(v==d&&B.IsGood(),"nothing given"); ArgParser C(0,nullptr); CHECK(C.IsGood(),"no arguments at all"); ArgParser D=mkParser(Toks{"--help"}); CHECK(!D.IsGood(),"help requested"); REFUSED(mkParser(Toks{"--a",""}),"empty arguments are refused"); } COVER("end"); }
//@ run tokens 0 1..3 t=100
//@ run chars 0 1..2 3 t=100
//@ run chars 0 3 2 t=100
//@ run values 0 0..3 0..1 t=60
//@ run empty 0 t=60
//@ thorough tokens 0 4 t=600
//@ thorough chars 0 3 3 t=600
//@ thorough chars 0 2 4 t=400
//@ bounds every sequence of up to 3 tokens (thorough 4) drawn from known, unknown, prefix and single-dash flags, help and numbers with symbolic values; every sequence of two (three) tokens of up to three characters; all orders of a realistic line with symbolic numbers
//@ outside values that the variable's type cannot read from the text, and texts with blanks (the type's own reading decides)
