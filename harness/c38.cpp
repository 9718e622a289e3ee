// C38: printed forms
#include "lib.hpp"
#include "argparser.hpp"
#include <sstream>
typedef std::string S; typedef std::vector<S> L;
static L lines(const S&t){ L o; S c; for(char ch:t) if(ch=='\n'){ o.push_back(c); c.clear(); } else c.push_back(ch); if(c.size()) o.push_back(c); return o; }
// the lines after the label that are not blank
static L body(const S&t,const S&label,const char*m){ L a=lines(t),o; CHECK(a.size()>=1&&a[0]==label,m); for(size_t i=1;i<a.size();i++) if(a[i].find_first_not_of(" \t")!=S::npos) o.push_back(a[i]); return o; }
static double half(int p){ double x=0.5; while(p-->0) x/=10; return x; }
// r was printed for v with p decimals
static void shownFixed(double v,double r,int p,const char*m){ if(__sym_native()){ double d=v-r; CHECK(d<=half(p)*1.0001&&d>=-half(p)*1.0001,m); } else CHECKEQ(r,__sym_round_digits(v,p),m); }
// r was printed for v with six significant digits
static void shown(double v,double r,const char*m){ if(__sym_native()){ double d=v-r,t=(v<0?-v:v)*5e-6+1e-12; CHECK(d<=t&&d>=-t,m); } else CHECKEQ(r,__sym_round_digits(v,6),m); }
static void shown(int v,int r,const char*m){ CHECK(v==r,m); }
static void grid(const S&t,const S&label,const Ref&R,int p,const char*m){ L b=body(t,label,m); CHECK((int)b.size()==(R.c?R.r:0),m); for(int i=0;i<(int)b.size();i++){ std::istringstream s(b[i]); for(int j=0;j<R.c;j++){ double v=0; s>>v; CHECK(!s.fail(),m); shownFixed(R.at(i,j),v,p,m); } S rest; CHECK(!(s>>rest),m); } }
static Ref fits(int r,int c,Lcg&g){ Ref R(r,c); bool few=P(0)!=0; for(auto&x:R.v) x= few&&g.next(3)? g.next(2)*(g.next(19)-9)/2.0 : SR("a",-9,90); return R; }
H(dense){ Lcg g(P(0)); int r=P(1),c=P(2); { Ref R=fits(r,c,g); const DenseMatrix A=mk(R); std::ostringstream o,q,u; o.precision(3); A.Print("a label",o); grid(o.str(),"a label",R,4,"every entry in its row and column"); A.Print("",q,12,2); grid(q.str(),"",R,2,"to the requested precision"); A.Print("x",u,20); grid(u.str(),"x",R,4,"with the requested width"); eqRef(refOf(A),R,"the matrix is not changed"); double z=1.0/3; o<<z; CHECK(o.str().find("0.333")!=S::npos,"the stream keeps its own format"); } COVER("end"); }
template<class T> static void items(const L&b,size_t from,const std::vector<int>&i,const std::vector<int>&j,const std::vector<T>&v,const char*m){ CHECK(b.size()>=from+i.size(),m); for(size_t k=0;k<i.size();k++){ std::istringstream s(b[from+k]); char p=0,q=0,e=0; int x=-1,y=-1; T w=T(); s>>p>>x>>q>>y>>e>>w; CHECK(!s.fail()&&p=='('&&q==','&&e==')',m); CHECK(x==i[k]&&y==j[k],m); shown(v[k],w,m); S rest; CHECK(!(s>>rest),m); } }
template<class T> static void rowsOf(const Csr<T>&a,std::vector<int>&i,std::vector<int>&j,std::vector<T>&v){ for(int r=0;r<a.r;r++) for(int k=a.ptr[r];k<a.ptr[r+1];k++){ i.push_back(r); j.push_back(a.idx[k]); v.push_back(a.dat[k]); } }
template<class T> static void sparse(){ Lcg g(P(0)*7+1); { auto a=genCsr<T>("a",P(1),P(2),P(3),DUP,g); const SparseMatrix<T> A=mk(a); std::ostringstream o; A.Print("list",o); L b=body(o.str(),"list","entry list"); std::vector<int> i,j; std::vector<T> v; rowsOf(a,i,j,v); CHECK(b.size()==i.size(),"one line for every stored entry"); items(b,0,i,j,v,"position and value of every stored entry"); sameCsr(A,a,"the matrix is not changed"); } COVER("end"); }
H(sparse_d){ sparse<double>(); } H(sparse_i){ sparse<int>(); }
H(sparse_dense){ Lcg g(P(0)*5+3); { auto a=genCsr<double>("a",P(1),P(2),P(3),DISTINCT,g); for(auto&x:a.dat) x=SR("f",-9,90); const SparseMatrix<double> A=mk(a); std::ostringstream o; A.PrintDense("full",o); grid(o.str(),"full",a.ref(),4,"every entry of the matrix, zeros included"); } COVER("end"); }
// assembly matrices: every inserted entry
template<class M,class T> static void assembly(bool merged){ Lcg g(P(0)*3+2); int n=P(1),k=P(2); { M A(n,n+1); std::vector<int> i,j; std::vector<T> v; for(int q=0;q<k;q++){ int x=P(0)?g.next(n):CI("i",0,n-1),y=P(0)?g.next(n+1):CI("j",0,n); T w=SV<T>("v"); if(merged) for(size_t z=0;z<i.size();z++) if(i[z]==x&&j[z]==y) w=v[z]; A.Add(x,y,w); i.push_back(x); j.push_back(y); v.push_back(w); } const M&K=A; std::ostringstream o; K.Print("entries",o); L b=body(o.str(),"entries","entry list"); if(!merged) CHECK(b.size()==i.size(),"one line for every entry");
  // in any order; equal entries at one position may be listed each or as their sum
  if(merged){ size_t total=0; for(size_t q=0;q<i.size();q++){ bool again=false; int n=0; for(size_t z=0;z<i.size();z++) if(i[z]==i[q]&&j[z]==j[q]){ n++; if(z<q) again=true; } if(again) continue; std::vector<size_t> at; for(size_t z=0;z<b.size();z++){ std::istringstream s(b[z]); char p=0,c=0; int x=-1,y=-1; s>>p>>x>>c>>y; if(x==i[q]&&y==j[q]) at.push_back(z); } CHECK((int)at.size()==n||at.size()==1,"one line for every entry"); total+=at.size(); for(size_t z:at) items<T>(L(1,b[z]),0,{i[q]},{j[q]},{(int)at.size()==n? v[q]: (T)(v[q]*n)},"value of every entry"); } CHECK(total==b.size(),"nothing else"); } else {
  std::vector<char> used(b.size(),0); for(size_t q=0;q<i.size();q++){ size_t at=b.size(); for(size_t z=0;z<b.size();z++){ if(used[z]) continue; std::istringstream s(b[z]); char p=0,c=0; int x=-1,y=-1; s>>p>>x>>c>>y; if(x==i[q]&&y==j[q]){ at=z; break; } } CHECK(at<b.size(),"every entry is listed at its position"); if(at<b.size()){ used[at]=1; items<T>(L(1,b[at]),0,{i[q]},{j[q]},{v[q]},"value of every entry"); } } } } COVER("end"); }
H(coo_d){ assembly<CooMatrix<double>,double>(false); } H(coo_i){ assembly<CooMatrix<int>,int>(false); } H(lil_d){ assembly<LilMatrix<double>,double>(true); } H(lil_i){ assembly<LilMatrix<int>,int>(true); }
H(block){ Lcg g(P(0)*11+5); int rb=P(1),cb=P(2),mx=P(3); { std::vector<int> ro{0},co{0}; for(int i=0;i<rb;i++) ro.push_back(ro.back()+g.next(mx+1)); for(int i=0;i<cb;i++) co.push_back(co.back()+g.next(mx+1)); BlockMatrix<double> B(ro,co); Ref R(ro.back(),co.back()); std::vector<Csr<double>> blk(rb*cb); for(int i=0;i<rb;i++) for(int j=0;j<cb;j++){ int r=ro[i+1]-ro[i],c=co[j+1]-co[j]; Csr<double>&a=blk[i*cb+j]; a.r=r; a.c=c; a.ptr.assign(r+1,0); if(!CI("set",0,1)) continue; a=rndCsr<double>("b",r,c,2,DISTINCT,g); for(auto&x:a.dat) x=SR("f",-9,90); B.SetBlock(i,j,mk(a)); Ref q=a.ref(); for(int x=0;x<r;x++) for(int y=0;y<c;y++) R.at(ro[i]+x,co[j]+y)=q.at(x,y); }
  std::ostringstream o,d; B.Print("blocks",o); L b=body(o.str(),"blocks","label"); size_t at=0; for(int i=0;i<rb;i++) for(int j=0;j<cb;j++){ std::ostringstream w; w<<"("<<i<<","<<j<<")"; CHECK(at<b.size()&&b[at].find("block")!=S::npos&&b[at].find(w.str())!=S::npos,"every block under its position"); at++; std::vector<int> x,y; std::vector<double> v; rowsOf(blk[i*cb+j],x,y,v); items(b,at,x,y,v,"every entry of the block"); at+=x.size(); } CHECK(at==b.size(),"nothing else"); B.PrintDense("all",d); grid(d.str(),"all",R,4,"every entry of the block matrix"); } COVER("end"); }
template<class T> static void elements(const L&b,const std::vector<T>&v,const char*m){ CHECK(b.size()==v.size(),m); for(size_t i=0;i<b.size();i++){ std::istringstream s(b[i]); T x=T(); s>>x; CHECK(!s.fail(),m); shown(v[i],x,m); S rest; CHECK(!(s>>rest),m); } }
template<class T> static void vect(){ int n=P(1); { auto v=symVec<T>("v",n); const Vector<T> x=vec(v); auto h=v; h.push_back(T(7)); h.push_back(T(8)); const VectorView<T> w(h.data(),n); std::ostringstream o,p,q,r; x.Print("vector",o); elements(body(o.str(),"vector","label"),v,"every element in order"); w.Print("view",p); elements(body(p.str(),"view","label"),v,"every element of the view in order"); using linalgcpp::operator<<; q<<w; elements(body(q.str(),"","no label"),v,"written to a stream"); r<<v; elements(body(r.str(),"","no label"),v,"a list written to a stream"); } COVER("end"); }
H(vec_d){ vect<double>(); } H(vec_i){ vect<int>(); }
// the argument parser's reports
static ArgParser parser(const L&t){ std::vector<const char*> v; v.push_back("prog"); for(auto&s:t) v.push_back(s.c_str()); return ArgParser((int)v.size(),v.data()); }
static bool has(const S&a,const S&b){ return a.find(b)!=S::npos; }
H(options){ { int i=SI("i",-99,99),k=SI("k",-99,99); double d=SR("d"); bool f=P(1)!=0; S w="word"; std::ostringstream num; num<<i; L t; if(P(2)&1){ t.push_back("--count"); t.push_back(num.str()); } if(P(2)&2) t.push_back("--switch"); if(P(2)&4){ t.push_back("--name"); t.push_back("thing"); } ArgParser A=parser(t); int c=k; A.Parse(c,"--count","how many"); A.Parse(f,"--switch","on or off"); A.Parse(w,"--name","a name"); A.Parse(d,"--scale","a factor"); const ArgParser&K=A;
  std::ostringstream o,h,e; K.ShowOptions(o); L b=lines(o.str()); const char*flags[]={"--count","--switch","--name","--scale"},*texts[]={"how many","on or off","a name","a factor"}; CHECK(b.size()==5,"a title and one line for every option"); for(int q=0;q<4;q++){ int cnt=0; for(size_t z=1;z<b.size();z++){ std::istringstream s(b[z]); S fl; s>>fl; if(fl!=flags[q]) continue; cnt++; if(q==0){ int x=1000; s>>x; CHECK(!s.fail()&&x==((P(2)&1)?i:k),"the value in force"); } else if(q==1){ S x; s>>x; CHECK(x==(f?"true":"false"),"the switch in force"); } else if(q==2){ S x; s>>x; CHECK(x==((P(2)&4)?"thing":"word"),"the text in force"); } else { double x=0; s>>x; CHECK(!s.fail(),"the number in force"); shown(d,x,"the number in force"); } CHECK(has(b[z],texts[q]),"its description"); } CHECK(cnt==1,"every option once"); }
  K.ShowHelp(h); b=lines(h.str()); for(int q=0;q<4;q++){ int cnt=0; for(size_t z=1;z<b.size();z++){ std::istringstream s(b[z]); S fl; s>>fl; if(fl==flags[q]){ cnt++; CHECK(has(b[z],texts[q]),"help shows the description"); } } CHECK(cnt==1,"help lists every flag once"); } K.ShowErrors(e); CHECK(e.str().empty(),"no errors to show"); CHECK(A.IsGood(),"showing does not change the parser"); } COVER("end"); }
H(errors){ int n=P(1); { L t; for(int q=0;q<=n;q++){ t.push_back("--twice"); t.push_back(q%2?"2":"1"); } ArgParser A=parser(t); std::ostringstream e; A.ShowErrors(e); L b=lines(e.str()); CHECK(A.IsGood()==(n==0),"a repeated flag is an error"); CHECK((int)b.size()==(n?n+1:0),"a title and one line for every error"); for(size_t z=1;z<b.size();z++) CHECK(has(b[z],"twice"),"the error names the flag"); } COVER("end"); }
//@ run dense 0 0..4 0..4 t=60
//@ run dense 1..3 20,7 5,33 t=60
//@ run sparse_d 0 0..2 0..3 2 t=60
//@ run sparse_d 1..4 4,20 5,33 3,9 t=60
//@ run sparse_i 0 2 2 2 t=60
//@ run sparse_i 1..4 4,20 5,33 3,9 t=60
//@ run sparse_dense 0 0..2 0..2 2 t=60
//@ run sparse_dense 1..4 4,12 5,15 3 t=60
//@ run coo_d 0 2 0..3 t=60
//@ run coo_d 1..3 5 12 t=60
//@ run coo_i 0 2 0..2 t=60
//@ run coo_i 1..3 5 12 t=60
//@ run lil_d 0 2 0..3 t=60
//@ run lil_d 1..3 5 12 t=60
//@ run lil_i 0 2 0..2 t=60
//@ run lil_i 1..3 5 12 t=60
//@ run block 1..6 1..3 1..2 3 t=60
//@ run vec_d 0 0..5,40 t=60
//@ run vec_i 0 0..5,40 t=60
//@ run options 0 0..1 0..7 t=60
//@ run errors 0 0..3 t=60
//@ bounds dense matrices up to 4x4 and seeded ones up to 20x33; sparse matrices with every structure up to 2x3 and seeded ones up to 20x33; up to three insertions at every position and seeded sequences of twelve; block grids up to 3x2; vectors up to 40; every value symbolic (for the aligned dense form within what fits the column)
//@ assume streams are a model: a number printed with a number of digits is some number determined by the value and the digits; the native replay compares it with the value
//@ outside spacing, alignment and blank lines; numbers too long for their column
