// Model of the parts of <iostream>, <fstream>, <sstream>, <iomanip> that linalgcpp uses, for the
// symbolic build only.  Files live in an in-memory table.  A symbolic number is written as a token
// \x01<kind><index>; whose value (rounded to the stream's precision) comes back when it is read.
#pragma once
#include <cstddef>
#include <iosfwd>
#include <string>
#include <cstring>
#include <limits>
#include <memory>
#include <stdexcept>
extern "C" {
int __sym_is_symbolic_d(double); int __sym_is_symbolic_i(long); int __sym_is_undef_d(double);
double __sym_round_digits(double,int); int __sym_fmt_d(char*,int,double,int); double __sym_strtod(const char*,int*);
void* __sym_rt_alloc(unsigned long); void __sym_abandon(const char*); int __sym_conc(int);
int __symio_tok_d(double v); int __symio_tok_i(long v); double __symio_get_d(int); long __symio_get_i(int);
int __symio_fs_find(const char*name,int create); const char* __symio_fs_data(int); unsigned long __symio_fs_size(int);
void __symio_fs_store(int,const char*,unsigned long);
}
namespace std {
class ios_base { public:
  typedef unsigned fmtflags; typedef unsigned openmode; typedef unsigned iostate; typedef int seekdir;
  static constexpr fmtflags boolalpha=1, dec=2, fixed=4, hex=8, internal=16, left=32, oct=64, right=128, scientific=256, showbase=512, showpoint=1024, showpos=2048, skipws=4096, unitbuf=8192, uppercase=16384, adjustfield=32|128|16, basefield=2|8|64, floatfield=4|256;
  static constexpr openmode app=1, ate=2, binary=4, in=8, out=16, trunc=32;
  static constexpr iostate goodbit=0, badbit=1, eofbit=2, failbit=4;
  static constexpr seekdir beg=0, cur=1, end=2;
  class failure : public runtime_error { public: explicit failure(const string&s):runtime_error(s){} };
  fmtflags flags() const { return fl_; } fmtflags flags(fmtflags f){ fmtflags o=fl_; fl_=f; return o; }
  fmtflags setf(fmtflags f){ fmtflags o=fl_; fl_|=f; return o; } fmtflags setf(fmtflags f,fmtflags m){ fmtflags o=fl_; fl_=(fl_&~m)|(f&m); return o; } void unsetf(fmtflags m){ fl_&=~m; }
  streamsize precision() const { return prec_; } streamsize precision(streamsize p){ streamsize o=prec_; prec_=p; return o; }
  streamsize width() const { return wid_; } streamsize width(streamsize p){ streamsize o=wid_; wid_=p; return o; }
  static bool sync_with_stdio(bool=true){ return true; }
 protected: ios_base():fl_(dec|skipws),prec_(6),wid_(0){} 
  fmtflags fl_; streamsize prec_, wid_; };
template<typename C,typename T> class basic_streambuf { public: typedef C char_type; typedef T traits_type; };
template<typename C,typename T> class basic_ios : public ios_base { public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  iostate rdstate() const { return st_; } void clear(iostate s=goodbit){ st_=s; if(st_&exc_) throw ios_base::failure("stream failure"); } void setstate(iostate s){ clear(st_|s); }
  bool good() const { return st_==0; } bool eof() const { return st_&eofbit; } bool fail() const { return st_&(failbit|badbit); } bool bad() const { return st_&badbit; }
  explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
  C fill() const { return fill_; } C fill(C c){ C o=fill_; fill_=c; return o; } C widen(char c) const { return c; } char narrow(C c,char) const { return c; }
  iostate exceptions() const { return exc_; } void exceptions(iostate e){ exc_=e; clear(st_); }
  basic_ios& copyfmt(const basic_ios&o){ fl_=o.fl_; prec_=o.prec_; wid_=o.wid_; fill_=o.fill_; return *this; }
 protected: basic_ios():st_(0),exc_(0),fill_(' '),pos_(0),sink_(false),gc_(0){}
 public: iostate st_,exc_; C fill_; basic_string<C> buf_; size_t pos_; bool sink_; streamsize gc_; };
template<typename C,typename T> class basic_ostream : virtual public basic_ios<C,T> { public:
  basic_ostream(){} virtual ~basic_ostream(){}
  typedef basic_ostream self;
  void raw(const C*s,size_t n){ if(this->sink_||this->fail()) return; this->buf_.append(s,n); }
  void put_(const C*s,size_t n){ if(this->sink_) { this->wid_=0; return; } size_t w=this->wid_>0?this->wid_:0; this->wid_=0; if(n<w&&!(this->fl_&ios_base::left)) for(size_t i=n;i<w;i++) raw(&this->fill_,1); raw(s,n); if(n<w&&(this->fl_&ios_base::left)) for(size_t i=n;i<w;i++) raw(&this->fill_,1); }
  self& num(long v){ if(this->sink_) return *this; if(__sym_is_symbolic_i(v)){ tok('i',__symio_tok_i(v)); return *this; } char b[24]; int n=24; unsigned long u=v<0?0ul-(unsigned long)v:(unsigned long)v; unsigned base=(this->fl_&ios_base::hex)?16:(this->fl_&ios_base::oct)?8:10; do{ b[--n]="0123456789abcdef"[u%base]; u/=base; }while(u); if(v<0) b[--n]='-'; else if(this->fl_&ios_base::showpos) b[--n]='+'; put_(b+n,24-n); return *this; }
  self& unum(unsigned long u){ if((long)u>=0) return num((long)u); if(this->sink_) return *this; char b[24]; int n=24; do{ b[--n]='0'+u%10; u/=10; }while(u); put_(b+n,24-n); return *this; }
  void tok(char k,int id){ char b[16]; int n=16; b[--n]=';'; do{ b[--n]='0'+id%10; id/=10; }while(id); b[--n]=k; b[--n]='\x01'; put_(b+n,16-n); }
  self& operator<<(int v){ return num(v); } self& operator<<(short v){ return num(v); } self& operator<<(long v){ return num(v); } self& operator<<(long long v){ return num(v); }
  self& operator<<(unsigned v){ return num((long)v); } self& operator<<(unsigned short v){ return num((long)v); } self& operator<<(unsigned long v){ return unum(v); } self& operator<<(unsigned long long v){ return unum(v); }
  self& operator<<(bool v){ if(this->fl_&ios_base::boolalpha){ if(v) put_("true",4); else put_("false",5); return *this; } return num(v?1:0); }
  self& operator<<(double v){ if(this->sink_) return *this; int p=(int)this->prec_; int fx=(this->fl_&ios_base::fixed)?1:(this->fl_&ios_base::scientific)?2:0; if(__sym_is_symbolic_d(v)){ double r= fx==1? (p>=13? v: __sym_round_digits(v,p)) : fx==2? __sym_round_digits(v,p+1): __sym_round_digits(v,p==0?1:p); tok('d',__symio_tok_d(r)); return *this; } char b[400]; int n=__sym_fmt_d(b,p,v,fx); put_(b,n); return *this; }
  self& operator<<(float v){ return *this<<(double)v; } self& operator<<(long double v){ return *this<<(double)v; }
  self& operator<<(const void*){ put_("0x0",3); return *this; }
  self& operator<<(self&(*f)(self&)){ return f(*this); } self& operator<<(ios_base&(*f)(ios_base&)){ f(*this); return *this; } self& operator<<(basic_ios<C,T>&(*f)(basic_ios<C,T>&)){ f(*this); return *this; }
  self& put(C c){ raw(&c,1); return *this; } self& write(const C*s,streamsize n){ raw(s,n); return *this; } virtual self& flush(){ return *this; } 
  long tellp(){ return (long)this->buf_.size(); } };
inline basic_ostream<char>& __ostream_insert(basic_ostream<char>&o,const char*s,streamsize n){ o.put_(s,n); return o; }
inline basic_ostream<char>& operator<<(basic_ostream<char>&o,const char*s){ o.put_(s,strlen(s)); return o; }
inline basic_ostream<char>& operator<<(basic_ostream<char>&o,const string&s){ o.put_(s.data(),s.size()); return o; }
inline basic_ostream<char>& operator<<(basic_ostream<char>&o,char c){ o.put_(&c,1); return o; }
inline basic_ostream<char>& operator<<(basic_ostream<char>&o,signed char c){ char d=c; o.put_(&d,1); return o; }
inline basic_ostream<char>& operator<<(basic_ostream<char>&o,unsigned char c){ char d=c; o.put_(&d,1); return o; }
template<typename O,typename T> inline typename enable_if<!is_lvalue_reference<O>::value&&is_convertible<typename remove_reference<O>::type*,basic_ostream<char>*>::value,O>::type&& operator<<(O&&o,const T&x){ static_cast<basic_ostream<char>&>(o)<<x; return std::move(o); }
template<typename C,typename T> inline basic_ostream<C,T>& endl(basic_ostream<C,T>&o){ C c='\n'; o.raw(&c,1); return o.flush(); }
template<typename C,typename T> inline basic_ostream<C,T>& flush(basic_ostream<C,T>&o){ return o.flush(); }
template<typename C,typename T> inline basic_ostream<C,T>& ends(basic_ostream<C,T>&o){ C c=0; o.raw(&c,1); return o; }
#define SYMIO_MAN(n,set) inline ios_base& n(ios_base&b){ set; return b; }
SYMIO_MAN(fixed,b.setf(ios_base::fixed,ios_base::floatfield)) SYMIO_MAN(scientific,b.setf(ios_base::scientific,ios_base::floatfield)) SYMIO_MAN(defaultfloat,b.unsetf(ios_base::floatfield))
SYMIO_MAN(left,b.setf(ios_base::left,ios_base::adjustfield)) SYMIO_MAN(right,b.setf(ios_base::right,ios_base::adjustfield)) SYMIO_MAN(internal,b.setf(ios_base::internal,ios_base::adjustfield))
SYMIO_MAN(boolalpha,b.setf(ios_base::boolalpha)) SYMIO_MAN(noboolalpha,b.unsetf(ios_base::boolalpha)) SYMIO_MAN(dec,b.setf(ios_base::dec,ios_base::basefield)) SYMIO_MAN(hex,b.setf(ios_base::hex,ios_base::basefield)) SYMIO_MAN(oct,b.setf(ios_base::oct,ios_base::basefield))
SYMIO_MAN(skipws,b.setf(ios_base::skipws)) SYMIO_MAN(noskipws,b.unsetf(ios_base::skipws)) SYMIO_MAN(showpos,b.setf(ios_base::showpos)) SYMIO_MAN(noshowpos,b.unsetf(ios_base::showpos)) SYMIO_MAN(showpoint,b.setf(ios_base::showpoint)) SYMIO_MAN(noshowpoint,b.unsetf(ios_base::showpoint)) SYMIO_MAN(uppercase,b.setf(ios_base::uppercase)) SYMIO_MAN(nouppercase,b.unsetf(ios_base::uppercase))
#undef SYMIO_MAN
struct _Setw{int n;}; struct _Setp{int n;}; struct _Setf{char c;}; struct _Setfl{unsigned f; bool on;};
inline _Setw setw(int n){ return {n}; } inline _Setp setprecision(int n){ return {n}; } inline _Setf setfill(char c){ return {c}; } inline _Setfl setiosflags(unsigned f){ return {f,true}; } inline _Setfl resetiosflags(unsigned f){ return {f,false}; }
inline basic_ostream<char>& operator<<(basic_ostream<char>&o,_Setw w){ o.width(w.n); return o; } inline basic_ostream<char>& operator<<(basic_ostream<char>&o,_Setp w){ o.precision(w.n); return o; } inline basic_ostream<char>& operator<<(basic_ostream<char>&o,_Setf w){ o.fill(w.c); return o; } inline basic_ostream<char>& operator<<(basic_ostream<char>&o,_Setfl w){ if(w.on) o.setf(w.f); else o.unsetf(w.f); return o; }

inline bool __symio_ws(char c){ return c==' '||c=='\n'||c=='\t'||c=='\r'||c=='\v'||c=='\f'; }
template<typename C,typename T> class basic_istream : virtual public basic_ios<C,T> { public:
  typedef basic_istream self; basic_istream(){} virtual ~basic_istream(){}
  const C* d(){ return this->buf_.data(); } size_t n(){ return this->buf_.size(); }
  bool sentry_(bool skip=true){ if(this->st_){ this->setstate(ios_base::failbit); return false; } if(skip&&(this->fl_&ios_base::skipws)) while(this->pos_<n()&&__symio_ws(d()[this->pos_])) this->pos_++; if(this->pos_>=n()){ if(skip){ this->setstate(ios_base::eofbit|ios_base::failbit); return false; } } return true; }
  bool tokAt(char&k,int&id){ size_t p=this->pos_; if(p+2<n()&&d()[p]=='\x01'){ k=d()[p+1]; p+=2; id=0; while(p<n()&&d()[p]!=';'){ id=id*10+(d()[p]-'0'); p++; } this->pos_=p+1; if(this->pos_>=n()) this->st_|=ios_base::eofbit; return true; } return false; }
  // integer: returns false on failure
  template<typename I> self& geti(I&v){ if(!sentry_()){ return *this; } char k; int id; if(tokAt(k,id)){ if(k=='i') v=(I)__symio_get_i(id); else { __sym_abandon("symbolic real read as integer"); } return *this; }
    bool neg=false; size_t p=this->pos_; if(p<n()&&(d()[p]=='-'||d()[p]=='+')){ neg=d()[p]=='-'; p++; } bool any=false,ov=false; unsigned long u=0; while(p<n()){ char c=d()[p]; if(!(c>='0'&&c<='9')) break; any=true; if(u>(~0ul-9)/10) ov=true; u=u*10+(unsigned long)(c-'0'); p++; } this->pos_=p; unsigned st=0; if(p>=n()) st|=ios_base::eofbit;
    if(!any){ v=0; st|=ios_base::failbit; } else { if(numeric_limits<I>::is_signed){ unsigned long mx=(unsigned long)numeric_limits<I>::max(); if(ov||u>mx+(neg?1:0)){ v=neg?numeric_limits<I>::min():numeric_limits<I>::max(); st|=ios_base::failbit; } else v=(I)(neg?0ul-u:u); } else { unsigned long mx=(unsigned long)numeric_limits<I>::max(); if(ov||u>mx){ v=numeric_limits<I>::max(); st|=ios_base::failbit; } else v=(I)(neg?0ul-u:u); } }
    if(st) this->setstate(st); return *this; }
  self& operator>>(int&v){ return geti(v); } self& operator>>(long&v){ return geti(v); } self& operator>>(long long&v){ return geti(v); } self& operator>>(unsigned&v){ return geti(v); } self& operator>>(unsigned long&v){ return geti(v); } self& operator>>(unsigned long long&v){ return geti(v); } self& operator>>(short&v){ return geti(v); } self& operator>>(unsigned short&v){ return geti(v); }
  self& operator>>(bool&v){ if(this->fl_&ios_base::boolalpha){ if(!sentry_()) return *this; size_t p=this->pos_; if(n()-p>=4&&memcmp(d()+p,"true",4)==0){ v=true; this->pos_+=4; } else if(n()-p>=5&&memcmp(d()+p,"false",5)==0){ v=false; this->pos_+=5; } else { v=false; this->setstate(ios_base::failbit); } return *this; } long l=0; geti(l); if(this->fail()){ v=false; return *this; } if(l==0) v=false; else { v=true; if(l!=1) this->setstate(ios_base::failbit); } return *this; }
  self& operator>>(double&v){ if(!sentry_()) return *this; char k; int id; if(tokAt(k,id)){ v= k=='d'? __symio_get_d(id):(double)__symio_get_i(id); return *this; }
    size_t p=this->pos_; char b[80]; int m=0; bool dig=false,dot=false,ex=false; while(p<n()&&m<78){ char c=d()[p]; if(c>='0'&&c<='9'){ dig=true; } else if((c=='+'||c=='-')&&(m==0||(b[m-1]=='e'))) {} else if(c=='.'&&!dot&&!ex) dot=true; else if((c=='e'||c=='E')&&dig&&!ex){ ex=true; c='e'; } else break; b[m++]=c; p++; } b[m]=0; this->pos_=p; unsigned st=0; if(p>=n()) st|=ios_base::eofbit; int used=0; double r=0; if(dig){ r=__sym_strtod(b,&used); } if(!dig||used!=m){ v=0; st|=ios_base::failbit; } else v=r; if(st) this->setstate(st); return *this; }
  self& operator>>(float&v){ double x=0; *this>>x; v=(float)x; return *this; }
  self& operator>>(self&(*f)(self&)){ return f(*this); } self& operator>>(ios_base&(*f)(ios_base&)){ f(*this); return *this; }
  typename T::int_type get(){ this->gc_=0; if(!sentry_(false)) return T::eof(); if(this->pos_>=n()){ this->setstate(ios_base::eofbit|ios_base::failbit); return T::eof(); } this->gc_=1; return T::to_int_type(d()[this->pos_++]); }
  self& get(C&c){ auto x=get(); if(x!=T::eof()) c=(C)x; return *this; }
  typename T::int_type peek(){ if(this->st_) return T::eof(); if(this->pos_>=n()){ this->setstate(ios_base::eofbit); return T::eof(); } return T::to_int_type(d()[this->pos_]); }
  self& unget(){ if(this->pos_>0) this->pos_--; this->st_&=~ios_base::eofbit; return *this; } self& putback(C){ return unget(); }
  self& ignore(streamsize k=1,typename T::int_type delim=T::eof()){ for(streamsize i=0;i<k;i++){ if(this->pos_>=n()){ this->setstate(ios_base::eofbit); break; } C c=d()[this->pos_++]; if(T::to_int_type(c)==delim) break; } return *this; }
  self& read(C*s,streamsize k){ this->gc_=0; if(!sentry_(false)) return *this; size_t av=n()-(this->pos_<n()?this->pos_:n()); size_t m=(size_t)k<av?(size_t)k:av; if(m) memcpy(s,d()+this->pos_,m); this->pos_+=m; this->gc_=m; if(m<(size_t)k) this->setstate(ios_base::eofbit|ios_base::failbit); return *this; }
  streamsize gcount() const { return this->gc_; } long tellg(){ return this->fail()?-1:(long)this->pos_; }
  self& seekg(long p){ this->st_&=~ios_base::eofbit; this->pos_=p; return *this; } self& seekg(long p,int dir){ this->st_&=~ios_base::eofbit; this->pos_= dir==ios_base::beg? p: dir==ios_base::cur? this->pos_+p: n()+p; return *this; }
  self& getline_(string&s,C delim){ if(!sentry_(false)){ return *this; } s.clear(); bool any=false; for(;;){ if(this->pos_>=n()){ this->setstate(any? ios_base::eofbit: (ios_base::eofbit|ios_base::failbit)); break; } C c=d()[this->pos_++]; any=true; if(c==delim) break; s.push_back(c); } return *this; }
  self& gets_(string&s){ if(!sentry_()) return *this; s.clear(); streamsize w=this->wid_>0?this->wid_:0x7fffffff; this->wid_=0; while(this->pos_<n()&&w-->0){ C c=d()[this->pos_]; if(__symio_ws(c)) break; s.push_back(c); this->pos_++; } if(this->pos_>=n()) this->setstate(ios_base::eofbit); if(s.empty()) this->setstate(ios_base::failbit); return *this; } };
inline basic_istream<char>& operator>>(basic_istream<char>&i,string&s){ return i.gets_(s); }
inline basic_istream<char>& operator>>(basic_istream<char>&i,char&c){ if(i.sentry_()) i.get(c); return i; }
inline basic_istream<char>& operator>>(basic_istream<char>&i,_Setw w){ i.width(w.n); return i; }
inline basic_istream<char>& getline(basic_istream<char>&i,string&s,char delim){ return i.getline_(s,delim); }
inline basic_istream<char>& getline(basic_istream<char>&i,string&s){ return i.getline_(s,'\n'); }
inline basic_istream<char>& getline(basic_istream<char>&&i,string&s){ return i.getline_(s,'\n'); }
template<typename C,typename T> inline basic_istream<C,T>& ws(basic_istream<C,T>&i){ while(i.pos_<i.n()&&__symio_ws(i.d()[i.pos_])) i.pos_++; if(i.pos_>=i.n()) i.setstate(ios_base::eofbit); return i; }
template<typename I,typename T> inline typename enable_if<!is_lvalue_reference<I>::value&&is_convertible<typename remove_reference<I>::type*,basic_istream<char>*>::value,I>::type&& operator>>(I&&i,T&&x){ static_cast<basic_istream<char>&>(i)>>std::forward<T>(x); return std::move(i); }
template<typename C,typename T> class basic_iostream : public basic_istream<C,T>, public basic_ostream<C,T> {};
inline namespace __cxx11 {
template<typename C,typename T,typename A> class basic_stringstream : public basic_iostream<C,T> { public:
  basic_stringstream(){} explicit basic_stringstream(ios_base::openmode){} explicit basic_stringstream(const string&s,ios_base::openmode=ios_base::in|ios_base::out){ this->buf_=s; }
  string str() const { return this->buf_; } void str(const string&s){ this->buf_=s; this->pos_=0; } };
template<typename C,typename T,typename A> class basic_istringstream : public basic_istream<C,T> { public: basic_istringstream(){} explicit basic_istringstream(const string&s,ios_base::openmode=ios_base::in){ this->buf_=s; } string str() const { return this->buf_; } void str(const string&s){ this->buf_=s; this->pos_=0; } };
template<typename C,typename T,typename A> class basic_ostringstream : public basic_ostream<C,T> { public: basic_ostringstream(){} explicit basic_ostringstream(const string&s,ios_base::openmode=ios_base::out){ this->buf_=s; } string str() const { return this->buf_; } void str(const string&s){ this->buf_=s; } };
}
template<typename C,typename T> class basic_ifstream : public basic_istream<C,T> { int id_; public: basic_ifstream():id_(-1){} explicit basic_ifstream(const char*n,ios_base::openmode=ios_base::in):id_(-1){ open(n); } explicit basic_ifstream(const string&n,ios_base::openmode=ios_base::in):id_(-1){ open(n.c_str()); }
  void open(const char*n,ios_base::openmode=ios_base::in){ id_=__symio_fs_find(n,0); if(id_<0) this->setstate(ios_base::failbit); else { this->clear(); this->pos_=0; this->buf_.assign(__symio_fs_data(id_),__symio_fs_size(id_)); } } void open(const string&n,ios_base::openmode m=ios_base::in){ open(n.c_str(),m); }
  bool is_open() const { return id_>=0; } void close(){ if(id_<0) this->setstate(ios_base::failbit); id_=-1; this->buf_.clear(); this->pos_=0; } };
template<typename C,typename T> class basic_ofstream : public basic_ostream<C,T> { int id_; public: basic_ofstream():id_(-1){} explicit basic_ofstream(const char*n,ios_base::openmode m=ios_base::out):id_(-1){ open(n,m); } explicit basic_ofstream(const string&n,ios_base::openmode m=ios_base::out):id_(-1){ open(n.c_str(),m); }
  void open(const char*n,ios_base::openmode m=ios_base::out){ id_=__symio_fs_find(n,1); if(id_<0) this->setstate(ios_base::failbit); else { this->clear(); if(m&ios_base::app) this->buf_.assign(__symio_fs_data(id_),__symio_fs_size(id_)); else { this->buf_.clear(); __symio_fs_store(id_,"",0); } } } void open(const string&n,ios_base::openmode m=ios_base::out){ open(n.c_str(),m); }
  bool is_open() const { return id_>=0; } basic_ofstream& flush() override { if(id_>=0) __symio_fs_store(id_,this->buf_.data(),this->buf_.size()); return *this; } void close(){ if(id_<0){ this->setstate(ios_base::failbit); return; } flush(); id_=-1; this->buf_.clear(); } ~basic_ofstream(){ if(id_>=0) close(); } };
template<typename C,typename T> class basic_fstream;
struct __SinkStream : basic_ostream<char> { __SinkStream(){ this->sink_=true; } };
extern basic_ostream<char>& __symio_cout(); 
struct __InStream : basic_istream<char> {};
static basic_ostream<char>& cout=__symio_cout(); static basic_ostream<char>& cerr=__symio_cout(); static basic_ostream<char>& clog=__symio_cout();
}
