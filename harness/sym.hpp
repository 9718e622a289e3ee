// Harness vocabulary shared by the symbolic build (lsym executes it) and the native replay build.
#pragma once
#include <vector>
#include <string>
#include <tuple>
#include <cmath>
#include <cstring>
extern "C" {
int __sym_native(); int __sym_int(const char*,int,int); double __sym_real(const char*); double __sym_real_range(const char*,double,double);
void __sym_assume(int); void __sym_check(int,const char*); void __sym_check_eq(double,double,const char*); int __sym_eq(double,double); int __sym_conc(int); int __sym_fork(int); void __sym_cover(const char*);
void __sym_log_i(const char*,long); void __sym_log_d(const char*,double); int __sym_param(int); int __sym_is_symbolic_d(double); int __sym_is_undef_d(double);
int __sym_try(void(*)(void*),void*); void __sym_fail(const char*); void __sym_end(); void __sym_abandon(const char*); void __sym_leak_ok(); double __sym_uf1(const char*,double); double __sym_uf2(const char*,double,double);
int __sym_readable(const void*,unsigned long); int __sym_addr_alive(const void*); int __sym_same_object(const void*,const void*); long __sym_fiber(void(*)(void*),void*); void __sym_switch(long); double __sym_round_digits(double,int);
}
#define H(name) extern "C" void name()
#define CHECK(c,msg) __sym_check((c)?1:0,msg)
#define CHECKEQ(a,b,msg) __sym_check_eq((double)(a),(double)(b),msg)
#define COVER(m) __sym_cover(m)
#define ASSUME(c) __sym_assume((c)?1:0)
inline int conc(int x){ return __sym_conc(x); }
inline int SI(const char*n,int lo,int hi){ return __sym_int(n,lo,hi); }        // symbolic integer
inline int CI(const char*n,int lo,int hi){ return __sym_conc(__sym_int(n,lo,hi)); } // symbolic integer, case-split
inline double SR(const char*n){ return __sym_real(n); }
inline double SR(const char*n,double lo,double hi){ return __sym_real_range(n,lo,hi); }
inline int P(int i){ return __sym_param(i); }
template<class F> inline int TRY(F f){ struct L{ static void call(void*p){ (*(F*)p)(); } }; return __sym_try(&L::call,&f); }
#define REFUSED(expr,msg) do{ auto f__=[&]{ expr; }; CHECK(TRY(f__)!=0,msg); }while(0)
#define THROWS(expr,msg) do{ auto f__=[&]{ expr; }; CHECK(TRY(f__)==1,msg); }while(0)
#define ACCEPTED(expr,msg) do{ auto f__=[&]{ expr; }; CHECK(TRY(f__)==0,msg); }while(0)

template<class T> struct Val_{ static T get(const char*n){ return (T)SR(n); } };
template<> struct Val_<int>{ static int get(const char*n){ return SI(n,-6,6); } };
template<class T> inline T SV(const char*n){ return Val_<T>::get(n); }

// dense reference matrix
struct Ref { int r,c; std::vector<double> v; Ref(int r_=0,int c_=0):r(r_),c(c_),v((size_t)r_*c_,0.0){} double& at(int i,int j){ return v[(size_t)i*c+j]; } double at(int i,int j) const { return v[(size_t)i*c+j]; }
  Ref t() const { Ref o(c,r); for(int i=0;i<r;i++) for(int j=0;j<c;j++) o.at(j,i)=at(i,j); return o; } };
inline Ref mul(const Ref&a,const Ref&b){ Ref o(a.r,b.c); for(int i=0;i<a.r;i++) for(int j=0;j<b.c;j++){ double s=0; for(int k=0;k<a.c;k++) s+=a.at(i,k)*b.at(k,j); o.at(i,j)=s; } return o; }
inline std::vector<double> mul(const Ref&a,const std::vector<double>&x){ std::vector<double> y(a.r,0.0); for(int i=0;i<a.r;i++){ double s=0; for(int k=0;k<a.c;k++) s+=a.at(i,k)*x[k]; y[i]=s; } return y; }
inline void eqRef(const Ref&a,const Ref&b,const char*m){ CHECK(a.r==b.r&&a.c==b.c,m); for(size_t i=0;i<a.v.size();i++) CHECKEQ(a.v[i],b.v[i],m); }
template<class A,class B> inline void eqVec(const A&a,const B&b,const char*m){ int n=(int)b.size(); CHECK((int)a.size()==n,m); for(int i=0;i<n;i++) CHECKEQ(a[i],b[i],m); }

// pseudo-random choices for concrete structures (seeded by a parameter)
struct Lcg { unsigned long s; explicit Lcg(unsigned long x):s(x*2654435761ul+12345){} int next(int n){ s=s*6364136223846793005ul+1442695040888963407ul; return n<=0?0:(int)((s>>33)%(unsigned long)n); } };

template<class T> struct Csr { int r,c; std::vector<int> ptr,idx; std::vector<T> dat;
  Ref ref() const { Ref a(r,c); for(int i=0;i<r;i++) for(int j=ptr[i];j<ptr[i+1];j++) a.at(i,idx[j])+=(double)dat[j]; return a; } };
// a case-split position for parameter 0 = 0, one drawn from the seed otherwise
inline int PK(const char*n,int lo,int hi,Lcg&g){ return P(0)==0? CI(n,lo,hi) : lo+g.next(hi-lo+1); }
enum { DUP=0, DISTINCT=1, SORTED=2 };
// fully symbolic structure: every row length 0..maxper, every column index and every value
template<class T=double> inline Csr<T> symCsr(const char*nm,int r,int c,int maxper,int kind=DUP){
  Csr<T> a; a.r=r; a.c=c; a.ptr.push_back(0); for(int i=0;i<r;i++){ int mx=c==0?0:maxper; if(kind!=DUP&&mx>c) mx=c; int len=mx?CI((std::string(nm)+"_len").c_str(),0,mx):0; int st=a.idx.size(); for(int k=0;k<len;k++){ int j=SI((std::string(nm)+"_col").c_str(),0,c-1); if(kind==SORTED&&k>0) ASSUME(j>a.idx[st+k-1]); if(kind==DISTINCT) for(int q=0;q<k;q++) ASSUME(j!=a.idx[st+q]); a.idx.push_back(j); a.dat.push_back(SV<T>((std::string(nm)+"_val").c_str())); } a.ptr.push_back(a.idx.size()); } return a; }
// structures that are almost special: parameter 0 from 1000000 on picks the family (P(0)-1000000)%18
enum { PATTERNS=18 };
inline std::vector<std::vector<int>> patRows(int r,int c,int kind,Lcg&g,int which){
  std::vector<std::vector<int>> m(r); int d=r<c?r:c; auto sw=[&](std::vector<int>&v,int lo,int hi){ if(hi-lo>=2){ int x=lo+g.next(hi-lo),y=lo+g.next(hi-lo-1); if(y>=x) y++; std::swap(v[x],v[y]); } }; if(c==0||r==0) return m;
  auto perm=[&](int lo,int hi){ std::vector<int> q(d); for(int i=0;i<d;i++) q[i]=i; sw(q,lo,hi); for(int i=0;i<d;i++) m[i].push_back(q[i]); };
  switch(which){
   case 0: perm(0,d); break;                                             // the identity with two columns exchanged
   case 1: perm(1,d-1); break;                                           // ... away from the ends
   case 2: for(int i=0;i<r;i++) for(int j=0;j<=i&&j<c;j++) m[i].push_back(j); break; // lower triangle
   case 3: for(int i=0;i<r;i++) for(int j=i;j<c;j++) m[i].push_back(j); break;       // upper triangle
   case 4: for(int i=0;i<r;i++){ for(int j=0;j<c;j++) m[i].push_back(j); if(i==r/2) sw(m[i],0,c); } break; // full, one row with two columns exchanged
   case 5: for(int i=0;i<r;i++){ for(int j=0;j<c;j++) m[i].push_back(j); if(i==r/2) m[i].erase(m[i].begin()+g.next(c)); } break; // full but one entry
   case 6: for(int i=0;i<r;i++) for(int j=i-1;j<=i+1;j++) if(j>=0&&j<c) m[i].push_back(j); break; // tridiagonal
   case 7: for(int i=0;i<r;i++){ if(i<c) m[i].push_back(i); if(i>0&&i!=c) m[i].push_back(0); } for(int j=1;j<c;j++) m[0].push_back(j); break; // arrow
   case 8: for(int i=0;i<r;i++) if(i!=r/2) m[i]={0,c-1}; if(r>0) m[r/2]={c-1}; break;  // equal rows but one
   case 9: for(int j=0;j<c;j++) m[g.next(1)+r/2].push_back(j); break;       // one full row
   case 10: { int j=c/2; for(int i=0;i<r;i++) m[i].push_back(j); } break;  // one full column
   case 11: for(int i=0;i<d;i++) m[i].push_back(i); m[d/2].push_back(kind==DUP?d/2:0); break; // the diagonal and one more
   case 12: for(int i=r/2;i<r;i++){ m[i].push_back(c-1); m[i].push_back(0); } break; // empty rows first, the rest descending
   case 13: for(int i=0;i<r;i+=2){ m[i].push_back(i%c); m[i].push_back((i+1)%c); } break; // every other row empty
   case 14: for(int i=0;i<r;i++) for(int j=c-1;j>=0;j--) m[i].push_back(j); break; // full, descending
   case 15: for(int i=0;i<d;i++) if(i!=d/2) m[i].push_back(i); break;      // the diagonal with one entry missing
   case 16: for(int i=0;i<d;i++) m[i].push_back(d-1-i); break;             // the antidiagonal
   default: for(int i=0;i<r;i++){ m[i].push_back(i%c); if(kind==DUP){ m[i].push_back((i+1)%c); m[i].push_back(i%c); } } break; // a duplicate with another column in between
  }
  for(auto&v:m){ if(kind!=DUP){ std::vector<int> u; for(int x:v){ bool s=false; for(int y:u) s|=x==y; if(!s) u.push_back(x); } v=u; } if(kind==SORTED) for(size_t x=1;x<v.size();x++) for(size_t y=x;y>0&&v[y-1]>v[y];y--) std::swap(v[y-1],v[y]); }
  return m; }
// index lists that are almost the identity: for parameter 0 from 1000000 on
inline std::vector<int> nearIdentity(int k,int n,Lcg&g){ std::vector<int> v; for(int i=0;i<k;i++) v.push_back(n?i%n:0); int w=g.next(5); if(k>3&&w<2) std::swap(v[1+g.next(k-2)],v[1+g.next(k-2)]); if(k>1&&w==2) std::swap(v[0],v[k-1]); if(w==3) for(int i=0,j=k-1;i<j;i++,j--) std::swap(v[i],v[j]); if(k>3) std::swap(v[1],v[2]); return v; }
// concrete structure drawn from a seed, symbolic values
template<class T=double> inline Csr<T> rndCsr(const char*nm,int r,int c,int maxper,int kind,Lcg&g){
  Csr<T> a; a.r=r; a.c=c; a.ptr.push_back(0); if(P(0)>=1000000){ auto m=patRows(r,c,kind,g,(P(0)-1000000+(nm[0]=='a'?0:(P(0)-1000000)/PATTERNS))%PATTERNS); for(auto&v:m){ for(int j:v){ a.idx.push_back(j); a.dat.push_back(SV<T>((std::string(nm)+"_val").c_str())); } a.ptr.push_back(a.idx.size()); } return a; } for(int i=0;i<r;i++){ int len=c==0?0:g.next(maxper+1); if(kind!=DUP&&len>c) len=c; std::vector<int> cs; if(kind==DUP){ for(int k=0;k<len;k++) cs.push_back(g.next(c)); } else { std::vector<int> all(c); for(int q=0;q<c;q++) all[q]=q; for(int k=0;k<len;k++){ int q=k+g.next(c-k); int t=all[k]; all[k]=all[q]; all[q]=t; cs.push_back(all[k]); } if(kind==SORTED) for(int x=1;x<len;x++) for(int y=x;y>0&&cs[y-1]>cs[y];y--){ int t=cs[y]; cs[y]=cs[y-1]; cs[y-1]=t; } } for(int k=0;k<len;k++){ a.idx.push_back(cs[k]); a.dat.push_back(SV<T>((std::string(nm)+"_val").c_str())); } a.ptr.push_back(a.idx.size()); } return a; }
// parameter-driven: P(0)=0 symbolic structure, otherwise seed
template<class T=double> inline Csr<T> genCsr(const char*nm,int r,int c,int maxper,int kind,Lcg&g){ return P(0)==0? symCsr<T>(nm,r,c,maxper,kind): rndCsr<T>(nm,r,c,maxper,kind,g); }
