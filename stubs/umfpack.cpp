#include "umfpack.hpp"
#include "umfpack.h"
#include "../harness/sym.hpp"
static std::vector<UCall>*g_uc; std::vector<UCall>& ucalls(){ if(!g_uc) g_uc=new std::vector<UCall>; return *g_uc; } void uclear(){ delete g_uc; g_uc=nullptr; }
struct Num { unsigned magic; int n; std::vector<int> p,i; std::vector<double> x; }; static int g_live; int ulive(){ return g_live; }
extern "C" { int kumf_symbolic=0,kumf_numeric=0,kumf_solve=0; }
static void need(bool c,const char*m){ if(!c) __sym_fail(m); }
static bool rd(const void*p,long n,size_t sz){ return n<=0||(p!=nullptr&&__sym_readable(p,(unsigned long)(n*(long)sz))); }
static void ctl(const double*c,double*i){ need(!c||(rd(c,UMFPACK_CONTROL,8)&&c[UMFPACK_PIVOT_TOLERANCE]>0),"umfpack: control array too small or never initialised"); need(!i||rd(i,UMFPACK_INFO,8),"umfpack: info array too small"); }
static void info(double*i){ if(i) for(int k=0;k<UMFPACK_INFO;k++) i[k]=k; }
// the arrays must describe a matrix in sorted compressed column form
static bool shape(int n,const int*p,const int*i,const double*x){ need(rd(p,n+1,4),"umfpack: column pointers too short"); if(p[0]!=0) return false; for(int j=0;j<n;j++) if(p[j]>p[j+1]) return false; int m=conc(p[n]); need(rd(i,m,4),"umfpack: indices too short"); need(!x||rd(x,m,8),"umfpack: values too short"); for(int j=0;j<n;j++) for(int k=p[j];k<p[j+1];k++){ if(i[k]<0||i[k]>=n) return false; if(k>p[j]&&i[k]<=i[k-1]) return false; } return true; }
extern "C" {
void umfpack_di_defaults(double c[UMFPACK_CONTROL]){ if(!c) return; need(rd(c,UMFPACK_CONTROL,8),"umfpack: control array too small"); for(int k=0;k<UMFPACK_CONTROL;k++) c[k]=0; c[UMFPACK_PRL]=1; c[UMFPACK_PIVOT_TOLERANCE]=0.1; c[UMFPACK_IRSTEP]=2; }
int umfpack_di_symbolic(int nr,int nc,const int*p,const int*i,const double*x,void**s,const double*c,double*inf){ ctl(c,inf); need(s,"umfpack: no symbolic handle"); *s=nullptr; info(inf); if(nr<=0||nc<=0) return UMFPACK_ERROR_n_nonpositive; need(nr==nc,"umfpack: solver for a rectangular matrix"); if(!p||!i) return UMFPACK_ERROR_argument_missing; if(!shape(nr,p,i,x)) return UMFPACK_ERROR_invalid_matrix; if(kumf_symbolic) return kumf_symbolic; Num*q=new Num; q->magic=0x51; q->n=nr; q->p.assign(p,p+nr+1); q->i.assign(i,i+p[nr]); *s=q; return UMFPACK_OK; }
int umfpack_di_numeric(const int*p,const int*i,const double*x,void*s,void**nu,const double*c,double*inf){ ctl(c,inf); need(nu,"umfpack: no numeric handle"); *nu=nullptr; info(inf); Num*q=(Num*)s; if(!q||q->magic!=0x51) return UMFPACK_ERROR_invalid_Symbolic_object; if(!p||!i||!x) return UMFPACK_ERROR_argument_missing; if(!shape(q->n,p,i,x)) return UMFPACK_ERROR_invalid_matrix; for(int k=0;k<=q->n;k++) if(p[k]!=q->p[k]) return UMFPACK_ERROR_different_pattern; for(int k=0;k<(int)q->i.size();k++) if(i[k]!=q->i[k]) return UMFPACK_ERROR_different_pattern; if(kumf_numeric<0) return kumf_numeric; Num*m=new Num(*q); m->magic=0x4e; m->x.assign(x,x+q->i.size()); *nu=m; g_live++; return kumf_numeric; }
void umfpack_di_free_symbolic(void**s){ if(!s||!*s) return; Num*q=(Num*)*s; need(q->magic==0x51,"umfpack: not a symbolic handle"); q->magic=0; delete q; *s=nullptr; }
void umfpack_di_free_numeric(void**s){ if(!s||!*s) return; Num*q=(Num*)*s; need(q->magic==0x4e,"umfpack: not a numeric handle"); q->magic=0; delete q; *s=nullptr; g_live--; }
int umfpack_di_solve(int sys,const int*p,const int*i,const double*x,double*X,const double*B,void*nu,const double*c,double*inf){ ctl(c,inf); info(inf); Num*q=(Num*)nu; if(!q||q->magic!=0x4e) return UMFPACK_ERROR_invalid_Numeric_object; if(!X||!B) return UMFPACK_ERROR_argument_missing; need(sys==UMFPACK_A||sys==UMFPACK_At||sys==UMFPACK_Aat,"umfpack: unexpected system"); int n=q->n; need(rd(p,n+1,4),"umfpack: column pointers too short"); need(rd(i,(long)q->i.size(),4)&&rd(x,(long)q->i.size(),8),"umfpack: arrays shorter than at factorization"); for(int k=0;k<=n;k++) need(p[k]==q->p[k],"umfpack: matrix changed since factorization"); for(size_t k=0;k<q->i.size();k++){ need(i[k]==q->i[k],"umfpack: matrix changed since factorization"); need(__sym_eq(x[k],q->x[k]),"umfpack: matrix changed since factorization"); } need(rd(B,n,8),"umfpack: right-hand side too short"); need(rd(X,n,8),"umfpack: solution too short"); if(kumf_solve) return kumf_solve;
  UCall u; u.n=n; u.transposed=sys!=UMFPACK_A; u.A.assign((size_t)n*n,0.0); for(int j=0;j<n;j++) for(int k=p[j];k<p[j+1];k++) u.A[(size_t)conc(i[k])*n+j]+=x[k]; for(int k=0;k<n;k++) u.b.push_back(B[k]); for(int k=0;k<n;k++){ double v=SR("sol"); X[k]=v; u.x.push_back(v); } ucalls().push_back(u); return UMFPACK_OK; }
void umfpack_di_report_info(const double*c,const double*i){ ctl(c,const_cast<double*>(i)); }
void umfpack_di_report_status(const double*c,int){ ctl(c,nullptr); }
}
