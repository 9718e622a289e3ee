#include "lapack.hpp"
#include "../harness/sym.hpp"
static std::vector<KCall>*g_kc; std::vector<KCall>& kcalls(){ if(!g_kc) g_kc=new std::vector<KCall>; return *g_kc; } void kclear(){ delete g_kc; g_kc=nullptr; }
extern "C" { int klapack_info=0; }
static void need(bool c,const char*m){ if(!c) { __sym_fail(m); } }
static bool rd(const void*p,long n,size_t sz){ return n<=0||(p!=nullptr&&__sym_readable(p,(unsigned long)(n*(long)sz))); }
static bool mat(const double*a,int r,int c,int ld){ return r<=0||c<=0||rd(a,(long)ld*(c-1)+r,8); }
static std::vector<double> grab(const double*a,int r,int c,int ld){ std::vector<double> v; if((long)r*c>100000) return v; /* sizes only */ for(int j=0;j<c;j++) for(int i=0;i<r;i++) v.push_back(a[(long)j*ld+i]); return v; }
static std::vector<double> fresh(const char*n,double*a,int r,int c,int ld){ std::vector<double> v; if((long)r*c>100000) return v; for(int j=0;j<c;j++) for(int i=0;i<r;i++){ double x=SR(n); a[(long)j*ld+i]=x; v.push_back(x); } return v; }
static int mx(int a,int b){ return a>b?a:b; } static int mn(int a,int b){ return a<b?a:b; }
static bool tr(char c){ return c=='T'||c=='t'||c=='C'||c=='c'; } static bool no(char c){ return c=='N'||c=='n'; }
static KCall& rec(const char*n,int m,int nn,int k,bool q){ KCall c; c.name=n; c.m=m; c.n=nn; c.k=k; c.query=q; kcalls().push_back(c); return kcalls().back(); }
extern "C" {
void dgemm_(const char*ta,const char*tb,const int*m_,const int*n_,const int*k_,const double*al,const double*A,const int*lda,const double*B,const int*ldb,const double*be,double*C,const int*ldc){
  int m=*m_,n=*n_,k=*k_; need(no(*ta)||tr(*ta),"dgemm: illegal transA"); need(no(*tb)||tr(*tb),"dgemm: illegal transB"); need(m>=0&&n>=0&&k>=0,"dgemm: negative dimension");
  int ra=no(*ta)?m:k,ca=no(*ta)?k:m,rb=no(*tb)?k:n,cb=no(*tb)?n:k; need(*lda>=mx(1,ra),"dgemm: illegal lda (XERBLA stops the program)"); need(*ldb>=mx(1,rb),"dgemm: illegal ldb (XERBLA stops the program)"); need(*ldc>=mx(1,m),"dgemm: illegal ldc (XERBLA stops the program)");
  if(m==0||n==0) return; need(mat(C,m,n,*ldc),"dgemm: C smaller than described"); if(k>0){ need(mat(A,ra,ca,*lda),"dgemm: A smaller than described"); need(mat(B,rb,cb,*ldb),"dgemm: B smaller than described"); }
  double a=*al,b=*be;
  for(int j=0;j<n;j++) for(int i=0;i<m;i++){ double s=0; for(int q=0;q<k;q++) s+=(no(*ta)?A[(long)q**lda+i]:A[(long)i**lda+q])*(no(*tb)?B[(long)j**ldb+q]:B[(long)q**ldb+j]); double&c=C[(long)j**ldc+i]; if(b==0.0) c=a*s; else c=a*s+b*c; } }
void dgemv_(const char*t,const int*m_,const int*n_,const double*al,const double*A,const int*lda,const double*x,const int*incx,const double*be,double*y,const int*incy){
  int m=*m_,n=*n_; need(no(*t)||tr(*t),"dgemv: illegal trans"); need(m>=0&&n>=0,"dgemv: negative dimension"); need(*lda>=mx(1,m),"dgemv: illegal lda (XERBLA stops the program)"); need(*incx!=0&&*incy!=0,"dgemv: zero increment"); if(m==0||n==0) return;
  need(mat(A,m,n,*lda),"dgemv: A smaller than described"); if(*incx<0||*incy<0) __sym_abandon("dgemv with negative increments"); int ly=no(*t)?m:n,lx=no(*t)?n:m;
  for(int i=0;i<ly;i++){ double s=0; for(int j=0;j<lx;j++) s+=(no(*t)?A[(long)j**lda+i]:A[(long)i**lda+j])*x[(long)j**incx]; double&c=y[(long)i**incy]; if(*be==0.0) c=*al*s; else c=*al*s+*be*c; } }
void dgetrf_(const int*m_,const int*n_,double*A,const int*lda,int*ipiv,int*info){ int m=*m_,n=*n_; need(m>=0&&n>=0,"dgetrf: negative dimension"); need(*lda>=mx(1,m),"dgetrf: illegal lda"); need(mat(A,m,n,*lda),"dgetrf: A smaller than described"); int k=mn(m,n); need(rd(ipiv,k,4),"dgetrf: ipiv smaller than min(m,n)");
  KCall&c=rec("dgetrf",m,n,k,false); c.inA=grab(A,m,n,*lda); c.outA=fresh("getrf",A,m,n,*lda); for(int i=0;i<k;i++){ ipiv[i]=m-(i%2); if(ipiv[i]<1) ipiv[i]=1; c.ints.push_back(ipiv[i]); } *info=klapack_info; }
void dgetri_(const int*n_,double*A,const int*lda,int*ipiv,double*work,const int*lwork,int*info){ int n=*n_; need(n>=0,"dgetri: negative dimension"); need(*lda>=mx(1,n),"dgetri: illegal lda"); bool q=*lwork==-1; need(q||*lwork>=mx(1,n),"dgetri: workspace too small"); *info=0; need(rd(work,1,8),"dgetri: no workspace"); if(q){ work[0]=mx(1,n)*2; return; }
  need(rd(work,*lwork,8),"dgetri: workspace smaller than described"); need(mat(A,n,n,*lda),"dgetri: A smaller than described"); need(rd(ipiv,n,4),"dgetri: ipiv smaller than n"); KCall&c=rec("dgetri",n,n,n,false); c.inA=grab(A,n,n,*lda); for(int i=0;i<n;i++) c.ints.push_back(ipiv[i]); if(klapack_info>0){ *info=klapack_info; return; } c.outA=fresh("getri",A,n,n,*lda); for(int i=0;i<*lwork;i++) work[i]=-7; work[0]=n; }
void dgesvd_(const char*ju,const char*jv,const int*m_,const int*n_,double*A,const int*lda,double*S,double*U,const int*ldu,double*VT,const int*ldvt,double*work,const int*lwork,int*info){ int m=*m_,n=*n_,k=mn(m,n),M=mx(m,n);
  char u=*ju&~32,v=*jv&~32; need(u=='A'||u=='S'||u=='O'||u=='N',"dgesvd: illegal jobu"); need((v=='A'||v=='S'||v=='O'||v=='N')&&!(u=='O'&&v=='O'),"dgesvd: illegal jobvt"); need(m>=0&&n>=0,"dgesvd: negative dimension"); need(*lda>=mx(1,m),"dgesvd: illegal lda"); need(*ldu>=1&&!((u=='A'||u=='S')&&*ldu<m),"dgesvd: illegal ldu"); need(*ldvt>=1&&!(v=='A'&&*ldvt<n)&&!(v=='S'&&*ldvt<k),"dgesvd: illegal ldvt");
  int minw=mx(1,mx(3*k+M,5*k)); bool q=*lwork==-1; need(q||*lwork>=minw,"dgesvd: workspace too small"); need(rd(work,1,8),"dgesvd: no workspace"); *info=0; if(q){ work[0]=minw+3; return; } if(m==0||n==0) return; need(rd(work,*lwork,8),"dgesvd: workspace smaller than described"); need(mat(A,m,n,*lda),"dgesvd: A smaller than described"); need(rd(S,k,8),"dgesvd: S smaller than min(m,n)");
  KCall&c=rec("dgesvd",m,n,k,false); c.opt=std::string()+u+v; c.inA=grab(A,m,n,*lda); for(int i=0;i<*lwork;i++) work[i]=-7; for(int i=0;i<k;i++){ S[i]=SR("sv",0,64); if(i) ASSUME(S[i]<=S[i-1]); c.outB.push_back(S[i]); }
  std::vector<double> junk=fresh("svdA",A,m,n,*lda); if(u=='O') c.outA=std::vector<double>(junk.begin(),junk.begin()+(long)m*k); if(u=='S'||u=='A'){ int nc=u=='A'?m:k; need(mat(U,m,nc,*ldu),"dgesvd: U smaller than described"); c.outA=fresh("svdU",U,m,nc,*ldu); } if(v=='O') c.outC=grab(A,k,n,*lda); if(v=='S'||v=='A'){ int nr=v=='A'?n:k; need(mat(VT,nr,n,*ldvt),"dgesvd: VT smaller than described"); c.outC=fresh("svdV",VT,nr,n,*ldvt); } *info=klapack_info; }
void dgeqp3_(const int*m_,const int*n_,double*A,const int*lda,int*jpvt,double*tau,double*work,const int*lwork,int*info){ int m=*m_,n=*n_,k=mn(m,n); need(m>=0&&n>=0,"dgeqp3: negative dimension"); need(*lda>=mx(1,m),"dgeqp3: illegal lda"); bool q=*lwork==-1; int minw=k==0?1:3*n+1; need(q||*lwork>=minw,"dgeqp3: workspace too small"); need(rd(work,1,8),"dgeqp3: no workspace"); *info=0; if(q){ work[0]=minw+2; return; } if(k==0) return;
  need(rd(work,*lwork,8),"dgeqp3: workspace smaller than described"); need(mat(A,m,n,*lda),"dgeqp3: A smaller than described"); need(rd(jpvt,n,4),"dgeqp3: jpvt smaller than n"); need(rd(tau,k,8),"dgeqp3: tau smaller than min(m,n)"); KCall&c=rec("dgeqp3",m,n,k,false); c.inA=grab(A,m,n,*lda); for(int j=0;j<n;j++) c.ints.push_back(jpvt[j]); c.outA=fresh("qp3",A,m,n,*lda); c.outB=fresh("tau",tau,k,1,k); for(int j=0;j<n;j++) jpvt[j]=n-j; for(int i=0;i<*lwork;i++) work[i]=-7; *info=0; }
void dgeqrf_(const int*m_,const int*n_,double*A,const int*lda,double*tau,double*work,const int*lwork,int*info){ int m=*m_,n=*n_,k=mn(m,n); need(m>=0&&n>=0,"dgeqrf: negative dimension"); need(*lda>=mx(1,m),"dgeqrf: illegal lda"); bool q=*lwork==-1; need(q||*lwork>=mx(1,n),"dgeqrf: workspace too small"); need(rd(work,1,8),"dgeqrf: no workspace"); *info=0; if(q){ work[0]=mx(1,n)+2; return; } if(k==0) return; need(rd(work,*lwork,8),"dgeqrf: workspace smaller than described"); need(mat(A,m,n,*lda),"dgeqrf: A smaller than described"); need(rd(tau,k,8),"dgeqrf: tau smaller than min(m,n)"); KCall&c=rec("dgeqrf",m,n,k,false); c.inA=grab(A,m,n,*lda); c.outA=fresh("qrf",A,m,n,*lda); c.outB=fresh("tau",tau,k,1,k); }
void dorgqr_(const int*m_,const int*n_,const int*k_,double*A,const int*lda,double*tau,double*work,const int*lwork,int*info){ int m=*m_,n=*n_,k=*k_; need(m>=0,"dorgqr: negative m"); need(n>=0&&n<=m,"dorgqr: illegal n (must not exceed m; XERBLA stops the program)"); need(k>=0&&k<=n,"dorgqr: illegal k"); need(*lda>=mx(1,m),"dorgqr: illegal lda"); bool q=*lwork==-1; need(q||*lwork>=mx(1,n),"dorgqr: workspace too small"); need(rd(work,1,8),"dorgqr: no workspace"); *info=0; if(q){ work[0]=mx(1,n)*3; return; } if(n==0) return; need(rd(work,*lwork,8),"dorgqr: workspace smaller than described"); need(mat(A,m,n,*lda),"dorgqr: A smaller than described"); need(rd(tau,k,8),"dorgqr: tau smaller than k");
  KCall&c=rec("dorgqr",m,n,k,false); c.inA=grab(A,m,n,*lda); c.inB=grab(tau,k,1,k); c.outA=fresh("orgqr",A,m,n,*lda); for(int i=0;i<*lwork;i++) work[i]=-7; *info=klapack_info; }
void dsytrd_(const char*uplo,const int*n_,double*A,const int*lda,double*d,double*e,double*tau,double*work,const int*lwork,int*info){ int n=*n_; need((*uplo&~32)=='U'||(*uplo&~32)=='L',"dsytrd: illegal uplo"); need(n>=0,"dsytrd: negative dimension"); need(*lda>=mx(1,n),"dsytrd: illegal lda"); bool q=*lwork==-1; need(q||*lwork>=1,"dsytrd: workspace too small"); need(rd(work,1,8),"dsytrd: no workspace"); *info=0; if(q){ work[0]=mx(1,2*n); return; } if(n==0) return; need(rd(work,*lwork,8),"dsytrd: workspace smaller than described"); need(mat(A,n,n,*lda),"dsytrd: A smaller than described"); need(rd(d,n,8),"dsytrd: d smaller than n"); need(rd(e,n-1,8)&&rd(tau,n-1,8),"dsytrd: e or tau smaller than n-1");
  KCall&c=rec("dsytrd",n,n,n,false); c.opt=std::string()+*uplo; c.inA=grab(A,n,n,*lda); c.outA=fresh("trdA",A,n,n,*lda); for(int i=0;i<n;i++){ d[i]=SR("trd_d"); c.outB.push_back(d[i]); } for(int i=0;i<n-1;i++){ e[i]=SR("trd_e"); tau[i]=SR("trd_tau"); c.outC.push_back(e[i]); } for(int i=0;i<n-1;i++) c.outC.push_back(tau[i]); for(int i=0;i<*lwork;i++) work[i]=-7; }
void dsterf_(const int*n_,double*d,double*e,int*info){ int n=*n_; need(n>=0,"dsterf: negative dimension"); need(rd(d,n,8)&&rd(e,n-1,8),"dsterf: d or e too small"); KCall&c=rec("dsterf",n,n,n,false); c.inA=grab(d,n,1,n); c.inB=grab(e,n-1,1,n); for(int i=0;i<n;i++){ d[i]=SR("eval",-32,32); if(i) ASSUME(d[i]>=d[i-1]); c.outA.push_back(d[i]); } for(int i=0;i<n-1;i++) e[i]=-7; *info=0; }
void dstein_(const int*n_,const double*d,const double*e,const int*m_,const double*w,const int*iblock,const int*isplit,double*z,const int*ldz,double*work,int*iwork,int*ifail,int*info){ int n=*n_,m=*m_; need(n>=0,"dstein: negative dimension"); need(m>=0&&m<=n,"dstein: illegal m"); need(*ldz>=mx(1,n),"dstein: illegal ldz"); *info=0; if(n==0||m==0) return; need(rd(d,n,8)&&rd(e,n-1,8),"dstein: d or e too small"); need(rd(w,m,8),"dstein: w too small"); need(rd(iblock,m,4)&&rd(isplit,1,4),"dstein: iblock or isplit too small"); need(mat(z,n,m,*ldz),"dstein: z smaller than described"); need(rd(work,5*n,8),"dstein: work smaller than 5n"); need(rd(iwork,n,4),"dstein: iwork smaller than n"); need(rd(ifail,m,4),"dstein: ifail smaller than m");
  for(int i=0;i<m;i++) need(iblock[i]==1,"dstein: iblock does not describe a single block"); need(isplit[0]==n,"dstein: isplit does not end at n"); for(int i=1;i<m;i++) need(w[i]>=w[i-1],"dstein: eigenvalues not ordered"); KCall&c=rec("dstein",n,n,m,false); c.inA=grab(d,n,1,n); c.inB=grab(e,n-1,1,n); c.inC=grab(w,m,1,m); c.outA=fresh("steinz",z,n,m,*ldz); for(int i=0;i<m;i++) ifail[i]=0; for(int i=0;i<5*n;i++) work[i]=-7; for(int i=0;i<n;i++) iwork[i]=-7; }
void dormtr_(const char*side,const char*uplo,const char*trans,const int*m_,const int*n_,const double*A,const int*lda,const double*tau,double*C,const int*ldc,double*work,const int*lwork,int*info){ int m=*m_,n=*n_; char s=*side&~32; need(s=='L'||s=='R',"dormtr: illegal side"); need((*uplo&~32)=='U'||(*uplo&~32)=='L',"dormtr: illegal uplo"); need(no(*trans)||tr(*trans),"dormtr: illegal trans"); need(m>=0&&n>=0,"dormtr: negative dimension"); int nq=s=='L'?m:n,nw=s=='L'?n:m; need(*lda>=mx(1,nq),"dormtr: illegal lda"); need(*ldc>=mx(1,m),"dormtr: illegal ldc"); bool q=*lwork==-1; need(q||*lwork>=mx(1,nw),"dormtr: workspace too small"); need(rd(work,1,8),"dormtr: no workspace"); *info=0; if(q){ work[0]=mx(1,nw*2); return; } if(m==0||n==0||nq==1) { KCall&c=rec("dormtr",m,n,nq,false); c.opt=std::string()+s+*uplo+*trans; c.inC=grab(C,m,n,*ldc); c.outA=c.inC; return; } need(rd(work,*lwork,8),"dormtr: workspace smaller than described"); need(mat(A,nq,nq,*lda),"dormtr: A smaller than described"); need(mat(C,m,n,*ldc),"dormtr: C smaller than described"); need(rd(tau,nq-1,8),"dormtr: tau too small");
  KCall&c=rec("dormtr",m,n,nq,false); c.opt=std::string()+s+*uplo+*trans; c.inA=grab(A,nq,nq,*lda); c.inB=grab(tau,nq-1,1,nq); c.inC=grab(C,m,n,*ldc); c.outA=fresh("ormtr",C,m,n,*ldc); for(int i=0;i<*lwork;i++) work[i]=-7; }
}
