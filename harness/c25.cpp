// C25: minimal residual methods
#include "krylov.hpp"
struct Sys { Ref A,M; D b,x0; double s; };
static Sys sys(int n,int seed,int pre,bool w,int guess,const double*scale=nullptr){ Lcg g(seed*103+n); Sys S; S.s=scale?*scale:SR("scale",0.125,64); do { S.A=symInt(n,g); } while(n&&det(S.A)==0); S.M= pre==2? spd(n,g): diagOf(n,g); if(w){ S.A=weighted(S.A); if(pre==2) S.M=weighted(S.M); } S.b=ints(n,g,S.s); S.x0= guess==0? D(n,0.0): guess==2? ints(n,g,S.s): guess==1? ints(n,g,S.s): symVec("x0",n); if(guess==2) S.b=mul(S.A,S.x0); if(guess==3) S.b=axpy(mul(S.A,S.x0),1.0,S.b); return S; }
static double nrm2(const Sys&S,int pre,bool w,const D&x){ D r=residual(S.A,S.b,x); return dot(r,pre?mul(S.M,r):r,w); }
// the smallest residual over x0 + span{v, K v, ..., K^(k-1) v}; fewer steps once the solution is exact
struct RefMR { std::vector<D> x; D rr; };
static RefMR refMR(const Sys&S,int pre,bool w,const D&x0,int k){ RefMR o; D r0=residual(S.A,S.b,x0); o.x.push_back(x0); o.rr.push_back(nrm2(S,pre,w,x0)); const double tiny=1e-18*o.rr[0]; if(o.rr[0]<=0) return o; std::vector<D> V,AV; D v=pre?mul(S.M,r0):r0;
  for(int j=1;j<=k;j++){ V.push_back(v); AV.push_back(mul(S.A,v)); v=pre?mul(S.M,AV.back()):AV.back(); int m=j; Ref G(m,m+1); for(int a=0;a<m;a++){ D q=pre?mul(S.M,AV[a]):AV[a]; for(int b=0;b<m;b++) G.at(a,b)=dot(q,AV[b],w); G.at(a,m)=dot(q,r0,w); } for(int c=0;c<m;c++) for(int r=0;r<m;r++) if(r!=c){ double f=G.at(r,c)/G.at(c,c); for(int q=c;q<=m;q++) G.at(r,q)-=f*G.at(c,q); } D x=x0; for(int c=0;c<m;c++) x=axpy(x,G.at(c,m)/G.at(c,c),V[c]); o.x.push_back(x); o.rr.push_back(nrm2(S,pre,w,x)); if(o.rr.back()<=tiny) break; } return o; }
static void verdict(const Sys&S,int pre,bool w,int maxit,double rel,double abs,const D&x,int it,const D&x0){ RefMR R=refMR(S,pre,w,x0,maxit); CHECK(it>=0&&it<=maxit,"never more iterations than allowed"); CHECK(it<(int)R.x.size(),"no iteration after the exact solution"); D u(x),v(R.x[it]); CHECK(u.size()==v.size(),"solution of the right size"); for(auto&z:u) z+=37.25*S.s; for(auto&z:v) z+=37.25*S.s; eqVec(u,v,"the reported number of minimal residual iterations was performed"); double tol=R.rr[0]*rel*rel; if(abs*abs>tol) tol=abs*abs; if(it<maxit) CHECK(R.rr[it]<=tol,"stops before the limit only within the tolerance"); }
template<class F> static void solveWith(int n,const Sys&S,int pre,bool w,int guess,int maxit,double rel,double abs,Solver&mr,const F&name){ CHECK(mr.Rows()==n&&mr.Cols()==n,name); D h(n+2,7.5); for(int i=0;i<n;i++) h[i+1]=S.x0[i]; VectorView<double> x(h.data()+1,n); Vector<double> b=vec(S.b); static_cast<const Operator&>(mr).Mult(b,x); D xr(h.begin()+1,h.begin()+1+n); CHECK(h[0]==7.5&&h[n+1]==7.5,"nothing outside the solution is touched"); eqVec(b,S.b,"right-hand side unchanged"); verdict(S,pre,w,maxit,rel,abs,xr,mr.GetNumIterations(),S.x0);
  if(maxit>=n){ bool tight=rel==0&&abs<1e-5; if(tight){ D r=residual(S.A,S.b,xr); for(double v:r) CHECKEQ(S.s+v,S.s,"the exact solution within as many steps as the dimension"); } } if(guess!=3){ const Operator&O=mr; Vector<double> y=O.Mult(b); verdict(S,pre,w,maxit,rel,abs,asD(y),mr.GetNumIterations(),D(n,0.0)); } eqVec(b,S.b,"right-hand side unchanged"); }
H(solve){ int n=P(1),pre=P(2),w=P(3),guess=P(4),maxit=P(5),tk=P(6); { Sys S=sys(n,P(0),pre,w,guess); double rel= tk==0?1e-5: tk==1?0.5: 0.0, abs= tk==2?1e-3: tk==1?1e-4: 0.0; Op A(S.A),M(S.M); DotF dt=w?wdot:pdot; bool verbose=n%2; if(pre){ PMINRESSolver mr; PMINRESSolver c(A,M,maxit,rel,abs,verbose,dt); mr=c; solveWith(n,S,pre,w,guess,maxit,rel,abs,mr,"dimensions of the solver"); CHECK(mr.GetOperator()==&A,"operator of the solver"); } else { MINRESSolver mr; MINRESSolver c(A,maxit,rel,abs,verbose,dt); mr=c; solveWith(n,S,pre,w,guess,maxit,rel,abs,mr,"dimensions of the solver"); CHECK(mr.GetOperator()==&A,"operator of the solver"); } eqRef(A.R,S.A,"operator unchanged"); } COVER("end"); }
H(freefn){ int n=P(1),pre=P(2),maxit=P(3); { Sys S=sys(n,P(0),pre,false,1); Op A(S.A),M(S.M); Vector<double> b=vec(S.b),x=vec(S.x0); if(pre) PMINRES(A,M,b,x,maxit,0.0,1e-3); else MINRES(A,b,x,maxit,0.0,1e-3); RefMR R=refMR(S,pre,false,S.x0,maxit); eqVec(asD(x),R.x.back(),"in-place form starts from the given vector"); eqVec(b,S.b,"right-hand side unchanged"); } COVER("end"); }
H(scalar){ int pre=P(1),maxit=P(2); { Ref R(1,1),Q(1,1); R.at(0,0)=SR("a",-64,64); ASSUME(R.at(0,0)>=0.125||R.at(0,0)<=-0.125); Q.at(0,0)=SR("m",0.125,64); Op A(R),M(Q); double rho=SR("rho"); ASSUME(rho>=0.125||rho<=-0.125||(rho>=0.0&&rho<=0.0)); double x0=SR("x"),b0=rho+R.at(0,0)*x0; Vector<double> b(1,b0),x(1,x0); int it; if(pre){ PMINRESSolver s(A,M,maxit,0.0,1e-3); s.Mult(b,x); it=s.GetNumIterations(); } else { MINRESSolver s(A,maxit,0.0,1e-3); s.Mult(b,x); it=s.GetNumIterations(); } bool zero=rho>=0.0&&rho<=0.0; if(__sym_fork(zero)||maxit==0){ CHECKEQ(x[0],x0,"unchanged"); CHECK(it==0,"no iterations performed"); } else { CHECKEQ(x[0]*R.at(0,0),b0,"one unknown is solved in one step"); CHECK(it==1,"one iteration performed"); } CHECKEQ(b[0],b0,"right-hand side unchanged"); } COVER("end"); }
H(zero){ int n=P(1),pre=P(2); { Sys S=sys(n,P(0),pre,false,2); Op A(S.A),M(S.M); MINRESSolver m(A,5,0.0,0.0); PMINRESSolver p(A,M,5,0.0,0.0); const Solver&s=pre?static_cast<const Solver&>(p):m; const Operator&O=s; Vector<double> b=vec(S.b),x=vec(S.x0); O.Mult(b,static_cast<VectorView<double>&>(x)); eqVec(asD(x),S.x0,"an exact guess is returned unchanged"); CHECK(s.GetNumIterations()==0,"no iterations performed"); Vector<double> z(n,0.0); Vector<double> y=O.Mult(z); for(int i=0;i<n;i++) CHECKEQ(y[i],0.0,"zero right-hand side"); CHECK(s.GetNumIterations()==0,"no iterations performed"); } COVER("end"); }
template<class T,class MK> static void history(int n,int pre,const Sys&S,const Sys&Z,const Op&B,const Op&A,MK mkS,void(*setM)(T&,int)){ Vector<double> b=vec(S.b),c=vec(Z.b); T s=mkS(2*n); auto run=[&](T&q,const Sys&Y,const Vector<double>&rhs,int mi,double rel,double ab){ Vector<double> x=vec(Y.x0); q.Mult(rhs,x); Sys W=Y; W.b=dvec(rhs); verdict(W,pre,false,mi,rel,ab,asD(x),q.GetNumIterations(),Y.x0); }; (void)setM;
  run(s,S,b,2*n,0.0,1e-3); run(s,S,c,2*n,0.0,1e-3); run(s,S,b,2*n,0.0,1e-3); s.SetMaxIter(1); run(s,S,b,1,0.0,1e-3); s.SetMaxIter(n); s.SetRelTol(0.75); run(s,S,b,n,0.75,1e-3); s.SetRelTol(0.0); s.SetAbsTol(0.5); run(s,S,b,n,0.0,0.5); s.SetAbsTol(1e-3); s.SetVerbose(true); run(s,S,b,n,0.0,1e-3); s.SetVerbose(false); T t(s); s.SetMaxIter(0); run(t,S,b,n,0.0,1e-3); run(s,S,b,0,0.0,1e-3); s.SetOperator(B); s.SetMaxIter(2*n); Sys Zs=Z; Zs.M=S.M; run(s,Zs,c,2*n,0.0,1e-3); run(t,S,b,n,0.0,1e-3); CHECK(s.GetOperator()==&B&&t.GetOperator()==&A,"operators of the copies"); swap(s,t); run(s,S,b,n,0.0,1e-3); run(t,Zs,c,2*n,0.0,1e-3); T u(std::move(t)); run(u,Zs,c,2*n,0.0,1e-3); T v; v=u; run(v,Zs,c,2*n,0.0,1e-3); v=std::move(s); run(v,S,b,n,0.0,1e-3); CHECK(v.Rows()==n,"dimensions move along"); int k=v.GetNumIterations(); T w2(v); CHECK(w2.GetNumIterations()==k,"iteration count is copied"); }
H(reuse){ int n=P(1),pre=P(2); { Sys S=sys(n,P(0),pre,false,1),Z=sys(n,P(0)+50,pre,false,0,&S.s); Op A(S.A),M(S.M),B(Z.A); if(pre) history<PMINRESSolver>(n,pre,S,Z,B,A,[&](int it){ return PMINRESSolver(A,M,it,0.0,1e-3); },nullptr); else history<MINRESSolver>(n,pre,S,Z,B,A,[&](int it){ return MINRESSolver(A,it,0.0,1e-3); },nullptr); } COVER("end"); }
// solvers of different sizes change places: everything moves along, work space included
template<class T,class F,class G> static void mixed(const Sys&S,const Sys&Z,int pre,bool used,F mk1,G mk2){ auto run=[&](T&q,const Sys&Y){ CHECK(q.Rows()==Y.A.r&&q.Cols()==Y.A.r,"dimensions move along"); Vector<double> x=vec(Y.x0),b=vec(Y.b); q.Mult(b,x); verdict(Y,pre,false,2*Y.A.r,0.0,1e-3,asD(x),q.GetNumIterations(),Y.x0); };
  T s=mk1(),t=mk2(); if(used){ run(s,S); run(t,Z); } swap(s,t); run(s,Z); run(t,S); std::swap(s,t); run(s,S); run(t,Z); T u(std::move(s)); run(u,S); T v; v=std::move(t); run(v,Z); t=mk1(); run(t,S); t=v; run(t,Z); run(v,Z); v=u; run(v,S); u=std::move(t); run(u,Z); }
H(mixed){ int n=P(1),m=P(2),pre=P(3); { Sys S=sys(n,P(0),pre,false,1),Z=sys(m,P(0)+50,pre,false,1,&S.s); Op A(S.A),M(S.M),B(Z.A),N(Z.M); if(pre) mixed<PMINRESSolver>(S,Z,pre,P(4),[&]{ return PMINRESSolver(A,M,2*n,0.0,1e-3); },[&]{ return PMINRESSolver(B,N,2*m,0.0,1e-3); }); else mixed<MINRESSolver>(S,Z,pre,P(4),[&]{ return MINRESSolver(A,2*n,0.0,1e-3); },[&]{ return MINRESSolver(B,2*m,0.0,1e-3); }); } COVER("end"); }
//@ run solve 1..3 1..2 0..2 0 0..2 0,1,2 2 t=60
//@ run solve 1..3 1..2 0..2 0..1 3 1,2 2 t=60
//@ run solve 4 2 0..2 0..1 0 2 1,2 t=60
//@ run solve 5 3 0..2 0 0 3 2 t=60
//@ thorough solve 6..9 2 0..2 0..1 0..2 1,2 0..2 t=200
//@ thorough solve 6..8 3 0..2 0..1 0..1 2,3 1,2 t=400
//@ thorough solve 6..12 3 0..1 0..1 0..2 1,2,3 2 t=400
//@ thorough solve 1..2 4 0..1 0 0..2 2,4 2 t=600
//@ run freefn 1..2 1..2 0..1 0..2 t=60
//@ run scalar 0 0..1 0..2 t=60
//@ run mixed 1 1,3 2 0..2 0..1 t=60
//@ run zero 1..3 1..3 0..1 t=60
//@ run reuse 1..2 1..2 0..1 t=60
//@ bounds systems of up to 3 unknowns with small integer symmetric, mostly indefinite nonsingular matrices, plain, diagonally and fully preconditioned, plain and weighted inner product, every right-hand side and guess on a symbolic ray (one and two unknowns also with a fully symbolic guess), iteration limits 0..4, relative and absolute tolerances; one unknown with everything symbolic; sequences of some fifteen solves over reused, copied, moved, swapped and reconfigured solvers
//@ outside rounding errors, loss of orthogonality, general right-hand sides for two and more unknowns
