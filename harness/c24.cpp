// C24: conjugate gradients
#include "krylov.hpp"
// textbook conjugate gradients: iterate k and the squared preconditioned residual norms
struct RefCG { std::vector<D> x; D rz; };
static RefCG refCG(const Ref&A,const Ref*M,const D&b,const D&x0,int k,bool w,double stop){ RefCG o; D x=x0,r=residual(A,b,x),z=M?mul(*M,r):r,p=z; double rz=dot(z,r,w); o.x.push_back(x); o.rz.push_back(rz); for(int i=0;i<k&&!(rz<=stop);i++){ D Ap=mul(A,p); double al=rz/dot(p,Ap,w); x=axpy(x,al,p); r=residual(A,b,x); z=M?mul(*M,r):r; double n=dot(z,r,w); p=axpy(z,n/rz,p); rz=n; o.x.push_back(x); o.rz.push_back(rz); } return o; }
struct Sys { Ref A,M; D b,x0; double s; };
static Sys sys(int n,int seed,int pre,bool w,int guess,const double*scale=nullptr){ Lcg g(seed*101+n); Sys S; S.s= scale?*scale:SR("scale",0.125,64); S.A=spd(n,g); S.M= pre==2? spd(n,g): diagOf(n,g); if(w){ S.A=weighted(S.A); if(pre==2) S.M=weighted(S.M); } S.b=ints(n,g,S.s); S.x0= guess==0? D(n,0.0): guess==1? ints(n,g,S.s): D(); if(guess==2){ D x=ints(n,g,S.s); S.x0=x; S.b=mul(S.A,x); } if(guess==3){ S.x0=symVec("x0",n); S.b=axpy(mul(S.A,S.x0),1.0,S.b); } if(guess==4){ S.x0=D(n,0.0); S.x0[n-1]=S.s*9.094947017729282e-13; } if(guess==5){ S.x0=D(n,0.0); S.x0[0]=S.s; S.b=D(n,0.0); S.b[n-1]=S.s*9.094947017729282e-13; } return S; }
// what one solve must deliver
static void verdict(const Sys&S,int pre,bool w,int maxit,double rel,double abs,const D&x,int it,const D&x0,const char*){ RefCG R=refCG(S.A,pre?&S.M:nullptr,S.b,x0,maxit,w,0.0); double r0=R.rz[0],tol=r0*rel*rel; if(abs*abs>tol) tol=abs*abs; CHECK(it>=0&&it<=maxit,"never more iterations than allowed"); CHECK(it<(int)R.x.size(),"no iteration after the exact solution"); eqVec(x,R.x[it],"the reported number of conjugate gradient iterations was performed"); if(it<maxit) CHECK(R.rz[it]<=tol,"stops before the limit only within the tolerance"); for(int k=0;k<it;k++) CHECK(R.rz[k]>tol,"stops as soon as the tolerance is met"); }
H(solve){ int n=P(1),pre=P(2),w=P(3),guess=P(4),maxit=P(5),tk=P(6); { Sys S=sys(n,P(0),pre,w,guess); double rel= tk==0?1e-9: tk==1?0.5: tk==2?0.0:0.0, abs= tk==0?0.0: tk==1?1e-9: tk==2?1e-6: SR("abs",0,2000); if(tk==3) ASSUME(abs>=0.125); Op A(S.A),M(S.M); DotF dt=w?wdot:pdot; PCGSolver cg; bool verbose=n%2; if(pre){ PCGSolver c(A,M,maxit,rel,abs,verbose,dt); cg=c; } else { PCGSolver c(A,maxit,rel,abs,verbose,dt); cg=c; } CHECK(cg.Rows()==n&&cg.Cols()==n,"dimensions of the solver"); CHECK(cg.GetOperator()==&A,"operator of the solver");
  D h(n+2,7.5); for(int i=0;i<n;i++) h[i+1]=S.x0[i]; VectorView<double> x(h.data()+1,n); Vector<double> b=vec(S.b); cg.Mult(b,x); D xr(h.begin()+1,h.begin()+1+n); CHECK(h[0]==7.5&&h[n+1]==7.5,"nothing outside the solution is touched"); eqVec(b,S.b,"right-hand side unchanged"); verdict(S,pre,w,maxit,rel,abs,xr,cg.GetNumIterations(),S.x0,"");
  if(maxit>=n&&tk==2){ D r=residual(S.A,S.b,xr); for(double v:r) CHECKEQ(v,0.0,"the exact solution within as many steps as the dimension"); } if(guess!=3){ const Operator&O=cg; Vector<double> y=O.Mult(b); verdict(S,pre,w,maxit,rel,abs,asD(y),cg.GetNumIterations(),D(n,0.0),""); } eqVec(b,S.b,"right-hand side unchanged"); eqRef(A.R,S.A,"operator unchanged"); } COVER("end"); }
H(freefn){ int n=P(1),pre=P(2),maxit=P(3); { Sys S=sys(n,P(0),pre,false,1); Op A(S.A),M(S.M); Vector<double> b=vec(S.b),x=vec(S.x0); if(pre) PCG(A,M,b,x,maxit,0.0,1e-6); else CG(A,b,x,maxit,0.0,1e-6); RefCG R=refCG(S.A,pre?&S.M:nullptr,S.b,S.x0,maxit,false,0.0); eqVec(asD(x),R.x.back(),"in-place form starts from the given vector"); eqVec(b,S.b,"right-hand side unchanged"); } COVER("end"); }
// one unknown: everything symbolic
H(scalar){ int pre=P(1),maxit=P(2); { Ref R(1,1),Q(1,1); R.at(0,0)=SR("a",0.125,64); Q.at(0,0)=SR("m",0.125,64); Op A(R),M(Q); double rho=SR("rho"),x0=SR("x"),b0=rho+R.at(0,0)*x0,abs=SR("abs",0,64),rel=SR("rel",0,1); ASSUME(abs>=0.125||abs<=0.0); Vector<double> b(1,b0),x(1,x0); double r=b0-R.at(0,0)*x0,rz=r*r*(pre?Q.at(0,0):1.0),tol=rz*rel*rel; if(abs*abs>tol) tol=abs*abs; PCGSolver s=pre?PCGSolver(A,M,maxit,rel,abs):PCGSolver(A,maxit,rel,abs); s.Mult(b,x); int it=s.GetNumIterations(); bool conv=rz<=tol; if(__sym_fork(conv)){ CHECKEQ(x[0],x0,"a guess within the tolerance is returned unchanged"); CHECK(it==0,"no iterations performed"); } else if(maxit==0){ CHECKEQ(x[0],x0,"no iteration allowed"); CHECK(it==0,"no iterations performed"); } else { CHECKEQ(x[0]*R.at(0,0),b0,"one unknown is solved in one step"); CHECK(it==1,"one iteration performed"); } CHECKEQ(b[0],b0,"right-hand side unchanged"); } COVER("end"); }
H(random_guess){ int pre=P(1); { Ref R(1,1),Q(1,1); R.at(0,0)=SR("a",0.125,64); Q.at(0,0)=SR("m",0.125,64); Op A(R),M(Q); double b0=SR("b"); Vector<double> b(1,b0); Vector<double> x=pre?PCG(A,M,b,1,0.0,0.0):CG(A,b,1,0.0,0.0); CHECK(x.size()==1,"solution of the right size"); CHECKEQ(x[0]*R.at(0,0),b0,"solved from whatever guess"); CHECKEQ(b[0],b0,"right-hand side unchanged"); Vector<double> y=pre?PCG(A,M,b,0):CG(A,b,0); CHECK(y[0]>=0.0&&y[0]<=1.0,"the guess itself when no iteration is allowed"); } COVER("end"); }
// one solver object used again, copied, moved, swapped and reconfigured
H(reuse){ int n=P(1),pre=P(2); { Sys S=sys(n,P(0),pre,false,1),T=sys(n,P(0)+50,pre,false,0,&S.s); Op A(S.A),M(S.M),B(T.A),N(T.M); Vector<double> b=vec(S.b),c=vec(T.b); auto mkS=[&](int it){ return pre?PCGSolver(A,M,it,0.0,1e-6):PCGSolver(A,it,0.0,1e-6); };
  PCGSolver s=mkS(2*n); auto run=[&](PCGSolver&q,const Sys&Y,const Vector<double>&rhs,int mi,double rel,double ab){ Vector<double> x=vec(Y.x0); q.Mult(rhs,x); Sys Z=Y; Z.b=dvec(rhs); verdict(Z,pre,false,mi,rel,ab,asD(x),q.GetNumIterations(),Y.x0,""); }; run(s,S,b,2*n,0.0,1e-6); run(s,S,c,2*n,0.0,1e-6); run(s,S,b,2*n,0.0,1e-6); s.SetMaxIter(1); run(s,S,b,1,0.0,1e-6); s.SetMaxIter(n); s.SetRelTol(0.75); run(s,S,b,n,0.75,1e-6); s.SetRelTol(0.0); s.SetAbsTol(4.0); run(s,S,b,n,0.0,4.0); s.SetAbsTol(1e-6); s.SetVerbose(true); run(s,S,b,n,0.0,1e-6); s.SetVerbose(false);
  PCGSolver t(s); s.SetMaxIter(0); run(t,S,b,n,0.0,1e-6); run(s,S,b,0,0.0,1e-6); s.SetOperator(B); if(pre) s.SetPreconditioner(N); s.SetMaxIter(2*n); CHECK(s.GetOperator()==&B&&t.GetOperator()==&A,"operators of the copies"); run(s,T,c,2*n,0.0,1e-6); run(t,S,b,n,0.0,1e-6); swap(s,t); run(s,S,b,n,0.0,1e-6); run(t,T,c,2*n,0.0,1e-6); PCGSolver u(std::move(t)); run(u,T,c,2*n,0.0,1e-6); PCGSolver v; v=u; run(v,T,c,2*n,0.0,1e-6); v=std::move(s); run(v,S,b,n,0.0,1e-6); CHECK(v.Rows()==n,"dimensions move along"); int k=v.GetNumIterations(); PCGSolver w2(v); CHECK(w2.GetNumIterations()==k,"iteration count is copied"); } COVER("end"); }
// solvers of different sizes change places: everything moves along, work space included
H(mixed){ int n=P(1),m=P(2),pre=P(3); { Sys S=sys(n,P(0),pre,false,1),T=sys(m,P(0)+50,pre,false,1,&S.s); Op A(S.A),M(S.M),B(T.A),N(T.M); auto mk1=[&]{ return pre?PCGSolver(A,M,2*n,0.0,1e-6):PCGSolver(A,2*n,0.0,1e-6); }; auto mk2=[&]{ return pre?PCGSolver(B,N,2*m,0.0,1e-6):PCGSolver(B,2*m,0.0,1e-6); }; auto run=[&](PCGSolver&q,const Sys&Y){ CHECK(q.Rows()==Y.A.r&&q.Cols()==Y.A.r,"dimensions move along"); Vector<double> x=vec(Y.x0),b=vec(Y.b); q.Mult(b,x); verdict(Y,pre,false,2*Y.A.r,0.0,1e-6,asD(x),q.GetNumIterations(),Y.x0,""); };
  PCGSolver s=mk1(),t=mk2(); if(P(4)){ run(s,S); run(t,T); } swap(s,t); run(s,T); run(t,S); std::swap(s,t); run(s,S); run(t,T); PCGSolver u(std::move(s)); run(u,S); PCGSolver v; v=std::move(t); run(v,T); t=mk1(); run(t,S); t=v; run(t,T); run(v,T); v=u; run(v,S); u=std::move(t); run(u,T); } COVER("end"); }
H(zero){ int n=P(1),pre=P(2); { Sys S=sys(n?n:1,P(0),pre,false,2); double s=S.s; Op A(S.A),M(S.M); PCGSolver cg=pre?PCGSolver(A,M,5,0.0,0.0):PCGSolver(A,5,0.0,0.0); Vector<double> b=vec(S.b),x=vec(S.x0); cg.Mult(b,x); eqVec(asD(x),S.x0,"an exact guess is returned unchanged"); CHECK(cg.GetNumIterations()==0,"no iterations performed"); Vector<double> z(S.A.r,0.0); const Operator&O=cg; Vector<double> y=O.Mult(z); for(int i=0;i<S.A.r;i++) CHECKEQ(y[i],0.0,"zero right-hand side"); CHECK(cg.GetNumIterations()==0,"no iterations performed"); (void)s; Ref E(0,0); Op Z(E); PCGSolver e(Z,3,0.0,0.0); Vector<double> q(0),r(0); e.Mult(q,r); CHECK(e.GetNumIterations()==0,"empty system"); } COVER("end"); }
H(indefinite){ { double s=SR("s",0.125,64); Ref R(2,2); R.at(0,0)=1; R.at(1,1)=-2; Op A(R); PCGSolver cg(A,5,0.0,1e-6); Vector<double> b(2),x(2,0.0); b[0]=s*P(1); b[1]=s*P(2); bool pos=P(1)*P(1)-2*P(2)*P(2)>0; auto f=[&]{ cg.Mult(b,x); }; int t=TRY(f); if(!pos&&(P(1)||P(2))) CHECK(t==1,"an operator found not to be positive definite is refused"); } COVER("end"); }
//@ run solve 1..3 1..3 0..2 0 0..2 0,1,2,4 2 t=60
//@ run solve 1..3 1..3 0..2 0..1 3 1,2,3 2 t=60
//@ run solve 4..5 2..3 0..2 1 1 3 2 t=60
//@ run solve 6..8 3 0..1 0 0..1 4 0,1,3 t=60
//@ run solve 9 4 0..1 0..1 1 5 2 t=60
//@ run solve 1..2 2..3 0..2 0..1 4..5 0..3 2 t=60
//@ run freefn 1..3 1..3 0..1 0..3 t=60
//@ run scalar 0 0..1 0..3 t=60
//@ run random_guess 0 0..1 t=60
//@ run reuse 1..2 1..3 0..1 t=60
//@ run mixed 1 1,3 2 0..2 0..1 t=60
//@ run zero 1..3 1..3 0..2 t=60
//@ run indefinite 0 0,1,2 0,1,3 t=60
//@ bounds systems of up to 4 unknowns with small integer symmetric positive definite matrices, plain, diagonally and fully preconditioned, plain and weighted inner product, every right-hand side and guess on a symbolic ray, including guesses and right-hand sides that are tiny or nonzero in one place only, iteration limits 0..5, relative and symbolic absolute tolerances; one unknown with everything symbolic; sequences of some fifteen solves over reused, copied, moved, swapped and reconfigured solvers
//@ outside rounding errors, loss of orthogonality, general right-hand sides for two and more unknowns
