// C37: wrappers of the distributed solvers: what reaches hypre, and what copies, moves and preconditioners do
#include "par.hpp"
#include "parsmoother.hpp"
//@ inc modules/parlinalgcpp/include @/stubs/hypre
//@ repo src modules/parlinalgcpp/src/hypre_ops.cpp modules/parlinalgcpp/src/parcommpkg.cpp modules/parlinalgcpp/src/parmatrix.cpp modules/parlinalgcpp/src/paroperator.cpp modules/parlinalgcpp/src/parutilities.cpp modules/parlinalgcpp/src/parvector.cpp modules/parlinalgcpp/src/parsolvers.cpp modules/parlinalgcpp/src/parsmoother.cpp
//@ link hypre/hypre
//@ link hypre/hypresolvers
//@ run solver S0..1 21,111 0 1 0 0,1 0..3 0..3
//@ run solver S0..1 2,21,111 0 0 0 0,1 4..8 0..3
//@ run solver S0 21 0 1 0 0 4..8 0..3
//@ run pcg S0..1 21,111 0 1 0 0,1 0..3 0..2
//@ run pcg S0 2,21,111 0 0 0 0 4..8 0..2
//@ run eig S0..1 2,21,111 0 2 0,1 0,1 0..2 0..3
//@ run eignum 0 2,21 0 0 0 0 0,1 1,3
//@ thorough solver S0..3 22,121,1111 0 4 0,1 0,1 0..3 0..3 t=200
//@ thorough solver S0..1 22,121 0 2 0,1 0,1 4..8 0..3 t=300
//@ thorough pcg S0..2 22,121 0 3 0,1 0,1 0..3 0..2 t=200
//@ thorough pcg S0..1 22,121 0 1 0 0,1 4..8 0..2 t=300
//@ thorough eig S0..2 22,121,1111 0 4 0,1 0,1 0..2 0..4 t=200
//@ bounds 1 to 3 ranks (thorough: 4) with up to 2 rows each; every entry value, right hand side, previous content of the output, tolerance, weight and the number of iterations (1 to 3) symbolic; up to 4 entry positions present or not; two solvers of the same kind with different matrices and options; histories of up to 6 copies, moves, swaps and assignments, in a growing and shrinking container too; up to 4 eigenvectors
//@ assume hypre and MPI follow their contracts (models in stubs/hypre); hypre's solvers are modelled only as far as their caller can tell them apart (options, order of setup and solve, matrix, vectors, preconditioner); l1-Jacobi smoothing and diagonal scaling are modelled exactly
//@ outside the solvers' and smoothers' numerics, which are hypre's code; rounding
struct Ctx { Dist d; Glob A,B; std::vector<double> b,u,c; double tol,tol2,w,om; int it,it2; std::vector<std::vector<double>> xs; Ref l1; std::vector<double> res; };
static Ctx*X; static int kind,scen,rev;
static const SmoothType types[]={SmoothType::L1_Jacobi,SmoothType::L1_GS,SmoothType::Kaczmarz,SmoothType::Hybrid_SSOR,SmoothType::Jacobi};
static std::vector<double> mulg(const Glob&G,const std::vector<double>&x){ return mul(G.v,x); }
static double dg(const Glob&G,int i){ return G.v.at(i,i); }
static double weight(const Glob&G,const Dist&d,int i,int opt){ double loc=0,rem=0,sq=0,di=std::fabs(dg(G,i)); for(int j=0;j<d.n();j++){ if(!G.on[i*d.n()+j]) continue; bool in=false; for(int r=0;r<d.R;r++) if(i>=d.lo(r)&&i<d.hi(r)&&j>=d.lo(r)&&j<d.hi(r)) in=true; double a=std::fabs(G.v.at(i,j)); (in?loc:rem)+=a; sq+=G.v.at(i,j)*G.v.at(i,j); } double s= opt==1?loc+rem: opt==2?di+rem: opt==3?sq: opt==4?(di+0.5*rem<=4.0/3.0*di?di:di+0.5*rem): 0; return dg(G,i)<0?-s:s; }
// what a solver of each kind gives for right hand side b and initial contents u
static std::vector<double> want(const Glob&G,const Dist&d,int k,double digest,const std::vector<double>&b,const std::vector<double>&u,double w,double om,int times){ int n=d.n(); std::vector<double> o(n); if(k<3){ auto t=mulg(G,b); for(int i=0;i<n;i++) o[i]=digest*b[i]+t[i]; } else if(k==3) for(int i=0;i<n;i++) o[i]=b[i]/dg(G,i); else { int ty=(int)types[k-4]; o=u; for(int q=0;q<times;q++){ auto t=mulg(G,o); if(ty==1) for(int i=0;i<n;i++) o[i]+=w*(b[i]-t[i])/weight(G,d,i,ty); else for(int i=0;i<n;i++) o[i]+=(ty+w+7*om)*(b[i]-t[i])+weight(G,d,i,ty); } } return o; }
static Vector<double> ap(const ParOperator&S,const Dist&d,int me,const std::vector<double>&b,const std::vector<double>&u){ Vector<double> x=slice(b,d,me),y=slice(u,d,me); S.Mult(x,static_cast<VectorView<double>&>(y)); eqSlice(x,b,d,me,"the right hand side is not changed"); return y; }
static double dig(const ParSolver&S){ return kind<3? hm_digest(S.GetSolver()):0.0; }
template<class T> T make(const ParMatrix&A,int which);
template<> BoomerAMG make<BoomerAMG>(const ParMatrix&A,int q){ return BoomerAMG(A,q?X->it2:X->it,q?X->tol2:X->tol); }
template<> ParaSails make<ParaSails>(const ParMatrix&A,int q){ return ParaSails(A,false,q,2-q,q?X->tol2:X->tol,q?X->w:X->om,q?X->om:X->w,q?X->it2:X->it); }
template<> ParCG make<ParCG>(const ParMatrix&A,int q){ return ParCG(A,q?X->it2:X->it,q?X->tol2:X->tol); }
template<> ParDiagScale make<ParDiagScale>(const ParMatrix&A,int){ return ParDiagScale(A); }
template<> ParSmoother make<ParSmoother>(const ParMatrix&A,int q){ return ParSmoother(A,types[kind-4],q?2:1,q?X->om:X->w,q?X->w:X->om); }
static void options(const ParSolver&S,int q){ double tol=q?X->tol2:X->tol; int it=q?X->it2:X->it; HYPRE_Solver s=S.GetSolver(); if(kind==0){ CHECKEQ(hm_par(s,9),tol,"the tolerance reaches the solver"); CHECKEQ(hm_par(s,8),(double)it,"the number of iterations reaches the solver"); CHECK(hm_print(s)==0,"quiet unless asked"); } if(kind==2){ CHECKEQ(hm_par(s,0),tol,"the tolerance reaches the solver"); CHECKEQ(hm_par(s,1),(double)it,"the number of iterations reaches the solver"); CHECK(hm_print(s)==0,"quiet unless asked"); } if(kind==1){ CHECKEQ(hm_par(s,0),q?X->w:X->om,"threshold"); CHECKEQ(hm_par(s,1),(double)it,"levels"); CHECKEQ(hm_par(s,2),q?X->om:X->w,"filter"); CHECKEQ(hm_par(s,3),2.0-q,"symmetry"); CHECKEQ(hm_par(s,4),tol,"load balance"); CHECKEQ(hm_par(s,5),(double)q,"reuse"); } }
template<class T> static void run(int me){ const Dist&d=X->d; ParMatrix*A=new ParMatrix(mkPar(X->A,d,d,me,rev)); ParMatrix B=mkPar(X->B,d,d,me,0); auto&b=X->b; auto&u=X->u; double da=0,db=0; auto isA=[&](const T&S,const char*m){ options(S,0); eqSlice(ap(S,d,me,b,u),want(X->A,d,kind,da,b,u,X->w,X->om,1),d,me,m); CHECK(S.Rows()==d.len(me)&&S.Cols()==d.len(me)&&S.GlobalRows()==d.n()&&S.GetRowStarts()==d.starts(me),m); }; auto isB=[&](const T&S,const char*m){ options(S,1); eqSlice(ap(S,d,me,b,u),want(X->B,d,kind,db,b,u,X->om,X->w,2),d,me,m); }; auto none=[&](const T&S){ CHECK(S.Rows()==0&&S.GlobalRows()==0&&S.GetSolver()==nullptr,"an empty solver has no matrix"); };
  T*S=new T(make<T>(*A,0)); T O(make<T>(B,1)); da=dig(*S); db=dig(O);
  if(scen==0){ isA(*S,"application"); isB(O,"application"); *A*=3.0; isA(*S,"the solver has its own matrix"); delete A; A=nullptr; isA(*S,"applied again"); const Operator&op=*S; Vector<double> x=slice(b,d,me); Vector<double> y=op.Mult(x); std::vector<double> z(d.n(),0.0); eqSlice(y,want(X->A,d,kind,da,b,z,X->w,X->om,1),d,me,"application through the operator interface"); auto b2=X->c; eqSlice(ap(*S,d,me,b2,u),want(X->A,d,kind,da,b2,u,X->w,X->om,1),d,me,"another right hand side"); }
  else if(scen==1){ T C(*S); isA(C,"a copy"); isA(*S,"the original of a copy"); delete S; S=nullptr; isA(C,"a copy outlives its original"); C=O; isB(C,"assigned"); isB(O,"assigned from"); T&r=C; C=r; isB(C,"assigned to itself"); }
  else if(scen==2){ T M(std::move(*S)); isA(M,"moved"); none(*S); *S=M; isA(*S,"assigned to after a move"); swap(M,O); isA(O,"swapped"); isB(M,"swapped"); std::swap(M,O); isA(M,"swapped back"); isB(O,"swapped back"); O=std::move(M); isA(O,"move assigned"); }
  else { T E; none(E); T F(E); none(F); T G(std::move(F)); none(G); G=*S; isA(G,"a default solver can be assigned to"); G=E; none(G); std::vector<T> v; v.push_back(*S); v.push_back(O); v.push_back(E); v.insert(v.begin(),v[1]); isB(v[0],"kept in a growing vector"); isA(v[1],"kept in a growing vector"); isB(v[2],"kept in a growing vector"); v.erase(v.begin()); isA(v[0],"kept in a shrinking vector"); }
  delete S; delete A; }
static void rsolver(int me){ if(kind==0) run<BoomerAMG>(me); else if(kind==1) run<ParaSails>(me); else if(kind==2) run<ParCG>(me); else if(kind==3) run<ParDiagScale>(me); else run<ParSmoother>(me); }
static void setup(Ctx&C,Lcg&g){ X=&C; C.d=dist(P(1)); rev=P(4); C.A=Glob("a",C.d.n(),C.d.n(),P(3),g,true); C.B=Glob("m",C.d.n(),C.d.n(),0,g,true); C.b=symVec("b",C.d.n()); C.u=symVec("u",C.d.n()); C.c=symVec("c",C.d.n()); C.tol=SR("tol"); C.tol2=SR("tol2"); C.w=SR("weight"); C.om=SR("omega"); C.it= P(6)>=4?2:CI("iterations",1,3); C.it2=7; hm_order(P(5)); for(int i=0;i<C.d.n();i++){ ASSUME(C.A.v.at(i,i)!=0); if(P(6)<4) ASSUME(C.B.v.at(i,i)!=0); if(P(6)>=4){ for(int j=0;j<C.d.n();j++) if(C.B.on[i*C.d.n()+j]) C.B.v.at(i,j)= i==j? 2.0+i : 0.5*(i-j); } } }
H(solver){ Lcg g(P(0)); { Ctx C; setup(C,g); kind=P(6); scen=P(7); hm_run(C.d.R,rsolver); } COVER("end"); }
// conjugate gradients with a preconditioner
static void rpcg(int me){ const Dist&d=X->d; ParMatrix A=mkPar(X->A,d,d,me,rev),B=mkPar(X->B,d,d,me,0); ParSolver*M=nullptr; int k=kind; switch(k){ case 0: M=new BoomerAMG(make<BoomerAMG>(B,1)); break; case 1: M=new ParaSails(make<ParaSails>(B,1)); break; case 3: M=new ParDiagScale(B); break; default: if(k>=4) M=new ParSmoother(make<ParSmoother>(B,1)); }
  auto&b=X->b; auto&u=X->u; std::vector<double> z(d.n(),0.0); ParCG*S= M? new ParCG(A,*M,X->it,X->tol): new ParCG(A,X->it,X->tol); if(!M) S->EnableDiagScaling(); double dd=hm_digest(S->GetSolver()); auto w=mulg(X->A,b); { auto p= M? want(X->B,d,k,dig(*M),b,z,X->om,X->w,2): want(X->A,d,3,0,b,z,0,0,1); for(int i=0;i<d.n();i++) w[i]+=dd*b[i]+p[i]; } 
  auto is=[&](const ParCG&s,const char*m){ CHECKEQ(hm_par(s.GetSolver(),0),X->tol,"the tolerance reaches the solver"); CHECKEQ(hm_par(s.GetSolver(),1),(double)X->it,"the number of iterations reaches the solver"); eqSlice(ap(s,d,me,b,u),w,d,me,m); };
  is(*S,"the preconditioner is applied"); if(scen==0){ is(*S,"the preconditioner is applied again"); A*=2.0; B*=2.0; is(*S,"solver and preconditioner have their own matrices"); } else if(scen==1){ ParCG C(*S); is(C,"a copy keeps its preconditioner"); delete S; S=nullptr; is(C,"a copy outlives its original"); ParCG D(B); D=C; is(D,"assigned"); } else { ParCG C(std::move(*S)); is(C,"a moved solver keeps its preconditioner"); { ParCG F(C); is(F,"a copy of a moved solver"); } ParCG D(B); swap(C,D); is(D,"a swapped solver keeps its preconditioner"); { ParCG F(D); is(F,"a copy of a swapped solver"); } C=std::move(D); is(C,"move assigned"); { ParCG F(C); is(F,"a copy of a move assigned solver"); } }
  delete S; delete M; }
H(pcg){ Lcg g(P(0)); { Ctx C; setup(C,g); kind=P(6); scen=P(7); hm_run(C.d.R,rpcg); } COVER("end"); }
// eigensolver: operator, preconditioner and starting vectors are the caller's
struct Twice: public Operator { Twice(int n):Operator(n,n){} void Mult(const VectorView<double>&x,VectorView<double> y) const { for(int i=0;i<x.size();i++) y[i]=2*x[i]; } using Operator::Mult; };
static void reig(int me){ const Dist&d=X->d; ParMatrix A=mkPar(X->A,d,d,me,rev); Twice T(d.len(me)); int m=(int)X->xs.size(); std::vector<Vector<double>> x; for(auto&v:X->xs) x.push_back(slice(v,d,me)); std::vector<double> ev; BoomerAMG*M=nullptr; if(kind==2) M=new BoomerAMG(make<BoomerAMG>(A,0)); ev= kind==0? LOBPCG(A,x): kind==1? LOBPCG(A,x,&T): LOBPCG(A,x,M); CHECK((int)ev.size()==m,"one value per vector"); double dd=M?hm_digest(M->GetSolver()):0; for(int k=0;k<m;k++){ auto y=mulg(X->A,X->xs[k]); double q=0; for(int i=0;i<d.n();i++) q+=X->xs[k][i]*y[i]; CHECKEQ(ev[k],q,"values are returned in order"); auto w=X->xs[k]; std::vector<double> p(d.n(),0.0); if(kind==1) for(int i=0;i<d.n();i++) p[i]=2*y[i]; if(kind==2) p=want(X->A,d,0,dd,y,y,0,0,1); for(int i=0;i<d.n();i++) w[i]=2*w[i]+y[i]+5*p[i]; eqSlice(x[k],w,d,me,"vectors are returned in order"); } delete M; }
H(eig){ Lcg g(P(0)); { Ctx C; setup(C,g); kind=P(6); for(int k=0;k<P(7);k++) C.xs.push_back(symVec("x",C.d.n())); hm_run(C.d.R,reig); } COVER("end"); }
static void reign(int me){ const Dist&d=X->d; ParMatrix A=mkPar(X->A,d,d,me,rev); Twice T(d.len(me)); auto ev= kind? LOBPCG(A,P(7),&T): LOBPCG(A,P(7)); CHECK((int)ev.size()==P(7),"as many values as asked for"); auto e1=LOBPCG(A); CHECK(e1.size()==1,"one value unless asked for more"); }
H(eignum){ Lcg g(P(0)); { Ctx C; setup(C,g); kind=P(6); hm_run(C.d.R,reign); } COVER("end"); }
