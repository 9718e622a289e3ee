// C29: the direct solver against a contract model of its kernel
#include "lib.hpp"
#include "sparsesolve.hpp"
#include "umfpack.hpp"
static Ref denseOf(const UCall&u){ Ref R(u.n,u.n); R.v=u.A; return u.transposed?R.t():R; }
// one solve with solver s for the matrix R: exactly one kernel call, for the right system, its answer delivered
static void solves(const SparseSolver&s,const Ref&R,const char*m){ int n=R.r; for(int at=0;at<2;at++) for(int form=0;form<(at?1:3);form++){ std::vector<double> bb=symVec("b",n); Vector<double> b=vec(bb); size_t from=ucalls().size(); std::vector<double> got; CHECK(s.Rows()==n&&s.Cols()==n,m); if(form==0){ std::vector<double> h(n+2,7.5); VectorView<double> x(h.data()+1,n); if(at) s.MultAT(b,x); else static_cast<const Operator&>(s).Mult(b,x); CHECK(h[0]==7.5&&h[n+1]==7.5,m); got.assign(h.begin()+1,h.begin()+1+n); } else if(form==1){ Vector<double> x=s.Mult(b); got=dvec(x); } else { Vector<double> x(n?n-1:2,3.0); static_cast<const Operator&>(s).Mult(b,x); got=dvec(x); } eqVec(b,bb,"right-hand side unchanged"); CHECK(ucalls().size()==from+1,"solved once"); const UCall&u=ucalls()[from]; eqRef(denseOf(u),at?R.t():R,m); eqVec(u.b,bb,m); eqVec(got,u.x,"the kernel's answer is delivered"); } }
static void empties(const SparseSolver&s,int n){ Vector<double> b=vec(symVec("b",n)); size_t from=ucalls().size(); Vector<double> x(n,5.0); s.Mult(b,static_cast<VectorView<double>&>(x)); for(int i=0;i<n;i++) CHECKEQ(x[i],0.0,"an empty solver answers zero"); Vector<double> y(n,5.0); s.MultAT(b,y); for(int i=0;i<n;i++) CHECKEQ(y[i],0.0,"an empty solver answers zero"); CHECK(ucalls().size()==from,"no kernel call without a factorization"); }
static Csr<double> gen(int n,int per,int kind,Lcg&g){ Csr<double> a=genCsr<double>("a",n,n,per,kind,g); if(a.idx.empty()){ a.idx.push_back(n-1); a.dat.push_back(SR("a_val")); for(int i=n;i<=n;i++) a.ptr[i]=1; } return a; }
H(solve){ Lcg g(P(0)); int n=P(1); { auto a=gen(n,P(2),DISTINCT,g); SparseMatrix<double> A=mk(a); Ref R=a.ref(); { SparseSolver s(A); sameCsr(A,a,"matrix unchanged"); CHECK(ulive()==1,"one factorization"); solves(s,R,"solves its own system"); A=5.0; solves(s,R,"independent of the matrix it was made from"); } CHECK(ulive()==0,"factorization released"); uclear(); } COVER("end"); }
H(empty){ int n=P(1); { SparseSolver d; CHECK(d.Rows()==0&&d.Cols()==0,"a default solver is 0 x 0"); empties(d,0); SparseSolver e((SparseMatrix<double>(n,n))); CHECK(e.Rows()==n,"dimensions"); empties(e,n); SparseSolver c(e),d2(d); empties(c,n); empties(d2,0); SparseSolver m(std::move(c)); empties(m,n); c=d; d=m; empties(c,0); empties(d,n); swap(c,d); empties(c,n); empties(d,0); SparseSolver&r=d; d=r; d=SparseSolver(); m=std::move(c); empties(m,n); CHECK(ulive()==0,"nothing factored"); uclear(); } COVER("end"); }
// histories over three solvers: each step copies, moves, swaps, assigns or releases; every solver keeps solving its own system
struct Model { int id; int known; };
static void use(const SparseSolver&s,const Model&m,const std::vector<Ref>&R){ if(!m.known) return; if(m.id<0) empties(s,s.Rows()); else { int n=R[m.id].r; CHECK(s.Rows()==n,"dimensions follow the value"); std::vector<double> bb=symVec("b",n); Vector<double> b=vec(bb),x(n); size_t from=ucalls().size(); bool at=m.id%2; if(at) s.MultAT(b,x); else s.Mult(b,static_cast<VectorView<double>&>(x)); CHECK(ucalls().size()==from+1,"solved once"); const UCall&u=ucalls()[from]; eqRef(denseOf(u),at?R[m.id].t():R[m.id],"a solver keeps its own system"); eqVec(u.b,bb,"right-hand side passed on"); eqVec(x,u.x,"the kernel's answer is delivered"); } }
H(history){ int steps=P(1); Lcg g(P(0)?P(0):1); { std::vector<Ref> R; std::vector<SparseMatrix<double>> M; Csr<double> first; for(int q=0;q<2;q++){ Csr<double> a=rndCsr<double>("a",2+q,2+q,2,DISTINCT,g); if(a.idx.empty()){ a.idx.push_back(1); a.dat.push_back(SR("a_val")); for(int i=1;i<=a.r;i++) a.ptr[i]=1; } if(q==1&&P(2)){ a=first; for(auto&v:a.dat) v=SR("s_val"); } first=a; R.push_back(a.ref()); M.push_back(mk(a)); }
  std::vector<SparseSolver*> s; std::vector<Model> m; s.push_back(new SparseSolver(M[0])); m.push_back({0,true}); s.push_back(new SparseSolver(M[1])); m.push_back({1,true}); s.push_back(new SparseSolver); m.push_back({-1,true});
  for(int t=0;t<steps;t++){ int op=P(0)==0?CI("op",0,6):g.next(7),x=P(0)==0?CI("x",0,2):g.next(3),y=P(0)==0?CI("y",0,2):g.next(3); if(op==0){ *s[x]=*s[y]; m[x]=m[y]; } else if(op==1){ if(x==y) continue; *s[x]=std::move(*s[y]); m[x]=m[y]; m[y].known=false; } else if(op==2){ swap(*s[x],*s[y]); Model k=m[x]; m[x]=m[y]; m[y]=k; } else if(op==3){ SparseSolver*c=new SparseSolver(*s[y]); delete s[x]; s[x]=c; if(x!=y) m[x]=m[y]; } else if(op==4){ if(x==y) continue; SparseSolver*c=new SparseSolver(std::move(*s[y])); delete s[x]; s[x]=c; m[x]=m[y]; m[y].known=false; } else if(op==5){ *s[x]=SparseSolver(M[y%2]); m[x]={y%2,true}; } else { *s[x]=SparseSolver(); m[x]={-1,true}; } for(int q=0;q<3;q++) use(*s[q],m[q],R); int want=0,unk=0; for(auto&k:m){ want+=k.known&&k.id>=0; unk+=!k.known; } CHECK(ulive()>=want&&ulive()<=want+unk,"no factorization lost or kept"); }
  for(auto*p:s) delete p; CHECK(ulive()==0,"every factorization released"); uclear(); } COVER("end"); }
H(refused){ int which=P(1); { Csr<double> a; a.r=a.c=2; a.ptr={0,1,2}; a.idx={0,1}; a.dat={SR("v"),SR("v")}; if(which==0){ Csr<double> b; b.r=2; b.c=3; b.ptr={0,1,2}; b.idx={0,2}; b.dat=a.dat; SparseMatrix<double> B=mk(b); REFUSED(SparseSolver s(B),"rectangular matrix"); } else if(which==1){ kumf_symbolic=-8; SparseMatrix<double> A=mk(a); REFUSED(SparseSolver s(A),"a matrix the kernel does not accept"); } else if(which==2){ kumf_numeric=1; SparseMatrix<double> A=mk(a); REFUSED(SparseSolver s(A),"a singular matrix"); } else if(which==3){ kumf_numeric=-1; SparseMatrix<double> A=mk(a); REFUSED(SparseSolver s(A),"out of memory"); } else { SparseMatrix<double> A=mk(a); SparseSolver s(A); Vector<double> b2(2,1.0),b3(3,1.0),x2(2),x1(1); if(which==4) REFUSED(s.Mult(b3,static_cast<VectorView<double>&>(x2)),"right-hand side too long"); if(which==5) REFUSED(s.Mult(b2,static_cast<VectorView<double>&>(x1)),"solution too short"); if(which==6) REFUSED(s.MultAT(x1,x2),"right-hand side too short"); if(which==7) REFUSED(s.MultAT(b2,b3),"solution too long"); if(which==8){ kumf_solve=-1; REFUSED(s.Mult(b2,static_cast<VectorView<double>&>(x2)),"failed solve"); } if(which==9){ kumf_solve=-1; REFUSED(s.MultAT(b2,x2),"failed solve"); } } __sym_leak_ok(); } COVER("end"); }
//@ inc modules/sparsesolver/include /usr/include/suitesparse
//@ repo src modules/sparsesolver/src/sparsesolve.cpp
//@ link umfpack
//@ run solve 0 1 1 t=60
//@ run solve 0 2 2 t=60
//@ run solve 0 3 1 t=60
//@ run solve S0..5 4,7 5 t=60
//@ run empty 0 1..3 t=60
//@ run history 0 2 0..1 t=90
//@ run history S0..11 8 0..1 t=60
//@ run refused 0 0..9 t=60
// large shapes: concrete structure, symbolic values
//@ run solve S6..9 20,40 60 t=60
//@ thorough solve 0 3 2 t=800
//@ thorough solve S10..20 12 8 t=200
//@ thorough history 0 3 t=800
//@ thorough history S20..60 16 t=200
//@ bounds systems of up to 2 unknowns (2 entries per row) and 3 unknowns (1 entry per row) with fully symbolic structure, seeded ones of 4 and 7 unknowns (thorough 12), symbolic values and right-hand sides; every sequence of two copy, move, swap, assign and release steps over three solvers (thorough 3) and seeded sequences of eight (thorough 16); larger shapes (solve): a concrete, seeded structure of tens to hundreds of rows and columns with every value symbolic
//@ assume the kernel solves the system described by the arrays it is given or reports a nonzero status
//@ outside accuracy of the factorization
