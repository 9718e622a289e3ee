// C36: distributed matrices and vectors against their serial counterparts on the gathered data
#include "par.hpp"
//@ inc modules/parlinalgcpp/include @/stubs/hypre
//@ repo src modules/parlinalgcpp/src/hypre_ops.cpp modules/parlinalgcpp/src/parcommpkg.cpp modules/parlinalgcpp/src/parmatrix.cpp modules/parlinalgcpp/src/paroperator.cpp modules/parlinalgcpp/src/parutilities.cpp modules/parlinalgcpp/src/parvector.cpp
//@ link hypre/hypre
//@ run mult S0..1 21 12 9 0,1 0,1
//@ run mult S0..1 11 11 9 0,1 0,1
//@ run mult S0..1 3 2 9 0,1 0,1
//@ run mult S0..1 111 111 8 0,1 0,1
//@ run mult S0..1 112 121 8 0,1 0,1
//@ run multat S0..1 21 12 9 0,1 0,1
//@ run multat S0..1 11 11 9 0,1 0,1
//@ run multat S0..1 3 2 9 0,1 0,1
//@ run multat S0..1 111 111 8 0,1 0,1
//@ run multat S0..1 112 121 8 0,1 0,1
//@ run trans S0..1 21 12 9 0,1 0,1
//@ run trans S0..1 11 11 9 0,1 0,1
//@ run trans S0..1 3 2 9 0,1 0,1
//@ run trans S0..1 111 111 8 0,1 0,1
//@ run trans S0..1 112 121 8 0,1 0,1
//@ run matmul S0..1 11 11 5 0,1 0,1 11
//@ run matmul S0..1 21 12 5 0,1 0,1 12
//@ run matmul S0..1 111 111 5 0,1 0,1 111
//@ run rap S0..1 11 11 4 0,1 0,1
//@ run rap S0..1 21 11 4 0,1 0,1
//@ run rap S0..1 111 111 4 0,1 0,1
//@ run scale S0..1 21 21 5 0,1 0,1 0..9
//@ run scale S0..1 11 11 5 0,1 0,1 0..9
//@ run scale S0..1 111 111 5 0,1 0,1 0..9
//@ run scale S0..1 3 3 5 0,1 0,1 0..9
//@ run ctor S0..1 21 12 6 0 0,1
//@ run ctor S0..1 11 11 6 0 0,1
//@ run ctor S0..1 111 111 6 0 0,1
//@ run ctor S0..1 3 2 6 0 0,1
//@ run life S0 21 12 4 0,1 0,1 0..3
//@ run life S0 111 111 4 0,1 0,1 0..3
//@ run vec 0 3,21,112,4321 0 0 0 0,1
//@ run veclife 0 3,21,111 0 0 0 0,1
//@ run vecempty 0 1,11 0 0 0 0,1
//@ run l1 S0..1 3 3 3 0,1 0 1..4 0,1
//@ run l1 S0..1 21 21 3 0,1 0 1..4 0,1
//@ run l1 S0..1 111 111 3 0,1 0 1..4 0,1
// larger shapes: concrete structure, symbolic values
//@ run mult S2..3 98 79 0 0,1 0
//@ run mult S2..3 975 597 0 0,1 0
//@ run mult S2..3 2468 8642 0 0,1 0
//@ run multat S2..3 98 79 0 0,1 0
//@ run multat S2..3 975 597 0 0,1 0
//@ run multat S2..3 2468 8642 0 0,1 0
//@ run trans S2..3 98 79 0 0,1 0
//@ run trans S2..3 975 597 0 0,1 0
//@ run trans S2..3 2468 8642 0 0,1 0
//@ run matmul S2 98 79 0 0,1 0 67
//@ run matmul S2 556 665 0 0,1 0 546
//@ run rap S2 66 45 0 0,1 0
//@ run rap S2 434 323 0 0,1 0
//@ run l1 S2 33 33 0 0,1 0 1..3 0,1
//@ run scale S2 98 98 0 0 0 0..9
//@ run scale S2 567 567 0 1 0 0..9
//@ thorough mult S0..7 22 22 11 0,1 0,1 t=300
//@ thorough mult S0..7 31 22 11 0,1 0,1 t=300
//@ thorough mult S0..7 13 31 11 0,1 0,1 t=300
//@ thorough mult S0..7 1111 1111 11 0,1 0,1 t=300
//@ thorough mult S0..7 211 112 11 0,1 0,1 t=300
//@ thorough mult 0 11 11 16 0,1 0,1 t=300
//@ thorough mult 0 21 11 16 0,1 0,1 t=300
//@ thorough mult 0 12 21 16 0,1 0,1 t=300
//@ thorough mult 0 111 111 16 0,1 0,1 t=300
//@ thorough multat S0..7 22 22 11 0,1 0,1 t=300
//@ thorough multat S0..7 31 22 11 0,1 0,1 t=300
//@ thorough multat S0..7 13 31 11 0,1 0,1 t=300
//@ thorough multat S0..7 1111 1111 11 0,1 0,1 t=300
//@ thorough multat S0..7 211 112 11 0,1 0,1 t=300
//@ thorough multat 0 11 11 16 0,1 0,1 t=300
//@ thorough multat 0 21 11 16 0,1 0,1 t=300
//@ thorough multat 0 12 21 16 0,1 0,1 t=300
//@ thorough multat 0 111 111 16 0,1 0,1 t=300
//@ thorough trans S0..7 22 22 11 0,1 0,1 t=300
//@ thorough trans S0..7 31 22 11 0,1 0,1 t=300
//@ thorough trans S0..7 13 31 11 0,1 0,1 t=300
//@ thorough trans S0..7 1111 1111 11 0,1 0,1 t=300
//@ thorough trans S0..7 211 112 11 0,1 0,1 t=300
//@ thorough trans 0 11 11 16 0,1 0,1 t=300
//@ thorough trans 0 21 11 16 0,1 0,1 t=300
//@ thorough trans 0 12 21 16 0,1 0,1 t=300
//@ thorough trans 0 111 111 16 0,1 0,1 t=300
//@ thorough matmul 0 11 11 8 0,1 0,1 11 t=300
//@ thorough matmul 0 21 12 8 0,1 0,1 11 t=300
//@ thorough matmul 0 11 12 8 0,1 0,1 21 t=300
//@ thorough matmul S0..5 22 22 6 0,1 0,1 22 t=300
//@ thorough matmul S0..5 111 111 6 0,1 0,1 111 t=300
//@ thorough matmul S0..5 211 112 6 0,1 0,1 121 t=300
//@ thorough matmul S0..5 1111 1111 6 0,1 0,1 1111 t=300
//@ thorough rap S0..5 22 11 5 0,1 0,1 t=300
//@ thorough rap S0..5 22 22 5 0,1 0,1 t=300
//@ thorough rap S0..5 111 111 5 0,1 0,1 t=300
//@ thorough rap S0..5 121 111 5 0,1 0,1 t=300
//@ thorough rap S0..5 211 112 5 0,1 0,1 t=300
//@ thorough scale S0..3 22 22 7 0,1 0,1 0..9 t=300
//@ thorough scale S0..3 31 31 7 0,1 0,1 0..9 t=300
//@ thorough scale S0..3 13 13 7 0,1 0,1 0..9 t=300
//@ thorough scale S0..3 121 121 7 0,1 0,1 0..9 t=300
//@ thorough scale S0..3 1111 1111 7 0,1 0,1 0..9 t=300
//@ thorough ctor S0..3 22 22 9 0 0,1 t=300
//@ thorough ctor S0..3 121 112 9 0 0,1 t=300
//@ thorough ctor S0..3 1111 1111 9 0 0,1 t=300
//@ thorough life S0..1 22 22 5 0,1 0,1 0..3 t=300
//@ thorough life S0..1 121 112 5 0,1 0,1 0..3 t=300
//@ thorough vec 0 5,32,122,2222 0 0 0 0,1 t=300
//@ thorough veclife 0 5,32,122,1111 0 0 0 0,1 t=300
//@ thorough l1 S0..3 22 22 4 0,1 0 1..4 0,1 t=300
//@ thorough l1 S0..3 31 31 4 0,1 0 1..4 0,1 t=300
//@ thorough l1 S0..3 111 111 4 0,1 0 1..4 0,1 t=300
//@ thorough l1 S0..3 1111 1111 4 0,1 0 1..4 0,1 t=300
//@ bounds 1 to 3 ranks (thorough: 4), up to 3 (thorough: 4) rows and columns per rank; every rank owns at least one row and column, as the library requires; every entry value symbolic; up to 9 (thorough: 16) entry positions symbolic (present or not), which for the 2 rank cases up to 3 x 3 is every pattern; both storage orders of the entries in a row; ranks run in ascending and in descending order between synchronisation points; either order of the send list; larger shapes (l1, matmul, mult, multat, rap, scale, trans): a concrete, seeded structure of tens to hundreds of rows and columns with every value symbolic
//@ assume MPI and hypre follow their contracts: the model in stubs/hypre implements communicators, collectives, first-in-first-out messages, exchange packages, extraction of remote rows and the two distributed matrix-vector kernels of hypre 2.10, checks their preconditions, and reports deadlocks and messages never received
//@ outside hypre's solvers and smoothers, which are hypre's code (not installed here); rounding; more ranks, larger blocks; threads inside a rank (hypre's OpenMP regions)
struct Ctx { Dist r,c,m; Glob A,B; Ref got,got2; std::vector<double> x,y; int rev; double s; std::vector<double> d; };
static Ctx*X;
template<class F> static void go(int R,F f){ hm_order(P(5)); hm_run(R,f); }
static std::vector<double> junk(int n){ return symVec("junk",n); }
// y = A x, y = A^T x, every form
static void rmult(int me){ ParMatrix A=mkPar(X->A,X->r,X->c,me,X->rev); auto want=mul(X->A.v,X->x); Vector<double> x=slice(X->x,X->c,me); Vector<double> y=vec(junk(X->r.len(me))); A.Mult(x,static_cast<VectorView<double>&>(y)); eqSlice(y,want,X->r,me,"A x"); Vector<double> y2=A.Mult(x); eqSlice(y2,want,X->r,me,"A x, returned"); ParVector px=pvec(X->x,X->c,me); ParVector py(MPI_COMM_WORLD,7.0,X->r.starts(me)); A.Mult(px,py); eqSlice(py,want,X->r,me,"A x for distributed vectors"); ParVector py2=A.Mult(px); eqSlice(py2,want,X->r,me,"A x for distributed vectors, returned"); CHECK(py2.GlobalSize()==X->r.n(),"global size of the product"); eqSlice(x,X->x,X->c,me,"the input is not changed"); eqSlice(px,X->x,X->c,me,"the input is not changed"); A.Mult(x,static_cast<VectorView<double>&>(y)); eqSlice(y,want,X->r,me,"A x once more");
  const Operator&op=A; CHECK(op.Rows()==X->r.len(me)&&op.Cols()==X->c.len(me),"local dimensions"); Vector<double> y3=op.Mult(x); eqSlice(y3,want,X->r,me,"A x through the operator interface"); }
static void rmultat(int me){ ParMatrix A=mkPar(X->A,X->r,X->c,me,X->rev); auto want=mul(X->A.v.t(),X->y); Vector<double> x=slice(X->y,X->r,me); Vector<double> y=vec(junk(X->c.len(me))); A.MultAT(x,static_cast<VectorView<double>&>(y)); eqSlice(y,want,X->c,me,"A^T x"); Vector<double> y2=A.MultAT(x); eqSlice(y2,want,X->c,me,"A^T x, returned"); ParVector px=pvec(X->y,X->r,me); ParVector py(MPI_COMM_WORLD,7.0,X->c.starts(me)); A.MultAT(px,py); eqSlice(py,want,X->c,me,"A^T x for distributed vectors"); ParVector py2=A.MultAT(px); eqSlice(py2,want,X->c,me,"A^T x for distributed vectors, returned"); CHECK(py2.GlobalSize()==X->c.n(),"global size of the product"); eqSlice(x,X->y,X->r,me,"the input is not changed"); }
static void setup(Ctx&C,Lcg&g,int nsym,bool diag=false){ C.r=dist(P(1)); C.c=dist(P(2)); CHECK(C.r.R==C.c.R,"harness"); C.A=Glob("a",C.r.n(),C.c.n(),nsym,g,diag); C.rev=P(4); X=&C; }
H(mult){ Lcg g(P(0)); { Ctx C; setup(C,g,P(3)); C.x=symVec("x",C.c.n()); go(C.r.R,rmult); } COVER("end"); }
H(multat){ Lcg g(P(0)); { Ctx C; setup(C,g,P(3)); C.y=symVec("y",C.r.n()); go(C.r.R,rmultat); } COVER("end"); }
// transposing
static void rtrans(int me){ ParMatrix A=mkPar(X->A,X->r,X->c,me,X->rev); ParMatrix T=A.Transpose(); gather(T,X->c,X->r,me,X->got); ParMatrix TT=Transpose(T); gather(TT,X->r,X->c,me,X->got2); Ref same(X->r.n(),X->c.n()); gather(A,X->r,X->c,me,same); for(int i=X->r.lo(me);i<X->r.hi(me);i++) for(int j=0;j<X->c.n();j++) CHECKEQ(same.at(i,j),X->A.v.at(i,j),"the matrix is not changed by transposing"); Vector<double> x=slice(X->y,X->r,me); eqSlice(T.Mult(x),mul(X->A.v.t(),X->y),X->c,me,"the transpose can be applied"); int z=0; for(char o:X->A.on) z+=o; CHECK(T.nnz()==z&&A.nnz()==z,"the number of entries is kept"); }
H(trans){ Lcg g(P(0)); { Ctx C; setup(C,g,P(3)); C.y=symVec("y",C.r.n()); C.got=Ref(C.c.n(),C.r.n()); C.got2=Ref(C.r.n(),C.c.n()); go(C.r.R,rtrans); eqRef(C.got,C.A.v.t(),"transpose"); eqRef(C.got2,C.A.v,"transpose of the transpose"); } COVER("end"); }
// products
static void rmatmul(int me){ ParMatrix A=mkPar(X->A,X->r,X->m,me,X->rev); ParMatrix B=mkPar(X->B,X->m,X->c,me,0); ParMatrix M=A.Mult(B); gather(M,X->r,X->c,me,X->got); ParMatrix N=A*B; gather(N,X->r,X->c,me,X->got2); Vector<double> x=slice(X->x,X->c,me); eqSlice(M.Mult(x),mul(X->A.v,mul(X->B.v,X->x)),X->r,me,"the product can be applied"); }
H(matmul){ Lcg g(P(0)); { Ctx C; C.r=dist(P(1)); C.m=dist(P(6)); C.c=dist(P(2)); C.A=Glob("a",C.r.n(),C.m.n(),P(3),g); C.B=Glob("b",C.m.n(),C.c.n(),P(3),g); C.rev=P(4); X=&C; C.x=symVec("x",C.c.n()); C.got=C.got2=Ref(C.r.n(),C.c.n()); go(C.r.R,rmatmul); eqRef(C.got,mul(C.A.v,C.B.v),"product"); eqRef(C.got2,mul(C.A.v,C.B.v),"product by operator"); } COVER("end"); }
static void rrap(int me){ ParMatrix A=mkPar(X->A,X->r,X->r,me,X->rev); ParMatrix Pm=mkPar(X->B,X->r,X->c,me,0); ParMatrix M=RAP(A,Pm); gather(M,X->c,X->c,me,X->got); ParMatrix Rm=mkPar(X->B,X->r,X->c,me,0); ParMatrix N=RAP(Rm,A,Pm); gather(N,X->c,X->c,me,X->got2); }
H(rap){ Lcg g(P(0)); { Ctx C; C.r=dist(P(1)); C.c=dist(P(2)); C.A=Glob("a",C.r.n(),C.r.n(),P(3),g,true); C.B=Glob("b",C.r.n(),C.c.n(),P(3),g); C.rev=P(4); X=&C; C.got=C.got2=Ref(C.c.n(),C.c.n()); go(C.r.R,rrap); Ref w=mul(C.B.v.t(),mul(C.A.v,C.B.v)); eqRef(C.got,w,"triple product"); eqRef(C.got2,w,"triple product"); } COVER("end"); }
// in-place changes; every one must be seen by the next application
static void rscale(int me){ int what=P(6); ParMatrix A=mkPar(X->A,X->r,X->c,me,X->rev); int nl=X->r.len(me); std::vector<double> loc(X->d.begin()+X->r.lo(me),X->d.begin()+X->r.hi(me)); Ref W=X->A.v; auto diagS=[&]{ std::vector<int> p(nl+1),j(nl); for(int i=0;i<=nl;i++) p[i]=i; for(int i=0;i<nl;i++) j[i]=i; return SparseMatrix<double>(p,j,loc,nl,nl); };
  if(what==0){ ParMatrix&ret=(A*=X->s); CHECK(&ret==&A,"returns itself"); for(auto&v:W.v) v*=X->s; } else if(what==1){ A=X->s; for(size_t i=0;i<W.v.size();i++) if(X->A.on[i]) W.v[i]=X->s; } else if(what==2){ ParMatrix N=-A; for(auto&v:W.v) v=-v; Ref same(X->r.n(),X->c.n()); gather(A,X->r,X->c,me,same); for(int i=X->r.lo(me);i<X->r.hi(me);i++) for(int j=0;j<X->c.n();j++) CHECKEQ(same.at(i,j),X->A.v.at(i,j),"negation leaves the matrix alone"); A=N; }
  else if(what==3){ A.AddDiag(X->s); for(int i=0;i<W.r;i++) W.at(i,i)+=X->s; } else if(what==4){ A.AddDiag(loc); for(int i=0;i<W.r;i++) W.at(i,i)+=X->d[i]; }
  else if(what==5||what==6){ if(what==5) A.ScaleRows(loc); else A.ScaleRows(diagS()); for(int i=0;i<W.r;i++) for(int j=0;j<W.c;j++) W.at(i,j)*=X->d[i]; }
  else if(what==7||what==8){ if(what==7) A.InverseScaleRows(loc); else A.InverseScaleRows(diagS()); for(int i=0;i<W.r;i++) for(int j=0;j<W.c;j++) W.at(i,j)/=X->d[i]; }
  else if(what==9){ int k=nl-1; A.EliminateRow(k); for(int q=0;q<X->r.R;q++) for(int j=0;j<W.c;j++) W.at(X->r.hi(q)-1,j)=0; }
  gather(A,X->r,X->c,me,X->got); Vector<double> x=slice(X->x,X->c,me); eqSlice(A.Mult(x),mul(W,X->x),X->r,me,"the change is seen by the next application"); if(P(3)){ double mx=0; for(double v:W.v){ double a=std::fabs(v); mx= mx<a?a:mx; } CHECKEQ(A.MaxNorm(),mx,"largest absolute value over all ranks"); } int z=0; for(char o:X->A.on) z+=o; CHECK(A.nnz()==z,"global number of entries"); if(me==0){ X->B.v=W; } }
H(scale){ Lcg g(P(0)); { Ctx C; setup(C,g,P(3),true); C.s=SR("s"); if(P(6)==1) ASSUME(C.s!=0); C.d=symVec("d",C.r.n()); if(P(6)==7||P(6)==8) for(double v:C.d) ASSUME(v!=0); C.x=symVec("x",C.c.n()); C.got=Ref(C.r.n(),C.c.n()); go(C.r.R,rscale); eqRef(C.got,C.B.v,"entries after the change"); } COVER("end"); }
// constructors that work out the distribution; block diagonal matrices
static void rctor(int me){ ParMatrix A=mkPar(X->A,X->r,X->c,me,0); ParMatrix B(MPI_COMM_WORLD,A.GetDiag(),A.GetOffd(),A.GetColMap()); gather(B,X->r,X->c,me,X->got); Vector<double> x=slice(X->x,X->c,me); eqSlice(B.Mult(x),mul(X->A.v,X->x),X->r,me,"application"); Vector<double> y=slice(X->y,X->r,me); eqSlice(B.MultAT(y),mul(X->A.v.t(),X->y),X->c,me,"transposed application"); Ref bd(X->r.n(),X->c.n()); for(int q=0;q<X->r.R;q++) for(int i=X->r.lo(q);i<X->r.hi(q);i++) for(int j=X->c.lo(q);j<X->c.hi(q);j++) bd.at(i,j)=X->A.v.at(i,j);
  ParMatrix D1(MPI_COMM_WORLD,A.GetDiag()); Ref t(X->r.n(),X->c.n()); gather(D1,X->r,X->c,me,t); eqSlice(D1.Mult(x),mul(bd,X->x),X->r,me,"block diagonal matrix, distribution worked out"); ParMatrix D2(MPI_COMM_WORLD,X->r.starts(me),X->c.starts(me),A.GetDiag()); eqSlice(D2.Mult(x),mul(bd,X->x),X->r,me,"block diagonal matrix"); eqSlice(D2.MultAT(y),mul(bd.t(),X->y),X->c,me,"block diagonal matrix transposed"); if(P(1)==P(2)){ ParMatrix D3(MPI_COMM_WORLD,X->r.starts(me),A.GetDiag()); eqSlice(D3.Mult(x),mul(bd,X->x),X->r,me,"square block diagonal matrix"); }
  ParCommPkg k=B.MakeCommPkg(); const hypre_ParCSRMatrix*h=B; const hypre_ParCSRCommPkg*p=h->comm_pkg; CHECK(k.comm_==p->comm&&k.num_sends_==p->num_sends&&k.num_recvs_==p->num_recvs,"exchange pattern: counts"); CHECK((int)k.send_procs_.size()==p->num_sends&&(int)k.recv_procs_.size()==p->num_recvs&&(int)k.send_map_starts_.size()==p->num_sends+1&&(int)k.recv_vec_starts_.size()==p->num_recvs+1&&(int)k.send_map_elmts_.size()==p->send_map_starts[p->num_sends],"exchange pattern: sizes"); for(int i=0;i<p->num_sends;i++) CHECK(k.send_procs_[i]==p->send_procs[i]&&k.send_map_starts_[i+1]==p->send_map_starts[i+1],"exchange pattern: sends"); for(int i=0;i<p->num_recvs;i++) CHECK(k.recv_procs_[i]==p->recv_procs[i]&&k.recv_vec_starts_[i+1]==p->recv_vec_starts[i+1],"exchange pattern: receives"); for(int i=0;i<p->send_map_starts[p->num_sends];i++) CHECK(k.send_map_elmts_[i]==p->send_map_elmts[i],"exchange pattern: elements"); }
H(ctor){ Lcg g(P(0)); { Ctx C; setup(C,g,P(3)); C.x=symVec("x",C.c.n()); C.y=symVec("y",C.r.n()); C.got=Ref(C.r.n(),C.c.n()); go(C.r.R,rctor); eqRef(C.got,C.A.v,"entries"); } COVER("end"); }
// copies, moves, swaps and assignments: every object keeps being the matrix it stands for
static void rlife(int me){ Vector<double> x=slice(X->x,X->c,me); auto a=mul(X->A.v,X->x); auto b=mul(X->B.v,X->x); Vector<double> y=slice(X->y,X->r,me); auto at=mul(X->A.v.t(),X->y);
  auto isA=[&](const ParMatrix&M,const char*m){ Ref t(X->r.n(),X->c.n()); gather(M,X->r,X->c,me,t); for(int i=X->r.lo(me);i<X->r.hi(me);i++) for(int j=0;j<X->c.n();j++) CHECKEQ(t.at(i,j),X->A.v.at(i,j),m); eqSlice(M.Mult(x),a,X->r,me,m); eqSlice(M.MultAT(y),at,X->c,me,m); }; auto isB=[&](const ParMatrix&M,const char*m){ Ref t(X->r.n(),X->c.n()); gather(M,X->r,X->c,me,t); eqSlice(M.Mult(x),b,X->r,me,m); };
  auto empty=[&](const ParMatrix&M,const char*m){ CHECK(M.Rows()==0&&M.Cols()==0&&M.GlobalRows()==0&&M.GlobalCols()==0&&M.nnz()==0&&M.GetColMap().empty(),m); };
  int what=P(6); if(what==0){ ParMatrix*A=new ParMatrix(mkPar(X->A,X->r,X->c,me,X->rev)); ParMatrix C(*A); isA(C,"a copy"); *A*=2.0; isA(C,"a copy does not follow its original"); delete A; isA(C,"a copy outlives its original"); ParMatrix D(C); C=X->s; isA(D,"changing one copy leaves the other alone"); }
  else if(what==1){ ParMatrix A=mkPar(X->A,X->r,X->c,me,X->rev); ParMatrix M(std::move(A)); isA(M,"a moved matrix"); empty(A,"what was moved from is empty"); ParMatrix E; empty(E,"a default matrix is empty"); E=M; isA(E,"assigned to a default matrix"); isA(M,"assignment leaves its source alone"); ParMatrix F(E); F=std::move(M); isA(F,"assigned by moving"); ParMatrix Z; ParMatrix Z2(Z); ParMatrix Z3(std::move(Z2)); empty(Z3,"empty matrices can be copied and moved"); Z3=E; isA(Z3,"an empty matrix can be assigned to"); E=Z; empty(E,"an empty matrix can be assigned from"); }
  else if(what==2){ ParMatrix A=mkPar(X->A,X->r,X->c,me,X->rev),B=mkPar(X->B,X->r,X->c,me,0); swap(A,B); isA(B,"swapped"); isB(A,"swapped"); std::swap(A,B); isA(A,"swapped back"); isB(B,"swapped back"); A=B; isB(A,"assigned"); isB(B,"assigned from"); ParMatrix&r=A; A=r; isB(A,"assigned to itself"); }
  else { std::vector<ParMatrix> v; v.push_back(mkPar(X->A,X->r,X->c,me,0)); v.push_back(mkPar(X->B,X->r,X->c,me,0)); v.push_back(v[0]); v.insert(v.begin(),v[1]); isB(v[0],"kept in a growing vector"); isA(v[1],"kept in a growing vector"); isB(v[2],"kept in a growing vector"); isA(v[3],"kept in a growing vector"); v.erase(v.begin()); isA(v[0],"kept in a shrinking vector"); isA(v[2],"kept in a shrinking vector"); } }
H(life){ Lcg g(P(0)); { Ctx C; setup(C,g,P(3)); C.B=Glob("b",C.r.n(),C.c.n(),0,g); C.s=SR("s"); ASSUME(C.s!=0); C.x=symVec("x",C.c.n()); C.y=symVec("y",C.r.n()); go(C.r.R,rlife); } COVER("end"); }
// distributed vectors
static void rvec(int me){ const Dist&d=X->r; auto&x=X->x; auto&y=X->y; int n=d.n(); ParVector px=pvec(x,d,me),py=pvec(y,d,me); CHECK(px.GlobalSize()==n&&px.size()==d.len(me),"sizes"); double dot=0,sum=0,sy=0; for(int i=0;i<n;i++){ dot+=x[i]*y[i]; sum+=x[i]; sy+=y[i]*y[i]; } double loc=0; for(int i=d.lo(me);i<d.hi(me);i++) loc+=x[i];
  auto view=[&](const ParVector&v){ int what=P(6); (void)what; }; (void)view; Vector<double> lx=slice(x,d,me),ly=slice(y,d,me);
  CHECKEQ(px.Mult(ly),dot,"inner product with a local part"); CHECKEQ(Mult(px,py),dot,"inner product"); CHECKEQ(ParMult(MPI_COMM_WORLD,lx,ly),dot,"inner product of local parts"); CHECKEQ(ParMult(lx,ly),dot,"inner product of local parts"); CHECKEQ(px.LocalSum(),loc,"local sum"); CHECKEQ(px.GlobalSum(),sum,"global sum");
  double nn=py.L2Norm(); CHECK(nn>=0,"a norm is not negative"); CHECKEQ(nn*nn,sy,"norm"); double n2=L2Norm(py); CHECKEQ(n2*n2,sy,"norm"); double n3=ParL2Norm(MPI_COMM_WORLD,ly); CHECKEQ(n3*n3,sy,"norm of local parts");
  ParVector z(px); z+=py; for(int i=0;i<z.size();i++) CHECKEQ(z[i],x[d.lo(me)+i]+y[d.lo(me)+i],"sum"); eqSlice(px,x,d,me,"a copy does not share"); z=px; z-=py; for(int i=0;i<z.size();i++) CHECKEQ(z[i],x[d.lo(me)+i]-y[d.lo(me)+i],"difference"); z=px; z*=py; for(int i=0;i<z.size();i++) CHECKEQ(z[i],x[d.lo(me)+i]*y[d.lo(me)+i],"entrywise product"); z=3.0; for(int i=0;i<z.size();i++) CHECKEQ(z[i],3.0,"set to a value"); CHECK(z.GlobalSize()==n,"global size kept");
  ParVector m(px); SubAvg(m); for(int i=0;i<m.size();i++) CHECKEQ(m[i],x[d.lo(me)+i]-sum/n,"average removed"); ParVector q=pvec(x,d,me); q*=2.0; for(int i=0;i<q.size();i++) CHECKEQ(q[i],2*x[d.lo(me)+i],"scaled"); }
H(vec){ { Ctx C; C.r=dist(P(1)); X=&C; C.x=symVec("x",C.r.n()); C.y=symVec("y",C.r.n()); go(C.r.R,rvec); } COVER("end"); }
static void rveclife(int me){ const Dist&d=X->r; auto&x=X->x; auto&y=X->y; ParMatrix I(MPI_COMM_WORLD,d.starts(me),SparseMatrix<double>(std::vector<double>(d.len(me),1.0))); auto is=[&](ParVector&v,const std::vector<double>&w,const char*m){ eqSlice(v,w,d,me,m); CHECK(v.GlobalSize()==d.n(),m); ParVector iv=I.Mult(v); eqSlice(iv,w,d,me,"the library sees the vector's own values"); }; std::vector<double> zero(d.n(),0.0),val(d.n(),X->s);
  ParVector a(MPI_COMM_WORLD,d.starts(me)); is(a,zero,"starts at zero"); ParVector b(MPI_COMM_WORLD,X->s,d.starts(me)); is(b,val,"starts at the value"); ParVector*p=new ParVector(pvec(x,d,me)); ParVector c(*p); *p=X->s; is(*p,val,"set"); is(c,x,"a copy does not follow"); delete p; is(c,x,"a copy outlives its original"); ParVector m(std::move(c)); is(m,x,"moved"); CHECK(c.size()==0&&c.GlobalSize()==0,"what was moved from is empty"); a=m; is(a,x,"assigned"); is(m,x,"assigned from"); ParVector w=pvec(y,d,me); swap(a,w); is(a,y,"swapped"); is(w,x,"swapped"); b=std::move(w); is(b,x,"move assigned"); c=b; is(c,x,"an empty vector can be assigned to"); ParVector&r=c; c=r; is(c,x,"assigned to itself");
  ParVector e; CHECK(e.size()==0,"a default vector is empty"); e=c; is(e,x,"a default vector can be assigned to"); std::vector<ParVector> v; v.push_back(e); v.push_back(a); v.insert(v.begin(),a); is(v[0],y,"kept in a growing vector"); is(v[1],x,"kept in a growing vector"); is(v[2],y,"kept in a growing vector"); }
H(veclife){ { Ctx C; C.r=dist(P(1)); X=&C; C.s=SR("s"); C.x=symVec("x",C.r.n()); C.y=symVec("y",C.r.n()); go(C.r.R,rveclife); } COVER("end"); }
// empty vectors: copied, moved, assigned
static void rvecempty(int){ ParVector e; CHECK(e.GlobalSize()==0&&e.size()==0,"a default vector is empty"); ParVector f(e); CHECK(f.GlobalSize()==0&&f.size()==0,"a copy of an empty vector is empty"); ParVector g(std::move(f)); CHECK(g.size()==0&&g.GlobalSize()==0,"a moved empty vector is empty"); f=g; CHECK(f.size()==0,"assigned from an empty vector"); }
H(vecempty){ { Ctx C; C.r=dist(P(1)); X=&C; go(C.r.R,rvecempty); } COVER("end"); }
// row weights used for smoothing, straight from their definition on the gathered matrix
static void rl1(int me){ ParMatrix A=mkPar(X->A,X->r,X->c,me,X->rev); int opt=P(6); std::vector<double> l; if(P(7)) l.assign(X->r.len(me),5.0); int rc=hypre_ParCSRComputeL1Norms(A,opt,l); CHECK((int)l.size()==X->r.len(me),"one weight per row"); bool zero=false; for(int i=0;i<X->r.len(me);i++){ int gi=X->r.lo(me)+i; double loc=0,rem=0,sq=0; for(int j=0;j<X->c.n();j++){ double v=X->A.v.at(gi,j); if(!X->A.on[gi*X->c.n()+j]) continue; bool in=j>=X->c.lo(me)&&j<X->c.hi(me); if(in) loc+=std::fabs(v); else rem+=std::fabs(v); sq+=v*v; } double dg=X->A.v.at(gi,gi); double w= opt==1?loc+rem: opt==2?std::fabs(dg)+rem: opt==3?sq: std::fabs(dg)+0.5*rem; if(opt==4&&w<=4.0/3.0*std::fabs(dg)) w=std::fabs(dg); if(dg<0) w=-w; CHECKEQ(l[i],w,"row weight"); zero=zero||l[i]==0; } (void)rc; (void)zero; }
H(l1){ Lcg g(P(0)); { Ctx C; setup(C,g,P(3),true); go(C.r.R,rl1); } COVER("end"); }
