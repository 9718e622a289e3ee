// C34: distributed assembly helpers
#include "par.hpp"
//@ inc modules/parlinalgcpp/include @/stubs/hypre
//@ repo src modules/parlinalgcpp/src/hypre_ops.cpp modules/parlinalgcpp/src/parcommpkg.cpp modules/parlinalgcpp/src/parmatrix.cpp modules/parlinalgcpp/src/paroperator.cpp modules/parlinalgcpp/src/parutilities.cpp modules/parlinalgcpp/src/parvector.cpp
//@ link hypre/hypre
//@ run add S0..1 21 12 5 0..3 0,1 0,1,3,4
//@ run add S0..1 111 111 4 0,3 0,1 0,1,3,4
//@ run add S0..1 112 211 4 0,3 0 1
//@ run add S0 21 12 4 0..3 0 2,5 0,2
//@ run add S0 3 4 4 0,1 0 1,4 0
//@ run add S0 111 111 4 0,1 1 2,5 0,2
//@ run add S0..1 11 11 2 0 0 2,5 1
//@ run split S0 1 3 9 0,1 0 0
//@ run split S0..1 2 3 6 0,1 0,1 0
//@ run split S0..1 3 3 6 0,1 0 0
//@ run split S0..2 2,3 4 4 0,1 0,1 0,1,2
//@ run offsets 0 1,2,3,4 1,2,3 0 0 0,1
//@ run sortmap S0..1 1,2,3,4 1,2 0,1,3,4
// larger shapes: concrete structure, symbolic values
//@ run add S2..3 98 79 0 0..3 0,1 0,1,3,4
//@ run add S2 975 597 0 0,3 0,1 0,1,3,4
//@ run add S2 2468 8642 0 0,3 0 0,1
//@ thorough add S0..3 21,12 12 8 0..3 0,1 0,1,2,3,4,5 0,2 t=600
//@ thorough add S0..3 22 22 6 0,3 0,1 0,1,4 t=600
//@ thorough add S0..3 111,121,201 112 6 0,3 0,1 0,1,3,4 t=600
//@ thorough add S0..1 1111 1111 5 0,3 0,1 1,4 t=600
//@ thorough add S0 11 11 4 0 0 2,5 1 t=600
//@ thorough split S0 2,3 3 9 0,1 0,1 0 t=600
//@ thorough split S0..5 2,3,4 4 7 0,1 0,1 0,1,2 t=600
//@ thorough split S0..2 3 5 4 0,1 0 0,1,2 t=600
//@ thorough sortmap S0..2 5 2,3 3,4 t=600
//@ bounds 1 to 3 ranks (thorough: 4); up to 3 rows and 4 columns (thorough: 4 and 4) over all ranks; 4 to 9 entry positions of each operand symbolic (present or not), every value and scale symbolic; both storage orders; the caller's marker array clean, used before, longer than needed or (2 x 2) with arbitrary contents below the limits the function documents; splitting: every assignment of up to 4 (thorough: 5) vertices to owners that leaves no owner without vertices; offsets: 1 to 4 ranks, 1 to 3 distributions, every size up to 2^20; column maps of up to 4 (5) columns with every order; larger shapes (add): a concrete, seeded structure of tens to hundreds of rows and columns with every value symbolic
//@ assume MPI and hypre follow their contracts (model in stubs/hypre, as for C36); every rank of a split owns a vertex
//@ outside more ranks and larger matrices; rounding
struct Ctx { Dist r,c; Glob A,B; Ref got; double a,b; std::vector<int> part; std::vector<int> sizes; Ref got2; };
static Ctx*X;
static void go(int R,void(*f)(int)){ hm_order(P(5)); hm_run(R,f); }
// sums and differences, every overload; what = overload, P(6); P(7): state of the caller's marker array
static void radd(int me){ int what=P(6); ParMatrix A=mkPar(X->A,X->r,X->c,me,P(4)&1),B=mkPar(X->B,X->r,X->c,me,(P(4)>>1)&1); std::vector<int> mark(X->c.n()+(P(7)==2?2:0),-1); if(P(7)==1) for(size_t i=0;i<mark.size();i++) mark[i]=CI("marker",-1,1);
  auto run=[&]{ return what==0?ParAdd(A,B):what==1?ParAdd(X->a,A,X->b,B):what==2?ParAdd(X->a,A,X->b,B,mark):what==3?ParSub(A,B):what==4?ParSub(X->a,A,X->b,B):ParSub(X->a,A,X->b,B,mark); };
  ParMatrix M=run(); gather(M,X->r,X->c,me,X->got); if(what==2||what==5){ ParMatrix N=run(); gather(N,X->r,X->c,me,X->got2); } else X->got2=X->got;
  Ref t(X->r.n(),X->c.n()),u(X->r.n(),X->c.n()); gather(A,X->r,X->c,me,t); gather(B,X->r,X->c,me,u); for(int i=X->r.lo(me);i<X->r.hi(me);i++) for(int j=0;j<X->c.n();j++){ CHECKEQ(t.at(i,j),X->A.v.at(i,j),"the first matrix is not changed"); CHECKEQ(u.at(i,j),X->B.v.at(i,j),"the second matrix is not changed"); } }
H(add){ Lcg g(P(0)); { Ctx C; C.r=dist(P(1)); C.c=dist(P(2)); C.A=Glob("a",C.r.n(),C.c.n(),P(3),g); C.B=Glob("b",C.r.n(),C.c.n(),P(3),g); X=&C; C.a=SR("alpha"); C.b=SR("beta"); C.got=C.got2=Ref(C.r.n(),C.c.n()); go(C.r.R,radd); int what=P(6); double a= what==0||what==3?1:C.a, b= what==0?1:what==3?-1:what>=4?-C.b:C.b; Ref w(C.r.n(),C.c.n()); for(size_t i=0;i<w.v.size();i++) w.v[i]=a*C.A.v.v[i]+b*C.B.v.v[i]; eqRef(C.got,w,"scaled sum"); eqRef(C.got2,w,"scaled sum with a used marker array"); } COVER("end"); }
// the remote columns of the sum are exactly the columns some remote entry of the operands has
// splitting a global matrix by an owner per vertex
static void rsplit(int me){ const auto&pt=X->part; int n=X->A.v.r; std::vector<int> p{0},x; std::vector<double> d; for(int i=0;i<n;i++){ for(int q=0;q<n;q++){ int j= P(4)?n-1-q:q; if(X->A.on[i*n+j]){ x.push_back(j); d.push_back(X->A.v.at(i,j)); } } p.push_back((int)x.size()); } SparseMatrix<double> G(p,x,d,n,n);
  ParMatrix M=ParSplit(MPI_COMM_WORLD,G,pt); Dist D; D.R=hm_size(); D.s[0]=0; for(int r=0;r<D.R;r++){ int c=0; for(int v:pt) c+= v==r; D.s[r+1]=D.s[r]+c; } gather(M,D,D,me,X->got); }
H(split){ Lcg g(P(0)); { Ctx C; int R=P(1),n=P(2); C.A=Glob("a",n,n,P(3),g,P(6)==1,P(6)==2?1:2); C.part.resize(n); for(int i=0;i<n;i++) C.part[i]= CI("owner",0,R-1); for(int r=0;r<R;r++){ int c=0; for(int v:C.part) c+= v==r; ASSUME(c>0); } C.got=Ref(n,n); X=&C; go(R,rsplit); std::vector<int> num(n); int k=0; for(int r=0;r<R;r++) for(int i=0;i<n;i++) if(C.part[i]==r) num[i]=k++; Ref w(n,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) w.at(num[i],num[j])=C.A.v.at(i,j); eqRef(C.got,w,"the split matrix is the global one, renumbered by owner"); } COVER("end"); }
// offsets
static void roff(int me){ int R=hm_size(); int k=P(2); std::vector<int> mine(k); for(int q=0;q<k;q++) mine[q]=X->sizes[me*k+q]; auto all=GenerateOffsets(MPI_COMM_WORLD,mine); CHECK((int)all.size()==k,"one set of offsets per size"); for(int q=0;q<k;q++){ int before=0,tot=0; for(int r=0;r<R;r++){ if(r<me) before+=X->sizes[r*k+q]; tot+=X->sizes[r*k+q]; } CHECK(all[q].size()==3,"three offsets"); CHECK(all[q][0]==before,"starts where the previous ranks end"); CHECK(all[q][1]==before+mine[q],"ends where the next rank starts"); CHECK(all[q][2]==tot,"global size"); auto one=GenerateOffsets(MPI_COMM_WORLD,mine[q]); CHECK(one.size()==3&&one[0]==before&&one[1]==before+mine[q]&&one[2]==tot,"offsets of a single size"); } }
H(offsets){ { Ctx C; int R=P(1),k=P(2); for(int i=0;i<R*k;i++) C.sizes.push_back(SI("size",0,1<<20)); X=&C; go(R,roff); } COVER("end"); }
// sorting a column map
H(sortmap){ Lcg g(P(0)); int n=P(1),rows=P(2),nz=P(3); { std::vector<HYPRE_Int> cm; for(int i=0;i<n;i++){ int v=CI("col",0,n+1); for(int o:cm) ASSUME(o!=v); cm.push_back(v); } CooMatrix<double> coo(rows,n); Ref w(rows,n+2); for(int k=0;k<nz&&n;k++){ int i=CI("row",0,rows-1),j=g.next(n); double v=SR("v"); coo.Add(i,j,v); w.at(i,cm[j])+=v; } auto before=cm; SortColumnMap(cm,coo); CHECK((int)cm.size()==n,"as many columns"); for(int i=1;i<n;i++) CHECK(cm[i]>cm[i-1],"sorted"); for(int v:before){ bool f=false; for(int u:cm) f=f||u==v; CHECK(f,"no column lost"); } SparseMatrix<double> S=coo.ToSparse(); CHECK(S.Rows()==rows&&S.Cols()==n,"size kept"); Ref got(rows,n+2); for(int i=0;i<rows;i++) for(int e=S.GetIndptr()[i];e<S.GetIndptr()[i+1];e++) got.at(i,cm[S.GetIndices()[e]])+=S.GetData()[e]; eqRef(got,w,"every entry keeps its global column"); } COVER("end"); }
