// C26: eigensolver against contract models of the kernels, and power iteration
#include "lib.hpp"
#include "lapack.hpp"
static KCall* last(const char*n,int from){ KCall*k=nullptr; int cnt=0; for(size_t i=from;i<kcalls().size();i++) if(kcalls()[i].name==n){ k=&kcalls()[i]; cnt++; } CHECK(cnt==1,"kernel called exactly once"); return k; }
static void sameD(const std::vector<double>&a,const std::vector<double>&b,size_t n,const char*m){ CHECK(a.size()>=n&&b.size()>=n,m); for(size_t i=0;i<n;i++) CHECKEQ(a[i],b[i],m); }
static Ref symm(int n){ Ref R(n,n); for(int i=0;i<n;i++) for(int j=0;j<=i;j++) R.at(i,j)=R.at(j,i)=SR("a"); return R; }
static SparseMatrix<double> spOf(const Ref&R){ std::vector<int> p{0},x; std::vector<double> d; for(int i=0;i<R.r;i++){ for(int j=R.c-1;j>=0;j--){ x.push_back(j); d.push_back(R.at(i,j)); } p.push_back((int)x.size()); } return SparseMatrix<double>(p,x,d,R.r,R.c); }
static void solve(EigenSolver&S,int n,int req,int form){ Ref R=symm(n); double tol=SR("tol",-4,4); EigenPair ep; ep.first=symVec("oldval",3); ep.second=junkDense(2,4); int from=kcalls().size();
  if(form==0){ DenseMatrix A=mk(R); S.Solve(A,tol,req,ep); eqRef(refOf(A),R,"input unchanged"); } else if(form==1){ DenseMatrix A=mk(R); ep=S.Solve(A,tol,req); eqRef(refOf(A),R,"input unchanged"); } else if(form==2){ SparseMatrix<double> A=spOf(R); S.Solve(A,tol,req,ep); eqRef(refOf(A),R,"input unchanged"); } else { SparseMatrix<double> A=spOf(R); ep=S.Solve(A,tol,req); }
  CHECK((int)ep.first.size()==n,"all eigenvalues are returned"); if(n==0){ CHECK(ep.second.Rows()==0&&ep.second.Cols()==0,"nothing of nothing"); return; }
  KCall*t=last("dsytrd",from),*f=last("dsterf",from),*z=last("dstein",from),*q=last("dormtr",from); int m=ep.second.Cols(); int lim=(req<0||req>n)?n:(req<1?1:req);
  CHECK(ep.second.Rows()==n&&m>=1&&m<=lim,"between one and the requested number of eigenvectors"); for(int j=0;j<n;j++) for(int i=0;i<n;i++) if(t->opt=="U"? i<=j: i>=j) CHECKEQ(t->inA[(size_t)j*n+i],R.at(i,j),"the matrix is reduced");
  std::vector<double> e(t->outC.begin(),t->outC.begin()+(n-1)),tau(t->outC.begin()+(n-1),t->outC.end()); sameD(f->inA,t->outB,n,"the diagonal of the reduction"); sameD(f->inB,e,n-1,"the off-diagonal of the reduction"); for(int i=0;i<n;i++) CHECKEQ(ep.first[i],f->outA[i],"eigenvalues in the kernel's order");
  double lim2=f->outA[n-1]*tol; for(int i=1;i<m;i++) CHECK(f->outA[i]<=lim2,"no eigenvector beyond the tolerance"); if(m<lim) CHECK(f->outA[m]>lim2,"every eigenvector within the tolerance");
  CHECK(z->k==m,"as many vectors as kept"); sameD(z->inA,t->outB,n,"the vectors of the reduction: diagonal"); sameD(z->inB,e,n-1,"the vectors of the reduction: off-diagonal"); sameD(z->inC,f->outA,m,"for the lowest eigenvalues");
  CHECK(q->opt==std::string("L")+t->opt+"N","transformed by the reduction's orthogonal factor"); CHECK(q->m==n&&q->n==m,"all vectors transformed"); sameD(q->inC,z->outA,(size_t)n*m,"the tridiagonal vectors are transformed"); if(n>1){ sameD(q->inA,t->outA,(size_t)n*n,"with the reflectors"); sameD(q->inB,tau,n-1,"and their scalars"); } for(int i=0;i<n*m;i++) CHECKEQ(ep.second.GetData()[i],q->outA[i],"the vectors are delivered"); }
H(eigen){ int n=P(1),req=P(2),form=P(3); { EigenSolver S; solve(S,n,req,form); } kclear(); COVER("end"); }
H(reuse){ int a=P(1),b=P(2),c=P(3); { EigenSolver S; solve(S,a,-1,0); solve(S,b,2,2); EigenSolver T(S); solve(T,c,1,1); EigenSolver U; U=T; solve(U,a,-1,3); EigenSolver V(std::move(T)); solve(V,c,-1,0); solve(S,c,-1,0); } kclear(); COVER("end"); }
// sizes beyond any fixed work space: only the argument rules of the kernels and the sizes of the answer
H(wide){ int n=P(1),req=P(2); { std::vector<int> p{0},x; std::vector<double> d; for(int i=0;i<n;i++){ x.push_back(i); d.push_back(1.0+i%7); p.push_back(i+1); } SparseMatrix<double> A(p,x,d,n,n); EigenSolver S; if(P(3)){ EigenPair q=S.Solve(spOf(symm(3)),1e9,1); } EigenPair ep=S.Solve(A,SR("tol",-4,4),req); CHECK((int)ep.first.size()==n&&ep.second.Rows()==n&&ep.second.Cols()>=1&&ep.second.Cols()<=req,"sizes of the answer"); } kclear(); COVER("end"); }
//@ run wide 0 1100,1200 1,2 0..1 t=60
//@ run eigen 0 0..3 -1..4 0..3 t=60
//@ run reuse 0 0..3 1..3 1..2 t=60
// large shapes: concrete structure, symbolic values
//@ run eigen 0 16,32 -1,16,32 0..3 t=60
//@ run eigen 0 17,33 -1,5,33,40 0..3 t=60
//@ thorough eigen 0 4,5 -1..6 0..3 t=300
//@ thorough reuse 0 0..4 1..4 0..4 t=300
//@ bounds every symmetric matrix of size up to 3 (thorough 5), every requested count, every tolerance, all four overloads, sequences of six solves over copied, moved and assigned solvers of changing size; larger shapes (eigen): a concrete, seeded structure of tens to hundreds of rows and columns with every value symbolic
//@ assume LAPACK's dsytrd, dsterf, dstein, dormtr are contract models: they check argument rules and buffer extents, return arbitrary values, with ordered eigenvalues
//@ outside the numerical content of the eigenpairs (they come from LAPACK)
