// C16: dense factorizations against contract models of the kernels
#include "lib.hpp"
#include "lapack.hpp"
static void isVec(const std::vector<double>&a,const Ref&b,const char*m){ CHECK((int)a.size()==b.r*b.c,m); for(int j=0;j<b.c;j++) for(int i=0;i<b.r;i++) CHECKEQ(a[(size_t)j*b.r+i],b.at(i,j),m); }
static void outIs(const DenseMatrix&A,int r,int c,const std::vector<double>&v,const char*m){ CHECK(A.Rows()==r&&A.Cols()==c,m); for(int i=0;i<r*c;i++) CHECKEQ(A.GetData()[i],v[i],m); }
static KCall* last(const char*n,int from){ KCall*k=nullptr; int cnt=0; for(size_t i=from;i<kcalls().size();i++) if(kcalls()[i].name==n){ k=&kcalls()[i]; cnt++; } CHECK(cnt==1,"kernel called exactly once"); return k; }
static void sameD(const std::vector<double>&a,const std::vector<double>&b,const char*m){ CHECK(a.size()==b.size(),m); for(size_t i=0;i<a.size();i++) CHECKEQ(a[i],b[i],m); }
static void inv(DenseMatrix A,int n,bool into){ Ref R=refOf(A); int from=kcalls().size(); DenseMatrix X=junkDense(1,3); if(into){ const DenseMatrix&K=A; K.Invert(X); eqRef(refOf(A),R,"const input unchanged"); } else { X=A; X.Invert(); } if(n==0){ CHECK(X.Rows()==0&&X.Cols()==0,"empty inverse"); return; }
  KCall*f=last("dgetrf",from),*g=last("dgetri",from); isVec(f->inA,R,"the matrix is factored"); sameD(g->inA,f->outA,"the factors are inverted"); CHECK(g->ints==f->ints,"with the pivots of the factorization"); outIs(X,n,n,g->outA,"the inverse is delivered"); }
H(invert){ int n=P(1),n2=P(2); inv(mk(symRef("a",n,n)),n,true); inv(mk(symRef("b",n2,n2)),n2,false); inv(mk(symRef("c",n,n)),n,false); kclear(); COVER("end"); }
H(singular){ int n=P(1); klapack_info=P(2); DenseMatrix A=mk(symRef("a",n,n)); REFUSED(A.Invert(),"a singular matrix is refused"); DenseMatrix B(2,3); REFUSED(B.Invert(),"a rectangular matrix is refused"); __sym_leak_ok(); kclear(); COVER("end"); }
H(qr){ int m=P(1),n=P(2),into=P(3); int k=m<n?m:n; Ref R=symRef("a",m,n); DenseMatrix A=mk(R); DenseMatrix Q=junkDense(2,1); int from=kcalls().size(); if(into){ const DenseMatrix&K=A; K.QR(Q); eqRef(refOf(A),R,"const input unchanged"); } else { Q=A; Q.QR(); } if(k==0){ CHECK(Q.Rows()==m&&Q.Cols()==n,"empty factor"); { kclear(); COVER("end"); return; } }
  KCall*g=last("dorgqr",from); std::vector<double> qa,qt; int cnt=0; for(size_t i=from;i<kcalls().size();i++) if(kcalls()[i].name=="dgeqp3"||kcalls()[i].name=="dgeqrf"){ cnt++; isVec(kcalls()[i].inA,R,"the matrix is factored"); qa=kcalls()[i].outA; qt=kcalls()[i].outB; } CHECK(cnt==1,"factored once"); CHECK(g->m==m&&g->n==k&&g->k==k,"all reflectors, as many columns as the smaller dimension"); CHECK((int)g->inA.size()==m*k,"reflectors"); for(int i=0;i<m*k;i++) CHECKEQ(g->inA[i],qa[i],"the reflectors of the factorization"); sameD(g->inB,qt,"with their scalars"); outIs(Q,m,k,g->outA,"the orthogonal factor is delivered"); DenseMatrix Q2=mk(symRef("c",n,m)); Q2.QR(); CHECK(Q2.Rows()==n&&Q2.Cols()==k,"shape of a second factorization"); kclear(); COVER("end"); }
H(svd){ int m=P(1),n=P(2),into=P(3); int k=m<n?m:n; Ref R=symRef("a",m,n); DenseMatrix A=mk(R); DenseMatrix U=junkDense(2,1); int from=kcalls().size(); std::vector<double> s; if(into){ const DenseMatrix&K=A; s=K.SVD(U); eqRef(refOf(A),R,"const input unchanged"); } else { U=A; s=U.SVD(); } CHECK((int)s.size()==k,"number of singular values"); if(k==0){ { kclear(); COVER("end"); return; } }
  KCall*g=last("dgesvd",from); isVec(g->inA,R,"the matrix is decomposed"); sameD(s,g->outB,"singular values"); CHECK(g->m==m&&g->n==n,"shape"); outIs(U,m,k,g->outA,"left singular vectors"); std::vector<double> s2=U.SVD(); CHECK((int)s2.size()==(m<k?m:k),"a second decomposition"); kclear(); COVER("end"); }
// sizes beyond any fixed work space: only the argument rules of the kernels are looked at
H(wide){ int n=P(1),what=P(2); { if(what==0){ DenseMatrix A(n,n); A.Invert(); CHECK(A.Rows()==n&&A.Cols()==n,"shape of the inverse"); CHECK(kcalls().size()==2&&kcalls()[0].n==n&&kcalls()[1].n==n,"factored and inverted"); } else { int r=what%2?n:3,c=what%2?3:n; Ref R(r,c); for(int i=0;i<3;i++) R.at(what%2?i*7:i,what%2?i:i*7)=SR("a"); DenseMatrix A=mk(R); if(what<3){ A.QR(); CHECK(A.Rows()==r&&A.Cols()==3,"shape of the factor"); } else { auto s=A.SVD(); CHECK((int)s.size()==3&&A.Rows()==r&&A.Cols()==3,"shape of the factor"); } } kclear(); } COVER("end"); }
//@ run wide 0 1100,1200 0..4 t=60
//@ run invert 0 0..3 0..3 t=60
//@ run singular 0 1..3 1,2 leak=0 t=60
//@ run qr 0 0..4 0..4 0..1 t=60
//@ run svd 0 0..4 0..4 0..1 t=60
// large shapes: concrete structure, symbolic values
//@ run invert 0 16,32 33 t=60
//@ run qr 0 16 8,16,32 0..1 t=60
//@ run svd 0 16,32 16 0..1 t=60
//@ run invert 0 20 33 t=60
//@ run qr 0 33,20 20,35 0..1 t=60
//@ run svd 0 20,33 33,18 0..1 t=60
//@ thorough invert 0 4..6 0..6 t=100
//@ thorough qr 0 5..8 1..8 0..1 t=100
//@ thorough svd 0 1..8 5..8 0..1 t=100
//@ bounds every shape up to 4x4 (thorough 8x8), all entries symbolic, in-place and output-argument forms; larger shapes (invert, qr, svd): a concrete, seeded structure of tens to hundreds of rows and columns with every value symbolic
//@ assume LAPACK's dgetrf, dgetri, dgeqp3, dorgqr, dgesvd are contract models: they check the documented argument rules and buffer extents and return arbitrary values
//@ outside the numerical content of the factors (they come from LAPACK)
