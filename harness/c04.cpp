// C04: sparse times sparse
#include "lib.hpp"
template<class V,class T,class U> static void product(const SparseMatrix<V>&C,const Csr<T>&a,const Csr<U>&b,const char*m){ wellFormed(C,a.r,b.c,m); eqRef(refOf(C),mul(a.ref(),b.ref()),m); const auto&p=C.GetIndptr(); const auto&x=C.GetIndices();
  for(int i=0;i<a.r;i++) for(int q=p[i];q<p[i+1];q++){ for(int s=q+1;s<p[i+1];s++) CHECK(x[q]!=x[s],"no column twice in a row of the product"); int hit=0; for(int j=a.ptr[i];j<a.ptr[i+1];j++) for(int k=b.ptr[a.idx[j]];k<b.ptr[a.idx[j]+1];k++) hit|=(b.idx[k]==x[q])?1:0; CHECK(hit,"only positions some pair of entries contributes to"); } }
H(spsp){ Lcg g(P(0)); int r=P(1),m=P(2),c=P(3); auto a=genCsr<double>("a",r,m,P(4),DUP,g); auto b=genCsr<double>("b",m,c,P(5),DUP,g); if(P(0)==0) for(auto&x:a.idx) x=conc(x); SparseMatrix<> A=mk(a),B=mk(b); SparseMatrix<> C=A.Mult(B); product(C,a,b,"A B");
  std::vector<int> w; for(int i=0;i<P(6);i++) w.push_back(SI("w",-5,50)); product(A.Mult(B,w),a,b,"A B with a workspace"); SparseMatrix<> I2(symVec("d",r)); SparseMatrix<> D=I2.Mult(A,w); wellFormed(D,r,m,"second product with the same workspace"); Ref E=a.ref(); for(int i=0;i<r;i++) for(int j=0;j<m;j++) E.at(i,j)*=I2.GetData()[i]; eqRef(refOf(D),E,"second product with the same workspace"); product(A.Mult(B,w),a,b,"third product with the same workspace");
  sameCsr(A,a,"left operand unchanged"); sameCsr(B,b,"right operand unchanged"); __sym_log_i("nnz",C.nnz()); COVER("end"); }
H(spsp_types){ Lcg g(P(0)); int r=P(1),m=P(2),c=P(3); auto a=genCsr<int>("a",r,m,P(4),DUP,g); auto b=genCsr<double>("b",m,c,P(5),DUP,g); if(P(0)==0) for(auto&x:a.idx) x=conc(x); SparseMatrix<int> A=mk(a); SparseMatrix<> B=mk(b); SparseMatrix<double> C=A.Mult(B); product(C,a,b,"int A times double B"); auto d=genCsr<int>("d",c,r,P(5),DUP,g); if(P(0)==0) { for(auto&x:d.idx) x=conc(x); for(auto&x:b.idx) ASSUME(x==conc(x)); } SparseMatrix<int> D=mk(d); SparseMatrix<int> E=D.Mult(A); product(E,d,a,"int times int"); SparseMatrix<double> F=B.Mult(D); product(F,b,d,"double times int"); sameCsr(A,a,"left operand unchanged"); COVER("end"); }
//@ run spsp 0 0..2 0..2 0..2 1 1 3 t=60
//@ run spsp 0 1 2 3 2 2 1 t=100
//@ run spsp 0 2 2 2 2 1 0 t=100
//@ run spsp 0 3 1,2 2 1 1 5 t=60
//@ run spsp S0..5 5,8 6 4,9 4 3 3 t=40
//@ run spsp_types 0 2 1 2 1 1 t=60
//@ run spsp_types S0..3 4 5 3 2 2 t=40
// structures that are almost special (see patRows)
//@ run spsp 1000000..1000035 5 5 5 4 3 3 t=40
//@ run spsp 1000000..1000035 5 6 4 4 3 3 t=40
// large shapes: concrete structure, symbolic values
//@ run spsp 4 32 64 32 10 8 3 t=60
//@ run spsp 1..3 40 35 50 10 8 3 t=60
//@ run spsp 1..2 5 70 70 40 30 3 t=60
//@ run spsp 1..2 5 270 5 30 4 3 t=60
//@ run spsp 1..2 70 5 70 4 30 3 t=60
//@ run spsp 1 20 20 150 10 70 3 t=60
//@ run spsp_types 1..2 20 24 33 10 10 t=60
//@ thorough spsp 0 2 2 3 2 2 1 t=800
//@ thorough spsp 0 3 3 2 1 2 1 t=800
//@ thorough spsp S10..30 12,1 9 14,2 5 4 3 t=100
//@ bounds fully symbolic factor structures up to 2x2 times 2x2 (2 and 1 entries per row) and 1x2 times 2x3 (2 and 2), duplicates and unsorted entries included
//@ bounds seeded structures up to 8x6 times 6x9 (thorough 12x9 times 9x14) with all values symbolic; larger shapes (spsp, spsp_types): a concrete, seeded structure of tens to hundreds of rows and columns with every value symbolic
//@ bounds structures that are almost special (identity with two columns exchanged, triangular, full but one entry, tridiagonal, arrow, equal rows, diagonal with a missing or an extra entry, ...: 18 families, 5 to 7 rows and columns), every value symbolic
//@ outside larger dimensions; rounding
