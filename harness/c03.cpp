// C03: sparse times dense
#include "lib.hpp"
H(spdense){ Lcg g(P(0)); int r=P(1),c=P(2),mx=P(3),k=P(4); auto a=genCsr<double>("a",r,c,mx,DUP,g); SparseMatrix<> A=mk(a); Ref R=a.ref(); Ref B=symRef("b",c,k); DenseMatrix D=mk(B); Ref E=mul(R,B);
  DenseMatrix o=A.Mult(D); eqRef(refOf(o),E,"A B"); DenseMatrix u=junkDense(P(5),P(6)); A.Mult(D,u); eqRef(refOf(u),E,"A B into a used matrix"); DenseMatrix u3=junkDense(r,k); A.Mult(D,u3); eqRef(refOf(u3),E,"A B into a used matrix of the same shape");
  DenseMatrix t=A.MultCT(D); eqRef(refOf(t),E.t(),"(A B)^T"); DenseMatrix u2=junkDense(P(5),P(6)); A.MultCT(D,u2); eqRef(refOf(u2),E.t(),"(A B)^T into a used matrix"); DenseMatrix u4=junkDense(k,r); A.MultCT(D,u4); eqRef(refOf(u4),E.t(),"(A B)^T into a used matrix of the same shape");
  sameCsr(A,a,"sparse operand unchanged"); eqRef(refOf(D),B,"dense operand unchanged"); for(int i=0;i<r&&k;i++) __sym_log_d("o",o(i,0)); COVER("end"); }
H(spdenseT){ Lcg g(P(0)); int r=P(1),c=P(2),mx=P(3),k=P(4); auto a=genCsr<double>("a",r,c,mx,DUP,g); SparseMatrix<> A=mk(a); Ref B=symRef("b",r,k); DenseMatrix D=mk(B); Ref E=mul(a.ref().t(),B);
  DenseMatrix o=A.MultAT(D); eqRef(refOf(o),E,"A^T B"); DenseMatrix u=junkDense(P(5),P(6)); A.MultAT(D,u); eqRef(refOf(u),E,"A^T B into a used matrix"); DenseMatrix u3=junkDense(c,k); A.MultAT(D,u3); eqRef(refOf(u3),E,"A^T B into a used matrix of the same shape");
  sameCsr(A,a,"sparse operand unchanged"); eqRef(refOf(D),B,"dense operand unchanged"); for(int i=0;i<c&&k;i++) __sym_log_d("o",o(i,0)); COVER("end"); }
H(spdense_int){ Lcg g(P(0)); int r=P(1),c=P(2),mx=P(3),k=P(4); auto a=genCsr<int>("a",r,c,mx,DUP,g); SparseMatrix<int> A=mk(a); Ref R=a.ref(); Ref B=symRef("b",c,k); DenseMatrix D=mk(B); Ref BT=symRef("bt",r,k); DenseMatrix DT=mk(BT);
  eqRef(refOf(A.Mult(D)),mul(R,B),"int A B"); eqRef(refOf(A.MultCT(D)),mul(R,B).t(),"int (A B)^T"); eqRef(refOf(A.MultAT(DT)),mul(R.t(),BT),"int A^T B"); COVER("end"); }
//@ run spdense 0 0..3 0..2 2 0..2 3 2 t=60
//@ run spdenseT 0 0..3 0..2 2 0..2 3 2 t=60
//@ run spdense 0 2,3 3 2 2 1 1 t=60
//@ run spdenseT 0 2,3 3 2 2 1 1 t=60
//@ run spdense_int 0 2 2 1 2 t=40
//@ run spdense S0..3 7 5,9 4 3,6 4 9 t=30
//@ run spdenseT S0..3 7 5,9 4 3,6 4 9 t=30
//@ run spdense_int S0..3 5 6 3 4 t=30
// structures that are almost special (see patRows)
//@ run spdense 1000000..1000017 5 5 4 3 4 9 t=30
//@ run spdenseT 1000000..1000017 5 6 4 3 4 9 t=30
// large shapes: concrete structure, symbolic values
//@ run spdense 3 32 32 16 16 3 3 t=60
//@ run spdenseT 3 32 32 16 16 3 3 t=60
//@ run spdense 3 16 64 8 64 3 3 t=60
//@ run spdense 1..2 40 35 20 18 3 3 t=60
//@ run spdenseT 1..2 40 35 20 18 3 3 t=60
//@ run spdense 1..2 5,40 6 4 70,130 3 3 t=60
//@ run spdenseT 1..2 5,40 6 4 70,130 3 3 t=60
//@ run spdense 1..2 140 6 4 5 3 3 t=60
//@ run spdenseT 1..2 6 140 9 5 3 3 t=60
//@ run spdense_int 1..2 20 35 20 18 t=60
//@ thorough spdense 0 4 3 2 2 2 3 t=600
//@ thorough spdenseT 0 4 3 2 2 2 3 t=600
//@ thorough spdense S10..20 12,1 17 6 8 3 3 t=60
//@ thorough spdenseT S10..20 12,1 17 6 8 3 3 t=60
//@ bounds fully symbolic structures up to 3x3 (2 entries per row, duplicates, unsorted) times up to 3x2 symbolic dense matrices, outputs pre-filled with arbitrary values at other and equal shapes (thorough 4x3)
//@ bounds seeded structures up to 7x9 times 9x6 (thorough 12x17) with all values symbolic; larger shapes (spdense, spdenseT, spdense_int): a concrete, seeded structure of tens to hundreds of rows and columns with every value symbolic
//@ bounds structures that are almost special (identity with two columns exchanged, triangular, full but one entry, tridiagonal, arrow, equal rows, diagonal with a missing or an extra entry, ...: 18 families, 5 to 7 rows and columns), every value symbolic
//@ outside larger dimensions; rounding
