// C05: transposition and densification
#include "lib.hpp"
H(transp){ Lcg g(P(0)); int r=P(1),c=P(2); auto a=genCsr<double>("a",r,c,P(3),DUP,g); SparseMatrix<> A=mk(a); SparseMatrix<> T=A.Transpose(); wellFormed(T,c,r,"transpose"); eqRef(refOf(T),a.ref().t(),"transpose entries"); CHECK(T.nnz()==A.nnz(),"transpose keeps every stored entry"); for(int i=0;i<c;i++) for(int j=T.GetIndptr()[i]+1;j<T.GetIndptr()[i+1];j++) CHECK(T.GetIndices()[j-1]<=T.GetIndices()[j],"transposed rows are ordered"); SparseMatrix<> TT=T.Transpose(); wellFormed(TT,r,c,"double transpose"); eqRef(refOf(TT),a.ref(),"double transpose"); sameCsr(A,a,"source unchanged"); SparseMatrix<double> U=A.Transpose<double>(); eqRef(refOf(U),a.ref().t(),"typed transpose"); __sym_log_i("nnz",T.nnz()); COVER("end"); }
H(transp_types){ Lcg g(P(0)); int r=P(1),c=P(2); auto a=genCsr<int>("a",r,c,P(3),DUP,g); SparseMatrix<int> A=mk(a); SparseMatrix<double> D=A.Transpose<double>(); wellFormed(D,c,r,"int transposed to double"); eqRef(refOf(D),a.ref().t(),"int transposed to double"); SparseMatrix<int> T=A.Transpose(); eqRef(refOf(T),a.ref().t(),"int transpose"); auto d=genCsr<int>("d",r,c,P(3),DISTINCT,g); SparseMatrix<int> E=mk(d); eqRef(refOf(E.ToDense()),d.ref(),"int dense"); eqRef(refOf(E.TransposeDense()),d.ref().t(),"int dense transpose"); COVER("end"); }
H(dense){ Lcg g(P(0)); int r=P(1),c=P(2); auto a=genCsr<double>("a",r,c,P(3),DISTINCT,g); SparseMatrix<> A=mk(a); eqRef(refOf(A.ToDense()),a.ref(),"dense"); eqRef(refOf(A.TransposeDense()),a.ref().t(),"dense transpose"); DenseMatrix u=junkDense(P(4),P(5)); A.ToDense(u); eqRef(refOf(u),a.ref(),"dense into a used matrix"); DenseMatrix v=junkDense(P(4),P(5)); A.TransposeDense(v); eqRef(refOf(v),a.ref().t(),"dense transpose into a used matrix"); DenseMatrix w=junkDense(r,c); A.ToDense(w); eqRef(refOf(w),a.ref(),"dense into a used matrix of the same shape"); DenseMatrix x=junkDense(c,r); A.TransposeDense(x); eqRef(refOf(x),a.ref().t(),"dense transpose into a used matrix of the same shape"); sameCsr(A,a,"source unchanged"); for(int i=0;i<r&&c;i++) __sym_log_d("d",u(i,0)); COVER("end"); }
//@ run transp 0 0..2 0..3 2 t=60
//@ run transp 0 3 0..2 2 t=60
//@ run transp 0 3 3 1 t=60
//@ run transp_types 0 2 2 1 t=60
//@ run dense 0 0..3 0..3 2 2 3 t=60
//@ run transp S0..7 1,9,14 6,11 4 t=30
//@ run dense S0..3 1,9,14 6,11 4 5 5 t=30
//@ run transp_types S0..3 7 5 3 t=30
// structures that are almost special (see patRows)
//@ run transp 1000000..1000017 4..6 5 4 t=30
//@ run dense 1000000..1000017 5 5,6 4 5 5 t=30
// large shapes: concrete structure, symbolic values
//@ run transp 4 64,128 32,64 16 t=60
//@ run dense 3 16,32 32 16 5 5 t=60
//@ run transp 1..2 70,130 40,140 20 t=60
//@ run transp 3 300 270 9 t=60
//@ run dense 1..2 40,70 35,70 20 5 5 t=60
//@ run transp_types 1..2 20 33 12 t=60
//@ thorough transp 0 3 3 2,3 t=600
//@ thorough transp 0 4 3 2 t=600
//@ thorough dense 0 4 4 2 5 3 t=600
//@ thorough transp S10..40 25 31 6 t=60
//@ bounds fully symbolic structures up to 2x3 and 3x2 with 2 entries per row and 3x3 with 1 (thorough 3x3 with 3, 4x3 with 2); dense conversions for matrices without duplicate stored entries
//@ bounds seeded structures up to 14x11 (thorough 25x31), all values symbolic; larger shapes (dense, transp, transp_types): a concrete, seeded structure of tens to hundreds of rows and columns with every value symbolic
//@ bounds structures that are almost special (identity with two columns exchanged, triangular, full but one entry, tridiagonal, arrow, equal rows, diagonal with a missing or an extra entry, ...: 18 families, 5 to 7 rows and columns), every value symbolic
//@ outside dense conversion of a matrix that stores one position twice (documented behaviour is last-wins); larger dimensions
