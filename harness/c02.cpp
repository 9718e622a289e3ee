// C02: sparse matrix-vector products
#include "lib.hpp"
static void dims(int&r,int&c,int&mx){ r=P(1); c=P(2); mx=P(3); }
H(spmv){ Lcg g(P(0)); int r,c,mx; dims(r,c,mx); auto a=genCsr<double>("a",r,c,mx,DUP,g); auto x=symVec("x",c); Ref R=a.ref(); auto ex=mul(R,x); SparseMatrix<> A=mk(a); Vector<> X=vec(x);
  Vector<> y=A.Mult(X); eqVec(y,ex,"returned A x");
  Vector<> y2(r); for(int i=0;i<r;i++) y2[i]=SR("junk"); A.Mult(X,y2); eqVec(y2,ex,"A x into a used vector");
  std::vector<double> buf(r+2,0.0); double b0=SR("g0"),b1=SR("g1"); for(auto&b:buf) b=SR("junk2"); buf[0]=b0; buf[r+1]=b1; VectorView<> w(buf.data()+1,r); A.Mult(X,w); eqVec(w,ex,"A x into a view"); CHECKEQ(buf[0],b0,"before the view"); CHECKEQ(buf[r+1],b1,"after the view");
  const Operator&O=A; Vector<> z; O.Mult(X,z); eqVec(z,ex,"A x through the operator interface"); Vector<> z2=O.Mult(X); eqVec(z2,ex,"A x returned through the operator interface");
  Vector<> s=A.operator*<double>(X); eqVec(s,ex,"A*x"); Vector<> big(r+3); for(int i=0;i<r+3;i++) big[i]=SR("junk3"); O.Mult(X,big); eqVec(big,ex,"A x into a vector of another size");
  sameCsr(A,a,"matrix unchanged"); eqVec(X,x,"input unchanged"); for(int i=0;i<r;i++) __sym_log_d("y",y[i]); COVER("end"); }
H(spmvT){ Lcg g(P(0)); int r,c,mx; dims(r,c,mx); auto a=genCsr<double>("a",r,c,mx,DUP,g); auto x=symVec("x",r); Ref R=a.ref().t(); auto ex=mul(R,x); SparseMatrix<> A=mk(a); Vector<> X=vec(x);
  Vector<> y=A.MultAT(X); eqVec(y,ex,"returned A^T x");
  Vector<> y2(c); for(int i=0;i<c;i++) y2[i]=SR("junk"); A.MultAT(X,y2); eqVec(y2,ex,"A^T x into a used vector");
  std::vector<double> buf(c+2,0.0); double b0=SR("g0"),b1=SR("g1"); for(auto&b:buf) b=SR("junk2"); buf[0]=b0; buf[c+1]=b1; VectorView<> w(buf.data()+1,c); A.MultAT(X,w); eqVec(w,ex,"A^T x into a view"); CHECKEQ(buf[0],b0,"before the view"); CHECKEQ(buf[c+1],b1,"after the view");
  const Operator&O=A; Vector<> z; O.MultAT(X,z); eqVec(z,ex,"A^T x through the operator interface"); Vector<> z2=O.MultAT(X); eqVec(z2,ex,"A^T x returned through the operator interface");
  Vector<> big(c+3); for(int i=0;i<c+3;i++) big[i]=SR("junk3"); O.MultAT(X,big); eqVec(big,ex,"A^T x into a vector of another size");
  sameCsr(A,a,"matrix unchanged"); eqVec(X,x,"input unchanged"); for(int i=0;i<c;i++) __sym_log_d("y",y[i]); COVER("end"); }
// other element types: int matrix with int and double vectors, double matrix with int vector
H(spmv_types){ Lcg g(P(0)); int r,c,mx; dims(r,c,mx); auto a=genCsr<int>("a",r,c,mx,DUP,g); SparseMatrix<int> A=mk(a); Ref R=a.ref();
  auto xi=symVec<int>("xi",c); Vector<int> XI=vec(xi); Vector<int> yi=A.Mult(XI); eqVec(yi,mul(R,dvec(xi)),"int A x");
  auto xd=symVec("xd",c); Vector<> XD=vec(xd); Vector<> yd(r); for(int i=0;i<r;i++) yd[i]=SR("j"); A.Mult(XD,yd); eqVec(yd,mul(R,xd),"int A times double x");
  auto ti=symVec<int>("ti",r); Vector<int> TI=vec(ti); Vector<int> zi=A.MultAT(TI); eqVec(zi,mul(R.t(),dvec(ti)),"int A^T x");
  auto td=symVec("td",r); Vector<> TD=vec(td); Vector<> zd(c); for(int i=0;i<c;i++) zd[i]=SR("j"); A.MultAT(TD,zd); eqVec(zd,mul(R.t(),td),"int A^T times double x");
  const Operator&O=A; eqVec(O.Mult(XD),mul(R,xd),"int A through the operator interface"); eqVec(O.MultAT(TD),mul(R.t(),td),"int A^T through the operator interface");
  auto b=genCsr<double>("b",r,c,mx,DUP,g); SparseMatrix<> B=mk(b); Ref RB=b.ref(); Vector<> w(r); for(int i=0;i<r;i++) w[i]=SR("j"); B.Mult(XI,VectorView<>(w)); eqVec(w,mul(RB,dvec(xi)),"double A times int x"); Vector<> wt(c); for(int i=0;i<c;i++) wt[i]=SR("j"); B.MultAT(TI,VectorView<>(wt)); eqVec(wt,mul(RB.t(),dvec(ti)),"double A^T times int x");
  COVER("end"); }
//@ run spmv 0 0..3 0..3 2 t=40
//@ run spmvT 0 0..3 0..3 2 t=40
//@ run spmv_types 0 2 2 1 t=40
//@ run spmv_types S0..3 3,5 4 3 t=40
//@ run spmv S0..5 1,6,17 5,13 4 t=20
//@ run spmvT S0..5 1,6,17 5,13 4 t=20
// structures that are almost special (see patRows)
//@ run spmv 1000000..1000017 5,7 6 4 t=20
//@ run spmvT 1000000..1000017 5,7 6 4 t=20
//@ run spmv 1000000..1000017 6 6 4 t=20
//@ run spmv_types 1000000..1000017 5 5 4 t=20
// large shapes: concrete structure, symbolic values
//@ run spmv 4 32,64 16,64 16 t=60
//@ run spmvT 4 16,64 32,64 16 t=60
//@ run spmv_types 3 32 64 16 t=60
//@ run spmv S1..2 20,70,130 17,130 30 t=60
//@ run spmvT S1..2 20,70,130 17,130 30 t=60
//@ run spmv 3 300 270 30 t=60
//@ run spmvT 3 270 300 30 t=60
//@ run spmv_types 1..2 40 50 30 t=60
//@ thorough spmv 0 3 3 3 t=300
//@ thorough spmvT 0 3 3 3 t=300
//@ thorough spmv 0 4 4 2 t=600
//@ thorough spmvT 0 4 4 2 t=600
//@ thorough spmv S10..60 9,33 20,40 7 t=60
//@ thorough spmvT S10..60 9,33 20,40 7 t=60
//@ bounds symbolic structure (row lengths, columns incl. duplicates and unsorted, all values): up to 3x3 with 2 entries per row (thorough 4x4x2, 3x3x3)
//@ bounds seeded concrete structures with all values symbolic: up to 17x13 (thorough 33x40); larger shapes (spmv, spmvT, spmv_types): a concrete, seeded structure of tens to hundreds of rows and columns with every value symbolic
//@ bounds structures that are almost special (identity with two columns exchanged, triangular, full but one entry, tridiagonal, arrow, equal rows, diagonal with a missing or an extra entry, ...: 18 families, 5 to 7 rows and columns), every value symbolic
//@ outside element types other than int and double; larger dimensions; floating-point rounding
