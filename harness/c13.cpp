// C13: dense products
#include "lib.hpp"
H(gemv){ int r=P(1),c=P(2); Ref R=symRef("a",r,c); DenseMatrix A=mk(R); auto xv=symVec("x",c); auto yv=symVec("y",r); Vector<double> x=vec(xv),y=vec(yv); auto ex=mul(R,xv),ey=mul(R.t(),yv);
  eqVec(A.Mult(x),ex,"A x"); eqVec(A.MultAT(y),ey,"A^T y"); { Vector<double> o(r); for(auto&z:o) z=SR("junk"); A.Mult(x,o); eqVec(o,ex,"A x into a used vector"); Vector<double> p(c); for(auto&z:p) z=SR("junk"); A.MultAT(y,p); eqVec(p,ey,"A^T y into a used vector"); }
  { Vector<double> o(r+3); for(int i=0;i<r+3;i++) o[i]=SR("junk"); auto keep=dvec(o); VectorView<double> v(o.begin()+1,r); A.Mult(x,v); for(int i=0;i<r;i++) CHECKEQ(o[i+1],ex[i],"A x into a view"); CHECKEQ(o[0],keep[0],"outside the view"); CHECKEQ(o[r+1],keep[r+1],"outside the view"); Vector<double> p(c+2); for(auto&z:p) z=SR("junk"); VectorView<double> w(p.begin()+1,c); A.MultAT(y,w); for(int i=0;i<c;i++) CHECKEQ(p[i+1],ey[i],"A^T y into a view"); }
  const Operator&O=A; eqVec(O.Mult(x),ex,"A x through the operator interface"); eqVec(O.MultAT(y),ey,"A^T y through the operator interface"); { Vector<double> u(c+1); O.Mult(x,u); eqVec(u,ex,"A x resized"); Vector<double> w(r+2); O.MultAT(y,w); eqVec(w,ey,"A^T y resized"); double ip=0; for(int i=0;i<r;i++) ip+=yv[i]*ex[i]; CHECKEQ(O.InnerProduct(x,y),ip,"inner product"); }
  { auto xi=symVec<int>("xi",c); auto yi=symVec<int>("yi",r); Vector<int> X=vec(xi),Y=vec(yi); auto e1=mul(R,dvec(xi)),e2=mul(R.t(),dvec(yi)); eqVec(A.Mult(static_cast<const VectorView<int>&>(X)),e1,"A x, int vector"); eqVec(A.MultAT(static_cast<const VectorView<int>&>(Y)),e2,"A^T y, int vector"); Vector<double> o(r); for(auto&z:o) z=SR("junk"); VectorView<double> v(o); A.Mult(static_cast<const VectorView<int>&>(X),v); eqVec(o,e1,"A x, int vector, used output"); Vector<double> p(c); for(auto&z:p) z=SR("junk"); VectorView<double> w(p); A.MultAT(static_cast<const VectorView<int>&>(Y),w); eqVec(p,e2,"A^T y, int vector, used output"); eqVec(X,xi,"int vector unchanged"); }
  eqRef(refOf(A),R,"matrix unchanged"); eqVec(x,xv,"vector unchanged"); eqVec(y,yv,"vector unchanged"); for(int i=0;i<r;i++) __sym_log_d("y",ex[i]); COVER("end"); }
H(gemm){ int m=P(1),n=P(2),k=P(3),form=P(4); int ar=form&1?k:m,ac=form&1?m:k,br=form&2?n:k,bc=form&2?k:n; Ref RA=symRef("a",ar,ac),RB=symRef("b",br,bc); DenseMatrix A=mk(RA),B=mk(RB); Ref E=mul(form&1?RA.t():RA,form&2?RB.t():RB);
  DenseMatrix o= form==0?A.Mult(B):form==1?A.MultAT(B):form==2?A.MultBT(B):A.MultABT(B); eqRef(refOf(o),E,"product"); auto into=[&](DenseMatrix&u){ if(form==0) A.Mult(B,u); else if(form==1) A.MultAT(B,u); else if(form==2) A.MultBT(B,u); else A.MultABT(B,u); };
  { DenseMatrix u=junkDense(m,n); into(u); eqRef(refOf(u),E,"product into a used matrix of the same shape"); } { DenseMatrix u=junkDense(n+1,m+2); into(u); eqRef(refOf(u),E,"product into a used larger matrix"); } { DenseMatrix u; into(u); eqRef(refOf(u),E,"product into an empty matrix"); into(u); eqRef(refOf(u),E,"product repeated"); }
  eqRef(refOf(A),RA,"left operand unchanged"); eqRef(refOf(B),RB,"right operand unchanged"); if(m&&n) __sym_log_d("o",o(m-1,n-1)); COVER("end"); }
H(self){ int n=P(1); Ref R=symRef("a",n,n); DenseMatrix A=mk(R); eqRef(refOf(A.Mult(A)),mul(R,R),"A A"); eqRef(refOf(A.MultAT(A)),mul(R.t(),R),"A^T A"); eqRef(refOf(A.MultBT(A)),mul(R,R.t()),"A A^T"); eqRef(refOf(A.MultABT(A)),mul(R.t(),R.t()),"A^T A^T"); eqRef(refOf(A),R,"unchanged"); COVER("end"); }
//@ run gemv 0 0..3 0..3 t=60
//@ run gemv 0 1,7 8 t=60
//@ run gemv 0 8 1,7 t=60
//@ run gemm 0 0..2 0..2 0..2 0..3 t=60
//@ run gemm 0 3,5 2,4 3,6 0..3 t=60
//@ run self 0 0..3 t=60
// large shapes: concrete structure, symbolic values
//@ run gemv 0 16,32,64 16,32 t=60
//@ run gemv 0 33,70 9,35 t=60
//@ run gemv 0 3 130 t=60
//@ run gemv 0 130 3 t=60
//@ run gemm 0 18 20 19 0..3 t=60
//@ run gemm 0 3 4 35,70 0..3 t=60
//@ run gemm 0 35 3 4 0..3 t=60
//@ run gemm 0 3 35 4 0..3 t=60
//@ run self 0 17 t=60
//@ thorough gemm 0 1..7 1..7 1..7 0..3 t=200
//@ thorough gemv 0 1..12 1..12 t=100
//@ bounds every shape with dimensions 0..3 (plus shapes up to 8) for matrix-vector products and 0..2 (plus shapes up to 5x4x6) for matrix-matrix products, thorough up to 7x7x7; all entries symbolic; larger shapes (gemm, gemv, self): a concrete, seeded structure of tens to hundreds of rows and columns with every value symbolic
//@ assume dgemm is replaced by its defining sum, with the reference implementation's argument checks
//@ outside output operand identical to an input operand; larger dimensions
