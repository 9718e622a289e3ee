// C15: dense slices, blocks, stacks
#include "lib.hpp"
static Ref block(const Ref&R,int i0,int j0,int i1,int j1){ Ref o(i1-i0,j1-j0); for(int i=i0;i<i1;i++) for(int j=j0;j<j1;j++) o.at(i-i0,j-j0)=R.at(i,j); return o; }
static Ref put(const Ref&R,int i0,int j0,const Ref&B){ Ref o(R); for(int i=0;i<B.r;i++) for(int j=0;j<B.c;j++) o.at(i0+i,j0+j)=B.at(i,j); return o; }
H(lines){ Lcg g(P(0)*31+5); int r=P(1),c=P(2); Ref R=symRef("a",r,c); DenseMatrix A=mk(R); const DenseMatrix&K=A; int i=PK("i",0,r-1,g),j=PK("j",0,c-1,g);
  { Vector<double> v=A.GetRow(i); CHECK(v.size()==c,"row length"); for(int q=0;q<c;q++) CHECKEQ(v[q],R.at(i,q),"row"); Vector<double> w=K.GetCol<double>(j); CHECK(w.size()==r,"column length"); for(int q=0;q<r;q++) CHECKEQ(w[q],R.at(q,j),"column"); Vector<double> x(c); for(auto&z:x) z=SR("junk"); A.GetRow(i,x); for(int q=0;q<c;q++) CHECKEQ(x[q],R.at(i,q),"row into a used vector"); Vector<double> y(r); for(auto&z:y) z=SR("junk"); K.GetCol(j,static_cast<VectorView<double>&>(y)); for(int q=0;q<r;q++) CHECKEQ(y[q],R.at(q,j),"column into a used vector"); w[0]=w[0]+1.0; v[0]=5.0; eqRef(refOf(A),R,"reading does not alias"); }
  { DenseMatrix B(A); auto v=symVec("v",c); Vector<double> V=vec(v); B.SetRow(i,static_cast<const VectorView<double>&>(V)); Ref E(R); for(int q=0;q<c;q++) E.at(i,q)=v[q]; eqRef(refOf(B),E,"row set"); eqVec(V,v,"source unchanged"); }
  { DenseMatrix B(A); auto v=symVec("w",r); Vector<double> V=vec(v); B.SetCol(j,static_cast<const VectorView<double>&>(V)); Ref E(R); for(int q=0;q<r;q++) E.at(q,j)=v[q]; eqRef(refOf(B),E,"column set"); }
  { DenseMatrix B(A); VectorView<double> w=B.GetColView(j); CHECK(w.size()==r,"view length"); for(int q=0;q<r;q++) CHECK(&w[q]==&B(q,j),"the view aliases the column"); int p=PK("p",0,r-1,g); double x=SR("x"); w[p]=x; Ref E(R); E.at(p,j)=x; eqRef(refOf(B),E,"write through the view"); B(p,j)=7.0; CHECKEQ(w[p],7.0,"write through the matrix"); const DenseMatrix&C=B; const auto&cw=C.GetColView(j); CHECK(cw.size()==r,"const view length"); for(int q=0;q<r;q++) CHECK(&cw[q]==&C(q,j),"the const view aliases the column"); }
  COVER("end"); }
H(ranges){ Lcg g(P(0)*31+7); int r=P(1),c=P(2); Ref R=symRef("a",r,c); DenseMatrix A=mk(R); int i0=PK("i0",0,P(0)?r/2:r,g),i1=PK("i1",P(0)?i0:0,r,g),j0=PK("j0",0,P(0)?c/2:c,g),j1=PK("j1",P(0)?j0:0,c,g); ASSUME(i0<=i1&&j0<=j1);
  eqRef(refOf(A.GetRow(i0,i1)),block(R,i0,0,i1,c),"rows in a range"); eqRef(refOf(A.GetCol(j0,j1)),block(R,0,j0,r,j1),"columns in a range"); eqRef(refOf(A.GetSubMatrix(i0,j0,i1,j1)),block(R,i0,j0,i1,j1),"block"); { DenseMatrix u=junkDense(2,5); A.GetRow(i0,i1,u); eqRef(refOf(u),block(R,i0,0,i1,c),"rows into a used matrix"); DenseMatrix w=junkDense(4,1); A.GetCol(j0,j1,w); eqRef(refOf(w),block(R,0,j0,r,j1),"columns into a used matrix"); DenseMatrix x=junkDense(3,3); A.GetSubMatrix(i0,j0,i1,j1,x); eqRef(refOf(x),block(R,i0,j0,i1,j1),"block into a used matrix"); }
  { DenseMatrix B(A); Ref S=symRef("s",i1-i0,c); B.SetRow(i0,mk(S)); eqRef(refOf(B),put(R,i0,0,S),"rows set"); } { DenseMatrix B(A); Ref S=symRef("t",r,j1-j0); B.SetCol(j0,mk(S)); eqRef(refOf(B),put(R,0,j0,S),"columns set"); }
  { Ref S=symRef("u",i1-i0,j1-j0); DenseMatrix D=mk(S); DenseMatrix B(A); B.SetSubMatrix(i0,j0,D); eqRef(refOf(B),put(R,i0,j0,S),"block set"); DenseMatrix C(A); C.SetSubMatrix(i0,j0,i1,j1,D); eqRef(refOf(C),put(R,i0,j0,S),"block set in a range"); DenseMatrix E=mk(S.t()); DenseMatrix F(A); F.SetSubMatrixTranspose(i0,j0,E); eqRef(refOf(F),put(R,i0,j0,S),"transposed block set"); DenseMatrix G(A); G.SetSubMatrixTranspose(i0,j0,i1,j1,E); eqRef(refOf(G),put(R,i0,j0,S),"transposed block set in a range"); eqRef(refOf(D),S,"source unchanged"); 
    if(i1>i0&&j1>j0){ DenseMatrix Hh(A); Hh.SetSubMatrix(i0,j0,i1-1,j1-1,D); eqRef(refOf(Hh),put(R,i0,j0,block(S,0,0,i1-i0-1,j1-j0-1)),"leading part of a larger block set in a range"); DenseMatrix J(A); J.SetSubMatrixTranspose(i0,j0,i1-1,j1-1,E); eqRef(refOf(J),put(R,i0,j0,block(S,0,0,i1-i0-1,j1-j0-1)),"leading part of a larger transposed block set in a range"); } }
  eqRef(refOf(A),R,"unchanged"); COVER("end"); }
H(lists){ Lcg g(P(0)*31+9); int r=P(1),c=P(2),m=P(3),n=P(4); Ref R=symRef("a",r,c); DenseMatrix A=mk(R); std::vector<int> ri,ci; for(int q=0;q<m;q++) ri.push_back(P(0)?g.next(r):SI("r",0,r-1)); for(int q=0;q<n;q++) ci.push_back(P(0)?g.next(c):SI("c",0,c-1)); Ref E(m,n),ER(m,c); for(int i=0;i<m;i++){ for(int j=0;j<n;j++) E.at(i,j)=R.at(ri[i],ci[j]); for(int j=0;j<c;j++) ER.at(i,j)=R.at(ri[i],j); }
  eqRef(refOf(A.GetSubMatrix(ri,ci)),E,"listed submatrix"); { DenseMatrix u=junkDense(3,1); A.GetSubMatrix(ri,ci,u); eqRef(refOf(u),E,"listed submatrix into a used matrix"); DenseMatrix w=junkDense(m,n); A.GetSubMatrix(ri,ci,w); eqRef(refOf(w),E,"listed submatrix into a used matrix of the same shape"); } eqRef(refOf(A.GetRow(ri)),ER,"listed rows"); { DenseMatrix u=junkDense(m,c); A.GetRow(ri,u); eqRef(refOf(u),ER,"listed rows into a used matrix"); }
  { DenseMatrix B(A); Ref S=symRef("s",m,n); DenseMatrix D=mk(S); auto ci2=ci; B.AddSubMatrix(ri,ci2,D); Ref X(R); for(int j=0;j<n;j++) for(int i=0;i<m;i++) X.at(ri[i],ci[j])+=S.at(i,j); eqRef(refOf(B),X,"block accumulated"); eqRef(refOf(D),S,"source unchanged"); sameVec(ci2,ci,"list unchanged"); } eqRef(refOf(A),R,"unchanged"); COVER("end"); }
H(stack){ Lcg g(P(0)*31+11); int r=P(1),k=P(2); std::vector<DenseMatrix> ms; int tot=0; std::vector<Ref> rs; for(int q=0;q<k;q++){ int c=P(0)?g.next(20):CI("c",0,2); rs.push_back(symRef("a",r,c)); ms.push_back(mk(rs.back())); tot+=c; } Ref E(r,tot); int o=0; for(auto&x:rs){ for(int i=0;i<r;i++) for(int j=0;j<x.c;j++) E.at(i,o+j)=x.at(i,j); o+=x.c; } eqRef(refOf(HStack(ms)),E,"stacked"); DenseMatrix u=junkDense(2,2); HStack(ms,u); eqRef(refOf(u),E,"stacked into a used matrix"); for(int q=0;q<k;q++) eqRef(refOf(ms[q]),rs[q],"sources unchanged"); COVER("end"); }
//@ run lines 0 1..3 1..3 t=60
//@ run ranges 0 0..3 0..3 t=60
//@ run lists 0 1..3 1..3 0..2 0..2 t=60
//@ run stack 0 0..3 1..3 t=60
// large shapes: concrete structure, symbolic values
//@ run lines 5 16,32 16,32 t=60
//@ run ranges 7..8 32 32,64 t=60
//@ run lists 5 32 32 16 8,32 t=60
//@ run stack 5 8,32 4,16 t=60
//@ run lines 1..4 17,40 20,35 t=60
//@ run ranges 1..6 17,40 20,35 t=60
//@ run lists 1..4 17,40 20,35 12,30 9,25 t=60
//@ run stack 1..4 5,33 3,9 t=60
//@ thorough ranges 0 4,5 3,4 t=400
//@ thorough lists 0 3,4 3,4 3 2,3 t=400
//@ thorough lines 0 4,6 5 t=200
//@ bounds every shape with dimensions up to 3 (thorough 6x5), every range and every index of it, index lists of up to 2x2 (thorough 3x3) with repeats, stacks of up to 3 matrices with 0..2 columns; all entries symbolic; larger shapes (lines, lists, ranges, stack): a concrete, seeded structure of tens to hundreds of rows and columns with every value symbolic
//@ outside vertical stacking (declared but not provided); setting from a block that aliases the target
