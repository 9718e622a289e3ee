// C33: invalid requests are refused by an assertion or an exception, before anything outside the objects is touched
#include "lib.hpp"
#include "solvers.hpp"
typedef VectorView<double> VV;
#define OPS(n) int op=CI("op",0,(n)-1),k__=0;
#define OP if(op==k__++)
struct Buf { std::vector<double> h; int n; explicit Buf(int n_):h(n_+2,0.0),n(n_){ for(int i=0;i<n;i++) h[i+1]=SR("x"); } VV v(){ return VV(h.data()+1,n); } };
static int other(const char*nm,int n,int hi){ int m=CI(nm,0,hi); ASSUME(m!=n); return m; }
static int badIndex(const char*nm,int n){ int i=SI(nm,-3,n+3); ASSUME(i<0||i>=n); return i; }
static int anyIndex(const char*nm,int n){ return SI(nm,0,n-1); }
static Csr<double> csr(int r,int c){ Lcg g(3); Csr<double> a; a.r=r; a.c=c; a.ptr.push_back(0); for(int i=0;i<r;i++){ for(int j=0;j<c;j++) if((i+j)%2==0||c==1){ a.idx.push_back(j); a.dat.push_back(SR("a")); } a.ptr.push_back(a.idx.size()); } return a; }
static void fin(){ __sym_leak_ok(); COVER("end"); }
H(vec_sizes){ int n=CI("n",0,P(1)),m=other("m",n,P(1)); Buf a(n),b(m),c(n); VV x=a.v(),y=b.v(),z=c.v(); const VV cy=b.v(); OPS(24)
  OP REFUSED(x+=y,"+= of different lengths"); OP REFUSED(x-=y,"-= of different lengths"); OP REFUSED(x*=y,"entrywise *= of different lengths"); OP REFUSED(x/=y,"entrywise /= of different lengths");
  OP REFUSED(x.Add(2.0,y),"Add of different lengths"); OP REFUSED(x.Sub(2.0,y),"Sub of different lengths"); OP REFUSED(x.Set(2.0,y),"Set of different lengths"); OP REFUSED(x.Set(y),"Set of different lengths"); OP REFUSED(x.Add(y),"Add of different lengths"); OP REFUSED(x.Sub(y),"Sub of different lengths");
  OP REFUSED(x=y,"view assigned from a view of another length"); OP REFUSED(x=cy,"view assigned from a view of another length"); OP REFUSED(x=b.v(),"view assigned from a view of another length");
  OP REFUSED(x.Mult(y),"inner product of different lengths"); OP REFUSED(InnerProduct(x,y),"inner product of different lengths"); OP REFUSED((void)(x*y),"inner product of different lengths");
  OP REFUSED(Vector<double>(x)+Vector<double>(y),"sum of different lengths"); OP REFUSED(Vector<double>(x)-Vector<double>(y),"difference of different lengths");
  OP REFUSED(Add(2.0,x,3.0,y,1.0,z),"Add of different lengths"); OP REFUSED(Add(2.0,x,3.0,z,1.0,y),"Add into another length"); OP REFUSED(Add(x,y,z),"Add of different lengths"); OP REFUSED(Sub(x,z,y),"Sub into another length"); OP REFUSED(Sub(y,x,z),"Sub of different lengths");
  OP { Vector<double> w(m); VV&wv=w; REFUSED(wv=x,"view of a vector assigned from another length"); } fin(); }
H(vec_index){ int n=CI("n",0,P(1)),i=badIndex("i",n); Buf a(n); VV x=a.v(); const VV cx=a.v(); Vector<double> w(x); Vector<int> wi(n,3); OPS(9)
  OP REFUSED(x[i]=1.0,"element outside a view"); OP REFUSED((void)(cx[i]+1.0),"element outside a view"); OP REFUSED(w[i]=1.0,"element outside a vector"); OP REFUSED((void)(static_cast<const Vector<double>&>(w)[i]+1.0),"element outside a vector"); OP REFUSED(wi[i]=2,"element outside a vector");
  OP REFUSED(x.GetSubVector({i}),"sub-vector outside a view"); OP { if(n){ REFUSED(x.GetSubVector({0,i}),"sub-vector outside a view"); } } OP { if(n){ Vector<double> o(1); REFUSED(w.GetSubVector({n-1,i,0},o),"sub-vector outside a vector"); } } OP { Vector<int> o(1); REFUSED(wi.GetSubVector({i},o),"sub-vector outside a vector"); } fin(); }
H(vec_misc){ int n=CI("n",1,P(1)),neg=-CI("neg",1,3); Buf a(n),b(n); VV x=a.v(),y=b.v(); Vector<double> w(x),e; double z=0.0; OPS(21)
  OP REFUSED(x/=z,"division by zero"); OP REFUSED(w/=z,"division by zero"); OP REFUSED(w/z,"division by zero"); OP { int at=anyIndex("at",n); y[at]=0.0; REFUSED(x/=y,"entrywise division by zero"); } OP { Vector<int> q(n,4); int zi=0; REFUSED(q/=zi,"division by zero"); }
  OP REFUSED(Vector<double> q(neg),"negative length"); OP REFUSED(Vector<double> q(neg,1.0),"negative length"); OP REFUSED(w.SetSize(neg),"negative length"); OP REFUSED(w.SetSize(neg,1.0),"negative length"); OP REFUSED(VV q(a.h.data(),neg),"negative length"); OP REFUSED(Vector<double> q(a.h.data(),neg),"negative length");
  OP REFUSED(VV q(nullptr,n),"view of nothing"); OP REFUSED(Vector<double> q(nullptr,n),"vector from nothing");
  OP REFUSED(Max(e),"maximum of nothing"); OP REFUSED(Min(e),"minimum of nothing"); OP REFUSED(AbsMax(e),"maximum of nothing"); OP REFUSED(AbsMin(e),"minimum of nothing"); OP { for(int i=0;i<n;i++) x[i]=0.0; REFUSED(Normalize(x),"normalising zero"); } OP { for(int i=0;i<n;i++) x[i]=0.0; REFUSED(x.Normalize(),"normalising zero"); } OP { Vector<int> q(n,4); REFUSED(q.Normalize(),"normalising integers"); } OP { VectorView<int> q; REFUSED(q.Normalize(),"normalising integers"); } fin(); }
H(blockvec){ int nb=CI("nb",0,P(1)); std::vector<int> off(1,0); for(int b=0;b<nb;b++) off.push_back(off.back()+CI("width",0,2)); int i=badIndex("i",nb); BlockVector<double> v(off); OPS(3) OP REFUSED(v.GetBlock(i),"block outside"); OP REFUSED((void)static_cast<const BlockVector<double>&>(v).GetBlock(i).size(),"block outside"); OP { Buf a(other("m",off.back(),5)); REFUSED(BlockVector<double> w(a.v(),off),"data of another length"); } fin(); }
H(dense_index){ int r=CI("r",0,P(1)),c=CI("c",0,P(1)); DenseMatrix A=junkDense(r,c); const DenseMatrix&K=A; int i,j; OPS(18) Buf col(r),row(c); VV cv=col.v(),rv=row.v(); const int outrow=badIndex("badrow",r),outcol=badIndex("badcol",c); 
  OP { i=SI("i",-2,r+1); j=SI("j",-2,c+1); ASSUME(i<0||i>=r||j<0||j>=c); REFUSED(A(i,j)=1.0,"element outside a matrix"); } OP { i=SI("i",-2,r+1); j=SI("j",-2,c+1); ASSUME(i<0||i>=r||j<0||j>=c); REFUSED((void)(K(i,j)+1.0),"element outside a matrix"); }
  OP REFUSED(A.GetColView(outcol),"column outside"); OP REFUSED((void)K.GetColView(outcol).size(),"column outside"); OP REFUSED(A.GetCol(outcol,cv),"column outside"); OP REFUSED(K.GetCol(outcol,cv),"column outside"); OP REFUSED(A.GetRow(outrow,rv),"row outside"); OP REFUSED(A.GetCol(outcol),"column outside"); OP REFUSED(A.GetRow(outrow),"row outside"); OP REFUSED(A.SetCol(outcol,cv),"column outside"); OP REFUSED(A.SetRow(outrow,rv),"row outside");
  OP { if(c){ REFUSED(A.GetRow(std::vector<int>{outrow}),"row outside"); } } OP { if(r&&c) REFUSED(A.GetRow(std::vector<int>{0,outrow}),"row outside"); }
  OP { if(r) REFUSED(A.GetSubMatrix(std::vector<int>{0},std::vector<int>{outcol}),"column outside"); } OP { if(c) REFUSED(A.GetSubMatrix(std::vector<int>{outrow},std::vector<int>{c-1}),"row outside"); } OP { if(r){ std::vector<int> cs{outcol}; REFUSED(A.AddSubMatrix({0},cs,junkDense(1,1)),"column outside"); } } OP { if(c){ std::vector<int> cs{0}; REFUSED(A.AddSubMatrix({outrow},cs,junkDense(1,1)),"row outside"); } }
  OP { if(r) REFUSED(A.GetSubMatrix(std::vector<int>{0,outrow},std::vector<int>{outcol,0}),"selection outside"); } fin(); }
H(dense_range){ int r=CI("r",0,P(1)),c=CI("c",0,P(1)); DenseMatrix A=junkDense(r,c),o; OPS(14) ASSUME(op!=8&&op!=9); int si=0,ei=0,sj=0,ej=0; bool badR=false,badC=false; int dr=0,dc=0; bool rows=op<8||op==10||op==12,cols=op<8||op==11||op==13;
  if(rows){ si=CI("si",-1,r+1); ei=CI("ei",-1,r+1); badR=si<0||ei>r||si>ei; dr=ei>si?ei-si:0; } if(cols){ sj=CI("sj",-1,c+1); ej=CI("ej",-1,c+1); badC=sj<0||ej>c||sj>ej; dc=ej>sj?ej-sj:0; } ASSUME(badR||badC); if(op>=6&&op<8) ASSUME(ei>=si&&ej>=sj); if(op==12) ASSUME(ei>=si); if(op==13) ASSUME(ej>=sj);
  OP REFUSED(A.GetSubMatrix(si,sj,ei,ej),"range outside"); OP REFUSED(A.GetSubMatrix(si,sj,ei,ej,o),"range outside"); OP { o=junkDense(1,1); REFUSED(A.SetSubMatrix(si,sj,ei,ej,o),"range outside"); } OP { o=junkDense(1,1); REFUSED(A.SetSubMatrixTranspose(si,sj,ei,ej,o),"range outside"); }
  OP REFUSED(A.SetSubMatrix(si,sj,ei,ej,junkDense(dr,dc)),"range outside"); OP REFUSED(A.SetSubMatrixTranspose(si,sj,ei,ej,junkDense(dc,dr)),"range outside"); OP REFUSED(A.SetSubMatrix(si,sj,junkDense(dr,dc)),"range outside"); OP REFUSED(A.SetSubMatrixTranspose(si,sj,junkDense(dc,dr)),"range outside");
  OP { } OP { } OP { REFUSED(A.GetRow(si,ei),"range of rows outside"); REFUSED(A.GetRow(si,ei,o),"range of rows outside"); } OP { REFUSED(A.GetCol(sj,ej),"range of columns outside"); REFUSED(A.GetCol(sj,ej,o),"range of columns outside"); } OP REFUSED(A.SetRow(si,junkDense(dr,c)),"rows outside"); OP REFUSED(A.SetCol(sj,junkDense(r,dc)),"columns outside"); fin(); }
H(dense_sizes){ int r=CI("r",0,P(1)),c=CI("c",0,P(1)); DenseMatrix A=junkDense(r,c); OPS(40) int nr=other("nr",r,P(1)+1),nc=other("nc",c,P(1)+1),k=CI("k",0,2); Buf in(c),out(r),bin(nc),bout(nr); VV iv=in.v(),ov=out.v(),biv=bin.v(),bov=bout.v(); DenseMatrix O;
  OP REFUSED(A.Mult(biv,ov),"product with a vector of another length"); OP REFUSED(A.Mult(iv,bov),"product into a vector of another length"); OP REFUSED(A.MultAT(bov,iv),"transposed product with a vector of another length"); OP REFUSED(A.MultAT(ov,biv),"transposed product into a vector of another length"); OP REFUSED(A.Mult(biv),"product with a vector of another length"); OP REFUSED(A.MultAT(bov),"transposed product with a vector of another length");
  OP REFUSED(A.Mult(junkDense(nc,k)),"product of mismatched matrices"); OP REFUSED(A.MultAT(junkDense(nr,k)),"product of mismatched matrices"); OP REFUSED(A.MultBT(junkDense(k,nc)),"product of mismatched matrices"); OP REFUSED(A.MultABT(junkDense(k,nr)),"product of mismatched matrices"); OP REFUSED(A.Mult(junkDense(nc,k),O),"product of mismatched matrices"); OP REFUSED(A.MultAT(junkDense(nr,k),O),"product of mismatched matrices"); OP REFUSED(A.MultBT(junkDense(k,nc),O),"product of mismatched matrices"); OP REFUSED(A.MultABT(junkDense(k,nr),O),"product of mismatched matrices");
  OP REFUSED(A+=junkDense(nr,c),"+= of mismatched matrices"); OP REFUSED(A+=junkDense(r,nc),"+= of mismatched matrices"); OP REFUSED(A-=junkDense(nr,c),"-= of mismatched matrices"); OP REFUSED(A-=junkDense(r,nc),"-= of mismatched matrices"); OP REFUSED(A+junkDense(nr,nc),"sum of mismatched matrices"); OP REFUSED(A-junkDense(nr,c),"difference of mismatched matrices"); OP REFUSED(A/=0.0,"division by zero"); OP REFUSED(A/0.0,"division by zero");
  OP { if(c) REFUSED(static_cast<const DenseMatrix&>(A).GetCol(0,bov),"column into a vector of another length"); } OP { if(c) REFUSED(A.GetCol(0,bov),"column into a vector of another length"); } OP { if(r) REFUSED(A.GetRow(0,biv),"row into a vector of another length"); } OP { if(c) REFUSED(A.SetCol(0,bov),"column from a vector of another length"); } OP { if(r) REFUSED(A.SetRow(0,biv),"row from a vector of another length"); }
  OP { if(r){ std::vector<int> rows(1,0); DenseMatrix o=junkDense(1,nc); REFUSED(A.GetRow(rows,o),"rows into a matrix of another size"); } } OP { if(r){ std::vector<int> rows(2,0); DenseMatrix o=junkDense(CI("one",0,1)?3:1,c); REFUSED(A.GetRow(rows,o),"rows into a matrix of another size"); } }
  OP { if(r&&c){ std::vector<int> rows(1,0),cols(2,0); REFUSED(A.AddSubMatrix(rows,cols,junkDense(1,CI("w",0,1)?1:3)),"block of another size"); REFUSED(A.AddSubMatrix(rows,cols,junkDense(2,2)),"block of another size"); } }
  OP { std::vector<double> d(r*c+1,1.0); REFUSED(DenseMatrix q(r,c,d),"data of another length"); if(r*c>0){ d.resize(r*c-1); REFUSED(DenseMatrix q(r,c,d),"data of another length"); } } OP REFUSED(DenseMatrix q(-1-k),"negative size"); OP REFUSED(DenseMatrix q(r,-1-k),"negative size"); OP REFUSED(DenseMatrix q(-1-k,-1),"negative size"); OP REFUSED(A.SetSize(-1-k),"negative size"); OP REFUSED(A.SetSize(r,-1-k),"negative size"); OP REFUSED(A.SetSize(-1-k,c,2.0),"negative size");
  OP { std::vector<DenseMatrix> s; s.push_back(A); s.push_back(junkDense(nr,k)); REFUSED(HStack(s),"stack of different heights"); REFUSED(HStack(s,O),"stack of different heights"); } OP { if(r*c==0){ REFUSED(A.Max(),"maximum of nothing"); REFUSED(A.Min(),"minimum of nothing"); } } OP { REFUSED(static_cast<const Operator&>(A).Mult(biv,ov),"product with a vector of another length"); REFUSED(static_cast<const Operator&>(A).MultAT(ov,biv),"transposed product into a vector of another length"); REFUSED(A.InnerProduct(biv,ov),"inner product with a vector of another length"); REFUSED(A.InnerProduct(iv,bov),"inner product with a vector of another length"); } fin(); }
H(dense_square){ int r=CI("r",0,P(1)),c=other("c",r,P(1)); DenseMatrix A=junkDense(r,c),B=junkDense(r,r),O; OPS(11)
  OP REFUSED(A.Invert(),"inverse of a rectangular matrix"); OP REFUSED(A.Invert(O),"inverse of a rectangular matrix"); OP REFUSED(A.GetDiag(),"diagonal of a rectangular matrix"); OP { std::vector<double> d(r<c?r:c); REFUSED(A.GetDiag(d),"diagonal of a rectangular matrix"); } OP { std::vector<double> d(c); REFUSED(B.GetDiag(d),"diagonal into another length"); }
  OP { if(r&&c){ std::vector<double> s(r,2.0); s[anyIndex("at",r)]=0.0; REFUSED(A.InverseScaleRows(s),"inverse scaling by zero"); } } OP { if(r&&c){ std::vector<double> s(c,2.0); s[anyIndex("at",c)]=0.0; REFUSED(A.InverseScaleCols(s),"inverse scaling by zero"); } }
  OP { if(r&&c){ Vector<double> s(r-1,2.0); REFUSED(A.ScaleRows(s),"too few scales"); } } OP { if(r&&c){ Vector<double> s(c-1,2.0); REFUSED(A.ScaleCols(s),"too few scales"); } } OP { if(r&&c){ Vector<double> s(r-1,2.0); REFUSED(A.InverseScaleRows(s),"too few scales"); } } OP { if(r&&c){ Vector<double> s(c-1,2.0); REFUSED(A.InverseScaleCols(s),"too few scales"); } } fin(); }
H(sparse_sizes){ int r=CI("r",0,P(1)),c=CI("c",0,P(1)); Csr<double> a=csr(r,c); SparseMatrix<double> A=mk(a); OPS(27) int nr=other("nr",r,P(1)+1),nc=other("nc",c,P(1)+1),k=CI("k",0,2); Buf in(c),out(r),bin(nc),bout(nr); VV iv=in.v(),ov=out.v(),biv=bin.v(),bov=bout.v(); DenseMatrix O; std::vector<int> mk_;
  OP REFUSED(A.Mult(biv,ov),"product with a vector of another length"); OP REFUSED(A.Mult(iv,bov),"product into a vector of another length"); OP REFUSED(A.MultAT(bov,iv),"transposed product with a vector of another length"); OP REFUSED(A.MultAT(ov,biv),"transposed product into a vector of another length"); OP REFUSED(A.Mult(biv),"product with a vector of another length"); OP REFUSED(A.MultAT(bov),"transposed product with a vector of another length"); OP REFUSED(A*biv,"product with a vector of another length");
  OP REFUSED(A.Mult(junkDense(nc,k)),"product with a matrix of another height"); OP REFUSED(A.MultAT(junkDense(nr,k)),"transposed product with a matrix of another height"); OP REFUSED(A.MultCT(junkDense(nc,k)),"product with a matrix of another height"); OP REFUSED(A.Mult(junkDense(nc,k),O),"product with a matrix of another height"); OP REFUSED(A.MultAT(junkDense(nr,k),O),"transposed product with a matrix of another height"); OP REFUSED(A.MultCT(junkDense(nc,k),O),"product with a matrix of another height");
  OP { SparseMatrix<double> B=mk(csr(nc,k)); REFUSED((A.Mult<double,double>(B)),"product of mismatched sparse matrices"); REFUSED((A.Mult<double,double>(B,mk_)),"product of mismatched sparse matrices"); }
  OP REFUSED(A/=0.0,"division by zero"); OP { int z=0; REFUSED(A/=z,"division by zero"); } OP REFUSED(A.ScaleRows(std::vector<double>(nr,2.0)),"scales of another length"); OP REFUSED(A.ScaleCols(std::vector<double>(nc,2.0)),"scales of another length"); OP REFUSED(A.InverseScaleRows(std::vector<double>(nr,2.0)),"scales of another length"); OP REFUSED(A.InverseScaleCols(std::vector<double>(nc,2.0)),"scales of another length"); OP REFUSED(A.ScaleRows(SparseMatrix<double>(std::vector<double>(nr,2.0))),"scales of another length"); OP REFUSED(A.InverseScaleCols(SparseMatrix<double>(std::vector<double>(nc,2.0))),"scales of another length");
  OP { std::vector<double> s(r,2.0); if(r){ s[anyIndex("at",r)]=0.0; REFUSED(A.InverseScaleRows(s),"inverse scaling by zero"); } } OP { if(r&&c==1){ REFUSED(A.InverseScaleCols(std::vector<double>(1,0.0)),"inverse scaling by zero"); } } OP { std::vector<int> p; for(int q=0;q<nc;q++) p.push_back(q); REFUSED(A.PermuteCols(p),"permutation of another length"); } OP { if(r&&c){ std::vector<int> p(c,0); for(int q=0;q<c;q++) p[q]=q; p[a.idx[0]]=badIndex("to",c); REFUSED(A.PermuteCols(p),"permutation outside the columns"); } }
  OP { REFUSED(static_cast<const Operator&>(A).Mult(biv,ov),"product with a vector of another length"); REFUSED(static_cast<const Operator&>(A).MultAT(ov,biv),"transposed product into a vector of another length"); REFUSED(A.InnerProduct(biv,ov),"inner product with a vector of another length"); REFUSED(A.InnerProduct(iv,bov),"inner product with a vector of another length"); } fin(); }
H(sparse_index){ int r=CI("r",0,P(1)),c=CI("c",0,P(1)); Csr<double> a=csr(r,c); SparseMatrix<double> A=mk(a); const SparseMatrix<double>&K=A; OPS(14) int i=badIndex("row",r),j=badIndex("col",c);
  OP REFUSED(A.GetIndices(i),"row outside"); OP REFUSED(A.GetIndicesView(i),"row outside"); OP REFUSED((void)K.GetIndicesView(i).size(),"row outside"); OP REFUSED(A.GetData(i),"row outside"); OP REFUSED(A.RowSize(i),"row outside"); OP REFUSED(A.EliminateRow(i),"row outside"); OP { if(c) REFUSED(A.EliminateCol(j),"column outside"); } OP { if(r==c) REFUSED(A.EliminateRowCol(i),"row and column outside"); else if(r&&c){ int x=SI("x",-2,4); ASSUME(x<0||x>=r||x>=c); REFUSED(A.EliminateRowCol(x),"row and column outside"); } }
  OP REFUSED(A.GetSubMatrix({i},{}),"row outside"); OP REFUSED(A.GetSubMatrix({},{j}),"column outside"); OP { if(r&&c) REFUSED(A.GetSubMatrix({0,i},{0}),"row outside"); } OP { if(r&&c) REFUSED(A.GetSubMatrix({r-1},{c-1,j}),"column outside"); } OP { if(c){ std::vector<int> m(CI("msize",0,c-1),-1); REFUSED(A.GetSubMatrix({},{},m),"marker too small"); } } OP { std::vector<int> m(c+1,-1); if(r) REFUSED(A.GetSubMatrix({0},{j},m),"column outside"); } fin(); }
H(sparse_marks){ int r=CI("r",1,P(1)),c=CI("c",1,P(1)); Csr<double> a=csr(r,c); SparseMatrix<double> A=mk(a),S=mk(csr(r,r)); for(double v:a.dat) ASSUME(v!=0.0); OPS(11) int nc=c>0?CI("short",0,c-1):0; std::vector<int> mk_(nc,1),full(c,1);
  OP REFUSED(A.EliminateCol(mk_),"marker too short"); OP { Vector<double> x(c,1.0),b(r,1.0); REFUSED(A.EliminateCol(mk_,x,b),"marker too short"); } OP { ASSUME(r!=c); std::vector<int> m(c>r?c:r,1); REFUSED(A.EliminateRowCol(m),"not square"); } OP { std::vector<int> m(r-1,1); REFUSED(S.EliminateRowCol(m),"marker too short"); } OP { Vector<double> x(a.idx[0],1.0),b(r,1.0); REFUSED(A.EliminateCol(full,x,b),"values too short"); }
  OP { ASSUME(r!=c); REFUSED(A.GetDiag(),"diagonal of a rectangular matrix"); } OP { ASSUME(r!=c); REFUSED(A.AddDiag(2.0),"diagonal of a rectangular matrix"); } OP { ASSUME(r!=c); REFUSED(A.AddDiag(std::vector<double>(r,2.0)),"diagonal of a rectangular matrix"); } OP { REFUSED(S.AddDiag(std::vector<double>(CI("n",0,r-1),2.0)),"diagonal of another length"); } OP { Vector<double> x(c,1.0); REFUSED(A.EliminateCol(full,x,Vector<double>(0)),"right-hand side too short"); } OP { ASSUME(r!=c); REFUSED(A.AddDiag(std::vector<double>(c,2.0)),"diagonal of a rectangular matrix"); } fin(); }
// every malformed triple of arrays is refused
H(sparse_ctor){ int r=CI("r",0,P(1)),c=CI("c",0,P(1)),np=CI("np",0,P(1)+2),ni=CI("ni",0,2),nd=CI("nd",0,2); std::vector<int> p,x; std::vector<double> d; for(int k=0;k<np;k++) p.push_back(SI("ptr",-1,3)); for(int k=0;k<ni;k++) x.push_back(SI("idx",-1,P(1)+1)); for(int k=0;k<nd;k++) d.push_back(SR("dat")); bool ok=np==r+1&&ni==nd; if(ok){ ok=p[0]==0&&p[r]==ni; for(int k=0;k<r;k++) ok=ok&&p[k]<=p[k+1]; for(int k=0;k<ni;k++) ok=ok&&x[k]>=0&&x[k]<c; } if(ok) ACCEPTED(SparseMatrix<double> A(p,x,d,r,c),"a well-formed matrix is accepted"); else REFUSED(SparseMatrix<double> A(p,x,d,r,c),"malformed arrays"); int n=-CI("neg",1,2); REFUSED(SparseMatrix<double> B(n),"negative size"); REFUSED(SparseMatrix<double> B(n,1),"negative size"); REFUSED(SparseMatrix<double> B(1,n),"negative size"); fin(); }
template<class M> static void asmSized(const char*m){ int r=CI("r",0,P(1)),c=CI("c",0,P(1)); M A(r,c); int i=SI("i",-2,r+1),j=SI("j",-2,c+1); ASSUME(i<0||i>=r||j<0||j>=c); OPS(4) std::vector<int> is(1,i),js(1,j); DenseMatrix one=junkDense(1,1); OP REFUSED(A.Add(i,j,1.5),m); OP REFUSED(A.AddSym(i,j,1.5),m); OP REFUSED(A.Add(is,js,one),m); OP { ASSUME(r!=c||i<0||i>=r); if(i<0||i>=r||i>=c) REFUSED(A.Add(is,one),m); } fin(); }
H(coo_sized){ asmSized<CooMatrix<double>>("entry outside the size"); }
H(lil_sized){ asmSized<LilMatrix<double>>("entry outside the size"); }
template<class M> static void asmOther(const char*m){ OPS(15) M A; int neg=-CI("neg",1,2),pos=CI("pos",0,1); std::vector<int> i1(1,0),i2(2,1); double nan=0.0; nan/=nan; A.Add(1,2,SR("v")); Buf x2(2),x3(3); int n=CI("n",0,4);
  OP REFUSED(A.Add(neg,pos,1.0),"negative index"); OP REFUSED(A.Add(pos,neg,1.0),"negative index"); OP REFUSED(A.AddSym(pos,neg,1.0),"negative index"); OP REFUSED(A.Add(pos,pos,nan),"not a number"); OP REFUSED(A.Add(i1,i2,junkDense(1,1)),m); OP REFUSED(A.Add(i1,i2,junkDense(2,2)),m); OP REFUSED(A.Add(i2,junkDense(2,1)),m); OP REFUSED(A.Add(i1,i1,junkDense(0,1)),m); OP REFUSED(M B(neg),"negative size"); OP REFUSED(M B(neg,1),"negative size"); OP REFUSED(A.SetSize(1,neg),"negative size");
  OP { ASSUME(n!=3); Buf b(n); REFUSED(A.Mult(b.v(),x2.v()),"product with a vector of another length"); } OP { ASSUME(n!=2); Buf b(n); REFUSED(A.Mult(x3.v(),b.v()),"product into a vector of another length"); } OP { ASSUME(n!=2); Buf b(n); REFUSED(A.MultAT(b.v(),x3.v()),"transposed product with a vector of another length"); } OP { ASSUME(n!=3); Buf b(n); REFUSED(A.MultAT(x2.v(),b.v()),"transposed product into a vector of another length"); } fin(); }
H(coo_other){ asmOther<CooMatrix<double>>("block of another size"); }
H(lil_other){ asmOther<LilMatrix<double>>("block of another size"); }
H(coo_lists){ OPS(17) CooMatrix<double> A; A.Add(1,2,SR("v")); std::vector<int> i1(1,0),i2(2,1); Buf b1(1),b3(3); std::vector<double> v1(1,1.0),v3(3,1.0); int n=CI("n",0,4);
  OP REFUSED(A.Add(i2,0,b1.v()),"lists of different lengths"); OP REFUSED(A.Add(0,i2,b3.v()),"lists of different lengths"); OP REFUSED(A.Add(i2,0,2.0,b3.v()),"lists of different lengths"); OP REFUSED(A.Add(0,i2,2.0,b1.v()),"lists of different lengths"); OP REFUSED(A.Add(i1,i2,v1),"lists of different lengths"); OP REFUSED(A.Add(i2,i1,v1),"lists of different lengths"); OP REFUSED(A.Add(i2,i2,v1),"lists of different lengths"); OP REFUSED(A.Add(i2,i2,v3),"lists of different lengths"); OP REFUSED(A.Add(i1,i2,2.0,v1),"lists of different lengths"); OP REFUSED(A.Add(i2,i2,2.0,v3),"lists of different lengths"); OP REFUSED(A.Add(i1,i2,2.0,junkDense(1,1)),"block of another size"); OP REFUSED(A.Add(i2,2.0,junkDense(1,2)),"block of another size"); OP REFUSED(A.Reserve(-1-n),"negative size");
  OP { ASSUME(n!=2); REFUSED(A.PermuteRows(std::vector<int>(n,0)),"permutation of another length"); } OP { ASSUME(n!=3); REFUSED(A.PermuteCols(std::vector<int>(n,0)),"permutation of another length"); } OP { ASSUME(n!=2); REFUSED(A.PermuteRowsCols(std::vector<int>(n,0),std::vector<int>(3,0)),"permutation of another length"); } OP { ASSUME(n!=3); REFUSED(A.PermuteRowsCols(std::vector<int>(2,0),std::vector<int>(n,0)),"permutation of another length"); } fin(); }
// permutations that lead outside, and sizes that no longer hold the entries, never reach memory outside the objects
H(asm_unfit){ OPS(7) CooMatrix<double> A(3,4); A.Add(1,2,SR("v")); A.Add(2,3,SR("v")); std::vector<int> rp={0,1,2},cp={0,1,2,3}; int br=badIndex("br",3),bc=badIndex("bc",4); int sr=CI("sr",0,3),sc=CI("sc",0,4);
  OP { rp[1]=br; REFUSED(A.PermuteRows(rp);A.ToSparse(),"permutation outside the rows"); } OP { cp[2]=bc; REFUSED(A.PermuteCols(cp);A.ToSparse(),"permutation outside the columns"); } OP { rp[1]=br; REFUSED(A.PermuteRowsCols(rp,cp);A.ToSparse(),"permutation outside the rows"); } OP { cp[3]=bc; REFUSED(A.PermuteRowsCols(rp,cp);A.ToDense(),"permutation outside the columns"); }
  OP { ASSUME(sr<3||sc<4); REFUSED(A.SetSize(sr,sc);A.ToSparse(),"a size that no longer holds the entries"); } OP { ASSUME(sr<3||sc<4); REFUSED(A.SetSize(sr,sc);A.ToDense(),"a size that no longer holds the entries"); } OP { LilMatrix<double> L; L.Add(1,2,1.5); L.Add(2,3,2.5); ASSUME(sr<3||sc<4); REFUSED(L.SetSize(sr,sc);L.ToSparse(),"a size that no longer holds the entries"); } fin(); }
H(blocks){ std::vector<int> ro(1,0),co(1,0); int nr=CI("nr",0,2),nc=CI("nc",0,2); for(int b=0;b<nr;b++) ro.push_back(ro.back()+b+1); for(int b=0;b<nc;b++) co.push_back(co.back()+2-b); BlockMatrix<double> A(ro,co); BlockOperator B(ro,co); const BlockMatrix<double>&K=A; OPS(10) int i=SI("i",-2,4),j=SI("j",-2,4); Buf in(co.back()),out(ro.back()); VV iv=in.v(),ov=out.v();
  OP { ASSUME(i<0||i>=nr||j<0||j>=nc); REFUSED((void)K.GetBlock(i,j).Rows(),"block outside"); } OP { ASSUME(i<0||i>=nr||j<0||j>=nc); SparseMatrix<double> M(1,1); REFUSED(A.SetBlock(i,j,M),"block outside"); } OP { ASSUME(i<0||i>=nr||j<0||j>=nc); REFUSED(B.GetBlock(i,j),"block outside"); } OP { ASSUME(i<0||i>=nr||j<0||j>=nc); SparseMatrix<double> M(1,1); REFUSED(B.SetBlock(i,j,M),"block outside"); }
  OP { ASSUME(i>=0&&i<nr&&j>=0&&j<nc); int x=conc(i),y=conc(j),a=CI("a",0,3),b=CI("b",0,3); ASSUME(a!=ro[x+1]-ro[x]||b!=co[y+1]-co[y]); SparseMatrix<double> M(a,b); REFUSED(A.SetBlock(x,y,M),"block of another size"); REFUSED(B.SetBlock(x,y,M),"block of another size"); } OP { int m=other("m",co.back(),5); Buf b(m); REFUSED(A.Mult(b.v(),ov),"product with a vector of another length"); REFUSED(B.Mult(b.v(),ov),"product with a vector of another length"); } OP { int m=other("m",ro.back(),5); Buf b(m); REFUSED(A.Mult(iv,b.v()),"product into a vector of another length"); REFUSED(B.Mult(iv,b.v()),"product into a vector of another length"); } OP { int m=other("m",ro.back(),5); Buf b(m); REFUSED(A.MultAT(b.v(),iv),"transposed product with a vector of another length"); REFUSED(B.MultAT(b.v(),iv),"transposed product with a vector of another length"); } OP { int m=other("m",co.back(),5); Buf b(m); REFUSED(A.MultAT(ov,b.v()),"transposed product into a vector of another length"); REFUSED(B.MultAT(ov,b.v()),"transposed product into a vector of another length"); }
  OP { } fin(); }
struct NoT : public Operator { NoT(int r,int c):Operator(r,c){} using Operator::Mult; using Operator::MultAT; void Mult(const VV&,VV o) const override { o=0.0; } };
static double dt(const VV&x,const VV&y){ return x.Mult(y); }
H(solvers){ int n=CI("n",1,P(1)),m=other("m",n,P(1)+1); DenseMatrix A(n,n),R(n,m),M(m,m),I(n,n); A=0.0; I=0.0; for(int i=0;i<n;i++) A(i,i)=I(i,i)=1.0; OPS(29) Buf b(n),x(n),bm(m); VV bv=b.v(),xv=x.v(),wv=bm.v();
  OP REFUSED(PCGSolver s(R),"not square"); OP REFUSED(MINRESSolver s(R),"not square"); OP REFUSED(PCGSolver s(R,I),"not square"); OP REFUSED(PMINRESSolver s(R,I),"not square"); OP REFUSED(PCGSolver s(A,M),"preconditioner of another size"); OP REFUSED(PMINRESSolver s(A,M),"preconditioner of another size"); OP REFUSED(PCGSolver s(A,R),"rectangular preconditioner"); OP REFUSED(PMINRESSolver s(A,R),"rectangular preconditioner"); OP REFUSED(PCGSolver s(A,-1),"negative iteration count"); OP REFUSED(MINRESSolver s(A,-2),"negative iteration count"); OP REFUSED(PMINRESSolver s(A,I,-1),"negative iteration count"); OP REFUSED(PCGSolver s(A,3,1e-3,1e-3,false,nullptr),"no inner product"); OP REFUSED(MINRESSolver s(A,3,1e-3,1e-3,false,nullptr),"no inner product");
  OP { PCGSolver s(A); REFUSED(s.Mult(wv,xv),"right-hand side of another length"); REFUSED(s.Mult(bv,wv),"solution of another length"); } OP { PCGSolver s(A,I); REFUSED(s.Mult(wv,xv),"right-hand side of another length"); REFUSED(s.Mult(bv,wv),"solution of another length"); } OP { MINRESSolver s(A); REFUSED(s.Mult(wv,xv),"right-hand side of another length"); REFUSED(s.Mult(bv,wv),"solution of another length"); } OP { PMINRESSolver s(A,I); REFUSED(s.Mult(wv,xv),"right-hand side of another length"); REFUSED(s.Mult(bv,wv),"solution of another length"); }
  OP { PCGSolver s; REFUSED(s.Mult(bv,xv),"solver without an operator"); } OP { MINRESSolver s; REFUSED(s.Mult(bv,xv),"solver without an operator"); } OP { PMINRESSolver s; REFUSED(s.Mult(bv,xv),"solver without an operator"); } OP { PCGSolver s(A); REFUSED(s.SetOperator(M),"operator of another size"); REFUSED(s.SetOperator(R),"operator of another size"); } OP { PMINRESSolver s(A,I); REFUSED(s.SetOperator(M),"operator of another size"); } OP { MINRESSolver s; REFUSED(s.SetOperator(M),"solver without buffers"); } OP { PCGSolver s; REFUSED(s.SetOperator(M),"solver without buffers"); }
  OP { REFUSED(CG(A,wv,xv),"right-hand side of another length"); REFUSED(CG(R,bv,xv),"not square"); } OP { REFUSED(PCG(A,M,bv,xv),"preconditioner of another size"); REFUSED(MINRES(A,bv,wv),"solution of another length"); REFUSED(PMINRES(A,M,bv,xv),"preconditioner of another size"); } OP { A(0,0)=-1.0; PCGSolver s(A,5,1e-6,1e-6); for(int i=0;i<n;i++){ bv[i]=0; xv[i]=0; } bv[0]=1.0; REFUSED(s.Mult(bv,xv),"indefinite operator"); }
  OP { NoT o(n,m); REFUSED(o.MultAT(bv,wv),"transpose product of an operator without one"); REFUSED(o.MultAT(bv),"transpose product of an operator without one"); Vector<double> t(m); REFUSED(static_cast<const Operator&>(o).MultAT(bv,t),"transpose product of an operator without one"); PCGSolver s(A); REFUSED(s.MultAT(bv,xv),"transpose product of a solver"); } OP { REFUSED(NoT o(-m-1,n),"negative size"); REFUSED(NoT o(n,-1),"negative size"); } fin(); }
H(others){ OPS(5) OP { Timer t; int k=CI("clicks",0,3); for(int i=0;i<k;i++) t.Click(); int i=SI("i",-3,5); ASSUME(i<0||i>=k-1); REFUSED((void)(t[i]+1.0),"interval outside"); } OP { int r=CI("r",0,2),c=other("c",r,2); EigenSolver e; DenseMatrix A=junkDense(r,c); REFUSED(e.Solve(A,1.0,1),"not square"); SparseMatrix<double> S(r,c); REFUSED(e.Solve(S,1.0,1),"not square"); }
  OP { std::string f("/nonexistent/file"); REFUSED(ReadText<double>(f),"missing file"); REFUSED(ReadBinaryVect<double>(f),"missing file"); REFUSED(ReadBinaryMat<double>(f),"missing file"); REFUSED(ReadAdjList<double>(f),"missing file"); REFUSED(ReadGraphList<double>(f),"missing file"); REFUSED(ReadCooList<double>(f),"missing file"); REFUSED(ReadTable<int>(f),"missing file"); REFUSED(ReadCSR<double>(f),"missing file"); REFUSED(ReadMTX<double>(f),"missing file"); REFUSED(ReadMTXList<double>(f),"missing file"); }
  OP { std::string f("/nonexistent/file"); std::vector<double> v(2,1.0); SparseMatrix<double> A(v); REFUSED(WriteText(v,f),"WriteText to a file that cannot be opened"); REFUSED(WriteBinary(v,f),"WriteBinary to a file that cannot be opened"); REFUSED(WriteBinary(A,f),"WriteBinary of a matrix to a file that cannot be opened"); REFUSED(WriteAdjList(A,f),"WriteAdjList to a file that cannot be opened"); REFUSED(WriteCooList(A,f),"WriteCooList to a file that cannot be opened"); REFUSED(WriteTable(A,f),"WriteTable to a file that cannot be opened"); REFUSED(WriteCSR(A,f),"WriteCSR to a file that cannot be opened"); REFUSED(WriteMTX(A,f),"WriteMTX to a file that cannot be opened"); }
  OP { const char*a1[]={"p","x"}; REFUSED(ArgParser p(2,a1),"a value without a flag"); const char*a2[]={"p","--a","1","2"}; REFUSED(ArgParser p(4,a2),"a value without a flag"); REFUSED(linalgcpp_verify(false,"m"),"failed verification"); } fin(); }
//@ run vec_sizes 0 3 t=60
//@ run vec_index 0 3 t=60
//@ run vec_misc 0 2..3 t=60
//@ run blockvec 0 2..3 t=60
//@ run dense_index 0 2..3 t=60
//@ run dense_range 0 1 t=60
//@ run dense_sizes 0 2 t=60
//@ run dense_square 0 2..3 t=60
//@ run sparse_sizes 0 2 t=60
//@ run sparse_index 0 2..3 t=60
//@ run sparse_marks 0 2..3 t=60
//@ run sparse_ctor 0 2..3 t=60
//@ run coo_sized 0 2..3 t=60
//@ run lil_sized 0 2..3 t=60
//@ run coo_other 0 t=60
//@ run lil_other 0 t=60
//@ run coo_lists 0 t=60
//@ run asm_unfit 0 t=60
//@ run blocks 0 t=60
//@ run solvers 0 2..3 t=60
//@ run others 0 t=60
//@ thorough vec_sizes 0 5 t=600
//@ thorough vec_index 0 6 t=600
//@ thorough dense_range 0 2 t=600
//@ thorough dense_sizes 0 3 t=600
//@ thorough sparse_sizes 0 3..4 t=600
//@ thorough dense_index 0 4 t=600
//@ thorough sparse_index 0 4 t=600
//@ thorough sparse_marks 0 4 t=600
//@ thorough sparse_ctor 0 4 t=600
//@ thorough blockvec 0 4 t=600
//@ thorough solvers 0 5 t=600
//@ bounds every wrong index within 2 or 3 of the valid range and every pair of different lengths up to 3 (thorough 4 to 6), for about 330 requests over vectors, views, block vectors, dense, sparse, coordinate, list and block matrices, operators, solvers, the eigensolver, timers, parsers and file readers and writers
//@ assume assertions are enabled, as in the repository's own test build
//@ outside requests whose invalidity the interface does not declare; release builds, in which assertions are compiled out
