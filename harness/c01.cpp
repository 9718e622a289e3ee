// C01: well-formed CSR out of every operation and every pair of operations
#include "lib.hpp"
template<class T> static void accessors(SparseMatrix<T>&A,const char*m){ const SparseMatrix<T>&C=A; for(int i=0;i<A.Rows();i++){ int s=C.GetIndptr()[i],e=C.GetIndptr()[i+1]; CHECK(C.RowSize(i)==e-s,m); std::vector<int> ix=C.GetIndices(i); std::vector<T> dx=C.GetData(i); VectorView<int> v=A.GetIndicesView(i); const auto& cv = C.GetIndicesView(i); CHECK((int)ix.size()==e-s&&(int)dx.size()==e-s&&v.size()==e-s&&cv.size()==e-s,m); for(int k=s;k<e;k++){ CHECK(ix[k-s]==C.GetIndices()[k],m); CHECKEQ(dx[k-s],C.GetData()[k],m); CHECK(v[k-s]==C.GetIndices()[k]&&cv[k-s]==C.GetIndices()[k],m); } } }
static SparseMatrix<> op(int k,const SparseMatrix<>&A,Lcg&g,Ref&R){ int r=A.Rows(),c=A.Cols();
  switch(k){
    case 0: { SparseMatrix<> B(A); return B; }
    case 1: { R=R.t(); return A.Transpose(); }
    case 2: { std::vector<int> rows,cols; for(int i=r-1;i>=0;i--) rows.push_back(i); if(r){ rows.push_back(0); rows.push_back(r-1); rows.push_back(0); rows.push_back(0); } for(int j=c-1;j>=0;j-=2) cols.push_back(j); Ref N(rows.size(),cols.size()); for(size_t i=0;i<rows.size();i++) for(size_t j=0;j<cols.size();j++) N.at(i,j)=R.at(rows[i],cols[j]); R=N; return A.GetSubMatrix(rows,cols); }
    case 3: { auto b=genCsr<double>("m",c,2,1,DUP,g); R=mul(R,b.ref()); return A.Mult(mk(b)); }
    case 4: { SparseMatrix<> B(A); B.SortIndices(); return B; }
    case 5: { SparseMatrix<> B(A); B.EliminateZeros(); return B; }
    case 6: { SparseMatrix<> B(A); std::vector<int> p(c); for(int j=0;j<c;j++) p[j]=(j+1)%c; Ref N(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) N.at(i,p[j])=R.at(i,j); R=N; B.PermuteCols(p); return B; }
    case 7: { CooMatrix<double> C(r,c); for(int i=0;i<r;i++) for(int j=A.GetIndptr()[i];j<A.GetIndptr()[i+1];j++) C.Add(i,A.GetIndices()[j],A.GetData()[j]); return C.ToSparse(); }
    case 8: { LilMatrix<double> C(r,c); for(int i=0;i<r;i++) for(int j=A.GetIndptr()[i];j<A.GetIndptr()[i+1];j++) C.Add(i,A.GetIndices()[j],A.GetData()[j]); return C.ToSparse(); }
    case 9: { BlockMatrix<double> B({0,r,r+2},{0,1,1+c}); B.SetBlock(0,1,A); SparseMatrix<> D(2,1); B.SetBlock(1,0,D); Ref N(r+2,c+1); for(int i=0;i<r;i++) for(int j=0;j<c;j++) N.at(i,j+1)=R.at(i,j); R=N; return B.Combine(); }
    case 10: { SparseMatrix<> B; B=A; double s=SR("s"); B*=s; for(auto&v:R.v) v*=s; return B; }
    case 11: { SparseMatrix<> B(A); std::vector<double> d(r); for(auto&x:d) x=SR("d"); B.ScaleRows(d); for(int i=0;i<r;i++) for(int j=0;j<c;j++) R.at(i,j)*=d[i]; if(r>0&&c>0){ B.EliminateRow(0); for(int j=0;j<c;j++) R.at(0,j)=0; B.EliminateCol(c-1); for(int i=0;i<r;i++) R.at(i,c-1)=0; } return B; }
    case 12: { BlockMatrix<double> B({0,1,r},{0,c}); SparseMatrix<> top=A.GetSubMatrix(std::vector<int>(1,0),[&]{ std::vector<int> v(c); for(int j=0;j<c;j++) v[j]=j; return v; }()); B.SetBlock(0,0,top); Ref N(r,c); for(int j=0;j<c;j++) N.at(0,j)=R.at(0,j); R=N; return B.Combine(); }
  } return A; }
H(chain){ Lcg g(P(0)); int r=P(1),c=P(2),mx=P(3); auto a=genCsr<double>("a",r,c,mx,DUP,g); SparseMatrix<> A=mk(a); wellFormed(A,r,c,"array constructor"); accessors(A,"row accessors of a constructed matrix"); Ref R=a.ref();
  SparseMatrix<> B=op(P(4),A,g,R); wellFormed(B,R.r,R.c,"after the first operation"); accessors(B,"row accessors after the first operation"); sameCsr(A,a,"operand of the first operation");
  Csr<double> b=csrOf(B); SparseMatrix<> C=op(P(5),B,g,R); wellFormed(C,R.r,R.c,"after the second operation"); accessors(C,"row accessors after the second operation"); sameCsr(B,b,"operand of the second operation"); eqRef(refOf(C),R,"represented matrix after two operations"); __sym_log_i("nnz",C.nnz()); COVER("end"); }
H(ctors){ SparseMatrix<> e; wellFormed(e,0,0,"default"); int n=P(1),m=P(2); SparseMatrix<> s(n); wellFormed(s,n,n,"square"); CHECK(s.nnz()==0,"square is empty"); SparseMatrix<> t(n,m); wellFormed(t,n,m,"rectangular"); CHECK(t.nnz()==0,"rectangular is empty"); accessors(t,"rows of an empty matrix");
  auto d=symVec("d",n); SparseMatrix<> D(d); wellFormed(D,n,n,"diagonal"); CHECK(D.nnz()==n,"diagonal entries"); for(int i=0;i<n;i++){ CHECK(D.GetIndices()[i]==i&&D.GetIndptr()[i]==i,"diagonal position"); CHECKEQ(D.GetData()[i],d[i],"diagonal value"); }
  SparseMatrix<int> I(symVec<int>("di",n)); wellFormed(I,n,n,"int diagonal"); wellFormed(I.Transpose(),n,n,"int diagonal transposed"); wellFormed(I.Mult(D),n,n,"mixed product"); wellFormed(t.Transpose(),m,n,"empty transposed"); wellFormed(t.Mult(SparseMatrix<>(m,2)),n,2,"empty product"); wellFormed(CooMatrix<double>(n,m).ToSparse(),n,m,"empty coordinate"); wellFormed(LilMatrix<double>(n,m).ToSparse(),n,m,"empty list of lists"); wellFormed(BlockMatrix<double>({0,n},{0,m,m}).Combine(),n,m,"empty block matrix"); wellFormed(BlockMatrix<double>().Combine(),0,0,"default block matrix"); COVER("end"); }
H(unsized){ int k=P(1); CooMatrix<double> C; LilMatrix<double> L; int mr=-1,mc=-1; for(int q=0;q<k;q++){ int i=CI("i",0,2),j=CI("j",0,2); double v=SR("v"); C.Add(i,j,v); L.Add(i,j,v); if(i>mr) mr=i; if(j>mc) mc=j; } wellFormed(C.ToSparse(),mr+1,mc+1,"unsized coordinate matrix"); wellFormed(L.ToSparse(),mr+1,mc+1,"unsized list-of-lists matrix"); COVER("end"); }
//@ run chain 0 2 2 1 0..12 0..12 t=60
//@ run chain S0 5,4 6 3 1,2,3,6,7,8,9 1,2,3,4,5,7,8,12 t=40
//@ run ctors 0 0..3 0..3 t=20
//@ run unsized 0 0..2 t=60
// structures that are almost special (see patRows)
//@ run chain 1000000..1000017 5 5 3 3,6 4 t=30
//@ run chain 1000000..1000017 5,4 6 3 1,9 12 t=30
// large shapes: concrete structure, symbolic values
//@ run chain S1..2 33 40 9 3,6,7,9 4,1,12 t=60
//@ run chain 3 140,270 135 7 3,6 4,12 t=60
//@ thorough chain 0 3 2 2 1..9 1..9 t=400
//@ thorough chain 0 1,3 3 1 0..12 0..12 t=200
//@ thorough chain S1..4 1,7 9 4 0..12 0..12 t=100
//@ thorough unsized 0 3 t=300
//@ bounds every pair of 13 operations on fully symbolic 2x2 matrices (1 entry per row; thorough 3x2 with 2 and 3x3), operands of the operations symbolic too
//@ bounds seeded structures 5x6 (thorough 7x9) with symbolic values; larger shapes (chain): a concrete, seeded structure of tens to hundreds of rows and columns with every value symbolic
//@ bounds structures that are almost special (identity with two columns exchanged, triangular, full but one entry, tridiagonal, arrow, equal rows, diagonal with a missing or an extra entry, ...: 18 families, 5 to 7 rows and columns), every value symbolic
//@ outside longer operation sequences; matrices obtained by writing through the non-const array accessors
