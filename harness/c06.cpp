// C06: submatrix extraction
#include "lib.hpp"
static Ref pick(const Ref&R,const std::vector<int>&rows,const std::vector<int>&cols){ Ref N(rows.size(),cols.size()); for(size_t i=0;i<rows.size();i++) for(size_t j=0;j<cols.size();j++) N.at(i,j)=R.at(rows[i],cols[j]); return N; }
static std::vector<int> rowsOf(const char*n,int k,int r,Lcg&g){ if(P(0)>=1000000) return nearIdentity(k,r,g); std::vector<int> v; for(int i=0;i<k;i++) v.push_back(P(0)==0?CI(n,0,r-1):g.next(r)); return v; }
static std::vector<int> colsOf(const char*n,int k,int c,Lcg&g){ if(P(0)>=1000000&&k<=c) return nearIdentity(k,c,g); std::vector<int> v; for(int i=0;i<k;i++){ if(P(0)==0){ int x=CI(n,0,c-1); for(int y:v) ASSUME(x!=y); v.push_back(x); } else { int x; bool dup; do { x=g.next(c); dup=false; for(int y:v) dup|=x==y; } while(dup); v.push_back(x); } } return v; }
H(sub){ Lcg g(P(0)); int r=P(1),c=P(2); auto a=genCsr<double>("a",r,c,P(3),DUP,g); SparseMatrix<> A=mk(a); Ref R=a.ref(); auto rows=rowsOf("r",P(4),r,g); auto cols=colsOf("c",P(5),c,g);
  SparseMatrix<> S=A.GetSubMatrix(rows,cols); wellFormed(S,rows.size(),cols.size(),"submatrix"); eqRef(refOf(S),pick(R,rows,cols),"submatrix entries"); int cnt=0; for(int i:rows) for(int j=a.ptr[i];j<a.ptr[i+1];j++){ int h=0; for(int q:cols) h|=(a.idx[j]==q)?1:0; cnt+=h; } CHECK(S.nnz()==cnt,"exactly the addressed stored entries");
  std::vector<int> mark(c+P(6),-1); SparseMatrix<> S1=A.GetSubMatrix(rows,cols,mark); eqRef(refOf(S1),pick(R,rows,cols),"submatrix with a workspace"); CHECK((int)mark.size()>=c,"workspace keeps its size"); auto rows2=rowsOf("r2",P(4)>1?1:P(4),r,g); auto cols2=colsOf("c2",P(5)>1?1:P(5),c,g); SparseMatrix<> S2=A.GetSubMatrix(rows2,cols2,mark); wellFormed(S2,rows2.size(),cols2.size(),"second extraction with the same workspace"); eqRef(refOf(S2),pick(R,rows2,cols2),"second extraction with the same workspace"); SparseMatrix<> S3=A.GetSubMatrix(rows,cols,mark); eqRef(refOf(S3),pick(R,rows,cols),"third extraction with the same workspace");
  sameCsr(A,a,"source unchanged"); __sym_log_i("nnz",S.nnz()); COVER("end"); }
H(sub_int){ Lcg g(P(0)); int r=P(1),c=P(2); auto a=genCsr<int>("a",r,c,P(3),DUP,g); SparseMatrix<int> A=mk(a); auto rows=rowsOf("r",P(4),r,g); auto cols=colsOf("c",P(5),c,g); SparseMatrix<int> S=A.GetSubMatrix(rows,cols); wellFormed(S,rows.size(),cols.size(),"int submatrix"); eqRef(refOf(S),pick(a.ref(),rows,cols),"int submatrix entries"); COVER("end"); }
//@ run sub 0 1,2 1,2 1 0..2 0..1 0 t=60
//@ run sub 0 2 2 2 2 2 1 t=100
//@ run sub 0 2 3 1 1 2 0 t=60
//@ run sub 0 3 2 1 3 1 0 t=60
//@ run sub 0 0 3 1 0 2 0 t=60
//@ run sub 0 3 0 0 2 0 0 t=60
//@ run sub S0..7 6,9 7,11 4 5,12 4,7 3 t=30
//@ run sub_int S0..3 6 7 4 5 4 t=30
// structures that are almost special (see patRows)
//@ run sub 1000000..1000017 5 5,6 4 5 5 3 t=30
//@ run sub 1000000..1000017 5 6 4 6 6 3 t=30
//@ run sub 0 1 4 1 1 4 0 t=100
// large shapes: concrete structure, symbolic values
//@ run sub 3 64 64 16 32 64 3 t=60
//@ run sub 1..2 40 50 20 35 30 3 t=60
//@ run sub 1..2 140 150 20 70 130 3 t=60
//@ run sub 3 300 290 9 30 20 3 t=60
//@ run sub_int 1..2 20 30 12 24 20 t=60
//@ thorough sub 0 2 3 2 2 3 1 t=800
//@ thorough sub 0 3 3 1 2 2 1 t=800
//@ thorough sub S10..40 15 17 6 20 9 3 t=60
//@ bounds fully symbolic structures up to 2x2 (2 entries per row), 2x3 and 3x2 (1 entry per row) with fully symbolic row lists up to length 3 (repeats) and column lists up to length 2 (any order, distinct); three extractions sharing a workspace
//@ bounds seeded structures up to 9x11 with 12 rows and 7 columns (thorough 15x17), values symbolic; larger shapes (sub, sub_int): a concrete, seeded structure of tens to hundreds of rows and columns with every value symbolic
//@ bounds structures that are almost special (identity with two columns exchanged, triangular, full but one entry, tridiagonal, arrow, equal rows, diagonal with a missing or an extra entry, ...: 18 families, 5 to 7 rows and columns), every value symbolic
//@ outside column lists with repeated columns; workspaces not initialised to -1
