// C08: elimination
#include "lib.hpp"
template<class F> static void changed(const SparseMatrix<>&A,const Csr<double>&a,F want,const char*m){ CHECK(A.Rows()==a.r&&A.Cols()==a.c,m); CHECK(A.GetIndptr()==a.ptr,m); CHECK(A.nnz()==(int)a.idx.size(),m); for(int i=0;i<a.r;i++) for(int j=a.ptr[i];j<a.ptr[i+1];j++){ CHECK(A.GetIndices()[j]==a.idx[j],m); CHECKEQ(A.GetData()[j],want(i,a.idx[j],a.dat[j]),m); } }
H(elim1){ Lcg g(P(0)); int r=P(1),c=P(2); auto a=genCsr<double>("a",r,c,P(3),DUP,g); 
  { SparseMatrix<> A=mk(a); int k=P(0)==0?SI("row",0,r-1):g.next(r); A.EliminateRow(k); changed(A,a,[&](int i,int,double v){ return i==k?0.0:v; },"row eliminated"); }
  { SparseMatrix<> A=mk(a); int k=P(0)==0?SI("col",0,c-1):g.next(c); A.EliminateCol(k); changed(A,a,[&](int,int j,double v){ return j==k?0.0:v; },"column eliminated"); __sym_log_d("s",A.Sum()); }
  { SparseMatrix<> A=mk(a); int lim=r<c?r:c; int k=P(0)==0?SI("idx",0,lim-1):g.next(lim); A.EliminateRowCol(k); changed(A,a,[&](int i,int j,double v){ return (i==k||j==k)?(i==j?1.0:0.0):v; },"row and column eliminated"); }
  COVER("end"); }
H(elimset){ Lcg g(P(0)); int r=P(1),c=P(2); auto a=genCsr<double>("a",r,c,P(3),DUP,g); int n=(r>c?r:c)+P(4); std::vector<int> mk1(n); std::vector<bool> mb(n); for(int i=0;i<n;i++){ mk1[i]=(P(0)==0?CI("mark",0,1):g.next(2))*(1+i%2); mb[i]=mk1[i]!=0; }
  { SparseMatrix<> A=mk(a); A.EliminateCol(mk1); changed(A,a,[&](int,int j,double v){ return mk1[j]?0.0:v; },"marked columns eliminated"); }
  { SparseMatrix<> A=mk(a); A.EliminateCol(mb); changed(A,a,[&](int,int j,double v){ return mk1[j]?0.0:v; },"marked columns eliminated (bool)"); }
  if(r==c){ SparseMatrix<> A=mk(a); A.EliminateRowCol(mk1); changed(A,a,[&](int i,int j,double v){ return (mk1[i]||mk1[j])?(i==j?1.0:0.0):v; },"marked rows and columns eliminated"); SparseMatrix<> B=mk(a); B.EliminateRowCol(mb); changed(B,a,[&](int i,int j,double v){ return (mk1[i]||mk1[j])?(i==j?1.0:0.0):v; },"marked rows and columns eliminated (bool)"); }
  COVER("end"); }
H(elimsol){ Lcg g(P(0)); int r=P(1),c=P(2); auto a=genCsr<double>("a",r,c,P(3),DUP,g); int n=(r>c?r:c)+P(4); std::vector<int> mk1(n); for(int i=0;i<n;i++) mk1[i]=(P(0)==0?CI("mark",0,1):g.next(2))*(1+i%2); if(P(0)) for(auto v:a.dat) ASSUME(v!=0);
  { SparseMatrix<> A=mk(a); auto x=symVec("x",c); auto b=symVec("b",r); Vector<> X=vec(x),B=vec(b); A.EliminateCol(mk1,X,B); changed(A,a,[&](int,int j,double v){ return mk1[j]?0.0:v; },"marked columns eliminated with a solution"); std::vector<double> e=b; for(int i=0;i<r;i++) for(int j=a.ptr[i];j<a.ptr[i+1];j++) e[i]-=mk1[a.idx[j]]?a.dat[j]*x[a.idx[j]]:0.0; eqVec(B,e,"right-hand side"); eqVec(X,x,"solution unchanged"); for(int i=0;i<r;i++) __sym_log_d("b",B[i]); }
  COVER("end"); }
H(elimzero){ Lcg g(P(0)); int r=P(1),c=P(2); auto a=genCsr<double>("a",r,c,P(3),DUP,g); SparseMatrix<> A=mk(a); double tol= P(4)==0? 0.0 : SR("tol",0,64); if(P(4)==2) A.EliminateZeros(); else A.EliminateZeros(tol); if(P(4)==2) tol=0; 
  Csr<double> e; e.r=r; e.c=c; e.ptr.push_back(0); for(int i=0;i<r;i++){ for(int j=a.ptr[i];j<a.ptr[i+1];j++) if(__sym_fork(std::fabs(a.dat[j])>tol)){ e.idx.push_back(a.idx[j]); e.dat.push_back(a.dat[j]); } e.ptr.push_back(e.idx.size()); } wellFormed(A,r,c,"after dropping small entries"); sameCsr(A,e,"exactly the entries above the tolerance, in order"); __sym_log_i("nnz",A.nnz()); COVER("end"); }
H(elim_int){ Lcg g(P(0)); int r=P(1),c=P(2); auto a=genCsr<int>("a",r,c,P(3),DUP,g); SparseMatrix<int> A=mk(a); A.EliminateRow(0); A.EliminateCol(c-1); for(int i=0;i<r;i++) for(int j=a.ptr[i];j<a.ptr[i+1];j++) CHECKEQ(A.GetData()[j],(i==0||a.idx[j]==c-1)?0:a.dat[j],"int row and column eliminated"); SparseMatrix<int> Z=mk(a); Z.EliminateZeros(1); Csr<int> e; e.r=r; e.c=c; e.ptr.push_back(0); for(int i=0;i<r;i++){ for(int j=a.ptr[i];j<a.ptr[i+1];j++) if(__sym_fork(std::abs(a.dat[j])>1)){ e.idx.push_back(a.idx[j]); e.dat.push_back(a.dat[j]); } e.ptr.push_back(e.idx.size()); } sameCsr(Z,e,"int entries above the tolerance"); if(r==c){ SparseMatrix<int> B=mk(a); B.EliminateRowCol(r-1); for(int i=0;i<r;i++) for(int j=a.ptr[i];j<a.ptr[i+1];j++) CHECKEQ(B.GetData()[j],(i==r-1||a.idx[j]==r-1)?(i==a.idx[j]?1:0):a.dat[j],"int row and column"); } COVER("end"); }
//@ run elim1 0 1..3 1..3 2 t=60
//@ run elim1 S0..3 7 5,9 4 t=30
//@ run elimset 0 1..2 1..2 2 0..1 t=60
//@ run elimset 0 3 3 1 0 t=60
//@ run elimsol 0 1..2 1..2 1 0..1 t=60
//@ run elimsol 0 1 1..2 2 0 t=60
//@ run elimsol S0..7 7 5,7,9 4 2 t=30
//@ thorough elimsol 0 2..3 2..3 2 0 t=800
//@ run elimset S0..7 7 5,7,9 4 2 t=30
//@ run elimzero 0 0..2 2..3 1 0..2 t=60
//@ run elimzero 0 2 2 2 0..1 t=60
//@ run elimzero S0..3 3 4 3 1 t=60
//@ run elim_int 0 2 2 1 t=60
// structures that are almost special (see patRows)
//@ run elim1 1000000..1000017 5,6 5 4 t=30
//@ run elimset 1000000..1000017 5 5,6 4 0 t=30
//@ run elimsol 1000000..1000017 5 5,6 4 0 t=30
// large shapes: concrete structure, symbolic values
//@ run elim1 3 32 64 16 t=60
//@ run elimset 3 32,64 64 16 2 t=60
//@ run elim1 1..2 33 40 20 t=60
//@ run elimset 1..2 33,140 33,140 20 2 t=60
//@ run elimsol 1..2 33,140 33,140 20 2 t=60
//@ thorough elim1 0 3 3 3 t=600
//@ thorough elimset 0 3 3 2 0 t=800
//@ thorough elimzero 0 3 3 2 1 t=800
//@ thorough elimset S10..30 20 20,13 6 0 t=60
//@ bounds fully symbolic structures up to 3x3 with 2 entries per row, symbolic row/column/marker choices (markers up to length 3), symbolic tolerance in [0,64]
//@ bounds seeded structures up to 7x9 (thorough 20x20) with symbolic values; larger shapes (elim1, elimset, elimsol): a concrete, seeded structure of tens to hundreds of rows and columns with every value symbolic
//@ assume the seeded right-hand-side runs use nonzero stored values (zero values are covered by the symbolic ones)
//@ bounds structures that are almost special (identity with two columns exchanged, triangular, full but one entry, tridiagonal, arrow, equal rows, diagonal with a missing or an extra entry, ...: 18 families, 5 to 7 rows and columns), every value symbolic
//@ outside larger dimensions; negative tolerance
