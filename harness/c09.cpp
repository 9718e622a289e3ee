// C09: scaling, permutation, diagonal, scalar operations
#include "lib.hpp"
template<class T,class F> static void changed(const SparseMatrix<T>&A,const Csr<T>&a,F want,const char*m){ CHECK(A.Rows()==a.r&&A.Cols()==a.c,m); CHECK(A.GetIndptr()==a.ptr,m); CHECK(A.nnz()==(int)a.idx.size(),m); for(int i=0;i<a.r;i++) for(int j=a.ptr[i];j<a.ptr[i+1];j++){ CHECK(A.GetIndices()[j]==a.idx[j],m); CHECKEQ(A.GetData()[j],want(i,a.idx[j],a.dat[j]),m); } }
H(scale){ Lcg g(P(0)); int r=P(1),c=P(2); auto a=genCsr<double>("a",r,c,P(3),DUP,g); auto dr=symVec("dr",r); auto dc=symVec("dc",c);
  { SparseMatrix<> A=mk(a); A.ScaleRows(dr); changed(A,a,[&](int i,int,double v){ return v*dr[i]; },"row scaling"); SparseMatrix<> B=mk(a); SparseMatrix<> D(dr); B.ScaleRows(D); changed(B,a,[&](int i,int,double v){ return v*dr[i]; },"row scaling by a diagonal matrix"); eqVec(D.GetData(),dr,"scales unchanged"); }
  { SparseMatrix<> A=mk(a); A.ScaleCols(dc); changed(A,a,[&](int,int j,double v){ return v*dc[j]; },"column scaling"); SparseMatrix<> B=mk(a); B.ScaleCols(SparseMatrix<>(dc)); changed(B,a,[&](int,int j,double v){ return v*dc[j]; },"column scaling by a diagonal matrix"); for(int k=0;k<A.nnz();k++) __sym_log_d("v",A.GetData()[k]); }
  COVER("end"); }
H(invscale){ Lcg g(P(0)); int r=P(1),c=P(2); auto a=genCsr<double>("a",r,c,P(3),DUP,g); if(P(0)==0) for(auto&x:a.idx) x=conc(x); auto dr=symVec("dr",r); auto dc=symVec("dc",c); for(auto x:dr) ASSUME(x!=0); for(auto x:dc) ASSUME(x!=0);
  { SparseMatrix<> A=mk(a); A.InverseScaleRows(dr); changed(A,a,[&](int i,int,double v){ return v/dr[i]; },"inverse row scaling"); SparseMatrix<> B=mk(a); B.InverseScaleRows(SparseMatrix<>(dr)); changed(B,a,[&](int i,int,double v){ return v/dr[i]; },"inverse row scaling by a diagonal matrix"); }
  { SparseMatrix<> A=mk(a); A.InverseScaleCols(dc); changed(A,a,[&](int,int j,double v){ return v/dc[j]; },"inverse column scaling"); SparseMatrix<> B=mk(a); B.InverseScaleCols(SparseMatrix<>(dc)); changed(B,a,[&](int,int j,double v){ return v/dc[j]; },"inverse column scaling by a diagonal matrix"); }
  COVER("end"); }
H(perm){ Lcg g(P(0)); int r=P(1),c=P(2); auto a=genCsr<double>("a",r,c,P(3),DUP,g); std::vector<int> p; if(P(0)>=1000000) p=nearIdentity(c,c,g); else for(int j=0;j<c;j++){ int x; if(P(0)==0) x=SI("p",0,c-1); else { bool d; do { x=g.next(c); d=false; for(int y:p) d|=x==y; } while(d); } if(P(0)==0) for(int y:p) ASSUME(x!=y); p.push_back(x); } SparseMatrix<> A=mk(a); std::vector<int> q=p; A.PermuteCols(q); sameVec(q,p,"permutation unchanged"); CHECK(A.GetIndptr()==a.ptr&&A.Rows()==r&&A.Cols()==c&&A.nnz()==(int)a.idx.size(),"shape"); for(size_t k=0;k<a.idx.size();k++){ CHECK(A.GetIndices()[k]==p[a.idx[k]],"column moved to its image"); CHECKEQ(A.GetData()[k],a.dat[k],"value kept"); } COVER("end"); }
H(diag){ Lcg g(P(0)); int n=P(1); auto a=genCsr<double>("a",n,n,P(3),DISTINCT,g); { SparseMatrix<> A=mk(a); auto d=A.GetDiag(); Ref R=a.ref(); CHECK((int)d.size()==n,"diagonal length"); for(int i=0;i<n;i++) CHECKEQ(d[i],R.at(i,i),"diagonal entry"); sameCsr(A,a,"unchanged by reading the diagonal"); for(int i=0;i<n;i++) __sym_log_d("d",d[i]); }
  { SparseMatrix<> A=mk(a); double v=SR("v"); A.AddDiag(v); changed(A,a,[&](int i,int j,double x){ return i==j?x+v:x; },"scalar added to the diagonal"); } { SparseMatrix<> A=mk(a); auto v=symVec("dv",n); A.AddDiag(v); changed(A,a,[&](int i,int j,double x){ return i==j?x+v[i]:x; },"vector added to the diagonal"); } COVER("end"); }
H(scalar){ Lcg g(P(0)); int r=P(1),c=P(2); auto a=genCsr<double>("a",r,c,P(3),DUP,g); double s=SR("s"); SparseMatrix<> A=mk(a); { SparseMatrix<> B=A*s; changed(B,a,[&](int,int,double x){ return x*s; },"A s"); SparseMatrix<> C=s*A; changed(C,a,[&](int,int,double x){ return x*s; },"s A"); sameCsr(A,a,"unchanged by value products"); SparseMatrix<> D(A); SparseMatrix<>&ret=(D*=s); CHECK(&ret==&D,"returns itself"); changed(D,a,[&](int,int,double x){ return x*s; },"A *= s"); }
  { double t=SR("t"); ASSUME(t!=0); SparseMatrix<> D(A); D/=t; changed(D,a,[&](int,int,double x){ return x/t; },"A /= t"); SparseMatrix<> E(A); E=t; changed(E,a,[&](int,int,double){ return t; },"A = t"); }
  double sum=0,abs=0; for(double x:a.dat){ sum+=x; abs+=std::fabs(x); } CHECKEQ(A.Sum(),sum,"sum"); CHECKEQ(A.MaxNorm(),abs,"sum of magnitudes"); __sym_log_d("sum",A.Sum()); sameCsr(A,a,"unchanged"); COVER("end"); }
H(ints){ Lcg g(P(0)); int r=P(1),c=P(2); auto a=genCsr<int>("a",r,c,P(3),DUP,g); SparseMatrix<int> A=mk(a); int s=SI("s",-3,3); SparseMatrix<int> B(A); B*=s; changed(B,a,[&](int,int,int x){ return x*s; },"int A *= s"); auto dr=symVec<int>("dr",r); SparseMatrix<int> C(A); C.ScaleRows(dr); changed(C,a,[&](int i,int,int x){ return x*dr[i]; },"int row scaling"); auto dc=symVec<int>("dc",c); SparseMatrix<int> D(A); D.ScaleCols(dc); changed(D,a,[&](int,int j,int x){ return x*dc[j]; },"int column scaling"); int sum=0; for(int x:a.dat) sum+=x; CHECK(A.Sum()==sum,"int sum"); COVER("end"); }
H(intdiv){ Lcg g(P(0)); int r=P(1),c=P(2); auto a=genCsr<int>("a",r,c,P(3),DUP,g); if(P(0)==0) for(auto&x:a.idx) x=conc(x); static const int ds[]={1,2,3,-2,5,-1,7}; auto k=[&](std::vector<int>&v,int n){ for(int i=0;i<n;i++) v.push_back(P(0)==0?ds[CI("d",0,3)]:ds[g.next(7)]); }; std::vector<int> dr,dc; k(dr,r); k(dc,c); { SparseMatrix<int> A=mk(a); A.InverseScaleRows(dr); changed(A,a,[&](int i,int,int v){ return v/dr[i]; },"int inverse row scaling"); SparseMatrix<int> B=mk(a); B.InverseScaleRows(SparseMatrix<int>(dr)); changed(B,a,[&](int i,int,int v){ return v/dr[i]; },"int inverse row scaling by a diagonal matrix"); } { SparseMatrix<int> A=mk(a); A.InverseScaleCols(dc); changed(A,a,[&](int,int j,int v){ return v/dc[j]; },"int inverse column scaling"); SparseMatrix<int> B=mk(a); B.InverseScaleCols(SparseMatrix<int>(dc)); changed(B,a,[&](int,int j,int v){ return v/dc[j]; },"int inverse column scaling by a diagonal matrix"); } { int s=ds[CI("s",0,3)]; SparseMatrix<int> A=mk(a); A/=s; changed(A,a,[&](int,int,int v){ return v/s; },"int A /= s"); } COVER("end"); }
// integer matrices and fractional scalars: the product is formed before it is stored
H(intfrac){ Lcg g(P(0)); int r=P(1),c=P(2); auto a=genCsr<int>("a",r,c,P(3),DUP,g); if(P(0)==0) for(auto&x:a.idx) x=conc(x); static const double fs[]={0.5,2.5,-1.5,0.25}; double s=fs[CI("s",0,3)]; { SparseMatrix<int> A=mk(a); A*=s; changed(A,a,[&](int,int,int v){ return (int)(v*s); },"int A *= fraction"); SparseMatrix<int> B=mk(a)*s; changed(B,a,[&](int,int,int v){ return (int)(v*s); },"int A fraction"); SparseMatrix<int> C=mk(a); C/=s; changed(C,a,[&](int,int,int v){ return (int)(v/s); },"int A /= fraction"); } COVER("end"); }
//@ run intdiv 0 1..2 1..2 1 t=60
//@ run intdiv S0..3 4 5 3 t=60
//@ run intfrac 0 1..2 2 1 t=60
//@ run intfrac S0..3 2 3 2 t=60
//@ run scale 0 0..3 1..3 2 t=60
//@ run scale S0..3 8 5,9 4 t=30
//@ run invscale 0 1..2 1..2 2 t=60
//@ run invscale S0..3 4 3,5 3 t=40
//@ run perm 0 1..3 1..3 1 t=60
//@ run perm 0 2 2,3 2 t=60
//@ run perm S0..3 8 12 5 t=30
//@ run diag 0 0..3 0 2 t=60
//@ run diag S0..3 6,9 0 4 t=30
//@ run scalar 0 0..2 2 2 t=60
//@ run scalar S0..1 6 7 2 t=40
//@ run ints 0 2 2 1 t=60
//@ run ints S0..3 4 5 3 t=60
// structures that are almost special (see patRows)
//@ run scale 1000000..1000017 5 5,6 4 t=30
//@ run invscale 1000000..1000017 4 5 4 t=30
//@ run perm 1000000..1000017 5 5,6 4 t=30
//@ run diag 1000000..1000017 5 0 4 t=30
//@ run scalar 1000000..1000017 4 4 2 t=30
// large shapes: concrete structure, symbolic values
//@ run scale 3 32,64 64 16 t=60
//@ run perm 3 32 64 16 t=60
//@ run diag 3 32,64 0 16 t=60
//@ run scale 1..2 40,130 33,140 20 t=60
//@ run invscale 1..2 20,70 18,70 9 t=60
//@ run perm 1..2 20,130 40,140 20 t=60
//@ run diag 1..2 40,140 0 20 t=60
//@ run scalar 1..2 20 33 9 t=60
//@ run ints 1..2 20 24 12 t=60
//@ thorough scale 0 4 3 2 t=600
//@ thorough perm 0 3 4 2 t=600
//@ thorough diag 0 4 0 2 t=600
//@ thorough scalar 0 3 3 2 t=600
//@ thorough scale S10..30 20 25 6 t=60
//@ bounds fully symbolic structures up to 3x3 with 2 entries per row, symbolic scales, permutations up to length 3 (thorough 4)
//@ bounds seeded structures up to 9x9 (thorough 20x25), all values symbolic; larger shapes (diag, ints, invscale, perm, scalar, scale): a concrete, seeded structure of tens to hundreds of rows and columns with every value symbolic
//@ bounds structures that are almost special (identity with two columns exchanged, triangular, full but one entry, tridiagonal, arrow, equal rows, diagonal with a missing or an extra entry, ...: 18 families, 5 to 7 rows and columns), every value symbolic
//@ outside assigning the scalar zero (refused by an assertion); diagonal operations on matrices storing a diagonal position twice; the remainder of a division by a symbolic integer (integer divisors are case-split)
