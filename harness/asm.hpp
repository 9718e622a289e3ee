// shared by the assembly-matrix harnesses
#pragma once
#include "lib.hpp"
struct Ent { int i,j; double v; };
inline Ref refEnt(int r,int c,const std::vector<Ent>&e){ Ref a(r,c); for(auto&x:e) a.at(x.i,x.j)+=x.v; return a; }
inline int distinct(const std::vector<Ent>&e){ int n=0; for(size_t a=0;a<e.size();a++){ bool d=false; for(size_t b=0;b<a;b++) d|=e[a].i==e[b].i&&e[a].j==e[b].j; n+=!d; } return n; }
template<class T> inline void noDup(const SparseMatrix<T>&A,const char*m){ for(int i=0;i<A.Rows();i++) for(int j=A.GetIndptr()[i];j<A.GetIndptr()[i+1];j++) for(int k=A.GetIndptr()[i];k<j;k++) CHECK(A.GetIndices()[k]!=A.GetIndices()[j],m); }
template<class M> inline void converts(const M&C,int r,int c,const std::vector<Ent>&e,bool sorted,const char*m){ Ref R=refEnt(r,c,e); CHECK(C.Rows()==r&&C.Cols()==c,m);
  auto S=C.ToSparse(); wellFormed(S,r,c,m); noDup(S,m); eqRef(refOf(S),R,m); CHECK(S.nnz()==distinct(e),m); if(sorted) for(int i=0;i<r;i++) for(int j=S.GetIndptr()[i]+1;j<S.GetIndptr()[i+1];j++) CHECK(S.GetIndices()[j-1]<S.GetIndices()[j],m);
  eqRef(refOf(C.ToDense()),R,m); DenseMatrix u=junkDense(P(1)+1,2); C.ToDense(u); eqRef(refOf(u),R,m); DenseMatrix w=junkDense(r,c); C.ToDense(w); eqRef(refOf(w),R,m); auto D=C.template ToSparse<double>(); wellFormed(D,r,c,m); eqRef(refOf(D),R,m); }
// one symbolic entry (case-split position when P(0)==0, drawn otherwise)
inline int pick(const char*n,int k,Lcg&g){ return P(0)==0?CI(n,0,k-1):g.next(k); }
inline std::vector<int> pickList(const char*n,int len,int k,Lcg&g){ std::vector<int> v; for(int q=0;q<len;q++) v.push_back(pick(n,k,g)); return v; }
