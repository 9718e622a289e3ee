// Distributed matrices and vectors over the ranks of the message passing model.
#pragma once
#include "lib.hpp"
#include "parlinalgcpp.hpp"
#include "hypre/ranks.hpp"
struct Dist { int R; int s[5]; int n() const { return s[R]; } int lo(int r) const { return s[r]; } int hi(int r) const { return s[r+1]; } int len(int r) const { return s[r+1]-s[r]; } std::vector<HYPRE_Int> starts(int r) const { return {s[r],s[r+1],s[R]}; } };
// digits of code, one per rank: 21 = two on rank 0, one on rank 1
inline Dist dist(int code){ Dist d; int k=0,t[6]; while(code){ t[k++]=code%10; code/=10; } d.R=k; d.s[0]=0; for(int i=0;i<k;i++) d.s[i+1]=d.s[i]+t[k-1-i]; return d; }
// a global matrix: nsym entries are present or not symbolically, the others follow a pattern from the seed; mode 1 = diagonal always present
struct Glob { Ref v; std::vector<char> on; Glob(){} Glob(const char*nm,int r,int c,int nsym,Lcg&g,bool diag=false,int dens=2):v(r,c),on((size_t)r*c){ std::vector<int> sym((size_t)r*c,0); for(int k=0;k<nsym&&r*c;k++) sym[nsym>=r*c? k%(r*c) : g.next(r*c)]=1; for(int i=0;i<r;i++) for(int j=0;j<c;j++){ bool o= diag&&i==j? true : sym[i*c+j]? CI("present",0,1)==1 : g.next(4)<dens; on[i*c+j]=o; if(o) v.at(i,j)=SR(nm); } } };
inline ParMatrix mkPar(const Glob&G,const Dist&r,const Dist&c,int me,bool rev=false){ std::vector<int> cm; for(int j=0;j<c.n();j++) if(j<c.lo(me)||j>=c.hi(me)) for(int i=r.lo(me);i<r.hi(me);i++) if(G.on[i*G.v.c+j]){ cm.push_back(j); break; }
  std::vector<int> dp{0},di,op{0},oi; std::vector<double> dd,od; for(int i=r.lo(me);i<r.hi(me);i++){ for(int q=0;q<c.n();q++){ int j= rev?c.n()-1-q:q; if(!G.on[i*G.v.c+j]) continue; if(j>=c.lo(me)&&j<c.hi(me)){ di.push_back(j-c.lo(me)); dd.push_back(G.v.at(i,j)); } else { int k=0; while(cm[k]!=j) k++; oi.push_back(k); od.push_back(G.v.at(i,j)); } } dp.push_back((int)di.size()); op.push_back((int)oi.size()); }
  int nl=r.len(me),nc=c.len(me); return ParMatrix(MPI_COMM_WORLD,r.starts(me),c.starts(me),SparseMatrix<double>(dp,di,dd,nl,nc),SparseMatrix<double>(op,oi,od,nl,(int)cm.size()),cm); }
// well formed on this rank, and its entries added into the gathered matrix
inline void gather(const ParMatrix&M,const Dist&r,const Dist&c,int me,Ref&out,bool strict=true){ CHECK(M.GetRowStarts()==r.starts(me)&&M.GetColStarts()==c.starts(me),"row and column distribution of the result"); CHECK(M.Rows()==r.len(me)&&M.Cols()==c.len(me)&&M.GlobalRows()==r.n()&&M.GlobalCols()==c.n(),"local and global size of the result"); CHECK(M.GetComm()==MPI_COMM_WORLD&&M.GetMyId()==me,"communicator and rank of the result");
  const auto&cm=M.GetColMap(); const auto&D=M.GetDiag(); const auto&O=M.GetOffd(); wellFormed(D,r.len(me),c.len(me),"local part is well formed"); wellFormed(O,r.len(me),(int)cm.size(),"remote part is well formed"); for(size_t k=0;k<cm.size();k++){ CHECK(cm[k]>=0&&cm[k]<c.n()&&(cm[k]<c.lo(me)||cm[k]>=c.hi(me)),"remote columns are owned by other ranks"); if(k) CHECK(cm[k]>cm[k-1],"remote columns are sorted without duplicates"); }
  for(int i=0;i<r.len(me);i++){ std::vector<char> seen(c.n(),0); auto put=[&](int j,double v){ if(strict) CHECK(!seen[j],"no entry of the result is stored twice"); seen[j]=1; out.at(r.lo(me)+i,j)+=v; }; for(int e=D.GetIndptr()[i];e<D.GetIndptr()[i+1];e++) put(c.lo(me)+D.GetIndices()[e],D.GetData()[e]); for(int e=O.GetIndptr()[i];e<O.GetIndptr()[i+1];e++) put(cm[O.GetIndices()[e]],O.GetData()[e]); }
  const hypre_ParCSRMatrix*h=M; CHECK(h!=nullptr,"the library's view exists"); CHECK(h->diag->data==D.GetData().data()&&h->diag->i==D.GetIndptr().data()&&h->diag->j==D.GetIndices().data()&&h->offd->data==O.GetData().data()&&h->offd->i==O.GetIndptr().data()&&h->offd->j==O.GetIndices().data()&&h->col_map_offd==cm.data(),"the library sees the matrix's own arrays"); CHECK(h->row_starts==M.GetRowStarts().data()&&h->col_starts==M.GetColStarts().data()&&h->global_num_rows==r.n()&&h->global_num_cols==c.n(),"the library sees the matrix's distribution"); CHECK(h->comm_pkg!=nullptr,"the exchange pattern exists"); }
inline Vector<double> slice(const std::vector<double>&x,const Dist&d,int me){ Vector<double> o(d.len(me)); for(int i=0;i<d.len(me);i++) o[i]=x[d.lo(me)+i]; return o; }
inline void eqSlice(const VectorView<double>&got,const std::vector<double>&want,const Dist&d,int me,const char*m){ CHECK(got.size()==d.len(me),m); for(int i=0;i<d.len(me);i++) CHECKEQ(got[i],want[d.lo(me)+i],m); }
inline ParVector pvec(const std::vector<double>&x,const Dist&d,int me){ Vector<double> l=slice(x,d,me); return ParVector(MPI_COMM_WORLD,l,d.starts(me)); }
