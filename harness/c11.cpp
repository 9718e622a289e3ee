// C11: list-of-lists assembly
#include "asm.hpp"
template<class T> static void addOne(LilMatrix<T>&C,std::vector<Ent>&e,int r,int c,bool sym,Lcg&g){ int i=pick("i",r,g),j=pick("j",sym&&r<c?r:c,g); if(sym&&i>=c) i=0; T v=SV<T>("v"); if(sym){ C.AddSym(i,j,v); e.push_back({i,j,(double)v}); if(i!=j) e.push_back({j,i,(double)v}); } else { C.Add(i,j,v); e.push_back({i,j,(double)v}); } }
template<class T> static void singleT(){ Lcg g(P(0)); int r=P(1),c=P(2),k=P(3); LilMatrix<T> C(r,c); std::vector<Ent> e; for(int q=0;q<k;q++) addOne(C,e,r,c,false,g); converts(C,r,c,e,true,"conversion of single insertions"); addOne(C,e,r,c,true,g); converts(C,r,c,e,true,"conversion after a further symmetric insertion"); LilMatrix<T> D(C); addOne(D,e,r,c,false,g); converts(D,r,c,e,true,"copy extended"); __sym_log_i("nnz",D.ToSparse().nnz()); COVER("end"); }
H(single){ singleT<double>(); }
H(single_int){ singleT<int>(); }
H(forms){ Lcg g(P(0)); int r=P(1),c=P(2),m=P(3),n=P(4); LilMatrix<double> C(r,c); std::vector<Ent> e; C.Add(0,c-1,0.5); e.push_back({0,c-1,0.5});
  auto rows=pickList("r",m,r,g),cols=pickList("c",n,c,g); Ref V=symRef("v",m,n); DenseMatrix D=mk(V); C.Add(rows,cols,D); for(int i=0;i<m;i++) for(int j=0;j<n;j++) e.push_back({rows[i],cols[j],V.at(i,j)}); eqRef(refOf(D),V,"values unchanged"); converts(C,r,c,e,true,"conversion of a block insertion");
  auto idx=pickList("x",m,r<c?r:c,g); Ref W=symRef("w",m,m); C.Add(idx,mk(W)); for(int i=0;i<m;i++) for(int j=0;j<m;j++) e.push_back({idx[i],idx[j],W.at(i,j)}); converts(C,r,c,e,true,"conversion of a square block insertion"); __sym_log_i("nnz",C.ToSparse().nnz()); COVER("end"); }
// an integer matrix takes the integer part of every inserted value
H(forms_int){ Lcg g(P(0)*7+1); int r=P(1),c=P(2),m=P(3),n=P(4); LilMatrix<int> C(r,c); std::vector<Ent> e; int k=SI("k",-50,50); C.Add(0,c-1,k); e.push_back({0,c-1,(double)k}); auto rows=pickList("r",m,r,g),cols=pickList("c",n,c,g),idx=pickList("x",m,r<c?r:c,g); Ref V(m,n),W(m,m); for(auto&x:V.v) x=(g.next(65)-32)/4.0; for(auto&x:W.v) x=(g.next(65)-32)/4.0; C.Add(rows,cols,mk(V)); C.Add(idx,mk(W)); for(int i=0;i<m;i++) for(int j=0;j<n;j++) e.push_back({rows[i],cols[j],(double)(int)V.at(i,j)}); for(int i=0;i<m;i++) for(int j=0;j<m;j++) e.push_back({idx[i],idx[j],(double)(int)W.at(i,j)}); converts(C,r,c,e,true,"integer conversion of block insertions"); COVER("end"); }
H(elimzero){ Lcg g(P(0)); int r=P(1),c=P(2),k=P(3); LilMatrix<double> C(r,c); std::vector<Ent> e; for(int q=0;q<k;q++) addOne(C,e,r,c,false,g); double tol=0; if(P(4)==0) C.EliminateZeros(); else { tol=SR("tol",0,64); C.EliminateZeros(tol); }
  std::vector<Ent> o; for(auto&x:e) if(__sym_fork(std::fabs(x.v)>tol)) o.push_back(x); converts(C,r,c,o,true,"entries above the tolerance"); COVER("end"); }
H(unsized){ Lcg g(P(0)); int k=P(1); LilMatrix<double> C; std::vector<Ent> e; int mr=0,mc=0; for(int q=0;q<k;q++){ addOne(C,e,P(2),P(3),false,g); mr=std::max(mr,e.back().i+1); mc=std::max(mc,e.back().j+1); } converts(C,mr,mc,e,true,"smallest size containing all entries"); C.SetSize(P(2)+1,P(3)+2); converts(C,P(2)+1,P(3)+2,e,true,"size set after the insertions"); C.Add(P(2),P(3)+1,2.0); e.push_back({P(2),P(3)+1,2.0}); converts(C,P(2)+1,P(3)+2,e,true,"insertion after the size was set"); COVER("end"); }
H(history){ Lcg g(P(0)); int n=P(1); LilMatrix<double> C(n,n); std::vector<Ent> e; for(int q=0;q<P(2);q++){ int op=g.next(5); switch(op){ case 0: case 1: { int i=g.next(n),j=g.next(n); bool seen=false; for(auto&x:e) seen|=(x.i==i&&x.j==j)||(x.i==j&&x.j==i); if(seen&&P(3)==0) break; double v=SR("v"); if(op==1){ C.AddSym(i,j,v); e.push_back({i,j,v}); if(i!=j) e.push_back({j,i,v}); } else { C.Add(i,j,v); e.push_back({i,j,v}); } break; } case 2: { int i=g.next(n),j=g.next(n); e.push_back({i,j,0.25*q}); C.Add(i,j,0.25*q); break; } case 3: { LilMatrix<double> D; D=C; swap(C,D); break; } case 4: { (void)C.ToSparse(); (void)C.ToDense(); break; } } } converts(C,n,n,e,true,"after a history of insertions and conversions"); COVER("end"); }
//@ run single 0 1..2 1..2 1..2 t=60
//@ run single 0 2 3 1 t=60
//@ run single S0..3 6 6 5 t=30
//@ run single_int 0 2 2 1 t=60
//@ run forms 0 2 2 1 2 t=60
//@ run forms 0 2 3 1 1 t=60
//@ run forms S0..3 6 7 2 2 t=60
//@ run forms_int 0 2 2 1 2 t=60
//@ run forms_int 1..6 5 4 3 4 t=60
//@ run elimzero 0 2 2 2 0..1 t=60
//@ run elimzero S0..1 5 5 4 0..1 t=60
//@ run unsized 0 0..2 2 3 t=60
//@ run unsized S0..3 5 7 6 t=60
//@ run history S0..7 6 9 0 t=60
//@ run history S0..3 5 5 1 t=60
// large shapes: concrete structure, symbolic values
//@ run single 1..2 40 30 100 t=60
//@ run history 8..11 20 40 0..1 t=60
//@ run unsized 1..2 60 20 33 t=60
//@ thorough single 0 3 3 2 t=800
//@ thorough forms 0 2 2 2 2 t=600
//@ thorough elimzero 0 2 3 3 0..1 t=600
//@ thorough unsized 0 3 3 3 t=600
//@ thorough history S10..40 9 14 0..1 t=60
//@ bounds every position of up to 4 insertions (single, symmetric and block forms) into matrices up to 2x3, all values symbolic
//@ bounds seeded insertion lists into up to 6x7 matrices with symbolic values; larger shapes (history, single, unsized): a concrete, seeded structure of tens to hundreds of rows and columns with every value symbolic
//@ outside setting a size smaller than the entries already inserted; larger dimensions
