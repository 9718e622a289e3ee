// C10: coordinate assembly
#include "asm.hpp"
template<class T> static void addOne(CooMatrix<T>&C,std::vector<Ent>&e,int r,int c,bool sym,Lcg&g){ int i=pick("i",r,g),j=pick("j",sym&&r<c?r:c,g); if(sym&&i>=c) i=0; T v=SV<T>("v"); if(sym){ C.AddSym(i,j,v); e.push_back({i,j,(double)v}); if(i!=j) e.push_back({j,i,(double)v}); } else { C.Add(i,j,v); e.push_back({i,j,(double)v}); } }
template<class T> static void singleT(){ Lcg g(P(0)); int r=P(1),c=P(2),k=P(3); CooMatrix<T> C(r,c); if(P(4)) C.Reserve(1); std::vector<Ent> e; for(int q=0;q<k;q++) addOne(C,e,r,c,false,g); converts(C,r,c,e,false,"conversion of single insertions"); addOne(C,e,r,c,true,g); converts(C,r,c,e,false,"conversion after a further symmetric insertion"); CooMatrix<T> D(C); addOne(D,e,r,c,false,g); converts(D,r,c,e,false,"copy extended"); __sym_log_i("nnz",D.ToSparse().nnz()); COVER("end"); }
H(single){ singleT<double>(); }
H(single_int){ singleT<int>(); }
H(forms){ Lcg g(P(0)); int r=P(1),c=P(2),m=P(3),n=P(4),form=P(5); CooMatrix<double> C(r,c); std::vector<Ent> e; double s=form%2?SR("scale"):1.0;
  C.Add(0,c-1,0.5); e.push_back({0,c-1,0.5});
  switch(form/2){
    case 0: { auto rows=pickList("r",m,r,g),cols=pickList("c",n,c,g); Ref V=symRef("v",m,n); DenseMatrix D=mk(V); if(form%2) C.Add(rows,cols,s,D); else C.Add(rows,cols,D); for(int i=0;i<m;i++) for(int j=0;j<n;j++) e.push_back({rows[i],cols[j],s*V.at(i,j)}); eqRef(refOf(D),V,"values unchanged"); break; }
    case 1: { auto idx=pickList("x",m,r<c?r:c,g); Ref V=symRef("v",m,m); if(form%2) C.Add(idx,s,mk(V)); else C.Add(idx,mk(V)); for(int i=0;i<m;i++) for(int j=0;j<m;j++) e.push_back({idx[i],idx[j],s*V.at(i,j)}); break; }
    case 2: { auto rows=pickList("r",m,r,g); int col=pick("c",c,g); auto v=symVec("v",m); Vector<double> V=vec(v); const VectorView<double>& W=V; if(form%2) C.Add(rows,col,s,W); else C.Add(rows,col,W); for(int i=0;i<m;i++) e.push_back({rows[i],col,s*v[i]}); break; }
    case 3: { int row=pick("r",r,g); auto cols=pickList("c",m,c,g); auto v=symVec("v",m); Vector<double> V=vec(v); const VectorView<double>& W=V; if(form%2) C.Add(row,cols,s,W); else C.Add(row,cols,W); for(int i=0;i<m;i++) e.push_back({row,cols[i],s*v[i]}); break; }
    case 4: { auto rows=pickList("r",m,r,g),cols=pickList("c",m,c,g); auto v=symVec("v",m); if(form%2) C.Add(rows,cols,s,v); else C.Add(rows,cols,v); for(int i=0;i<m;i++) e.push_back({rows[i],cols[i],s*v[i]}); break; }
    case 5: { auto rows=pickList("r",m,r,g),cols=pickList("c",m,c,g); auto v=symVec("v",m); Vector<double> V=vec(v); if(form%2) C.Add(rows,cols,s,V); else C.Add(rows,cols,V); for(int i=0;i<m;i++) e.push_back({rows[i],cols[i],s*v[i]}); break; }
  }
  converts(C,r,c,e,false,"conversion of block insertions"); __sym_log_i("nnz",C.ToSparse().nnz()); COVER("end"); }
// an integer matrix takes the integer part of every inserted value; the scale is applied before
H(forms_int){ Lcg g(P(0)*7+1); int r=P(1),c=P(2),m=P(3),n=P(4); CooMatrix<int> C(r,c); std::vector<Ent> e; int s=P(0)==0?CI("scale",-3,4):(int)g.next(9)-4; int k=SI("k",-50,50); C.Add(0,c-1,k); e.push_back({0,c-1,(double)k}); auto rows=pickList("r",m,r,g),cols=pickList("c",n,c,g); Ref V(m,n); for(auto&x:V.v) x=(g.next(65)-32)/4.0; DenseMatrix D=mk(V); C.Add(rows,cols,D); C.Add(rows,cols,s,D); for(int i=0;i<m;i++) for(int j=0;j<n;j++){ e.push_back({rows[i],cols[j],(double)(int)V.at(i,j)}); e.push_back({rows[i],cols[j],(double)(int)(s*V.at(i,j))}); } converts(C,r,c,e,false,"integer conversion of block insertions");
  { auto idx=pickList("x",m,r<c?r:c,g); Ref W(m,m); for(auto&x:W.v) x=(g.next(65)-32)/4.0; C.Add(idx,s,mk(W)); C.Add(idx,mk(W)); for(int i=0;i<m;i++) for(int j=0;j<m;j++){ e.push_back({idx[i],idx[j],(double)(int)(s*W.at(i,j))}); e.push_back({idx[i],idx[j],(double)(int)W.at(i,j)}); } auto v=symVec<int>("v",m); Vector<int> vv=vec(v); const VectorView<int>& w=vv; C.Add(rows,0,s,w); for(int i=0;i<m;i++) e.push_back({rows[i],0,(double)(s*v[i])}); C.Add(0,idx,w); for(int i=0;i<m;i++) e.push_back({0,idx[i],(double)v[i]}); } converts(C,r,c,e,false,"integer conversion of square blocks and vectors"); COVER("end"); }
static std::vector<int> permutation(const char*n,int k,Lcg&g){ std::vector<int> p; for(int j=0;j<k;j++){ int x; if(P(0)==0){ x=CI(n,0,k-1); for(int y:p) ASSUME(x!=y); } else { bool d; do { x=g.next(k); d=false; for(int y:p) d|=x==y; } while(d); } p.push_back(x); } return p; }
H(permute){ Lcg g(P(0)); int r=P(1),c=P(2),k=P(3); CooMatrix<double> C; if(P(4)==0) C.SetSize(r,c); std::vector<Ent> e; for(int q=0;q<k;q++) addOne(C,e,r,c,false,g); if(P(4)){ C.Add(r-1,c-1,1.0); e.push_back({r-1,c-1,1.0}); } auto pr=permutation("pr",r,g),pc=permutation("pc",c,g);
  auto mv=[&](const std::vector<Ent>&x,bool a,bool b){ std::vector<Ent> o=x; for(auto&t:o){ if(a) t.i=pr[t.i]; if(b) t.j=pc[t.j]; } return o; };
  { CooMatrix<double> D(C); D.PermuteRows(pr); if(P(4)) D.SetSize(r,c); converts(D,r,c,mv(e,true,false),false,"rows permuted"); } { CooMatrix<double> D(C); D.PermuteCols(pc); if(P(4)) D.SetSize(r,c); converts(D,r,c,mv(e,false,true),false,"columns permuted"); } { CooMatrix<double> D(C); D.PermuteRowsCols(pr,pc); if(P(4)) D.SetSize(r,c); converts(D,r,c,mv(e,true,true),false,"rows and columns permuted"); } COVER("end"); }
H(elimzero){ Lcg g(P(0)); int r=P(1),c=P(2),k=P(3); CooMatrix<double> C(r,c); std::vector<Ent> e; for(int q=0;q<k;q++) addOne(C,e,r,c,false,g); double tol=0; if(P(4)==0) C.EliminateZeros(); else { tol=SR("tol",0,64); if(P(4)==2) for(auto&x:e) ASSUME(std::fabs(x.v)!=tol); C.EliminateZeros(tol); }
  std::vector<Ent> o; for(auto&x:e) if(__sym_fork(std::fabs(x.v)>tol)) o.push_back(x); converts(C,r,c,o,false,"entries above the tolerance"); COVER("end"); }
H(unsized){ Lcg g(P(0)); int k=P(1); CooMatrix<double> C; std::vector<Ent> e; int mr=0,mc=0; for(int q=0;q<k;q++){ addOne(C,e,P(2),P(3),false,g); mr=std::max(mr,e.back().i+1); mc=std::max(mc,e.back().j+1); } converts(C,mr,mc,e,false,"smallest size containing all entries"); C.SetSize(P(2)+1,P(3)+2); converts(C,P(2)+1,P(3)+2,e,false,"size set after the insertions"); C.Add(P(2),P(3)+1,2.0); e.push_back({P(2),P(3)+1,2.0}); converts(C,P(2)+1,P(3)+2,e,false,"insertion after the size was set"); COVER("end"); }
H(history){ Lcg g(P(0)); int n=P(1); CooMatrix<double> C(n,n); std::vector<Ent> e; for(int q=0;q<P(2);q++){ int op=g.next(5); switch(op){ case 0: case 1: addOne(C,e,n,n,op==1,g); break; case 2: { auto rows=pickList("r",2,n,g),cols=pickList("c",3,n,g); Ref V=symRef("v",2,3); C.Add(rows,cols,mk(V)); for(int i=0;i<2;i++) for(int j=0;j<3;j++) e.push_back({rows[i],cols[j],V.at(i,j)}); break; } case 3: { CooMatrix<double> D; D=C; swap(C,D); break; } case 4: { (void)C.ToSparse(); (void)C.ToDense(); break; } } } converts(C,n,n,e,false,"after a history of insertions and conversions"); COVER("end"); }
//@ run single 0 1..2 1..2 1..2 0 t=60
//@ run single 0 2 3 1 1 t=60
//@ run single S0..3 5 4 9 0..1 t=30
//@ run single_int 0 2 2 1 0 t=60
//@ run single_int S0..1 5 4 9 0 t=30
//@ run forms 0 2 2 2 1 0..11 t=60
//@ run forms 0 2 3 1 2 0..11 t=60
//@ run forms S0..1 5 7 3 4 0..11 t=60
//@ run forms_int 0 2 2 1 2 t=60
//@ run forms_int 1..6 5 4 3 4 t=60
//@ run permute 0 2 2..3 1 0..1 t=60
//@ run permute S0..3 6 5 9 0..1 t=60
//@ run elimzero 0 2 2 2 0..2 t=60
//@ run elimzero S0 4 3 6 0..1 t=60
//@ run unsized 0 0..2 2 3 t=60
//@ run unsized S0..3 8 5 6 t=60
//@ run history S0..7 5 8 t=60
// large shapes: concrete structure, symbolic values
//@ run single 1..2 40 30 100 0..1 t=60
//@ run single_int 1..2 20 24 60 0 t=60
//@ run forms 1..2 20 30 6 9 0..11 t=60
//@ run permute 1..2 30 25 60 0..1 t=60
//@ run unsized 1..2 60 25 33 t=60
//@ run history 8..11 20 40 t=60
//@ thorough single 0 3 3 3 0 t=800
//@ thorough forms 0 3 3 2 2 0..11 t=600
//@ thorough permute 0 3 3 2 0 t=600
//@ thorough elimzero 0 2 3 3 0..2 t=600
//@ thorough unsized 0 3 3 3 t=600
//@ thorough history S10..40 7 14 t=60
//@ bounds every position of up to 4 insertions (single, symmetric, all 12 block and list forms) into matrices up to 2x3, all values and scales symbolic; every permutation of up to 3 columns
//@ bounds seeded insertion lists into up to 6x7 matrices (up to 14 entries) with symbolic values and scales; larger shapes (forms, history, permute, single, single_int, unsized): a concrete, seeded structure of tens to hundreds of rows and columns with every value symbolic
//@ outside the order of columns inside a converted row; setting a size smaller than the entries already inserted; larger dimensions
