// C19: block matrices
#include "lib.hpp"
#include <sstream>
struct Grid { std::vector<int> ro,co; Ref R; std::vector<std::vector<int>> set; std::vector<std::vector<Ref>> blk; };
static std::vector<int> offs(const char*n,int blocks,int mx,Lcg&g){ std::vector<int> o{0}; for(int i=0;i<blocks;i++) o.push_back(o.back()+(P(0)==0?CI(n,0,mx):g.next(mx+1))); return o; }
template<class T> static BlockMatrix<T> make(Grid&G,int rb,int cb,int mx,int per,Lcg&g,bool square=false){ G.ro=offs("ro",rb,mx,g); G.co=square?G.ro:offs("co",cb,mx,g); BlockMatrix<T> B=square?BlockMatrix<T>(G.ro):BlockMatrix<T>(G.ro,G.co); G.R=Ref(G.ro.back(),G.co.back()); G.set.assign(rb,std::vector<int>(cb,0)); G.blk.assign(rb,std::vector<Ref>(cb));
  for(int i=0;i<rb;i++) for(int j=0;j<cb;j++){ int r=G.ro[i+1]-G.ro[i],c=G.co[j+1]-G.co[j]; G.blk[i][j]=Ref(r,c); if(!(P(0)>=100?(int)(g.next(4)!=0):CI("set",0,1))) continue; G.set[i][j]=1; Lcg g2(P(0)*31+i*7+j); Csr<T> a=P(0)==0&&r*c<=2? symCsr<T>("b",r,c,per,DUP): rndCsr<T>("b",r,c,per,DUP,g2); B.SetBlock(i,j,mk(a)); G.blk[i][j]=a.ref(); for(int x=0;x<r;x++) for(int y=0;y<c;y++) G.R.at(G.ro[i]+x,G.co[j]+y)=G.blk[i][j].at(x,y); sameCsr(B.GetBlock(i,j),a,"the block that was set"); }
  return B; }
template<class T> static void acts(const BlockMatrix<T>&B,const Ref&R,const char*m){ CHECK(B.Rows()==R.r&&B.Cols()==R.c,m); auto x=symVec("x",R.c); Vector<double> X=vec(x); Vector<double> y(R.r); for(auto&z:y) z=SR("junk"); B.Mult(static_cast<const VectorView<double>&>(X),static_cast<VectorView<double>&>(y)); eqVec(y,mul(R,x),m); eqVec(B.Mult(X),mul(R,x),m); Vector<double> y3(2,3.0); B.Mult(X,y3); eqVec(y3,mul(R,x),m); auto u=symVec("u",R.r); Vector<double> U=vec(u); Vector<double> v(R.c); for(auto&z:v) z=SR("junk"); B.MultAT(static_cast<const VectorView<double>&>(U),static_cast<VectorView<double>&>(v)); eqVec(v,mul(R.t(),u),m); const Operator&O=B; eqVec(O.MultAT(U),mul(R.t(),u),m); eqVec(O.Mult(X),mul(R,x),m); eqVec(X,x,"input unchanged"); eqVec(U,u,"input unchanged"); }
template<class T> static void check(const BlockMatrix<T>&B,const Grid&G,const char*m){ CHECK(B.GetRowOffsets()==G.ro&&B.GetColOffsets()==G.co,"offsets"); int rb=(int)G.ro.size()-1,cb=(int)G.co.size()-1; SparseMatrix<T> S=B.Combine(); wellFormed(S,G.R.r,G.R.c,"combined matrix"); eqRef(refOf(S),G.R,"combined matrix"); acts(B,G.R,m); for(int i=0;i<rb;i++) for(int j=0;j<cb;j++) if(G.set[i][j]) eqRef(refOf(B.GetBlock(i,j)),G.blk[i][j],"block"); else CHECK(B.GetBlock(i,j).nnz()==0,"unset block is empty"); }
template<class T> static void trans(const BlockMatrix<T>&B,const Grid&G){ BlockMatrix<T> X=B.Transpose(); Grid H=G; std::swap(H.ro,H.co); H.R=G.R.t(); int rb=(int)H.ro.size()-1,cb=(int)H.co.size()-1; H.set.assign(rb,std::vector<int>(cb,0)); H.blk.assign(rb,std::vector<Ref>(cb)); for(int i=0;i<rb;i++) for(int j=0;j<cb;j++){ H.set[i][j]=G.set[j][i]; H.blk[i][j]=G.blk[j][i].t(); } check(X,H,"transpose"); BlockMatrix<T> Y=X.Transpose(); check(Y,G,"double transpose"); }
template<class T> static void all(){ Lcg g(P(0)*17+5); Grid G; { BlockMatrix<T> B=make<T>(G,P(1),P(2),P(3),P(4),g); check(B,G,"block matrix"); trans(B,G); check(B,G,"unchanged"); BlockMatrix<T> C(B); if(P(1)&&P(2)&&G.set[0][0]&&G.blk[0][0].r&&G.blk[0][0].c){ Csr<T> z; z.r=G.blk[0][0].r; z.c=G.blk[0][0].c; z.ptr.assign(z.r+1,1); z.ptr[0]=0; z.idx={z.c-1}; z.dat={T(3)}; C.SetBlock(0,0,mk(z)); check(B,G,"copies are independent"); Grid H=G; H.blk[0][0]=z.ref(); for(int x=0;x<z.r;x++) for(int y=0;y<z.c;y++) H.R.at(G.ro[0]+x,G.co[0]+y)=H.blk[0][0].at(x,y); check(C,H,"a block set again is replaced"); } BlockMatrix<T> D(std::move(C)); C=B; check(C,G,"assigned"); D=std::move(C); check(D,G,"moved"); swap(D,B); check(B,G,"swapped"); } COVER("end"); }
H(blockd){ all<double>(); } H(blocki){ all<int>(); }
H(square){ Lcg g(P(0)*13+1); Grid G; { BlockMatrix<double> B=make<double>(G,P(1),P(1),P(2),2,g,true); check(B,G,"square block matrix"); trans(B,G); } COVER("end"); }
H(none){ { BlockMatrix<double> B; CHECK(B.Rows()==0&&B.Cols()==0,"default"); SparseMatrix<double> S=B.Combine(); wellFormed(S,0,0,"default"); BlockMatrix<double> T=B.Transpose(); CHECK(T.Rows()==0&&T.Cols()==0,"default transposed"); } COVER("end"); }
//@ run blockd 1..4 2 2 2 2 t=120
//@ run blockd 0 1 2 1 1 t=60
//@ run blockd 5,6 1 3 2 2 t=60
//@ run blockd 7,8 3 1 2 2 t=60
//@ run blockd 9 3 3 1 1 t=120
//@ run blocki 1,2 2 2 2 2 t=120
//@ run square 0,1 2 2 t=60
//@ run none t=30
// large shapes: concrete structure, symbolic values
//@ run blockd 101..104 2,5 3 17 9 t=60
//@ run blocki 105..106 4 2 20 9 t=60
//@ run square 101..102 3 20 t=60
//@ run blockd 107 1,9 9,1 7 5 t=60
//@ thorough blockd 10..25 2 3 3 3 t=200
//@ thorough blockd 0 2 1 1 2 t=400
//@ thorough blocki 3..8 3 2 2 2 t=200
//@ thorough square 2..8 3 2 t=400
//@ bounds grids of up to 3x3 blocks (thorough 3x3 larger blocks), every subset of set blocks, block sizes 0..2 (thorough 3) with symbolic or sampled structure including duplicate and unsorted entries, all values symbolic; double and int element types; larger shapes (blockd, blocki, square): a concrete, seeded structure of tens to hundreds of rows and columns with every value symbolic
