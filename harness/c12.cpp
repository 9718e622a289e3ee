// C12: assembly matrices act as the matrix they assemble
#include "asm.hpp"
template<class M> static void acts(const M&C,int r,int c,const std::vector<Ent>&e,const char*m){ Ref R=refEnt(r,c,e); auto xv=symVec("x",c); auto yv=symVec("y",r); Vector<double> x=vec(xv),y=vec(yv); auto ex=mul(R,xv); auto ey=mul(R.t(),yv);
  { Vector<double> o(r); for(int i=0;i<r;i++) o[i]=SR("junk"); VectorView<double> v(o); C.Mult(x,v); eqVec(o,ex,m); } { Vector<double> o(c); for(int i=0;i<c;i++) o[i]=SR("junk"); VectorView<double> v(o); C.MultAT(y,v); eqVec(o,ey,m); }
  const Operator&O=C; CHECK(O.Rows()==r&&O.Cols()==c,m); { Vector<double> o=O.Mult(x); eqVec(o,ex,m); Vector<double> t=O.MultAT(y); eqVec(t,ey,m); Vector<double> u(c+2); for(auto&z:u) z=SR("junk"); O.Mult(x,u); eqVec(u,ex,m); Vector<double> w(1); w[0]=SR("junk"); O.MultAT(y,w); eqVec(w,ey,m); double ip=0; for(int i=0;i<r;i++) ip+=yv[i]*ex[i]; CHECKEQ(O.InnerProduct(x,y),ip,m); }
  auto S=C.ToSparse(); Vector<double> s=S.Mult(x); eqVec(s,ex,m); Vector<double> t=S.MultAT(y); eqVec(t,ey,m); eqVec(x,xv,m); eqVec(y,yv,m); for(int i=0;i<r;i++) __sym_log_d("o",s[i]); }
template<class T,class M> static void go(bool sized){ Lcg g(P(0)); int r=P(1),c=P(2),k=P(3); M C; if(sized) C.SetSize(r,c); std::vector<Ent> e; int mr=0,mc=0; for(int q=0;q<k;q++){ int i=pick("i",r,g),j=pick("j",c,g); T v=SV<T>("v"); C.Add(i,j,v); e.push_back({i,j,(double)v}); mr=std::max(mr,i+1); mc=std::max(mc,j+1); } if(!sized){ r=mr; c=mc; } acts(C,r,c,e,"action of the assembled matrix"); if(k){ T v=SV<T>("v2"); C.AddSym(0,0,v); e.push_back({0,0,(double)v}); acts(C,r,c,e,"action after a further insertion"); } COVER("end"); }
H(coo){ go<double,CooMatrix<double>>(true); }
H(lil){ go<double,LilMatrix<double>>(true); }
H(coo_int){ go<int,CooMatrix<int>>(true); }
H(lil_int){ go<int,LilMatrix<int>>(true); }
H(coo_unsized){ go<double,CooMatrix<double>>(false); }
H(lil_unsized){ go<double,LilMatrix<double>>(false); }
//@ run coo 0 2 1..3 0..2 t=60
//@ run lil 0 2 1..3 0..2 t=60
//@ run coo 0 0 0..2 0 t=60
//@ run lil 0 0 0..2 0 t=60
//@ run coo 0 3 0 0 t=60
//@ run lil 0 3 0 0 t=60
//@ run coo S0..3 6 4 9 t=60
//@ run lil S0..3 4 8 4 t=60
//@ run coo_int 0 2 2 1 t=60
//@ run lil_int 0 2 2 1 t=60
//@ run coo_unsized 0 2 3 0..2 t=60
//@ run lil_unsized 0 2 3 0..2 t=60
// large shapes: concrete structure, symbolic values
//@ run coo 4..5 40 35 80 t=60
//@ run lil 4..5 40 35 80 t=60
//@ run coo_int 4 20 14 50 t=60
//@ run coo_unsized 4..5 20 14 40 t=60
//@ thorough coo 0 3 3 3 t=600
//@ thorough lil 0 3 3 3 t=600
//@ thorough coo S10..30 12 9 20 t=60
//@ thorough lil S10..30 12 15 12 t=60
//@ bounds every position of up to 3 insertions into matrices up to 2x3 (thorough 3x3, 4 insertions), zero dimensions, sizes set or inferred, all values and vectors symbolic
//@ bounds seeded insertion lists into up to 6x8 matrices (thorough 12x15); larger shapes (coo, coo_int, coo_unsized, lil): a concrete, seeded structure of tens to hundreds of rows and columns with every value symbolic
//@ outside larger dimensions; input and output vectors sharing storage
