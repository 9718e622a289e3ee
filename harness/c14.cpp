// C14: dense element access, arithmetic, reductions
#include "lib.hpp"
H(access){ Lcg g(P(0)*31+5); int r=P(1),c=P(2); std::vector<double> v((size_t)r*c); for(auto&x:v) x=SR("a"); DenseMatrix A(r,c,v); CHECK(A.Rows()==r&&A.Cols()==c,"shape"); const DenseMatrix&K=A; for(int i=0;i<r;i++) for(int j=0;j<c;j++){ CHECKEQ(A(i,j),v[i+(size_t)j*r],"column-major element"); CHECKEQ(K(i,j),v[i+(size_t)j*r],"column-major element, const"); CHECK(&A(i,j)==A.GetData()+i+j*r&&&K(i,j)==K.GetData()+i+j*r,"element address"); }
  std::vector<double> d(3,7.0); K.CopyData(d); eqVec(d,v,"copied data"); if(r&&c){ int i=P(0)?g.next(r):SI("i",0,r-1),j=P(0)?g.next(c):SI("j",0,c-1); double x=SR("x"); A(i,j)=x; for(int p=0;p<r;p++) for(int q=0;q<c;q++) CHECKEQ(A(p,q),(p==i&&q==j)?x:v[p+(size_t)q*r],"only the addressed element is written"); }
  DenseMatrix z(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) CHECKEQ(z(i,j),0.0,"zero initialised"); DenseMatrix s(r); CHECK(s.Rows()==r&&s.Cols()==r,"square"); for(int i=0;i<r*r;i++) CHECKEQ(s.GetData()[i],0.0,"zero initialised"); DenseMatrix e; CHECK(e.Rows()==0&&e.Cols()==0,"empty"); COVER("end"); }
H(arith){ int r=P(1),c=P(2); Ref RA=symRef("a",r,c),RB=symRef("b",r,c); DenseMatrix A=mk(RA),B=mk(RB); double s=SR("s"); ASSUME(s!=0); auto el=[&](int k){ Ref o(r,c); for(size_t i=0;i<o.v.size();i++) o.v[i]= k==0?RA.v[i]+RB.v[i]:k==1?RA.v[i]-RB.v[i]:k==2?RA.v[i]*s:k==3?RA.v[i]/s:s; return o; };
  eqRef(refOf(A+B),el(0),"A+B"); eqRef(refOf(A-B),el(1),"A-B"); eqRef(refOf(A*s),el(2),"A s"); eqRef(refOf(s*A),el(2),"s A"); eqRef(refOf(A/s),el(3),"A/s"); eqRef(refOf(A),RA,"operand unchanged"); eqRef(refOf(B),RB,"operand unchanged");
  { DenseMatrix C(A); DenseMatrix&q=(C+=B); CHECK(&q==&C,"self"); eqRef(refOf(C),el(0),"A+=B"); } { DenseMatrix C(A); DenseMatrix&q=(C-=B); CHECK(&q==&C,"self"); eqRef(refOf(C),el(1),"A-=B"); } { DenseMatrix C(A); DenseMatrix&q=(C*=s); CHECK(&q==&C,"self"); eqRef(refOf(C),el(2),"A*=s"); } { DenseMatrix C(A); DenseMatrix&q=(C/=s); CHECK(&q==&C,"self"); eqRef(refOf(C),el(3),"A/=s"); } { DenseMatrix C(A); DenseMatrix&q=(C=s); CHECK(&q==&C,"self"); eqRef(refOf(C),el(4),"A=s"); }
  { DenseMatrix C(A); C+=C; Ref t(r,c); for(size_t i=0;i<t.v.size();i++) t.v[i]=2*RA.v[i]; eqRef(refOf(C),t,"A+=A"); DenseMatrix D(A); D-=D; eqRef(refOf(D),Ref(r,c),"A-=A"); } eqRef(refOf(A),RA,"operand unchanged"); eqRef(refOf(B),RB,"operand unchanged");
  eqRef(refOf(A.Transpose()),RA.t(),"transpose"); { DenseMatrix u=junkDense(c+1,r+2); A.Transpose(u); eqRef(refOf(u),RA.t(),"transpose into a used matrix"); DenseMatrix w=junkDense(c,r); A.Transpose(w); eqRef(refOf(w),RA.t(),"transpose into a used matrix of the same shape"); } eqRef(refOf(A),RA,"operand unchanged"); if(r&&c) __sym_log_d("t",(A+B)(r-1,0)); COVER("end"); }
H(scale){ int r=P(1),c=P(2); Ref R=symRef("a",r,c); DenseMatrix A=mk(R); auto dr=symVec("dr",r),dc=symVec("dc",c); for(double x:dr) ASSUME(x!=0); for(double x:dc) ASSUME(x!=0); auto el=[&](int k){ Ref o(R); for(int i=0;i<r;i++) for(int j=0;j<c;j++){ double&x=o.at(i,j); x= k==0?x*dr[i]:k==1?x*dc[j]:k==2?x/dr[i]:x/dc[j]; } return o; };
  { DenseMatrix C(A); C.ScaleRows(dr); eqRef(refOf(C),el(0),"rows scaled"); } { DenseMatrix C(A); C.ScaleCols(dc); eqRef(refOf(C),el(1),"columns scaled"); } { DenseMatrix C(A); C.InverseScaleRows(dr); eqRef(refOf(C),el(2),"rows inversely scaled"); } { DenseMatrix C(A); C.InverseScaleCols(dc); eqRef(refOf(C),el(3),"columns inversely scaled"); } { DenseMatrix C(A); Vector<double> w=vec(dr); C.ScaleRows(w); eqRef(refOf(C),el(0),"rows scaled by a vector"); C=A; Vector<double> z=vec(dc); C.ScaleCols(z); eqRef(refOf(C),el(1),"columns scaled by a vector"); eqVec(w,dr,"scales unchanged"); eqVec(z,dc,"scales unchanged"); }
  if(r==c){ auto d=A.GetDiag(); CHECK((int)d.size()==r,"diagonal length"); for(int i=0;i<r;i++) CHECKEQ(d[i],R.at(i,i),"diagonal"); std::vector<double> e(r,3.0); A.GetDiag(e); for(int i=0;i<r;i++) CHECKEQ(e[i],R.at(i,i),"diagonal into a used array"); } eqRef(refOf(A),R,"unchanged"); COVER("end"); }
H(reduce){ int r=P(1),c=P(2); Ref R=symRef("a",r,c); DenseMatrix A=mk(R); double s=0; for(double x:R.v) s+=x; CHECKEQ(A.Sum(),s,"sum"); double mx=A.Max(),mn=A.Min(); bool hx=false,hn=false; for(double x:R.v){ CHECK(x<=mx&&x>=mn,"bounds"); hx=hx||__sym_fork(x==mx); hn=hn||__sym_fork(x==mn); } CHECK(hx&&hn,"attained"); eqRef(refOf(A),R,"unchanged"); __sym_log_d("max",mx); COVER("end"); }
// long reductions: one symbolic entry among concrete ones of both signs
H(extremes){ Lcg g(P(0)*31+13); int r=P(1),c=P(2); Ref R(r,c); for(auto&x:R.v) x=(g.next(2001)-1000)/8.0; double x=SR("x"); int at=g.next(r*c); double s=0,mx=-1e9,mn=1e9; for(int k=0;k<r*c;k++) if(k!=at){ s+=R.v[k]; mx=std::max(mx,R.v[k]); mn=std::min(mn,R.v[k]); } R.v[at]=x; DenseMatrix A=mk(R); CHECKEQ(A.Sum(),s+x,"sum"); double M=A.Max(),m=A.Min(); CHECK((M==x&&x>=mx)||(M==mx&&x<=mx),"largest entry"); CHECK((m==x&&x<=mn)||(m==mn&&x>=mn),"smallest entry"); COVER("end"); }
H(equal){ Lcg g(P(0)*31+7); int r=P(1),c=P(2); Ref RA=symRef("a",r,c); DenseMatrix A=mk(RA); CHECK(A==A,"reflexive"); DenseMatrix B(A); CHECK(A==B,"copy is equal"); if(r&&c){ int i=PK("i",0,r-1,g),j=PK("j",0,c-1,g); double d=SR("d"); B(i,j)=RA.at(i,j)+d; bool same=__sym_fork(std::fabs(d)<=1e-12); if(same) CHECK(A==B,"within the tolerance"); else { CHECK(!(A==B),"a difference anywhere is seen"); CHECK(!(B==A),"symmetric"); } } DenseMatrix C(r+1,c),D(r,c+1); CHECK(!(A==C)&&!(A==D)&&!(C==A),"different shapes differ"); if(r!=c&&r&&c){ DenseMatrix T(c,r); CHECK(!(A==T),"swapped shapes differ"); } COVER("end"); }
H(resize){ int r=P(1),c=P(2),r2=P(3),c2=P(4); Ref R=symRef("a",r,c); std::vector<double> flat; { DenseMatrix A=mk(R); for(int i=0;i<r*c;i++) flat.push_back(A.GetData()[i]); }
  { DenseMatrix A=mk(R); A.SetSize(r2,c2); CHECK(A.Rows()==r2&&A.Cols()==c2,"new shape"); for(int j=0;j<c2;j++) for(int i=0;i<r2;i++) A(i,j)=i+10*j; for(int j=0;j<c2;j++) for(int i=0;i<r2;i++) CHECKEQ(A(i,j),i+10*j,"usable after resizing"); }
  { DenseMatrix A=mk(R); double v=SR("v"); A.SetSize(r2,c2,v); CHECK(A.Rows()==r2&&A.Cols()==c2,"new shape"); for(int k=0;k<r2*c2;k++) CHECKEQ(A.GetData()[k],k<r*c?flat[k]:v,"kept and filled entries"); } { DenseMatrix A=mk(R); A.SetSize(r2); CHECK(A.Rows()==r2&&A.Cols()==r2,"square"); DenseMatrix B; double v=SR("w"); B.SetSize(r2,v); CHECK(B.Rows()==r2&&B.Cols()==r2,"square filled"); for(int k=0;k<r2*r2;k++) CHECKEQ(B.GetData()[k],v,"filled"); } COVER("end"); }
//@ run access 0 0..3 0..3 t=60
//@ run arith 0 0..3 0..3 t=60
//@ run scale 0 0..3 0..3 t=60
//@ run reduce 0 1..2 1..2 t=60
//@ run reduce 0 1,3 3,1 t=60
//@ run equal 0 0..2 0..3 t=60
//@ run equal 0 3 2 t=60
//@ run resize 0 0,2,3 0..2 0,1,3 0,2,3 t=60
//@ run arith 0 7 5 t=60
//@ run scale 0 7 5 t=60
// large shapes: concrete structure, symbolic values
//@ run arith 0 16,32 16,32,64 t=60
//@ run access 4 16,32 32 t=60
//@ run scale 0 16,32 16,64 t=60
//@ run equal 7..9 16,32 16,32 t=60
//@ run resize 0 16,32 16 32,64 16 t=60
//@ run access 1..3 33,20 20,35 t=60
//@ run arith 0 33,6,130 20,5 t=60
//@ run scale 0 33,20 20,33 t=60
//@ run scale 0 5,130 6 t=60
//@ run equal 1..6 17,40 9,33 t=60
//@ run resize 0 33,12 20 17,40 35,3 t=60
//@ run extremes 1..6 5,33 6,35 t=60
//@ thorough reduce 0 2 3 t=400
//@ thorough arith 0 1..9 1..9 t=100
//@ thorough scale 0 1..9 1..9 t=100
//@ thorough access 0 1..6 1..6 t=200
//@ bounds every shape with dimensions 0..3 (plus 7x5, thorough up to 9x9), all entries, scales and fill values symbolic, symbolic element index; extremes of up to 5 (thorough 6) entries; larger shapes (access, arith, equal, extremes, resize, scale): a concrete, seeded structure of tens to hundreds of rows and columns with every value symbolic
//@ outside rounding of sums; the value of entries after a resize without a fill value
