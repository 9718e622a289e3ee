// C31: the abstract operator interface
#include "lib.hpp"
#include "blockoperator.hpp"
#include "blockmatrix.hpp"
struct NoT : public Operator { Ref R; explicit NoT(const Ref&r):Operator(r.r,r.c),R(r){} using Operator::Mult;
  void Mult(const VectorView<double>&x,VectorView<double> y) const override { CHECK(x.size()==R.c&&y.size()==R.r,"applied to vectors of the operator's size"); for(int i=0;i<R.r;i++){ double s=0; for(int j=0;j<R.c;j++) s+=R.at(i,j)*x[j]; y[i]=s; } } };
struct Both : public NoT { using Operator::MultAT; explicit Both(const Ref&r):NoT(r){}
  void MultAT(const VectorView<double>&x,VectorView<double> y) const override { CHECK(x.size()==R.r&&y.size()==R.c,"transposed action applied to vectors of the operator's size"); for(int j=0;j<R.c;j++){ double s=0; for(int i=0;i<R.r;i++) s+=R.at(i,j)*x[i]; y[j]=s; } } };
static Vector<double> junk(int n){ Vector<double> v(n); for(auto&x:v) x=SR("junk"); return v; }
static void fwd(const Operator&A,const Ref&R,const char*m){ CHECK(A.Rows()==R.r&&A.Cols()==R.c,"dimensions"); auto x=symVec("x",R.c); Vector<double> X=vec(x); auto e=mul(R,x);
  { std::vector<double> h=symVec("h",R.r+2),k=h; VectorView<double> y(h.data()+1,R.r); A.Mult(X,y); for(int i=0;i<R.r;i++) k[i+1]=e[i]; eqVec(h,k,m); }
  for(int s: {0,R.r-1,R.r,R.r+2}) if(s>=0){ Vector<double> y=junk(s); A.Mult(X,y); eqVec(y,e,m); } { Vector<double> y=A.Mult(X); eqVec(y,e,m); } { Vector<double> y=junk(R.r); A.Mult(X,static_cast<VectorView<double>&>(y)); eqVec(y,e,m); }
  auto u=symVec("u",R.r); Vector<double> U=vec(u); double w=0; for(int i=0;i<R.r;i++) w+=u[i]*e[i]; CHECKEQ(A.InnerProduct(X,U),w,"y^T A x"); eqVec(X,x,"input unchanged"); eqVec(U,u,"input unchanged"); }
static void bwd(const Operator&A,const Ref&R,const char*m){ auto x=symVec("x",R.r); Vector<double> X=vec(x); auto e=mul(R.t(),x);
  { std::vector<double> h=symVec("h",R.c+2),k=h; VectorView<double> y(h.data()+1,R.c); A.MultAT(X,y); for(int i=0;i<R.c;i++) k[i+1]=e[i]; eqVec(h,k,m); }
  for(int s: {0,R.c-1,R.c,R.c+2}) if(s>=0){ Vector<double> y=junk(s); A.MultAT(X,y); eqVec(y,e,m); } { Vector<double> y=A.MultAT(X); eqVec(y,e,m); } eqVec(X,x,"input unchanged"); }
template<class T> static void all(const T&A,const Ref&R,const char*m){ fwd(A,R,m); bwd(A,R,m); }
static Ref blk(const Ref&R,int r0,int r1,int c0,int c1){ Ref o(r1-r0,c1-c0); for(int i=r0;i<r1;i++) for(int j=c0;j<c1;j++) o.at(i-r0,j-c0)=R.at(i,j); return o; }
static SparseMatrix<double> sp(const Ref&R){ std::vector<int> p{0},x; std::vector<double> d; for(int i=0;i<R.r;i++){ for(int j=0;j<R.c;j++){ x.push_back(j); d.push_back(R.at(i,j)); } p.push_back((int)x.size()); } return SparseMatrix<double>(p,x,d,R.r,R.c); }
H(kinds){ int r=P(1),c=P(2); { Ref R=symRef("a",r,c);
  all(Both(R),R,"user operator"); all(mk(R),R,"dense"); all(sp(R),R,"sparse"); { CooMatrix<double> C(r,c); for(int i=0;i<r;i++) for(int j=c-1;j>=0;j--) C.Add(i,j,R.at(i,j)); all(C,R,"coordinate"); } { LilMatrix<double> L(r,c); for(int i=0;i<r;i++) for(int j=c-1;j>=0;j--) L.Add(i,j,R.at(i,j)); all(L,R,"list of lists"); }
  int rm=r/2,cm=(c+1)/2; std::vector<int> ro{0,rm,r},co{0,cm,c}; Both a(blk(R,0,rm,0,cm)),b(blk(R,0,rm,cm,c)),d(blk(R,rm,r,0,cm)),e(blk(R,rm,r,cm,c)); BlockOperator B(ro,co); B.SetBlock(0,0,a); B.SetBlock(0,1,b); B.SetBlock(1,0,d); B.SetBlock(1,1,e); all(B,R,"block operator");
  BlockMatrix<double> M(ro,co); M.SetBlock(0,0,sp(a.R)); M.SetBlock(0,1,sp(b.R)); M.SetBlock(1,0,sp(d.R)); M.SetBlock(1,1,sp(e.R)); all(M,R,"block matrix"); BlockOperator O(std::vector<int>{0,r},std::vector<int>{0,c}); O.SetBlock(0,0,M); all(O,R,"nested"); } COVER("end"); }
H(noT){ int r=P(1),c=P(2); { Ref R=symRef("a",r,c); NoT A(R); fwd(A,R,"without transpose"); const Operator&O=A; auto x=symVec("x",r); Vector<double> X=vec(x); auto y0=symVec("y",c); Vector<double> Y=vec(y0); VectorView<double> y(Y); THROWS(O.MultAT(X,y),"transposed action that is not defined throws"); eqVec(Y,y0,"output untouched"); THROWS(O.MultAT(X),"transposed action that is not defined throws"); { Vector<double> z=junk(P(3)); THROWS(O.MultAT(X,z),"transposed action that is not defined throws"); } } COVER("end"); }
struct Dims : public Operator { Dims(){} explicit Dims(int n):Operator(n){} Dims(int r,int c):Operator(r,c){} Dims(const Dims&o):Operator(o){} Dims(Dims&&o):Operator(std::move(o)){} Dims& operator=(Dims&&o){ Operator::operator=(std::move(o)); return *this; } void Mult(const VectorView<double>&,VectorView<double>) const override {} };
H(dims){ int a=SI("a",0,1000),b=SI("b",0,1000),c=SI("c",0,1000),d=SI("d",0,1000); { Dims z; CHECK(z.Rows()==0&&z.Cols()==0,"default"); Dims s(a); CHECK(s.Rows()==a&&s.Cols()==a,"square"); Dims r(a,b); CHECK(r.Rows()==a&&r.Cols()==b,"rectangular"); Dims k(r); CHECK(k.Rows()==a&&k.Cols()==b&&r.Rows()==a&&r.Cols()==b,"copied"); Dims q(c,d); swap(static_cast<Operator&>(k),static_cast<Operator&>(q)); CHECK(k.Rows()==c&&k.Cols()==d&&q.Rows()==a&&q.Cols()==b,"swapped"); Dims m(std::move(k)); CHECK(m.Rows()==c&&m.Cols()==d,"moved"); Dims w(1,2); w=std::move(m); CHECK(w.Rows()==c&&w.Cols()==d,"assigned");
  int n=CI("n",0,4); std::vector<Dims> v; v.reserve(5); long sr=0,sc=0; for(int i=0;i<n;i++){ int x=SI("r",0,1000),y=SI("c",0,1000); v.emplace_back(x,y); sr+=x; sc+=y; } CHECK(SumRows(v)==sr,"rows totalled"); CHECK(SumCols(v)==sc,"columns totalled"); } COVER("end"); }
H(neg){ int a=SI("a",-5,5),b=SI("b",-5,5); auto f=[&]{ Dims z(a,b); (void)z; }; int t=TRY(f); CHECK((t!=0)==(a<0||b<0),"negative sizes are refused"); COVER("end"); }
//@ run kinds 0 0..3 0..3 t=60
//@ run noT 0 0..2 0..2 0..3 t=60
//@ run dims 0 t=60
//@ run neg 0 t=60
//@ thorough kinds 0 4,5 0..5 t=300
//@ thorough kinds 0 0..3 4,5 t=300
//@ bounds operators of up to 3x3 (thorough 5x5), every entry and vector symbolic, output vectors of smaller, equal and larger previous size, views inside longer arrays; lists of up to four operators of any size up to 1000
//@ outside iterative solvers used as operators (their in-place form starts from the output vector, see C24 and C25)
