// C20: block operators and block vectors
#include "lib.hpp"
#include "blockoperator.hpp"
#include "blockvector.hpp"
struct RefOp : public Operator { Ref R; mutable int n=0,nt=0; RefOp(){} explicit RefOp(const Ref&r):Operator(r.r,r.c),R(r){} using Operator::Mult; using Operator::MultAT;
  void Mult(const VectorView<double>&x,VectorView<double> y) const override { n++; CHECK(x.size()==R.c&&y.size()==R.r,"block applied to vectors of its size"); for(int i=0;i<R.r;i++){ double s=0; for(int j=0;j<R.c;j++) s+=R.at(i,j)*x[j]; y[i]=s; } }
  void MultAT(const VectorView<double>&x,VectorView<double> y) const override { nt++; CHECK(x.size()==R.r&&y.size()==R.c,"transposed block applied to vectors of its size"); for(int j=0;j<R.c;j++){ double s=0; for(int i=0;i<R.r;i++) s+=R.at(i,j)*x[i]; y[j]=s; } } };
static std::vector<int> offs(const char*n,int blocks,int mx,Lcg&g){ std::vector<int> o{0}; for(int i=0;i<blocks;i++) o.push_back(o.back()+(P(0)==0?CI(n,0,mx):g.next(mx+1))); return o; }
static void acts(const BlockOperator&B,const Ref&R,const char*m){ CHECK(B.Rows()==R.r&&B.Cols()==R.c,m); auto x=symVec("x",R.c); Vector<double> X=vec(x); Vector<double> y(R.r); for(auto&z:y) z=SR("junk"); B.Mult(static_cast<const VectorView<double>&>(X),static_cast<VectorView<double>&>(y)); eqVec(y,mul(R,x),m); auto u=symVec("u",R.r); Vector<double> U=vec(u); Vector<double> v(R.c); for(auto&z:v) z=SR("junk"); B.MultAT(static_cast<const VectorView<double>&>(U),static_cast<VectorView<double>&>(v)); eqVec(v,mul(R.t(),u),m); eqVec(X,x,"input unchanged"); eqVec(U,u,"input unchanged"); auto x2=symVec("w",R.c); Vector<double> X2=vec(x2); eqVec(B.Mult(X2),mul(R,x2),m); const Operator&O=B; Vector<double> y3(1,2.0); O.Mult(X,y3); eqVec(y3,mul(R,x),m); eqVec(O.MultAT(U),mul(R.t(),u),m); }
H(op){ Lcg g(P(0)*29+7); int rb=P(1),cb=P(2),mx=P(3); { auto ro=offs("ro",rb,mx,g),co=offs("co",cb,mx,g); BlockOperator B(ro,co); Ref R(ro.back(),co.back()); std::vector<RefOp> ops; ops.reserve(rb*cb+1); std::vector<const Operator*> want; for(int i=0;i<rb;i++) for(int j=0;j<cb;j++){ int r=ro[i+1]-ro[i],c=co[j+1]-co[j]; CHECK(B.GetBlock(i,j)==nullptr,"unset block"); want.push_back(nullptr); if(!(P(0)>=100?(int)(g.next(4)!=0):CI("set",0,1))) continue; Ref b=symRef("b",r,c); ops.emplace_back(b); B.SetBlock(i,j,ops.back()); want.back()=&ops.back(); for(int x=0;x<r;x++) for(int y=0;y<c;y++) R.at(ro[i]+x,co[j]+y)=b.at(x,y); }
  CHECK(B.GetRowOffsets()==ro&&B.GetColOffsets()==co,"offsets"); for(int i=0;i<rb;i++) for(int j=0;j<cb;j++) CHECK(B.GetBlock(i,j)==want[i*cb+j],"blocks are referenced"); acts(B,R,"block operator");
  BlockOperator C(B); acts(C,R,"copied block operator"); if(rb&&cb&&ops.size()){ Ref S(R); int r=ro[1],c=co[1]; Ref b=symRef("nb",r,c); RefOp o(b); C.SetBlock(0,0,o); for(int x=0;x<r;x++) for(int y=0;y<c;y++) S.at(x,y)=b.at(x,y); acts(C,S,"a block set again is replaced"); acts(B,R,"copies are independent"); BlockOperator D(std::move(C)); acts(D,S,"moved block operator"); CHECK(D.GetRowOffsets()==ro&&D.GetColOffsets()==co,"moved offsets"); swap(D,B); acts(B,S,"swapped block operator"); acts(D,R,"swapped block operator"); } } COVER("end"); }
H(alias){ { std::vector<int> o{0,P(1),P(1)+P(2)}; BlockOperator B(o); CHECK(B.Rows()==o[2]&&B.Cols()==o[2],"square operator"); Ref a=symRef("a",P(1),P(1)),d=symRef("d",P(2),P(2)); RefOp A(a),D(d); B.SetBlock(0,0,A); B.SetBlock(1,1,D); Ref R(o[2],o[2]); for(int i=0;i<P(1);i++) for(int j=0;j<P(1);j++) R.at(i,j)=a.at(i,j); for(int i=0;i<P(2);i++) for(int j=0;j<P(2);j++) R.at(P(1)+i,P(1)+j)=d.at(i,j); acts(B,R,"square operator"); if(P(1)){ A.R.at(0,0)=SR("new"); R.at(0,0)=A.R.at(0,0); acts(B,R,"blocks are used as they are at the time of application"); }
  BlockOperator inner(o); inner.SetBlock(0,0,A); std::vector<int> oo{0,o[2]}; BlockOperator outer(oo); outer.SetBlock(0,0,B); acts(outer,R,"nested operator"); } COVER("end"); }
template<class T> static void bv(){ Lcg g(3+P(0)); int n=P(1),mx=P(2); std::vector<int> o{0}; for(int i=0;i<n;i++) o.push_back(o.back()+(P(0)?(int)g.next(mx+1):CI("len",0,mx))); int N=o.back(); auto d=symVec<T>("d",N); { BlockVector<T> a(vec(d),o); CHECK(a.size()==N&&a.GetOffsets()==o,"shape"); for(int q=0;q<N;q++) CHECKEQ(a[q],d[q],"constructed from data"); const BlockVector<T>&k=a; std::vector<T> r=d;
  for(int b=0;b<n;b++){ VectorView<T> w=a.GetBlock(b); const VectorView<T>&kw=k.GetBlock(b); CHECK(w.size()==o[b+1]-o[b]&&kw.size()==w.size(),"block length"); for(int q=0;q<w.size();q++){ CHECK(&w[q]==&a[o[b]+q]&&&kw[q]==&a[o[b]+q],"the block view covers exactly its elements"); T v=SV<T>("w"); w[q]=v; r[o[b]+q]=v; } } for(int q=0;q<N;q++) CHECKEQ(a[q],r[q],"writes through block views are visible");
  BlockVector<T> c(a); CHECK(c.GetOffsets()==o&&c.size()==N,"copied shape"); for(int b=0;b<n;b++) c.GetBlock(b)=SV<T>("z"); for(int q=0;q<N;q++) CHECKEQ(a[q],r[q],"copies are independent"); std::vector<T> rc; for(int q=0;q<N;q++) rc.push_back(c[q]); BlockVector<T> e; CHECK(e.size()==0&&e.GetOffsets().size()==1,"default block vector"); e=a; CHECK(e.GetOffsets()==o&&e.size()==N,"assigned shape"); for(int q=0;q<N;q++) CHECKEQ(e[q],r[q],"assigned"); e.GetBlock(0)=T(1); for(int q=0;q<N;q++) CHECKEQ(a[q],r[q],"assigned copies are independent"); BlockVector<T> f(std::move(c)); CHECK(f.GetOffsets()==o&&f.size()==N,"moved shape"); for(int q=0;q<N;q++) CHECKEQ(f[q],rc[q],"moved"); for(int b=0;b<n;b++){ VectorView<T> w=f.GetBlock(b); for(int q=0;q<w.size();q++) CHECK(&w[q]==&f[o[b]+q],"block views of a moved vector"); } swap(f,a); for(int q=0;q<N;q++){ CHECKEQ(a[q],rc[q],"swapped"); CHECKEQ(f[q],r[q],"swapped"); } std::vector<int> o2{0,1}; BlockVector<T> g2(o2,T(4)); swap(g2,a); CHECK(a.GetOffsets()==o2&&a.size()==1&&g2.GetOffsets()==o&&g2.size()==N,"swapped shape"); CHECKEQ(a[0],T(4),"filled"); for(int q=0;q<N;q++) CHECKEQ(g2[q],rc[q],"swapped"); BlockVector<T> z(o); for(int q=0;q<N;q++) CHECKEQ(z[q],T(0),"sized block vectors are zero"); z=T(2); for(int q=0;q<N;q++) CHECKEQ(z[q],T(2),"scalar assignment"); } COVER("end"); }
// block vectors of equally many elements in other blocks replace each other completely
template<class T> static void bvs(){ int n=P(1),N=P(2); std::vector<int> o{0},p{0}; for(int i=0;i<n;i++){ o.push_back(i+1==n?N:CI("o",o.back(),N)); p.push_back(i+1==n?N:CI("p",p.back(),N)); } auto d=symVec<T>("d",N),e=symVec<T>("e",N); auto is=[&](BlockVector<T>&a,const std::vector<int>&w,const std::vector<T>&x,const char*m){ CHECK(a.GetOffsets()==w&&a.size()==N,m); for(int b=0;b<n;b++){ VectorView<T> v=a.GetBlock(b); CHECK(v.size()==w[b+1]-w[b],m); for(int q=0;q<v.size();q++) CHECKEQ(v[q],x[w[b]+q],m); } };
  { BlockVector<T> a(vec(d),o),b(vec(e),p); swap(a,b); is(a,p,e,"swapped with other blocks of the same total"); is(b,o,d,"swapped with other blocks of the same total"); a=b; is(a,o,d,"assigned over other blocks of the same total"); is(b,o,d,"source of an assignment"); } { BlockVector<T> a(vec(d),o),b(vec(e),p); a=std::move(b); is(a,p,e,"move-assigned over other blocks of the same total"); BlockVector<T> c(a); is(c,p,e,"copied"); a=BlockVector<T>(vec(d),o); is(a,o,d,"assigned from a temporary"); is(c,p,e,"copy unchanged"); } COVER("end"); }
H(bvsd){ bvs<double>(); } H(bvsi){ bvs<int>(); }
H(bvd){ bv<double>(); } H(bvi){ bv<int>(); }
//@ run op 0 1 2 1 t=60
//@ run op 1..3 2 2 2 t=60
//@ run op 4 1 3 2 t=60
//@ run op 5 3 1 2 t=60
//@ run op 6 3 3 1 t=100
//@ run alias 0 0..2 0..2 t=60
//@ run bvd 0 1..3 2 t=60
//@ run bvsd 0 1..3 0..3 t=60
//@ run bvsi 0 2 3 t=60
//@ run bvi 0 2 2 t=60
// large shapes: concrete structure, symbolic values
//@ run op 101..104 2,5 3,4 12 t=60
//@ run op 105 1,9 9,1 5 t=60
//@ run bvd 1..3 9 40 t=60
//@ run bvi 1..2 33 5 t=60
//@ run alias 0 17 20 t=60
//@ thorough op 7..20 3 3 2 t=400
//@ thorough op 0 2 2 1 t=400
//@ thorough op 0 2 2 2 t=800
//@ thorough bvd 0 4 2 t=200
//@ bounds grids of up to 3x3 operators (every subset set) with block sizes 0..2, block vectors of up to three blocks of 0..2 elements (thorough four), all contents symbolic; larger shapes (alias, bvd, bvi, op): a concrete, seeded structure of tens to hundreds of rows and columns with every value symbolic
//@ outside BlockOperator::Transpose (declared but not provided)
