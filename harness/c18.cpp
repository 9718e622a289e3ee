// C18: vector arithmetic and reductions
#include "lib.hpp"
#include <sstream>
typedef std::vector<double> D;
template<class F> static D map2(const D&a,const D&b,F f){ D r; for(size_t i=0;i<a.size();i++) r.push_back(f(a[i],b[i])); return r; }
template<class F> static D map1(const D&a,F f){ D r; for(double x:a) r.push_back(f(x)); return r; }
static double sum(const D&a){ double s=0; for(double x:a) s+=x; return s; }
static double dot(const D&a,const D&b){ double s=0; for(size_t i=0;i<a.size();i++) s+=a[i]*b[i]; return s; }
H(inplace){ int n=P(1); D a=symVec("a",n),b=symVec("b",n); double s=SR("s"); Vector<double> y=vec(b); const Vector<double>&Y=y;
  { Vector<double> x=vec(a); x+=Y; eqVec(x,map2(a,b,[](double p,double q){return p+q;}),"x += y"); } { Vector<double> x=vec(a); x-=Y; eqVec(x,map2(a,b,[](double p,double q){return p-q;}),"x -= y"); } { Vector<double> x=vec(a); x*=Y; eqVec(x,map2(a,b,[](double p,double q){return p*q;}),"x *= y"); }
  { Vector<double> x=vec(a); x*=s; eqVec(x,map1(a,[&](double p){return p*s;}),"x *= s"); } { Vector<double> x=vec(a); x+=s; eqVec(x,map1(a,[&](double p){return p+s;}),"x += s"); } { Vector<double> x=vec(a); x-=s; eqVec(x,map1(a,[&](double p){return p-s;}),"x -= s"); }
  { Vector<double> x=vec(a); auto&r=x.Add(s,Y); eqVec(x,map2(a,b,[&](double p,double q){return p+s*q;}),"x.Add(s, y)"); CHECK(&r==&x,"chains"); } { Vector<double> x=vec(a); x.Add(Y); eqVec(x,map2(a,b,[](double p,double q){return p+q;}),"x.Add(y)"); } { Vector<double> x=vec(a); x.Sub(s,Y); eqVec(x,map2(a,b,[&](double p,double q){return p-s*q;}),"x.Sub(s, y)"); } { Vector<double> x=vec(a); x.Sub(Y); eqVec(x,map2(a,b,[](double p,double q){return p-q;}),"x.Sub(y)"); }
  { Vector<double> x=vec(a); x.Set(s,Y); eqVec(x,map1(b,[&](double q){return s*q;}),"x.Set(s, y)"); } { Vector<double> x=vec(a); x.Set(Y); eqVec(x,b,"x.Set(y)"); CHECK(n==0||x.begin()!=y.begin(),"set copies"); } eqVec(y,b,"operand unchanged");
  { Vector<double> x=vec(a); const Vector<double>&X=x; x+=X; eqVec(x,map1(a,[](double p){return p+p;}),"x += x"); x-=X; eqVec(x,D(n,0.0),"x -= x"); } { Vector<double> x=vec(a); x.Add(s,x); eqVec(x,map1(a,[&](double p){return p+s*p;}),"x.Add(s, x)"); }
  { Vector<double> z(n,9.0); const Vector<double> x=vec(a); Add(x,Y,z); eqVec(z,map2(a,b,[](double p,double q){return p+q;}),"Add(x, y, z)"); Sub(x,Y,z); eqVec(z,map2(a,b,[](double p,double q){return p-q;}),"Sub(x, y, z)"); D c=symVec("c",n); Vector<double> w=vec(c); double al=SR("al"),be=SR("be"),ga=SR("ga"); Add(al,x,be,Y,ga,w); D e; for(int i=0;i<n;i++) e.push_back(al*a[i]+be*b[i]+ga*c[i]); eqVec(w,e,"Add(al, x, be, y, ga, z)"); eqVec(x,a,"operand unchanged"); } eqVec(y,b,"operand unchanged");
  { D whole=symVec("h",n+2),e=whole; VectorView<double> w(whole.data()+1,n); w+=Y; for(int i=0;i<n;i++) e[i+1]+=b[i]; eqVec(whole,e,"x += y on a view"); w*=s; for(int i=0;i<n;i++) e[i+1]*=s; eqVec(whole,e,"x *= s on a view"); } COVER("end"); }
H(divide){ int n=P(1); D a=symVec("a",n),b=symVec("b",n); double s=SR("s"); ASSUME(s>0.0||s<0.0); for(double q:b) ASSUME(q>0.0||q<0.0); Vector<double> y=vec(b); const Vector<double>&Y=y;
  { Vector<double> x=vec(a); x/=Y; eqVec(x,map2(a,b,[](double p,double q){return p/q;}),"x /= y"); } { Vector<double> x=vec(a); x/=s; eqVec(x,map1(a,[&](double p){return p/s;}),"x /= s"); } { const Vector<double> x=vec(a); eqVec(x/s,map1(a,[&](double p){return p/s;}),"x / s"); eqVec(x,a,"operand unchanged"); } eqVec(s/Y,map1(b,[&](double q){return s/q;}),"s / y"); eqVec(y,b,"operand unchanged"); COVER("end"); }
H(values){ int n=P(1); D a=symVec("a",n),b=symVec("b",n); double s=SR("s"); const Vector<double> x=vec(a),y=vec(b); eqVec(x+y,map2(a,b,[](double p,double q){return p+q;}),"x + y"); eqVec(x-y,map2(a,b,[](double p,double q){return p-q;}),"x - y"); eqVec(x*s,map1(a,[&](double p){return p*s;}),"x * s"); eqVec(s*x,map1(a,[&](double p){return p*s;}),"s * x");
  CHECKEQ(InnerProduct(x,y),dot(a,b),"inner product"); CHECKEQ(x*y,dot(a,b),"x * y"); CHECKEQ(x.Mult(y),dot(a,b),"x.Mult(y)"); CHECKEQ(x.Sum(),sum(a),"sum"); CHECKEQ(Sum(x),sum(a),"sum"); double l=L2Norm(x),l2=x.L2Norm(); CHECK(l>=0.0,"norm is nonnegative"); CHECKEQ(l*l,dot(a,a),"norm"); CHECKEQ(l2*l2,dot(a,a),"norm"); if(n) CHECKEQ(Mean(x)*n,sum(a),"mean");
  std::vector<int> ix; for(int q=0;q<P(2)&&n;q++) ix.push_back(SI("ix",0,n-1)); D e; for(int q:ix) e.push_back(a[q]); eqVec(x.GetSubVector(ix),e,"subvector"); Vector<double> u(5,3.0); x.GetSubVector(ix,u); eqVec(u,e,"subvector into a used vector"); eqVec(x,a,"operand unchanged"); eqVec(y,b,"operand unchanged"); COVER("end"); }
H(reduce){ int n=P(1); D a=symVec("a",n); const Vector<double> x=vec(a); double mx=Max(x),mn=Min(x),ax=AbsMax(x),an=AbsMin(x); bool fx=false,fn=false,gx=false,gn=false; for(double v:a){ double w=v<0?-v:v; CHECK(v<=mx,"maximum bounds"); CHECK(v>=mn,"minimum bounds"); CHECK(w<=ax,"absolute maximum bounds"); CHECK(w>=an,"absolute minimum bounds"); fx|=v==mx; fn|=v==mn; gx|=w==ax; gn|=w==an; } CHECK(fx,"maximum attained"); CHECK(fn,"minimum attained"); CHECK(gx,"absolute maximum attained"); CHECK(gn,"absolute minimum attained"); eqVec(x,a,"operand unchanged"); COVER("end"); }
// long reductions: one symbolic entry among concrete ones of both signs (P(2)=1: of one sign, P(2)=2: of the other)
H(extremes){ Lcg g(P(0)*31+13); int n=P(1); D a(n); for(auto&q:a){ q=(g.next(2001)-1000)/8.0; if(P(2)==1) q=std::fabs(q); if(P(2)==2) q=-std::fabs(q); } double x=SR("x"); int at=g.next(n); double s=0,mx=-1e9,mn=1e9,ax=-1,an=1e9; for(int k=0;k<n;k++) if(k!=at){ double v=a[k],w=std::fabs(v); s+=v; mx=std::max(mx,v); mn=std::min(mn,v); ax=std::max(ax,w); an=std::min(an,w); } a[at]=x; double w=x<0?-x:x; const Vector<double> y=vec(a); const VectorView<double>&v=y; double M=Max(v),m=Min(v),A=AbsMax(v),B=AbsMin(v);
  CHECK(M==(x>mx?x:mx),"largest entry"); CHECK(m==(x<mn?x:mn),"smallest entry"); CHECK(A==(w>ax?w:ax),"largest absolute entry"); CHECK(B==(w<an?w:an),"smallest absolute entry"); CHECKEQ(Sum(v),s+x,"sum"); CHECKEQ(Mean(v)*n,s+x,"mean"); { D b(a); b[at]=x+1.0; const Vector<double> z=vec(b); CHECK(!(y==z)&&!(z==y)&&y==y,"a difference anywhere is seen"); } COVER("end"); }
H(equal){ int n=P(1),m=P(2); D a=symVec("a",n),b=symVec("b",m); const Vector<double> x=vec(a),y=vec(b); bool r=x==y; if(n!=m) CHECK(!r,"different lengths are different"); else { bool far=false,near=true; for(int i=0;i<n;i++){ double d=a[i]-b[i]; if(d<0) d=-d; far|=d>2e-12; near&=d<=1e-13; } if(__sym_fork(far)) CHECK(!r,"different entries"); else if(__sym_fork(near)) CHECK(r,"equal entries"); } Vector<double> c(x); CHECK(c==x,"a copy is equal"); COVER("end"); }
H(norm){ int n=P(1); D a; for(int i=0;i<n;i++) a.push_back(SR("a")); double q=dot(a,a); ASSUME(q>0.0); Vector<double> x=vec(a),y=vec(a); Normalize(x); double l=L2Norm(vec(a)); for(int i=0;i<n;i++) CHECKEQ(x[i]*l,a[i],"normalised direction"); y.Normalize(); eqVec(y,dvec(x),"member form agrees"); COVER("end"); }
H(avg){ int n=P(1); D a=symVec("a",n); Vector<double> x=vec(a); SubAvg(x); for(int i=0;i<n;i++) CHECKEQ(x[i]*n,a[i]*n-sum(a),"mean removed"); COVER("end"); }
H(ints){ int n=P(1); auto a=symVec<int>("a",n),b=symVec<int>("b",n); int s=SI("s",-5,5); Vector<int> y=vec(b); const Vector<int>&Y=y; int t=0,d=0; for(int i=0;i<n;i++){ t+=a[i]; d+=a[i]*b[i]; } { Vector<int> x=vec(a); x+=Y; for(int i=0;i<n;i++) CHECK(x[i]==a[i]+b[i],"x += y"); } { Vector<int> x=vec(a); x-=Y; for(int i=0;i<n;i++) CHECK(x[i]==a[i]-b[i],"x -= y"); } { Vector<int> x=vec(a); x*=Y; for(int i=0;i<n;i++) CHECK(x[i]==a[i]*b[i],"x *= y"); } { Vector<int> x=vec(a); x*=s; for(int i=0;i<n;i++) CHECK(x[i]==a[i]*s,"x *= s"); x+=s; for(int i=0;i<n;i++) CHECK(x[i]==a[i]*s+s,"x += s"); }
  const Vector<int> X=vec(a); CHECK(X.Sum()==t&&Sum(X)==t,"sum"); CHECK(X.Mult(Y)==d,"inner product"); CHECKEQ(X*Y,d,"x * y"); if(n){ CHECKEQ(Mean(X)*n,t,"mean"); int mx=Max(X),mn=Min(X),ax=AbsMax(X),an=AbsMin(X); bool fx=false,fn=false,gx=false,gn=false; for(int v:a){ int w=v<0?-v:v; CHECK(v<=mx&&v>=mn&&w<=ax&&w>=an,"extrema bound"); fx|=v==mx; fn|=v==mn; gx|=w==ax; gn|=w==an; } CHECK(fx&&fn&&gx&&gn,"extrema attained"); } bool r=X==Y,e=true; for(int i=0;i<n;i++) e&=a[i]==b[i]; CHECK(r==e,"equality"); { Vector<double> x(n,1.5); x+=Y; for(int i=0;i<n;i++) CHECKEQ(x[i],1.5+b[i],"mixed types"); } COVER("end"); }
// integer vectors and fractional scales: the product is formed before it is stored
H(intfrac){ int n=P(1); static const double fs[]={2.5,0.5,-1.25,3.0}; double s=fs[P(2)]; auto a=symVec<int>("a",n),b=symVec<int>("b",n); Vector<int> y=vec(b); const Vector<int>&Y=y; { Vector<int> x=vec(a); x.Add(s,Y); for(int i=0;i<n;i++) CHECK(x[i]==(int)(a[i]+s*b[i]),"int x.Add(fraction, y)"); } { Vector<int> x=vec(a); x.Sub(s,Y); for(int i=0;i<n;i++) CHECK(x[i]==(int)(a[i]-s*b[i]),"int x.Sub(fraction, y)"); } { Vector<int> x=vec(a); x.Set(s,Y); for(int i=0;i<n;i++) CHECK(x[i]==(int)(s*b[i]),"int x.Set(fraction, y)"); } for(int i=0;i<n;i++) CHECK(y[i]==b[i],"operand unchanged"); COVER("end"); }
H(intdiv){ int n=P(1); static const int ds[]={1,2,-3,5}; auto a=symVec<int>("a",n); std::vector<int> b; for(int i=0;i<n;i++) b.push_back(ds[(i+P(2))%4]); int s=ds[P(2)]; Vector<int> y=vec(b); const Vector<int>&Y=y; { Vector<int> x=vec(a); x/=Y; for(int i=0;i<n;i++) CHECK(x[i]==a[i]/b[i],"int x /= y"); } { Vector<int> x=vec(a); x/=s; for(int i=0;i<n;i++) CHECK(x[i]==a[i]/s,"int x /= s"); x=vec(a); x-=s; for(int i=0;i<n;i++) CHECK(x[i]==a[i]-s,"int x -= s"); } { const Vector<int> x=vec(a); auto z=x/s; for(int i=0;i<n;i++) CHECK(z[i]==a[i]/s,"int x / s"); auto w=x+Y,v=x-Y; for(int i=0;i<n;i++) CHECK(w[i]==a[i]+b[i]&&v[i]==a[i]-b[i],"int sums"); double l=L2Norm(x); int q=0; for(int v:a) q+=v*v; CHECKEQ(l*l,q,"int norm"); std::vector<int> ix; for(int i=0;i<n;i++) ix.push_back(n-1-i); auto u=x.GetSubVector(ix); CHECK(u.size()==n,"int subvector"); for(int i=0;i<n;i++) CHECK(u[i]==a[n-1-i],"int subvector"); } COVER("end"); }
//@ run intfrac 0 0..1 0..3 t=60
//@ run intdiv 0 0..3 0..3 t=60
//@ run inplace 0 0..4 t=60
//@ run divide 0 0..3 t=60
//@ run values 0 0..4 0..3 t=60
//@ run reduce 0 1..4 t=60
//@ run equal 0 0..3 0..3 t=60
//@ run norm 0 1..3 t=60
//@ run avg 0 1..5 t=60
//@ run ints 0 0..2 t=100
// large shapes: concrete structure, symbolic values
//@ run inplace 0 8,16,32,64,128,256 t=60
//@ run divide 0 16,64 t=60
//@ run values 0 16,64 32 t=60
//@ run norm 0 16,32 t=60
//@ run avg 0 16,32,64 t=60
//@ run inplace 0 9,17,33,70,130 t=60
//@ run divide 0 17,33,70 t=60
//@ run values 0 17,70,130 33 t=60
//@ run norm 0 17,33 t=60
//@ run avg 0 17,33,70 t=60
//@ run extremes 1..4 5..20,33,64,65,130 0..2 t=60
//@ thorough inplace 0 5..8 t=200
//@ thorough values 0 5..7 4 t=200
//@ thorough reduce 0 5..7 t=400
//@ thorough equal 0 4..5 4..5 t=300
//@ thorough norm 0 4..6 t=200
//@ thorough ints 0 3 t=600
//@ bounds vectors of length up to 4 (thorough 8), all values symbolic reals; integer vectors with symbolic values in a small range; views inside longer arrays; aliased operands; larger shapes (avg, divide, extremes, inplace, norm, values): a concrete, seeded structure of tens to hundreds of rows and columns with every value symbolic
//@ outside division by zero entries, which the interface excludes; entries within 2e-12 of each other may compare either way
