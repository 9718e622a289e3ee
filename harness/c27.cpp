// C27: random fills, for every outcome of the random engine
#include "lib.hpp"
H(real){ int n=P(1),seeded=P(2); double lo=SR("lo"),hi=SR("hi"); ASSUME(lo<hi); { std::vector<double> h=symVec("h",n+2),k=h; VectorView<double> v(h.data()+1,n); Randomize(v,lo,hi,seeded?P(3):-1); CHECKEQ(h[0],k[0],"nothing before the vector is touched"); CHECKEQ(h[n+1],k[n+1],"nothing after the vector is touched"); for(int i=0;i<n;i++) CHECK(h[i+1]>=lo&&h[i+1]<=hi,"within the requested range"); } COVER("end"); }
H(ints){ int n=P(1),seeded=P(2); int lo=SI("lo",-5000,5000),hi=SI("hi",-5000,5000); ASSUME(lo<=hi); { std::vector<int> h=symVec<int>("h",n+2),k=h; VectorView<int> v(h.data()+1,n); Randomize(v,lo,hi,seeded?P(3):-1); CHECK(h[0]==k[0]&&h[n+1]==k[n+1],"nothing outside the vector is touched"); for(int i=0;i<n;i++) CHECK(h[i+1]>=lo&&h[i+1]<=hi,"within the requested range"); } COVER("end"); }
H(repeat){ int n=P(1),seed=P(2); { double lo=SR("lo"),hi=SR("hi"); ASSUME(lo<hi); Vector<double> a(n,5.0),b(n,-3.0),j(3); Randomize(a,lo,hi,seed); switch(P(3)){ case 1: Randomize(j,lo,hi); break; case 2: Randomize(j,lo,hi,seed); Randomize(j,lo,hi,seed+1); break; case 3: { Vector<int> q(2); Randomize(q,0,9,seed); Randomize(q,0,9); } } Randomize(b,lo,hi,seed); eqVec(a,dvec(b),"same seed, same vector");
  int l=SI("l",-50,50),u=SI("u",-50,50); ASSUME(l<=u); Vector<int> c(n,1),d(n,2); Randomize(c,l,u,seed); switch(P(3)){ case 1: Randomize(j,lo,hi); break; case 2: { Vector<int> q(3); Randomize(q,l,u,seed+1); break; } case 3: Randomize(j,lo,hi,seed); } Randomize(d,l,u,seed); for(int i=0;i<n;i++) CHECK(c[i]==d[i],"same seed, same vector"); } COVER("end"); }
H(member){ int n=P(1),seed=P(2); { int l=CI("l",-2,2),u=CI("u",-2,3); ASSUME(l<u); Vector<double> a(n,200.0),b(n,200.0); a.Randomize(l,u,seed); for(int i=0;i<n;i++) CHECK(a[i]>=l&&a[i]<=u,"member form: within the requested range"); Vector<int> c(n,200),d(n,200); c.Randomize(l,u,seed); for(int i=0;i<n;i++) CHECK(c[i]>=l&&c[i]<=u,"member form: within the requested range"); if(seed>=0){ b.Randomize(l,u,seed); eqVec(a,dvec(b),"member form: same seed, same vector"); Randomize(b,l,u,seed); eqVec(a,dvec(b),"member form agrees with the free form"); Randomize(d,l,u,seed); for(int i=0;i<n;i++) CHECK(c[i]==d[i],"member form agrees with the free form"); }
  Vector<double> e(n,7.0); e.Randomize(); for(int i=0;i<n;i++) CHECK(e[i]>=0.0&&e[i]<=1.0,"default range"); Vector<double> f(n,7.0); Randomize(f); for(int i=0;i<n;i++) CHECK(f[i]>=0.0&&f[i]<=1.0,"default range"); Vector<int> g(n,7); Randomize(g); for(int i=0;i<n;i++) CHECK(g[i]==0||g[i]==1,"default range"); } COVER("end"); }
//@ run real 0 0..4 0 0 t=60
//@ run real 0 0..4 1 0,1,7,2147483647 t=60
//@ run ints 0 0..4 0 0 t=60
//@ run ints 0 0..4 1 0,1,7,2147483647 t=60
//@ run repeat 0 0..4 0,1,12345 0..3 t=60
//@ run member 0 0..3 -1,0,5 t=60
// large shapes: concrete structure, symbolic values
//@ run real 0 16,32,64 0..1 7 t=60
//@ run ints 0 16,32,64 0..1 7 t=60
//@ run real 0 17,130 0..1 7 t=60
//@ run ints 0 17,130 0..1 7 t=60
//@ run repeat 0 33,100 0,1,12345 0..3 t=60
//@ run member 0 40 -1,0,5 t=60
//@ thorough real 0 5..12 0,1 3 t=200
//@ thorough ints 0 5..12 0,1 3 t=200
//@ thorough repeat 0 5..12 0,2147483646 0..3 t=200
//@ inc @stubs/rndmodel
//@ bounds vectors of up to 4 entries (thorough 12), every range, seeds 0, 1, 5, 7, 12345 and the largest, no seed, every sequence of engine outputs, other fills in between; larger shapes (ints, member, real, repeat): a concrete, seeded structure of tens to hundreds of rows and columns with every value symbolic
//@ assume the standard library's engines and distributions are a model: a seeded engine is a fixed unknown sequence of values, an unseeded one an arbitrary sequence
//@ outside the statistical quality of the numbers
