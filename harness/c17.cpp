// C17: ownership of vectors, aliasing of views
#include "lib.hpp"
template<class T> static void same(Vector<T>&v,const std::vector<T>&r,const char*m){ const Vector<T>&k=v; int n=(int)r.size(); CHECK(v.size()==n&&(int)v.data().size()==n,m); CHECK(v.end()-v.begin()==n&&k.end()-k.begin()==n,"iteration covers the size"); if(n){ CHECK(v.begin()==v.data().data()&&k.begin()==v.data().data(),"the view points at the owned storage"); } for(int i=0;i<n;i++){ CHECKEQ(v[i],r[i],m); CHECKEQ(k[i],r[i],m); CHECK(&v[i]==v.begin()+i,"index and iteration agree"); } const VectorView<T>&w=v; CHECK(w.size()==n,m); }
template<class T> static void hist(){ int steps=P(1); Lcg g(P(0)*7+3); std::vector<T> ra=symVec<T>("a",P(2)),rb=symVec<T>("b",P(3)); { Vector<T> a(ra),b(vec(rb)); const char*M="the values of the history";
  for(int s=0;s<steps;s++){ int op=CI("op",0,15); switch(op){
    case 0: a=b; ra=rb; break;
    case 1: { Vector<T> c(b); a=std::move(c); ra=rb; break; }
    case 2: swap(a,b); std::swap(ra,rb); break;
    case 3: std::swap(a,b); std::swap(ra,rb); break;
    case 4: { Vector<T>&r=a; a=r; break; }
    case 5: { Vector<T> c(std::move(a)); a=b; same(c,ra,"moved construction"); ra=rb; break; }
    case 6: { int n=CI("n",0,3); a.SetSize(n); ra.resize(n,T(0)); for(int i=0;i<n;i++) if(i>=a.size()) break; break; }
    case 7: { int n=CI("n",0,3); T v=SV<T>("fill"); a.SetSize(n,v); ra.resize(n,v); break; }
    case 8: { if(!ra.size()) break; int i=CI("i",0,(int)ra.size()-1); T v=SV<T>("w"); a[i]=v; ra[i]=v; break; }
    case 9: { const VectorView<T>&w=b; a=w; ra=rb; break; }
    case 10: { T v=SV<T>("s"); a=v; for(auto&x:ra) x=v; break; }
    case 11: { Vector<T> c(a); same(c,ra,"copy construction"); T v=SV<T>("w"); c=v; same(a,ra,"writing to a copy leaves the source"); for(auto&x:ra) x=v; a=c; c.SetSize(c.size()+1); break; }
    case 12: { VectorView<T> w(b.begin(),b.size()); Vector<T> c(static_cast<const VectorView<T>&>(w)); same(c,rb,"construction from a view"); b=SV<T>("z"); std::vector<T> old=rb; for(int i=0;i<(int)rb.size();i++) rb[i]=b[i]; same(c,old,"the copy is independent of the view"); a=std::move(c); ra=old; break; }
    case 13: { if(ra.size()!=rb.size()) break; VectorView<T> w(a); w=b; ra=rb; break; }
    case 14: { Vector<T> c(ra.data(),(int)ra.size()); same(c,ra,"construction from an array"); b=c; rb=ra; break; }
    case 15: { VectorView<T> w(a.begin(),(int)ra.size()/2); a=static_cast<const VectorView<T>&>(Vector<T>(static_cast<const VectorView<T>&>(w))); ra.resize(ra.size()/2); break; } }
    same(a,ra,M); same(b,rb,M); } } COVER("end"); }
H(histd){ hist<double>(); } H(histi){ hist<int>(); }
H(make){ int n=P(1); { Vector<double> z(n); same(z,std::vector<double>(n,0.0),"sized vectors are zero"); double v=SR("v"); Vector<double> f(n,v); same(f,std::vector<double>(n,v),"filled vector"); Vector<double> e; same(e,std::vector<double>(),"default vector"); std::vector<double> s=symVec("s",n); Vector<double> o(s); same(o,s,"from a standard vector"); if(n){ s[0]=s[0]+1; double k=o[0]; CHECK(k!=s[0],"independent of its source"); } e=o; Vector<int> zi(n); same(zi,std::vector<int>(n,0),"sized integer vectors are zero"); const VectorView<double>&ov=o; Vector<double> c(ov); CHECK(n==0||c.begin()!=o.begin(),"a copy of a view owns its storage"); o=5.0; if(n){ CHECK(c[n-1]!=5.0||e[n-1]==5.0,"copies do not alias"); } } COVER("end"); }
H(views){ int n=P(1),off=P(2),len=P(3); std::vector<double> s=symVec("s",n),r=s; VectorView<double> w(s.data()+off,len); CHECK(w.size()==len&&w.begin()==s.data()+off&&w.end()==w.begin()+len,"extent of a view"); VectorView<double> u(w); CHECK(u.begin()==w.begin()&&u.size()==len,"a copied view aliases the same elements"); VectorView<double> t(std::move(u)); CHECK(t.begin()==w.begin()&&t.size()==len,"a moved view aliases the same elements"); VectorView<double> whole(s); CHECK(whole.size()==n&&(n==0||whole.begin()==s.data()),"view of a standard vector");
  for(int i=0;i<len;i++){ double v=SR("v"); t[i]=v; r[off+i]=v; CHECKEQ(w[i],v,"seen through every view"); } eqVec(s,r,"exactly the viewed elements change"); double v=SR("v"); w=v; for(int i=0;i<len;i++) r[off+i]=v; eqVec(s,r,"scalar assignment writes the viewed elements");
  auto q=symVec("q",len); Vector<double> V=vec(q); w=V; for(int i=0;i<len;i++) r[off+i]=q[i]; eqVec(s,r,"assigning a vector to a view writes through"); CHECK(w.begin()==s.data()+off,"the view still aliases its own elements"); eqVec(V,q,"source unchanged"); V=2.0; eqVec(s,r,"and stays independent of the source");
  { auto q2=symVec("q",len); const Vector<double> V2=vec(q2); w=V2; for(int i=0;i<len;i++) r[off+i]=q2[i]; eqVec(s,r,"assigning a constant vector writes through"); auto q3=symVec("q",len); w=VectorView<double>(q3); for(int i=0;i<len;i++) r[off+i]=q3[i]; eqVec(s,r,"assigning a temporary view writes through"); }
  { std::vector<double> s2=symVec("t",2); VectorView<double> x(s2); VectorView<double> y(w); swap(x,y); CHECK(y.begin()==s2.data()&&y.size()==2&&x.begin()==s.data()+off&&x.size()==len,"swapping views swaps what they alias"); eqVec(s,r,"and no elements"); } 
  { VectorView<double> d; CHECK(d.size()==0&&d.begin()==d.end(),"default view"); } COVER("end"); }
H(overlap){ int n=4; std::vector<double> s=symVec("s",n),r=s; Vector<double> a(s); int off=CI("off",0,3),len=CI("len",0,4); ASSUME(off+len<=n); VectorView<double> w(a.begin()+off,len); const VectorView<double>&k=w; Vector<double> b(k); a=k; CHECK(a.size()==len,"assigning a part of itself"); if(off==0) for(int i=0;i<len;i++) CHECKEQ(a[i],r[off+i],"leading part"); eqVec(b,std::vector<double>(r.begin()+off,r.begin()+off+len),"copy of a part"); COVER("end"); }
//@ run histd 0 2 0..2 0,2 t=120
//@ run histi 0 1 2 1 t=60
//@ run make 0 0..4 t=60
//@ run views 0 4 0..2 0..2 t=60
//@ run overlap t=60
// large shapes: concrete structure, symbolic values
//@ run make 0 17,70 t=60
//@ run views 0 70 20 30 t=60
//@ thorough histd 0 3 0..3 0..2 t=600
//@ thorough histi 0 2 0..3 0..2 t=400
//@ thorough histd 0 4 1 2 t=800
//@ bounds every history of two (thorough four) operations out of sixteen (copy, move, swap, self and scalar assignment, resizing with and without fill, writing, views) over two vectors of length up to 3; views of every extent of vectors up to length 4; all values symbolic; larger shapes (make, views): a concrete, seeded structure of tens to hundreds of rows and columns with every value symbolic
