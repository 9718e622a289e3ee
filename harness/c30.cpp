// C30: value semantics under copy, move, swap and assignment
#include "asm.hpp"
struct V { Ref R; std::vector<Ent> e; std::vector<int> ro,co; int sized,stored; V():sized(1),stored(0){} };
static Ref sized(const V&v){ int r=0,c=0; if(v.sized){ r=v.R.r; c=v.R.c; } else for(auto&x:v.e){ r=std::max(r,x.i+1); c=std::max(c,x.j+1); } return refEnt(r,c,v.e); }
template<class M> static void acts(const M&A,const Ref&R){ CHECK(A.Rows()==R.r&&A.Cols()==R.c,"dimensions"); std::vector<double> x(R.c),u(R.r); for(int i=0;i<R.c;i++) x[i]=1<<i; for(int i=0;i<R.r;i++) u[i]=1<<i; Vector<double> y=static_cast<const Operator&>(A).Mult(vec(x)); eqVec(y,mul(R,x),"acts as its value"); Vector<double> z=static_cast<const Operator&>(A).MultAT(vec(u)); eqVec(z,mul(R.t(),u),"acts transposed as its value"); }
template<class T> struct TSparse { typedef SparseMatrix<T> M; static M make(int id,V&v){ Lcg g(id*7+3); int r=id%4==3?0:1+id%3,c=id%4==2?0:1+(id+1)%3; Csr<T> a=rndCsr<T>("a",r,c,2,DUP,g); v.R=a.ref(); v.stored=a.idx.size(); return mk(a); }
  static void check(const M&A,const V&v){ wellFormed(A,v.R.r,v.R.c,"sparse value"); eqRef(refOf(A),v.R,"sparse value"); CHECK(A.nnz()==v.stored,"stored entries"); acts(A,v.R); }
  static void modify(M&A,V&v,int k){ if(k%3==0){ T s=2; A*=s; for(auto&x:v.R.v) x=2*x; } else if(k%3==1){ if(v.R.r){ A.EliminateRow(0); for(int j=0;j<v.R.c;j++) v.R.at(0,j)=0; } } else { Csr<T> a=csrOf(A); for(auto&x:A.GetData()) x=3; v.R=Ref(v.R.r,v.R.c); for(int i=0;i<a.r;i++) for(int j=a.ptr[i];j<a.ptr[i+1];j++) v.R.at(i,a.idx[j])+=3; } } };
struct TDense { typedef DenseMatrix M; static M make(int id,V&v){ v.R=symRef("a",id%4==3?0:1+id%3,id%4==2?0:1+(id+1)%3); return mk(v.R); } static void check(const M&A,const V&v){ CHECK(A.Rows()==v.R.r&&A.Cols()==v.R.c,"dimensions"); eqRef(refOf(A),v.R,"dense value"); for(int i=0;i<v.R.r;i++) for(int j=0;j<v.R.c;j++) CHECKEQ(A(i,j),v.R.at(i,j),"dense entry"); if(v.R.r&&v.R.c) acts(A,v.R); }
  static void modify(M&A,V&v,int k){ if(k%3==0){ A*=2.0; for(auto&x:v.R.v) x=2*x; } else if(k%3==1){ if(v.R.v.size()){ A(0,0)=5; v.R.at(0,0)=5; } } else { A.SetSize(2,3); A=1.5; v.R=Ref(2,3); for(auto&x:v.R.v) x=1.5; } } };
template<class M_> struct TAsm { typedef M_ M; static M make(int id,V&v){ v.sized=id%2; bool none=id%5==3; v.R=Ref(none?0:2,3+id%3); M C=v.sized?M(v.R.r,v.R.c):M(); Lcg g(id*5+1); int k=none?0:id%4; for(int q=0;q<k;q++) add(C,v,g.next(2),g.next(3)); return C; } static void add(M&C,V&v,int i,int j){ double x=SR("v"); C.Add(i,j,x); v.e.push_back({i,j,x}); }
  static void check(const M&C,const V&v){ Ref R=sized(v); CHECK(C.Rows()==R.r&&C.Cols()==R.c,"dimensions"); auto S=C.ToSparse(); wellFormed(S,R.r,R.c,"assembled value"); eqRef(refOf(S),R,"assembled value"); eqRef(refOf(C.ToDense()),R,"assembled value"); acts(C,R); }
  static void modify(M&C,V&v,int k){ if(v.sized&&v.R.r==0) return; if(k%3==0) add(C,v,1,2); else if(k%3==1) add(C,v,v.sized?0:3,v.sized?1:4); else { int r=1,c=1; for(auto&x:v.e){ r=std::max(r,x.i+1); c=std::max(c,x.j+1); } v.sized=1; v.R=Ref(r+1,c+2); C.SetSize(r+1,c+2); } } };
struct TBlock { typedef BlockMatrix<double> M; static M make(int id,V&v){ if(id%5==4){ v.ro={0}; v.co={0}; return M(); } v.ro={0,1+id%2,3}; v.co=id%2?std::vector<int>{0,2}:std::vector<int>{0,1,1,3}; M B(v.ro,v.co); v.R=Ref(v.ro.back(),v.co.back()); for(int q=0;q<id%3;q++) put(B,v,q%2,((int)v.co.size()-2)*(q%2)); return B; }
  static void put(M&B,V&v,int i,int j){ int r=v.ro[i+1]-v.ro[i],c=v.co[j+1]-v.co[j]; Csr<double> a; a.r=r; a.c=c; a.ptr.push_back(0); for(int x=0;x<r;x++){ for(int y=0;y<c;y++){ double z=SR("b"); a.idx.push_back(y); a.dat.push_back(z); v.R.at(v.ro[i]+x,v.co[j]+y)=z; } a.ptr.push_back(a.idx.size()); } B.SetBlock(i,j,mk(a)); }
  static void check(const M&B,const V&v){ CHECK(B.GetRowOffsets()==v.ro&&B.GetColOffsets()==v.co,"offsets"); SparseMatrix<double> S=B.Combine(); wellFormed(S,v.R.r,v.R.c,"combined value"); eqRef(refOf(S),v.R,"combined value"); acts(B,v.R); }
  static void modify(M&B,V&v,int k){ if(v.ro.size()>1) put(B,v,k%2,((int)v.co.size()-2)*(k%2)); } };
// histories over three objects: every known object keeps its own value
template<class T> static void history(int steps){ typedef typename T::M M; int seed=P(0); Lcg g(seed+1); { std::vector<M*> s; std::vector<V> v(3); std::vector<int> ok(3,1); for(int q=0;q<3;q++){ V w; M x=T::make(P(2)+q,w); s.push_back(new M(std::move(x))); v[q]=w; } for(int q=0;q<3;q++) T::check(*s[q],v[q]); V none; { M d; V w=v[0]; (void)w; }
  for(int t=0;t<steps;t++){ int op=seed==0?CI("op",0,7):g.next(8),x=seed==0?CI("x",0,2):g.next(3),y=seed==0?CI("y",0,2):g.next(3),touched=x; 
    switch(op){ case 0: if(!ok[y]) continue; *s[x]=*s[y]; v[x]=v[y]; ok[x]=1; break; case 1: if(x==y) continue; *s[x]=std::move(*s[y]); v[x]=v[y]; ok[x]=ok[y]; ok[y]=0; break; case 2: { swap(*s[x],*s[y]); V w=v[x]; v[x]=v[y]; v[y]=w; int k=ok[x]; ok[x]=ok[y]; ok[y]=k; break; }
      case 3: { if(!ok[y]) continue; M*c=new M(*s[y]); V w=v[y]; delete s[x]; s[x]=c; v[x]=w; ok[x]=1; break; } case 4: { M*c=new M(std::move(*s[y])); V w=v[y]; int k=ok[y]; ok[y]=0; delete s[x]; s[x]=c; v[x]=w; ok[x]=k; break; }
      case 5: if(!ok[x]) continue; T::modify(*s[x],v[x],y+t); break; case 6: { V w; M f=T::make(y+5,w); *s[x]=f; v[x]=w; ok[x]=1; break; } case 7: { V w; M f=T::make(y+2,w); *s[x]=M(std::move(f)); v[x]=w; ok[x]=1; f=*s[x]; if(t%2) T::modify(f,w,y); break; } }
    (void)touched; for(int q=0;q<3;q++) if(ok[q]) T::check(*s[q],v[q]); }
  const std::vector<M*>&cs=s; for(int q=0;q<3;q++) if(ok[q]){ const M copy(*cs[q]); if(q<2&&ok[q]) T::modify(*s[q],v[q],q); (void)copy; T::check(*s[q],v[q]); } for(auto*p:s) delete p; } COVER("end"); }
H(sparse){ history<TSparse<double>>(P(1)); } H(sparse_int){ history<TSparse<int>>(P(1)); } H(dense){ history<TDense>(P(1)); } H(coo){ history<TAsm<CooMatrix<double>>>(P(1)); } H(lil){ history<TAsm<LilMatrix<double>>>(P(1)); } H(block){ history<TBlock>(P(1)); }
// containers of matrices
template<class T> static void store(){ typedef typename T::M M; { std::vector<M> a; std::vector<V> v; for(int q=0;q<P(1);q++){ V w; M x=T::make(P(0)+q,w); if(q%2) a.push_back(x); else a.push_back(std::move(x)); v.push_back(w); } std::vector<M> b(a); for(int q=0;q<P(1);q++){ V w=v[q]; T::modify(b[q],w,q); T::check(b[q],w); T::check(a[q],v[q]); } a.erase(a.begin()); for(int q=1;q<P(1);q++) T::check(a[q-1],v[q]); std::reverse(a.begin(),a.end()); for(int q=1;q<P(1);q++) T::check(a[P(1)-1-q],v[q]); b=a; a.clear(); for(int q=1;q<P(1);q++) T::check(b[P(1)-1-q],v[q]); } COVER("end"); }
H(store_sparse){ store<TSparse<double>>(); } H(store_dense){ store<TDense>(); } H(store_coo){ store<TAsm<CooMatrix<double>>>(); } H(store_lil){ store<TAsm<LilMatrix<double>>>(); } H(store_block){ store<TBlock>(); }
//@ run sparse 0 1 0..3 t=90
//@ run dense 0 1 0..3 t=90
//@ run coo 0 1 0..4 t=90
//@ run lil 0 1 0..4 t=90
//@ run block 0 1 0..4 t=90
//@ run sparse 0 2 1 t=120
//@ run dense 0 2 0 t=120
//@ run coo 0 2 1 t=120
//@ run lil 0 2 0 t=120
//@ run block 0 2 1 t=120
//@ run sparse S0..5 7 0..2 t=60
//@ run sparse_int S0..5 7 0..2 t=60
//@ run dense S0..5 7 0..2 t=60
//@ run coo S0..5 7 0..2 t=60
//@ run lil S0..5 7 0..2 t=60
//@ run block S0..5 7 0..2 t=60
//@ run store_sparse 0..1 3 t=60
//@ run store_dense 0..1 3 t=60
//@ run store_coo 0..1 3 t=60
//@ run store_lil 0..1 3 t=60
//@ run store_block 0..1 3 t=60
//@ thorough sparse 0 3 1 t=800
//@ thorough dense 0 3 0 t=800
//@ thorough coo 0 3 1 t=800
//@ thorough lil 0 3 0 t=800
//@ thorough block 0 3 1 t=800
//@ thorough sparse S20..60 14 0..3 t=120
//@ thorough dense S20..60 14 0..3 t=120
//@ thorough coo S20..60 14 0..3 t=120
//@ thorough lil S20..60 14 0..3 t=120
//@ thorough block S20..60 14 0..4 t=120
//@ bounds every sequence of two (thorough three) copy, move, swap, assign, construct, modify and replace operations over three objects of each matrix type, seeded sequences of seven (thorough fourteen), values symbolic, shapes up to 3x3 including empty ones and assembly matrices without a set size; containers of matrices
//@ outside copying a moved-from object
