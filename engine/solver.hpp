// Model evaluation, path-sensitive ranges and the z3 back end.
#pragma once
#include "expr.hpp"
#include <chrono>
#include <iostream>
inline double nowSec(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Model { std::unordered_map<Expr*,uint64_t> bv; std::unordered_map<Atom*,Q> rv; };

struct Evaluator {
  Ctx& X; Model M; uint64_t epoch=1;
  std::vector<uint64_t> eEp,eV; std::vector<uint64_t> aEp; std::vector<Q> aV; std::vector<uint64_t> pEp; std::vector<Q> pV;
  Evaluator(Ctx&x):X(x){}
  void set(const Model&m){ M=m; epoch++; }
  static Q defaultReal(Atom*a){ if(a->k!=A_VAR) { uint32_t h=a->id*2654435761u; return Q((long)((h>>8)%64)+1,8); } uint32_t h=(a->id+7)*2654435761u; long n=(long)((h>>9)%200)-100; if(n==0) n=37; Q q(n,8); q.canonicalize(); if(std::isfinite(a->lo)&&q<Q(a->lo)) q=Q(a->lo); if(std::isfinite(a->hi)&&q>Q(a->hi)) q=Q(a->hi); return q; }
  Q real(Poly*p){ if(p->id<pEp.size()&&pEp[p->id]==epoch) return pV[p->id]; Q r(0); for(auto&t:p->t){ Q m=t.second; for(auto&f:t.first->f){ Q v=atom(f.first); int e=f.second; if(e<0){ if(v==0) v=0; else v=1/v; e=-e; } for(int i=0;i<e;i++) m*=v; } r+=m; }
    if(p->id>=pEp.size()){ pEp.resize(X.polys.size()+64,0); pV.resize(X.polys.size()+64);} pEp[p->id]=epoch; pV[p->id]=r; return r; }
  Q atom(Atom*a){ if(a->id<aEp.size()&&aEp[a->id]==epoch) return aV[a->id]; Q r; auto it=M.rv.find(a);
    switch(a->k){ case A_VAR: case A_UF: r= it!=M.rv.end()? it->second: defaultReal(a); break;
      case A_ITE: r= bv(a->cond)? real(a->t):real(a->f); break;
      case A_SQRT: { Q q=real(a->t); if(q<=0) r=0; else { mpz_class n=q.get_num(),d=q.get_den(); if(mpz_perfect_square_p(n.get_mpz_t())&&mpz_perfect_square_p(d.get_mpz_t())) r=Q(sqrt(n),sqrt(d)); else r=Q(std::sqrt(q.get_d())); } break; }
      case A_POLY: r=real(a->t); break;
      case A_SITOFP: r=Q((long)sextw(bv(a->cond),a->cond->w)); break; }
    if(a->id>=aEp.size()){ aEp.resize(X.atoms.size()+64,0); aV.resize(X.atoms.size()+64);} aEp[a->id]=epoch; aV[a->id]=r; return r; }
  uint64_t bv(Expr*e){ if(e->k==K_CONST) return e->imm; if(e->id<eEp.size()&&eEp[e->id]==epoch) return eV[e->id]; uint64_t r=0; unsigned w=e->w; uint64_t M64=maskw(w);
    switch(e->k){
      case K_VAR: { auto it=M.bv.find(e); r= it!=M.bv.end()? it->second : (uint64_t)(e->lo>0?e->lo:(e->hi<0?e->hi:0)); break; }
      case K_ADD: r=bv(e->a)+bv(e->b); break; case K_MUL: r=bv(e->a)*bv(e->b); break;
      case K_UDIV: { uint64_t y=bv(e->b); r= y? bv(e->a)/y : M64; break; } case K_UREM: { uint64_t y=bv(e->b); r= y? bv(e->a)%y: bv(e->a); break; }
      case K_SDIV: { int64_t x=sextw(bv(e->a),w),y=sextw(bv(e->b),w); r= y==0? (x<0?1:M64) : y==-1? (uint64_t)-x : (uint64_t)(x/y); break; }
      case K_SREM: { int64_t x=sextw(bv(e->a),w),y=sextw(bv(e->b),w); r= y==0? x : y==-1? 0 : (uint64_t)(x%y); break; }
      case K_AND: r=bv(e->a)&bv(e->b); break; case K_OR: r=bv(e->a)|bv(e->b); break; case K_XOR: r=bv(e->a)^bv(e->b); break;
      case K_SHL: { uint64_t s=bv(e->b); r= s>=w?0:bv(e->a)<<s; break; } case K_LSHR: { uint64_t s=bv(e->b); r= s>=w?0:bv(e->a)>>s; break; }
      case K_ASHR: { uint64_t s=bv(e->b); int64_t x=sextw(bv(e->a),w); r=(uint64_t)(x>>(s>=w?w-1:s)); break; }
      case K_EQ: r=bv(e->a)==bv(e->b); break; case K_ULT: r=bv(e->a)<bv(e->b); break; case K_ULE: r=bv(e->a)<=bv(e->b); break;
      case K_SLT: r=sextw(bv(e->a),e->a->w)<sextw(bv(e->b),e->a->w); break; case K_SLE: r=sextw(bv(e->a),e->a->w)<=sextw(bv(e->b),e->a->w); break;
      case K_ITE: r= bv(e->a)? bv(e->b):bv(e->c); break; case K_ZEXT: r=bv(e->a); break; case K_SEXT: r=(uint64_t)sextw(bv(e->a),e->a->w); break;
      case K_EXTRACT: r=bv(e->a)>>e->imm; break; case K_CONCAT: r=(bv(e->a)<<e->b->w)|bv(e->b); break;
      case K_REQ0: r= real(e->p)==0; break; case K_RLT0: r= real(e->p)<0; break; case K_RLE0: r= real(e->p)<=0; break;
      default: r=0; }
    r&=M64; if(e->id>=eEp.size()){ eEp.resize(X.all.size()+256,0); eV.resize(X.all.size()+256);} eEp[e->id]=epoch; eV[e->id]=r; return r; }
};

struct PathRanges { Ctx& X; std::unordered_map<Expr*,std::pair<int64_t,int64_t>> nar; std::unordered_map<Expr*,bool> decided; uint64_t epoch=1; std::vector<uint64_t> ep; std::vector<std::pair<int64_t,int64_t>> v;
  PathRanges(Ctx&x):X(x){}
  void reset(){ nar.clear(); decided.clear(); epoch++; }
  void get(Expr*e,int64_t&lo,int64_t&hi){ if(e->k==K_CONST||e->lo==e->hi||(nar.empty()&&decided.empty())){lo=e->lo;hi=e->hi;return;} if(e->id<ep.size()&&ep[e->id]==epoch){ lo=v[e->id].first;hi=v[e->id].second;return; }
    lo=e->lo;hi=e->hi; int64_t l=lo,h=hi; if(e->k!=K_VAR&&e->k!=K_REAL&&e->k!=K_UNDEF) X.computeRange(e,l,h,[this](Expr*x,int64_t&a,int64_t&b){get(x,a,b);}); lo=std::max(lo,l);hi=std::min(hi,h);
    auto it=nar.find(e); if(it!=nar.end()){ lo=std::max(lo,it->second.first);hi=std::min(hi,it->second.second);} if(e->w==1){ auto d=decided.find(e); if(d!=decided.end()) lo=hi=d->second?-1:0; }
    if(lo>hi) { lo=e->lo;hi=e->hi; }
    if(e->id>=ep.size()){ ep.resize(X.all.size()+256,0); v.resize(X.all.size()+256);} ep[e->id]=epoch; v[e->id]={lo,hi}; }
  void narrow(Expr*e,int64_t lo,int64_t hi){ if(e->k==K_CONST) return; auto it=nar.find(e); if(it!=nar.end()){ lo=std::max(lo,it->second.first);hi=std::min(hi,it->second.second);} nar[e]={lo,hi}; epoch++;
    // push down through simple injective wrappers
    if(e->k==K_SEXT) { int64_t fl,fh; Ctx::fullRange(e->a->w,fl,fh); narrow(e->a,std::max(lo,fl),std::min(hi,fh)); }
    else if(e->k==K_ZEXT&&e->a->w>1&&e->a->lo>=0){ narrow(e->a,std::max<int64_t>(lo,0),hi); }
    else if(e->k==K_ADD&&e->b->k==K_CONST){ Ctx::Lin L; X.lin(e,1,L); int64_t l,h; if(X.noOvf(L,e->w,l,h)){ int64_t c=sextw(e->b->imm,e->w); __int128 nl=(__int128)lo-c,nh=(__int128)hi-c; if(nl<INT64_MIN) nl=INT64_MIN; if(nh>INT64_MAX) nh=INT64_MAX; narrow(e->a,(int64_t)nl,(int64_t)nh);} }
    else if(e->k==K_MUL&&e->b->k==K_CONST){ Ctx::Lin L; X.lin(e,1,L); int64_t l,h; int64_t c=sextw(e->b->imm,e->w); if(c>0&&X.noOvf(L,e->w,l,h)){ auto fd=[](int64_t p,int64_t q){int64_t d=p/q; if((p%q)&&((p<0)!=(q<0))) d--; return d;}; narrow(e->a,-fd(-lo,c),fd(hi,c)); } }
  }
  void assume(Expr*c,bool val){
    decided[c]=val; epoch++;
    if(c->k==K_XOR&&c->w==1&&c->b->k==K_CONST){ assume(c->a,!val); return; }
    if(c->k==K_AND&&c->w==1&&val){ assume(c->a,true);assume(c->b,true);return; }
    if(c->k==K_OR&&c->w==1&&!val){ assume(c->a,false);assume(c->b,false);return; }
    if(c->k==K_EQ){ int64_t l,h; if(c->b->k==K_CONST){ int64_t v0=sextw(c->b->imm,c->b->w); if(val) narrow(c->a,v0,v0); else { get(c->a,l,h); if(l==v0) narrow(c->a,l+1,h); else if(h==v0) narrow(c->a,l,h-1);} } else if(val){ int64_t l2,h2; get(c->a,l,h);get(c->b,l2,h2); narrow(c->a,l2,h2); narrow(c->b,l,h);} }
    else if(c->k==K_SLT||c->k==K_SLE){ bool strict=(c->k==K_SLT); Expr*a=c->a,*b=c->b; if(!val){ std::swap(a,b); strict=!strict; } int64_t al,ah,bl,bh; get(a,al,ah);get(b,bl,bh); int64_t d=strict?1:0; if(bh-d<ah&&bh!=INT64_MIN) narrow(a,al,bh-d); if(al+d>bl&&al!=INT64_MAX) narrow(b,al+d,bh); }
    else if(c->k==K_ULT||c->k==K_ULE){ bool strict=(c->k==K_ULT); Expr*a=c->a,*b=c->b; if(!val){ std::swap(a,b); strict=!strict; } int64_t al,ah,bl,bh; get(a,al,ah);get(b,bl,bh); if(bl>=0){ int64_t d=strict?1:0; narrow(a,std::max<int64_t>(al,0),bh-d);} }
  }
};

struct SolverStats { uint64_t queries=0,sat=0,unsat=0,unknown=0,refined=0,maxms=0; double time=0; };

struct Solver {
  Ctx& X; z3::context z; z3::solver s; SolverStats st; unsigned timeoutMs=8000;
  std::vector<std::unique_ptr<z3::expr>> ze; std::vector<std::unique_ptr<z3::expr>> za; std::vector<std::unique_ptr<z3::expr>> zm; std::vector<std::unique_ptr<z3::expr>> zp;
  struct Lit { Expr*e; bool v; bool operator==(const Lit&o)const{return e==o.e&&v==o.v;} };
  std::vector<Lit> asserted; // solver content, one push level each
  std::vector<int> eLev,aLev,mLev; // level at which node axioms were asserted (0 = not)
  std::vector<std::vector<int>> undoE,undoA,undoM; // per level
  std::string dumpDir; int dumpN=0, dumpMax=0;
  Solver(Ctx&x):X(x),s(z){ z3::params p(z); p.set("timeout",timeoutMs); s.set(p); undoE.resize(1);undoA.resize(1);undoM.resize(1); }
  template<class V> static void grow(V&v,size_t n){ if(v.size()<=n) v.resize(n+n/2+64); }
  z3::expr num(const Q&q){ return z.real_val(q.get_str().c_str()); }
  z3::expr tm(Mono*m){ grow(zm,m->id); if(zm[m->id]) return *zm[m->id]; z3::expr r=z.real_val(1);
    if(m->f.empty()){} else if(Atom*a=m->single()) r=ta(a); else r=z.real_const(("m!"+std::to_string(m->id)).c_str());
    grow(zm,m->id); zm[m->id].reset(new z3::expr(r)); return r; }
  z3::expr tp(Poly*p){ grow(zp,p->id); if(zp[p->id]) return *zp[p->id]; z3::expr_vector v(z); for(auto&t:p->t){ if(t.first->f.empty()) v.push_back(num(t.second)); else if(t.second==1) v.push_back(tm(t.first)); else v.push_back(num(t.second)*tm(t.first)); } z3::expr r= v.empty()? z.real_val(0) : v.size()==1? v[0] : z3::sum(v); grow(zp,p->id); zp[p->id].reset(new z3::expr(r)); return r; }
  z3::expr ta(Atom*a){ grow(za,a->id); if(za[a->id]) return *za[a->id]; z3::expr r=z.real_val(0);
    switch(a->k){ case A_VAR: r=z.real_const(("r!"+std::to_string(a->id)+"!"+a->name).c_str()); break; case A_ITE: r=z3::ite(tb(a->cond),tp(a->t),tp(a->f)); break;
      case A_SITOFP: { z3::expr e=tb(a->cond); unsigned w=a->cond->w; z3::expr u=z3::to_real(z3::bv2int(e,true)); (void)w; r=u; break; }
      case A_POLY: r=tp(a->t); break;
      default: r=z.real_const(("a!"+std::to_string(a->id)).c_str()); }
    grow(za,a->id); za[a->id].reset(new z3::expr(r)); return r; }
  // width-1 expressions are z3 Bool
  z3::expr tb(Expr*e){ grow(ze,e->id); if(ze[e->id]) return *ze[e->id]; z3::expr r=z.bool_val(true); unsigned w=e->w; bool B=w==1;
    auto a=[&]{return tb(e->a);}; auto b=[&]{return tb(e->b);};
    switch(e->k){
      case K_CONST: r= B? z.bool_val(e->imm!=0): z.bv_val((uint64_t)e->imm,w); break;
      case K_VAR: r= B? z.bool_const(("b!"+*e->name).c_str()): z.bv_const(("v!"+*e->name).c_str(),w); break;
      case K_ADD: r=a()+b(); break; case K_MUL: r=a()*b(); break; case K_UDIV: r=z3::udiv(a(),b()); break; case K_SDIV: r=a()/b(); break; case K_UREM: r=z3::urem(a(),b()); break; case K_SREM: r=z3::srem(a(),b()); break;
      case K_AND: r= B? (a()&&b()) : (a()&b()); break; case K_OR: r= B? (a()||b()):(a()|b()); break; case K_XOR: r= B? (e->b->k==K_CONST? !a() : (a()!=b())) : (a()^b()); break;
      case K_SHL: r=z3::shl(a(),b()); break; case K_LSHR: r=z3::lshr(a(),b()); break; case K_ASHR: r=z3::ashr(a(),b()); break;
      case K_EQ: r=(a()==b()); break; case K_ULT: r=z3::ult(a(),b()); break; case K_ULE: r=z3::ule(a(),b()); break; case K_SLT: r=z3::slt(a(),b()); break; case K_SLE: r=z3::sle(a(),b()); break;
      case K_ITE: r=z3::ite(a(),b(),tb(e->c)); break;
      case K_ZEXT: r= e->a->w==1? z3::ite(a(),z.bv_val(1,w),z.bv_val(0,w)) : z3::zext(a(),w-e->a->w); break;
      case K_SEXT: r= e->a->w==1? z3::ite(a(),z.bv_val((uint64_t)maskw(w),w),z.bv_val(0,w)) : z3::sext(a(),w-e->a->w); break;
      case K_EXTRACT: { z3::expr x=a(); if(B) r= x.extract(e->imm,e->imm)==z.bv_val(1,1); else r=x.extract(e->imm+w-1,e->imm); break; }
      case K_CONCAT: { z3::expr p=e->a->w==1? z3::ite(a(),z.bv_val(1,1),z.bv_val(0,1)):a(); z3::expr q=e->b->w==1? z3::ite(b(),z.bv_val(1,1),z.bv_val(0,1)):b(); r=z3::concat(p,q); break; }
      case K_REQ0: r= tp(e->p)==0; break; case K_RLT0: r= tp(e->p)<0; break; case K_RLE0: r= tp(e->p)<=0; break;
      default: throw std::runtime_error("translate: bad kind"); }
    grow(ze,e->id); ze[e->id].reset(new z3::expr(r)); return r; }
  // ---- axioms: visit leaves once per assertion-stack lifetime
  struct Ax { std::vector<z3::expr> v; };
  void leafAxiomsE(Expr*e,int lev,std::vector<z3::expr>&out){ grow(eLev,e->id); if(eLev[e->id]) return; eLev[e->id]=lev+1; undoE[lev].push_back(e->id);
    if(e->k==K_VAR){ int64_t fl,fh; Ctx::fullRange(e->w,fl,fh); if(e->w>1&&(e->lo>fl||e->hi<fh)){ z3::expr x=tb(e); out.push_back(z3::sle(z.bv_val((int64_t)e->lo,e->w),x)); out.push_back(z3::sle(x,z.bv_val((int64_t)e->hi,e->w))); } return; }
    if(e->a) leafAxiomsE(e->a,lev,out); if(e->b) leafAxiomsE(e->b,lev,out); if(e->c) leafAxiomsE(e->c,lev,out); if(e->p) leafAxiomsP(e->p,lev,out); }
  void leafAxiomsP(Poly*p,int lev,std::vector<z3::expr>&out){ for(auto&t:p->t){ Mono*m=t.first; if(m->f.empty()) continue; grow(mLev,m->id); if(mLev[m->id]) continue; mLev[m->id]=lev+1; undoM[lev].push_back(m->id);
      if(!m->single()){ double lo,hi;int g;bool ex; X.monoBounds(m,lo,hi,g,ex); z3::expr x=tm(m); bool sq=true; for(auto&f:m->f) if(f.second%2) sq=false; if(sq){ out.push_back(x>=0);} else { if(std::isfinite(lo)) out.push_back(x>=num(Q(lo))); } if(std::isfinite(hi)) out.push_back(x<=num(Q(hi))); }
      for(auto&f:m->f) leafAxiomsA(f.first,lev,out); } }
  void leafAxiomsA(Atom*a,int lev,std::vector<z3::expr>&out){ grow(aLev,a->id); if(aLev[a->id]) return; aLev[a->id]=lev+1; undoA[lev].push_back(a->id);
    if(a->k==A_VAR||a->k==A_SQRT||a->k==A_UF){ z3::expr x=ta(a); if(std::isfinite(a->lo)) out.push_back(x>=num(Q(a->lo))); if(std::isfinite(a->hi)) out.push_back(x<=num(Q(a->hi))); if(a->k==A_SQRT){ out.push_back((x==0)==(tp(a->t)==0)); } }
    if(a->cond) leafAxiomsE(a->cond,lev,out); if(a->t) leafAxiomsP(a->t,lev,out); if(a->f) leafAxiomsP(a->f,lev,out); for(auto p:a->args) leafAxiomsP(p,lev,out); }
  void pushLit(const Lit&l){ s.push(); int lev=undoE.size(); undoE.emplace_back();undoA.emplace_back();undoM.emplace_back(); asserted.push_back(l); std::vector<z3::expr> ax; leafAxiomsE(l.e,lev,ax); for(auto&a:ax) s.add(a); z3::expr x=tb(l.e); s.add(l.v? x: !x); }
  void popLit(){ s.pop(); asserted.pop_back(); for(int i:undoE.back()) eLev[i]=0; for(int i:undoA.back()) aLev[i]=0; for(int i:undoM.back()) mLev[i]=0; undoE.pop_back();undoA.pop_back();undoM.pop_back(); }
  void sync(const std::vector<Lit>& pc){ size_t k=0; while(k<pc.size()&&k<asserted.size()&&pc[k]==asserted[k]) k++; while(asserted.size()>k) popLit(); for(;k<pc.size();k++) pushLit(pc[k]); }
  // does any asserted literal involve nonlinear monomials / roots / quotients?
  void collect(Expr*e,std::unordered_set<Expr*>&se,std::unordered_set<Mono*>&sm,std::unordered_set<Atom*>&sa){ if(!se.insert(e).second) return; if(e->a) collect(e->a,se,sm,sa); if(e->b) collect(e->b,se,sm,sa); if(e->c) collect(e->c,se,sm,sa); if(e->p) collectP(e->p,se,sm,sa); }
  void collectP(Poly*p,std::unordered_set<Expr*>&se,std::unordered_set<Mono*>&sm,std::unordered_set<Atom*>&sa){ for(auto&t:p->t) if(!t.first->f.empty()&&sm.insert(t.first).second) for(auto&f:t.first->f) collectA(f.first,se,sm,sa); }
  void collectA(Atom*a,std::unordered_set<Expr*>&se,std::unordered_set<Mono*>&sm,std::unordered_set<Atom*>&sa){ if(!sa.insert(a).second) return; if(a->cond) collect(a->cond,se,sm,sa); if(a->t) collectP(a->t,se,sm,sa); if(a->f) collectP(a->f,se,sm,sa); for(auto p:a->args) collectP(p,se,sm,sa); }
  enum R { SAT, UNSAT, UNKNOWN };
  void record(double t0,z3::check_result r){ double dt=nowSec()-t0; st.time+=dt; st.queries++; st.maxms=std::max<uint64_t>(st.maxms,(uint64_t)(dt*1000)); if(r==z3::sat) st.sat++; else if(r==z3::unsat) st.unsat++; else st.unknown++; }
  void extract(z3::model m,Model&out){ out.bv.clear(); out.rv.clear();
    for(unsigned i=0;i<m.num_consts();i++){ z3::func_decl d=m.get_const_decl(i); std::string n=d.name().str(); z3::expr v=m.get_const_interp(d);
      if(n.compare(0,2,"v!")==0){ auto it=X.bvvars.find(n.substr(2)); if(it!=X.bvvars.end()) out.bv[it->second]=v.get_numeral_uint64(); }
      else if(n.compare(0,2,"b!")==0){ auto it=X.bvvars.find(n.substr(2)); if(it!=X.bvvars.end()) out.bv[it->second]=v.is_true(); }
      else if(n.compare(0,2,"r!")==0||n.compare(0,2,"a!")==0){ unsigned id=std::stoul(n.substr(2)); out.rv[X.atoms[id]]=ratOf(v); } } }
  Q ratOf(z3::expr v){ if(v.is_numeral()){ std::string t; if(v.is_numeral(t)){ if(t.find('/')!=std::string::npos||t.find('.')==std::string::npos){ try { std::string u; for(char c:t) if(c!=' '&&c!='('&&c!=')') u+=c; Q q(u); q.canonicalize(); return q; } catch(...){} } } }
    if(v.is_algebraic()){ std::string t=v.get_decimal_string(25); if(!t.empty()&&t.back()=='?') t.pop_back(); return Q(std::strtod(t.c_str(),nullptr)); }
    std::string t=Z3_get_numeral_decimal_string(z,v,25); return Q(std::strtod(t.c_str(),nullptr)); }
  // linear-abstraction query of PC plus extra literal
  R check(const std::vector<Lit>&pc,const Lit*extra,Model*out){ sync(pc); if(extra) pushLit(*extra); double t0=nowSec(); z3::check_result r; try { r=s.check(); } catch(z3::exception&){ r=z3::unknown; } 
    if(dumpN<dumpMax) dump(r);
    record(t0,r); if(r==z3::sat&&out) extract(s.get_model(),*out); if(extra) popLit(); return r==z3::sat?SAT:r==z3::unsat?UNSAT:UNKNOWN; }
  void dump(z3::check_result r){ FILE*f=fopen((dumpDir+"/q"+std::to_string(dumpN++)+".smt2").c_str(),"w"); if(!f) return; std::string t=s.to_smt2(); fprintf(f,"; expect %s\n%s\n",r==z3::sat?"sat":r==z3::unsat?"unsat":"unknown",t.c_str()); fclose(f); }
  bool needRefine(const std::vector<Lit>&pc,const Lit*extra,std::unordered_set<Mono*>&sm,std::unordered_set<Atom*>&sa){ std::unordered_set<Expr*> se; for(auto&l:pc) collect(l.e,se,sm,sa); if(extra) collect(extra->e,se,sm,sa); for(auto*m:sm) if(!m->single()) return true; for(auto*a:sa) if(a->k==A_SQRT||a->k==A_POLY) return true; return !ufPairs(sa).empty(); }
  // applications of one uninterpreted function to different terms: equal arguments give equal results
  std::vector<std::pair<Atom*,Atom*>> ufPairs(const std::unordered_set<Atom*>&sa){ std::vector<Atom*> u; for(auto*a:sa) if(a->k==A_UF) u.push_back(a); std::sort(u.begin(),u.end(),[](Atom*a,Atom*b){ return a->id<b->id; }); std::vector<std::pair<Atom*,Atom*>> o; for(size_t i=0;i<u.size();i++) for(size_t j=i+1;j<u.size()&&o.size()<300;j++) if(u[i]->name==u[j]->name&&u[i]->args.size()==u[j]->args.size()) o.push_back({u[i],u[j]}); return o; }
  // precise query: nonlinear definitions included; dyadic = additionally require data variables to be multiples of 1/8
  R checkPrecise(const std::vector<Lit>&pc,const Lit*extra,Model*out,unsigned ms,bool dyadic){
    std::unordered_set<Mono*> sm; std::unordered_set<Atom*> sa; needRefine(pc,extra,sm,sa); 
    std::unordered_set<Expr*> se; sm.clear(); sa.clear(); for(auto&l:pc) collect(l.e,se,sm,sa); if(extra) collect(extra->e,se,sm,sa);
    z3::solver q(z); z3::params p(z); p.set("timeout",ms); q.set(p);
    for(auto&pr:ufPairs(sa)){ z3::expr same=z.bool_val(true); for(size_t i=0;i<pr.first->args.size();i++) same=same&&tp(pr.first->args[i])==tp(pr.second->args[i]); q.add(z3::implies(same,ta(pr.first)==ta(pr.second))); }
    std::vector<z3::expr> ax;
    for(auto*e:se) if(e->k==K_VAR&&e->w>1){ z3::expr x=tb(e); q.add(z3::sle(z.bv_val((int64_t)e->lo,e->w),x)); q.add(z3::sle(x,z.bv_val((int64_t)e->hi,e->w))); }
    for(auto*a:sa){ if(a->k==A_VAR||a->k==A_SQRT||a->k==A_UF){ z3::expr x=ta(a); if(std::isfinite(a->lo)) q.add(x>=num(Q(a->lo))); if(std::isfinite(a->hi)) q.add(x<=num(Q(a->hi))); }
      if(a->k==A_SQRT){ z3::expr x=ta(a); q.add(x*x==tp(a->t)); q.add(x>=0); }
      if(dyadic&&a->k==A_VAR){ z3::expr k=z.int_const(("k!"+std::to_string(a->id)).c_str()); q.add(ta(a)*num(Q(mpz_class(1)<<(-a->gran)))==z3::to_real(k)); } }
    for(auto*m:sm) if(!m->single()){ z3::expr prod=z.real_val(1); bool first=true; z3::expr den=z.real_val(1); bool hasden=false; for(auto&f:m->f) for(int i=0;i<std::abs(f.second);i++){ z3::expr x=ta(f.first); if(f.second>0){ prod= first? x: prod*x; first=false; } else { den= hasden? den*x: x; hasden=true; } } z3::expr mv=tm(m); if(hasden){ q.add(mv*den==prod); q.add(den!=0);} else q.add(mv==prod); }
    for(auto&l:pc){ z3::expr x=tb(l.e); q.add(l.v?x:!x);} if(extra){ z3::expr x=tb(extra->e); q.add(extra->v?x:!x);} 
    double t0=nowSec(); z3::check_result r; try { r=q.check(); } catch(z3::exception&){ r=z3::unknown; } record(t0,r); st.refined++; if(r==z3::sat&&out) extract(q.get_model(),*out); return r==z3::sat?SAT:r==z3::unsat?UNSAT:UNKNOWN; }
};
