// Symbolic expressions: bit-vectors (hash-consed DAG) and reals (canonical polynomials over atoms).
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <gmpxx.h>
#include <z3++.h>

typedef mpq_class Q;
struct Poly; struct Atom; struct Mono; struct Expr;

enum Kind : uint8_t { K_CONST, K_VAR, K_ADD, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR,
  K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_ITE, K_ZEXT, K_SEXT, K_EXTRACT, K_CONCAT,
  K_REAL, K_REQ0, K_RLT0, K_RLE0, K_UNDEF };

struct Expr {
  Kind k; uint8_t w; uint32_t id; uint64_t imm; Expr *a,*b,*c; Poly* p;
  int64_t lo, hi;       // signed interval valid globally
  std::string* name;
};

enum AKind : uint8_t { A_VAR, A_ITE, A_SQRT, A_POLY, A_SITOFP, A_UF };
struct Atom { AKind k; uint32_t id; Expr* cond; Poly *t,*f; std::string name; std::vector<Poly*> args;
  double lo, hi; int gran; bool exact; };
struct Mono { std::vector<std::pair<Atom*,int>> f; uint32_t id; bool nonlinear() const {
    if (f.size()==0) return false; return !(f.size()==1 && f[0].second==1); } 
  Atom* single() const { return f.size()==1 && f[0].second==1 ? f[0].first : nullptr; } };
struct Poly { std::vector<std::pair<Mono*,Q>> t; uint32_t id; double lo, hi; int gran; bool exact;
  bool isConst() const { return t.empty() || (t.size()==1 && t[0].first->f.empty()); }
  Q constVal() const { return t.empty()? Q(0) : t[0].second; } };

inline uint64_t maskw(unsigned w){ return w>=64? ~0ull : ((1ull<<w)-1); }
inline int64_t sextw(uint64_t v, unsigned w){ if (w>=64) return (int64_t)v; uint64_t m=1ull<<(w-1); v&=maskw(w); return (int64_t)((v^m)-m); }
inline double bits2d(uint64_t b){ double d; memcpy(&d,&b,8); return d; }
inline uint64_t d2bits(double d){ uint64_t b; memcpy(&b,&d,8); return b; }

struct Ctx {
  // ---------- interning
  struct EKey { Kind k; uint8_t w; uint64_t imm; Expr*a,*b,*c; Poly*p;
    bool operator==(const EKey&o) const {return k==o.k&&w==o.w&&imm==o.imm&&a==o.a&&b==o.b&&c==o.c&&p==o.p;} };
  struct EHash { size_t operator()(const EKey&x) const { size_t h=x.k*131+x.w; auto mix=[&](uint64_t v){h^=v+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2);};
    mix(x.imm);mix((uint64_t)x.a);mix((uint64_t)x.b);mix((uint64_t)x.c);mix((uint64_t)x.p);return h;} };
  std::unordered_map<EKey,Expr*,EHash> tab;
  std::vector<Expr*> all;
  Expr* UNDEF;
  std::vector<Atom*> atoms; std::vector<Mono*> monos; std::vector<Poly*> polys;
  std::unordered_map<std::string,Expr*> bvvars; std::unordered_map<std::string,Atom*> rvars;
  Mono* ONE; Poly* ZERO; Poly* PONE;
  uint64_t inexact=0;

  Ctx(){ UNDEF=raw(K_UNDEF,64,0,nullptr,nullptr,nullptr,nullptr); ONE=mono({}); ZERO=poly({}); PONE=polyC(Q(1)); }

  Expr* raw(Kind k,unsigned w,uint64_t imm,Expr*a,Expr*b,Expr*c,Poly*p){
    EKey key{k,(uint8_t)w,imm,a,b,c,p}; auto it=tab.find(key); if(it!=tab.end()) return it->second;
    Expr* e=new Expr; e->k=k;e->w=w;e->imm=imm;e->a=a;e->b=b;e->c=c;e->p=p;e->id=all.size();e->name=nullptr;
    fullRange(w,e->lo,e->hi);
    all.push_back(e); tab.emplace(key,e); setRange(e); return e; }
  static void fullRange(unsigned w,int64_t&lo,int64_t&hi){ if(w>=64){lo=INT64_MIN;hi=INT64_MAX;} else if(w==1){lo=-1;hi=0;} else {lo=-(1ll<<(w-1));hi=(1ll<<(w-1))-1;} }
  void setRange(Expr* e){ computeRange(e,e->lo,e->hi,[](Expr*x,int64_t&l,int64_t&h){l=x->lo;h=x->hi;}); }

  // Range of node from children ranges. For width-1 booleans range is in {-1,0} (signed); we use 0 / -1.
  template<class F> void computeRange(Expr* e,int64_t& lo,int64_t& hi,F rng){
    typedef __int128 I; int64_t al,ah,bl,bh; int64_t fl,fh; fullRange(e->w,fl,fh);
    auto set=[&](I l,I h){ if(l>=fl&&h<=fh){lo=(int64_t)l;hi=(int64_t)h;} };
    auto boolv=[&](int v){ lo=hi= v? -1:0; };
    switch(e->k){
    case K_CONST: lo=hi=sextw(e->imm,e->w); break;
    case K_ADD: rng(e->a,al,ah);rng(e->b,bl,bh); set((I)al+bl,(I)ah+bh); break;
    case K_MUL: { rng(e->a,al,ah);rng(e->b,bl,bh); I p[4]={(I)al*bl,(I)al*bh,(I)ah*bl,(I)ah*bh}; I l=p[0],h=p[0]; for(auto x:p){ if(x<l)l=x; if(x>h)h=x;} set(l,h); break; }
    case K_SDIV: rng(e->a,al,ah);rng(e->b,bl,bh); if(bl==bh&&bl>0) set(al/bl,ah/bl); break;
    case K_UDIV: rng(e->a,al,ah);rng(e->b,bl,bh); if(al>=0&&bl>0) set(al/bh,ah/bl); break;
    case K_UREM: rng(e->a,al,ah);rng(e->b,bl,bh); if(al>=0&&bl>0){ if(ah<bl) set(al,ah); else set(0,bh-1);} break;
    case K_SREM: rng(e->a,al,ah);rng(e->b,bl,bh); if(bl>0){ if(al>=0&&ah<bl) set(al,ah); else set(al>=0?0:-(bh-1),bh-1);} break;
    case K_AND: if(e->w==1){ rng(e->a,al,ah);rng(e->b,bl,bh); if((al==0&&ah==0)||(bl==0&&bh==0)) boolv(0); else if(al==-1&&ah==-1&&bl==-1&&bh==-1) boolv(1); break; }
      rng(e->a,al,ah);rng(e->b,bl,bh); if(bl==bh&&bl>=0) set(0, al>=0? std::min(bl,ah):bl); else if(al>=0&&bl>=0) set(0,std::min(ah,bh)); break;
    case K_OR: if(e->w==1){ rng(e->a,al,ah);rng(e->b,bl,bh); if((al==-1&&ah==-1)||(bl==-1&&bh==-1)) boolv(1); else if(ah==0&&al==0&&bl==0&&bh==0) boolv(0); break; }
      rng(e->a,al,ah);rng(e->b,bl,bh); if(al>=0&&bl>=0){ int64_t m=std::max(ah,bh); int64_t r=1; while(r<=m&&r<(1ll<<62)) r<<=1; set(std::max(al,bl),r-1);} break;
    case K_XOR: rng(e->a,al,ah);rng(e->b,bl,bh); if(e->w==1){ if(al==ah&&bl==bh) boolv((al!=0)^(bl!=0)); break; }
      if(al>=0&&bl>=0){ int64_t m=std::max(ah,bh); int64_t r=1; while(r<=m&&r<(1ll<<62)) r<<=1; set(0,r-1);} break;
    case K_LSHR: rng(e->a,al,ah); if(e->b->k==K_CONST&&al>=0&&e->b->imm<63) set(al>>e->b->imm,ah>>e->b->imm); break;
    case K_ASHR: rng(e->a,al,ah); if(e->b->k==K_CONST&&e->b->imm<63) set(al>>e->b->imm,ah>>e->b->imm); break;
    case K_EQ: rng(e->a,al,ah);rng(e->b,bl,bh); if(ah<bl||bh<al) boolv(0); else if(al==ah&&bl==bh) boolv(1); break;
    case K_SLT: rng(e->a,al,ah);rng(e->b,bl,bh); if(ah<bl) boolv(1); else if(al>=bh) boolv(0); break;
    case K_SLE: rng(e->a,al,ah);rng(e->b,bl,bh); if(ah<=bl) boolv(1); else if(al>bh) boolv(0); break;
    case K_ULT: rng(e->a,al,ah);rng(e->b,bl,bh); if((al>=0&&bl>=0)||(ah<0&&bh<0)){ if(ah<bl) boolv(1); else if(al>=bh) boolv(0);} else if(al>=0&&bh<0) boolv(1); else if(ah<0&&bl>=0) boolv(0); break;
    case K_ULE: rng(e->a,al,ah);rng(e->b,bl,bh); if((al>=0&&bl>=0)||(ah<0&&bh<0)){ if(ah<=bl) boolv(1); else if(al>bh) boolv(0);} else if(al>=0&&bh<0) boolv(1); else if(ah<0&&bl>=0) boolv(0); break;
    case K_ITE: { int64_t cl,ch; rng(e->a,cl,ch); rng(e->b,al,ah); rng(e->c,bl,bh); if(cl==ch){ if(cl) set(al,ah); else set(bl,bh);} else set(std::min(al,bl),std::max(ah,bh)); break; }
    case K_SEXT: rng(e->a,al,ah); set(al,ah); break;
    case K_ZEXT: rng(e->a,al,ah); if(e->a->w==1){ if(al==ah) set(al?1:0,al?1:0); else set(0,1);} else if(al>=0) set(al,ah); else if(e->a->w<e->w&&e->a->w<63) set(0,(I)maskw(e->a->w)); break;
    case K_EXTRACT: if(e->imm==0){ rng(e->a,al,ah); if(e->w>1) set(al,ah);} break;
    case K_REQ0: case K_RLT0: case K_RLE0: { double l=e->p->lo,h=e->p->hi; 
        if(e->k==K_REQ0){ if(l>0||h<0) boolv(0);} else if(e->k==K_RLT0){ if(h<0) boolv(1); else if(l>=0) boolv(0);} else { if(h<=0) boolv(1); else if(l>0) boolv(0);} break; }
    default: break; }
  }

  // ---------- constructors
  Expr* C(uint64_t v,unsigned w){ return raw(K_CONST,w,v&maskw(w),nullptr,nullptr,nullptr,nullptr); }
  bool isC(Expr*e){return e->k==K_CONST;}
  Expr* T(){return C(1,1);} Expr* F(){return C(0,1);}
  Expr* var(const std::string& n,unsigned w,int64_t lo,int64_t hi){ auto it=bvvars.find(n); if(it!=bvvars.end()) return it->second;
    Expr* e=raw(K_VAR,w,bvvars.size()+1,nullptr,nullptr,nullptr,nullptr); e->name=new std::string(n); e->lo=lo;e->hi=hi; bvvars[n]=e; return e; }

  struct Lin { std::vector<std::pair<Expr*,uint64_t>> t; uint64_t c=0; };
  void lin(Expr* e,uint64_t m,Lin& L,int depth=0){
    if(e->k==K_CONST){ L.c+=e->imm*m; return; }
    if(depth<24){ if(e->k==K_ADD){ lin(e->a,m,L,depth+1); lin(e->b,m,L,depth+1); return; }
      if(e->k==K_MUL&&e->b->k==K_CONST){ lin(e->a,m*e->b->imm,L,depth+1); return; } }
    for(auto& x:L.t) if(x.first==e){ x.second+=m; return; }
    L.t.push_back({e,m}); }
  Expr* unlin(Lin& L,unsigned w){
    uint64_t M=maskw(w); std::vector<std::pair<Expr*,uint64_t>> v; for(auto&x:L.t) if((x.second&M)!=0) v.push_back({x.first,x.second&M});
    std::sort(v.begin(),v.end(),[](auto&a,auto&b){return a.first->id<b.first->id;});
    Expr* r=nullptr; for(auto&x:v){ Expr* t= x.second==1? x.first : raw(K_MUL,w,0,x.first,C(x.second,w),nullptr,nullptr); r= r? raw(K_ADD,w,0,r,t,nullptr,nullptr):t; }
    uint64_t c=L.c&M; if(!r) return C(c,w); if(c) r=raw(K_ADD,w,0,r,C(c,w),nullptr,nullptr); return foldr(r); }
  Expr* foldr(Expr* e){ if(e->lo==e->hi&&e->k!=K_CONST&&e->k!=K_REAL&&e->k!=K_UNDEF) return C((uint64_t)e->lo,e->w); return e; }
  Expr* mkAdd(Expr*a,Expr*b){ if(a->w==1) return mkXor(a,b); Lin L; lin(a,1,L); lin(b,1,L); return unlin(L,a->w); }
  Expr* mkSub(Expr*a,Expr*b){ if(a->w==1) return mkXor(a,b); Lin L; lin(a,1,L); lin(b,~0ull,L); return unlin(L,a->w); }
  Expr* mkMul(Expr*a,Expr*b){ if(a->w==1) return mkAnd(a,b); if(isC(a)) std::swap(a,b); if(isC(b)){ Lin L; lin(a,b->imm,L); return unlin(L,a->w);} if(a->id>b->id) std::swap(a,b); return foldr(raw(K_MUL,a->w,0,a,b,nullptr,nullptr)); }
  Expr* mkNot(Expr*a){ return mkXor(a,C(maskw(a->w),a->w)); }
  Expr* mkXor(Expr*a,Expr*b){ unsigned w=a->w; if(isC(a)) std::swap(a,b); if(isC(a)&&isC(b)) return C(a->imm^b->imm,w); if(isC(b)&&b->imm==0) return a; if(a==b) return C(0,w);
    if(w==1&&isC(b)){ if(a->k==K_XOR&&isC(a->b)) return a->a; if(a->k==K_SLT) return mkCmp(K_SLE,a->b,a->a); if(a->k==K_SLE) return mkCmp(K_SLT,a->b,a->a); if(a->k==K_ULT) return mkCmp(K_ULE,a->b,a->a); if(a->k==K_ULE) return mkCmp(K_ULT,a->b,a->a);
      if(a->k==K_RLT0) return mkRCmp0(K_RLE0,pneg(a->p)); if(a->k==K_RLE0) return mkRCmp0(K_RLT0,pneg(a->p)); }
    if(!isC(b)&&a->id>b->id) std::swap(a,b);
    return foldr(raw(K_XOR,w,0,a,b,nullptr,nullptr)); }
  Expr* mkAnd(Expr*a,Expr*b){ unsigned w=a->w; if(isC(a)) std::swap(a,b); if(isC(b)){ if(isC(a)) return C(a->imm&b->imm,w); if(b->imm==0) return C(0,w); if(b->imm==maskw(w)) return a;
      if(w>1&&a->lo>=0&&(b->imm&(b->imm+1))==0&&(uint64_t)a->hi<=b->imm) return a;
      if(w>1&&(b->imm&(b->imm+1))==0){ unsigned k=__builtin_popcountll(b->imm); if(a->k==K_AND&&isC(a->b)) return mkAnd(a->a,C(a->b->imm&b->imm,w)); (void)k; } }
    if(a==b) return a; if(w==1){ if((a->k==K_XOR&&isC(a->b)&&a->a==b)||(b->k==K_XOR&&isC(b->b)&&b->a==a)) return C(0,1); }
    if(!isC(b)&&a->id>b->id) std::swap(a,b); return foldr(raw(K_AND,w,0,a,b,nullptr,nullptr)); }
  Expr* mkOr(Expr*a,Expr*b){ unsigned w=a->w; if(isC(a)) std::swap(a,b); if(isC(b)){ if(isC(a)) return C(a->imm|b->imm,w); if(b->imm==0) return a; if(b->imm==maskw(w)) return b; }
    if(a==b) return a; if(w==1){ if((a->k==K_XOR&&isC(a->b)&&a->a==b)||(b->k==K_XOR&&isC(b->b)&&b->a==a)) return C(1,1); }
    if(!isC(b)&&a->id>b->id) std::swap(a,b); return foldr(raw(K_OR,w,0,a,b,nullptr,nullptr)); }
  bool noOvf(const Lin&L,unsigned w,int64_t&lo,int64_t&hi){ typedef __int128 I; I l=sextw(L.c,w),h=l; for(auto&x:L.t){ I c=sextw(x.second,w); I p=c*x.first->lo,q=c*x.first->hi; l+=std::min(p,q); h+=std::max(p,q);} int64_t fl,fh; fullRange(w,fl,fh); if(l<fl||h>fh) return false; lo=(int64_t)l;hi=(int64_t)h; return true; }
  Expr* mkShl(Expr*a,Expr*b){ if(isC(b)){ if(b->imm>=a->w) return C(0,a->w); return mkMul(a,C(1ull<<b->imm,a->w)); } if(isC(a)&&a->imm==0) return a; return foldr(raw(K_SHL,a->w,0,a,b,nullptr,nullptr)); }
  Expr* divExact(Expr*a,int64_t d){ // signed exact division of a linear form with no overflow; null if not applicable
    unsigned w=a->w; Lin L; lin(a,1,L); int64_t lo,hi; if(!noOvf(L,w,lo,hi)) return nullptr; int64_t c=sextw(L.c,w); if(c%d) return nullptr; for(auto&x:L.t) if(sextw(x.second,w)%d) return nullptr;
    Lin R; R.c=(uint64_t)(c/d); for(auto&x:L.t) R.t.push_back({x.first,(uint64_t)(sextw(x.second,w)/d)}); return unlin(R,w); }
  Expr* mkLShr(Expr*a,Expr*b){ if(isC(a)&&isC(b)) return C(b->imm>=a->w?0:(a->imm>>b->imm),a->w); if(isC(b)){ if(b->imm==0) return a; if(b->imm>=a->w) return C(0,a->w); if(a->lo>=0&&b->imm<62) if(Expr*r=divExact(a,1ll<<b->imm)) return r; } return foldr(raw(K_LSHR,a->w,0,a,b,nullptr,nullptr)); }
  Expr* mkAShr(Expr*a,Expr*b){ if(isC(a)&&isC(b)){ unsigned s=b->imm>=a->w?a->w-1:b->imm; return C((uint64_t)(sextw(a->imm,a->w)>>s),a->w);} if(isC(b)){ if(b->imm==0) return a; if(b->imm<62) if(Expr*r=divExact(a,1ll<<b->imm)) return r; } return foldr(raw(K_ASHR,a->w,0,a,b,nullptr,nullptr)); }
  Expr* mkDivRem(Kind k,Expr*a,Expr*b){ unsigned w=a->w; if(isC(a)&&isC(b)&&b->imm!=0){ int64_t x=sextw(a->imm,w),y=sextw(b->imm,w); switch(k){case K_UDIV:return C(a->imm/b->imm,w);case K_UREM:return C(a->imm%b->imm,w);case K_SDIV:return C(y==-1?-(uint64_t)x:(uint64_t)(x/y),w);default:return C(y==-1?0:(uint64_t)(x%y),w);} }
    if(isC(b)){ int64_t y=sextw(b->imm,w); if(b->imm==1) return (k==K_UDIV||k==K_SDIV)?a:C(0,w); if(y>0&&(k==K_SDIV||(k==K_UDIV&&a->lo>=0))) if(Expr*r=divExact(a,y)) return r; if(y>0&&(k==K_SREM||(k==K_UREM&&a->lo>=0))) if(divExact(a,y)) return C(0,w); }
    return foldr(raw(k,w,0,a,b,nullptr,nullptr)); }
  Expr* mkCmp(Kind k,Expr*a,Expr*b){
    unsigned w=a->w; if(a==b) return C(k==K_EQ||k==K_ULE||k==K_SLE,1);
    if(isC(a)&&isC(b)){ int64_t x=sextw(a->imm,w),y=sextw(b->imm,w); bool r; switch(k){case K_EQ:r=a->imm==b->imm;break;case K_ULT:r=a->imm<b->imm;break;case K_ULE:r=a->imm<=b->imm;break;case K_SLT:r=x<y;break;default:r=x<=y;} return C(r,1); }
    if(w==1&&k==K_EQ){ return mkNot(mkXor(a,b)); }
    if(k==K_EQ&&w>1){
      Lin L; lin(a,1,L); lin(b,~0ull,L); uint64_t M=maskw(w); std::vector<std::pair<Expr*,uint64_t>> v; for(auto&x:L.t) if((x.second&M)) v.push_back({x.first,x.second&M}); L.t=v;
      if(v.empty()) return C((L.c&M)==0,1);
      if(v.size()==1){ Expr*x=v[0].first; int64_t c=sextw(v[0].second,w), r=sextw((0-L.c)&M,w); int64_t lo,hi; Lin L2; L2.t.push_back(v[0]);
        if(c==-1){ c=1; r=sextw(L.c&M,w);} 
        if(c!=1&&noOvf(L2,w,lo,hi)){ if(r%c) return C(0,1); r/=c; c=1; }
        if(c==1) return eqConst(x,(uint64_t)r&M); }
      else { // normalise sign: all on left == const
        std::sort(L.t.begin(),L.t.end(),[](auto&p,auto&q){return p.first->id<q.first->id;});
        if(v.size()==2){ std::sort(v.begin(),v.end(),[](auto&p,auto&q){return p.first->id<q.first->id;}); 
          if(v[0].second==1&&v[1].second==(M)){ Expr* bb=v[1].first; Lin R; R.t.push_back({bb,1}); R.c=0-L.c; return foldr(raw(K_EQ,1,0,v[0].first,unlin(R,w),nullptr,nullptr)); }
          if(v[1].second==1&&v[0].second==(M)){ Lin R; R.t.push_back({v[1].first,1}); R.c=L.c; return foldr(raw(K_EQ,1,0,v[0].first,unlin(R,w),nullptr,nullptr)); } }
      }
      if(a->id>b->id) std::swap(a,b); return foldr(raw(K_EQ,1,0,a,b,nullptr,nullptr)); }
    // peel common extensions and constant offsets when no overflow
    for(int it=0;it<8;it++){
      if((k==K_ULT||k==K_ULE)&&a->lo>=0&&b->lo>=0){ k= k==K_ULT?K_SLT:K_SLE; continue; }
      if(k==K_SLT||k==K_SLE){
        if(a->k==K_SEXT&&b->k==K_SEXT&&a->a->w==b->a->w){ a=a->a;b=b->a; continue; }
        if(a->k==K_SEXT&&isC(b)){ unsigned w2=a->a->w; int64_t c=sextw(b->imm,b->w),fl,fh; fullRange(w2,fl,fh); if(c>=fl&&c<=fh){ a=a->a; b=C((uint64_t)c,w2); continue;} return C(c>0,1); }
        if(b->k==K_SEXT&&isC(a)){ unsigned w2=b->a->w; int64_t c=sextw(a->imm,a->w),fl,fh; fullRange(w2,fl,fh); if(c>=fl&&c<=fh){ b=b->a; a=C((uint64_t)c,w2); continue;} return C(c<0,1); }
        if(isC(b)||isC(a)||(a->k==K_ADD)||(b->k==K_ADD)){ Lin L,LA,LB; lin(a,1,LA); lin(b,1,LB); int64_t lo,hi; unsigned ww=a->w;
          if(noOvf(LA,ww,lo,hi)&&noOvf(LB,ww,lo,hi)){ L=LA; for(auto&x:LB.t){ bool f=false; for(auto&y:L.t) if(y.first==x.first){y.second-=x.second;f=true;break;} if(!f) L.t.push_back({x.first,0-x.second}); } L.c-=LB.c; uint64_t M=maskw(ww);
            std::vector<std::pair<Expr*,uint64_t>> v; for(auto&x:L.t) if(x.second&M) v.push_back({x.first,x.second&M}); L.t=v;
            if(noOvf(L,ww,lo,hi)){ if(k==K_SLT){ if(hi<0) return T(); if(lo>=0) return F(); } else { if(hi<=0) return T(); if(lo>0) return F(); }
              int64_t r=-sextw(L.c&M,ww);
              if(v.size()==1){ int64_t c=sextw(v[0].second,ww); Expr*x=v[0].first; // c*x <(=) r
                auto fdiv=[](int64_t p,int64_t q){ int64_t d=p/q; if((p%q)&&((p<0)!=(q<0))) d--; return d; };
                int64_t fl,fh; fullRange(ww,fl,fh);
                if(c>0){ int64_t lim= k==K_SLT? fdiv(r-1,c) : fdiv(r,c); // x<=lim
                  Expr*na=x,*nb=C((uint64_t)lim,ww); if(na==a&&nb==b&&k==K_SLE) break; a=na;b=nb;k=K_SLE; if(a->k==K_SEXT) continue; break; }
                else { int64_t d=-c; int64_t rr= k==K_SLT? r-1: r; // -d x <= rr  => x >= ceil(-rr/d)
                  int64_t lim= -fdiv(rr,d); Expr*na=C((uint64_t)lim,ww),*nb=x; if(na==a&&nb==b&&k==K_SLE) break; a=na;b=nb;k=K_SLE; if(b->k==K_SEXT) continue; break; } }
              if(v.size()==2&&sextw(v[0].second,ww)*sextw(v[1].second,ww)==-1){ Expr*p,*q; if(v[0].second==1){p=v[0].first;q=v[1].first;}else{p=v[1].first;q=v[0].first;} // p - q <(=) r
                if(r==0){ if(p==a&&q==b) break; a=p;b=q; continue; } }
            } }
          break; }
      }
      break; }
    return foldr(raw(k,1,0,a,b,nullptr,nullptr)); }
  Expr* eqConst(Expr*x,uint64_t v){ unsigned w=x->w;
    if(x->k==K_CONST) return C(x->imm==v,1);
    if(x->lo>sextw(v,w)||x->hi<sextw(v,w)) return F();
    if(x->k==K_SEXT){ unsigned w2=x->a->w; if((uint64_t)sextw(v&maskw(w2),w2)%(1)||((uint64_t)sextw(v&maskw(w2),w2)&maskw(w))!=v) return F(); if(w2==1) return v? x->a: mkNot(x->a); return eqConst(x->a,v&maskw(w2)); }
    if(x->k==K_ZEXT){ unsigned w2=x->a->w; if(v>maskw(w2)) return F(); if(w2==1) return v? x->a: mkNot(x->a); return eqConst(x->a,v); }
    if(x->k==K_ADD&&isC(x->b)) return eqConst(x->a,(v-x->b->imm)&maskw(w));
    if(x->k==K_ITE){ bool bc=isC(x->b),cc=isC(x->c); if(bc&&cc){ bool p=x->b->imm==v,q=x->c->imm==v; if(p&&q) return T(); if(p) return x->a; if(q) return mkNot(x->a); return F(); }
      if(bc||cc||true){ Expr*p=eqConst(x->b,v),*q=eqConst(x->c,v); return mkIte(x->a,p,q);} }
    return foldr(raw(K_EQ,1,0,x,C(v,w),nullptr,nullptr)); }
  Expr* mkIte(Expr*c,Expr*a,Expr*b){
    if(isC(c)) return c->imm? a:b; if(a==b) return a;
    if(a->k==K_UNDEF) return b; if(b->k==K_UNDEF) return a;
    if(c->k==K_XOR&&c->w==1&&isC(c->b)) return mkIte(c->a,b,a);
    if(a->k==K_REAL||b->k==K_REAL){ unsigned w=a->k==K_REAL?a->w:b->w; return mkReal(pite(c,asPoly(a),asPoly(b)),w); }
    if(a->w==1){ if(isC(a)&&isC(b)) return a->imm? c: mkNot(c); if(isC(a)) return a->imm? mkOr(c,b): mkAnd(mkNot(c),b); if(isC(b)) return b->imm? mkOr(mkNot(c),a): mkAnd(c,a); }
    if(a->k==K_ITE&&a->a==c) a=a->b; if(b->k==K_ITE&&b->a==c) b=b->c; if(a==b) return a;
    return foldr(raw(K_ITE,a->w,0,c,a,b,nullptr)); }
  Expr* mkSext(Expr*a,unsigned w){ if(a->w==w) return a; if(isC(a)) return C((uint64_t)sextw(a->imm,a->w),w); if(a->k==K_SEXT) return mkSext(a->a,w); if(a->k==K_ZEXT&&a->a->w<a->w) return mkZext(a->a,w);
    if(a->k==K_ADD||(a->k==K_MUL&&isC(a->b))){ Lin L; lin(a,1,L); int64_t lo,hi; if(noOvf(L,a->w,lo,hi)){ Lin R; R.c=(uint64_t)sextw(L.c,a->w); for(auto&x:L.t){ Expr*s=mkSext(x.first,w); lin(s,(uint64_t)sextw(x.second,a->w),R);} return unlin(R,w);} }
    if(a->k==K_ITE&&isC(a->b)&&isC(a->c)) return mkIte(a->a,mkSext(a->b,w),mkSext(a->c,w));
    return foldr(raw(K_SEXT,w,0,a,nullptr,nullptr,nullptr)); }
  Expr* mkZext(Expr*a,unsigned w){ if(a->w==w) return a; if(isC(a)) return C(a->imm,w); if(a->k==K_ZEXT) return mkZext(a->a,w); if(a->w>1&&a->lo>=0) return mkSext(a,w);
    if(a->k==K_ITE&&isC(a->b)&&isC(a->c)) return mkIte(a->a,mkZext(a->b,w),mkZext(a->c,w));
    return foldr(raw(K_ZEXT,w,0,a,nullptr,nullptr,nullptr)); }
  Expr* mkExtract(Expr*a,unsigned lo,unsigned w){ if(lo==0&&a->w==w) return a; if(isC(a)) return C(a->imm>>lo,w);
    if(a->k==K_EXTRACT) return mkExtract(a->a,lo+a->imm,w);
    if(lo==0){ if(a->k==K_SEXT||a->k==K_ZEXT){ if(a->a->w==w) return a->a; if(a->a->w>w) return mkExtract(a->a,0,w); return a->k==K_SEXT? mkSext(a->a,w):mkZext(a->a,w); }
      if((a->k==K_ADD||(a->k==K_MUL&&isC(a->b)))&&w>1){ Lin L; lin(a,1,L); Lin R; R.c=L.c; for(auto&x:L.t) lin(mkExtract(x.first,0,w),x.second,R); return unlin(R,w); }
      if(a->k==K_AND&&isC(a->b)) return mkAnd(mkExtract(a->a,0,w),C(a->b->imm,w));
      if(a->k==K_ITE) return mkIte(a->a,mkExtract(a->b,0,w),mkExtract(a->c,0,w)); }
    if((a->k==K_ZEXT)&&lo>=a->a->w) return C(0,w);
    if(a->k==K_CONCAT){ unsigned bw=a->b->w; if(lo>=bw) return mkExtract(a->a,lo-bw,w); if(lo+w<=bw) return mkExtract(a->b,lo,w); }
    return foldr(raw(K_EXTRACT,w,lo,a,nullptr,nullptr,nullptr)); }
  Expr* mkConcat(Expr*a,Expr*b){ unsigned w=a->w+b->w; if(isC(a)&&isC(b)) return C((a->imm<<b->w)|b->imm,w); if(isC(a)&&a->imm==0) return mkZext(b,w);
    if(a->k==K_EXTRACT&&b->k==K_EXTRACT&&a->a==b->a&&a->imm==b->imm+b->w) return mkExtract(a->a,b->imm,w);
    if(a->k==K_EXTRACT&&a->a==b&&a->imm==b->w) return mkExtract(a->a,0,w);
    return foldr(raw(K_CONCAT,w,0,a,b,nullptr,nullptr)); }

  // ---------- reals
  struct VHash{ template<class V> size_t operator()(const V&v) const { size_t h=v.size(); for(auto x:v) h^=(size_t)x+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); return h; } };
  std::map<std::vector<std::pair<uint32_t,int>>,Mono*> monoTab;
  Mono* mono(std::vector<std::pair<Atom*,int>> f){ std::vector<std::pair<uint32_t,int>> key; std::sort(f.begin(),f.end(),[](auto&a,auto&b){return a.first->id<b.first->id;}); for(auto&x:f) key.push_back({x.first->id,x.second}); auto it=monoTab.find(key); if(it!=monoTab.end()) return it->second; Mono*m=new Mono; m->f=f; m->id=monos.size(); monos.push_back(m); monoTab[key]=m; return m; }
  struct PKey{ std::vector<std::pair<uint32_t,std::string>> v; };
  std::unordered_map<std::string,Poly*> polyTab;
  static void imul(double al,double ah,double bl,double bh,double&l,double&h){ double p[4]={al*bl,al*bh,ah*bl,ah*bh}; l=h=p[0]; for(double x:p){ if(x!=x) { l=-INFINITY;h=INFINITY;return;} l=std::min(l,x);h=std::max(h,x);} }
  static int v2(const Q&q){ // exponent of two; assumes denominator power of two (else returns INT_MIN)
    if(q==0) return 1<<20; mpz_class d=q.get_den(); unsigned long z=mpz_scan1(d.get_mpz_t(),0); mpz_class r=d>>z; if(r!=1) return INT_MIN; mpz_class n=q.get_num(); return (int)mpz_scan1(n.get_mpz_t(),0)-(int)z; }
  Poly* poly(std::vector<std::pair<Mono*,Q>> t){
    std::sort(t.begin(),t.end(),[](auto&a,auto&b){return a.first->id<b.first->id;});
    std::vector<std::pair<Mono*,Q>> r; for(auto&x:t){ if(!r.empty()&&r.back().first==x.first) r.back().second+=x.second; else r.push_back(x);} 
    std::vector<std::pair<Mono*,Q>> s; for(auto&x:r) if(x.second!=0) s.push_back(x);
    std::string key; key.reserve(s.size()*12); for(auto&x:s){ uint32_t id=x.first->id; key.append((char*)&id,4); 
      if(x.second.get_den()==1&&x.second.get_num().fits_slong_p()){ long v=x.second.get_num().get_si(); key.push_back(1); key.append((char*)&v,8);} else { key.push_back(2); key+=x.second.get_str(62); key.push_back(';'); } }
    auto it=polyTab.find(key); if(it!=polyTab.end()) return it->second;
    Poly*p=new Poly; p->t=s; p->id=polys.size(); polys.push_back(p); polyTab[key]=p;
    double lo=0,hi=0; int gran=1<<20; bool ex=true;
    for(auto&x:s){ double l,h; int g; bool e; monoBounds(x.first,l,h,g,e); double c=x.second.get_d(); double a,b; imul(l,h,c,c,a,b); lo+=a; hi+=b; int v=v2(x.second); if(v==INT_MIN||!e) ex=false; else gran=std::min(gran,v+g); }
    if(s.size()==1&&s[0].first->f.empty()){} else if(lo!=hi){ double m=std::max(std::fabs(lo),std::fabs(hi)); lo-=m*1e-14; hi+=m*1e-14; if(lo<0&&lo>-1e-300) lo=0; }
    // keep exact zero bounds for squares etc.
    bool nonneg=true,nonpos=true; for(auto&x:s){ double l,h;int g;bool e; monoBounds(x.first,l,h,g,e); double c=x.second.get_d(); double a,b; imul(l,h,c,c,a,b); if(!(a>=0)) nonneg=false; if(!(b<=0)) nonpos=false; }
    if(nonneg&&lo<0) lo=0; if(nonpos&&hi>0) hi=0;
    if(lo!=lo) lo=-INFINITY; if(hi!=hi) hi=INFINITY;
    p->lo=lo;p->hi=hi;p->gran=gran;p->exact=ex;
    if(!p->isConst()){ double m=std::max(std::fabs(lo),std::fabs(hi)); if(!ex||!(m<std::ldexp(1.0,53+std::min(gran,900)))) inexact++; }
    return p; }
  void monoBounds(Mono*m,double&lo,double&hi,int&g,bool&ex){ lo=hi=1; g=0; ex=true; for(auto&x:m->f){ Atom*a=x.first; if(!a->exact) ex=false; int e=x.second; double l=a->lo,h=a->hi; 
      if(e<0){ ex=false; double l2,h2; if(l>0||h<0){ l2=1/h;h2=1/l; if(h==INFINITY||h==-INFINITY) l2=0; } else { if(l>=0){l2=0;h2=INFINITY;} else if(h<=0){l2=-INFINITY;h2=0;} else {l2=-INFINITY;h2=INFINITY;} } l=l2;h=h2;e=-e; }
      double pl=1,ph=1; if(e%2==0){ double mx=std::max(std::fabs(l),std::fabs(h)); double mn=(l<=0&&h>=0)?0:std::min(std::fabs(l),std::fabs(h)); pl=std::pow(mn,e);ph=std::pow(mx,e);} else { pl=std::pow(l,e);ph=std::pow(h,e);} g+=e*a->gran; imul(lo,hi,pl,ph,lo,hi); } }
  Poly* polyC(const Q&q){ if(q==0) return poly({}); return poly({{ONE?ONE:mono({}),q}}); }
  Poly* polyA(Atom*a){ return poly({{mono({{a,1}}),Q(1)}}); }
  Poly* padd(Poly*a,Poly*b,const Q& cb=Q(1)){ std::vector<std::pair<Mono*,Q>> v=a->t; for(auto&x:b->t) v.push_back({x.first,x.second*cb}); return poly(std::move(v)); }
  Poly* pscale(Poly*a,const Q&c){ if(c==1) return a; std::vector<std::pair<Mono*,Q>> v; for(auto&x:a->t) v.push_back({x.first,x.second*c}); return poly(std::move(v)); }
  Poly* pneg(Poly*a){ return pscale(a,Q(-1)); }
  Poly* psub(Poly*a,Poly*b){ return padd(a,b,Q(-1)); }
  std::map<std::pair<Poly*,Poly*>,Poly*> mulMemo; std::unordered_map<Poly*,Atom*> polyAtom;
  // product of monomials may need rewriting (sqrt^2 -> p)
  Poly* monoMul(Mono*m,Mono*n){
    std::map<uint32_t,std::pair<Atom*,int>> f; for(auto&x:m->f) f[x.first->id]={x.first,x.second}; for(auto&x:n->f){ auto&y=f[x.first->id]; y.first=x.first; y.second+=x.second; }
    std::vector<std::pair<Atom*,int>> v; Poly* extra=nullptr; for(auto&kv:f){ Atom*a=kv.second.first;int e=kv.second.second; if(e==0) continue; if(a->k==A_SQRT&&(e>=2||e<=-2||(e<0&&a->t->isConst()))){ int h=e/2; e-=2*h; if(e<0&&a->t->isConst()){ e+=2; h--; } Poly*q=a->t; if(h<0){ q=pinv(q); h=-h; } for(int i=0;i<h;i++) extra= extra? pmul(extra,q):q; if(e==0) continue; } v.push_back({a,e}); }
    Poly* r=poly({{mono(v),Q(1)}}); if(extra) r=pmul(r,extra); return r; }
  Atom* iteAtom(Mono*m){ return m->f.size()==1&&m->f[0].first->k==A_ITE&&m->f[0].second==1? m->f[0].first:nullptr; }
  Poly* pmul(Poly*a,Poly*b){ if(a->isConst()) return pscale(b,a->constVal()); if(b->isConst()) return pscale(a,b->constVal()); if(a->id>b->id) std::swap(a,b); auto key=std::make_pair(a,b); auto it=mulMemo.find(key); if(it!=mulMemo.end()) return it->second;
    Poly* res=cancel(a,b); if(!res) res=cancel(b,a);
    if(!res){ std::vector<std::pair<Mono*,Q>> acc; for(auto&x:a->t) for(auto&y:b->t){ Q c=x.second*y.second; Atom*ia=iteAtom(x.first),*ib=iteAtom(y.first); Poly* t;
      if(ia&&ib&&ia->cond==ib->cond) t=pite(ia->cond,pmul(ia->t,ib->t),pmul(ia->f,ib->f));
      else if(ia&&!y.first->f.empty()){ Poly* o=poly({{y.first,Q(1)}}); t=pite(ia->cond,pmul(ia->t,o),pmul(ia->f,o)); }
      else if(ib&&!x.first->f.empty()){ Poly* o=poly({{x.first,Q(1)}}); t=pite(ib->cond,pmul(ib->t,o),pmul(ib->f,o)); }
      else if(x.first->f.empty()){ acc.push_back({y.first,c}); continue; } else if(y.first->f.empty()){ acc.push_back({x.first,c}); continue; }
      else t=monoMul(x.first,y.first);
      for(auto&z:t->t) acc.push_back({z.first,z.second*c}); }
      res=poly(std::move(acc)); }
    mulMemo[key]=res; return res; }
  // a multi-term poly; b containing A_POLY(a/c)^-1 in every term => cancel
  Poly* cancel(Poly*a,Poly*b){ if(a->t.size()<2) return nullptr; Q lead=a->t[0].second; Poly* m=pscale(a,1/lead); auto pit=polyAtom.find(m); if(pit==polyAtom.end()) return nullptr; Atom*pa=pit->second;
    std::vector<std::pair<Mono*,Q>> v; for(auto&x:b->t){ auto f=x.first->f; bool ok=false; for(auto&y:f) if(y.first==pa&&y.second<0){ y.second++; ok=true; } if(!ok) return nullptr; std::vector<std::pair<Atom*,int>> g; for(auto&y:f) if(y.second) g.push_back(y); v.push_back({mono(g),x.second*lead}); } return poly(std::move(v)); }
  Poly* pinv(Poly*a){ // 1/a, a != 0
    if(a->isConst()) return polyC(1/a->constVal());
    if(a->t.size()==1){ if(Atom*ia=iteAtom(a->t[0].first)) return pscale(pite(ia->cond,pinvSafe(ia->t),pinvSafe(ia->f)),1/a->t[0].second);
      std::vector<std::pair<Atom*,int>> f=a->t[0].first->f; for(auto&x:f) x.second=-x.second; return pscale(monoMul(mono(f),ONE),1/a->t[0].second); }
    Q lead=a->t[0].second; Poly*m=pscale(a,1/lead); Atom*at=nullptr; auto pit=polyAtom.find(m); if(pit!=polyAtom.end()) at=pit->second; if(!at){ at=newAtom(A_POLY); polyAtom[m]=at; at->t=m; at->lo=m->lo;at->hi=m->hi;at->gran=m->gran;at->exact=false; }
    return poly({{mono({{at,-1}}),1/lead}}); }
  Poly* pinvSafe(Poly*a){ if(a->isConst()&&a->constVal()==0) return ZERO; return pinv(a); }
  Poly* pdiv(Poly*a,Poly*b){ if(a==b) return PONE; if(!b->isConst()&&a->t.size()==b->t.size()&&a->t.size()>0){ Q r=a->t[0].second/b->t[0].second; if(pscale(b,r)==a) return polyC(r);} return pmul(a,pinv(b)); }
  Atom* newAtom(AKind k){ Atom*a=new Atom; a->k=k;a->id=atoms.size();a->cond=nullptr;a->t=a->f=nullptr;a->lo=-INFINITY;a->hi=INFINITY;a->gran=0;a->exact=true; atoms.push_back(a); return a; }
  std::map<std::tuple<Expr*,Poly*,Poly*>,Atom*> iteTab; std::unordered_map<Poly*,Atom*> sqrtTab; std::unordered_map<Expr*,Atom*> sitTab;
  Poly* pite(Expr*c,Poly*a,Poly*b){ if(isC(c)) return c->imm?a:b; if(a==b) return a; if(c->k==K_XOR&&c->w==1&&isC(c->b)) return pite(c->a,b,a);
    // factor a common additive part: ite(c,x+a,x+b)
    { std::vector<std::pair<Mono*,Q>> com,ra,rb; size_t i=0,j=0; while(i<a->t.size()||j<b->t.size()){ if(j>=b->t.size()||(i<a->t.size()&&a->t[i].first->id<b->t[j].first->id)) ra.push_back(a->t[i++]); else if(i>=a->t.size()||b->t[j].first->id<a->t[i].first->id) rb.push_back(b->t[j++]); else { if(a->t[i].second==b->t[j].second) com.push_back(a->t[i]); else { ra.push_back(a->t[i]); rb.push_back(b->t[j]); } i++;j++; } }
      if(!com.empty()){ return padd(poly(com),pite(c,poly(ra),poly(rb))); } }
    if(a->t.size()==1&&iteAtom(a->t[0].first)&&a->t[0].second==1&&iteAtom(a->t[0].first)->cond==c) return pite(c,iteAtom(a->t[0].first)->t,b);
    if(b->t.size()==1&&iteAtom(b->t[0].first)&&b->t[0].second==1&&iteAtom(b->t[0].first)->cond==c) return pite(c,a,iteAtom(b->t[0].first)->f);
    auto key=std::make_tuple(c,a,b); auto it=iteTab.find(key); if(it!=iteTab.end()) return polyA(it->second);
    Atom*at=newAtom(A_ITE); at->cond=c;at->t=a;at->f=b;at->lo=std::min(a->lo,b->lo);at->hi=std::max(a->hi,b->hi);at->gran=std::min(a->gran,b->gran);at->exact=a->exact&&b->exact; if(c->p&&(c->k==K_RLT0||c->k==K_RLE0)&&pneg(a)==b&&!c->p->isConst()){ Poly*np=c->p; Q r=b->t[0].second/np->t[0].second; if(b->t.size()==np->t.size()&&pscale(np,r)==b) { if(r>0) at->lo=std::max(at->lo,0.0); else at->hi=std::min(at->hi,0.0);} } iteTab[key]=at; return polyA(at); }
  // square root of a positive rational, as a rational times square roots of distinct primes
  // Pollard's rho; a composite that resists is kept as one radicand
  static void factorBig(const mpz_class&m,std::vector<mpz_class>&out){ if(m==1) return; if(mpz_perfect_square_p(m.get_mpz_t())){ mpz_class r=sqrt(m); factorBig(r,out); factorBig(r,out); return; } if(mpz_probab_prime_p(m.get_mpz_t(),25)){ out.push_back(m); return; }
    for(int c=1;c<4;c++){ mpz_class x=2,y=2,g=1,acc=1; auto f=[&](const mpz_class&v){ mpz_class t=v*v+c; return mpz_class(t%m); }; for(long i=0;i<400000&&g==1;i++){ x=f(x); y=f(f(y)); mpz_class df=abs(x-y); if(df==0){ g=m; break; } acc=acc*df%m; if(i%64==63||acc==0){ g=gcd(acc,m); acc=1; } } if(g!=1&&g!=m){ factorBig(g,out); factorBig(mpz_class(m/g),out); return; } } out.push_back(m); }
  Poly* csqrt(const Q&q){ mpz_class n=q.get_num(),d=q.get_den(); if(mpz_perfect_square_p(n.get_mpz_t())&&mpz_perfect_square_p(d.get_mpz_t())) return polyC(Q(sqrt(n),sqrt(d)));
    mpz_class m=n*d,k=1; std::vector<mpz_class> pr; for(unsigned long f=2;f<20000&&m>1;f+=(f==2?1:2)){ int e=0; while(mpz_divisible_ui_p(m.get_mpz_t(),f)){ m/=f; e++; } for(int i=0;i<e/2;i++) k*=f; if(e%2) pr.push_back(f); if(mpz_class(f)*f>m) break; }
    if(m>1){ std::vector<mpz_class> big; factorBig(m,big); std::sort(big.begin(),big.end()); for(size_t i=0;i<big.size();){ if(i+1<big.size()&&big[i]==big[i+1]){ k*=big[i]; i+=2; } else pr.push_back(big[i++]); } } Q c(k,d); c.canonicalize(); Poly*r=polyC(c); for(auto&x:pr) r=pmul(r,sqrtAtom(polyC(Q(x)))); return r; }
  Poly* sqrtAtom(Poly*p){ auto it=sqrtTab.find(p); if(it!=sqrtTab.end()) return polyA(it->second); Atom*a=newAtom(A_SQRT); a->t=p; a->lo=p->lo>0?std::sqrt(p->lo)*(1-1e-14):0; a->hi=std::sqrt(std::max(0.0,p->hi))*(1+1e-14); a->exact=false; sqrtTab[p]=a; return polyA(a); }
  Poly* psqrt(Poly*p){ // p >= 0
    if(p->isConst()){ Q q=p->constVal(); if(q==0) return ZERO; return csqrt(q); }
    if(p->t.size()==1){ if(Atom*ia=iteAtom(p->t[0].first)){ if(p->t[0].second==1) return pite(ia->cond,psqrt(ia->t),psqrt(ia->f)); }
      // c*x^2 -> sqrt(c)*|x|
      else { auto&f=p->t[0].first->f; bool ev=true; for(auto&x:f) if(x.second%2) ev=false; Q q=p->t[0].second; if(ev&&q>0){ Poly* r=csqrt(q); for(auto&x:f){ Poly* b=poly({{mono({{x.first,x.second/2}}),Q(1)}}); if((x.second/2)%2) b=pabs(b); r=pmul(r,b);} return r; } } }
    return sqrtAtom(p); }
  Poly* pabs(Poly*p){ if(p->lo>=0) return p; if(p->hi<=0) return pneg(p); return pite(mkRCmp0(K_RLT0,p),pneg(p),p); }
  Expr* mkReal(Poly*p,unsigned w=64){ return raw(K_REAL,w,0,nullptr,nullptr,nullptr,p); }
  Poly* asPoly(Expr*e){ if(e->k==K_REAL) return e->p; if(e->k==K_CONST){ if(e->w==32){ float f; uint32_t b=(uint32_t)e->imm; memcpy(&f,&b,4); return polyC(Q((double)f)); } return polyD(bits2d(e->imm)); } return nullptr; }
  Poly* polyD(double d){ return polyC(Q(d)); }
  Poly* realVar(const std::string&n,double lo,double hi,int gran){ auto it=rvars.find(n); Atom*a; if(it!=rvars.end()) a=it->second; else { a=newAtom(A_VAR); a->name=n;a->lo=lo;a->hi=hi;a->gran=gran; rvars[n]=a; } return polyA(a); }
  Expr* mkRCmp0(Kind k,Poly*p){ if(p->isConst()){ Q c=p->constVal(); bool r= k==K_REQ0? c==0 : k==K_RLT0? c<0 : c<=0; return C(r,1); }
    Q lead=p->t[0].second; if(p->t[0].first->f.empty()&&p->t.size()>1) lead=p->t[1].second; if(k!=K_REQ0&&lead<0) lead=-lead; if(lead!=1) p=pscale(p,1/lead);
    // single ITE: push in
    if(p->t.size()==1){ if(Atom*ia=iteAtom(p->t[0].first)){ Q c=p->t[0].second; return mkIte(ia->cond,mkRCmp0(k,pscale(ia->t,c)),mkRCmp0(k,pscale(ia->f,c))); } }
    if(p->t.size()==2&&p->t[0].first->f.empty()){ if(Atom*ia=iteAtom(p->t[1].first)){ Q c=p->t[1].second; Poly*k0=polyC(p->t[0].second); return mkIte(ia->cond,mkRCmp0(k,padd(k0,ia->t,c)),mkRCmp0(k,padd(k0,ia->f,c))); } }
    return foldr(raw(k,1,0,nullptr,nullptr,nullptr,p)); }
  Poly* psitofp(Expr*e,bool uns){ (void)uns; if(isC(e)) return polyC(Q((long)sextw(e->imm,e->w)));
    if(e->k==K_SEXT&&e->a->w>1) return psitofp(e->a,false);
    if(e->k==K_ADD||(e->k==K_MUL&&isC(e->b))){ Lin L; lin(e,1,L); int64_t lo,hi; if(noOvf(L,e->w,lo,hi)&&!(L.t.size()==1&&L.c==0&&L.t[0].first==e)){ Poly*r=polyC(Q((long)sextw(L.c,e->w))); for(auto&x:L.t) r=padd(r,psitofp(x.first,false),Q((long)sextw(x.second,e->w))); return r; } }
    if(e->k==K_MUL&&!isC(e->b)){ __int128 c[4]={(__int128)e->a->lo*e->b->lo,(__int128)e->a->lo*e->b->hi,(__int128)e->a->hi*e->b->lo,(__int128)e->a->hi*e->b->hi}; __int128 l=c[0],h=c[0]; for(auto v:c){ l=std::min(l,v); h=std::max(h,v); } int64_t fl,fh; fullRange(e->w,fl,fh); if(l>=fl&&h<=fh) return pmul(psitofp(e->a,false),psitofp(e->b,false)); }
    int64_t n=e->hi-e->lo; if(e->k==K_ITE) return pite(e->a,psitofp(e->b,uns),psitofp(e->c,uns));
    if(n>=0&&n<=3&&e->lo>INT64_MIN/2){ Poly*r=polyC(Q((long)e->hi)); for(int64_t v=e->hi-1;v>=e->lo;--v) r=pite(mkCmp(K_EQ,e,C((uint64_t)v,e->w)),polyC(Q((long)v)),r); return r; }
    auto it=sitTab.find(e); if(it!=sitTab.end()) return polyA(it->second); Atom*a=newAtom(A_SITOFP); a->cond=e; a->lo=(double)e->lo;a->hi=(double)e->hi; sitTab[e]=a; return polyA(a); }
  std::map<std::pair<std::string,std::vector<Poly*>>,Atom*> ufTab;
  Poly* puf(const std::string&n,std::vector<Poly*> args,double lo=-INFINITY,double hi=INFINITY){ auto key=std::make_pair(n,args); auto it=ufTab.find(key); if(it!=ufTab.end()) return polyA(it->second); Atom*a=newAtom(A_UF); a->name=n;a->args=args;a->lo=lo;a->hi=hi;a->exact=false; ufTab[key]=a; return polyA(a); }
};
