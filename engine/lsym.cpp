// lsym: bounded symbolic executor for LLVM bitcode (C++), deciding assertions with z3.
#include "solver.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <set>
#include <fstream>
#include <sstream>
#include <cinttypes>
#include <csignal>
#include <unistd.h>

using namespace llvm;
struct Val { uint64_t c; Expr* e; };

static Ctx X;
static Solver S(X);
static Evaluator EV(X);
static PathRanges PR(X);
static std::vector<Solver::Lit> PC;

// ------------------------------------------------------------ options / statistics
static std::string optEntry="harness"; static std::vector<long> optParams; static double optTimeout=60; static uint64_t optMaxPaths=2000000, optInstLimit=30000000; static int optSamples=2; static int optMaxViol=6; static bool optVerbose=false, optLeak=true; static uint64_t optSeed=1; static std::string optFixed; static bool optForks=false; static std::string curWhere();
static std::map<std::string,std::string> fixedVals; static bool haveFixed=false;
static double T0;
static uint64_t nPaths=0,nDone=0,nAbandoned=0,nAssumeEnd=0,nDecisions=0,nInst=0,nChecks=0,nTrivial=0,nOblQueries=0,nDischarged=0,nUndecided=0,nConcretised=0,nSpurious=0;
static std::set<std::string> covers; static std::map<std::string,uint64_t> abandonReasons; static std::set<const llvm::Function*> execFns;
static std::vector<std::string> sampleLines; static std::vector<std::string> violLines; static std::set<std::string> violKeys;

static std::string jesc(const std::string&s){ std::string r; for(unsigned char c:s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b;} else r+=c; } return r; }

// ------------------------------------------------------------ path outcomes
struct PathEnd { enum K { Normal, AssumeFail, Violation, Abandon, Refused } k; std::string kind,msg; };
struct RefuseSignal { int code; };

// ------------------------------------------------------------ decisions
struct Decision { Expr* cond; bool taken; bool altPending; size_t pcIndex; uint64_t val; bool hasVal; };
static std::vector<Decision> DEC; static size_t decDepth=0; static size_t prefixLen=0;
static void addPC(Expr*c,bool v){ PC.push_back({c,v}); PR.assume(c,v); }
static Val boolVal(bool b){ return Val{b?1ull:0ull,nullptr}; }
static int knownBool(Expr*c){ if(c->k==K_CONST) return c->imm&1; int64_t lo,hi; PR.get(c,lo,hi); if(lo==hi) return lo!=0; return -1; }
static bool decide(Expr*c){
  if(c->k==K_XOR&&c->w==1&&c->b->k==K_CONST) return !decide(c->a);
  int kb=knownBool(c); if(kb>=0) return kb;
  nDecisions++;
  bool v; if(decDepth<prefixLen){ Decision&d=DEC[decDepth]; if(d.cond!=c) { fprintf(stderr,"lsym: replay divergence\n"); _exit(4);} v=d.taken; d.pcIndex=PC.size(); decDepth++; }
  else { v=EV.bv(c)!=0; DEC.push_back({c,v,true,PC.size(),0,false}); decDepth++; prefixLen=DEC.size(); if(optForks) fprintf(stderr,"FORK %s\n",curWhere().c_str()); }
  addPC(c,v); return v; }
static uint64_t concretise(Expr*e){ // fork over the values of e
  if(e->k==K_CONST) return e->imm; 
  for(;;){ int64_t lo,hi; PR.get(e,lo,hi); if(lo==hi) return (uint64_t)lo&maskw(e->w);
    if(e->w==1) return decide(e);
    uint64_t v; bool replay=decDepth<prefixLen; if(replay){ uint64_t v0=EV.bv(e); if(knownBool(X.mkCmp(K_EQ,e,X.C(v0,e->w)))==1) return v0; v=DEC[decDepth].val; } else v=EV.bv(e);
    Expr*c=X.mkCmp(K_EQ,e,X.C(v,e->w)); 
    int kb=knownBool(c); if(kb==1) return v; if(kb==0){ // cannot be (model inconsistent): fall back to lo
      if(replay){ }
      Model m; auto r=S.check(PC,nullptr,&m); if(r==Solver::SAT){ EV.set(m); v=EV.bv(e); c=X.mkCmp(K_EQ,e,X.C(v,e->w)); kb=knownBool(c); if(kb==1) return v; if(kb==0) throw PathEnd{PathEnd::Abandon,"","concretise-inconsistent"}; } else throw PathEnd{PathEnd::AssumeFail,"",""}; }
    nConcretised++;
    size_t at=decDepth; bool neg=c->k==K_XOR&&c->w==1&&c->b->k==K_CONST; (void)neg; bool r=decide(c); if(decDepth>at){ DEC[at].val=v; DEC[at].hasVal=true; }
    if(r) return v; } }
static bool ensureModel(){ Model m; auto r=S.check(PC,nullptr,&m); if(r==Solver::UNSAT) return false; if(r==Solver::SAT) EV.set(m); return true; }
static bool modelOK(){ for(auto&l:PC) if((EV.bv(l.e)!=0)!=l.v) return false; return true; }
static void assumeE(Expr*c){ int kb=knownBool(c); if(kb==1) return; if(kb==0) throw PathEnd{PathEnd::AssumeFail,"",""}; addPC(c,true);
  if(decDepth<prefixLen) return; if(EV.bv(c)==0){ if(!ensureModel()) throw PathEnd{PathEnd::AssumeFail,"",""}; } }

// ------------------------------------------------------------ inputs (ordered)
struct Input { std::string name; bool real; Expr* e; Atom* a; };
static std::vector<Input> inputs; static std::map<std::string,int> nameCnt;
struct LogE { std::string label; Val v; bool isD; }; static std::vector<LogE> logs;
struct PendingCheck { Expr* c; std::string msg; }; static std::vector<PendingCheck> pend;

static std::string curWhere();
static std::string inputsJSON(){ std::string r="["; bool f=true; char buf[64]; for(auto&i:inputs){ if(!f) r+=","; f=false; if(i.real){ Q q=EV.atom(i.a); snprintf(buf,64,"%a",q.get_d()); r+="[\""+jesc(i.name)+"\",\"d\",\""+buf+"\",\""+q.get_str()+"\"]"; } else { int64_t v=sextw(EV.bv(i.e),i.e->w); snprintf(buf,64,"%" PRId64,v); r+="[\""+jesc(i.name)+"\",\"i\",\""+buf+"\"]"; } } return r+"]"; }
static void reportViolation(const std::string&kind,const std::string&msg,const std::string&where){
  std::string key=kind+"|"+msg; int cnt=0; for(auto&k:violKeys) if(k.compare(0,key.size(),key)==0) cnt++; if(cnt>=3) return; 
  violKeys.insert(key+"|"+std::to_string(violLines.size()));
  violLines.push_back("{\"kind\":\""+jesc(kind)+"\",\"msg\":\""+jesc(msg)+"\",\"where\":\""+jesc(where)+"\",\"inputs\":"+inputsJSON()+"}");  printf("VIOL %s\n",violLines.back().c_str()); fflush(stdout); }
// Decide PC (+ negated check). Returns SAT with EV set to a model of it, UNSAT, or UNKNOWN.
static bool litsHold(const Solver::Lit*extra){ if(!modelOK()) return false; if(extra) return (EV.bv(extra->e)!=0)==extra->v; return true; }
static Solver::R solveFull(const Solver::Lit*extra){
  Model saved=EV.M; Model m; nOblQueries++; auto r=S.check(PC,extra,&m); if(r==Solver::UNSAT) return r;
  std::unordered_set<Mono*> sm; std::unordered_set<Atom*> sa;
  bool need=S.needRefine(PC,extra,sm,sa);
  if(r==Solver::SAT){ EV.set(m); bool ok=litsHold(extra); if(ok&&!need){ Model d; auto r2=S.checkPrecise(PC,extra,&d,2000,true); if(r2==Solver::SAT){ EV.set(d); if(!litsHold(extra)) EV.set(m);} else EV.set(m); return Solver::SAT; } 
    if(ok&&need&&S.ufPairs(sa).empty()) return Solver::SAT; } // (the evaluation of a model does not know congruence)
  Model d; auto r2=S.checkPrecise(PC,extra,&d,10000,false); if(r2==Solver::UNSAT){ EV.set(saved); return r2; }
  if(r2==Solver::SAT){ EV.set(d); Model d2; auto r3=S.checkPrecise(PC,extra,&d2,3000,true); if(r3==Solver::SAT) EV.set(d2); return Solver::SAT; }
  // undecided: try concrete candidates derived from the abstract model and pseudo-random ones (only to find a witness)
  for(int t=0;t<200;t++){ Model c=m; uint64_t h=optSeed*7919+t*104729; for(auto&i:inputs) if(i.real&&(t>0||!c.rv.count(i.a))){ h=h*6364136223846793005ull+1442695040888963407ull; long n=(long)((h>>33)%41)-20; Q q(n,t%3==0?8:1); q.canonicalize(); double dl=i.a->lo,dh=i.a->hi; if(q<Q(dl)) q=Q(dl); if(q>Q(dh)) q=Q(dh); c.rv[i.a]=q; } EV.set(c); if(litsHold(extra)) return Solver::SAT; }
  EV.set(saved); return Solver::UNKNOWN; }
static void flushChecks(){ if(pend.empty()) return;
  Expr*all=X.T(); for(auto&p:pend) all=X.mkAnd(all,p.c);
  auto list=pend; pend.clear();
  Solver::Lit neg{all,false}; auto r=solveFull(&neg);
  if(r==Solver::UNSAT){ nDischarged+=list.size(); return; }
  if(r==Solver::SAT){ std::string msg; bool some=false; for(auto&p:list) if(EV.bv(p.c)==0){ reportViolation("check",p.msg,""); some=true; break; } if(!some) nUndecided++; return; }
  // undecided as a whole: one by one
  for(auto&p:list){ Solver::Lit n1{p.c,false}; auto r1=solveFull(&n1); if(r1==Solver::UNSAT) nDischarged++; else if(r1==Solver::SAT) reportViolation("check",p.msg,""); else nUndecided++; } }
static void checkE(Expr*c,const std::string&msg){ nChecks++; int kb=knownBool(c); if(kb==1){ nTrivial++; nDischarged++; return; } 
  pend.push_back({c,msg}); if(kb==0){ flushChecks(); throw PathEnd{PathEnd::Normal,"",""}; } if(pend.size()>400) flushChecks(); }

[[noreturn]] static void violation(const std::string&kind,const std::string&msg){ throw PathEnd{PathEnd::Violation,kind,msg}; }
[[noreturn]] static void abandon(const std::string&msg){ throw PathEnd{PathEnd::Abandon,"",msg}; }

// ------------------------------------------------------------ memory
enum OK : uint8_t { O_GLOBAL, O_STACK, O_HEAP, O_FUNC, O_RT, O_EXTERN };
struct Obj { uint64_t base; uint64_t size; uint8_t* b; uint8_t* m; Expr** s; OK kind; bool alive, ro, dirty; uint8_t akind; const void* tag; };
// meta byte: 0 undefined, 1 concrete, k>=2: byte k-2 of a symbolic entry
static std::vector<Obj> OBJ; static size_t nGlobals=0;
static const int ASH=26; // 64 MB per object
static uint64_t newObj(uint64_t size,OK kind,bool def){ if(size>(1ull<<(ASH-1))) abandon("object too large"); Obj o; uint64_t id=OBJ.size(); o.base=((id+1)<<ASH)|0x1000; o.size=size; o.kind=kind;o.alive=true;o.ro=false;o.dirty=false;o.akind=0;o.tag=nullptr; o.b=(uint8_t*)malloc(size*2+16); o.m=o.b+size; memset(o.b,0,size); memset(o.m,def?1:0,size); o.s=nullptr; OBJ.push_back(o); return id; }
static void freeBuf(Obj&o){ if(o.b){ free(o.b); o.b=nullptr;o.m=nullptr;} if(o.s){ free(o.s); o.s=nullptr; } }
static inline Obj* findObj(uint64_t a){ uint64_t id=(a>>ASH); if(id==0||id>OBJ.size()) return nullptr; return &OBJ[id-1]; }
static std::string hex(uint64_t v){ char b[32]; snprintf(b,32,"0x%" PRIx64,v); return b; }
static Obj* access(uint64_t a,uint64_t n,bool write,uint64_t&off){
  Obj*o=findObj(a); if(!o){ violation("memory", a<4096? "null pointer access":"wild pointer access "); }
  if(!o->alive){ violation("memory", o->kind==O_STACK? "access to a dead stack object":"use after free"); }
  if(o->kind==O_FUNC||o->kind==O_EXTERN) violation("memory","access to opaque object");
  off=a-o->base; if(a<o->base||off>o->size||n>o->size-off) violation("memory", std::string("out-of-bounds ")+(write?"write":"read"));
  if(write){ if(o->ro) violation("memory","write to constant"); o->dirty=true; }
  return o; }
static Expr* byteAt(Obj*o,uint64_t off){ uint8_t m=o->m[off]; if(m==0) return X.UNDEF; if(m==1) return X.C(o->b[off],8); unsigned k=m-2; Expr*e=o->s[off-k]; if(e->k==K_REAL) abandon("partial read of a symbolic real"); return X.mkExtract(e->w<8? X.mkZext(e,8):e,k*8,8); }
static Val loadN(Obj*o,uint64_t off,unsigned n,unsigned w){
  uint8_t*m=o->m+off; bool conc=true; for(unsigned i=0;i<n;i++) if(m[i]!=1){conc=false;break;}
  if(conc){ uint64_t v=0; memcpy(&v,o->b+off,n); return Val{v&maskw(w),nullptr}; }
  bool allU=true; for(unsigned i=0;i<n;i++) if(m[i]!=0){allU=false;break;} if(allU) return Val{0,X.UNDEF};
  if(m[0]==2){ Expr*e=o->s[off]; unsigned eb=(e->w+7)/8; if(eb==n){ bool ok=true; for(unsigned i=1;i<n;i++) if(m[i]!=2+i){ok=false;break;} if(ok){ if(e->k==K_REAL) return Val{0,e}; if(e->w==w) return Val{0,e}; if(e->w<w) return Val{0,X.mkZext(e,w)}; Expr*x=X.mkExtract(e,0,w); if(x->k==K_CONST) return Val{x->imm,nullptr}; return Val{0,x}; } } }
  Expr*r=nullptr; for(int i=(int)n-1;i>=0;i--){ Expr*b=byteAt(o,off+i); if(b->k==K_UNDEF) return Val{0,X.UNDEF}; r= r? X.mkConcat(r,b):b; }
  if(r->w>w) r=X.mkExtract(r,0,w); if(r->k==K_CONST) return Val{r->imm,nullptr}; return Val{0,r}; }
static void breakEntry(Obj*o,uint64_t off,uint64_t lo,uint64_t hi){ // symbolic entry overlapping [lo,hi) but not contained: split the rest into bytes
  uint8_t mm=o->m[off]; if(mm<2) return; uint64_t st=off-(mm-2); Expr*e=o->s[st]; unsigned eb=(e->w+7)/8; if(st>=lo&&st+eb<=hi) return; 
  if(e->k==K_REAL) abandon("partial overwrite of a symbolic real");
  std::vector<Expr*> by; for(unsigned k=0;k<eb;k++) by.push_back(X.mkExtract(e->w<8?X.mkZext(e,8):e,k*8,8)); for(unsigned k=0;k<eb;k++){ if(by[k]->k==K_CONST){ o->b[st+k]=(uint8_t)by[k]->imm; o->m[st+k]=1; } else { o->s[st+k]=by[k]; o->m[st+k]=2; } } }
static void prepWrite(Obj*o,uint64_t off,uint64_t n){ if(!o->s||n==0) return; if(o->m[off]>2) breakEntry(o,off,off,off+n); if(off+n<o->size&&o->m[off+n]>2) breakEntry(o,off+n,off,off+n); }
static void storeN(Obj*o,uint64_t off,unsigned n,Val v){ prepWrite(o,off,n);
  if(!v.e){ memcpy(o->b+off,&v.c,n); memset(o->m+off,1,n); return; }
  if(v.e->k==K_UNDEF){ memset(o->m+off,0,n); return; }
  Expr*e=v.e; if(e->k!=K_REAL&&(e->w+7)/8!=n){ e= e->w<n*8? X.mkZext(e,n*8): X.mkExtract(e,0,n*8); }
  if(e->k==K_REAL&&e->w!=n*8) abandon("size mismatch storing real");
  if(!o->s) o->s=(Expr**)calloc(o->size,sizeof(Expr*)); o->s[off]=e; for(unsigned i=0;i<n;i++) o->m[off+i]=2+i; }
static void copyMem(uint64_t d,uint64_t s,uint64_t n){ if(n==0) return; uint64_t so,dof; Obj*a=access(s,n,false,so); Obj*b=access(d,n,true,dof);
  // entries cut at the edges of the source are materialised bytewise
  if(a->s){ if(a->m[so]>2) { Obj*t=a; breakEntry(t,so,so,so); } if(so+n<a->size&&a->m[so+n]>2) breakEntry(a,so+n,so+n,so+n); }
  prepWrite(b,dof,n); if(a->s&&!b->s) b->s=(Expr**)calloc(b->size,sizeof(Expr*)); memmove(b->b+dof,a->b+so,n); memmove(b->m+dof,a->m+so,n); if(a->s) memmove(b->s+dof,a->s+so,n*sizeof(Expr*)); }
static std::string cstr(uint64_t a){ std::string r; for(;;){ uint64_t off; Obj*o=access(a,1,false,off); Val v=loadN(o,off,1,8); if(v.e) abandon("symbolic C string"); if(!v.c) break; r+=(char)v.c; a++; if(r.size()>4096) break; } return r; }

// ------------------------------------------------------------ value helpers
static inline Expr* ex(Val v,unsigned w){ return v.e? v.e : X.C(v.c,w); }
static inline Val fromE(Expr*e){ if(e->k==K_CONST) return Val{e->imm,nullptr}; return Val{0,e}; }
static bool repr(const Q&q,double&d){ d=q.get_d(); return Q(d)==q; }
static Val fromP(Poly*p,unsigned w=64){ if(p->isConst()){ double d; Q q=p->constVal(); if(repr(q,d)){ if(w==32){ float f=(float)d; uint32_t b; memcpy(&b,&f,4); return Val{b,nullptr}; } return Val{d2bits(d),nullptr}; } } return Val{0,X.mkReal(p,w)}; }
static double asD(Val v,unsigned w){ if(w==32){ float f; uint32_t b=(uint32_t)v.c; memcpy(&f,&b,4); return f; } return bits2d(v.c); }
static Val fromD(double d,unsigned w){ if(w==32){ float f=(float)d; uint32_t b; memcpy(&b,&f,4); return Val{b,nullptr}; } return Val{d2bits(d),nullptr}; }
static bool isUndef(Val v){ return v.e&&v.e->k==K_UNDEF; }
static Poly* polyOf(Val v,unsigned w){ if(v.e){ if(v.e->k==K_REAL) return v.e->p; // bit pattern expression: only ITE/CONST trees of constants supported
    if(v.e->k==K_ITE){ return X.pite(v.e->a,polyOf(fromE(v.e->b),w),polyOf(fromE(v.e->c),w)); }
    abandon("symbolic integer used as floating point"); } double d=asD(v,w); if(!std::isfinite(d)) return nullptr; return X.polyC(Q(d)); }
static Expr* bvOf(Val v,unsigned w){ if(v.e&&v.e->k==K_REAL) abandon("symbolic real used as integer"); return ex(v,w); }
static uint64_t concVal(Val v){ if(!v.e) return v.c; if(v.e->k==K_UNDEF) violation("undefined","use of an uninitialised value"); if(v.e->k==K_REAL) abandon("real concretised as int"); return concretise(v.e); }
static bool condBool(Val v){ if(!v.e) return v.c&1; if(v.e->k==K_UNDEF) violation("undefined","branch on an uninitialised value"); return decide(v.e); }

// symbolic address resolution: returns concrete base object and offset expression range, or concretises
struct SymAddr { bool conc; uint64_t a; Obj*o; Expr*off; uint64_t lo,hi,step; };
static SymAddr resolve(Val p,unsigned n,bool write){
  if(!p.e) return {true,p.c,nullptr,nullptr,0,0,0}; if(p.e->k==K_UNDEF) violation("undefined","dereference of an uninitialised pointer");
  if(p.e->k==K_REAL) abandon("real as pointer");
  Expr*e=p.e; int64_t lo,hi; PR.get(e,lo,hi); if(lo==hi) return {true,(uint64_t)lo,nullptr,nullptr,0,0,0};
  Ctx::Lin L; X.lin(e,1,L);
  // candidate object from the range or the constant part
  Obj*o=nullptr; if(lo>0&&(lo>>ASH)==(hi>>ASH)) o=findObj((uint64_t)lo);
  if(!o){ uint64_t v; // range leaves one object: fork on staying inside the object the constant base names
    Obj*bo=findObj(L.c); if(bo&&bo->alive&&bo->kind!=O_FUNC){ Expr*in=X.mkAnd(X.mkCmp(K_ULE,X.C(bo->base,64),e),X.mkCmp(K_ULE,e,X.C(bo->base+bo->size-std::min<uint64_t>(bo->size,n),64))); if(!decide(in)){ violation("memory",std::string("out-of-bounds ")+(write?"write":"read")); } PR.get(e,lo,hi); if(lo==hi) return {true,(uint64_t)lo,nullptr,nullptr,0,0,0}; if(lo>0&&(lo>>ASH)==(hi>>ASH)) o=findObj((uint64_t)lo); }
    if(!o){ v=concretise(e); return {true,v,nullptr,nullptr,0,0,0}; } }
  if(!o->alive||o->kind==O_FUNC||o->kind==O_EXTERN){ return {true,concretise(e),nullptr,nullptr,0,0,0}; }
  if(o->size<n) violation("memory",std::string("out-of-bounds ")+(write?"write":"read"));
  uint64_t maxa=o->base+o->size-n; if((uint64_t)lo<o->base||(uint64_t)hi>maxa){ Expr*in=X.mkAnd(X.mkCmp(K_ULE,X.C(o->base,64),e),X.mkCmp(K_ULE,e,X.C(maxa,64))); if(!decide(in)) violation("memory",std::string("out-of-bounds ")+(write?"write":"read")); PR.get(e,lo,hi); lo=std::max<int64_t>(lo,o->base); hi=std::min<int64_t>(hi,maxa); if(lo==hi) return {true,(uint64_t)lo,nullptr,nullptr,0,0,0}; }
  // stride
  uint64_t g=0; for(auto&t:L.t){ uint64_t c=(uint64_t)std::llabs(sextw(t.second,64)); g=std::__gcd(g,c); } if(g==0) g=1; { int64_t nl,nh; if(!X.noOvf(L,64,nl,nh)) g&=(~g+1); } // modulo 2^64 only the power-of-two part of a stride is invariant
  int64_t sc=(int64_t)(L.c-o->base)%(int64_t)g; uint64_t c0=(uint64_t)(sc<0?sc+(int64_t)g:sc); uint64_t l=(uint64_t)lo-o->base,h=(uint64_t)hi-o->base; uint64_t l2=l+((c0+g-(l%g))%g); if(l2>h) l2=l; 
  if(g<n||(h-l2)/g>200){ return {true,concretise(e),nullptr,nullptr,0,0,0}; }
  return {false,0,o,X.mkSub(e,X.C(o->base,64)),l2,h,g}; }
static Val loadVal(Val p,unsigned n,unsigned w,bool isPtr,bool isFP=false){
  SymAddr r=resolve(p,n,false); uint64_t off; if(r.conc){ Obj*o=access(r.a,n,false,off); return loadN(o,off,n,w); }
  if(isPtr){ uint64_t a=concretise(p.e); Obj*o=access(a,n,false,off); return loadN(o,off,n,w); }
  Expr*acc=nullptr; bool anyReal=false; std::vector<std::pair<uint64_t,Val>> vs; for(uint64_t k=r.lo;k<=r.hi;k+=r.step){ Val v=loadN(r.o,k,n,w); if(isUndef(v)){ // must not be the addressed one
        Expr*c=X.mkCmp(K_EQ,r.off,X.C(k,64)); if(decide(c)) return v; continue; } if((v.e&&v.e->k==K_REAL)||isFP) anyReal=true; vs.push_back({k,v}); }
  if(vs.empty()) abandon("no candidate for symbolic load");
  if(anyReal){ // pathwise: build real ITE
    Poly*pa=nullptr; for(size_t i=vs.size();i-->0;){ Poly*q=polyOf(vs[i].second,w); if(!q){ uint64_t a=concretise(p.e); Obj*o=access(a,n,false,off); return loadN(o,off,n,w);} pa= pa? X.pite(X.mkCmp(K_EQ,r.off,X.C(vs[i].first,64)),q,pa):q; } return fromP(pa,w); }
  for(size_t i=vs.size();i-->0;){ Expr*q=ex(vs[i].second,w); acc= acc? X.mkIte(X.mkCmp(K_EQ,r.off,X.C(vs[i].first,64)),q,acc):q; }
  return fromE(acc); }
static bool valIsDoubleish(Val v){ return v.e&&v.e->k==K_REAL; }
static void storeVal(Val p,unsigned n,Val v,unsigned w,bool isPtr,bool isFP){
  SymAddr r=resolve(p,n,true); uint64_t off; if(!r.conc&&(isPtr||isUndef(v))){ r.conc=true; r.a=concretise(p.e); }
  if(r.conc){ Obj*o=access(r.a,n,true,off); storeN(o,off,n,v); return; }
  if(r.o->ro) violation("memory","write to constant"); r.o->dirty=true;
  // every candidate slot must be defined or we concretise
  for(uint64_t k=r.lo;k<=r.hi;k+=r.step){ Val old=loadN(r.o,k,n,w); if(isUndef(old)){ uint64_t a=concretise(p.e); Obj*o=access(a,n,true,off); storeN(o,off,n,v); return; } if(isFP&&!old.e&&!std::isfinite(asD(old,w))){ uint64_t a=concretise(p.e); Obj*o=access(a,n,true,off); storeN(o,off,n,v); return; } }
  for(uint64_t k=r.lo;k<=r.hi;k+=r.step){ Val old=loadN(r.o,k,n,w); Expr*c=X.mkCmp(K_EQ,r.off,X.C(k,64)); int kb=knownBool(c); if(kb==0) continue; Val nv; if(valIsDoubleish(old)||valIsDoubleish(v)||isFP){ Poly*a=polyOf(v,w),*b=polyOf(old,w); if(!a||!b) abandon("nonfinite symbolic store"); nv=fromP(X.pite(c,a,b),w); } else nv=fromE(X.mkIte(c,ex(v,w),ex(old,w))); storeN(r.o,k,n,nv); } }

#include "interp.hpp"

// ------------------------------------------------------------ driver
static void runPath(DFunc*entry){
  fiberReset(); resetMemory(); PC.clear(); PR.reset(); inputs.clear(); nameCnt.clear(); logs.clear(); pend.clear(); FR.clear(); regTop=0; decDepth=0; prefixLen=DEC.size(); excTI.clear(); tiIdx.clear(); leakOK=false; pathInst=0;
  // global constructors
  if(auto*gc=MOD->getNamedGlobal("llvm.global_ctors")) if(gc->hasInitializer()) if(auto*ca=dyn_cast<ConstantArray>(gc->getInitializer())) for(unsigned i=0;i<ca->getNumOperands();i++){ auto*f=dyn_cast<llvm::Function>(ca->getOperand(i)->getAggregateElement(1u)->stripPointerCasts()); if(!f) continue; pushFrame(fns[f]); runLoop(0); }
  size_t heap0=OBJ.size();
  pushFrame(entry); runLoop(0);
  flushChecks();
  if(optLeak&&!leakOK){ for(size_t i=heap0;i<OBJ.size();i++) if(OBJ[i].alive&&OBJ[i].kind==O_HEAP) violation("leak","heap object still allocated when the harness ends"); } }
static void takeSample(){ if((int)sampleLines.size()>=optSamples) return; Model saved=EV.M; Model m; auto r=S.checkPrecise(PC,nullptr,&m,3000,true); if(r!=Solver::SAT){ return; } EV.set(m); if(!modelOK()){ EV.set(saved); return; }
  std::string s="{\"inputs\":"+inputsJSON()+",\"logs\":["; bool f=true; char buf[64]; for(auto&l:logs){ if(!f) s+=","; f=false; if(isUndef(l.v)) snprintf(buf,64,"undef"); else if(l.isD){ Val v=l.v; double x; if(!v.e) x=bits2d(v.c); else x=EV.real(polyOf(v,64)).get_d(); snprintf(buf,64,"%a",x);} else { Val v=l.v; int64_t x= !v.e? sextw(v.c,64): sextw(EV.bv(v.e),v.e->w); snprintf(buf,64,"%" PRId64,x);} s+="[\""+jesc(l.label)+"\",\""+buf+"\"]"; } s+="]}"; sampleLines.push_back(s); }

int main(int argc,char**argv){
  std::string bc; bool complete=true; int sampleEvery=1;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); };
    if(a=="--entry") optEntry=nx(); else if(a=="--param") optParams.push_back(atol(nx().c_str())); else if(a=="--timeout") optTimeout=atof(nx().c_str()); else if(a=="--max-paths") optMaxPaths=atoll(nx().c_str()); else if(a=="--inst-limit") optInstLimit=atoll(nx().c_str()); else if(a=="--samples") optSamples=atoi(nx().c_str()); else if(a=="--no-leak") optLeak=false; else if(a=="--verbose") optVerbose=true; else if(a=="--seed") optSeed=atoll(nx().c_str()); else if(a=="--query-ms"){ S.timeoutMs=atoi(nx().c_str()); } else if(a=="--dump"){ S.dumpDir=nx(); S.dumpMax=40; } else if(a=="--forks") optForks=true; else if(a=="--fixed"){ optFixed=nx(); } else bc=a; }
  z3::params p(S.z); p.set("timeout",S.timeoutMs); S.s.set(p); T0=nowSec();
  if(!optFixed.empty()){ haveFixed=true; std::ifstream f(optFixed); std::string n,v; while(f>>n>>v) fixedVals[n]=v; }
  LLVMContext ctx; SMDiagnostic err; MOD=parseIRFile(bc,err,ctx); if(!MOD){ err.print("lsym",errs()); return 3; } DL=&MOD->getDataLayout();
  REG.resize(1<<20); 
  try { setupGlobals(); } catch(std::exception&e){ fprintf(stderr,"lsym: %s\n",e.what()); return 3; }
  auto*EF=MOD->getFunction(optEntry); if(!EF){ fprintf(stderr,"lsym: no entry %s\n",optEntry.c_str()); return 3; } DFunc*entry=fns[EF];
  std::set<std::string> spurMsgs;
  for(;;){
    try { nPaths++; runPath(entry); nDone++; if(nDone==1||(nDone%sampleEvery)==0){ takeSample(); sampleEvery*=3; } }
    catch(PathEnd&e){
      switch(e.k){ case PathEnd::Normal: try { flushChecks(); } catch(PathEnd&){} nDone++; break; case PathEnd::AssumeFail: try { flushChecks(); } catch(PathEnd&){} nAssumeEnd++; break;
        case PathEnd::Abandon: try { flushChecks(); } catch(PathEnd&){} nAbandoned++; abandonReasons[e.msg]++; if(e.msg=="time budget") complete=false; break;
        case PathEnd::Violation: { std::string w; try { w=curWhere(); } catch(...){} try { flushChecks(); } catch(PathEnd&){} auto r=solveFull(nullptr); if(r==Solver::UNSAT){ nSpurious++; } else reportViolation(e.kind,e.msg,w); nDone++; break; }
        default: break; } }
    if(violLines.size()>=(size_t)optMaxViol){ complete=false; break; }
    if(nowSec()-T0>optTimeout||nPaths>=optMaxPaths){ // anything left?
      bool left=false; for(auto&d:DEC) if(d.altPending) left=true; if(left) { complete=false; break; } }
    bool again=false; while(!DEC.empty()){ Decision&d=DEC.back(); if(d.altPending){ d.altPending=false; PC.resize(d.pcIndex); Solver::Lit neg{d.cond,!d.taken}; Model m; auto r=S.check(PC,&neg,&m); if(r!=Solver::UNSAT){ d.taken=!d.taken; if(r==Solver::SAT) EV.set(m); again=true; break; } } DEC.pop_back(); if(nowSec()-T0>optTimeout*1.5+20){ complete=false; again=false; DEC.clear(); break; } }
    if(!again) break; }
  double wall=nowSec()-T0;
  for(auto&s:sampleLines) printf("SAMPLE %s\n",s.c_str());
  std::set<std::string> fl; for(auto*F:execFns){ std::string n=demangled(F->getName().str()); if(n.find("linalgcpp::")!=std::string::npos){ size_t p=n.rfind(')'); (void)p; if(n.compare(0,5,"std::")==0) continue; if(n.find("std::")!=std::string::npos&&n.find("linalgcpp::")>n.find("std::")) { // keep only functions of the library
          if(n.compare(0,4,"void")!=0&&n.compare(0,9,"linalgcpp")!=0) continue; if(n.compare(0,9,"void std:")==0) continue; } if(n.size()>160) n=n.substr(0,160); fl.insert(n);} }
  printf("STATS {\"complete\":%s,\"paths\":%llu,\"done\":%llu,\"abandoned\":%llu,\"assume_end\":%llu,\"spurious\":%llu,\"decisions\":%llu,\"concretised\":%llu,\"instructions\":%llu,\"checks\":%llu,\"trivial\":%llu,\"obl_queries\":%llu,\"discharged\":%llu,\"undecided\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"refined\":%llu,\"solver_s\":%.3f,\"max_query_ms\":%llu,\"inexact\":%llu,\"exprs\":%zu,\"wall\":%.3f,\"covers\":[",complete&&nAbandoned==0&&nUndecided==0?"true":"false",(unsigned long long)nPaths,(unsigned long long)nDone,(unsigned long long)nAbandoned,(unsigned long long)nAssumeEnd,(unsigned long long)nSpurious,(unsigned long long)nDecisions,(unsigned long long)nConcretised,(unsigned long long)nInst,(unsigned long long)nChecks,(unsigned long long)nTrivial,(unsigned long long)nOblQueries,(unsigned long long)nDischarged,(unsigned long long)nUndecided,(unsigned long long)S.st.queries,(unsigned long long)S.st.sat,(unsigned long long)S.st.unsat,(unsigned long long)S.st.unknown,(unsigned long long)S.st.refined,S.st.time,(unsigned long long)S.st.maxms,(unsigned long long)X.inexact,X.all.size(),wall);
  bool f=true; for(auto&c:covers){ printf("%s\"%s\"",f?"":",",jesc(c).c_str()); f=false; } printf("],\"abandon\":{"); f=true; for(auto&c:abandonReasons){ printf("%s\"%s\":%llu",f?"":",",jesc(c.first).c_str(),(unsigned long long)c.second); f=false; } printf("},\"functions\":["); f=true; for(auto&c:fl){ printf("%s\"%s\"",f?"":",",jesc(c).c_str()); f=false; } printf("]}\n");
  fflush(stdout); _exit(violLines.empty()?0:1);
}
