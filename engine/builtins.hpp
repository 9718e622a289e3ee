// Models of library functions and the harness API.
#pragma once
typedef bool (*BFn)(Val*a,int n,Val&r,const DInst&d,CallD*c);
struct BEnt { std::string name; BFn fn; };
static std::vector<BEnt> BT; static std::unordered_map<std::string,int> BI;
static void initBuiltins();
static int builtinId(const std::string&n){ if(BT.empty()) initBuiltins(); auto it=BI.find(n); return it==BI.end()?-1:it->second; }
static bool callBuiltin(int id,Val*a,int n,Val&r,const DInst&d,CallD*c){ return BT[id].fn(a,n,r,d,c); }

static Val doAlloc(Val sz,int akind,bool zero,OK kind=O_HEAP){ uint64_t n=concVal(sz); if(n>(1ull<<24)) abandon("huge allocation"); uint64_t id=newObj(n,kind,zero); OBJ[id].akind=akind; return Val{OBJ[id].base,nullptr}; }
static void doFree(Val p,int akind){ uint64_t a=concVal(p); if(!a) return; Obj*o=findObj(a); if(!o||(o->kind!=O_HEAP&&o->kind!=O_RT)) violation("memory","free of a pointer that was not allocated"); if(!o->alive) violation("memory","double free"); if(a!=o->base) violation("memory","free of an interior pointer"); if(o->akind!=akind&&o->kind==O_HEAP) violation("memory","mismatched allocation and deallocation functions"); o->alive=false; freeBuf(*o); }
static void doMemset(Val p,Val v,Val n){ uint64_t k=concVal(n); if(!k) return; uint64_t a=concVal(p),off; Obj*o=access(a,k,true,off); if(v.e){ for(uint64_t i=0;i<k;i++) storeN(o,off+i,1,v); return; } prepWrite(o,off,k); memset(o->b+off,(int)v.c,k); memset(o->m+off,1,k); }
static void doMemcpy(Val d,Val s,Val n){ uint64_t k=concVal(n); if(!k) return; uint64_t da=concVal(d),sa=concVal(s); copyMem(da,sa,k); }
static std::string inName(Val*a){ std::string n=cstr(concVal(a[0])); int k=nameCnt[n]++; return k? n+"#"+std::to_string(k):n; }
static Val symInt(const std::string&n,int64_t lo,int64_t hi){ if(haveFixed){ auto it=fixedVals.find(n); int64_t v= it==fixedVals.end()? (lo>0?lo:hi<0?hi:0) : std::strtoll(it->second.c_str(),nullptr,10); return Val{(uint64_t)v&0xffffffff,nullptr}; } if(lo>hi) throw PathEnd{PathEnd::AssumeFail,"",""}; Expr*e=X.var(n,32,lo,hi); if(e->lo!=lo||e->hi!=hi){ e=X.var(n+"@"+std::to_string(lo)+":"+std::to_string(hi),32,lo,hi);} inputs.push_back({n,false,e,nullptr}); if(lo==hi) return Val{(uint64_t)lo&0xffffffff,nullptr}; return Val{0,e}; }
static Val symReal(const std::string&n,double lo,double hi,int gran){ if(haveFixed){ auto it=fixedVals.find(n); double v= it==fixedVals.end()? (lo>0?lo:hi<0?hi:0.0): std::strtod(it->second.c_str(),nullptr); return fromD(v,64);} Poly*p=X.realVar(n,lo,hi,gran); inputs.push_back({n,true,nullptr,p->t[0].first->f[0].first}); return fromP(p); }
static Val doSqrt(Val a,unsigned w){ if(isUndef(a)) return a; if(!a.e) return fromD(std::sqrt(asD(a,w)),w); Poly*p=polyOf(a,w); if(!p) return fromD(std::sqrt(asD(a,w)),w); if(p->lo<0){ if(decide(X.mkRCmp0(K_RLT0,p))) return fromD(NAN,w); } return fromP(X.psqrt(p),w); }
static Val uf1(const char*n,Val a,double(*f)(double)){ if(isUndef(a)) return a; if(!a.e) return fromD(f(bits2d(a.c)),64); return fromP(X.puf(n,{polyOf(a,64)})); }
static Val fabsV(Val a,unsigned w){ if(isUndef(a)) return a; if(!a.e) return fromD(std::fabs(asD(a,w)),w); return fromP(X.pabs(polyOf(a,w)),w); }
static Val minmax(Val a,Val b,unsigned w,bool mx){ if(isUndef(a)||isUndef(b)) return Val{0,X.UNDEF}; if(!a.e&&!b.e){ double x=asD(a,w),y=asD(b,w); return fromD(mx?std::fmax(x,y):std::fmin(x,y),w);} Val c=fcmp(CmpInst::FCMP_OLT,a,b,w); return selectV(c,mx?b:a,mx?a:b,w,false,true); }
static Val powV(Val a,Val b){ if(!a.e&&!b.e) return fromD(std::pow(bits2d(a.c),bits2d(b.c)),64); if(!b.e){ double e=bits2d(b.c); if(e==std::floor(e)&&e>=0&&e<=8){ Poly*p=polyOf(a,64),*r=X.PONE; for(int i=0;i<(int)e;i++) r=X.pmul(r,p); return fromP(r);} if(e==0.5) return doSqrt(a,64); } return fromP(X.puf("pow",{polyOf(a,64),polyOf(b,64)})); }
static int cmpBytes(uint64_t p,uint64_t q,uint64_t n){ for(uint64_t i=0;i<n;i++){ uint64_t o1,o2; Obj*a=access(p+i,1,false,o1); Val x=loadN(a,o1,1,8); Obj*b=access(q+i,1,false,o2); Val y=loadN(b,o2,1,8); if((x.e||y.e)&&!isUndef(x)&&!isUndef(y)){ Expr*xe=bvOf(x,8),*ye=bvOf(y,8); if(decide(X.mkCmp(K_EQ,xe,ye))) continue; return decide(X.mkCmp(K_ULT,xe,ye))?-1:1; } uint64_t xv=concVal(x),yv=concVal(y); if(xv!=yv) return xv<yv?-1:1; } return 0; }
static bool zeroByte(Val x){ if(x.e&&!isUndef(x)) return decide(X.mkCmp(K_EQ,bvOf(x,8),X.C(0,8))); return concVal(x)==0; }
static uint64_t strLen(uint64_t p){ for(uint64_t i=0;;i++){ uint64_t off; Obj*o=access(p+i,1,false,off); if(zeroByte(loadN(o,off,1,8))) return i; } }
static void dumpP(Poly*p,int depth=0){ fprintf(stderr,"["); for(auto&t:p->t){ fprintf(stderr," %s",t.second.get_str().c_str()); for(auto&f:t.first->f){ fprintf(stderr,"*a%u%s^%d",f.first->id,f.first->name.c_str(),f.second); if(f.first->t&&depth<3){ fprintf(stderr,"(k%d:",(int)f.first->k); dumpP(f.first->t,depth+1); fprintf(stderr,")"); } } } fprintf(stderr," ]"); }
static Expr* eqTol(Val a,Val b){ // equality of reals up to coefficient rounding 1e-9
  if(!a.e&&!b.e){ double x=bits2d(a.c),y=bits2d(b.c); if(std::isnan(x)||std::isnan(y)) return X.C(std::isnan(x)&&std::isnan(y),1); if(x==y) return X.T(); if(std::isinf(x)||std::isinf(y)) return X.F(); return X.C(std::fabs(x-y)<=1e-9*(1+std::fabs(x)+std::fabs(y)),1); }
  Poly*p=polyOf(a,64),*q=polyOf(b,64); if(!p||!q) return X.F(); Poly*d=X.psub(p,q); if(d->isConst()&&d->constVal()==0) return X.T();
  double mx=0; for(auto&t:p->t) mx=std::max(mx,std::fabs(t.second.get_d())); for(auto&t:q->t) mx=std::max(mx,std::fabs(t.second.get_d())); bool small=true; for(auto&t:d->t) if(std::fabs(t.second.get_d())>1e-9*(1+mx)) small=false; if(small&&!d->t.empty()){ bool tiny=true; for(auto&t:d->t){ if(std::fabs(t.second.get_d())>1e-11*(mx+1e-300)) tiny=false; } if(tiny) return X.T(); }
  static bool dump=getenv("LSYM_DUMP"); if(dump){ fprintf(stderr,"EQ lhs="); dumpP(p); fprintf(stderr,"\n   rhs="); dumpP(q); fprintf(stderr,"\n   diff="); dumpP(d); fprintf(stderr,"\n"); }
  return X.mkRCmp0(K_REQ0,d); }

#define B(nm) { BT.push_back({nm,nullptr}); BI[nm]=BT.size()-1; BT.back().fn=[](Val*a,int n,Val&r,const DInst&d,CallD*c)->bool { (void)a;(void)n;(void)r;(void)d;(void)c;
#define E return false; }; }
static void initBuiltins(){
  B("malloc") r=doAlloc(a[0],1,false); E
  B("calloc") r=doAlloc(Val{concVal(a[0])*concVal(a[1]),nullptr},1,true); E
  B("free") doFree(a[0],1); E
  B("realloc") uint64_t p=concVal(a[0]); r=doAlloc(a[1],1,false); if(p){ Obj*o=findObj(p); if(!o||!o->alive) violation("memory","realloc of a dead pointer"); uint64_t k=std::min<uint64_t>(o->size,concVal(a[1])); if(k) copyMem(r.c,p,k); doFree(a[0],1);} E
  B("__sym_new") r=doAlloc(a[0],2,false); E
  B("__sym_newarr") r=doAlloc(a[0],3,false); E
  B("__sym_delete") doFree(a[0],2); E
  B("__sym_deletearr") doFree(a[0],3); E
  B("__sym_rt_alloc") r=doAlloc(a[0],1,true,O_RT); E
  B("memcpy") doMemcpy(a[0],a[1],a[2]); r=a[0]; E
  B("memmove") doMemcpy(a[0],a[1],a[2]); r=a[0]; E
  B("memset") doMemset(a[0],a[1].e?fromE(X.mkExtract(a[1].e,0,8)):Val{a[1].c&255,nullptr},a[2]); r=a[0]; E
  B("memcmp") uint64_t k=concVal(a[2]); r=Val{(uint64_t)(int64_t)(k?cmpBytes(concVal(a[0]),concVal(a[1]),k):0)&0xffffffff,nullptr}; E
  B("bcmp") uint64_t k=concVal(a[2]); r=Val{(uint64_t)(int64_t)(k?cmpBytes(concVal(a[0]),concVal(a[1]),k):0)&0xffffffff,nullptr}; E
  B("strlen") r=Val{strLen(concVal(a[0])),nullptr}; E
  B("strcmp") uint64_t sp=concVal(a[0]),sq=concVal(a[1]),sm=strLen(sp),sn=strLen(sq); int v=cmpBytes(sp,sq,(sm<sn?sm:sn)+1); r=Val{(uint64_t)(int64_t)v&0xffffffff,nullptr}; E
  B("memchr") uint64_t p=concVal(a[0]),k=concVal(a[2]); uint64_t ch=concVal(a[1])&255; r=Val{0,nullptr}; for(uint64_t i=0;i<k;i++){ uint64_t off; Obj*o=access(p+i,1,false,off); if(concVal(loadN(o,off,1,8))==ch){ r=Val{p+i,nullptr}; break; } } E
  B("__assert_fail") std::string ex0=cstr(concVal(a[0])); std::string fl=cstr(concVal(a[1])); uint64_t ln=concVal(a[2]); auto sl=fl.rfind('/'); refuse("assertion failed: "+ex0+" at "+(sl==std::string::npos?fl:fl.substr(sl+1))+":"+std::to_string(ln)); return true; E
  B("abort") violation("terminate","abort called"); E
  B("_ZSt9terminatev") violation("terminate","std::terminate called"); E
  B("__cxa_pure_virtual") violation("terminate","pure virtual call"); E
  B("exit") violation("terminate","exit called"); E
  B("__cxa_atexit") r=Val{0,nullptr}; E
  B("__cxa_guard_acquire") uint64_t off; Obj*o=access(concVal(a[0]),1,true,off); Val v=loadN(o,off,1,8); r=Val{v.c?0ull:1ull,nullptr}; E
  B("__cxa_guard_release") uint64_t off; Obj*o=access(concVal(a[0]),1,true,off); storeN(o,off,1,Val{1,nullptr}); E
  B("__cxa_guard_abort") E
  B("sqrt") r=doSqrt(a[0],64); E
  B("fabs") r=fabsV(a[0],64); E
  B("pow") r=powV(a[0],a[1]); E
  B("fmax") r=minmax(a[0],a[1],64,true); E
  B("fmin") r=minmax(a[0],a[1],64,false); E
  B("exp") r=uf1("exp",a[0],std::exp); E
  B("log") r=uf1("log",a[0],std::log); E
  B("sin") r=uf1("sin",a[0],std::sin); E
  B("cos") r=uf1("cos",a[0],std::cos); E
  B("floor") r=uf1("floor",a[0],std::floor); E
  B("ceil") r=uf1("ceil",a[0],std::ceil); E
  B("round") r=uf1("round",a[0],std::round); E
  B("hypot") if(!a[0].e&&!a[1].e) r=fromD(std::hypot(bits2d(a[0].c),bits2d(a[1].c)),64); else { Poly*p=polyOf(a[0],64),*q=polyOf(a[1],64); r=doSqrt(fromP(X.padd(X.pmul(p,p),X.pmul(q,q))),64);} E
  B("fmod") if(a[0].e||a[1].e) abandon("fmod"); r=fromD(std::fmod(bits2d(a[0].c),bits2d(a[1].c)),64); E
  // ---- exceptions and control
  B("__sym_throw") uint64_t p=concVal(a[0]),ti=concVal(a[1]); excTI[p]=ti; unwindTo(p); return true; E
  B("__sym_rethrow") uint64_t p=concVal(a[0]); unwindTo(p); return true; E
  B("__sym_refuse_term") refuse("terminate"); return true; E
  B("__sym_try") uint64_t f=concVal(a[0]); auto it=fnByAddr.find(f); if(it==fnByAddr.end()) violation("memory","wild function pointer"); Val arg=a[1]; pushFrame(it->second); FR.back().isTry=true; REG[FR.back().base]=arg; return true; E
  // ---- fibers: create one that will run f(arg) (it must never return), switch to one
  B("__sym_fiber") uint64_t f=concVal(a[0]); auto it=fnByAddr.find(f); if(it==fnByAddr.end()) violation("memory","wild function pointer"); if(FIB.empty()) FIB.emplace_back(); FIB.emplace_back(); size_t id=FIB.size()-1; { Fiber n; n.reg.resize(1<<12); fiberSwap(n); pushFrame(it->second); REG[FR.back().base]=a[1]; fiberSwap(n); FIB[id]=std::move(n); } r=Val{id,nullptr}; E
  B("__sym_switch") uint64_t id=concVal(a[0]); if(id>=FIB.size()) abandon("switch to an unknown fiber"); finishCall(FR.back(),d); if(id!=curFib){ fiberSwap(FIB[curFib]); fiberSwap(FIB[id]); curFib=id; } return true; E
  // ---- harness API
  B("__sym_native") r=Val{0,nullptr}; E
  B("__sym_int") std::string nm=inName(a); r=symInt(nm,sextw(concVal(a[1]),32),sextw(concVal(a[2]),32)); E
  B("__sym_real") r=symReal(inName(a),-128,128,-3); E
  B("__sym_real_range") std::string nm=inName(a); r=symReal(nm,bits2d(concVal(a[1])),bits2d(concVal(a[2])),-3); E
  B("__sym_assume") if(!a[0].e){ if(!(a[0].c&maskw(32))) throw PathEnd{PathEnd::AssumeFail,"",""}; } else { Expr*e=bvOf(a[0],32); flushChecks(); assumeE(X.mkNot(X.mkCmp(K_EQ,e,X.C(0,e->w)))); } E
  B("__sym_check") std::string m=cstr(concVal(a[1])); if(isUndef(a[0])) violation("undefined","checked value is uninitialised: "+m); if(!a[0].e) checkE(X.C((a[0].c&maskw(32))!=0,1),m); else { Expr*e=bvOf(a[0],32); checkE(X.mkNot(X.mkCmp(K_EQ,e,X.C(0,e->w))),m); } E
  B("__sym_check_eq") std::string m=cstr(concVal(a[2])); if(isUndef(a[0])||isUndef(a[1])) violation("undefined","checked value is uninitialised: "+m); checkE(eqTol(a[0],a[1]),m); E
  B("__sym_eq") if(isUndef(a[0])||isUndef(a[1])) violation("undefined","compared value is uninitialised"); Expr*e=eqTol(a[0],a[1]); r=fromE(X.mkZext(e,32)); E
  B("__sym_conc") if(isUndef(a[0])) violation("undefined","use of an uninitialised value"); r= a[0].e? Val{concretise(bvOf(a[0],32)),nullptr}:a[0]; E
  B("__sym_fork") r= a[0].e? Val{(uint64_t)decide(X.mkNot(X.mkCmp(K_EQ,bvOf(a[0],32),X.C(0,32)))),nullptr} : Val{a[0].c!=0,nullptr}; E
  B("__sym_cover") covers.insert(cstr(concVal(a[0]))); E
  B("__sym_log_i") logs.push_back({cstr(concVal(a[0])),a[1],false}); E
  B("__sym_log_d") logs.push_back({cstr(concVal(a[0])),a[1],true}); E
  B("__sym_param") long k=(long)concVal(a[0]); r=Val{(uint64_t)(k<(long)optParams.size()?optParams[k]:0)&0xffffffff,nullptr}; E
  B("__sym_is_symbolic_d") r=Val{(a[0].e!=nullptr)?1ull:0ull,nullptr}; E
  B("__sym_is_symbolic_i") r=Val{(a[0].e!=nullptr)?1ull:0ull,nullptr}; E
  B("__sym_is_undef_d") r=Val{isUndef(a[0])?1ull:0ull,nullptr}; E
  B("__sym_abandon") abandon(cstr(concVal(a[0]))); E
  B("__sym_fail") std::string m=cstr(concVal(a[0])); checkE(X.F(),m); E
  B("__sym_end") throw PathEnd{PathEnd::Normal,"noleak",""}; E
  B("__sym_leak_ok") leakOK=true; E
  B("__sym_uf1") std::string m=cstr(concVal(a[0])); if(!a[1].e&&!std::isfinite(bits2d(a[1].c))) r=a[1]; else r=fromP(X.puf(m,{polyOf(a[1],64)})); E
  B("__sym_uf2") std::string m=cstr(concVal(a[0])); r=fromP(X.puf(m,{polyOf(a[1],64),polyOf(a[2],64)})); E
  B("__sym_round_digits") if(!a[0].e){ char buf[64]; snprintf(buf,64,"%.*g",(int)concVal(a[1]),bits2d(a[0].c)); r=fromD(std::strtod(buf,nullptr),64);} else { int k=(int)concVal(a[1]); if(k>=15) r=a[0]; else r=fromP(X.puf("round"+std::to_string(k),{polyOf(a[0],64)})); } E
  B("__sym_fmt_d") char buf[400]; int md=(int)concVal(a[3]); int pr=(int)concVal(a[1]); double v=bits2d(concVal(a[2])); const char*f= md==1?"%.*f":md==2?"%.*e":"%.*g"; int k=snprintf(buf,400,f,pr,v); uint64_t off; Obj*o=access(concVal(a[0]),k+1,true,off); for(int i=0;i<=k;i++) storeN(o,off+i,1,Val{(uint8_t)buf[i],nullptr}); r=Val{(uint64_t)k,nullptr}; E
  B("__sym_strtod") std::string s=cstr(concVal(a[0])); char*e=nullptr; double v=std::strtod(s.c_str(),&e); uint64_t off; Obj*o=access(concVal(a[1]),4,true,off); storeN(o,off,4,Val{(uint64_t)(e-s.c_str()),nullptr}); r=fromD(v,64); E
  B("__sym_print") fprintf(stderr,"[print] %s\n",cstr(concVal(a[0])).c_str()); E
  B("__sym_addr_alive") uint64_t p=concVal(a[0]); Obj*o=findObj(p); r=Val{(o&&o->alive)?1ull:0ull,nullptr}; E
  B("__sym_readable") // (ptr, bytes): 1 if the whole range is inside one live object
    uint64_t p=concVal(a[0]),k=concVal(a[1]); Obj*o=findObj(p); bool ok= k==0||(o&&o->alive&&o->kind!=O_FUNC&&o->kind!=O_EXTERN&&p>=o->base&&p-o->base<=o->size&&k<=o->size-(p-o->base)); r=Val{ok?1ull:0ull,nullptr}; E
  B("__sym_same_object") uint64_t p=concVal(a[0]),q=concVal(a[1]); r=Val{(findObj(p)==findObj(q))?1ull:0ull,nullptr}; E
}
#undef E
#undef B

static void intrinsic(Frame&fr,const DInst&d,CallD*c){
  auto A=[&](int i){ return getv(fr,c->args[i][0]); }; auto W=[&](int i){ return (unsigned)c->args[i][2]; };
  auto ret=[&](Val v){ if(d.dst>=0) REG[fr.base+d.dst]=v; };
  auto retEach=[&](auto f){ for(int k=0;k<c->nret;k++) REG[fr.base+d.dst+k]=f(k); };
  switch(c->intrin){
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: doMemcpy(A(0),A(1),A(2)); return;
    case Intrinsic::memset: case Intrinsic::memset_inline: doMemset(A(0),A(1),A(2)); return;
    case Intrinsic::lifetime_start: { Val p=A(1); if(!p.e){ Obj*o=findObj(p.c); if(o&&o->alive&&o->kind==O_STACK){ memset(o->m,0,o->size); } } return; }
    case Intrinsic::lifetime_end: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::invariant_end: return;
    case Intrinsic::stacksave: case Intrinsic::invariant_start: ret(Val{0,nullptr}); return;
    case Intrinsic::trap: case Intrinsic::ubsantrap: violation("trap","trap instruction reached");
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: ret(A(0)); return;
    case Intrinsic::is_constant: ret(boolVal(false)); return;
    case Intrinsic::objectsize: ret(Val{~0ull&maskw(c->retw),nullptr}); return;
    case Intrinsic::eh_typeid_for: { uint64_t t=concVal(A(0)); if(!tiIdx.count(t)) tiIdx[t]=tiIdx.size()+1; ret(Val{(uint64_t)tiIdx[t],nullptr}); return; }
    case Intrinsic::fabs: retEach([&](int k){ return fabsV(getk(fr,c->args[0][0],k),W(0)); }); return;
    case Intrinsic::sqrt: retEach([&](int k){ return doSqrt(getk(fr,c->args[0][0],k),W(0)); }); return;
    case Intrinsic::fmuladd: case Intrinsic::fma: retEach([&](int k){ return fbin(Instruction::FAdd,fbin(Instruction::FMul,getk(fr,c->args[0][0],k),getk(fr,c->args[1][0],k),W(0)),getk(fr,c->args[2][0],k),W(0)); }); return;
    case Intrinsic::maxnum: case Intrinsic::maximum: retEach([&](int k){ return minmax(getk(fr,c->args[0][0],k),getk(fr,c->args[1][0],k),W(0),true); }); return;
    case Intrinsic::minnum: case Intrinsic::minimum: retEach([&](int k){ return minmax(getk(fr,c->args[0][0],k),getk(fr,c->args[1][0],k),W(0),false); }); return;
    case Intrinsic::pow: ret(powV(A(0),A(1))); return;
    case Intrinsic::floor: ret(uf1("floor",A(0),std::floor)); return;
    case Intrinsic::ceil: ret(uf1("ceil",A(0),std::ceil)); return;
    case Intrinsic::exp: ret(uf1("exp",A(0),std::exp)); return;
    case Intrinsic::log: ret(uf1("log",A(0),std::log)); return;
    case Intrinsic::copysign: { Val m=fabsV(A(0),W(0)); Val s=A(1); bool neg; if(!s.e) neg=std::signbit(asD(s,W(1))); else neg=decide(X.mkRCmp0(K_RLT0,polyOf(s,W(1)))); if(neg){ if(!m.e) m=fromD(-asD(m,W(0)),W(0)); else m=fromP(X.pneg(polyOf(m,W(0))),W(0)); } ret(m); return; }
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: retEach([&](int k){ Val a=getk(fr,c->args[0][0],k),b=getk(fr,c->args[1][0],k); unsigned w=W(0); if(isUndef(a)||isUndef(b)) return Val{0,X.UNDEF}; unsigned p= c->intrin==Intrinsic::smax?CmpInst::ICMP_SGT: c->intrin==Intrinsic::smin?CmpInst::ICMP_SLT: c->intrin==Intrinsic::umax?CmpInst::ICMP_UGT:CmpInst::ICMP_ULT; return selectV(icmp(p,a,b,w),a,b,w,false,false); }); return;
    case Intrinsic::abs: retEach([&](int k){ Val a=getk(fr,c->args[0][0],k); unsigned w=W(0); if(isUndef(a)) return a; return selectV(icmp(CmpInst::ICMP_SLT,a,Val{0,nullptr},w),binop(Instruction::Sub,Val{0,nullptr},a,w),a,w,false,false); }); return;
    case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
      Val a=A(0),b=A(1); unsigned w=W(0); if(a.e||b.e){ a=Val{concVal(a),nullptr}; b=Val{concVal(b),nullptr}; } __int128 x,y,r; bool sg=c->intrin==Intrinsic::sadd_with_overflow||c->intrin==Intrinsic::ssub_with_overflow||c->intrin==Intrinsic::smul_with_overflow; if(sg){x=sextw(a.c,w);y=sextw(b.c,w);} else {x=a.c;y=b.c;} if(c->intrin==Intrinsic::sadd_with_overflow||c->intrin==Intrinsic::uadd_with_overflow) r=x+y; else if(c->intrin==Intrinsic::ssub_with_overflow||c->intrin==Intrinsic::usub_with_overflow) r=x-y; else r=x*y; uint64_t v=(uint64_t)r&maskw(w); bool ov= sg? (r!=(__int128)sextw(v,w)) : (r!=(__int128)v); REG[fr.base+d.dst]=Val{v,nullptr}; REG[fr.base+d.dst+1]=boolVal(ov); return; }
    case Intrinsic::usub_sat: { Val a=A(0),b=A(1); unsigned w=W(0); ret(selectV(icmp(CmpInst::ICMP_ULT,a,b,w),Val{0,nullptr},binop(Instruction::Sub,a,b,w),w,false,false)); return; }
    case Intrinsic::ctpop: { uint64_t v=concVal(A(0)); ret(Val{(uint64_t)__builtin_popcountll(v),nullptr}); return; }
    case Intrinsic::ctlz: { uint64_t v=concVal(A(0)); unsigned w=W(0); ret(Val{v? (uint64_t)__builtin_clzll(v)-(64-w):w,nullptr}); return; }
    case Intrinsic::cttz: { uint64_t v=concVal(A(0)); unsigned w=W(0); ret(Val{v?(uint64_t)__builtin_ctzll(v):w,nullptr}); return; }
    case Intrinsic::bswap: { uint64_t v=concVal(A(0)); ret(Val{__builtin_bswap64(v)>>(64-W(0)),nullptr}); return; }
    case Intrinsic::fshl: case Intrinsic::fshr: { uint64_t a=concVal(A(0)),b=concVal(A(1)),s=concVal(A(2)); unsigned w=W(0); s%=w; uint64_t v; if(c->intrin==Intrinsic::fshl) v= s? (a<<s)|(b>>(w-s)):a; else v= s? (a<<(w-s))|(b>>s):b; ret(Val{v&maskw(w),nullptr}); return; }
    case Intrinsic::vector_reduce_add: { Val acc=getk(fr,c->args[0][0],0); for(int k=1;k<c->args[0][1];k++) acc=binop(Instruction::Add,acc,getk(fr,c->args[0][0],k),W(0)); ret(acc); return; }
    default: abandon("unmodelled intrinsic "+c->name); } }
