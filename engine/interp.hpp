// Predecoding and interpretation of LLVM functions.
#pragma once
enum Op : uint16_t { OP_BIN, OP_FBIN, OP_FNEG, OP_ICMP, OP_FCMP, OP_SELECT, OP_LOAD, OP_STORE, OP_GEP, OP_ALLOCA, OP_CAST, OP_BR, OP_CBR, OP_SWITCH, OP_CALL, OP_RET, OP_UNREACH, OP_COPY, OP_INSERT, OP_LPAD, OP_RESUME, OP_ATOMIC, OP_CMPXCHG, OP_UNSUP, OP_SHUF, OP_EXTRELT, OP_INSELT, OP_NOP };
struct DFunc;
struct Edge { int target; std::vector<std::pair<int,int>> moves; };
struct LPClause { bool isCatch; uint64_t ti; std::vector<uint64_t> filt; };
struct CallD { DFunc* direct=nullptr; const llvm::Function* fn=nullptr; int calleeOp=0; int builtin=-1; unsigned intrin=0; std::vector<std::array<int,4>> args; /*op,slots,width,byvalsize*/ int nret=0; unsigned retw=64; bool invoke=false; Edge normal,unwind; std::string name; };
struct DInst { Op op; uint8_t w=64,w2=64; uint16_t n=1; int dst=-1,a=0,b=0,c=0; uint64_t imm=0; uint8_t sub=0; bool isPtr=false,isFP=false; const Instruction* I=nullptr; void* ext=nullptr; };
struct GepD { int64_t off=0; std::vector<std::tuple<int,int64_t,unsigned>> idx; };
struct SwitchD { std::vector<std::pair<uint64_t,Edge>> cases; Edge def; };
struct CbrD { Edge t,f; };
struct LPD { bool cleanup=false; std::vector<LPClause> cl; };
struct DFunc { const llvm::Function* F=nullptr; bool decoded=false; int nregs=0; std::vector<Val> consts; std::vector<DInst> code; uint64_t addr=0; std::string name; };

static std::unique_ptr<llvm::Module> MOD; static const DataLayout* DL;
static std::unordered_map<const GlobalValue*,uint64_t> gaddr; static std::unordered_map<const llvm::Function*,DFunc*> fns; static std::unordered_map<uint64_t,DFunc*> fnByAddr;
struct Frame { DFunc* f; uint32_t base; int pc; std::vector<uint32_t> allocas; bool isTry=false; };
static std::vector<Frame> FR; static std::vector<Val> REG; static uint32_t regTop=0;
// fibers (coroutines of the harness): the running one lives in FR/REG/regTop, the others are parked here
struct Fiber { std::vector<Frame> fr; std::vector<Val> reg; uint32_t top=0; }; static std::vector<Fiber> FIB; static size_t curFib=0;
static void fiberSwap(Fiber&f){ std::swap(FR,f.fr); std::swap(REG,f.reg); std::swap(regTop,f.top); }
static void fiberReset(){ if(curFib){ fiberSwap(FIB[curFib]); fiberSwap(FIB[0]); curFib=0; } FIB.clear(); }
static std::unordered_map<uint64_t,uint64_t> excTI; static uint64_t curExc=0; static int64_t curSel=0; static std::unordered_map<uint64_t,int> tiIdx;
static bool leakOK=false; static uint64_t pathInst=0;

static unsigned slotsOf(Type*t){ if(t->isVoidTy()) return 0; if(auto*s=dyn_cast<StructType>(t)){ unsigned n=0; for(auto*e:s->elements()) n+=slotsOf(e); return n; } if(auto*a=dyn_cast<ArrayType>(t)) return a->getNumElements()*slotsOf(a->getElementType()); if(auto*v=dyn_cast<FixedVectorType>(t)) return v->getNumElements()*slotsOf(v->getElementType()); return 1; }
static unsigned widthOf(Type*t){ if(auto*i=dyn_cast<IntegerType>(t)) return i->getBitWidth(); if(t->isPointerTy()) return 64; if(t->isDoubleTy()) return 64; if(t->isFloatTy()) return 32; if(auto*v=dyn_cast<FixedVectorType>(t)) return widthOf(v->getElementType()); return 0; }
static bool badType(Type*t){ if(t->isVoidTy()||t->isLabelTy()||t->isMetadataTy()||t->isTokenTy()) return false; if(auto*s=dyn_cast<StructType>(t)){ for(auto*e:s->elements()) if(badType(e)) return true; return false; } if(auto*a=dyn_cast<ArrayType>(t)) return badType(a->getElementType()); unsigned w=widthOf(t); return w==0||w>64; }

static void constFlat(const Constant*c,std::vector<Val>&out);
static uint64_t gepConst(const GEPOperator*g){ std::vector<Val> b; constFlat(cast<Constant>(g->getPointerOperand()),b); APInt off(64,0); if(!g->accumulateConstantOffset(*DL,off)) throw std::runtime_error("const gep"); return b[0].c+off.getSExtValue(); }
static void constFlat(const Constant*c,std::vector<Val>&out){
  Type*t=c->getType();
  if(isa<UndefValue>(c)){ unsigned n=slotsOf(t); for(unsigned i=0;i<n;i++) out.push_back({0,X.UNDEF}); return; }
  if(auto*ci=dyn_cast<ConstantInt>(c)){ if(ci->getBitWidth()>64){ out.push_back({ci->getValue().trunc(64).getZExtValue(),nullptr}); return; } out.push_back({ci->getZExtValue(),nullptr}); return; }
  if(auto*cf=dyn_cast<ConstantFP>(c)){ if(t->isDoubleTy()||t->isFloatTy()) out.push_back({cf->getValueAPF().bitcastToAPInt().getZExtValue(),nullptr}); else out.push_back({0,nullptr}); return; }
  if(isa<ConstantPointerNull>(c)){ out.push_back({0,nullptr}); return; }
  if(isa<ConstantAggregateZero>(c)){ unsigned n=slotsOf(t); for(unsigned i=0;i<n;i++) out.push_back({0,nullptr}); return; }
  if(auto*ca=dyn_cast<ConstantAggregate>(c)){ for(unsigned i=0;i<ca->getNumOperands();i++) constFlat(cast<Constant>(ca->getOperand(i)),out); return; }
  if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ for(unsigned i=0;i<cd->getNumElements();i++) constFlat(cd->getElementAsConstant(i),out); return; }
  if(auto*gv=dyn_cast<GlobalValue>(c)){ if(auto*ga=dyn_cast<GlobalAlias>(gv)){ constFlat(cast<Constant>(ga->getAliasee()),out); return; } auto it=gaddr.find(gv); out.push_back({it==gaddr.end()?0:it->second,nullptr}); return; }
  if(auto*ce=dyn_cast<ConstantExpr>(c)){ if(auto*g=dyn_cast<GEPOperator>(ce)){ out.push_back({gepConst(g),nullptr}); return; }
    std::vector<Val> a,b; switch(ce->getOpcode()){ case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: constFlat(ce->getOperand(0),out); return; case Instruction::PtrToInt: constFlat(ce->getOperand(0),a); out.push_back({a[0].c&maskw(widthOf(t)),nullptr}); return; case Instruction::Trunc: constFlat(ce->getOperand(0),a); out.push_back({a[0].c&maskw(widthOf(t)),nullptr}); return;
      case Instruction::Sub: case Instruction::Add: { constFlat(ce->getOperand(0),a); constFlat(ce->getOperand(1),b); out.push_back({(ce->getOpcode()==Instruction::Add? a[0].c+b[0].c: a[0].c-b[0].c)&maskw(widthOf(t)),nullptr}); return; }
      case Instruction::ICmp: { constFlat(ce->getOperand(0),a); constFlat(ce->getOperand(1),b); bool r=a[0].c==b[0].c; if(ce->getPredicate()==CmpInst::ICMP_NE) r=!r; out.push_back({r,nullptr}); return; }
      default: break; } }
  if(isa<ConstantTokenNone>(c)){ out.push_back({0,nullptr}); return; }
  std::string s; raw_string_ostream os(s); c->print(os); throw std::runtime_error("constant not supported: "+os.str()); }
static void initMem(Obj&o,uint64_t off,const Constant*c){
  Type*t=c->getType(); if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)||isa<ConstantPointerNull>(c)) return;
  if(auto*st=dyn_cast<StructType>(t)){ const StructLayout*sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) initMem(o,off+sl->getElementOffset(i),c->getAggregateElement(i)); return; }
  if(auto*at=dyn_cast<ArrayType>(t)){ uint64_t es=DL->getTypeAllocSize(at->getElementType()); for(unsigned i=0;i<at->getNumElements();i++) initMem(o,off+i*es,c->getAggregateElement(i)); return; }
  if(auto*vt=dyn_cast<FixedVectorType>(t)){ uint64_t es=DL->getTypeStoreSize(vt->getElementType()); for(unsigned i=0;i<vt->getNumElements();i++) initMem(o,off+i*es,c->getAggregateElement(i)); return; }
  if(auto*ci=dyn_cast<ConstantInt>(c)){ if(ci->getBitWidth()>64){ uint64_t lo=ci->getValue().trunc(64).getZExtValue(); memcpy(o.b+off,&lo,8); return; } }
  std::vector<Val> v; constFlat(c,v); unsigned n=DL->getTypeStoreSize(t); if(n>8) return; memcpy(o.b+off,&v[0].c,n); }
static std::vector<std::pair<size_t,std::vector<uint8_t>>> gimg;
static std::string demangled(const std::string&n){ return llvm::demangle(n); }

static void setupGlobals(){
  for(auto&F:*MOD){ if(F.isIntrinsic()) continue; uint64_t id=newObj(0,O_FUNC,true); gaddr[&F]=OBJ[id].base; DFunc*d=new DFunc; d->F=&F; d->addr=OBJ[id].base; d->name=F.getName().str(); fns[&F]=d; fnByAddr[d->addr]=d; }
  std::vector<std::pair<uint64_t,const GlobalVariable*>> todo;
  for(auto&G:MOD->globals()){ uint64_t sz=G.getValueType()->isSized()? DL->getTypeAllocSize(G.getValueType()).getFixedValue():0; bool ext=!G.hasInitializer(); if(G.hasExternalWeakLinkage()&&ext){ gaddr[&G]=0; continue; }
    uint64_t id=newObj(ext? std::max<uint64_t>(sz,256):sz, ext? O_EXTERN:O_GLOBAL,true); gaddr[&G]=OBJ[id].base; if(!ext) todo.push_back({id,&G}); }
  for(auto&t:todo){ const GlobalVariable*G=t.second; if(!G->hasInitializer()) continue; initMem(OBJ[t.first],0,G->getInitializer()); }
  for(auto&t:todo){ Obj&o=OBJ[t.first]; o.ro=t.second->isConstant(); o.dirty=false; gimg.push_back({t.first,std::vector<uint8_t>(o.b,o.b+o.size)}); }
  nGlobals=OBJ.size(); }
static std::unordered_map<size_t,size_t> gimgIdx;
static void resetMemory(){
  for(size_t i=nGlobals;i<OBJ.size();i++) freeBuf(OBJ[i]); OBJ.resize(nGlobals);
  if(gimgIdx.empty()) for(size_t i=0;i<gimg.size();i++) gimgIdx[gimg[i].first]=i;
  for(auto&g:gimg){ Obj&o=OBJ[g.first]; if(!o.dirty) continue; memcpy(o.b,g.second.data(),o.size); memset(o.m,1,o.size); if(o.s){ free(o.s); o.s=nullptr; } o.dirty=false; } }

// ------------------------------------------------------------ predecode
#include "builtins_decl.hpp"
struct Dec {
  DFunc&D; std::unordered_map<const Value*,int> reg; std::unordered_map<const Value*,int> cidx; std::unordered_map<const BasicBlock*,int> bbpc; 
  Dec(DFunc&d):D(d){}
  int op(const Value*v){ auto it=reg.find(v); if(it!=reg.end()) return it->second; auto c=cidx.find(v); if(c!=cidx.end()) return c->second; if(auto*k=dyn_cast<Constant>(v)){ int i=D.consts.size(); std::vector<Val> o; constFlat(k,o); for(auto&x:o) D.consts.push_back(x); if(o.empty()) D.consts.push_back({0,nullptr}); int r=-(i+1); cidx[v]=r; return r; } if(isa<MetadataAsValue>(v)||isa<InlineAsm>(v)) return 0; throw std::runtime_error("operand"); }
  static int sub(int o,int k){ return o>=0? o+k : o-k; }
  Edge edge(const BasicBlock*from,const BasicBlock*to){ Edge e; e.target=bbpc[to]; for(auto&phi:to->phis()){ int n=slotsOf(phi.getType()); int s=op(phi.getIncomingValueForBlock(from)); int d=reg[&phi]; for(int k=0;k<n;k++) e.moves.push_back({d+k,sub(s,k)}); } return e; }
  void run(){ const llvm::Function&F=*D.F; int n=0; for(auto&A:F.args()){ reg[&A]=n; n+=slotsOf(A.getType()); }
    int pc=0; for(auto&B:F){ bbpc[&B]=pc; for(auto&I:B){ unsigned k=slotsOf(I.getType()); if(k){ reg[&I]=n; n+=k; } if(isa<PHINode>(I)||isa<DbgInfoIntrinsic>(I)) continue; pc++; } }
    D.nregs=n; for(auto&B:F) for(auto&I:B){ if(isa<PHINode>(I)||isa<DbgInfoIntrinsic>(I)) continue; DInst d; d.I=&I; auto r=reg.find(&I); d.dst= r==reg.end()?-1:r->second; try { inst(I,d); } catch(std::exception&e){ d.op=OP_UNSUP; d.ext=new std::string(e.what()); } D.code.push_back(d); } }
  void inst(const Instruction&I,DInst&d){
    Type*t=I.getType(); d.w=(uint8_t)std::min(255u,widthOf(t)); if(auto*v=dyn_cast<FixedVectorType>(t)) d.n=v->getNumElements();
    bool bad=badType(t); for(auto&o:I.operands()) if(!isa<BasicBlock>(o)&&!isa<llvm::Function>(o)&&badType(o->getType())) bad=true; 
    if(bad&&!isa<CallBase>(I)){ std::string s; raw_string_ostream os(s); I.print(os); throw std::runtime_error("unsupported type: "+os.str()); }
    if(auto*b=dyn_cast<BinaryOperator>(&I)){ d.a=op(b->getOperand(0)); d.b=op(b->getOperand(1)); d.imm=b->getOpcode(); d.op= t->isFPOrFPVectorTy()? OP_FBIN:OP_BIN; return; }
    switch(I.getOpcode()){
      case Instruction::FNeg: d.op=OP_FNEG; d.a=op(I.getOperand(0)); return;
      case Instruction::ICmp: { auto&c=cast<ICmpInst>(I); d.op=OP_ICMP; d.a=op(c.getOperand(0)); d.b=op(c.getOperand(1)); d.imm=c.getPredicate(); d.w=widthOf(c.getOperand(0)->getType()); return; }
      case Instruction::FCmp: { auto&c=cast<FCmpInst>(I); d.op=OP_FCMP; d.a=op(c.getOperand(0)); d.b=op(c.getOperand(1)); d.imm=c.getPredicate(); d.w=widthOf(c.getOperand(0)->getType()); return; }
      case Instruction::Select: d.op=OP_SELECT; d.a=op(I.getOperand(0)); d.b=op(I.getOperand(1)); d.c=op(I.getOperand(2)); d.n=slotsOf(t); d.isPtr=t->isPtrOrPtrVectorTy(); d.isFP=t->isFPOrFPVectorTy(); d.sub=isa<FixedVectorType>(I.getOperand(0)->getType()); if(d.w==0) d.w=64; return;
      case Instruction::Load: { auto&l=cast<LoadInst>(I); d.op=OP_LOAD; d.a=op(l.getPointerOperand()); if(t->isStructTy()||t->isArrayTy()) throw std::runtime_error("aggregate load"); Type*e=t->getScalarType(); d.imm=DL->getTypeStoreSize(e); d.isPtr=e->isPointerTy(); d.isFP=e->isFloatingPointTy(); d.w=widthOf(e); return; }
      case Instruction::Store: { auto&s=cast<StoreInst>(I); Type*vt=s.getValueOperand()->getType(); d.op=OP_STORE; d.a=op(s.getPointerOperand()); d.b=op(s.getValueOperand()); if(vt->isStructTy()||vt->isArrayTy()) throw std::runtime_error("aggregate store"); Type*e=vt->getScalarType(); if(auto*v=dyn_cast<FixedVectorType>(vt)) d.n=v->getNumElements(); d.imm=DL->getTypeStoreSize(e); d.isPtr=e->isPointerTy(); d.isFP=e->isFloatingPointTy(); d.w=widthOf(e); return; }
      case Instruction::GetElementPtr: { auto&g=cast<GetElementPtrInst>(I); GepD*x=new GepD; d.op=OP_GEP; d.a=op(g.getPointerOperand()); for(auto it=gep_type_begin(g),e=gep_type_end(g);it!=e;++it){ Value*v=it.getOperand(); if(StructType*st=it.getStructTypeOrNull()){ x->off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(v)->getZExtValue()); } else { int64_t sc=it.getSequentialElementStride(*DL).getFixedValue(); if(auto*c=dyn_cast<ConstantInt>(v)) x->off+=c->getSExtValue()*sc; else x->idx.push_back({op(v),sc,widthOf(v->getType())}); } } d.ext=x; return; }
      case Instruction::Alloca: { auto&a=cast<AllocaInst>(I); d.op=OP_ALLOCA; d.imm=DL->getTypeAllocSize(a.getAllocatedType()); d.a=op(a.getArraySize()); return; }
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
        d.op=OP_CAST; d.imm=I.getOpcode(); d.a=op(I.getOperand(0)); d.w2=widthOf(I.getOperand(0)->getType()); d.w=widthOf(t); if(I.getOpcode()==Instruction::BitCast&&(isa<FixedVectorType>(t)||isa<FixedVectorType>(I.getOperand(0)->getType()))&&d.w!=d.w2) throw std::runtime_error("vector bitcast"); return;
      case Instruction::Br: { auto&b=cast<BranchInst>(I); if(b.isUnconditional()){ d.op=OP_BR; d.ext=new Edge(edge(I.getParent(),b.getSuccessor(0))); } else { d.op=OP_CBR; d.a=op(b.getCondition()); CbrD*c=new CbrD; c->t=edge(I.getParent(),b.getSuccessor(0)); c->f=edge(I.getParent(),b.getSuccessor(1)); d.ext=c; } return; }
      case Instruction::Switch: { auto&s=cast<SwitchInst>(I); d.op=OP_SWITCH; d.a=op(s.getCondition()); d.w=widthOf(s.getCondition()->getType()); SwitchD*x=new SwitchD; for(auto&c:s.cases()) x->cases.push_back({c.getCaseValue()->getZExtValue(),edge(I.getParent(),c.getCaseSuccessor())}); x->def=edge(I.getParent(),s.getDefaultDest()); d.ext=x; return; }
      case Instruction::Ret: { d.op=OP_RET; auto&r=cast<ReturnInst>(I); if(r.getReturnValue()){ d.a=op(r.getReturnValue()); d.n=slotsOf(r.getReturnValue()->getType()); } else d.n=0; return; }
      case Instruction::Unreachable: d.op=OP_UNREACH; return;
      case Instruction::Freeze: d.op=OP_COPY; d.a=op(I.getOperand(0)); d.n=slotsOf(t); d.sub=1; return;
      case Instruction::ExtractValue: { auto&e=cast<ExtractValueInst>(I); d.op=OP_COPY; d.a=sub(op(e.getAggregateOperand()),aggOff(e.getAggregateOperand()->getType(),e.getIndices())); d.n=slotsOf(t); return; }
      case Instruction::InsertValue: { auto&e=cast<InsertValueInst>(I); d.op=OP_INSERT; d.a=op(e.getAggregateOperand()); d.b=op(e.getInsertedValueOperand()); d.n=slotsOf(t); d.imm=aggOff(t,e.getIndices()); d.c=slotsOf(e.getInsertedValueOperand()->getType()); return; }
      case Instruction::ExtractElement: d.op=OP_EXTRELT; d.a=op(I.getOperand(0)); d.b=op(I.getOperand(1)); return;
      case Instruction::InsertElement: d.op=OP_INSELT; d.a=op(I.getOperand(0)); d.b=op(I.getOperand(1)); d.c=op(I.getOperand(2)); return;
      case Instruction::ShuffleVector: { auto&s=cast<ShuffleVectorInst>(I); d.op=OP_SHUF; d.a=op(I.getOperand(0)); d.b=op(I.getOperand(1)); auto*m=new std::vector<int>; for(int x:s.getShuffleMask()) m->push_back(x); d.imm=slotsOf(I.getOperand(0)->getType()); d.ext=m; return; }
      case Instruction::LandingPad: { auto&l=cast<LandingPadInst>(I); d.op=OP_LPAD; LPD*p=new LPD; p->cleanup=l.isCleanup(); for(unsigned i=0;i<l.getNumClauses();i++){ LPClause c; c.isCatch=l.isCatch(i); std::vector<Val> v; if(c.isCatch){ constFlat(l.getClause(i),v); c.ti=v[0].c; } else { constFlat(l.getClause(i),v); for(auto&x:v) c.filt.push_back(x.c);} p->cl.push_back(c);} d.ext=p; return; }
      case Instruction::Resume: d.op=OP_RESUME; d.a=op(I.getOperand(0)); return;
      case Instruction::AtomicRMW: { auto&a=cast<AtomicRMWInst>(I); d.op=OP_ATOMIC; d.a=op(a.getPointerOperand()); d.b=op(a.getValOperand()); d.sub=a.getOperation(); d.imm=DL->getTypeStoreSize(t); return; }
      case Instruction::Fence: d.op=OP_NOP; return;
      case Instruction::Call: case Instruction::Invoke: call(cast<CallBase>(I),d); return;
    }
    throw std::runtime_error(std::string("unsupported instruction ")+I.getOpcodeName()); }
  int aggOff(Type*t,ArrayRef<unsigned> idx){ int o=0; for(unsigned i:idx){ if(auto*s=dyn_cast<StructType>(t)){ for(unsigned k=0;k<i;k++) o+=slotsOf(s->getElementType(k)); t=s->getElementType(i);} else { auto*a=cast<ArrayType>(t); o+=i*slotsOf(a->getElementType()); t=a->getElementType(); } } return o; }
  void call(const CallBase&C,DInst&d){ CallD*x=new CallD; d.op=OP_CALL; d.ext=x; x->nret=slotsOf(C.getType()); x->retw= C.getType()->isVoidTy()?0:widthOf(C.getType()); const Value*cv=C.getCalledOperand()->stripPointerCasts(); if(auto*ga=dyn_cast<GlobalAlias>(cv)) cv=ga->getAliaseeObject();
    if(C.isInlineAsm()){ x->name="inline asm"; x->builtin=builtinId("__inline_asm"); return; }
    if(auto*F=dyn_cast<llvm::Function>(cv)){ x->fn=F; x->name=F->getName().str(); if(F->isIntrinsic()) x->intrin=F->getIntrinsicID(); else { x->builtin=builtinId(x->name); if(x->builtin<0&&!F->isDeclaration()) x->direct=fns[F]; } } else x->calleeOp=op(C.getCalledOperand());
    if(!(x->intrin==Intrinsic::dbg_value||x->intrin==Intrinsic::dbg_declare)) for(unsigned i=0;i<C.arg_size();i++){ const Value*a=C.getArgOperand(i); if(isa<MetadataAsValue>(a)){ continue; } int bv=0; if(C.isByValArgument(i)) bv=DL->getTypeAllocSize(C.getParamByValType(i)); x->args.push_back({op(a),(int)slotsOf(a->getType()),(int)widthOf(a->getType()),bv}); }
    if(auto*iv=dyn_cast<InvokeInst>(&C)){ x->invoke=true; x->normal=edge(C.getParent(),iv->getNormalDest()); x->unwind=edge(C.getParent(),iv->getUnwindDest()); } }
};
static void decode(DFunc*f){ if(f->decoded) return; f->decoded=true; Dec d(*f); d.run(); }

static std::string whereInst(const DFunc*f,int pc){ if(pc<0||pc>=(int)f->code.size()) return f->name; const Instruction*I=f->code[pc].I; std::string r=demangled(f->name); if(r.size()>120) r=r.substr(0,120); if(auto&dl=I->getDebugLoc()){ r+=" ("+dl->getFilename().str()+":"+std::to_string(dl.getLine())+")"; } return r; }
static std::string curWhere(){ std::string r; int n=0; for(size_t i=FR.size();i-->0&&n<4;){ std::string w=whereInst(FR[i].f,FR[i].pc); if(w.compare(0,5,"std::")==0&&n==0&&i>0&&r.size()<200){ } r+= (r.empty()?"":" <- ")+w; n++; } return r; }

// ------------------------------------------------------------ execution
static inline Val getv(const Frame&fr,int o){ return o>=0? REG[fr.base+o] : fr.f->consts[-o-1]; }
static inline Val getk(const Frame&fr,int o,int k){ return o>=0? REG[fr.base+o+k] : fr.f->consts[-(o)-1+k]; }
static void doEdge(Frame&fr,const Edge&e){ size_t n=e.moves.size(); if(n==1){ REG[fr.base+e.moves[0].first]=getv(fr,e.moves[0].second);} else if(n){ Val tmp[64]; std::vector<Val> big; Val*t=tmp; if(n>64){ big.resize(n); t=big.data(); } for(size_t i=0;i<n;i++) t[i]=getv(fr,e.moves[i].second); for(size_t i=0;i<n;i++) REG[fr.base+e.moves[i].first]=t[i]; } fr.pc=e.target; }
static void popFrame(){ Frame&fr=FR.back(); for(uint32_t id:fr.allocas){ OBJ[id].alive=false; freeBuf(OBJ[id]); } regTop=fr.base; FR.pop_back(); }
static void pushFrame(DFunc*f){ decode(f); if(FR.size()>2000) violation("recursion","call stack exhausted"); execFns.insert(f->F); Frame fr; fr.f=f; fr.base=regTop; fr.pc=0; regTop+=f->nregs; if(regTop+64>REG.size()) REG.resize(REG.size()*2+regTop); for(int i=0;i<f->nregs;i++) REG[fr.base+i]=Val{0,X.UNDEF}; FR.push_back(std::move(fr)); }

static Val binop(unsigned opc,Val a,Val b,unsigned w){
  if(isUndef(a)||isUndef(b)){ if(opc==Instruction::And&&((!a.e&&a.c==0)||(!b.e&&b.c==0))) return {0,nullptr}; return {0,X.UNDEF}; }
  uint64_t M=maskw(w);
  if(!a.e&&!b.e){ uint64_t x=a.c,y=b.c; int64_t sx=sextw(x,w),sy=sextw(y,w); switch(opc){
    case Instruction::Add: return {(x+y)&M,nullptr}; case Instruction::Sub: return {(x-y)&M,nullptr}; case Instruction::Mul: return {(x*y)&M,nullptr};
    case Instruction::UDiv: if(!y) violation("arith","division by zero"); return {x/y,nullptr}; case Instruction::URem: if(!y) violation("arith","division by zero"); return {x%y,nullptr};
    case Instruction::SDiv: if(!sy) violation("arith","division by zero"); return {(sy==-1? 0-x : (uint64_t)(sx/sy))&M,nullptr}; case Instruction::SRem: if(!sy) violation("arith","division by zero"); return {(sy==-1?0:(uint64_t)(sx%sy))&M,nullptr};
    case Instruction::And: return {x&y,nullptr}; case Instruction::Or: return {x|y,nullptr}; case Instruction::Xor: return {x^y,nullptr};
    case Instruction::Shl: return {y>=w?0:(x<<y)&M,nullptr}; case Instruction::LShr: return {y>=w?0:x>>y,nullptr}; case Instruction::AShr: return {(uint64_t)(sx>>(y>=w?w-1:y))&M,nullptr}; } }
  // sign-bit manipulation of reals
  if((a.e&&a.e->k==K_REAL)||(b.e&&b.e->k==K_REAL)){ Val r=(a.e&&a.e->k==K_REAL)?a:b; Val k=(a.e&&a.e->k==K_REAL)?b:a; if(!k.e){ uint64_t sb=1ull<<(w-1); if(opc==Instruction::And&&k.c==(sb-1)) return fromP(X.pabs(r.e->p),w); if(opc==Instruction::Xor&&k.c==sb) return fromP(X.pneg(r.e->p),w); } abandon("integer arithmetic on symbolic real"); }
  Expr*x=ex(a,w),*y=ex(b,w); switch(opc){
    case Instruction::Add: return fromE(X.mkAdd(x,y)); case Instruction::Sub: return fromE(X.mkSub(x,y)); case Instruction::Mul: return fromE(X.mkMul(x,y));
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: { if(y->k!=K_CONST){ if(decide(X.mkCmp(K_EQ,y,X.C(0,w)))) violation("arith","division by zero"); } else if(y->imm==0) violation("arith","division by zero"); return fromE(X.mkDivRem(opc==Instruction::UDiv?K_UDIV:opc==Instruction::URem?K_UREM:opc==Instruction::SDiv?K_SDIV:K_SREM,x,y)); }
    case Instruction::And: return fromE(X.mkAnd(x,y)); case Instruction::Or: return fromE(X.mkOr(x,y)); case Instruction::Xor: return fromE(X.mkXor(x,y));
    case Instruction::Shl: return fromE(X.mkShl(x,y)); case Instruction::LShr: return fromE(X.mkLShr(x,y)); case Instruction::AShr: return fromE(X.mkAShr(x,y)); }
  abandon("binop"); }
static double cfp(unsigned opc,double x,double y){ switch(opc){ case Instruction::FAdd: return x+y; case Instruction::FSub: return x-y; case Instruction::FMul: return x*y; case Instruction::FDiv: return x/y; default: return std::fmod(x,y);} }
static Val symDiv(Poly*pa,Poly*pb,unsigned w){ // pb symbolic: fork on zero
  if(!pb->isConst()){ Expr*z=X.mkRCmp0(K_REQ0,pb); if(decide(z)){ if(pa->isConst()? pa->constVal()==0 : decide(X.mkRCmp0(K_REQ0,pa))) return fromD(NAN,w); bool neg= pa->isConst()? pa->constVal()<0 : decide(X.mkRCmp0(K_RLT0,pa)); return fromD(neg?-INFINITY:INFINITY,w); } }
  else if(pb->constVal()==0){ if(pa->isConst()? pa->constVal()==0 : decide(X.mkRCmp0(K_REQ0,pa))) return fromD(NAN,w); bool neg= pa->isConst()? pa->constVal()<0 : decide(X.mkRCmp0(K_RLT0,pa)); return fromD(neg?-INFINITY:INFINITY,w); }
  return fromP(X.pdiv(pa,pb),w); }
static Val fbin(unsigned opc,Val a,Val b,unsigned w){
  if(isUndef(a)||isUndef(b)) return {0,X.UNDEF};
  if(!a.e&&!b.e){ if(w==32){ float x=(float)asD(a,32),y=(float)asD(b,32),r; switch(opc){ case Instruction::FAdd: r=x+y;break; case Instruction::FSub: r=x-y;break; case Instruction::FMul: r=x*y;break; case Instruction::FDiv: r=x/y;break; default: r=std::fmod(x,y);} return fromD(r,32);} return fromD(cfp(opc,bits2d(a.c),bits2d(b.c)),64); }
  Poly*pa=polyOf(a,w),*pb=polyOf(b,w);
  if(!pa||!pb){ // nonfinite with a finite symbolic
    double k= !pa? asD(a,w):asD(b,w); if(std::isnan(k)) return fromD(NAN,w);
    switch(opc){ case Instruction::FAdd: return fromD(k,w); case Instruction::FSub: return fromD(!pa? k:-k,w); case Instruction::FMul: { Poly*q=pa?pa:pb; if(decide(X.mkRCmp0(K_REQ0,q))) return fromD(NAN,w); bool neg=decide(X.mkRCmp0(K_RLT0,q)); return fromD(neg?-k:k,w); } case Instruction::FDiv: if(!pb) return fromD(0.0,w); { bool neg= decide(X.mkRCmp0(K_RLT0,pb)); return fromD(neg?-k:k,w); } } abandon("nonfinite arithmetic"); }
  switch(opc){ case Instruction::FAdd: return fromP(X.padd(pa,pb),w); case Instruction::FSub: return fromP(X.psub(pa,pb),w); case Instruction::FMul: return fromP(X.pmul(pa,pb),w); case Instruction::FDiv: return symDiv(pa,pb,w); }
  abandon("frem on symbolic reals"); }
static Val icmp(unsigned pred,Val a,Val b,unsigned w){
  if(isUndef(a)||isUndef(b)) return {0,X.UNDEF};
  if(!a.e&&!b.e){ uint64_t x=a.c,y=b.c; int64_t sx=sextw(x,w),sy=sextw(y,w); bool r=false; switch(pred){ case CmpInst::ICMP_EQ:r=x==y;break; case CmpInst::ICMP_NE:r=x!=y;break; case CmpInst::ICMP_UGT:r=x>y;break; case CmpInst::ICMP_UGE:r=x>=y;break; case CmpInst::ICMP_ULT:r=x<y;break; case CmpInst::ICMP_ULE:r=x<=y;break; case CmpInst::ICMP_SGT:r=sx>sy;break; case CmpInst::ICMP_SGE:r=sx>=sy;break; case CmpInst::ICMP_SLT:r=sx<sy;break; case CmpInst::ICMP_SLE:r=sx<=sy;break; } return boolVal(r); }
  if((a.e&&a.e->k==K_REAL)||(b.e&&b.e->k==K_REAL)){ if(pred==CmpInst::ICMP_EQ||pred==CmpInst::ICMP_NE){ Poly*p=polyOf(a,w),*q=polyOf(b,w); if(p&&q){ Expr*e=X.mkRCmp0(K_REQ0,X.psub(p,q)); return fromE(pred==CmpInst::ICMP_EQ?e:X.mkNot(e)); } } abandon("integer comparison of symbolic real"); }
  Expr*x=ex(a,w),*y=ex(b,w); switch(pred){ case CmpInst::ICMP_EQ: return fromE(X.mkCmp(K_EQ,x,y)); case CmpInst::ICMP_NE: return fromE(X.mkNot(X.mkCmp(K_EQ,x,y))); case CmpInst::ICMP_UGT: return fromE(X.mkCmp(K_ULT,y,x)); case CmpInst::ICMP_UGE: return fromE(X.mkCmp(K_ULE,y,x)); case CmpInst::ICMP_ULT: return fromE(X.mkCmp(K_ULT,x,y)); case CmpInst::ICMP_ULE: return fromE(X.mkCmp(K_ULE,x,y)); case CmpInst::ICMP_SGT: return fromE(X.mkCmp(K_SLT,y,x)); case CmpInst::ICMP_SGE: return fromE(X.mkCmp(K_SLE,y,x)); case CmpInst::ICMP_SLT: return fromE(X.mkCmp(K_SLT,x,y)); default: return fromE(X.mkCmp(K_SLE,x,y)); } }
static Val fcmp(unsigned pred,Val a,Val b,unsigned w){
  if(pred==CmpInst::FCMP_FALSE) return boolVal(false); if(pred==CmpInst::FCMP_TRUE) return boolVal(true);
  if(isUndef(a)||isUndef(b)) return {0,X.UNDEF};
  Poly*pa=nullptr,*pb=nullptr; bool conc=!a.e&&!b.e; if(!conc){ pa=polyOf(a,w); pb=polyOf(b,w); }
  if(conc||!pa||!pb){ double x,y; if(conc){ x=asD(a,w); y=asD(b,w);} else { x= pa?0.0:asD(a,w); y= pb?0.0:asD(b,w); } // a finite symbolic compares with +-inf / NaN like 0
    bool un=std::isnan(x)||std::isnan(y); bool r=false; switch(pred){ case CmpInst::FCMP_OEQ:r=!un&&x==y;break; case CmpInst::FCMP_OGT:r=!un&&x>y;break; case CmpInst::FCMP_OGE:r=!un&&x>=y;break; case CmpInst::FCMP_OLT:r=!un&&x<y;break; case CmpInst::FCMP_OLE:r=!un&&x<=y;break; case CmpInst::FCMP_ONE:r=!un&&x!=y;break; case CmpInst::FCMP_ORD:r=!un;break; case CmpInst::FCMP_UNO:r=un;break; case CmpInst::FCMP_UEQ:r=un||x==y;break; case CmpInst::FCMP_UGT:r=un||x>y;break; case CmpInst::FCMP_UGE:r=un||x>=y;break; case CmpInst::FCMP_ULT:r=un||x<y;break; case CmpInst::FCMP_ULE:r=un||x<=y;break; case CmpInst::FCMP_UNE:r=un||x!=y;break; } return boolVal(r); }
  Poly*d=X.psub(pa,pb); switch(pred){ case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return fromE(X.mkRCmp0(K_REQ0,d)); case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return fromE(X.mkNot(X.mkRCmp0(K_REQ0,d))); case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return fromE(X.mkRCmp0(K_RLT0,d)); case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return fromE(X.mkRCmp0(K_RLE0,d)); case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return fromE(X.mkRCmp0(K_RLT0,X.pneg(d))); case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return fromE(X.mkRCmp0(K_RLE0,X.pneg(d))); case CmpInst::FCMP_ORD: return boolVal(true); default: return boolVal(false); } }
static Val selectV(Val c,Val a,Val b,unsigned w,bool isPtr,bool isFP){
  if(!c.e) return (c.c&1)? a:b; if(isUndef(c)) violation("undefined","select on an uninitialised value");
  if(a.e==b.e&&a.c==b.c) return a;
  int kb=knownBool(c.e); if(kb>=0) return kb? a:b;
  if(isUndef(a)||isUndef(b)||isPtr) return decide(c.e)? a:b;
  bool real=isFP||(a.e&&a.e->k==K_REAL)||(b.e&&b.e->k==K_REAL);
  if(real){ Poly*p=polyOf(a,w),*q=polyOf(b,w); if(!p||!q) return decide(c.e)?a:b; return fromP(X.pite(c.e,p,q),w); }
  return fromE(X.mkIte(c.e,ex(a,w),ex(b,w))); }
static Val castV(unsigned opc,Val a,unsigned w2,unsigned w){ // from w2 to w
  if(isUndef(a)) return {0,X.UNDEF};
  switch(opc){
    case Instruction::Trunc: if(!a.e) return {a.c&maskw(w),nullptr}; if(a.e->k==K_REAL) abandon("trunc of real"); return fromE(X.mkExtract(a.e,0,w));
    case Instruction::ZExt: if(!a.e) return a; return fromE(X.mkZext(bvOf(a,w2),w));
    case Instruction::SExt: if(!a.e) return {(uint64_t)sextw(a.c,w2)&maskw(w),nullptr}; return fromE(X.mkSext(bvOf(a,w2),w));
    case Instruction::PtrToInt: case Instruction::IntToPtr: if(!a.e) return {a.c&maskw(w),nullptr}; if(w==w2) return a; return fromE(w<w2?X.mkExtract(a.e,0,w):X.mkZext(a.e,w));
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return a;
    case Instruction::FPTrunc: case Instruction::FPExt: if(!a.e) return fromD(asD(a,w2),w); { Poly*p=polyOf(a,w2); return fromP(p,w); }
    case Instruction::SIToFP: if(!a.e) return fromD(w==32?(double)(float)sextw(a.c,w2):(double)sextw(a.c,w2),w); return fromP(X.psitofp(a.e->lo>=0||true? bvOf(a,w2):a.e,false),w);
    case Instruction::UIToFP: if(!a.e) return fromD((double)a.c,w); { Expr*e=bvOf(a,w2); if(e->w==1) return fromP(X.pite(e,X.PONE,X.ZERO),w); if(e->lo<0){ if(e->w<64) e=X.mkZext(e,64); else abandon("uitofp of a large symbolic value"); } return fromP(X.psitofp(e,true),w); }
    case Instruction::FPToSI: case Instruction::FPToUI: if(!a.e){ double d=asD(a,w2); if(!(d>-9.3e18&&d<1.9e19)) return {0,X.UNDEF}; return {(opc==Instruction::FPToSI||d<0? (uint64_t)(int64_t)d:(uint64_t)d)&maskw(w),nullptr}; }
      { Poly*p=polyOf(a,w2); // ITE of constants / integer valued: fork over truncated values
        if(p->isConst()){ double d=p->constVal().get_d(); return {(uint64_t)(int64_t)d&maskw(w),nullptr}; }
        for(;;){ Q v=EV.real(p); mpz_class t=v.get_num()/v.get_den(); // truncation toward zero
          auto inCell=[&](long tv)->Expr*{ if(tv>0) return X.mkAnd(X.mkRCmp0(K_RLE0,X.psub(X.polyC(Q(tv)),p)),X.mkRCmp0(K_RLT0,X.psub(p,X.polyC(Q(tv+1))))); if(tv<0) return X.mkAnd(X.mkRCmp0(K_RLE0,X.psub(p,X.polyC(Q(tv)))),X.mkRCmp0(K_RLT0,X.psub(X.polyC(Q(tv-1)),p))); return X.mkAnd(X.mkRCmp0(K_RLT0,X.psub(X.polyC(Q(-1)),p)),X.mkRCmp0(K_RLT0,X.psub(p,X.polyC(Q(1))))); };
          bool replay=decDepth<prefixLen; long tv=t.get_si(); size_t at=decDepth; Expr*c=inCell(tv); if(knownBool(c)==1) return {(uint64_t)tv&maskw(w),nullptr}; if(replay&&DEC[at].hasVal){ tv=(long)DEC[at].val; c=inCell(tv); }
          if(!replay&&knownBool(c)==0){ // the model at hand does not satisfy the path condition
            auto r=solveFull(nullptr); if(r==Solver::UNSAT) throw PathEnd{PathEnd::AssumeFail,"",""}; Q w2v=EV.real(p); mpz_class t2=w2v.get_num()/w2v.get_den(); if(r!=Solver::SAT||knownBool(inCell(t2.get_si()))==0) abandon("truncation of a symbolic value"); continue; }
          nConcretised++; bool r=decide(c); if(decDepth>at){ DEC[at].val=(uint64_t)tv; DEC[at].hasVal=true; } if(r) return {(uint64_t)tv&maskw(w),nullptr}; } }
  }
  abandon("cast"); }

static bool tiMatch(uint64_t thrown,uint64_t want){ if(want==0||thrown==want) return true; // walk single inheritance chain
  for(int i=0;i<16;i++){ Obj*o=findObj(thrown); if(!o||o->kind!=O_GLOBAL||o->size<24) return false; Val b=loadN(o,16,8,64); if(o->size==24){ thrown=b.c; if(thrown==want) return true; } else { // vmi: flags,count,bases
      uint32_t cnt; memcpy(&cnt,o->b+20,4); for(uint32_t k=0;k<cnt&&24+16*k+8<=o->size;k++){ uint64_t bt; memcpy(&bt,o->b+24+16*k,8); if(bt==want||tiMatch(bt,want)) return true; } return false; } }
  return false; }
static void setRet(Frame&fr,const DInst&d,int code){ if(d.dst>=0) REG[fr.base+d.dst]=Val{(uint64_t)code,nullptr}; }
static void finishCall(Frame&fr,const DInst&d){ CallD*c=(CallD*)d.ext; if(c->invoke) doEdge(fr,c->normal); else fr.pc++; }
static void unwindTo(uint64_t exc){ uint64_t ti=excTI[exc];
  while(!FR.empty()){ Frame&fr=FR.back(); const DInst&d=fr.f->code[fr.pc]; CallD*c= d.op==OP_CALL? (CallD*)d.ext:nullptr;
    if(c&&c->invoke){ // landing pad: first non-phi instruction of the unwind destination
      const DInst&lp=fr.f->code[c->unwind.target]; if(lp.op==OP_LPAD){ LPD*p=(LPD*)lp.ext; bool take=false; int64_t sel=0; for(auto&cl:p->cl){ if(cl.isCatch){ if(tiMatch(ti,cl.ti)){ take=true; if(!tiIdx.count(cl.ti)) tiIdx[cl.ti]=tiIdx.size()+1; sel=tiIdx[cl.ti]; break; } } else { bool in=false; for(auto x:cl.filt) if(tiMatch(ti,x)) in=true; if(!in){ take=true; sel=-1; break; } } }
        if(take||p->cleanup){ curExc=exc; curSel=take?sel:0; doEdge(fr,c->unwind); return; } } }
    bool tr=fr.isTry; popFrame(); if(tr){ Frame&cf=FR.back(); const DInst&cd=cf.f->code[cf.pc]; leakOK=true; setRet(cf,cd,1); finishCall(cf,cd); return; } }
  std::string tn="?"; for(auto&g:gaddr) if(g.second==ti) tn=demangled(g.first->getName().str()); violation("exception","uncaught exception: "+tn); }
static void refuse(const std::string&why){ for(size_t i=FR.size();i-->0;) if(FR[i].isTry){ while(FR.size()>i+1) popFrame(); popFrame(); leakOK=true; Frame&cf=FR.back(); const DInst&cd=cf.f->code[cf.pc]; setRet(cf,cd,2); finishCall(cf,cd); return; } violation("assert",why); }

#include "builtins.hpp"

static void execCall(Frame&fr0,const DInst&d){
  CallD*c=(CallD*)d.ext; size_t fi=FR.size()-1;
  if(c->intrin){ intrinsic(fr0,d,c); if(FR.size()-1==fi&&!c->invoke) FR[fi].pc++; else if(c->invoke) doEdge(FR[fi],c->normal); return; }
  DFunc*f=c->direct; int bid=c->builtin; std::string nm=c->name;
  if(!f&&bid<0){ if(!c->fn){ Val cv=getv(fr0,c->calleeOp); if(isUndef(cv)) violation("undefined","call through an uninitialised pointer"); uint64_t a=cv.e? concretise(cv.e):cv.c; auto it=fnByAddr.find(a); if(it==fnByAddr.end()) violation("memory",a==0?"call through a null pointer":"call through a wild pointer"); f=it->second; if(f->F->isDeclaration()||builtinId(f->name)>=0){ bid=builtinId(f->name); nm=f->name; f=nullptr; } else if(f->F->isDeclaration()) f=nullptr; }
    if(!f&&bid<0){ abandon("call to unmodelled function "+demangled(nm)); } }
  Val args[48]; int n=0; std::vector<uint32_t> byv; for(auto&a:c->args){ for(int k=0;k<a[1]&&n<48;k++) args[n++]=getk(fr0,a[0],k); if(a[3]){ uint64_t id=newObj(a[3],O_STACK,false); byv.push_back(id); copyMem(OBJ[id].base,concVal(args[n-1]),a[3]); args[n-1]=Val{OBJ[id].base,nullptr}; } }
  if(bid>=0){ Val r{0,nullptr}; bool handled=callBuiltin(bid,args,n,r,d,c); if(handled) return; Frame&fr=FR[fi]; if(d.dst>=0) REG[fr.base+d.dst]=r; finishCall(fr,d); return; }
  pushFrame(f); Frame&nf=FR.back(); for(int i=0;i<n&&i<f->nregs;i++) REG[nf.base+i]=args[i]; nf.allocas=byv; }

static void step();
static void runLoop(size_t depth){ while(FR.size()>depth) step(); }
static void step(){
  Frame&fr=FR.back(); const DInst&d=fr.f->code[fr.pc]; nInst++; if(++pathInst>optInstLimit) violation("nontermination","instruction limit per path exceeded"); if((nInst&0xffff)==0&&nowSec()-T0>optTimeout*1.0+20) abandon("time budget");
  Val*R=&REG[fr.base];
#define G(o) getv(fr,o)
  switch(d.op){
    case OP_BIN: if(d.n==1){ R[d.dst]=binop(d.imm,G(d.a),G(d.b),d.w);} else for(int k=0;k<d.n;k++) R[d.dst+k]=binop(d.imm,getk(fr,d.a,k),getk(fr,d.b,k),d.w); fr.pc++; return;
    case OP_FBIN: for(int k=0;k<d.n;k++){ Val v=fbin(d.imm,getk(fr,d.a,k),getk(fr,d.b,k),d.w); REG[fr.base+d.dst+k]=v;} fr.pc++; return;
    case OP_FNEG: for(int k=0;k<d.n;k++){ Val a=getk(fr,d.a,k); if(isUndef(a)) R[d.dst+k]=a; else if(!a.e) R[d.dst+k]=fromD(-asD(a,d.w),d.w); else R[d.dst+k]=fromP(X.pneg(polyOf(a,d.w)),d.w);} fr.pc++; return;
    case OP_ICMP: for(int k=0;k<d.n;k++) R[d.dst+k]=icmp(d.imm,getk(fr,d.a,k),getk(fr,d.b,k),d.w); fr.pc++; return;
    case OP_FCMP: for(int k=0;k<d.n;k++) R[d.dst+k]=fcmp(d.imm,getk(fr,d.a,k),getk(fr,d.b,k),d.w); fr.pc++; return;
    case OP_SELECT: for(int k=0;k<d.n;k++) R[d.dst+k]=selectV(getk(fr,d.a,d.sub?k:0),getk(fr,d.b,k),getk(fr,d.c,k),d.w,d.isPtr,d.isFP); fr.pc++; return;
    case OP_LOAD: { Val p=G(d.a); for(int k=0;k<d.n;k++){ Val q=p; if(k){ q= p.e? fromE(X.mkAdd(p.e,X.C(k*d.imm,64))):Val{p.c+k*d.imm,nullptr}; } Val v=loadVal(q,d.imm,d.w,d.isPtr,d.isFP); REG[fr.base+d.dst+k]=v; } fr.pc++; return; }
    case OP_STORE: { Val p=G(d.a); for(int k=0;k<d.n;k++){ Val q=p; if(k){ q= p.e? fromE(X.mkAdd(p.e,X.C(k*d.imm,64))):Val{p.c+k*d.imm,nullptr}; } storeVal(q,d.imm,getk(fr,d.b,k),d.w<8?8:d.w,d.isPtr,d.isFP); } fr.pc++; return; }
    case OP_GEP: { GepD*g=(GepD*)d.ext; Val p=G(d.a); uint64_t c=g->off; Expr*e=nullptr; if(isUndef(p)){ R[d.dst]=p; fr.pc++; return; } if(p.e) e=p.e; else c+=p.c; bool und=false; for(auto&ix:g->idx){ Val v=G(std::get<0>(ix)); unsigned w=std::get<2>(ix); if(!v.e) c+=(uint64_t)(sextw(v.c,w)*std::get<1>(ix)); else if(isUndef(v)) und=true; else { Expr*t=X.mkMul(X.mkSext(bvOf(v,w),64),X.C((uint64_t)std::get<1>(ix),64)); e= e? X.mkAdd(e,t):t; } } if(und) R[d.dst]=Val{0,X.UNDEF}; else if(e) R[d.dst]=fromE(X.mkAdd(e,X.C(c,64))); else R[d.dst]=Val{c,nullptr}; fr.pc++; return; }
    case OP_ALLOCA: { uint64_t n=concVal(G(d.a)); uint64_t id=newObj(d.imm*n,O_STACK,false); fr.allocas.push_back(id); REG[fr.base+d.dst]=Val{OBJ[id].base,nullptr}; fr.pc++; return; }
    case OP_CAST: for(int k=0;k<d.n;k++){ Val v=castV(d.imm,getk(fr,d.a,k),d.w2,d.w); REG[fr.base+d.dst+k]=v; } fr.pc++; return;
    case OP_BR: doEdge(fr,*(Edge*)d.ext); return;
    case OP_CBR: { CbrD*c=(CbrD*)d.ext; bool b=condBool(G(d.a)); doEdge(fr,b?c->t:c->f); return; }
    case OP_SWITCH: { SwitchD*s=(SwitchD*)d.ext; Val v=G(d.a); if(isUndef(v)) violation("undefined","switch on an uninitialised value"); if(!v.e){ for(auto&c:s->cases) if(c.first==v.c){ doEdge(fr,c.second); return; } doEdge(fr,s->def); return; } for(auto&c:s->cases) if(decide(X.mkCmp(K_EQ,bvOf(v,d.w),X.C(c.first,d.w)))){ doEdge(fr,c.second); return; } doEdge(fr,s->def); return; }
    case OP_CALL: execCall(fr,d); return;
    case OP_RET: { Val rv[48]; int n=d.n; for(int k=0;k<n&&k<48;k++) rv[k]=getk(fr,d.a,k); bool tr=fr.isTry; popFrame(); if(FR.empty()) return; Frame&cf=FR.back(); const DInst&cd=cf.f->code[cf.pc]; if(cd.op!=OP_CALL) return; if(tr){ setRet(cf,cd,0); } else if(cd.dst>=0) for(int k=0;k<n;k++) REG[cf.base+cd.dst+k]=rv[k]; finishCall(cf,cd); return; }
    case OP_UNREACH: violation("undefined","unreachable code reached");
    case OP_COPY: for(int k=0;k<d.n;k++){ Val v=getk(fr,d.a,k); if(d.sub&&isUndef(v)) v=Val{0,nullptr}; R[d.dst+k]=v; } fr.pc++; return;
    case OP_INSERT: { for(int k=0;k<d.n;k++) R[d.dst+k]=getk(fr,d.a,k); for(int k=0;k<d.c;k++) R[d.dst+(int)d.imm+k]=getk(fr,d.b,k); fr.pc++; return; }
    case OP_EXTRELT: { uint64_t i=concVal(G(d.b)); R[d.dst]=getk(fr,d.a,i); fr.pc++; return; }
    case OP_INSELT: { uint64_t i=concVal(G(d.c)); Val v=G(d.b); for(int k=0;k<d.n;k++) R[d.dst+k]=getk(fr,d.a,k); R[d.dst+i]=v; fr.pc++; return; }
    case OP_SHUF: { auto&m=*(std::vector<int>*)d.ext; for(size_t k=0;k<m.size();k++) R[d.dst+k]= m[k]<0? Val{0,X.UNDEF} : m[k]<(int)d.imm? getk(fr,d.a,m[k]) : getk(fr,d.b,m[k]-(int)d.imm); fr.pc++; return; }
    case OP_LPAD: R[d.dst]=Val{curExc,nullptr}; R[d.dst+1]=Val{(uint64_t)curSel&0xffffffff,nullptr}; fr.pc++; return;
    case OP_RESUME: { uint64_t e=concVal(G(d.a)); bool tr=fr.isTry; (void)tr; // continue unwinding in the caller
        if(fr.isTry){ popFrame(); Frame&cf=FR.back(); const DInst&cd=cf.f->code[cf.pc]; leakOK=true; setRet(cf,cd,1); finishCall(cf,cd); return; } popFrame(); if(FR.empty()){ FR.clear(); violation("exception","uncaught exception"); } unwindTo(e); return; }
    case OP_ATOMIC: { Val p=G(d.a); Val old=loadVal(p,d.imm,d.w,false); Val v=G(d.b),nv; switch(d.sub){ case AtomicRMWInst::Xchg:nv=v;break; case AtomicRMWInst::Add:nv=binop(Instruction::Add,old,v,d.w);break; case AtomicRMWInst::Sub:nv=binop(Instruction::Sub,old,v,d.w);break; default: abandon("atomicrmw"); } storeVal(p,d.imm,nv,d.w,false,false); REG[fr.base+d.dst]=old; fr.pc++; return; }
    case OP_NOP: fr.pc++; return;
    case OP_UNSUP: abandon(*(std::string*)d.ext);
    default: abandon("bad op"); }
#undef G
}
