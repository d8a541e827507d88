#include "prog.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;
static LLVMContext LC; static std::unique_ptr<Module> M; static const DataLayout*DL; static Program*P;
static DenseMap<const GlobalValue*,u32> gid; static DenseMap<const Function*,Fn*> fmap;
[[noreturn]] static void die(const std::string&s,const Value*v=nullptr){ errs()<<"nsym load: "<<s; if(v) errs()<<": "<<*v; errs()<<"\n"; exit(3); }
static unsigned leaves(Type*t){ if(t->isVoidTy()) return 0; if(auto*s=dyn_cast<StructType>(t)){ unsigned n=0; for(Type*e:s->elements()) n+=leaves(e); return n; } if(auto*a=dyn_cast<ArrayType>(t)) return a->getNumElements()*leaves(a->getElementType()); return 1; }
static unsigned widthOf(Type*t){ if(t->isPointerTy()) return 64; if(t->isIntegerTy()) return t->getIntegerBitWidth(); if(t->isDoubleTy()) return 64; if(t->isFloatTy()) return 32; return 0; }
static void leafW(Type*t,std::vector<u8>&o){ if(t->isVoidTy()) return; if(auto*s=dyn_cast<StructType>(t)){ for(Type*e:s->elements()) leafW(e,o); return; } if(auto*a=dyn_cast<ArrayType>(t)){ for(u64 i=0;i<a->getNumElements();i++) leafW(a->getElementType(),o); return; } unsigned w=widthOf(t); o.push_back(w>64?0:w); }
static void leafOff(Type*t,u64 off,std::vector<std::pair<u64,u8>>&o){ if(auto*s=dyn_cast<StructType>(t)){ auto*sl=DL->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++) leafOff(s->getElementType(i),off+sl->getElementOffset(i),o); return; } if(auto*a=dyn_cast<ArrayType>(t)){ u64 es=DL->getTypeAllocSize(a->getElementType()); for(u64 i=0;i<a->getNumElements();i++) leafOff(a->getElementType(),off+i*es,o); return; } o.push_back({off,(u8)widthOf(t)}); }
static u64 constVal(const Constant*c);
static u64 constExpr(const ConstantExpr*ce){
  switch(ce->getOpcode()){
  case Instruction::GetElementPtr: { auto*g=cast<GEPOperator>(ce); APInt off(64,0); if(!g->accumulateConstantOffset(*DL,off)) die("gep",ce); return constVal(cast<Constant>(g->getPointerOperand()))+off.getSExtValue(); }
  case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::ZExt: return constVal(ce->getOperand(0));
  case Instruction::Trunc: return constVal(ce->getOperand(0))&maskw(widthOf(ce->getType()));
  case Instruction::Sub: return constVal(ce->getOperand(0))-constVal(ce->getOperand(1)); case Instruction::Add: return constVal(ce->getOperand(0))+constVal(ce->getOperand(1));
  default: die("constexpr",ce); } }
static u64 constVal(const Constant*c){
  if(auto*ci=dyn_cast<ConstantInt>(c)){ if(ci->getBitWidth()>64) return 0; return ci->getZExtValue(); }
  if(auto*cf=dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
  if(isa<ConstantPointerNull>(c)||isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)) return 0;
  if(auto*gv=dyn_cast<GlobalAlias>(c)) return constVal(gv->getAliasee());
  if(auto*gv=dyn_cast<GlobalValue>(c)){ auto it=gid.find(gv); if(it==gid.end()) die("global",c); return addrOf(it->second); }
  if(auto*ce=dyn_cast<ConstantExpr>(c)) return constExpr(ce);
  die("const",c); }
static void flatten(const Constant*c,std::vector<Val>&o){ Type*t=c->getType(); if(t->isStructTy()||t->isArrayTy()){ unsigned n=t->isStructTy()?t->getStructNumElements():t->getArrayNumElements(); for(unsigned i=0;i<n;i++) flatten(c->getAggregateElement(i),o); return; } o.push_back({constVal(c),nullptr}); }
static void initMem(const Constant*c,u8*p){
  if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)) return; Type*t=c->getType();
  if(auto*s=dyn_cast<StructType>(t)){ auto*sl=DL->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++) initMem(c->getAggregateElement(i),p+sl->getElementOffset(i)); return; }
  if(auto*a=dyn_cast<ArrayType>(t)){ u64 es=DL->getTypeAllocSize(a->getElementType()); for(u64 i=0;i<a->getNumElements();i++) initMem(c->getAggregateElement(i),p+i*es); return; }
  if(auto*v=dyn_cast<FixedVectorType>(t)){ u64 es=DL->getTypeAllocSize(v->getElementType()); for(u64 i=0;i<v->getNumElements();i++) initMem(c->getAggregateElement(i),p+i*es); return; }
  u64 v=constVal(c); u64 n=DL->getTypeStoreSize(t); memcpy(p,&v,n>8?8:n); }
Program*loadProgram(const std::vector<std::string>&files){
  SMDiagnostic err; for(auto&f:files){ auto m=parseIRFile(f,err,LC); if(!m){ err.print("nsym",errs()); exit(3);} if(!M) M=std::move(m); else if(Linker::linkModules(*M,std::move(m))) die("link "+f); }
  DL=&M->getDataLayout(); P=new Program; u32 id=16;
  for(auto&f:*M){ Fn*n=new Fn; n->name=f.getName().str(); n->decl=f.isDeclaration(); n->vararg=f.isVarArg(); n->objId=id; n->llvm=&f; gid[&f]=id++; fmap[&f]=n; P->fns.push_back(n); P->byName[n->name]=n; if(auto*sp=f.getSubprogram()){ n->file=(sp->getDirectory()+"/"+sp->getFilename()).str(); if(sp->getFilename().starts_with("/")) n->file=sp->getFilename().str(); } n->fromRepo=n->file.find("/src/")!=std::string::npos; P->globals.push_back({n->name,n->objId,1,true,{0},n}); }
  for(auto&g:M->globals()){ gid[&g]=id++; }
  for(auto&g:M->globals()){ GlobalObj o; o.name=g.getName().str(); o.id=gid[&g]; u64 sz=DL->getTypeAllocSize(g.getValueType()); o.size=sz; o.data.assign(sz,0); o.ro=g.isConstant(); if(g.hasInitializer()) initMem(g.getInitializer(),o.data.data()); else if(!g.isDeclaration()) {} else fprintf(stderr,"nsym: warning: undefined global %s\n",o.name.c_str()); P->globals.push_back(std::move(o)); }
  P->nextId=id; return P; }
void decodeFn(Fn*f){
  if(f->decoded) return; f->decoded=true; Function&F=*(Function*)f->llvm; if(F.isDeclaration()) return;
  DenseMap<const Value*,i32> reg; i32 nr=0; leafW(F.getReturnType(),f->retW); f->retN=f->retW.size();
  for(auto&a:F.args()){ if(leaves(a.getType())!=1) die("aggregate param",&a); reg[&a]=nr; f->params.push_back(nr++); f->paramW.push_back(widthOf(a.getType())); if(a.hasByValAttr()) f->byvalParams.push_back({(i32)a.getArgNo(),(u32)DL->getTypeAllocSize(a.getParamByValType())}); }
  f->nparams=f->params.size();
  for(auto&B:F) for(auto&I:B){ unsigned n=leaves(I.getType()); if(n){ reg[&I]=nr; nr+=n; } }
  f->nregs=nr;
  DenseMap<const Constant*,i32> cmap;
  auto opnd=[&](const Value*v)->i32{ auto it=reg.find(v); if(it!=reg.end()) return it->second; if(auto*c=dyn_cast<Constant>(v)){ auto ci=cmap.find(c); if(ci!=cmap.end()) return ci->second; i32 k=~(i32)f->consts.size(); flatten(c,f->consts); cmap[c]=k; return k; } if(isa<MetadataAsValue>(v)||isa<InlineAsm>(v)) return ~0; die("operand",v); };
  DenseMap<const BasicBlock*,u32> bpc; std::vector<std::pair<u32,const BasicBlock*>> fix;
  auto edge=[&](const BasicBlock*from,const BasicBlock*to)->u32{ Edge e; e.pc=0; for(auto&phi:to->phis()){ i32 s=opnd(phi.getIncomingValueForBlock(from)); unsigned n=leaves(phi.getType()); i32 d=reg[&phi]; for(unsigned i=0;i<n;i++) e.mv.push_back({d+(i32)i, s>=0? s+(i32)i : ~((~s)+(i32)i)}); } f->edges.push_back(e); fix.push_back({(u32)f->edges.size()-1,to}); return f->edges.size()-1; };
  auto sub=[&](i32 base,unsigned i)->i32{ return base>=0? base+(i32)i : ~((~base)+(i32)i); };
  for(auto&B:F){ bpc[&B]=f->code.size();
   for(auto&I:B){ if(isa<PHINode>(I)) continue;
    Inst n; memset(&n,0,sizeof n); n.op=IOp::Bad; n.dst=-1; auto ri=reg.find(&I); if(ri!=reg.end()) n.dst=ri->second; if(auto&dl=I.getDebugLoc()) n.line=dl.getLine(); n.w=I.getType()->isVoidTy()?0:widthOf(I.getType());
    auto push=[&]{ f->code.push_back(n); };
    bool bad=false;
    auto chk=[&](Type*t){ unsigned w=widthOf(t); if(w==0||w>64) bad=true; };
    switch(I.getOpcode()){
    case Instruction::Add:n.sub=(u8)XOp::Add;goto bin;case Instruction::Sub:n.sub=(u8)XOp::Sub;goto bin;case Instruction::Mul:n.sub=(u8)XOp::Mul;goto bin;case Instruction::UDiv:n.sub=(u8)XOp::UDiv;goto bin;case Instruction::SDiv:n.sub=(u8)XOp::SDiv;goto bin;case Instruction::URem:n.sub=(u8)XOp::URem;goto bin;case Instruction::SRem:n.sub=(u8)XOp::SRem;goto bin;
    case Instruction::And:n.sub=(u8)XOp::And;goto bin;case Instruction::Or:n.sub=(u8)XOp::Or;goto bin;case Instruction::Xor:n.sub=(u8)XOp::Xor;goto bin;case Instruction::Shl:n.sub=(u8)XOp::Shl;goto bin;case Instruction::LShr:n.sub=(u8)XOp::LShr;goto bin;case Instruction::AShr:n.sub=(u8)XOp::AShr;
    bin: chk(I.getType()); n.op=IOp::Bin; n.a=opnd(I.getOperand(0)); n.b=opnd(I.getOperand(1)); break;
    case Instruction::FAdd:n.sub=(u8)XOp::FAdd;goto fbin;case Instruction::FSub:n.sub=(u8)XOp::FSub;goto fbin;case Instruction::FMul:n.sub=(u8)XOp::FMul;goto fbin;case Instruction::FDiv:n.sub=(u8)XOp::FDiv;goto fbin;case Instruction::FRem:n.sub=(u8)XOp::FRem;
    fbin: chk(I.getType()); n.op=IOp::FBin; n.a=opnd(I.getOperand(0)); n.b=opnd(I.getOperand(1)); break;
    case Instruction::FNeg: chk(I.getType()); n.op=IOp::FNeg; n.a=opnd(I.getOperand(0)); break;
    case Instruction::ICmp: { auto&c=cast<ICmpInst>(I); chk(c.getOperand(0)->getType()); n.op=IOp::ICmp; n.w=widthOf(c.getOperand(0)->getType()); n.a=opnd(c.getOperand(0)); n.b=opnd(c.getOperand(1)); bool sw=false,neg=false; XOp o=XOp::Eq;
       switch(c.getPredicate()){ case CmpInst::ICMP_EQ:break; case CmpInst::ICMP_NE:neg=true;break; case CmpInst::ICMP_ULT:o=XOp::Ult;break; case CmpInst::ICMP_ULE:o=XOp::Ule;break; case CmpInst::ICMP_UGT:o=XOp::Ult;sw=true;break; case CmpInst::ICMP_UGE:o=XOp::Ule;sw=true;break; case CmpInst::ICMP_SLT:o=XOp::Slt;break; case CmpInst::ICMP_SLE:o=XOp::Sle;break; case CmpInst::ICMP_SGT:o=XOp::Slt;sw=true;break; case CmpInst::ICMP_SGE:o=XOp::Sle;sw=true;break; default:bad=true; }
       if(sw) std::swap(n.a,n.b); n.sub=(u8)o; n.w2=neg; break; }
    case Instruction::FCmp: { auto&c=cast<FCmpInst>(I); chk(c.getOperand(0)->getType()); n.op=IOp::FCmp; n.w=widthOf(c.getOperand(0)->getType()); n.a=opnd(c.getOperand(0)); n.b=opnd(c.getOperand(1)); n.sub=(u8)c.getPredicate(); break; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: { chk(I.getType()); chk(I.getOperand(0)->getType()); n.op=IOp::Cast; n.a=opnd(I.getOperand(0)); n.w2=widthOf(I.getOperand(0)->getType()); n.sub=I.getOpcode()==Instruction::SExt; break; }
    case Instruction::FPToSI:n.sub=(u8)XOp::FP2SI;goto conv;case Instruction::FPToUI:n.sub=(u8)XOp::FP2UI;goto conv;case Instruction::SIToFP:n.sub=(u8)XOp::SI2FP;goto conv;case Instruction::UIToFP:n.sub=(u8)XOp::UI2FP;goto conv;case Instruction::FPExt:n.sub=(u8)XOp::FPExt;goto conv;case Instruction::FPTrunc:n.sub=(u8)XOp::FPTrunc;
    conv: chk(I.getType()); chk(I.getOperand(0)->getType()); n.op=IOp::Conv; n.a=opnd(I.getOperand(0)); n.w2=widthOf(I.getOperand(0)->getType()); break;
    case Instruction::Freeze: n.op=IOp::Mov; n.a=opnd(I.getOperand(0)); n.n=leaves(I.getType()); break;
    case Instruction::Select: { n.op=IOp::Select; n.a=opnd(I.getOperand(0)); i32 b=opnd(I.getOperand(1)),c=opnd(I.getOperand(2)); std::vector<u8> lw; leafW(I.getType(),lw); i32 d=n.dst; for(unsigned i=0;i<lw.size();i++){ n.w=lw[i]; if(!n.w) bad=true; n.dst=d+i; n.b=sub(b,i); n.c=sub(c,i); if(!bad) push(); } if(bad) break; continue; }
    case Instruction::Alloca: { auto&a=cast<AllocaInst>(I); n.op=IOp::Alloca; n.x=DL->getTypeAllocSize(a.getAllocatedType()); n.a=opnd(a.getArraySize()); break; }
    case Instruction::Load: { std::vector<std::pair<u64,u8>> lo; leafOff(I.getType(),0,lo); n.op=IOp::Load; n.a=opnd(I.getOperand(0)); i32 d=n.dst; for(auto&p:lo){ if(p.second==0) bad=true; n.dst=d++; n.w=p.second; n.x=(u32)p.first; if(!bad) push(); } if(bad) break; continue; }
    case Instruction::Store: { Value*v=I.getOperand(0); std::vector<std::pair<u64,u8>> lo; leafOff(v->getType(),0,lo); n.op=IOp::Store; n.a=opnd(I.getOperand(1)); i32 s=opnd(v); unsigned i=0; for(auto&p:lo){ if(p.second==0) bad=true; n.b=sub(s,i++); n.w=p.second; n.x=(u32)p.first; if(!bad) push(); } if(bad) break; continue; }
    case Instruction::GetElementPtr: { auto&g=cast<GetElementPtrInst>(I); if(g.getType()->isVectorTy()){bad=true;break;} n.op=IOp::Gep; n.a=opnd(g.getPointerOperand()); GepI gi; gi.cst=0; for(auto it=gep_type_begin(g),e=gep_type_end(g);it!=e;++it){ Value*ix=it.getOperand(); if(auto*st=it.getStructTypeOrNull()){ gi.cst+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { u64 sz=DL->getTypeAllocSize(it.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(ix)) gi.cst+=ci->getSExtValue()*sz; else { gi.idx.push_back({opnd(ix),sz}); gi.iw.push_back(widthOf(ix->getType())); } } } n.x=f->geps.size(); f->geps.push_back(gi); break; }
    case Instruction::Br: { auto&b=cast<BranchInst>(I); if(b.isConditional()){ n.op=IOp::CondBr; n.a=opnd(b.getCondition()); n.x=edge(&B,b.getSuccessor(0)); n.y=edge(&B,b.getSuccessor(1)); } else { n.op=IOp::Br; n.x=edge(&B,b.getSuccessor(0)); } break; }
    case Instruction::Switch: { auto&s=cast<SwitchInst>(I); n.op=IOp::Switch; n.a=opnd(s.getCondition()); n.w=widthOf(s.getCondition()->getType()); SwitchI si; si.def=edge(&B,s.getDefaultDest()); for(auto&c:s.cases()) si.cases.push_back({c.getCaseValue()->getZExtValue(),edge(&B,c.getCaseSuccessor())}); n.x=f->sws.size(); f->sws.push_back(si); break; }
    case Instruction::Ret: { n.op=IOp::Ret; if(I.getNumOperands()) n.a=opnd(I.getOperand(0)); break; }
    case Instruction::Unreachable: n.op=IOp::Unreach; break;
    case Instruction::ExtractValue: { auto&ev=cast<ExtractValueInst>(I); Type*t=ev.getAggregateOperand()->getType(); unsigned off=0; for(unsigned ix:ev.indices()){ for(unsigned i=0;i<ix;i++) off+=leaves(t->isStructTy()?t->getStructElementType(i):t->getArrayElementType()); t=t->isStructTy()?t->getStructElementType(ix):t->getArrayElementType(); } n.op=IOp::Mov; n.a=sub(opnd(ev.getAggregateOperand()),off); n.n=leaves(I.getType()); break; }
    case Instruction::InsertValue: { auto&iv=cast<InsertValueInst>(I); Type*t=I.getType(); unsigned tot=leaves(t); unsigned off=0; for(unsigned ix:iv.indices()){ for(unsigned i=0;i<ix;i++) off+=leaves(t->isStructTy()?t->getStructElementType(i):t->getArrayElementType()); t=t->isStructTy()?t->getStructElementType(ix):t->getArrayElementType(); } i32 d=n.dst; n.op=IOp::Mov; n.a=opnd(iv.getAggregateOperand()); n.n=tot; push(); n.dst=d+off; n.a=opnd(iv.getInsertedValueOperand()); n.n=leaves(t); break; }
    case Instruction::Call: { auto&c=cast<CallInst>(I); Function*cf=c.getCalledFunction(); if(!cf) if(auto*ga=dyn_cast<Function>(c.getCalledOperand()->stripPointerCastsAndAliases())) cf=ga;
       if(cf&&cf->isIntrinsic()){ n.op=IOp::Intr; auto id=cf->getIntrinsicID(); n.w=widthOf(c.getType()); auto A=[&](unsigned i){ return opnd(c.getArgOperand(i)); };
         switch(id){
          case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::vaend: continue;
          case Intrinsic::expect: case Intrinsic::expect_with_probability: n.op=IOp::Mov; n.a=A(0); n.n=1; break;
          case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: n.op=IOp::MemCpy; n.a=A(0); n.b=A(1); n.c=A(2); n.sub=id==Intrinsic::memmove; n.w2=widthOf(c.getArgOperand(2)->getType()); break;
          case Intrinsic::memset: case Intrinsic::memset_inline: n.op=IOp::MemSet; n.a=A(0); n.b=A(1); n.c=A(2); n.w2=widthOf(c.getArgOperand(2)->getType()); break;
          case Intrinsic::vastart: n.op=IOp::VaStart; n.a=A(0); break;
          case Intrinsic::vacopy: n.op=IOp::MemCpy; n.a=A(0); n.b=A(1); n.c=opnd(ConstantInt::get(Type::getInt64Ty(LC),24)); n.w2=64; break;
          case Intrinsic::objectsize: n.op=IOp::Mov; n.a=opnd(ConstantInt::get(I.getType(),-1)); n.n=1; break;
          case Intrinsic::is_constant: n.op=IOp::Mov; n.a=opnd(ConstantInt::get(I.getType(),0)); n.n=1; break;
          case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: n.op=IOp::Unreach; n.sub=1; break;
          case Intrinsic::stacksave: n.op=IOp::Mov; n.a=opnd(ConstantPointerNull::get(PointerType::get(LC,0))); n.n=1; break; case Intrinsic::stackrestore: continue;
          case Intrinsic::sadd_with_overflow: n.sub=1; goto two; case Intrinsic::uadd_with_overflow: n.sub=2; goto two; case Intrinsic::ssub_with_overflow: n.sub=3; goto two; case Intrinsic::usub_with_overflow: n.sub=4; goto two; case Intrinsic::smul_with_overflow: n.sub=5; goto two; case Intrinsic::umul_with_overflow: n.sub=6; goto two;
          case Intrinsic::smax: n.sub=7; goto two; case Intrinsic::smin: n.sub=8; goto two; case Intrinsic::umax: n.sub=9; goto two; case Intrinsic::umin: n.sub=10; goto two; case Intrinsic::abs: n.sub=11; goto two; case Intrinsic::usub_sat: n.sub=12; goto two; case Intrinsic::uadd_sat: n.sub=13; goto two;
          two: n.a=A(0); n.b=A(1); n.w=widthOf(c.getArgOperand(0)->getType()); if(!n.w||n.w>64) bad=true; break;
          case Intrinsic::fabs: n.sub=20; goto one; case Intrinsic::floor: n.sub=21; goto one; case Intrinsic::ceil: n.sub=22; goto one; case Intrinsic::trunc: n.sub=23; goto one; case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: n.sub=24; goto one; case Intrinsic::round: n.sub=25; goto one; case Intrinsic::sqrt: n.sub=26; goto one;
          case Intrinsic::ctpop: n.sub=27; goto one; case Intrinsic::ctlz: n.sub=28; goto one; case Intrinsic::cttz: n.sub=29; goto one; case Intrinsic::bswap: n.sub=30; goto one;
          one: n.a=A(0); if(!n.w) bad=true; break;
          case Intrinsic::fmuladd: case Intrinsic::fma: n.sub=40; n.a=A(0); n.b=A(1); n.c=A(2); break;
          case Intrinsic::fshl: n.sub=41; n.a=A(0); n.b=A(1); n.c=A(2); break; case Intrinsic::fshr: n.sub=42; n.a=A(0); n.b=A(1); n.c=A(2); break;
          case Intrinsic::is_fpclass: n.sub=43; n.a=A(0); n.x=cast<ConstantInt>(c.getArgOperand(1))->getZExtValue(); n.w=widthOf(c.getArgOperand(0)->getType()); break;
          case Intrinsic::copysign: n.sub=44; n.a=A(0); n.b=A(1); break;
          case Intrinsic::minnum: n.sub=45; n.a=A(0); n.b=A(1); break; case Intrinsic::maxnum: n.sub=46; n.a=A(0); n.b=A(1); break;
          default: bad=true; } if(bad) break; break; }
       n.op=IOp::Call; CallI ci; if(cf) ci.fn=fmap[cf]; else ci.target=opnd(c.getCalledOperand()); ci.noreturn=c.doesNotReturn();
       for(unsigned i=0;i<c.arg_size();i++){ Value*a=c.getArgOperand(i); if(leaves(a->getType())!=1||widthOf(a->getType())==0){ bad=true; break; } ci.args.push_back(opnd(a)); ci.w.push_back(widthOf(a->getType())); ci.byval.push_back(c.isByValArgument(i)?DL->getTypeAllocSize(c.getParamByValType(i)):0); }
       if(bad) break; std::vector<u8> lw; leafW(c.getType(),lw); n.n=lw.size(); n.w=lw.size()==1?lw[0]:0; n.x=f->calls.size(); f->calls.push_back(ci); break; }
    case Instruction::Fence: continue;
    default: bad=true; }
    if(bad){ n.op=IOp::Bad; std::string s; raw_string_ostream os(s); os<<I; n.x=f->consts.size(); f->consts.push_back({(u64)(uintptr_t)new std::string(os.str()),nullptr}); }
    push(); } }
  for(auto&p:fix) f->edges[p.first].pc=bpc[p.second];
}
