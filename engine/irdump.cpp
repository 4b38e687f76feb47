// irdump: mechanical export of LLVM IR (as produced by clang from /repo's sources) into JSON for vcgen.py.
// Nothing is dropped except debug intrinsics/metadata that do not affect execution (variable names and source lines are kept).
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/ADT/SmallString.h"
#include <set>
#include <map>
#include <deque>
using namespace llvm;

static const DataLayout* DL;
static raw_ostream* O;
static std::set<const GlobalValue*> seen; static std::deque<const GlobalValue*> work;
static void need(const GlobalValue* g){ if(seen.insert(g).second) work.push_back(g); }

static void str(StringRef s){ *O<<'"'; for(unsigned char c: s){ if(c=='"'||c=='\\') *O<<'\\'<<(char)c; else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); *O<<b;} else *O<<(char)c;} *O<<'"'; }
static void ty(Type* t){
  if(t->isIntegerTy()) *O<<"\"i"<<t->getIntegerBitWidth()<<'"';
  else if(t->isFloatTy()) *O<<"\"f32\""; else if(t->isDoubleTy()) *O<<"\"f64\"";
  else if(t->isPointerTy()) *O<<"\"ptr\""; else if(t->isVoidTy()) *O<<"\"void\"";
  else if(auto* v=dyn_cast<FixedVectorType>(t)){ *O<<"[\"v\","<<v->getNumElements()<<","; ty(v->getElementType()); *O<<"]"; }
  else if(auto* s=dyn_cast<StructType>(t)){ if(s->isOpaque()){*O<<"\"opaque\"";return;} auto* L=DL->getStructLayout(s); *O<<"[\"s\","<<(uint64_t)DL->getTypeAllocSize(t)<<",["; for(unsigned i=0;i<s->getNumElements();i++){ if(i)*O<<","; *O<<"["<<(uint64_t)L->getElementOffset(i)<<","; ty(s->getElementType(i)); *O<<"]"; } *O<<"]]"; }
  else if(auto* a=dyn_cast<ArrayType>(t)){ *O<<"[\"a\","<<a->getNumElements()<<","<<(uint64_t)DL->getTypeAllocSize(a->getElementType())<<","; ty(a->getElementType()); *O<<"]"; }
  else if(t->isLabelTy()) *O<<"\"label\""; else if(t->isMetadataTy()) *O<<"\"md\"";
  else { *O<<"\"?"; t->print(*O); *O<<'"'; }
}
static void apint(const APInt& v){ SmallString<64> s; v.toStringUnsigned(s); *O<<s; }
static void cst(const Constant* c);
static void gepparts(const GEPOperator* g, std::function<void(const Value*)> val){
  unsigned bw=64; MapVector<Value*,APInt> vo; APInt co(bw,0);
  if(!g->collectOffset(*DL,bw,vo,co)){ *O<<"[\"badgep\"]"; return; }
  val(g->getPointerOperand()); *O<<","; *O<<co.getSExtValue()<<",["; bool f=true;
  for(auto& p: vo){ if(!f)*O<<","; f=false; *O<<"["; val(p.first); *O<<","<<p.second.getSExtValue()<<"]"; } *O<<"]";
}
static void cst(const Constant* c){
  if(auto* i=dyn_cast<ConstantInt>(c)){ *O<<"[\"c\","<<i->getBitWidth()<<",\""; apint(i->getValue()); *O<<"\"]"; }
  else if(auto* f=dyn_cast<ConstantFP>(c)){ *O<<"[\"f\","; ty(c->getType()); *O<<",\""; apint(f->getValueAPF().bitcastToAPInt()); *O<<"\"]"; }
  else if(isa<ConstantPointerNull>(c)) *O<<"[\"c\",64,\"0\"]";
  else if(isa<UndefValue>(c)){ *O<<"[\"u\","; ty(c->getType()); *O<<"]"; }
  else if(isa<ConstantAggregateZero>(c)){ *O<<"[\"z\","; ty(c->getType()); *O<<"]"; }
  else if(auto* g=dyn_cast<GlobalAlias>(c)) cst(g->getAliasee());
  else if(auto* g=dyn_cast<GlobalValue>(c)){ need(g); *O<<"[\"g\","; str(g->getName()); *O<<",0]"; }
  else if(isa<ConstantDataSequential>(c)||isa<ConstantAggregate>(c)){ *O<<"[\"agg\","; ty(c->getType()); *O<<",["; unsigned n; 
    if(auto* s=dyn_cast<ConstantDataSequential>(c)){ n=s->getNumElements(); for(unsigned i=0;i<n;i++){ if(i)*O<<","; cst(s->getElementAsConstant(i)); } }
    else { n=c->getNumOperands(); for(unsigned i=0;i<n;i++){ if(i)*O<<","; cst(cast<Constant>(c->getOperand(i))); } } *O<<"]]"; }
  else if(auto* e=dyn_cast<ConstantExpr>(c)){
    if(auto* g=dyn_cast<GEPOperator>(e)){ *O<<"[\"gep\","; gepparts(g,[](const Value* v){ cst(cast<Constant>(v)); }); *O<<"]"; }
    else { *O<<"[\"ce\","; str(e->getOpcodeName()); *O<<","; ty(e->getType()); for(auto& op: e->operands()){ *O<<","; cst(cast<Constant>(op)); } *O<<"]"; }
  }
  else { *O<<"[\"?const\"]"; }
}

int main(int argc,char** argv){
  LLVMContext C; SMDiagnostic E; auto M=parseIRFile(argv[1],E,C); if(!M){ E.print(argv[0],errs()); return 2; }
  DL=&M->getDataLayout(); raw_fd_ostream* out; std::error_code ec; raw_fd_ostream os(argv[2],ec); O=&os;
  for(auto& F:*M) if(!F.isDeclaration()){ StringRef n=F.getName(); if(n.starts_with("h_")||n.starts_with("inv_")||n.starts_with("ct_")||n.starts_with("spec_")) need(&F); }
  for(auto& G: M->globals()) if(G.getName().starts_with("vcg_")) need(&G);
  *O<<"{\"globals\":{"; std::vector<const Function*> fns;
  std::string fbuf; raw_string_ostream fs(fbuf); bool gf=true, ff=true;
  while(!work.empty()){
    auto* gv=work.front(); work.pop_front();
    if(auto* G=dyn_cast<GlobalVariable>(gv)){
      O=&os; if(!gf)*O<<",\n"; gf=false; str(G->getName()); *O<<":{\"size\":"<<(uint64_t)DL->getTypeAllocSize(G->getValueType())<<",\"const\":"<<(G->isConstant()?1:0)<<",\"align\":"<<DL->getPreferredAlign(G).value()<<",\"ty\":"; ty(G->getValueType()); *O<<",\"init\":"; if(G->hasInitializer()) cst(G->getInitializer()); else *O<<"null"; *O<<"}";
    } else if(auto* F=dyn_cast<Function>(gv)){
      O=&fs; if(!ff)*O<<",\n"; ff=false; str(F->getName()); *O<<":{\"dem\":"; str(demangle(F->getName().str()));
      *O<<",\"ret\":"; ty(F->getReturnType()); *O<<",\"args\":["; 
      std::map<const Value*,int> id; int nid=0; bool f=true;
      for(auto& a: F->args()){ if(!f)*O<<","; f=false; id[&a]=nid++; *O<<"["; str(a.getName()); *O<<","; ty(a.getType()); Type* bv=a.getParamByValType(); *O<<","<<(bv?(uint64_t)DL->getTypeAllocSize(bv):0)<<"]"; }
      *O<<"]";
      if(F->isDeclaration()){ *O<<",\"decl\":1}"; continue; }
      std::map<const BasicBlock*,int> bid; int nb=0; for(auto& b:*F){ bid[&b]=nb++; for(auto& i:b) if(!i.getType()->isVoidTy()) id[&i]=nid++; }
      std::function<void(const Value*)> val=[&](const Value* v){ if(auto* c=dyn_cast<Constant>(v)) cst(c); else if(auto it=id.find(v); it!=id.end()) *O<<it->second; else *O<<"[\"?val\"]"; };
      // variables
      *O<<",\"vars\":["; f=true; 
      for(auto& b:*F) for(auto& i:b) if(auto* d=dyn_cast<DbgDeclareInst>(&i)){ auto* a=d->getAddress(); if(!a||!id.count(a)) continue; auto* al=dyn_cast<AllocaInst>(a); if(!f)*O<<","; f=false; *O<<"["; str(d->getVariable()->getName()); *O<<","<<id[a]<<","; if(al) ty(al->getAllocatedType()); else *O<<"\"arg\""; *O<<","<<d->getVariable()->getLine()<<"]"; }
      *O<<"]";
      DominatorTree DT(*const_cast<Function*>(F)); LoopInfo LI(DT);
      *O<<",\"loops\":["; f=true; std::map<const Loop*,int> lid; std::vector<const Loop*> ls;
      for(auto& b:*F) if(auto* L=LI.getLoopFor(&b)) if(L->getHeader()==&b){ lid[L]=ls.size(); ls.push_back(L);} 
      for(auto* L: ls){ if(!f)*O<<","; f=false; int line=0; for(auto& i:*L->getHeader()) if(i.getDebugLoc()) { line=i.getDebugLoc().getLine(); break; } 
        *O<<"{\"h\":"<<bid[L->getHeader()]<<",\"line\":"<<line<<",\"parent\":"<<(L->getParentLoop()?lid[L->getParentLoop()]:-1)<<",\"blocks\":["; bool g=true; for(auto* b: L->blocks()){ if(!g)*O<<","; g=false; *O<<bid[b]; } *O<<"]}"; }
      *O<<"],\"blocks\":["; bool bf=true;
      for(auto& b:*F){ if(!bf)*O<<",\n "; bf=false; *O<<"["; bool inf=true;
        for(auto& i:b){
          if(isa<DbgInfoIntrinsic>(i)) continue;
          if(auto* ii=dyn_cast<IntrinsicInst>(&i)){ auto x=ii->getIntrinsicID(); if(x==Intrinsic::lifetime_start||x==Intrinsic::lifetime_end||x==Intrinsic::experimental_noalias_scope_decl||x==Intrinsic::prefetch||x==Intrinsic::donothing) continue; }
          if(!inf)*O<<",\n  "; inf=false;
          bool cross=false; for(auto* u: i.users()) if(auto* ui=dyn_cast<Instruction>(u)) if(ui->getParent()!=&b||isa<PHINode>(ui)) cross=true;
          *O<<"["; str(i.getOpcodeName()); *O<<","<<(i.getType()->isVoidTy()?-1:id[&i])<<","; ty(i.getType()); *O<<","<<(i.getDebugLoc()?i.getDebugLoc().getLine():0)<<","<<(cross?1:0);
          if(auto* a=dyn_cast<AllocaInst>(&i)){ *O<<","<<(uint64_t)DL->getTypeAllocSize(a->getAllocatedType())<<","; val(a->getArraySize()); *O<<","<<a->getAlign().value()<<","; str(a->getName()); }
          else if(auto* l=dyn_cast<LoadInst>(&i)){ *O<<","; val(l->getPointerOperand()); *O<<","<<(uint64_t)DL->getTypeStoreSize(l->getType())<<","<<l->getAlign().value(); }
          else if(auto* s=dyn_cast<StoreInst>(&i)){ *O<<","; val(s->getValueOperand()); *O<<","; val(s->getPointerOperand()); *O<<","; ty(s->getValueOperand()->getType()); *O<<","<<(uint64_t)DL->getTypeStoreSize(s->getValueOperand()->getType())<<","<<s->getAlign().value(); }
          else if(auto* g=dyn_cast<GEPOperator>(&i)){ *O<<","; if(i.getType()->isVectorTy()) *O<<"\"?\""; else gepparts(g,val); }
          else if(auto* c=dyn_cast<ICmpInst>(&i)){ *O<<","; str(CmpInst::getPredicateName(c->getPredicate())); *O<<","; ty(c->getOperand(0)->getType()); *O<<","; val(c->getOperand(0)); *O<<","; val(c->getOperand(1)); }
          else if(auto* c=dyn_cast<FCmpInst>(&i)){ *O<<","; str(CmpInst::getPredicateName(c->getPredicate())); *O<<","; ty(c->getOperand(0)->getType()); *O<<","; val(c->getOperand(0)); *O<<","; val(c->getOperand(1)); }
          else if(auto* c=dyn_cast<CastInst>(&i)){ *O<<","; ty(c->getSrcTy()); *O<<","; val(c->getOperand(0)); }
          else if(auto* p=dyn_cast<PHINode>(&i)){ *O<<",["; for(unsigned k=0;k<p->getNumIncomingValues();k++){ if(k)*O<<","; *O<<"["<<bid[p->getIncomingBlock(k)]<<","; val(p->getIncomingValue(k)); *O<<"]"; } *O<<"]"; }
          else if(auto* br=dyn_cast<BranchInst>(&i)){ if(br->isConditional()){ *O<<","; val(br->getCondition()); *O<<","<<bid[br->getSuccessor(0)]<<","<<bid[br->getSuccessor(1)]; } else *O<<","<<bid[br->getSuccessor(0)]; }
          else if(auto* sw=dyn_cast<SwitchInst>(&i)){ *O<<","; val(sw->getCondition()); *O<<","<<bid[sw->getDefaultDest()]<<",["; bool g=true; for(auto& cs: sw->cases()){ if(!g)*O<<","; g=false; *O<<"["; val(cs.getCaseValue()); *O<<","<<bid[cs.getCaseSuccessor()]<<"]"; } *O<<"]"; }
          else if(auto* cb=dyn_cast<CallBase>(&i)){ const Value* cv=cb->getCalledOperand()->stripPointerCasts(); *O<<","; val(cv); *O<<",["; bool g=true; unsigned k=0; for(auto& a: cb->args()){ if(!g)*O<<","; g=false; if(a->getType()->isMetadataTy()) *O<<"[\"md\"]"; else val(a); } *O<<"],["; g=true; for(auto& a: cb->args()){ if(!g)*O<<","; g=false; ty(a->getType()); } *O<<"],["; g=true; for(k=0;k<cb->arg_size();k++){ if(!g)*O<<","; g=false; *O<<(cb->isByValArgument(k)?(uint64_t)DL->getTypeAllocSize(cb->getParamByValType(k)):0); } *O<<"]"; }
          else if(auto* x=dyn_cast<ExtractValueInst>(&i)){ *O<<","; val(x->getAggregateOperand()); *O<<",["; bool g=true; for(unsigned k: x->indices()){ if(!g)*O<<","; g=false; *O<<k; } *O<<"]"; }
          else if(auto* x=dyn_cast<InsertValueInst>(&i)){ *O<<","; val(x->getAggregateOperand()); *O<<","; val(x->getInsertedValueOperand()); *O<<",["; bool g=true; for(unsigned k: x->indices()){ if(!g)*O<<","; g=false; *O<<k; } *O<<"]"; }
          else if(auto* x=dyn_cast<ShuffleVectorInst>(&i)){ *O<<","; val(x->getOperand(0)); *O<<","; val(x->getOperand(1)); *O<<",["; bool g=true; for(int k: x->getShuffleMask()){ if(!g)*O<<","; g=false; *O<<k; } *O<<"]"; }
          else if(auto* x=dyn_cast<AtomicRMWInst>(&i)){ *O<<","; str(AtomicRMWInst::getOperationName(x->getOperation())); *O<<","; val(x->getPointerOperand()); *O<<","; val(x->getValOperand()); *O<<","<<(uint64_t)DL->getTypeStoreSize(x->getType()); }
          else if(auto* x=dyn_cast<AtomicCmpXchgInst>(&i)){ *O<<","; val(x->getPointerOperand()); *O<<","; val(x->getCompareOperand()); *O<<","; val(x->getNewValOperand()); *O<<","<<(uint64_t)DL->getTypeStoreSize(x->getCompareOperand()->getType()); }
          else if(auto* x=dyn_cast<BinaryOperator>(&i)){ *O<<","; val(x->getOperand(0)); *O<<","; val(x->getOperand(1)); int fl=0; if(auto* ob=dyn_cast<OverflowingBinaryOperator>(x)){ if(ob->hasNoSignedWrap()) fl|=1; if(ob->hasNoUnsignedWrap()) fl|=2; } *O<<","<<fl; }
          else { for(auto& op: i.operands()){ *O<<","; val(op); } }
          *O<<"]";
        }
        *O<<"]"; }
      *O<<"]}";
    }
  }
  os<<"},\n\"functions\":{"<<fs.str()<<"}}\n"; os.flush(); return 0;
}
