// irdump: dump the part of an LLVM module that is reachable from functions named vp_* as JSON.
// Everything layout dependent (GEP offsets, field offsets, sizes) is resolved here with the module's DataLayout.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <llvm/Demangle/Demangle.h>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
static const DataLayout* DL;
static json::OStream* J;
static std::set<const GlobalValue*> seen;
static std::deque<const GlobalValue*> work;
static std::map<const Value*, int> ids;
static std::map<std::string, int> files;
static std::vector<std::string> fileList;

static void need(const GlobalValue* g) { if (seen.insert(g).second) work.push_back(g); }

static void type(Type* t) {
  J->arrayBegin();
  if (t->isIntegerTy()) { J->value("i"); J->value((int64_t)t->getIntegerBitWidth()); }
  else if (t->isPointerTy()) { J->value("p"); }
  else if (t->isVoidTy()) { J->value("v"); }
  else if (t->isFloatTy()) { J->value("f"); J->value(32); }
  else if (t->isDoubleTy()) { J->value("f"); J->value(64); }
  else if (auto* s = dyn_cast<StructType>(t)) {
    J->value("s"); J->value((int64_t)DL->getTypeAllocSize(t));
    J->arrayBegin(); auto* L = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); ++i) { J->arrayBegin(); J->value((int64_t)L->getElementOffset(i)); type(s->getElementType(i)); J->arrayEnd(); }
    J->arrayEnd();
  } else if (auto* a = dyn_cast<ArrayType>(t)) {
    J->value("a"); J->value((int64_t)DL->getTypeAllocSize(t)); J->value((int64_t)a->getNumElements()); type(a->getElementType());
  } else { J->value("x"); J->value(t->isSized() ? (int64_t)DL->getTypeAllocSize(t) : 0); }
  J->arrayEnd();
}
static void val(const Value* v);
static void gepBody(const GEPOperator* g) {
  APInt off(64, 0); MapVector<Value*, APInt> var;
  J->attributeBegin("base"); val(g->getPointerOperand()); J->attributeEnd();
  if (g->collectOffset(*DL, 64, var, off)) {
    J->attribute("off", off.getSExtValue());
    J->attributeBegin("var"); J->arrayBegin();
    for (auto& p : var) { J->arrayBegin(); val(p.first); J->value(p.second.getSExtValue()); J->value((int64_t)p.first->getType()->getIntegerBitWidth()); J->arrayEnd(); }
    J->arrayEnd(); J->attributeEnd();
  } else J->attribute("bad", true);
}
static void val(const Value* v) {
  auto it = ids.find(v);
  if (it != ids.end()) { J->arrayBegin(); J->value("l"); J->value(it->second); J->arrayEnd(); return; }
  J->arrayBegin();
  if (auto* c = dyn_cast<ConstantInt>(v)) { J->value("i"); J->value((int64_t)c->getBitWidth()); SmallString<40> s; c->getValue().toStringUnsigned(s); J->value(s.str()); }
  else if (isa<ConstantPointerNull>(v)) J->value("n");
  else if (isa<UndefValue>(v)) { J->value("u"); type(v->getType()); }
  else if (auto* g = dyn_cast<GlobalValue>(v)) {
    if (auto* al = dyn_cast<GlobalAlias>(g)) g = al->getAliaseeObject();
    need(g); J->value("g"); J->value(g->getName()); }
  else if (auto* f = dyn_cast<ConstantFP>(v)) { J->value("f"); 
      J->value((int64_t)f->getType()->getPrimitiveSizeInBits()); SmallString<40> s; f->getValueAPF().bitcastToAPInt().toStringUnsigned(s); J->value(s.str()); }
  else if (isa<ConstantAggregateZero>(v)) { J->value("z"); type(v->getType()); }
  else if (auto* d = dyn_cast<ConstantDataSequential>(v)) {
    J->value("agg"); type(v->getType()); J->arrayBegin(); for (unsigned i = 0; i < d->getNumElements(); ++i) val(d->getElementAsConstant(i)); J->arrayEnd(); }
  else if (auto* a = dyn_cast<ConstantAggregate>(v)) {
    J->value("agg"); type(v->getType()); J->arrayBegin(); for (auto& o : a->operands()) val(o.get()); J->arrayEnd(); }
  else if (auto* e = dyn_cast<ConstantExpr>(v)) {
    if (auto* g = dyn_cast<GEPOperator>(e)) { J->value("gep"); J->objectBegin(); gepBody(g); J->objectEnd(); }
    else { J->value("ce"); J->value(e->getOpcodeName()); type(e->getType()); J->arrayBegin(); for (auto& o : e->operands()) val(o.get()); J->arrayEnd(); }
  } else if (auto* ai = dyn_cast<InlineAsm>(v)) { J->value("asm"); J->value(ai->getAsmString()); }
  else { J->value("x"); }
  J->arrayEnd();
}
static void loc(const Instruction& I) {
  const DebugLoc& d = I.getDebugLoc(); if (!d) return;
  J->attributeBegin("loc"); J->arrayBegin();
  for (const DILocation* l = d.get(); l; l = l->getInlinedAt()) {
    std::string f = l->getFilename().str(); auto it = files.find(f);
    if (it == files.end()) { it = files.emplace(f, (int)fileList.size()).first; fileList.push_back(f); }
    J->value(it->second); J->value((int64_t)l->getLine());
    auto* sp = l->getScope()->getSubprogram(); J->value(sp ? sp->getName() : "");
  }
  J->arrayEnd(); J->attributeEnd();
}
static void func(const Function& F) {
  J->objectBegin();
  J->attribute("name", F.getName()); J->attribute("dem", demangle(F.getName().str()));
  J->attribute("decl", F.isDeclaration());
  if (F.doesNotReturn()) J->attribute("noreturn", true);
  if (F.doesNotThrow()) J->attribute("nounwind", true);
  if (F.isVarArg()) J->attribute("vararg", true);
  if (auto* sp = F.getSubprogram()) { J->attribute("file", sp->getFilename()); J->attribute("line", (int64_t)sp->getLine()); }
  J->attributeBegin("ret"); type(F.getReturnType()); J->attributeEnd();
  ids.clear(); int n = 0;
  for (auto& a : F.args()) ids[&a] = n++;
  std::map<const BasicBlock*, int> bid; int b = 0;
  for (auto& B : F) { bid[&B] = b++; for (auto& I : B) ids[&I] = n++; }
  J->attributeBegin("args"); J->arrayBegin();
  for (auto& a : F.args()) { J->objectBegin(); J->attributeBegin("ty"); type(a.getType()); J->attributeEnd();
    if (a.hasByValAttr()) J->attribute("byval", (int64_t)DL->getTypeAllocSize(a.getParamByValType()));
    if (a.hasStructRetAttr()) J->attribute("sret", (int64_t)DL->getTypeAllocSize(a.getParamStructRetType()));
    J->objectEnd(); }
  J->arrayEnd(); J->attributeEnd();
  if (!F.isDeclaration()) {
    J->attributeBegin("blocks"); J->arrayBegin();
    for (auto& B : F) {
      J->arrayBegin();
      for (auto& I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        J->objectBegin(); J->attribute("id", ids[&I]); J->attribute("op", I.getOpcodeName());
        J->attributeBegin("ty"); type(I.getType()); J->attributeEnd(); loc(I);
        if (auto* o = dyn_cast<OverflowingBinaryOperator>(&I)) { if (o->hasNoUnsignedWrap()) J->attribute("nuw", true); if (o->hasNoSignedWrap()) J->attribute("nsw", true); }
        if (auto* o = dyn_cast<PossiblyExactOperator>(&I)) if (o->isExact()) J->attribute("exact", true);
        if (auto* g = dyn_cast<GetElementPtrInst>(&I)) gepBody(cast<GEPOperator>(g));
        else if (auto* a = dyn_cast<AllocaInst>(&I)) { J->attribute("size", (int64_t)DL->getTypeAllocSize(a->getAllocatedType())); J->attributeBegin("n"); val(a->getArraySize()); J->attributeEnd(); J->attribute("align", (int64_t)a->getAlign().value()); }
        else if (auto* p = dyn_cast<PHINode>(&I)) {
          J->attributeBegin("in"); J->arrayBegin();
          for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) { J->arrayBegin(); J->value(bid[p->getIncomingBlock(i)]); val(p->getIncomingValue(i)); J->arrayEnd(); }
          J->arrayEnd(); J->attributeEnd();
        } else if (auto* br = dyn_cast<BranchInst>(&I)) {
          if (br->isConditional()) { J->attributeBegin("cond"); val(br->getCondition()); J->attributeEnd(); }
          J->attributeBegin("succ"); J->arrayBegin(); for (unsigned i = 0; i < br->getNumSuccessors(); ++i) J->value(bid[br->getSuccessor(i)]); J->arrayEnd(); J->attributeEnd();
        } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
          J->attributeBegin("cond"); val(sw->getCondition()); J->attributeEnd(); J->attribute("default", bid[sw->getDefaultDest()]);
          J->attributeBegin("cases"); J->arrayBegin(); for (auto& c : sw->cases()) { J->arrayBegin(); val(c.getCaseValue()); J->value(bid[c.getCaseSuccessor()]); J->arrayEnd(); } J->arrayEnd(); J->attributeEnd();
        } else if (auto* c = dyn_cast<CallBase>(&I)) {
          J->attributeBegin("callee"); val(c->getCalledOperand()->stripPointerCastsAndAliases()); J->attributeEnd();
          J->attributeBegin("args"); J->arrayBegin(); for (auto& a : c->args()) val(a.get()); J->arrayEnd(); J->attributeEnd();
          J->attributeBegin("aty"); J->arrayBegin(); for (auto& a : c->args()) type(a->getType()); J->arrayEnd(); J->attributeEnd();
          if (c->doesNotThrow()) J->attribute("nounwind", true);
          if (auto* iv = dyn_cast<InvokeInst>(c)) { J->attribute("normal", bid[iv->getNormalDest()]); J->attribute("unwind", bid[iv->getUnwindDest()]); }
        } else {
          if (auto* ic = dyn_cast<CmpInst>(&I)) { J->attribute("pred", CmpInst::getPredicateName(ic->getPredicate())); J->attributeBegin("oty"); type(ic->getOperand(0)->getType()); J->attributeEnd(); }
          if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { J->attributeBegin("idx"); J->arrayBegin(); for (unsigned i : ev->indices()) J->value((int64_t)i); J->arrayEnd(); J->attributeEnd(); }
          if (auto* iv = dyn_cast<InsertValueInst>(&I)) { J->attributeBegin("idx"); J->arrayBegin(); for (unsigned i : iv->indices()) J->value((int64_t)i); J->arrayEnd(); J->attributeEnd(); }
          if (auto* cs = dyn_cast<CastInst>(&I)) { J->attributeBegin("oty"); type(cs->getSrcTy()); J->attributeEnd(); }
          if (auto* st = dyn_cast<StoreInst>(&I)) { J->attributeBegin("oty"); type(st->getValueOperand()->getType()); J->attributeEnd(); J->attribute("size", (int64_t)DL->getTypeStoreSize(st->getValueOperand()->getType())); }
          if (auto* ld = dyn_cast<LoadInst>(&I)) J->attribute("size", (int64_t)DL->getTypeStoreSize(ld->getType()));
          if (auto* rm = dyn_cast<AtomicRMWInst>(&I)) { J->attribute("rmw", AtomicRMWInst::getOperationName(rm->getOperation())); J->attribute("size", (int64_t)DL->getTypeStoreSize(rm->getType())); }
          if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) { (void)sv; }
          if (I.isAtomic()) J->attribute("atomic", true);
          if (auto* lp = dyn_cast<LandingPadInst>(&I)) { J->attribute("cleanup", lp->isCleanup());
            J->attributeBegin("clauses"); J->arrayBegin(); for (unsigned i = 0; i < lp->getNumClauses(); ++i) { J->arrayBegin(); J->value(lp->isCatch(i) ? "catch" : "filter"); val(lp->getClause(i)); J->arrayEnd(); } J->arrayEnd(); J->attributeEnd(); }
          J->attributeBegin("ops"); J->arrayBegin(); for (auto& o : I.operands()) val(o.get()); J->arrayEnd(); J->attributeEnd();
        }
        J->objectEnd();
      }
      J->arrayEnd();
    }
    J->arrayEnd(); J->attributeEnd();
  }
  J->objectEnd();
}
int main(int argc, char** argv) {
  LLVMContext C; SMDiagnostic E; auto M = parseIRFile(argv[1], E, C);
  if (!M) { E.print(argv[0], errs()); return 2; }
  DL = &M->getDataLayout();
  std::error_code ec; raw_fd_ostream os(argv[2], ec); json::OStream j(os); J = &j;
  std::string root = argc > 3 ? argv[3] : "vp_";
  for (auto& F : *M) if (F.getName().starts_with(root) && !F.isDeclaration()) need(&F);
  std::vector<const GlobalVariable*> gvs;
  J->objectBegin();
  J->attributeBegin("functions"); J->arrayBegin();
  std::vector<const GlobalValue*> order;
  while (!work.empty()) {
    const GlobalValue* g = work.front(); work.pop_front();
    if (auto* f = dyn_cast<Function>(g)) func(*f);
    else if (auto* v = dyn_cast<GlobalVariable>(g)) {
      gvs.push_back(v);
      if (v->hasInitializer()) { // discover references now
        std::vector<const Value*> st{v->getInitializer()};
        while (!st.empty()) { auto* x = st.back(); st.pop_back();
          if (auto* gg = dyn_cast<GlobalValue>(x)) { if (auto* al = dyn_cast<GlobalAlias>(gg)) gg = al->getAliaseeObject(); need(gg); }
          else if (auto* u = dyn_cast<Constant>(x)) for (auto& o : u->operands()) st.push_back(o.get()); }
      }
    }
  }
  J->arrayEnd(); J->attributeEnd();
  ids.clear();
  J->attributeBegin("globals"); J->arrayBegin();
  for (auto* v : gvs) { J->objectBegin(); J->attribute("name", v->getName()); J->attribute("const", v->isConstant());
    J->attribute("tls", v->isThreadLocal());
    J->attribute("size", v->getValueType()->isSized() ? (int64_t)DL->getTypeAllocSize(v->getValueType()) : 0);
    J->attributeBegin("ty"); type(v->getValueType()); J->attributeEnd();
    if (v->hasInitializer()) { J->attributeBegin("init"); val(v->getInitializer()); J->attributeEnd(); }
    J->objectEnd(); }
  J->arrayEnd(); J->attributeEnd();
  J->attributeBegin("files"); J->arrayBegin(); for (auto& f : fileList) J->value(f); J->arrayEnd(); J->attributeEnd();
  J->objectEnd();
  return 0;
}
