// Dumps an LLVM module (bitcode/IR) as JSON: functions, CFG, instructions with
// resolved byte offsets, global initialisers and debug-info types.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include <map>
using namespace llvm;
namespace J = llvm::json;

static const DataLayout *DL;
static std::map<const Value *, int> ids;
static std::map<const DIType *, int> diIds;
static std::vector<const DIType *> diList;

static int diId(const DIType *t) {
  if (!t) return -1;
  auto it = diIds.find(t);
  if (it != diIds.end()) return it->second;
  int n = diList.size();
  diIds[t] = n; diList.push_back(t);
  return n;
}
static std::string apStr(const APInt &a) { SmallString<40> s; a.toString(s, 10, false); return s.str().str(); }
static J::Value num(const APInt &a) {
  if (a.getActiveBits() <= 62) return J::Value((int64_t)a.getZExtValue());
  return J::Value(apStr(a));
}
static std::string tyStr(Type *t) { std::string s; raw_string_ostream o(s); t->print(o); return o.str(); }
static int bits(Type *t) {
  if (t->isPointerTy()) return 64;
  if (t->isVoidTy()) return 0;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isSized()) return DL->getTypeSizeInBits(t).getFixedValue();
  return 0;
}
static const char *kind(Type *t) {
  if (t->isPointerTy()) return "p";
  if (t->isIntegerTy()) return "i";
  if (t->isFloatingPointTy()) return "f";
  if (t->isVoidTy()) return "v";
  return "o";
}
static J::Value constant(const Constant *c);
static J::Value operand(const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constant(c);
  if (isa<BasicBlock>(v)) return J::Object{{"bb", ids[v]}};
  if (isa<MetadataAsValue>(v)) return J::Object{{"md", 1}};
  if (isa<InlineAsm>(v)) return J::Object{{"asm", 1}};
  return J::Object{{"v", ids[v]}, {"k", kind(v->getType())}, {"w", bits(v->getType())}};
}
static J::Value constant(const Constant *c) {
  if (auto *i = dyn_cast<ConstantInt>(c)) return J::Object{{"c", num(i->getValue())}, {"w", (int)i->getBitWidth()}};
  if (isa<ConstantPointerNull>(c)) return J::Object{{"c", 0}, {"w", 64}, {"null", 1}};
  if (isa<UndefValue>(c)) return J::Object{{"undef", 1}, {"w", bits(c->getType())}, {"k", kind(c->getType())}};
  if (auto *f = dyn_cast<ConstantFP>(c)) {
    SmallString<32> s; f->getValueAPF().toString(s);
    return J::Object{{"fp", s.str().str()}, {"w", bits(c->getType())}};
  }
  if (auto *g = dyn_cast<GlobalAlias>(c)) return constant(g->getAliasee());
  if (auto *g = dyn_cast<GlobalValue>(c)) return J::Object{{"g", g->getName().str()}, {"fn", isa<Function>(g) ? 1 : 0}};
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *gep = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (gep->accumulateConstantOffset(*DL, off)) {
        J::Value b = constant(cast<Constant>(gep->getPointerOperand()));
        return J::Object{{"base", std::move(b)}, {"off", off.getSExtValue()}};
      }
    }
    if (ce->isCast()) return constant(ce->getOperand(0));
    return J::Object{{"cexpr", ce->getOpcodeName()}, {"w", bits(ce->getType())}};
  }
  return J::Object{{"unk", 1}, {"w", bits(c->getType())}};
}
// flat list of leaf initialisers [offset,size,operand]
static void initLeaves(const Constant *c, uint64_t off, J::Array &out) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c)) { out.push_back(J::Array{(int64_t)off, (int64_t)DL->getTypeStoreSize(t).getFixedValue(), J::Object{{"zero", 1}}}); return; }
  if (auto *s = dyn_cast<StructType>(t)) {
    auto *l = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++) {
      Constant *e = c->getAggregateElement(i);
      if (e) initLeaves(e, off + l->getElementOffset(i).getFixedValue(), out);
    }
    return;
  }
  if (auto *a = dyn_cast<ArrayType>(t)) {
    uint64_t sz = DL->getTypeAllocSize(a->getElementType()).getFixedValue();
    for (unsigned i = 0; i < a->getNumElements(); i++) {
      Constant *e = c->getAggregateElement(i);
      if (e) initLeaves(e, off + i * sz, out);
    }
    return;
  }
  out.push_back(J::Array{(int64_t)off, (int64_t)DL->getTypeStoreSize(t).getFixedValue(), constant(c)});
}
static std::string baseName(StringRef f) { auto p = f.rfind('/'); return (p == StringRef::npos ? f : f.substr(p + 1)).str(); }

int main(int argc, char **argv) {
  LLVMContext ctx; SMDiagnostic err;
  std::unique_ptr<Module> M;
  for (int i = 1; i < argc; i++) {
    auto m = parseIRFile(argv[i], err, ctx);
    if (!m) { err.print(argv[0], errs()); return 2; }
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed\n"; return 2; }
  }
  if (!M) return 2;
  DataLayout dl = M->getDataLayout(); DL = &dl;
  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    FunctionPassManager FPM; FPM.addPass(PromotePass());
    for (auto &F : *M) if (!F.isDeclaration()) FPM.run(F, FAM);
  }
  J::Object root;
  J::Array globals;
  for (auto &G : M->globals()) {
    J::Object o{{"name", G.getName().str()}, {"const", G.isConstant()}, {"internal", G.hasLocalLinkage()}, {"decl", G.isDeclaration()}, {"tls", G.isThreadLocal()}};
    o["size"] = (int64_t)(G.getValueType()->isSized() ? dl.getTypeAllocSize(G.getValueType()).getFixedValue() : 0);
    o["ty"] = tyStr(G.getValueType());
    SmallVector<DIGlobalVariableExpression *, 1> gv; G.getDebugInfo(gv);
    if (!gv.empty()) { auto *d = gv[0]->getVariable(); o["di"] = diId(d->getType()); o["file"] = baseName(d->getFilename()); o["line"] = (int64_t)d->getLine(); o["srcname"] = d->getName().str();
      o["func"] = ""; if (auto *sp = dyn_cast_or_null<DILocalScope>(d->getScope())) o["func"] = sp->getSubprogram()->getName().str(); }
    if (G.hasInitializer()) { J::Array a; initLeaves(G.getInitializer(), 0, a); o["init"] = std::move(a); }
    globals.push_back(std::move(o));
  }
  root["globals"] = std::move(globals);
  J::Array funcs;
  for (auto &F : *M) {
    J::Object fo{{"name", F.getName().str()}, {"decl", F.isDeclaration()}, {"internal", F.hasLocalLinkage()}, {"vararg", F.isVarArg()}};
    fo["rk"] = kind(F.getReturnType()); fo["rw"] = bits(F.getReturnType());
    auto *sp = F.getSubprogram();
    if (sp) { fo["file"] = baseName(sp->getFilename()); fo["line"] = (int64_t)sp->getLine();
      J::Array pt; for (auto *t : sp->getType()->getTypeArray()) pt.push_back(diId(t)); fo["sig"] = std::move(pt); }
    if (F.isDeclaration()) { funcs.push_back(std::move(fo)); continue; }
    ids.clear(); int n = 0;
    J::Array args;
    for (auto &A : F.args()) { ids[&A] = n; args.push_back(J::Object{{"id", n}, {"k", kind(A.getType())}, {"w", bits(A.getType())}, {"name", A.getName().str()}}); n++; }
    int b = 0;
    for (auto &B : F) { ids[&B] = b++; for (auto &I : B) ids[&I] = n++; }
    fo["args"] = std::move(args); fo["nvals"] = n;
    // local variable names/types
    J::Object vars;
    J::Array blocks;
    for (auto &B : F) {
      J::Array ins;
      for (auto &I : B) {
        if (auto *dv = dyn_cast<DbgVariableIntrinsic>(&I)) {
          for (auto *v : dv->location_ops()) if (v && ids.count(v)) { std::string k = std::to_string(ids[v]); vars[k] = J::Array{dv->getVariable()->getName().str(), diId(dv->getVariable()->getType())}; }
          continue;
        }
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        J::Object o{{"id", ids[&I]}, {"op", I.getOpcodeName()}, {"k", kind(I.getType())}, {"w", bits(I.getType())}};
        if (auto &l = I.getDebugLoc()) { o["line"] = (int64_t)l.getLine(); 
          auto *sc = cast<DILocation>(l.getAsMDNode())->getScope(); if (sc) { std::string f = baseName(sc->getFilename()); if (!sp || f != baseName(sp->getFilename())) o["file"] = f; } }
        if (auto *x = dyn_cast<OverflowingBinaryOperator>(&I)) { if (x->hasNoSignedWrap()) o["nsw"] = 1; }
        if (auto *a = dyn_cast<AllocaInst>(&I)) {
          o["size"] = (int64_t)dl.getTypeAllocSize(a->getAllocatedType()).getFixedValue(); o["ty"] = tyStr(a->getAllocatedType());
          J::Array ops; ops.push_back(operand(a->getArraySize())); o["ops"] = std::move(ops);
          o["entry"] = (&B == &F.getEntryBlock()) ? 1 : 0;
        } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
          MapVector<Value *, APInt> vo; APInt co(64, 0);
          J::Array ops; ops.push_back(operand(g->getPointerOperand())); o["ops"] = std::move(ops);
          if (g->collectOffset(dl, 64, vo, co)) {
            o["off"] = co.getSExtValue(); J::Array va;
            for (auto &p : vo) va.push_back(J::Array{operand(p.first), p.second.getSExtValue()});
            o["var"] = std::move(va);
          } else o["bad"] = 1;
          o["sty"] = tyStr(g->getSourceElementType());
          if (auto *at = dyn_cast<ArrayType>(g->getSourceElementType())) {
            // an element of an array inside of an object or table
            o["asz"] = (int64_t)dl.getTypeAllocSize(at).getFixedValue(); o["esz"] = (int64_t)dl.getTypeAllocSize(at->getElementType()).getFixedValue();
            bool m = false; for (auto *u : g->users()) m |= isa<LoadInst>(u) || isa<GetElementPtrInst>(u) || (isa<StoreInst>(u) && cast<StoreInst>(u)->getPointerOperand() == g);
            o["used"] = m ? 1 : 0;
          }
        } else if (auto *p = dyn_cast<PHINode>(&I)) {
          J::Array inc; for (unsigned i = 0; i < p->getNumIncomingValues(); i++) inc.push_back(J::Array{operand(p->getIncomingValue(i)), ids[p->getIncomingBlock(i)]});
          o["inc"] = std::move(inc);
        } else if (auto *c = dyn_cast<CallBase>(&I)) {
          o["callee"] = operand(c->getCalledOperand());
          J::Array ops; for (auto &u : c->args()) ops.push_back(operand(u.get())); o["ops"] = std::move(ops);
          if (auto *ii = dyn_cast<IntrinsicInst>(&I)) o["intr"] = Intrinsic::getBaseName(ii->getIntrinsicID()).str();
        } else if (auto *s = dyn_cast<SwitchInst>(&I)) {
          J::Array ops; ops.push_back(operand(s->getCondition())); o["ops"] = std::move(ops);
          J::Array cs; for (auto &c : s->cases()) cs.push_back(J::Array{num(c.getCaseValue()->getValue()), ids[c.getCaseSuccessor()]});
          o["cases"] = std::move(cs); o["def"] = ids[s->getDefaultDest()];
        } else if (auto *br = dyn_cast<BranchInst>(&I)) {
          J::Array ops; if (br->isConditional()) ops.push_back(operand(br->getCondition())); o["ops"] = std::move(ops);
          J::Array su; for (unsigned k = 0; k < br->getNumSuccessors(); k++) su.push_back(ids[br->getSuccessor(k)]); o["succ"] = std::move(su);
        } else {
          J::Array ops; for (auto &u : I.operands()) ops.push_back(operand(u.get())); o["ops"] = std::move(ops);
          if (auto *c = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
          if (auto *st = dyn_cast<StoreInst>(&I)) { o["sw"] = bits(st->getValueOperand()->getType()); o["sk"] = kind(st->getValueOperand()->getType()); }
          if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { J::Array ix; for (unsigned i : ev->indices()) ix.push_back((int64_t)i); o["idx"] = std::move(ix); }
          if (isa<CastInst>(&I)) { o["fw"] = bits(I.getOperand(0)->getType()); o["fk"] = kind(I.getOperand(0)->getType()); }
        }
        ins.push_back(std::move(o));
      }
      blocks.push_back(J::Object{{"id", ids[&B]}, {"name", B.getName().str()}, {"ins", std::move(ins)}});
    }
    fo["blocks"] = std::move(blocks); fo["vars"] = std::move(vars);
    funcs.push_back(std::move(fo));
  }
  root["funcs"] = std::move(funcs);
  // types: retain all types named in CUs
  for (auto *cu : M->debug_compile_units()) for (auto *t : cu->getEnumTypes()) diId(t); for (auto *cu : M->debug_compile_units()) for (auto *t : cu->getRetainedTypes()) if (auto *d = dyn_cast<DIType>(t)) diId(d);
  DebugInfoFinder fin; fin.processModule(*M); for (auto *t : fin.types()) diId(t);
  J::Array types;
  for (size_t i = 0; i < diList.size(); i++) {
    const DIType *t = diList[i]; J::Object o;
    o["name"] = t->getName().str(); o["size"] = (int64_t)(t->getSizeInBits() / 8);
    if (auto *b = dyn_cast<DIBasicType>(t)) { o["kind"] = "basic"; o["enc"] = (int64_t)b->getEncoding(); }
    else if (auto *d = dyn_cast<DIDerivedType>(t)) {
      switch (d->getTag()) { case dwarf::DW_TAG_pointer_type: o["kind"] = "ptr"; break; case dwarf::DW_TAG_member: o["kind"] = "member"; break; default: o["kind"] = "alias"; }
      o["tag"] = dwarf::TagString(d->getTag()).str(); o["base"] = diId(d->getBaseType()); o["off"] = (int64_t)(d->getOffsetInBits() / 8);
    } else if (auto *c = dyn_cast<DICompositeType>(t)) {
      if (c->getTag() == dwarf::DW_TAG_array_type) {
        o["kind"] = "array"; o["base"] = diId(c->getBaseType()); J::Array dims;
        for (auto *e : c->getElements()) if (auto *s = dyn_cast<DISubrange>(e)) { int64_t n = -1; if (auto *ci = dyn_cast_if_present<ConstantInt *>(s->getCount())) n = ci->getSExtValue(); dims.push_back(n); }
        o["dims"] = std::move(dims);
      } else if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
        o["kind"] = "enum"; J::Array en; for (auto *e : c->getElements()) if (auto *x = dyn_cast<DIEnumerator>(e)) en.push_back(J::Array{x->getName().str(), num(x->getValue())}); o["vals"] = std::move(en);
      } else {
        o["kind"] = c->getTag() == dwarf::DW_TAG_union_type ? "union" : "struct"; J::Array ms;
        for (auto *e : c->getElements()) if (auto *d = dyn_cast<DIDerivedType>(e)) ms.push_back(J::Array{d->getName().str(), (int64_t)(d->getOffsetInBits() / 8), diId(d->getBaseType()), (int64_t)(d->getSizeInBits() / 8)});
        o["members"] = std::move(ms); o["fwd"] = c->isForwardDecl();
      }
    } else if (auto *s = dyn_cast<DISubroutineType>(t)) { o["kind"] = "func"; J::Array ts; for (auto *x : s->getTypeArray()) ts.push_back(diId(x)); o["types"] = std::move(ts); }
    else o["kind"] = "other";
    types.push_back(std::move(o));
  }
  root["types"] = std::move(types);
  outs() << J::Value(std::move(root)) << "\n";
  return 0;
}
