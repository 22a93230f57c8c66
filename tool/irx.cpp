// irx: dump LLVM bitcode as JSON for the Python analyses in /verif/lib.
// usage: irx in.bc out.json [--opt PIPELINE]
#include <llvm/ADT/SmallVector.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/PassManager.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <map>
#include <set>
using namespace llvm;
using json::Array; using json::Object; using JV = json::Value;

static const DataLayout *DL;
static std::map<const llvm::Value *, int> Num;

static std::string tyStr(Type *T) {
  std::string s; raw_string_ostream o(s); T->print(o, false, true); return o.str();
}
static JV apVal(const APInt &a) {
  SmallString<32> s; a.toString(s, 10, true); // signed decimal
  SmallString<32> u; a.toString(u, 10, false);
  Object o; o["w"] = a.getBitWidth(); o["s"] = std::string(s.str()); o["c"] = std::string(u.str());
  return o;
}
static JV ref(const llvm::Value *v);
static JV constRef(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) return apVal(ci->getValue());
  if (isa<ConstantPointerNull>(c)) return Object{{"null", true}};
  if (isa<PoisonValue>(c) || isa<UndefValue>(c)) return Object{{"undef", true}};
  if (auto *gv = dyn_cast<GlobalValue>(c)) return Object{{"g", gv->getName().str()}};
  if (auto *gep = dyn_cast<GEPOperator>(c)) {
    APInt off(DL->getPointerSizeInBits(), 0);
    const llvm::Value *base = gep->stripAndAccumulateConstantOffsets(*DL, off, true);
    if (auto *gv = dyn_cast<GlobalValue>(base))
      return Object{{"g", gv->getName().str()}, {"off", off.getSExtValue()}};
  }
  if (auto *fp = dyn_cast<ConstantFP>(c)) {
    SmallString<32> s; fp->getValueAPF().toString(s);
    return Object{{"fp", std::string(s.str())}};
  }
  if (c->isNullValue()) return Object{{"zero", true}};
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    Array ops; for (auto &op : ce->operands()) ops.push_back(ref(op));
    return Object{{"ce", ce->getOpcodeName()}, {"ops", std::move(ops)}};
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    Array a; for (unsigned i = 0; i < cd->getNumElements(); ++i)
      if (cd->getElementType()->isIntegerTy()) a.push_back((int64_t)cd->getElementAsInteger(i));
    return Object{{"data", std::move(a)}};
  }
  if (isa<ConstantAggregate>(c)) {
    Array a; for (auto &op : c->operands()) a.push_back(ref(op));
    return Object{{"agg", std::move(a)}};
  }
  return Object{{"const", tyStr(c->getType())}};
}
static JV ref(const llvm::Value *v) {
  auto it = Num.find(v);
  if (it != Num.end()) return it->second;
  if (auto *c = dyn_cast<Constant>(v)) return constRef(c);
  if (auto *m = dyn_cast<MetadataAsValue>(v)) {
    if (auto *s = dyn_cast<MDString>(m->getMetadata())) return Object{{"md", s->getString().str()}};
    if (auto *vm = dyn_cast<ValueAsMetadata>(m->getMetadata())) {
      auto it2 = Num.find(vm->getValue());
      if (it2 != Num.end()) return Object{{"mdv", it2->second}};
    }
    return Object{{"md", nullptr}};
  }
  if (isa<BasicBlock>(v)) return Object{{"bb", true}};
  return Object{{"unk", true}};
}
static std::string fileOf(const DIScope *s) {
  if (!s) return "";
  std::string f = s->getFilename().str();
  if (!f.empty() && f[0] != '/') f = s->getDirectory().str() + "/" + f;
  return f;
}
static JV locOf(const DebugLoc &d) {
  if (!d) return nullptr;
  Array a;
  for (const DILocation *l = d.get(); l; l = l->getInlinedAt()) {
    a.push_back(fileOf(l->getScope())); a.push_back(l->getLine());
    a.push_back(l->getScope()->getSubprogram() ? l->getScope()->getSubprogram()->getLinkageName().str() : "");
  }
  return a;
}
static int64_t sz(Type *T) { return T->isSized() ? (int64_t)DL->getTypeAllocSize(T).getKnownMinValue() : -1; }

static void flattenType(const DIType *t, int64_t base, std::string path, Array &out, int depth) {
  while (t && isa<DIDerivedType>(t)) {
    auto *d = cast<DIDerivedType>(t);
    if (d->getTag() == dwarf::DW_TAG_typedef || d->getTag() == dwarf::DW_TAG_const_type || d->getTag() == dwarf::DW_TAG_volatile_type) t = d->getBaseType();
    else break;
  }
  if (!t) return;
  if (auto *c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_class_type || c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_union_type) {
      if (depth > 8) return;
      for (auto *e : c->getElements()) {
        auto *m = dyn_cast<DIDerivedType>(e);
        if (!m) continue;
        if (m->isStaticMember()) continue;
        if (m->getTag() == dwarf::DW_TAG_member)
          flattenType(m->getBaseType(), base + m->getOffsetInBits() / 8, path + "." + m->getName().str(), out, depth + 1);
        else if (m->getTag() == dwarf::DW_TAG_inheritance)
          flattenType(m->getBaseType(), base + m->getOffsetInBits() / 8, path, out, depth + 1);
      }
      return;
    }
    if (c->getTag() == dwarf::DW_TAG_array_type) {
      Object o{{"off", base}, {"size", (int64_t)(c->getSizeInBits() / 8)}, {"path", path}, {"kind", "array"}};
      if (c->getBaseType()) { o["elt"] = c->getBaseType()->getName().str(); o["eltsize"] = (int64_t)(c->getBaseType()->getSizeInBits()/8);}
      out.push_back(std::move(o)); return;
    }
    if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
      out.push_back(Object{{"off", base}, {"size", (int64_t)(c->getSizeInBits() / 8)}, {"path", path}, {"kind", "enum"}}); return;
    }
  }
  const char *k = "scalar";
  if (auto *d = dyn_cast<DIDerivedType>(t)) {
    if (d->getTag() == dwarf::DW_TAG_pointer_type) k = "ptr";
    else if (d->getTag() == dwarf::DW_TAG_reference_type) k = "ref";
  }
  out.push_back(Object{{"off", base}, {"size", (int64_t)(t->getSizeInBits() / 8)}, {"path", path}, {"kind", k}, {"type", t->getName().str()}});
}

static Object instObj(const Instruction &I) {
  Object o;
  o["op"] = I.getOpcodeName();
  if (!I.getType()->isVoidTy()) { o["ty"] = tyStr(I.getType()); }
  if (Num.count(&I)) o["id"] = Num[&I];
  if (I.getDebugLoc()) { o["loc"] = locOf(I.getDebugLoc()); o["col"] = I.getDebugLoc().getCol(); }
  if (auto *p = dyn_cast<PHINode>(&I)) {
    Array in;
    for (unsigned i = 0; i < p->getNumIncomingValues(); ++i)
      in.push_back(Array{ref(p->getIncomingValue(i)), Num[p->getIncomingBlock(i)]});
    o["in"] = std::move(in); return o;
  }
  if (auto *b = dyn_cast<BranchInst>(&I)) {
    Array s; for (unsigned k = 0; k < b->getNumSuccessors(); ++k) s.push_back(Num[b->getSuccessor(k)]);  // true target first
    o["succ"] = std::move(s);
    if (b->isConditional()) o["cond"] = ref(b->getCondition());
    return o;
  }
  if (auto *s = dyn_cast<SwitchInst>(&I)) {
    o["cond"] = ref(s->getCondition()); o["def"] = Num[s->getDefaultDest()];
    Array cs, su; su.push_back(Num[s->getDefaultDest()]);
    for (auto &c : s->cases()) { cs.push_back(Array{apVal(c.getCaseValue()->getValue()), Num[c.getCaseSuccessor()]}); su.push_back(Num[c.getCaseSuccessor()]); }
    o["cases"] = std::move(cs); o["succ"] = std::move(su); return o;
  }
  if (auto *c = dyn_cast<CallBase>(&I)) {
    Array args; for (auto &a : c->args()) args.push_back(ref(a.get()));
    o["args"] = std::move(args);
    const llvm::Value *cal = c->getCalledOperand()->stripPointerCasts();
    if (auto *al = dyn_cast<GlobalAlias>(cal)) cal = al->getAliasee()->stripPointerCasts();
    if (auto *f = dyn_cast<Function>(cal)) o["callee"] = f->getName().str();
    else if (isa<InlineAsm>(cal)) o["asm"] = true;
    else o["fptr"] = ref(cal);
    if (c->doesNotReturn()) o["noret"] = true;
    if (auto *inv = dyn_cast<InvokeInst>(c)) { o["op"] = "invoke"; o["succ"] = Array{Num[inv->getNormalDest()], Num[inv->getUnwindDest()]}; }
    return o;
  }
  if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
    MapVector<llvm::Value *, APInt> vo; APInt co(DL->getIndexSizeInBits(0), 0);
    o["ptr"] = ref(g->getPointerOperand()); o["st"] = tyStr(g->getSourceElementType());
    if (g->collectOffset(*DL, DL->getIndexSizeInBits(0), vo, co)) {
      o["off"] = co.getSExtValue();
      Array vs; for (auto &p : vo) vs.push_back(Array{ref(p.first), p.second.getSExtValue()});
      o["var"] = std::move(vs);
    } else o["opaque"] = true;
    return o;
  }
  if (auto *l = dyn_cast<LoadInst>(&I)) { o["ptr"] = ref(l->getPointerOperand()); o["size"] = sz(l->getType()); return o; }
  if (auto *s = dyn_cast<StoreInst>(&I)) { o["ptr"] = ref(s->getPointerOperand()); o["val"] = ref(s->getValueOperand()); o["size"] = sz(s->getValueOperand()->getType()); o["vty"] = tyStr(s->getValueOperand()->getType()); return o; }
  if (auto *a = dyn_cast<AllocaInst>(&I)) { o["aty"] = tyStr(a->getAllocatedType()); o["size"] = sz(a->getAllocatedType()); o["n"] = ref(a->getArraySize()); if (a->hasName()) o["name"] = a->getName().str(); return o; }
  if (auto *c = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
  if (isa<ReturnInst>(&I) || isa<UnreachableInst>(&I) || isa<ResumeInst>(&I)) o["succ"] = Array{};
  if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { Array ix; for (unsigned i : ev->indices()) ix.push_back((int64_t)i); o["idx"] = std::move(ix); }
  if (auto *ev = dyn_cast<InsertValueInst>(&I)) { Array ix; for (unsigned i : ev->indices()) ix.push_back((int64_t)i); o["idx"] = std::move(ix); }
  if (auto *lp = dyn_cast<LandingPadInst>(&I)) {
    Array cs;
    for (unsigned k = 0; k < lp->getNumClauses(); ++k)
      if (lp->isCatch(k)) { auto *g = dyn_cast<GlobalValue>(lp->getClause(k)->stripPointerCasts()); cs.push_back(g ? g->getName().str() : std::string("")); }
    o["catches"] = std::move(cs);
    o["cleanup"] = lp->isCleanup();
  }
  if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&I)) { if (ob->hasNoSignedWrap()) o["nsw"] = true; if (ob->hasNoUnsignedWrap()) o["nuw"] = true; }
  Array ops; for (auto &op : I.operands()) ops.push_back(ref(op.get()));
  o["ops"] = std::move(ops);
  return o;
}

int main(int argc, char **argv) {
  // usage: irx in.bc out.json [--keep=a,b] [--noassert] [--nobody=substr] [--pass=PIPELINE]...
  if (argc < 3) { errs() << "usage: irx in.bc out.json [options]\n"; return 2; }
  LLVMContext C; SMDiagnostic E;
  auto M = parseIRFile(argv[1], E, C);
  if (!M) { E.print("irx", errs()); return 2; }
  std::vector<std::string> nobody;
  for (int ai = 3; ai < argc; ++ai) {
    StringRef A(argv[ai]);
    if (A.consume_front("--keep=")) {
      SmallVector<StringRef, 16> ks; A.split(ks, ','); std::set<std::string> keep; for (auto k : ks) keep.insert(k.str());
      internalizeModule(*M, [&](const GlobalValue &G) { return keep.count(G.getName().str()) > 0; });
    } else if (A.consume_front("--nobody=")) { nobody.push_back(A.str());
    } else if (A.consume_front("--inline=")) {
      // these functions are inlined into their callers by the always-inline pass
      SmallVector<StringRef, 16> ks; A.split(ks, ',');
      for (auto k : ks) if (auto *Fn = M->getFunction(k)) if (!Fn->isDeclaration()) {
        Fn->removeFnAttr(Attribute::NoInline); Fn->removeFnAttr(Attribute::OptimizeNone); Fn->addFnAttr(Attribute::AlwaysInline);
      }
    } else if (A.consume_front("--noinline=")) {
      // functions whose mangled name contains one of these stay functions
      SmallVector<StringRef, 16> ks; A.split(ks, ',');
      for (auto &Fn : *M) if (!Fn.isDeclaration()) for (auto k : ks) if (Fn.getName().contains(k)) {
        Fn.removeFnAttr(Attribute::AlwaysInline); Fn.removeFnAttr(Attribute::InlineHint); Fn.addFnAttr(Attribute::NoInline);
      }
    } else if (A.consume_front("--setglobal=")) {
      // name=value : every load of the integer global yields the constant
      auto p = A.split('='); long v = 0; p.second.getAsInteger(10, v);
      if (auto *G = M->getNamedGlobal(p.first)) {
        std::vector<Instruction *> dead;
        for (auto *U : G->users()) if (auto *L = dyn_cast<LoadInst>(U)) { L->replaceAllUsesWith(ConstantInt::get(L->getType(), v)); dead.push_back(L); }
        for (auto *I : dead) I->eraseFromParent();
      }
    } else if (A == "--iomem") {
      // stdio calls touch only the library's own state and the buffer they are given
      for (auto &Fn : *M) if (Fn.isDeclaration()) {
        StringRef n = Fn.getName();
        auto inac = MemoryEffects::inaccessibleMemOnly(ModRefInfo::ModRef);
        if (n == "fwrite" || n == "fputc" || n == "putc" || n == "fflush" || n == "fclose" || n == "ferror" || n == "feof" || n == "ftell" ||
            n == "fseek" || n == "perror" || n == "fputs" || n == "fileno" || n == "isatty" || n == "rewind" || n == "clearerr")
          Fn.setMemoryEffects(inac | MemoryEffects::argMemOnly(ModRefInfo::Ref));
        else if (n == "fread" || n == "fgetc" || n == "getc")
          Fn.setMemoryEffects(inac | MemoryEffects::argMemOnly(ModRefInfo::ModRef));
      }
    } else if (A == "--noassert") {
      // every conditional edge into a block that only calls __assert_fail is removed
      for (auto &Fn : *M) for (auto &B : Fn) {
        auto *br = dyn_cast<BranchInst>(B.getTerminator());
        if (!br || !br->isConditional()) continue;
        auto isFail = [](BasicBlock *S) {
          for (auto &I : *S) if (auto *c = dyn_cast<CallInst>(&I)) if (auto *f = c->getCalledFunction()) if (f->getName() == "__assert_fail" && isa<UnreachableInst>(S->getTerminator())) return true;
          return false; };
        for (unsigned k = 0; k < 2; ++k) if (isFail(br->getSuccessor(k)) && !isFail(br->getSuccessor(1 - k))) {
          BasicBlock *ok = br->getSuccessor(1 - k), *bad = br->getSuccessor(k);
          bad->removePredecessor(&B);
          BranchInst::Create(ok, br); br->eraseFromParent(); break;
        }
      }
    } else if (A.consume_front("--pass=")) {
      LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
      PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
      PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
      ModulePassManager MPM;
      if (auto Err = PB.parsePassPipeline(MPM, A)) { errs() << toString(std::move(Err)) << "\n"; return 2; }
      MPM.run(*M, MAM);
    } else { errs() << "bad option " << argv[ai] << "\n"; return 2; }
  }
  DL = &M->getDataLayout();
  std::error_code EC; raw_fd_ostream OS(argv[2], EC);
  if (EC) { errs() << EC.message() << "\n"; return 2; }
  json::OStream J(OS);
  J.objectBegin();
  // globals
  J.attributeBegin("globals"); J.objectBegin();
  for (auto &G : M->globals()) {
    Object o; o["const"] = G.isConstant(); o["decl"] = G.isDeclaration(); o["ty"] = tyStr(G.getValueType()); o["size"] = sz(G.getValueType());
    o["dem"] = demangle(G.getName().str()); o["internal"] = G.hasLocalLinkage();
    SmallVector<DIGlobalVariableExpression *, 2> gvs; G.getDebugInfo(gvs);
    if (!gvs.empty()) { o["file"] = fileOf(gvs[0]->getVariable()->getFile() ? (const DIScope*)gvs[0]->getVariable()->getFile() : nullptr); o["line"] = gvs[0]->getVariable()->getLine(); o["dname"] = gvs[0]->getVariable()->getName().str(); }
    SmallVector<MDNode *, 4> tys; G.getMetadata(LLVMContext::MD_type, tys);
    if (!tys.empty()) {
      Array a;
      for (auto *n : tys) {
        auto off = cast<ConstantInt>(cast<ConstantAsMetadata>(n->getOperand(0))->getValue())->getSExtValue();
        std::string id = "?"; if (auto *s = dyn_cast<MDString>(n->getOperand(1))) id = s->getString().str();
        a.push_back(Array{off, id});
      }
      o["types"] = std::move(a);
    }
    if (G.hasInitializer() && sz(G.getValueType()) >= 0 && sz(G.getValueType()) <= (1 << 16)) {
      // flatten vtables and integer tables
      const Constant *init = G.getInitializer();
      if (G.getName().starts_with("_ZTV")) {
        Array slots;
        for (unsigned i = 0; i < init->getNumOperands(); ++i) {
          auto *arr = cast<Constant>(init->getOperand(i));
          for (unsigned k = 0; k < arr->getNumOperands(); ++k) {
            auto *op = cast<Constant>(arr->getOperand(k))->stripPointerCasts();
            slots.push_back(isa<GlobalValue>(op) ? JV(op->getName().str()) : JV(nullptr));
          }
        }
        o["vt"] = std::move(slots);
      } else o["init"] = constRef(init);
    }
    J.attribute(G.getName(), std::move(o));
  }
  J.objectEnd(); J.attributeEnd();
  // composite types from debug info
  DebugInfoFinder F; F.processModule(*M);
  J.attributeBegin("types"); J.objectBegin();
  std::map<std::string, bool> seen;
  for (auto *t : F.types()) {
    auto *c = dyn_cast<DICompositeType>(t);
    if (!c || c->isForwardDecl() || c->getIdentifier().empty()) continue;
    if (c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_structure_type) continue;
    std::string id = c->getIdentifier().str();
    if (seen[id]) continue; seen[id] = true;
    Array fl; flattenType(c, 0, "", fl, 0);
    Array bases; Array direct;
    for (auto *e : c->getElements()) {
      auto *m = dyn_cast<DIDerivedType>(e);
      if (!m) continue;
      if (m->getTag() == dwarf::DW_TAG_inheritance) { if (auto *bc = dyn_cast_or_null<DICompositeType>(m->getBaseType())) bases.push_back(Array{bc->getIdentifier().str(), (int64_t)(m->getOffsetInBits()/8)}); }
      else if (m->getTag() == dwarf::DW_TAG_member && !m->isStaticMember()) {
        const DIType *bt = m->getBaseType();
        std::string bid; 
        const DIType *q = bt;
        while (q && isa<DIDerivedType>(q) && (cast<DIDerivedType>(q)->getTag() == dwarf::DW_TAG_typedef || cast<DIDerivedType>(q)->getTag() == dwarf::DW_TAG_const_type)) q = cast<DIDerivedType>(q)->getBaseType();
        if (auto *bc = dyn_cast_or_null<DICompositeType>(q)) bid = bc->getIdentifier().str();
        direct.push_back(Object{{"name", m->getName().str()}, {"off", (int64_t)(m->getOffsetInBits()/8)}, {"size", (int64_t)(m->getSizeInBits()/8)}, {"tid", bid}, {"line", m->getLine()}});
      }
    }
    J.attribute(id, Object{{"name", c->getName().str()}, {"file", fileOf(c)}, {"line", c->getLine()}, {"size", (int64_t)(c->getSizeInBits()/8)}, {"fields", std::move(fl)}, {"members", std::move(direct)}, {"bases", std::move(bases)}});
  }
  J.objectEnd(); J.attributeEnd();
  J.attributeBegin("aliases"); J.objectBegin();
  for (auto &A : M->aliases()) J.attribute(A.getName(), A.getAliasee()->stripPointerCasts()->getName());
  J.objectEnd(); J.attributeEnd();
  J.attributeBegin("functions"); J.objectBegin();
  for (auto &Fn : *M) {
    if (Fn.isIntrinsic() && Fn.isDeclaration()) continue;
    Num.clear();
    J.attributeBegin(Fn.getName()); J.objectBegin();
    J.attribute("dem", demangle(Fn.getName().str()));
    J.attribute("decl", Fn.isDeclaration());
    J.attribute("ret", tyStr(Fn.getReturnType()));
    J.attribute("noret", Fn.doesNotReturn());
    Array as; int n = 0;
    for (auto &A : Fn.args()) { Num[&A] = n++; as.push_back(Object{{"ty", tyStr(A.getType())}, {"name", A.getName().str()}, {"sret", A.hasStructRetAttr()}}); }
    J.attribute("args", std::move(as));
    if (auto *sp = Fn.getSubprogram()) { J.attribute("file", fileOf(sp)); J.attribute("line", sp->getLine()); J.attribute("sname", sp->getName());
      if (auto *cls = dyn_cast_or_null<DICompositeType>(sp->getScope())) J.attribute("cls", cls->getIdentifier());
      else if (sp->getDeclaration()) if (auto *c2 = dyn_cast_or_null<DICompositeType>(sp->getDeclaration()->getScope())) J.attribute("cls", c2->getIdentifier());
    }
    J.attribute("internal", Fn.hasLocalLinkage());
    bool skip = false; for (auto &n : nobody) if (Fn.getName().contains(n)) skip = true;
    if (skip && !Fn.isDeclaration()) J.attribute("opaque", true);
    if (!Fn.isDeclaration() && !skip) {
      for (auto &B : Fn) { Num[&B] = n++; for (auto &I : B) if (!I.getType()->isVoidTy()) Num[&I] = n++; }
      J.attributeBegin("blocks"); J.arrayBegin();
      for (auto &B : Fn) {
        J.objectBegin(); J.attribute("id", Num[&B]);
        J.attributeBegin("insts"); J.arrayBegin();
        for (auto &I : B) { if (isa<DbgInfoIntrinsic>(&I)) continue; J.value(instObj(I)); }
        J.arrayEnd(); J.attributeEnd(); J.objectEnd();
      }
      J.arrayEnd(); J.attributeEnd();
    }
    J.objectEnd(); J.attributeEnd();
  }
  J.objectEnd(); J.attributeEnd();
  J.objectEnd();
  return 0;
}
