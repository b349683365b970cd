// irdump: link LLVM bitcode, optionally flatten every internal call, normalise,
// and print the resolved program as JSON for the Python rules.
//
//   irdump --inline|--no-inline [--keep=a,b,c] [--export=a,b,c] in.bc... > out.json
//
// Nothing here executes the analysed program: the passes are inlining, SROA,
// CSE and constant propagation, used as a normal form in which helper
// extraction, statement reordering and local-variable shuffling disappear.
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Local.h"
#include <map>
#include <set>
#include <string>

using namespace llvm;

static const DataLayout *DL;
static unsigned VFKind;

static std::string structName(Type *T) {
  if (auto *S = dyn_cast<StructType>(T)) {
    if (!S->hasName()) return "";
    StringRef N = S->getName();
    N.consume_front("struct.");
    N.consume_front("union.");
    // llvm-link may rename "foo" to "foo.12".
    size_t dot = N.rfind('.');
    if (dot != StringRef::npos) {
      StringRef suf = N.substr(dot + 1);
      if (!suf.empty() && suf.find_first_not_of("0123456789") == StringRef::npos)
        N = N.substr(0, dot);
    }
    return N.str();
  }
  return "";
}

static std::string typeStr(Type *T) {
  if (T->isIntegerTy()) return "i" + std::to_string(T->getIntegerBitWidth());
  if (T->isPointerTy()) return "ptr";
  if (T->isVoidTy()) return "void";
  if (T->isDoubleTy()) return "double";
  if (T->isFloatTy()) return "float";
  if (T->isStructTy()) {
    auto n = structName(T);
    if (!n.empty()) return "%" + n;
  }
  std::string s;
  raw_string_ostream os(s);
  T->print(os);
  return os.str();
}

struct Emitter {
  std::map<const Value *, unsigned> ids;
  std::map<const BasicBlock *, unsigned> bbs;
  json::Value operand(const Value *V);
  json::Value inst(const Instruction &I);
};

static json::Value gepInfo(const GEPOperator *G) {
  // path: list of ["s", structname, idx, offset] | ["i", const] | ["v", operandIndex]
  json::Object o;
  o["src"] = typeStr(G->getSourceElementType());
  APInt off(64, 0);
  if (G->accumulateConstantOffset(*DL, off)) o["off"] = (int64_t)off.getSExtValue();
  json::Array path;
  unsigned opi = 0;
  for (auto gti = gep_type_begin(G), e = gep_type_end(G); gti != e; ++gti, ++opi) {
    Value *Idx = gti.getOperand();
    if (StructType *S = gti.getStructTypeOrNull()) {
      unsigned n = cast<ConstantInt>(Idx)->getZExtValue();
      path.push_back(json::Array{"s", structName(S), (int64_t)n,
        (int64_t)DL->getStructLayout(S)->getElementOffset(n)});
    } else {
      int64_t sz = (int64_t)DL->getTypeAllocSize(gti.getIndexedType());
      if (auto *C = dyn_cast<ConstantInt>(Idx))
        path.push_back(json::Array{"i", C->getSExtValue(), sz});
      else
        path.push_back(json::Array{"v", (int64_t)(opi + 1), sz});
    }
  }
  o["path"] = std::move(path);
  return o;
}

json::Value Emitter::operand(const Value *V) {
  if (auto *C = dyn_cast<ConstantInt>(V)) {
    if (C->getBitWidth() <= 64) return json::Array{"c", C->getSExtValue(), (int64_t)C->getBitWidth()};
    return json::Array{"x", "bigint"};
  }
  if (isa<ConstantPointerNull>(V)) return json::Array{"null"};
  if (isa<UndefValue>(V)) return json::Array{"undef"};
  if (auto *F = dyn_cast<Function>(V)) return json::Array{"f", F->getName()};
  if (auto *G = dyn_cast<GlobalValue>(V)) return json::Array{"g", G->getName()};
  if (auto *B = dyn_cast<BasicBlock>(V)) return json::Array{"b", (int64_t)bbs[B]};
  if (auto *A = dyn_cast<Argument>(V)) return json::Array{"a", (int64_t)A->getArgNo()};
  if (auto *I = dyn_cast<Instruction>(V)) return json::Array{"v", (int64_t)ids[I]};
  if (auto *F = dyn_cast<ConstantFP>(V)) {
    SmallString<32> s;
    F->getValueAPF().toString(s);
    return json::Array{"fp", std::string(s.str())};
  }
  if (auto *CE = dyn_cast<ConstantExpr>(V)) {
    json::Array ops;
    for (auto &op : CE->operands()) ops.push_back(operand(op));
    json::Array r{"ce", CE->getOpcodeName(), std::move(ops)};
    if (auto *G = dyn_cast<GEPOperator>(CE)) r.push_back(gepInfo(G));
    return r;
  }
  if (isa<InlineAsm>(V)) return json::Array{"asm"};
  if (isa<MetadataAsValue>(V)) return json::Array{"md"};
  if (isa<ConstantAggregateZero>(V)) return json::Array{"zero"};
  return json::Array{"x", "other"};
}

static const char *orderingName(AtomicOrdering o) {
  switch (o) {
  case AtomicOrdering::NotAtomic: return "na";
  case AtomicOrdering::Unordered: return "unordered";
  case AtomicOrdering::Monotonic: return "relaxed";
  case AtomicOrdering::Acquire: return "acquire";
  case AtomicOrdering::Release: return "release";
  case AtomicOrdering::AcquireRelease: return "acq_rel";
  case AtomicOrdering::SequentiallyConsistent: return "seq_cst";
  }
  return "?";
}

static json::Array locChain(const DebugLoc &D) {
  json::Array a;
  for (DILocation *L = D.get(); L; L = L->getInlinedAt()) {
    auto *SP = L->getScope()->getSubprogram();
    a.push_back(json::Array{SP ? SP->getName() : "", L->getScope()->getFilename(), (int64_t)L->getLine()});
  }
  return a;
}

// Zero-offset field addresses (&heap->lock when lock is the first member) would
// be folded into their base; they are kept as calls to a pure marker function
// and printed as the getelementptr they stand for.
static std::map<const Function *, json::Value> Markers;

json::Value Emitter::inst(const Instruction &I) {
  json::Object o;
  o["id"] = (int64_t)ids[&I];
  if (auto *C = dyn_cast<CallBase>(&I))
    if (auto *G = C->getCalledFunction()) {
      auto it = Markers.find(G);
      if (it != Markers.end()) {
        o["op"] = "getelementptr"; o["ty"] = "ptr";
        o["ops"] = json::Array{operand(C->getArgOperand(0)), json::Array{"c", 0, 32}, json::Array{"c", 0, 32}};
        o["gep"] = it->second;
        if (I.getDebugLoc()) o["loc"] = locChain(I.getDebugLoc());
        return o;
      }
    }
  o["op"] = I.getOpcodeName();
  if (!I.getType()->isVoidTy()) o["ty"] = typeStr(I.getType());
  json::Array ops;
  if (auto *P = dyn_cast<PHINode>(&I)) {
    for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
      ops.push_back(json::Array{operand(P->getIncomingValue(i)), (int64_t)bbs[P->getIncomingBlock(i)]});
  } else if (auto *C = dyn_cast<CallBase>(&I)) {
    for (auto &a : C->args()) ops.push_back(operand(a));
    o["callee"] = operand(C->getCalledOperand()->stripPointerCasts());
    if (C->doesNotReturn()) o["noreturn"] = true;
  } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
    ops.push_back(operand(S->getCondition()));
    json::Array cases;
    for (auto &c : S->cases())
      cases.push_back(json::Array{c.getCaseValue()->getSExtValue(), (int64_t)bbs[c.getCaseSuccessor()]});
    o["cases"] = std::move(cases);
    o["default"] = (int64_t)bbs[S->getDefaultDest()];
  } else if (auto *B = dyn_cast<BranchInst>(&I)) {
    if (B->isConditional()) ops.push_back(operand(B->getCondition()));
    json::Array ss;
    for (unsigned i = 0; i < B->getNumSuccessors(); i++) ss.push_back((int64_t)bbs[B->getSuccessor(i)]);
    o["succ"] = std::move(ss);
  } else {
    for (auto &op : I.operands()) ops.push_back(operand(op));
  }
  o["ops"] = std::move(ops);
  if (auto *G = dyn_cast<GEPOperator>(&I)) o["gep"] = gepInfo(G);
  if (auto *C = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(C->getPredicate());
  if (auto *L = dyn_cast<LoadInst>(&I)) { o["ord"] = orderingName(L->getOrdering()); if (L->isVolatile()) o["vol"] = true; }
  if (auto *S = dyn_cast<StoreInst>(&I)) { o["ord"] = orderingName(S->getOrdering()); o["vty"] = typeStr(S->getValueOperand()->getType()); }
  if (auto *R = dyn_cast<AtomicRMWInst>(&I)) { o["ord"] = orderingName(R->getOrdering()); o["rmw"] = AtomicRMWInst::getOperationName(R->getOperation()); }
  if (auto *X = dyn_cast<AtomicCmpXchgInst>(&I)) { o["ord"] = orderingName(X->getSuccessOrdering()); o["ford"] = orderingName(X->getFailureOrdering()); o["weak"] = X->isWeak(); o["vty"] = typeStr(X->getNewValOperand()->getType()); }
  if (auto *E = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (auto i : E->indices()) ix.push_back((int64_t)i); o["idx"] = std::move(ix); }
  if (auto *E = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (auto i : E->indices()) ix.push_back((int64_t)i); o["idx"] = std::move(ix); }
  if (auto *A = dyn_cast<AllocaInst>(&I)) o["aty"] = typeStr(A->getAllocatedType());
  if (auto *F = dyn_cast<FenceInst>(&I)) o["ord"] = orderingName(F->getOrdering());
  if (auto *N = I.getMetadata(VFKind)) {
    if (auto *S = dyn_cast<MDString>(N->getOperand(0))) o["vf"] = S->getString();
  }
  if (I.getDebugLoc()) o["loc"] = locChain(I.getDebugLoc());
  return o;
}

// ---- debug info -------------------------------------------------------
static const DIType *stripTypedefs(const DIType *T) {
  while (T) {
    auto *D = dyn_cast<DIDerivedType>(T);
    if (!D) break;
    switch (D->getTag()) {
    case dwarf::DW_TAG_typedef: case dwarf::DW_TAG_const_type:
    case dwarf::DW_TAG_volatile_type: case dwarf::DW_TAG_restrict_type:
    case dwarf::DW_TAG_atomic_type:
      T = D->getBaseType(); continue;
    default: return T;
    }
  }
  return T;
}

static std::string ditype(const DIType *T, int depth = 0) {
  if (!T) return "void";
  if (depth > 6) return "...";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
    case dwarf::DW_TAG_pointer_type: return ditype(D->getBaseType(), depth + 1) + "*";
    case dwarf::DW_TAG_typedef: return D->getName().str();
    case dwarf::DW_TAG_atomic_type: return "_Atomic " + ditype(D->getBaseType(), depth + 1);
    case dwarf::DW_TAG_volatile_type: return "volatile " + ditype(D->getBaseType(), depth + 1);
    case dwarf::DW_TAG_const_type: return ditype(D->getBaseType(), depth + 1);
    default: return ditype(D->getBaseType(), depth + 1);
    }
  }
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    if (C->getTag() == dwarf::DW_TAG_array_type) return ditype(C->getBaseType(), depth + 1) + "[]";
    if (!C->getName().empty()) return C->getName().str();
    return "anon";
  }
  if (auto *B = dyn_cast<DIBasicType>(T)) return B->getName().str();
  if (isa<DISubroutineType>(T)) return "fn";
  return "?";
}

static json::Value members(const DICompositeType *C, std::map<const DICompositeType *, int> &seen) {
  json::Array a;
  for (auto *E : C->getElements()) {
    auto *D = dyn_cast_or_null<DIDerivedType>(E);
    if (!D || D->getTag() != dwarf::DW_TAG_member) continue;
    json::Object m;
    m["name"] = D->getName();
    m["off"] = (int64_t)D->getOffsetInBits();
    m["size"] = (int64_t)D->getSizeInBits();
    m["type"] = ditype(D->getBaseType());
    const DIType *B = stripTypedefs(D->getBaseType());
    if (auto *BC = dyn_cast_or_null<DICompositeType>(B)) {
      if (BC->getTag() == dwarf::DW_TAG_structure_type || BC->getTag() == dwarf::DW_TAG_union_type) {
        if (!seen[BC]) { seen[BC]++; m["sub"] = members(BC, seen); seen[BC]--; }
        if (!BC->getName().empty()) m["subname"] = BC->getName();
        m["union"] = BC->getTag() == dwarf::DW_TAG_union_type;
      } else if (BC->getTag() == dwarf::DW_TAG_array_type) {
        const DIType *EB = stripTypedefs(BC->getBaseType());
        m["array"] = true;
        m["elemsize"] = EB ? (int64_t)EB->getSizeInBits() : 0;
        if (auto *EC = dyn_cast_or_null<DICompositeType>(EB)) {
          if (!seen[EC]) { seen[EC]++; m["sub"] = members(EC, seen); seen[EC]--; }
          if (!EC->getName().empty()) m["subname"] = EC->getName();
        }
      }
    }
    a.push_back(std::move(m));
  }
  return a;
}

// Field name of a struct-typed GEP's last struct step, "struct.field".
static std::map<std::string, const DICompositeType *> DIByName;

static const DIDerivedType *memberAt(const DICompositeType *C, uint64_t bitoff) {
  for (auto *E : C->getElements()) {
    auto *D = dyn_cast_or_null<DIDerivedType>(E);
    if (!D || D->getTag() != dwarf::DW_TAG_member) continue;
    if (D->getOffsetInBits() == bitoff) return D;
  }
  for (auto *E : C->getElements()) {
    auto *D = dyn_cast_or_null<DIDerivedType>(E);
    if (!D || D->getTag() != dwarf::DW_TAG_member) continue;
    if (D->getOffsetInBits() <= bitoff && bitoff < D->getOffsetInBits() + std::max<uint64_t>(D->getSizeInBits(), 1)) return D;
  }
  return nullptr;
}

static bool allAtZero(const DICompositeType *C) {
  for (auto *E : C->getElements()) {
    auto *D = dyn_cast_or_null<DIDerivedType>(E);
    if (!D || D->getTag() != dwarf::DW_TAG_member) continue;
    if (D->getOffsetInBits()) return false;
  }
  return true;
}

// Name of the field a pointer designates, innermost named struct first:
// "struct.field" (anonymous members are looked through).
static std::string descendName(const DICompositeType *C, std::string owner, uint64_t bit) {
  auto *m = memberAt(C, bit);
  if (!m) return owner + ".?";
  std::string n = m->getName().str();
  const DIType *B = stripTypedefs(m->getBaseType());
  auto *BC = dyn_cast_or_null<DICompositeType>(B);
  if (n.empty() && BC && BC->getElements().size()) return descendName(BC, owner, bit - m->getOffsetInBits());
  return owner + "." + n;
}

struct FieldRef { const DICompositeType *ctx = nullptr; std::string owner; uint64_t off = 0; std::string cur; };

static FieldRef fieldRef(const Value *P, int depth = 0) {
  if (depth > 12) return {};
  if (auto *C = dyn_cast<CastInst>(P)) return fieldRef(C->getOperand(0), depth + 1);
  auto *G = dyn_cast<GEPOperator>(P);
  if (!G) return {};
  FieldRef base = fieldRef(G->getPointerOperand(), depth + 1);
  FieldRef r;
  bool steps = false;
  for (auto gti = gep_type_begin(G), e = gep_type_end(G); gti != e; ++gti) {
    StructType *S = gti.getStructTypeOrNull();
    if (!S) { if (gti != gep_type_begin(G)) { if (!steps) r = base; r.cur += "[]"; steps = true; } continue; }
    unsigned n = cast<ConstantInt>(gti.getOperand())->getZExtValue();
    std::string sn = structName(S);
    uint64_t off = DL->getStructLayout(S)->getElementOffset(n) * 8;
    auto it = DIByName.find(sn);
    if (it != DIByName.end() && sn.rfind("anon", 0) != 0) {
      if (it->second->getSizeInBits() <= 64 && allAtZero(it->second) && !(steps ? r.cur : base.cur).empty()) {
        if (!steps) r = base;
        steps = true;
        continue;
      }
      r.ctx = it->second; r.owner = sn; r.off = off;
      r.cur = descendName(r.ctx, r.owner, r.off);
    } else {
      if (!steps) r = base;
      if (r.ctx) { r.off += off; r.cur = descendName(r.ctx, r.owner, r.off); }
    }
    steps = true;
  }
  if (!steps) return base;
  return r;
}

static std::string ptrFieldName(const Value *P) { return fieldRef(P).cur; }

int main(int argc, char **argv) {
  bool inl = true;
  unsigned limit = 80;
  std::set<std::string> keep, exported;
  std::vector<std::string> files;
  auto split = [](StringRef s, std::set<std::string> &out) {
    SmallVector<StringRef, 16> parts;
    s.split(parts, ',', -1, false);
    for (auto p : parts) out.insert(p.str());
  };
  for (int i = 1; i < argc; i++) {
    StringRef a(argv[i]);
    if (a == "--inline") inl = true;
    else if (a == "--no-inline") inl = false;
    else if (a.consume_front("--keep=")) split(a, keep);
    else if (a.consume_front("--export=")) split(a, exported);
    else if (a.consume_front("--limit=")) a.getAsInteger(10, limit);
    else files.push_back(a.str());
  }
  LLVMContext Ctx;
  VFKind = Ctx.getMDKindID("vf");
  SMDiagnostic Err;
  std::unique_ptr<Module> M;
  for (auto &f : files) {
    auto N = parseIRFile(f, Err, Ctx);
    if (!N) { Err.print(argv[0], errs()); return 2; }
    if (!M) M = std::move(N);
    else if (Linker::linkModules(*M, std::move(N))) { errs() << "link failed\n"; return 2; }
  }
  if (!M) { errs() << "no input\n"; return 2; }
  DL = &M->getDataLayout();

  DebugInfoFinder DIF;
  DIF.processModule(*M);
  for (auto *T : DIF.types())
    if (auto *C = dyn_cast<DICompositeType>(T))
      if ((C->getTag() == dwarf::DW_TAG_structure_type || C->getTag() == dwarf::DW_TAG_union_type) &&
          !C->getName().empty() && C->getElements().size())
        DIByName[C->getName().str()] = C;

  // Annotate memory accesses with the field they go through, before any pass.
  // At -O0 pointers to fields are often reloaded from locals, so a first SROA
  // (no folding of GEPs through loads yet) is run on each function.
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  for (auto &F : *M)
    for (auto &I : instructions(F)) {
      const Value *P = nullptr;
      if (auto *L = dyn_cast<LoadInst>(&I)) P = L->getPointerOperand();
      else if (auto *S = dyn_cast<StoreInst>(&I)) P = S->getPointerOperand();
      else if (auto *R = dyn_cast<AtomicRMWInst>(&I)) P = R->getPointerOperand();
      else if (auto *X = dyn_cast<AtomicCmpXchgInst>(&I)) P = X->getPointerOperand();
      if (!P) continue;
      auto n = ptrFieldName(P);
      if (!n.empty()) I.setMetadata(VFKind, MDNode::get(Ctx, MDString::get(Ctx, n)));
    }

  {
    std::map<std::string, Function *> byKey;
    std::vector<GetElementPtrInst *> geps;
    auto *PT = PointerType::get(Ctx, 0);
    for (auto &F : *M)
      for (auto &I : instructions(F))
        if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          if (!isa<StructType>(G->getSourceElementType()) || !G->hasAllZeroIndices() || G->getNumIndices() < 2) continue;
          if (isa<AllocaInst>(G->getPointerOperand()->stripPointerCasts())) continue;
          if (structName(G->getSourceElementType()).empty() || StringRef(structName(G->getSourceElementType())).starts_with("anon")) continue;
          bool addr = false;
          for (auto *U : G->users()) {
            if (isa<CallBase>(U) || isa<PHINode>(U) || isa<ReturnInst>(U) || isa<SelectInst>(U)) addr = true;
            if (auto *S = dyn_cast<StoreInst>(U)) if (S->getValueOperand() == G) addr = true;
          }
          if (addr) geps.push_back(G);
        }
    for (auto *G : geps) {
      json::Value gi = gepInfo(cast<GEPOperator>(G));
      std::string key;
      { raw_string_ostream os(key); os << gi; }
      Function *&F = byKey[key];
      if (!F) {
        F = Function::Create(FunctionType::get(PT, {PT}, false), GlobalValue::ExternalLinkage, "vf.addr." + std::to_string(byKey.size()), M.get());
        F->setDoesNotAccessMemory(); F->setWillReturn(); F->setDoesNotThrow();
        Markers.emplace(F, std::move(gi));
      }
      auto *C = CallInst::Create(F, {G->getPointerOperand()}, "", G);
      C->setDebugLoc(G->getDebugLoc());
      G->replaceAllUsesWith(C);
      G->eraseFromParent();
    }
  }
  if (inl) {
    CallGraph CG(*M);
    std::set<Function *> recursive;
    for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it)
      if (it.hasCycle())
        for (auto *n : *it) if (n->getFunction()) recursive.insert(n->getFunction());
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      F.removeFnAttr(Attribute::OptimizeNone);
      F.removeFnAttr(Attribute::NoInline);
      F.removeFnAttr(Attribute::AlwaysInline);
      std::string n = F.getName().str();
      if (keep.count(n) || recursive.count(&F)) {}
      if (!exported.empty() && !exported.count(n)) F.setLinkage(GlobalValue::InternalLinkage);
    }
    // Bottom-up: a callee is flattened into its caller when it is small or has
    // one call site.  What stays a call is summarised by the rules' engine, so
    // the limit decides only how much context a summary carries.
    std::vector<Function *> order;
    for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it)
      for (auto *n : *it)
        if (n->getFunction() && !n->getFunction()->isDeclaration()) order.push_back(n->getFunction());
    auto simplify = [&](Function &F) {
      for (int round = 0; round < 4; round++) {
        FunctionPassManager FPM;
        cantFail(PB.parsePassPipeline(FPM, "sroa,early-cse<memssa>,sccp,adce"));
        FAM.clear(F, F.getName());
        FPM.run(F, FAM);
        bool changed = false;
        for (auto &B : F) changed |= ConstantFoldTerminator(&B, true);
        changed |= removeUnreachableBlocks(F);
        FAM.clear(F, F.getName());
        if (!changed) break;
      }
    };
    for (Function *F : order) {
      for (int round = 0; round < 40; round++) {
        bool did = false;
        std::vector<CallBase *> sites;
        for (auto &I : instructions(*F))
          if (auto *C = dyn_cast<CallBase>(&I)) {
            Function *G = C->getCalledFunction();
            if (!G || G->isDeclaration() || G == F || keep.count(G->getName().str()) || recursive.count(G)) continue;
            // recursion that only shows once a function pointer has become known
            bool again = false;
            if (DISubprogram *GS = G->getSubprogram())
              for (DILocation *L = C->getDebugLoc().get(); L; L = L->getInlinedAt())
                if (L->getScope() && L->getScope()->getSubprogram() == GS) again = true;
            if (again) continue;
            bool once = G->hasLocalLinkage() && G->hasOneUse();
            bool small = G->getInstructionCount() <= limit;
            if (once || small) sites.push_back(C);
          }
        for (auto *C : sites) {
          if (F->getInstructionCount() > 20000) break;
          InlineFunctionInfo IFI;
          if (InlineFunction(*C, IFI).isSuccess()) did = true;
        }
        if (!did) break;
      }
      simplify(*F);
    }
    {
      ModulePassManager MPM;
      cantFail(PB.parsePassPipeline(MPM, "globaldce"));
      MPM.run(*M, MAM);
    }
  } else {
    for (auto &F : *M) { F.removeFnAttr(Attribute::OptimizeNone); }
    ModulePassManager MPM;
    cantFail(PB.parsePassPipeline(MPM, "function(sroa,early-cse,sccp)"));
    MPM.run(*M, MAM);
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      for (auto &B : F) ConstantFoldTerminator(&B, true);
      removeUnreachableBlocks(F);
    }
  }

  json::Object out;
  json::Object types;
  for (auto &kv : DIByName) {
    json::Object t;
    std::map<const DICompositeType *, int> seen;
    seen[kv.second]++;
    t["size"] = (int64_t)kv.second->getSizeInBits();
    t["members"] = members(kv.second, seen);
    t["union"] = kv.second->getTag() == dwarf::DW_TAG_union_type;
    t["file"] = kv.second->getFile() ? kv.second->getFile()->getFilename() : "";
    t["line"] = (int64_t)kv.second->getLine();
    types[kv.first] = std::move(t);
  }
  out["types"] = std::move(types);
  json::Object enums;
  for (auto *T : DIF.types())
    if (auto *C = dyn_cast<DICompositeType>(T))
      if (C->getTag() == dwarf::DW_TAG_enumeration_type) {
        json::Array es;
        for (auto *E : C->getElements())
          if (auto *En = dyn_cast<DIEnumerator>(E))
            es.push_back(json::Array{En->getName(), En->getValue().getSExtValue()});
        std::string n = C->getName().str();
        if (n.empty()) n = "anon:" + C->getFilename().str() + ":" + std::to_string(C->getLine());
        enums[n] = std::move(es);
      }
  out["enums"] = std::move(enums);

  json::Object globals;
  for (auto &G : M->globals()) {
    json::Object g;
    g["type"] = typeStr(G.getValueType());
    g["const"] = G.isConstant();
    if (G.hasInitializer()) {
      Emitter em;
      auto *I = G.getInitializer();
      if (auto *S = dyn_cast<ConstantDataSequential>(I)) {
        if (S->isString()) g["str"] = json::fixUTF8(S->isCString() ? S->getAsCString() : S->getAsString());
        else { json::Array a; for (unsigned i = 0; i < S->getNumElements(); i++) a.push_back(em.operand(S->getElementAsConstant(i))); g["init"] = std::move(a); }
      } else if (isa<ConstantAggregate>(I)) {
        std::function<json::Value(const Constant *)> rec = [&](const Constant *c) -> json::Value {
          if (isa<ConstantAggregate>(c)) { json::Array a; for (auto &op : c->operands()) a.push_back(rec(cast<Constant>(op))); return json::Array{"agg", std::move(a)}; }
          if (auto *S = dyn_cast<ConstantDataSequential>(c)) { json::Array a; for (unsigned i = 0; i < S->getNumElements(); i++) a.push_back(em.operand(S->getElementAsConstant(i))); return json::Array{"agg", std::move(a)}; }
          return em.operand(c);
        };
        g["init"] = rec(I);
      } else g["init"] = em.operand(I);
    }
    globals[G.getName()] = std::move(g);
  }
  out["globals"] = std::move(globals);

  json::Array fns;
  for (auto &F : *M) {
    if (Markers.count(&F)) continue;
    json::Object f;
    f["name"] = F.getName();
    f["decl"] = F.isDeclaration();
    f["internal"] = F.hasLocalLinkage();
    f["hidden"] = F.hasHiddenVisibility();
    f["noreturn"] = F.doesNotReturn();
    json::Array args;
    for (auto &A : F.args()) args.push_back(json::Array{A.getName(), typeStr(A.getType())});
    f["args"] = std::move(args);
    f["ret"] = typeStr(F.getReturnType());
    if (auto *SP = F.getSubprogram()) {
      f["file"] = SP->getFilename(); f["line"] = (int64_t)SP->getLine();
      json::Array at;
      if (auto *ST = SP->getType()) for (auto *t : ST->getTypeArray()) at.push_back(ditype(t));
      f["ditypes"] = std::move(at);
      json::Object pn;
      for (auto *N : SP->getRetainedNodes()) (void)N;
    }
    f["addrtaken"] = F.hasAddressTaken();
    if (!F.isDeclaration()) {
      Emitter em;
      unsigned n = 0, b = 0;
      for (auto &B : F) { em.bbs[&B] = b++; for (auto &I : B) em.ids[&I] = n++; }
      json::Array blocks;
      for (auto &B : F) {
        json::Array is;
        for (auto &I : B) {
          if (isa<DbgInfoIntrinsic>(I)) continue;
          if (auto *II = dyn_cast<IntrinsicInst>(&I))
            if (II->isLifetimeStartOrEnd()) continue;
          is.push_back(em.inst(I));
        }
        blocks.push_back(std::move(is));
      }
      f["blocks"] = std::move(blocks);
    }
    fns.push_back(std::move(f));
  }
  out["functions"] = std::move(fns);
  outs() << json::Value(std::move(out)) << "\n";
  return 0;
}
