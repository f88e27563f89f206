// tedsdump: links the LLVM IR of every translation unit of the extension, makes
// PHP's own inline primitives opaque, flattens every entry point (all repository
// helpers are inlined into it) and dumps the resulting SSA/CFG as JSON lines.
//
//   tedsdump REPO_ROOT OUT.jsonl FILE.ll...
#include "llvm/ADT/SCCIterator.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Scalar/JumpThreading.h"
#include "llvm/Transforms/Scalar/SCCP.h"
#include "llvm/Transforms/Scalar/LowerConstantIntrinsics.h"
#include "llvm/Transforms/Scalar/DCE.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;

static std::string Root;
static const DataLayout *DL;

// PHP header inlines that stay transparent (pure field accessors).
static const std::set<std::string> KeepCall = {"teds_stable_compare", "teds_strict_hash"};
static const std::set<std::string> Transparent = {
    "zval_get_type", "zend_dummy_"};

static std::string pathOf(const DIFile *F) {
  if (!F) return "";
  std::string n = F->getFilename().str();
  if (!n.empty() && n[0] == '/') return n;
  return F->getDirectory().str() + "/" + n;
}
static bool inRepo(const Function &F) {
  auto *SP = F.getSubprogram();
  if (!SP) return false;
  return StringRef(pathOf(SP->getFile())).starts_with(Root);
}
static std::string rel(std::string p) {
  if (StringRef(p).starts_with(Root)) {
    p = p.substr(Root.size());
    while (!p.empty() && p[0] == '/') p = p.substr(1);
    if (StringRef(p).starts_with("./")) p = p.substr(2);
  }
  return p;
}
static std::string tyStr(Type *T) {
  std::string s; raw_string_ostream o(s);
  if (auto *ST = dyn_cast<StructType>(T)) { if (ST->hasName()) return ST->getName().str(); }
  T->print(o); return o.str();
}

struct Namer {
  DenseMap<const Value *, int> ids;
};

static std::string constName(const Constant *C) {
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    SmallString<32> s;
    if (CI->getBitWidth() == 1) return CI->isZero() ? "c0" : "c1";
    CI->getValue().toString(s, 10, true);
    return ("c" + s).str();
  }
  if (isa<ConstantPointerNull>(C)) return "null";
  if (isa<PoisonValue>(C) || isa<UndefValue>(C)) return "undef";
  if (auto *G = dyn_cast<GlobalValue>(C)) return "@" + G->getName().str();
  if (auto *F = dyn_cast<ConstantFP>(C)) {
    SmallString<32> s; F->getValueAPF().toString(s);
    return ("f" + s).str();
  }
  if (C->isNullValue()) return "zero";
  APInt off(64, 0);
  const Value *V = C;
  if (isa<ConstantExpr>(C) && C->getType()->isPointerTy()) {
    V = C->stripAndAccumulateConstantOffsets(*DL, off, true);
    if (auto *G = dyn_cast<GlobalValue>(V)) {
      std::string s = "@" + G->getName().str();
      if (off != 0) s += "+" + std::to_string(off.getSExtValue());
      return s;
    }
  }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    if (CE->getOpcode() == Instruction::PtrToInt || CE->getOpcode() == Instruction::IntToPtr ||
        CE->getOpcode() == Instruction::BitCast)
      return constName(cast<Constant>(CE->getOperand(0)));
  }
  return "?const";
}

static std::string opnd(const Value *V, Namer &N) {
  auto it = N.ids.find(V);
  if (it != N.ids.end()) return (isa<Argument>(V) ? "a" : "%") + std::to_string(it->second);
  if (auto *C = dyn_cast<Constant>(V)) return constName(C);
  if (auto *B = dyn_cast<BasicBlock>(V)) return "b" + std::to_string(N.ids.lookup(B));
  if (isa<InlineAsm>(V)) return "?asm";
  return "?meta";
}

static json::Value locOf(const DILocation *L) {
  json::Array a;
  for (; L; L = L->getInlinedAt()) {
    auto *SP = L->getScope()->getSubprogram();
    a.push_back(json::Array{rel(pathOf(L->getFile())), (int64_t)L->getLine(),
                            SP ? SP->getName().str() : std::string("?")});
  }
  return a;
}

static json::Value dumpFn(Function &F, bool recursive, bool root) {
  Namer N;
  int k = 0;
  for (auto &A : F.args()) N.ids[&A] = k++;
  k = 0;
  for (auto &B : F) N.ids[&B] = k++;
  k = 0;
  for (auto &I : instructions(F)) N.ids[&I] = k++;
  json::Object o;
  auto *SP = F.getSubprogram();
  o["kind"] = "function";
  o["name"] = F.getName();
  o["src"] = SP ? SP->getName().str() : F.getName().str();
  o["file"] = SP ? rel(pathOf(SP->getFile())) : "";
  o["line"] = SP ? (int64_t)SP->getLine() : 0;
  o["recursive"] = recursive;
  o["root"] = root;
  json::Array args;
  for (auto &A : F.args()) {
    args.push_back(tyStr(A.getType()));
  }
  o["args"] = std::move(args);
  o["ret"] = tyStr(F.getReturnType());
  json::Array argnames;
  if (SP) {
    std::map<unsigned, std::string> m;
    for (auto *R : SP->getRetainedNodes())
      if (auto *DV = dyn_cast<DILocalVariable>(R)) if (DV->getArg()) m[DV->getArg()] = DV->getName().str();
    // type names of the parameters
    if (auto *T = SP->getType()) {
      json::Array tn;
      for (auto *Ty : T->getTypeArray()) {
        std::string s;
        const DIType *t = Ty; int depth = 0;
        while (t && depth < 8) {
          if (auto *D = dyn_cast<DIDerivedType>(t)) {
            if (D->getTag() == dwarf::DW_TAG_pointer_type) { s += "*"; t = D->getBaseType(); }
            else if (D->getTag() == dwarf::DW_TAG_typedef) { s = D->getName().str() + s; t = nullptr; }
            else t = D->getBaseType();
          } else { s = t->getName().str() + s; t = nullptr; }
          depth++;
        }
        tn.push_back(s);
      }
      o["ditypes"] = std::move(tn);
    }
  }
  json::Array blocks;
  for (auto &B : F) {
    json::Array ins;
    for (auto &I : B) {
      json::Object j;
      j["i"] = N.ids[&I];
      j["op"] = I.getOpcodeName();
      j["ty"] = tyStr(I.getType());
      if (auto &D = I.getDebugLoc()) j["loc"] = locOf(D.get());
      json::Array ops;
      if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        unsigned BW = 64;
        MapVector<Value *, APInt> var;
        APInt off(BW, 0);
        bool ok = G->collectOffset(*DL, BW, var, off);
        ops.push_back(opnd(G->getPointerOperand(), N));
        j["off"] = ok ? json::Value(off.getSExtValue()) : json::Value(nullptr);
        json::Array va;
        for (auto &p : var) va.push_back(json::Array{opnd(p.first, N), p.second.getSExtValue()});
        j["var"] = std::move(va);
        j["src"] = tyStr(G->getSourceElementType());
      } else if (auto *P = dyn_cast<PHINode>(&I)) {
        json::Array in;
        for (unsigned q = 0; q < P->getNumIncomingValues(); q++) {
          ops.push_back(opnd(P->getIncomingValue(q), N));
          in.push_back(N.ids[P->getIncomingBlock(q)]);
        }
        j["in"] = std::move(in);
      } else if (auto *C = dyn_cast<CallBase>(&I)) {
        for (auto &U : C->args()) ops.push_back(opnd(U.get(), N));
        Value *cv = C->getCalledOperand()->stripPointerCasts();
        j["callee"] = opnd(cv, N);
        json::Array at;
        for (unsigned q = 0; q < C->arg_size(); q++) at.push_back(tyStr(C->getArgOperand(q)->getType()));
        j["at"] = std::move(at);
        if (C->doesNotReturn()) j["noret"] = true;
      } else if (auto *C = dyn_cast<CmpInst>(&I)) {
        for (auto &U : I.operands()) ops.push_back(opnd(U.get(), N));
        j["pred"] = CmpInst::getPredicateName(C->getPredicate());
        j["oty"] = tyStr(C->getOperand(0)->getType());
      } else if (auto *A = dyn_cast<AllocaInst>(&I)) {
        j["aty"] = tyStr(A->getAllocatedType());
        j["name"] = A->getName();
        auto sz = A->getAllocationSize(*DL);
        if (sz) j["size"] = (int64_t)sz->getFixedValue();
      } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
        ops.push_back(opnd(S->getCondition(), N));
        json::Array cs;
        for (auto &c : S->cases()) cs.push_back(json::Array{opnd(c.getCaseValue(), N), N.ids[c.getCaseSuccessor()]});
        j["cases"] = std::move(cs);
        j["def"] = N.ids[S->getDefaultDest()];
      } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
        if (Br->isConditional()) ops.push_back(opnd(Br->getCondition(), N));
      } else {
        for (auto &U : I.operands()) ops.push_back(opnd(U.get(), N));
        if (auto *St = dyn_cast<StoreInst>(&I)) j["sty"] = tyStr(St->getValueOperand()->getType());
        if (isa<CastInst>(&I)) j["oty"] = tyStr(I.getOperand(0)->getType());
        if (auto *O = dyn_cast<OverflowingBinaryOperator>(&I)) {
          if (O->hasNoSignedWrap()) j["nsw"] = true;
        }
      }
      j["ops"] = std::move(ops);
      if (I.isTerminator()) {
        json::Array s;
        for (unsigned q = 0; q < I.getNumSuccessors(); q++) s.push_back(N.ids[I.getSuccessor(q)]);
        j["succ"] = std::move(s);
      }
      if (!I.getName().empty()) j["n"] = I.getName();
      ins.push_back(std::move(j));
    }
    blocks.push_back(std::move(ins));
  }
  o["blocks"] = std::move(blocks);
  return o;
}

static json::Value dumpInit(const Constant *C, int depth) {
  if (depth > 6) return "?deep";
  if (auto *CDS = dyn_cast<ConstantDataSequential>(C)) {
    if (CDS->isString()) {
      std::string s = CDS->getAsString().str();
      while (!s.empty() && s.back() == 0) s.pop_back();
      return json::Object{{"s", json::fixUTF8(s)}};
    }
    json::Array a;
    for (unsigned i = 0; i < CDS->getNumElements() && i < 4096; i++) a.push_back(constName(CDS->getElementAsConstant(i)));
    return a;
  }
  if (isa<ConstantAggregate>(C)) {
    json::Array a;
    for (auto &U : C->operands()) a.push_back(dumpInit(cast<Constant>(U.get()), depth + 1));
    return a;
  }
  if (isa<ConstantAggregateZero>(C)) return "zero";
  return constName(C);
}

// a struct returned in registers is loaded whole and taken apart: load its fields separately instead
static void splitAggregateLoads(Function &F) {
  std::vector<LoadInst *> todo;
  for (auto &I : instructions(F))
    if (auto *L = dyn_cast<LoadInst>(&I))
      if (L->getType()->isStructTy()) {
        bool ok = !L->use_empty();
        for (auto *U : L->users()) { auto *E = dyn_cast<ExtractValueInst>(U); ok &= E && E->getNumIndices() == 1; }
        if (ok) todo.push_back(L);
      }
  for (auto *L : todo) {
    std::vector<User *> us(L->user_begin(), L->user_end());
    std::map<unsigned, Value *> field;
    for (auto *U : us) {
      auto *E = cast<ExtractValueInst>(U);
      unsigned k = E->getIndices()[0];
      if (!field.count(k)) {
        Type *I32 = Type::getInt32Ty(F.getContext());
        Value *idx[] = {ConstantInt::get(I32, 0), ConstantInt::get(I32, k)};
        auto *G = GetElementPtrInst::CreateInBounds(L->getType(), L->getPointerOperand(), idx, "", L);
        G->setDebugLoc(L->getDebugLoc());
        auto *N = new LoadInst(E->getType(), G, "", L);
        N->setDebugLoc(L->getDebugLoc());
        field[k] = N;
      }
      E->replaceAllUsesWith(field[k]);
      E->eraseFromParent();
    }
    L->eraseFromParent();
  }
}

int main(int argc, char **argv) {
  if (argc < 4) { errs() << "usage\n"; return 2; }
  Root = argv[1];
  if (Root.back() != '/') Root += '/';
  LLVMContext Ctx;
  auto M = std::make_unique<Module>("teds", Ctx);
  Linker L(*M);
  std::set<std::string> addrTakenNames;
  for (int i = 3; i < argc; i++) {
    SMDiagnostic E;
    auto m = parseIRFile(argv[i], E, Ctx);
    if (!m) { E.print(argv[0], errs()); return 2; }
    if (i == 3) { M->setDataLayout(m->getDataLayout()); M->setTargetTriple(m->getTargetTriple()); }
    // PHP inlines become declarations before linking, so that copies coincide.
    for (auto &F : *m) {
      if (F.isDeclaration()) continue;
      if (!inRepo(F) && !Transparent.count(F.getName().str())) {
        F.deleteBody();
        F.setLinkage(GlobalValue::ExternalLinkage);
        F.setComdat(nullptr);
      }
    }
    if (L.linkInModule(std::move(m))) { errs() << "link failed\n"; return 2; }
  }
  DL = &M->getDataLayout();
  // strip assume/lifetime/expect, dbg.*
  for (auto &F : *M) {
    F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::NoInline);
    F.removeFnAttr(Attribute::AlwaysInline);
    std::vector<Instruction *> kill, dead;
    for (auto &I : instructions(F)) {
      if (auto *II = dyn_cast<IntrinsicInst>(&I)) {
        switch (II->getIntrinsicID()) {
        case Intrinsic::assume:
          if (auto *CI = dyn_cast<ConstantInt>(II->getArgOperand(0))) if (CI->isZero()) dead.push_back(II);
          kill.push_back(II); break;
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::prefetch:
          kill.push_back(II); break;
        case Intrinsic::expect: case Intrinsic::expect_with_probability:
          II->replaceAllUsesWith(II->getArgOperand(0)); kill.push_back(II); break;
        default: break;
        }
      }
    }
    for (auto *I : dead) new UnreachableInst(M->getContext(), I); // ZEND_UNREACHABLE()
    for (auto *I : kill) I->eraseFromParent();
    for (auto &B : F) // cut the blocks after an unreachable
      for (auto &I : B) if (isa<UnreachableInst>(I) && &I != B.getTerminator()) { changeToUnreachable(&I); break; }
  }
  // recursion
  std::set<Function *> rec;
  {
    CallGraph CG(*M);
    for (auto I = scc_begin(&CG); !I.isAtEnd(); ++I) {
      bool self = I.hasCycle();
      if (self) for (auto *n : *I) if (n->getFunction()) rec.insert(n->getFunction());
    }
  }
  std::error_code EC;
  raw_fd_ostream out(argv[2], EC);
  if (EC) { errs() << EC.message(); return 2; }

  // type layouts from debug info
  {
    DebugInfoFinder Fi; Fi.processModule(*M);
    std::set<std::string> seen;
    auto tn = [](const DIType *t) {
      std::string suf; int d = 0;
      while (t && d < 10) {
        if (auto *D = dyn_cast<DIDerivedType>(t)) {
          if (D->getTag() == dwarf::DW_TAG_pointer_type) suf += "*";
          else if (D->getTag() == dwarf::DW_TAG_typedef) return D->getName().str() + suf;
          t = D->getBaseType();
        } else return t->getName().str() + suf;
        d++;
      }
      return std::string("void") + suf;
    };
    std::map<std::string, std::string> tdefs;
    for (auto *T : Fi.types())
      if (auto *D = dyn_cast<DIDerivedType>(T)) if (D->getTag() == dwarf::DW_TAG_typedef) {
        std::string n = D->getName().str();
        std::string b = D->getBaseType() ? tn(D->getBaseType()) : "void";
        tdefs[n] = b;
      }
    json::Object td;
    for (auto &p : tdefs) td[p.first] = p.second;
    out << json::Value(json::Object{{"kind", "typedefs"}, {"map", std::move(td)}}) << "\n";
    for (auto *T : Fi.types()) {
      auto *C = dyn_cast<DICompositeType>(T);
      if (!C) continue;
      if (C->getTag() == dwarf::DW_TAG_enumeration_type) {
        json::Array en;
        for (auto *E : C->getElements()) if (auto *X = dyn_cast<DIEnumerator>(E)) en.push_back(json::Array{X->getName().str(), X->getValue().getSExtValue()});
        out << json::Value(json::Object{{"kind", "enum"}, {"name", C->getName().str()}, {"v", std::move(en)}}) << "\n";
        continue;
      }
      std::string n = C->getName().str();
      if (n.empty() || C->getElements().empty()) continue;
      if (!seen.insert(n).second) continue;
      json::Array fs;
      std::function<void(const DICompositeType *, uint64_t, std::string)> rec2 = [&](const DICompositeType *c, uint64_t base, std::string pre) {
        for (auto *E : c->getElements()) {
          auto *D = dyn_cast<DIDerivedType>(E);
          if (!D || D->getTag() != dwarf::DW_TAG_member) continue;
          uint64_t o = base + D->getOffsetInBits();
          const DIType *bt = D->getBaseType();
          const DIType *st = bt;
          while (auto *q = dyn_cast_or_null<DIDerivedType>(st)) { if (q->getTag() == dwarf::DW_TAG_pointer_type) break; st = q->getBaseType(); }
          std::string nm = pre + D->getName().str();
          auto *cc = dyn_cast_or_null<DICompositeType>(st);
          if (cc && (cc->getTag() == dwarf::DW_TAG_structure_type || cc->getTag() == dwarf::DW_TAG_union_type)) {
            fs.push_back(json::Array{nm, (int64_t)(o / 8), (int64_t)(D->getSizeInBits() / 8), tn(bt), "agg"});
            rec2(cc, o, D->getName().empty() ? pre : nm + ".");
          } else
            fs.push_back(json::Array{nm, (int64_t)(o / 8), (int64_t)(D->getSizeInBits() / 8), tn(bt), cc ? "array" : ""});
        }
      };
      rec2(C, 0, "");
      out << json::Value(json::Object{{"kind", "struct"}, {"name", n}, {"size", (int64_t)C->getSizeInBits() / 8},
                                      {"file", rel(pathOf(C->getFile()))},
                                      {"union", C->getTag() == dwarf::DW_TAG_union_type}, {"fields", std::move(fs)}}) << "\n";
    }
  }
  // roots: functions whose address is taken, or externally visible and never called directly
  std::set<Function *> roots;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    const User *u = nullptr;
    bool called = false;
    for (auto *U : F.users()) if (auto *CB = dyn_cast<CallBase>(U)) if (CB->getCalledOperand() == &F) called = true;
    if (F.hasAddressTaken(&u) || (!called && !F.hasLocalLinkage())) roots.insert(&F);
  }
  // call graph (before flattening)
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    std::set<std::string> cs; bool ind = false;
    for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) {
      auto *t = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts());
      if (t) { if (!t->isIntrinsic()) cs.insert(t->getName().str()); } else ind = true;
    }
    json::Array a; for (auto &s : cs) a.push_back(s);
    auto *SP = F.getSubprogram();
    out << json::Value(json::Object{{"kind", "cg"}, {"name", F.getName()}, {"src", SP ? SP->getName().str() : ""}, {"file", SP ? rel(pathOf(SP->getFile())) : ""},
      {"line", SP ? (int64_t)SP->getLine() : 0}, {"calls", std::move(a)}, {"indirect", ind}, {"root", roots.count(&F) > 0}, {"rec", rec.count(&F) > 0}}) << "\n";
  }
  // globals
  for (auto &G : M->globals()) {
    json::Object o{{"kind", "global"}, {"name", G.getName()}, {"const", G.isConstant()}, {"local", G.hasLocalLinkage()}, {"decl", G.isDeclaration()}, {"ty", tyStr(G.getValueType())}};
    SmallVector<DIGlobalVariableExpression *, 1> ge; G.getDebugInfo(ge);
    if (!ge.empty()) { o["file"] = rel(pathOf(ge[0]->getVariable()->getFile())); o["line"] = (int64_t)ge[0]->getVariable()->getLine(); o["dname"] = ge[0]->getVariable()->getName(); }
    if (G.hasInitializer()) o["init"] = dumpInit(G.getInitializer(), 0);
    out << json::Value(std::move(o)) << "\n";
  }
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    if (rec.count(&F) || KeepCall.count(F.getName().str())) F.addFnAttr(Attribute::NoInline);
    else F.addFnAttr(Attribute::AlwaysInline);
  }
  PassBuilder PB;
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  {
    ModulePassManager MPM;
    MPM.addPass(createModuleToFunctionPassAdaptor(PromotePass()));
    MPM.addPass(AlwaysInlinerPass(false));
    MPM.run(*M, MAM);
  }
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    if (!roots.count(&F) && !rec.count(&F)) continue;
    for (int round = 0; round < 3; round++) {
      splitAggregateLoads(F);
      FunctionPassManager FPM;
      FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
      FPM.addPass(SCCPPass());
      if (round == 0) { FPM.addPass(LowerConstantIntrinsicsPass()); FPM.addPass(SCCPPass()); }
      FPM.addPass(JumpThreadingPass());
      FPM.addPass(DCEPass());
      FPM.run(F, FAM);
      FAM.invalidate(F, PreservedAnalyses::none());
      bool ch = false;
      for (auto &B : F) ch |= ConstantFoldTerminator(&B, true);
      ch |= removeUnreachableBlocks(F);
      FAM.invalidate(F, PreservedAnalyses::none());
    }
    out << dumpFn(F, rec.count(&F) > 0, roots.count(&F) > 0) << "\n";
  }
  return 0;
}
