// irdump: loads one LLVM module (bitcode), normalises it and writes it as JSON lines.
//   irdump IN.bc OUT.json [--keep=FILE] [--noreturn=FILE] [--noinline-all]
// Normalisation: calls of functions in the noreturn list end their block; every
// function defined in the module that is not named in the keep file is inlined
// into its callers; memory is promoted to SSA; constants are propagated.
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Transforms/Utils/Local.h"
#include <fstream>
#include <set>
#include <map>
using namespace llvm;

static std::string tyStr(Type *T) {
  if (auto *S = dyn_cast<StructType>(T)) {
    if (S->hasName()) return "%" + S->getName().str();
    std::string r = "{"; for (Type *E : S->elements()) r += tyStr(E) + ","; return r + "}";
  }
  if (auto *A = dyn_cast<ArrayType>(T))
    return "[" + std::to_string(A->getNumElements()) + "x" + tyStr(A->getElementType()) + "]";
  std::string s; raw_string_ostream o(s); T->print(o, false, true); return o.str();
}
static std::string diTy(const DIType *T, int depth = 0) {
  if (!T) return "void";
  if (depth > 8) return "?";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
    case dwarf::DW_TAG_pointer_type: return diTy(D->getBaseType(), depth + 1) + "*";
    case dwarf::DW_TAG_reference_type: return diTy(D->getBaseType(), depth + 1) + "&";
    case dwarf::DW_TAG_const_type: case dwarf::DW_TAG_volatile_type:
    case dwarf::DW_TAG_restrict_type: return diTy(D->getBaseType(), depth + 1);
    case dwarf::DW_TAG_typedef: return D->getName().str();
    default: return D->getName().str();
    }
  }
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    if (C->getTag() == dwarf::DW_TAG_array_type) return diTy(C->getBaseType(), depth + 1) + "[]";
    return C->getName().str();
  }
  if (isa<DISubroutineType>(T)) return "fn";
  return T->getName().str();
}

struct Dumper {
  Module &M; const DataLayout &DL; json::OStream &J;
  std::map<const Value *, int> ids;
  std::map<const BasicBlock *, int> bids;
  Dumper(Module &M, json::OStream &J) : M(M), DL(M.getDataLayout()), J(J) {}

  void gepPath(const GEPOperator *G) {
    J.array([&] {
      bool first = true;
      for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
        const Value *Ix = it.getOperand();
        if (StructType *S = it.getStructTypeOrNull()) {
          J.array([&] { J.value("f"); J.value(tyStr(S)); J.value((int64_t)cast<ConstantInt>(Ix)->getZExtValue()); });
        } else {
          auto *CI = dyn_cast<ConstantInt>(Ix);
          if (first && CI && CI->isZero()) { first = false; continue; }
          J.array([&] { J.value(first ? "*" : "[]"); op(Ix); });
        }
        first = false;
      }
    });
  }
  void op(const Value *V, int depth = 0) {
    auto it = ids.find(V);
    if (it != ids.end()) { J.value(it->second); return; }
    if (auto *A = dyn_cast<Argument>(V)) { J.value("a" + std::to_string(A->getArgNo())); return; }
    if (auto *G = dyn_cast<GlobalValue>(V)) { J.value("g:" + G->getName().str()); return; }
    if (auto *C = dyn_cast<ConstantInt>(V)) {
      if (C->getBitWidth() <= 64) J.value("c:" + std::to_string(C->getSExtValue())); else J.value("c:big");
      return; }
    if (auto *C = dyn_cast<ConstantFP>(V)) {
      SmallString<32> s; C->getValueAPF().toString(s); J.value("f:" + s.str().str()); return; }
    if (isa<ConstantPointerNull>(V)) { J.value("n"); return; }
    if (isa<UndefValue>(V)) { J.value("u"); return; }
    if (isa<ConstantAggregateZero>(V)) { J.value("z"); return; }
    if (auto *E = dyn_cast<ConstantExpr>(V)) {
      if (depth > 6) { J.value("?"); return; }
      J.array([&] {
        J.value("x"); J.value(E->getOpcodeName());
        if (auto *G = dyn_cast<GEPOperator>(E)) {
          op(G->getPointerOperand(), depth + 1); J.value(tyStr(G->getSourceElementType())); gepPath(G);
        } else for (const Use &U : E->operands()) op(U.get(), depth + 1);
      });
      return;
    }
    if (auto *B = dyn_cast<BasicBlock>(V)) { J.value("b" + std::to_string(bids[B])); return; }
    if (isa<InlineAsm>(V)) { J.value("asm"); return; }
    if (isa<MetadataAsValue>(V)) { J.value("md"); return; }
    J.value("?");
  }
  void init(const Constant *C, int depth = 0) {
    if (auto *A = dyn_cast<ConstantDataArray>(C)) {
      if (A->isString()) { J.value("s:" + json::fixUTF8(A->isCString() ? A->getAsCString() : A->getAsString())); return; }
      J.array([&] { for (unsigned i = 0; i < A->getNumElements() && i < 4096; i++) init(A->getElementAsConstant(i), depth + 1); });
      return;
    }
    if (isa<ConstantArray>(C) || isa<ConstantStruct>(C)) {
      if (depth > 6) { J.value("?"); return; }
      J.array([&] { unsigned n = 0; for (const Use &U : C->operands()) { if (++n > 4096) break; init(cast<Constant>(U.get()), depth + 1); } });
      return;
    }
    op(C);
  }
  void inst(const Instruction &I, const Function &F) {
    J.array([&] {
      J.value(ids[&I]); J.value(I.getOpcodeName()); J.value(tyStr(I.getType()));
      J.array([&] {
        if (auto *CB = dyn_cast<CallBase>(&I)) { for (const Use &U : CB->args()) op(U.get()); }
        else if (auto *P = dyn_cast<PHINode>(&I)) { for (const Use &U : P->incoming_values()) op(U.get()); }
        else if (auto *B = dyn_cast<BranchInst>(&I)) { if (B->isConditional()) op(B->getCondition()); }
        else if (auto *S = dyn_cast<SwitchInst>(&I)) op(S->getCondition());
        else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) op(G->getPointerOperand());
        else for (const Use &U : I.operands()) op(U.get());
      });
      int line = 0; std::string sc;
      if (const DILocation *L = I.getDebugLoc().get()) {
        line = L->getLine();
        if (L->getInlinedAt()) { if (auto *S = L->getScope()->getSubprogram()) sc = S->getName().str(); }
      }
      J.value(line);
      J.object([&] {
        if (!sc.empty()) {
          J.attribute("in", sc);
          const DILocation *L = I.getDebugLoc().get(); while (L->getInlinedAt()) L = L->getInlinedAt();
          J.attribute("at", (int64_t)L->getLine());
        }
        if (I.hasName()) J.attribute("n", I.getName());
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          const Value *C = CB->getCalledOperand()->stripPointerCasts();
          if (auto *GV = dyn_cast<GlobalValue>(C)) J.attribute("c", GV->getName());
          else { J.attributeBegin("ic"); op(C); J.attributeEnd(); }
          if (auto *IV = dyn_cast<InvokeInst>(CB)) {
            J.attributeArray("t", [&] { J.value(bids[IV->getNormalDest()]); J.value(bids[IV->getUnwindDest()]); });
          }
        } else if (auto *C = dyn_cast<CmpInst>(&I)) {
          J.attribute("p", CmpInst::getPredicateName(C->getPredicate()));
          J.attribute("ty", tyStr(C->getOperand(0)->getType()));
        }
        else if (auto *B = dyn_cast<BranchInst>(&I)) {
          J.attributeArray("t", [&] { for (unsigned i = 0; i < B->getNumSuccessors(); i++) J.value(bids[B->getSuccessor(i)]); });
        } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
          J.attribute("d", bids[S->getDefaultDest()]);
          J.attributeArray("cs", [&] { for (auto &K : S->cases()) J.array([&] { J.value(K.getCaseValue()->getSExtValue()); J.value(bids[K.getCaseSuccessor()]); }); });
        } else if (auto *P = dyn_cast<PHINode>(&I)) {
          J.attributeArray("bs", [&] { for (unsigned i = 0; i < P->getNumIncomingValues(); i++) J.value(bids[P->getIncomingBlock(i)]); });
        } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          J.attribute("st", tyStr(G->getSourceElementType()));
          J.attributeBegin("gp"); gepPath(cast<GEPOperator>(G)); J.attributeEnd();
        } else if (auto *A = dyn_cast<AllocaInst>(&I)) J.attribute("at_", tyStr(A->getAllocatedType()));
        else if (auto *St = dyn_cast<StoreInst>(&I)) {
          J.attribute("vt", tyStr(St->getValueOperand()->getType()));
          if (St->isVolatile()) J.attribute("v", 1);
        } else if (auto *Ld = dyn_cast<LoadInst>(&I)) { if (Ld->isVolatile()) J.attribute("v", 1); }
        else if (auto *C = dyn_cast<CastInst>(&I)) J.attribute("ft", tyStr(C->getSrcTy()));
        else if (auto *EV = dyn_cast<ExtractValueInst>(&I)) J.attributeArray("ix", [&] { for (unsigned x : EV->indices()) J.value((int64_t)x); });
        else if (auto *IV = dyn_cast<InsertValueInst>(&I)) J.attributeArray("ix", [&] { for (unsigned x : IV->indices()) J.value((int64_t)x); });
      });
    });
  }
  void run() {
    J.object([&] {
      J.attribute("source", M.getSourceFileName());
      // structs
      DebugInfoFinder DF; DF.processModule(M);
      std::map<std::string, const DICompositeType *> byName;
      for (const DIType *T : DF.types()) {
        if (auto *C = dyn_cast<DICompositeType>(T)) { if (!C->getName().empty() && C->getElements().size()) byName[C->getName().str()] = C; }
        else if (auto *D = dyn_cast<DIDerivedType>(T)) if (D->getTag() == dwarf::DW_TAG_typedef)
          if (auto *C = dyn_cast_or_null<DICompositeType>(D->getBaseType())) if (C->getName().empty()) byName[D->getName().str()] = C;
      }
      // function-local typedefs reached through variables
      J.attributeObject("enums", [&] {
        std::set<std::string> seen;
        auto emit = [&](const DICompositeType *C, StringRef nm) {
          if (!C || C->getTag() != dwarf::DW_TAG_enumeration_type) return;
          std::string n = nm.empty() ? std::string("anon") : nm.str();
          while (!seen.insert(n).second) n += "'";
          J.attributeObject(n, [&] { for (auto *E : C->getElements()) if (auto *N = dyn_cast<DIEnumerator>(E)) J.attribute(N->getName(), N->getValue().getSExtValue()); });
        };
        std::set<const void *> done;
        for (const DIType *T : DF.types()) {
          if (auto *D = dyn_cast<DIDerivedType>(T)) { if (D->getTag() == dwarf::DW_TAG_typedef) if (auto *C = dyn_cast_or_null<DICompositeType>(D->getBaseType())) if (done.insert(C).second) emit(C, D->getName()); }
        }
        for (DICompileUnit *CU : M.debug_compile_units()) for (auto *E : CU->getEnumTypes()) if (done.insert(E).second) emit(E, E->getName());
      });
      J.attributeObject("structs", [&] {
        for (StructType *S : M.getIdentifiedStructTypes()) {
          if (S->isOpaque()) continue;
          std::string n = S->getName().str();
          std::string base = n;
          for (const char *p : {"struct.", "union.", "class."}) if (base.rfind(p, 0) == 0) base = base.substr(strlen(p));
          const DICompositeType *C = byName.count(base) ? byName[base] : nullptr;
          if (!C) { size_t k = base.rfind('.'); if (k != std::string::npos && byName.count(base.substr(0, k))) C = byName[base.substr(0, k)]; }
          const StructLayout *SL = DL.getStructLayout(S);
          J.attributeObject("%" + n, [&] {
            J.attribute("size", (int64_t)SL->getSizeInBytes());
            J.attributeArray("fields", [&] {
              for (unsigned i = 0; i < S->getNumElements(); i++) {
                uint64_t off = SL->getElementOffset(i);
                std::string nm, dt;
                if (C) for (auto *E : C->getElements()) if (auto *D = dyn_cast<DIDerivedType>(E))
                  if (D->getTag() == dwarf::DW_TAG_member && D->getOffsetInBits() == off * 8) { nm = D->getName().str(); dt = diTy(D->getBaseType()); break; }
                J.array([&] { J.value(nm); J.value((int64_t)off); J.value(tyStr(S->getElementType(i))); J.value(dt); });
              }
            });
          });
        }
      });
      J.attributeArray("aliases", [&] {
        for (GlobalAlias &A : M.aliases()) J.array([&] { J.value(A.getName()); if (auto *G = dyn_cast<GlobalValue>(A.getAliasee()->stripPointerCasts())) J.value(G->getName()); else J.value("?"); });
      });
      J.attributeObject("globals", [&] {
        for (GlobalVariable &G : M.globals()) {
          if (G.getName().starts_with("llvm.")) continue;
          J.attributeObject(G.getName(), [&] {
            J.attribute("ty", tyStr(G.getValueType())); J.attribute("const", G.isConstant());
            J.attribute("int", G.hasInternalLinkage() || G.hasPrivateLinkage());
            if (G.hasInitializer()) { J.attributeBegin("init"); init(G.getInitializer()); J.attributeEnd(); }
          });
        }
      });
      J.attributeArray("functions", [&] {
        for (Function &F : M) {
          if (F.isDeclaration()) continue;
          ids.clear(); bids.clear();
          int n = 0, b = 0;
          for (BasicBlock &B : F) { bids[&B] = b++; for (Instruction &I : B) if (!isa<DbgInfoIntrinsic>(I)) ids[&I] = n++; }
          J.object([&] {
            J.attribute("name", F.getName()); J.attribute("int", F.hasInternalLinkage());
            J.attribute("weak", F.isWeakForLinker());
            J.attribute("kept", !F.hasFnAttribute(Attribute::AlwaysInline));
            J.attribute("ret", tyStr(F.getReturnType()));
            J.attribute("va", F.isVarArg());
            if (auto *SP = F.getSubprogram()) {
              J.attribute("line", (int64_t)SP->getLine());
              J.attribute("src", SP->getName());
              J.attribute("lname", SP->getLinkageName());
              J.attribute("file", SP->getFilename());
              if (auto *ST = SP->getType()) J.attributeArray("dty", [&] { for (auto *T : ST->getTypeArray()) J.value(diTy(T)); });
            }
            J.attributeArray("args", [&] { for (Argument &A : F.args()) J.array([&] { J.value(A.getName()); J.value(tyStr(A.getType())); J.value(A.hasByValAttr() ? 1 : 0); }); });
            J.attributeArray("blocks", [&] {
              for (BasicBlock &B : F) J.array([&] { for (Instruction &I : B) if (!isa<DbgInfoIntrinsic>(I)) inst(I, F); });
            });
          });
        }
      });
    });
  }
};

static std::set<std::string> readSet(StringRef f) {
  std::set<std::string> r; std::ifstream in(f.str()); std::string s;
  while (in >> s) r.insert(s);
  return r;
}

int main(int argc, char **argv) {
  LLVMContext C; SMDiagnostic E;
  std::set<std::string> keep, noret; bool inlineAll = true;
  StringRef in, out;
  for (int i = 1; i < argc; i++) {
    StringRef a = argv[i];
    if (a.consume_front("--keep=")) keep = readSet(a);
    else if (a.consume_front("--noreturn=")) noret = readSet(a);
    else if (a == "--no-inline") inlineAll = false;
    else if (in.empty()) in = a; else out = a;
  }
  auto M = parseIRFile(in, E, C);
  if (!M) { E.print("irdump", errs()); return 2; }
  for (Function &F : *M) {
    F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::AlwaysInline);
    std::vector<Instruction *> drop, cut;
    for (Instruction &I : instructions(F)) {
      if (auto *II = dyn_cast<IntrinsicInst>(&I)) {
        if (II->getIntrinsicID() == Intrinsic::lifetime_start || II->getIntrinsicID() == Intrinsic::lifetime_end) drop.push_back(II);
      } else if (auto *CB = dyn_cast<CallInst>(&I)) {
        if (CB->isMustTailCall()) continue;
        if (auto *G = dyn_cast<GlobalValue>(CB->getCalledOperand()->stripPointerCasts()))
          if (noret.count(G->getName().str())) cut.push_back(CB);
      }
    }
    for (auto *I : drop) I->eraseFromParent();
    std::set<BasicBlock *> done;
    for (auto *I : cut) {
      // several in one block: the first wins (instructions are visited in order)
      if (done.count(I->getParent())) continue;
      done.insert(I->getParent());
      changeToUnreachable(I->getNextNode());
    }
  }
  if (inlineAll) for (Function &F : *M) {
    if (F.isDeclaration() || F.isVarArg()) continue;
    if (noret.count(F.getName().str())) continue;
    if (!keep.count(F.getName().str())) F.addFnAttr(Attribute::AlwaysInline);
  }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  std::string pipe = inlineAll ? "function(sroa),always-inline,function(sroa,sccp,sroa),globaldce" : "function(sroa,sccp,sroa)";
  if (Error Er = PB.parsePassPipeline(MPM, pipe)) { errs() << toString(std::move(Er)) << "\n"; return 2; }
  MPM.run(*M, MAM);
  // drop unreachable blocks
  for (Function &F : *M) if (!F.isDeclaration()) removeUnreachableBlocks(F);
  std::error_code EC; raw_fd_ostream os(out, EC);
  if (EC) { errs() << EC.message() << "\n"; return 2; }
  json::OStream J(os); Dumper(*M, J).run();
  os << "\n";
  return 0;
}
