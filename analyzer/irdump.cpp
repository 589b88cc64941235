// irdump: loads LLVM IR (text or bitcode), runs mem2reg + loop-simplify, and writes the
// resulting SSA form as JSON (functions, instructions, loops, globals, struct layouts).
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/ADT/MapVector.h"
using namespace llvm;

static std::string tyStr(Type *T) { std::string s; raw_string_ostream o(s); T->print(o); return o.str(); }

struct Dumper {
  Module &M; const DataLayout &DL;
  DenseMap<const Value *, std::string> names;
  Dumper(Module &m) : M(m), DL(m.getDataLayout()) {}

  json::Value operand(const Value *V) {
    auto it = names.find(V);
    if (it != names.end()) return it->second;
    if (auto *C = dyn_cast<Constant>(V)) return constant(C);
    if (auto *BB = dyn_cast<BasicBlock>(V)) return names[BB];
    return json::Object{{"x", tyStr(V->getType())}};
  }
  json::Value constant(const Constant *C) {
    if (auto *CI = dyn_cast<ConstantInt>(C)) {
      if (CI->getBitWidth() <= 64) return json::Object{{"c", CI->getBitWidth()==1 ? (int64_t)CI->getZExtValue() : CI->getSExtValue()}, {"t", tyStr(C->getType())}};
      return json::Object{{"x", "wideint"}};
    }
    if (auto *CF = dyn_cast<ConstantFP>(C)) {
      APFloat F = CF->getValueAPF(); bool li;
      F.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
      uint64_t bits = F.bitcastToAPInt().getZExtValue();
      return json::Object{{"f", std::to_string(bits)}};
    }
    if (isa<ConstantPointerNull>(C)) return json::Object{{"n", 1}};
    if (isa<PoisonValue>(C) || isa<UndefValue>(C)) return json::Object{{"u", tyStr(C->getType())}};
    if (auto *F = dyn_cast<Function>(C)) return json::Object{{"fn", F->getName().str()}};
    if (auto *A = dyn_cast<GlobalAlias>(C)) return json::Object{{"fn", A->getName().str()}};
    if (auto *G = dyn_cast<GlobalVariable>(C)) return json::Object{{"g", G->getName().str()}, {"o", 0}};
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
      if (auto *GEP = dyn_cast<GEPOperator>(CE)) {
        APInt off(64, 0);
        if (GEP->accumulateConstantOffset(DL, off)) {
          const Value *B = GEP->getPointerOperand();
          if (auto *G = dyn_cast<GlobalVariable>(B)) return json::Object{{"g", G->getName().str()}, {"o", off.getSExtValue()}};
          if (isa<ConstantPointerNull>(B)) return json::Object{{"c", off.getSExtValue()}, {"t","ptr"}};
        }
      }
      if (CE->getOpcode() == Instruction::IntToPtr) if (auto *CI = dyn_cast<ConstantInt>(CE->getOperand(0))) {
        if (CI->isZero()) return json::Object{{"n", 1}};
        return json::Object{{"c", CI->getSExtValue()}, {"t", "ptr"}};
      }
      if (CE->isCast()) return constant(CE->getOperand(0));
    }
    if (isa<ConstantAggregateZero>(C)) return json::Object{{"z", tyStr(C->getType())}};
    if (auto *CA = dyn_cast<ConstantDataSequential>(C)) {
      if (CA->isString()) return json::Object{{"s", CA->getAsString().str()}};
      json::Array a; for (unsigned i = 0; i < CA->getNumElements() && i < 64; i++) a.push_back(constant(CA->getElementAsConstant(i)));
      return json::Object{{"arr", std::move(a)}};
    }
    if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
      json::Array a; for (unsigned i = 0; i < CA->getNumOperands() && i < 64; i++) a.push_back(constant(cast<Constant>(CA->getOperand(i))));
      json::Array offs;
      if (auto *ST = dyn_cast<StructType>(CA->getType())) { auto *SL = DL.getStructLayout(ST); for (unsigned i = 0; i < ST->getNumElements(); i++) offs.push_back((int64_t)SL->getElementOffset(i)); }
      json::Object o{{"arr", std::move(a)}}; if (!offs.empty()) o["offs"] = std::move(offs);
      return o;
    }
    return json::Object{{"x", tyStr(C->getType())}};
  }
  json::Value typeInfo(Type *T) {
    json::Object o{{"t", tyStr(T)}};
    if (T->isSized()) o["size"] = (int64_t)DL.getTypeAllocSize(T).getFixedValue();
    return o;
  }
  json::Object function(Function &F) {
    json::Object o{{"name", F.getName().str()}, {"decl", F.isDeclaration()}, {"internal", F.hasLocalLinkage()}, {"ret", tyStr(F.getReturnType())}, {"vararg", F.isVarArg()}};
    if (auto *SP = F.getSubprogram()) { o["file"] = SP->getFilename().str(); o["line"] = (int64_t)SP->getLine(); }
    json::Array args; unsigned n = 0; names.clear();
    std::map<unsigned, std::string> argNames;
    if (auto *SP = F.getSubprogram()) for (auto *N : SP->getRetainedNodes()) if (auto *LV = dyn_cast<DILocalVariable>(N)) if (LV->getArg()) argNames[LV->getArg() - 1] = LV->getName().str();
    for (auto &BB : F) for (auto &I : BB) if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) if (D->getVariable()->getArg() && !D->getDebugLoc().getInlinedAt()) argNames[D->getVariable()->getArg() - 1] = D->getVariable()->getName().str();
    for (auto &A : F.args()) { std::string id = "%a" + std::to_string(n); names[&A] = id;
      std::string an = argNames.count(n) ? argNames[n] : A.getName().str();
      args.push_back(json::Object{{"id", id}, {"ty", tyStr(A.getType())}, {"name", an}}); n++; }
    o["args"] = std::move(args);
    if (F.isDeclaration()) return o;
    unsigned b = 0, v = 0;
    for (auto &BB : F) { names[&BB] = "b" + std::to_string(b++); for (auto &I : BB) if (!I.getType()->isVoidTy()) names[&I] = "%" + std::to_string(v++); }
    json::Array blocks;
    for (auto &BB : F) {
      json::Array ins;
      for (auto &I : BB) {
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        if (auto *II = dyn_cast<IntrinsicInst>(&I)) if (II->isLifetimeStartOrEnd()) continue;
        json::Object j{{"op", I.getOpcodeName()}, {"ty", tyStr(I.getType())}};
        if (!I.getType()->isVoidTy()) j["id"] = names[&I];
        if (auto &L = I.getDebugLoc()) { j["line"] = (int64_t)L.getLine(); if (auto *S = L->getScope()) { std::string f = S->getFilename().str(); j["file"] = f; } }
        if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          MapVector<Value *, APInt> vars; APInt off(64, 0);
          bool ok = G->collectOffset(DL, 64, vars, off);
          j["base"] = operand(G->getPointerOperand()); j["off"] = off.getSExtValue(); j["ok"] = ok;
          json::Array va; for (auto &kv : vars) va.push_back(json::Array{operand(kv.first), kv.second.getSExtValue()});
          j["vars"] = std::move(va); j["src"] = tyStr(G->getSourceElementType());
          // struct member path hint
          j["nidx"] = (int64_t)G->getNumIndices();
        } else if (auto *P = dyn_cast<PHINode>(&I)) {
          json::Array inc; for (unsigned i = 0; i < P->getNumIncomingValues(); i++) inc.push_back(json::Array{operand(P->getIncomingValue(i)), names[P->getIncomingBlock(i)]});
          j["inc"] = std::move(inc);
        } else if (auto *C = dyn_cast<CallBase>(&I)) {
          json::Array a; for (auto &U : C->args()) a.push_back(operand(U.get()));
          j["args"] = std::move(a);
          if (C->isInlineAsm()) j["callee"] = json::Object{{"asm", 1}};
          else j["callee"] = operand(C->getCalledOperand()->stripPointerCasts());
          json::Array at; for (auto &U : C->args()) at.push_back(tyStr(U->getType())); j["aty"] = std::move(at);
        } else if (auto *A = dyn_cast<AllocaInst>(&I)) {
          auto sz = A->getAllocationSize(DL);
          j["aty"] = tyStr(A->getAllocatedType());
          if (sz) j["size"] = (int64_t)sz->getFixedValue();
          if (A->isArrayAllocation()) j["n"] = operand(A->getArraySize());
          j["isarr"] = A->getAllocatedType()->isArrayTy();
        } else if (auto *C = dyn_cast<CmpInst>(&I)) {
          j["pred"] = CmpInst::getPredicateName(C->getPredicate()).str();
          j["ops"] = json::Array{operand(C->getOperand(0)), operand(C->getOperand(1))};
          j["cty"] = tyStr(C->getOperand(0)->getType());
        } else if (auto *B = dyn_cast<BranchInst>(&I)) {
          json::Array s; for (unsigned i = 0; i < B->getNumSuccessors(); i++) s.push_back(names[B->getSuccessor(i)]);
          j["succ"] = std::move(s); if (B->isConditional()) j["cond"] = operand(B->getCondition());
        } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
          j["cond"] = operand(S->getCondition()); j["default"] = names[S->getDefaultDest()];
          json::Array cs; for (auto &c : S->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), names[c.getCaseSuccessor()]});
          j["cases"] = std::move(cs);
        } else {
          json::Array a; for (auto &U : I.operands()) a.push_back(operand(U.get())); j["ops"] = std::move(a);
          if (I.getNumOperands()) j["oty"] = tyStr(I.getOperand(0)->getType());
          if (auto *L = dyn_cast<LoadInst>(&I)) j["size"] = (int64_t)DL.getTypeStoreSize(L->getType()).getFixedValue();
          if (auto *S = dyn_cast<StoreInst>(&I)) j["size"] = (int64_t)DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue();
          if (auto *E = dyn_cast<ExtractValueInst>(&I)) { json::Array x; for (auto i : E->indices()) x.push_back((int64_t)i); j["idx"] = std::move(x); }
        }
        ins.push_back(std::move(j));
      }
      blocks.push_back(json::Object{{"id", names[&BB]}, {"ins", std::move(ins)}});
    }
    o["blocks"] = std::move(blocks);
    DominatorTree DT(F); LoopInfo LI(DT);
    json::Array loops; unsigned ln = 0; DenseMap<const Loop *, unsigned> ids;
    for (auto *L : LI.getLoopsInPreorder()) ids[L] = ln++;
    for (auto *L : LI.getLoopsInPreorder()) {
      json::Object l{{"id", (int64_t)ids[L]}, {"header", names[L->getHeader()]}, {"parent", L->getParentLoop() ? (int64_t)ids[L->getParentLoop()] : -1}};
      json::Array bl; for (auto *BB : L->blocks()) bl.push_back(names[BB]); l["blocks"] = std::move(bl);
      json::Array la; SmallVector<BasicBlock *, 4> lat; L->getLoopLatches(lat); for (auto *x : lat) la.push_back(names[x]); l["latches"] = std::move(la);
      if (auto *p = L->getLoopPreheader()) l["pre"] = names[p];
      loops.push_back(std::move(l));
    }
    o["loops"] = std::move(loops);
    return o;
  }
  json::Object structs() {
    json::Object out; DebugInfoFinder f; f.processModule(M);
    std::map<const DICompositeType *, std::string> td;
    for (auto *T : f.types()) if (auto *D = dyn_cast<DIDerivedType>(T)) if (D->getTag() == dwarf::DW_TAG_typedef && D->getBaseType()) if (auto *C = dyn_cast<DICompositeType>(D->getBaseType())) td[C] = D->getName().str();
    for (auto *T : f.types()) if (auto *C = dyn_cast<DICompositeType>(T)) if (C->getTag() == dwarf::DW_TAG_structure_type) {
      std::string nm = C->getName().str(); if (nm.empty()) nm = td.count(C) ? td[C] : ""; if (nm.empty()) continue;
      json::Array m; for (auto *E : C->getElements()) if (auto *D = dyn_cast<DIDerivedType>(E)) {
        std::string tn; DIType *B = D->getBaseType(); int ptr = 0;
        while (B) { if (auto *X = dyn_cast<DIDerivedType>(B)) { if (X->getTag() == dwarf::DW_TAG_pointer_type) ptr++; if (X->getTag()==dwarf::DW_TAG_typedef && !X->getName().empty()) { tn = X->getName().str(); break; } B = X->getBaseType(); continue; } tn = B->getName().str(); break; }
        m.push_back(json::Object{{"name", D->getName().str()}, {"off", (int64_t)D->getOffsetInBits() / 8}, {"size", (int64_t)D->getSizeInBits() / 8}, {"type", tn}, {"ptr", ptr}}); }
      out[nm] = json::Object{{"size", (int64_t)C->getSizeInBits() / 8}, {"members", std::move(m)}};
    }
    return out;
  }
};

int main(int argc, char **argv) {
  if (argc < 3) { errs() << "usage: irdump in.ll out.json\n"; return 2; }
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print(argv[0], errs()); return 2; }
  // optional third argument: unroll loops with a constant number of iterations
  const char *pipe = argc > 3 ? "function(mem2reg,loop-simplify,lcssa,loop(loop-rotate,indvars,loop-unroll-full),simplifycfg<no-switch-to-lookup;keep-loops>,loop-simplify)" : "function(mem2reg)";   // no loop-simplify: it splits a loop with several back edges into a nest
  if (argc > 3) { const char *av[] = {"irdump", "-unroll-threshold=20000"}; cl::ParseCommandLineOptions(2, av); }
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  ModulePassManager MPM;
  if (auto e = PB.parsePassPipeline(MPM, pipe)) { errs() << toString(std::move(e)) << "\n"; return 2; }
  MPM.run(*M, MAM);
  Dumper D(*M);
  json::Object root; json::Object fns;
  for (auto &F : *M) if (!F.isIntrinsic()) fns[F.getName().str()] = D.function(F);
  json::Object gl; D.names.clear();
  for (auto &G : M->globals()) {
    json::Object g{{"const", G.isConstant()}, {"internal", G.hasLocalLinkage()}, {"ty", tyStr(G.getValueType())}, {"decl", G.isDeclaration()}, {"tls", G.isThreadLocal()}};
    if (G.getValueType()->isSized()) g["size"] = (int64_t)D.DL.getTypeAllocSize(G.getValueType()).getFixedValue();
    if (G.hasInitializer()) g["init"] = D.constant(G.getInitializer());
    SmallVector<DIGlobalVariableExpression *, 2> gv; G.getDebugInfo(gv);
    if (!gv.empty()) { g["dname"] = gv[0]->getVariable()->getName().str(); g["line"] = (int64_t)gv[0]->getVariable()->getLine(); g["file"] = gv[0]->getVariable()->getFilename().str(); }
    gl[G.getName().str()] = std::move(g);
  }
  root["functions"] = std::move(fns); root["globals"] = std::move(gl); root["structs"] = D.structs();
  std::error_code ec; raw_fd_ostream os(argv[2], ec); if (ec) { errs() << ec.message() << "\n"; return 2; }
  os << json::Value(std::move(root)) << "\n";
  return 0;
}
