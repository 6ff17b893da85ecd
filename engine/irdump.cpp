// irdump: reads one LLVM bitcode/IR module, promotes locals to SSA (mem2reg) and
// writes the module as JSON for the Python analyses.  Pure translation: no code of the
// analysed program is executed.
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include <map>
#include <set>
using namespace llvm;
static const DataLayout* DL;
static std::map<const Value*, int> VID;
static std::map<const BasicBlock*, int> BID;

static std::string tyStr(Type* T) {
  if(T->isVoidTy()) return "void";
  if(T->isPointerTy()) return "ptr";
  if(T->isIntegerTy()) return "i" + std::to_string(T->getIntegerBitWidth());
  if(T->isFloatTy()) return "f32";
  if(T->isDoubleTy()) return "f64";
  if(auto* S = dyn_cast<StructType>(T)) return S->hasName() ? ("%" + S->getName().str()) : "%anon";
  std::string s; raw_string_ostream os(s); T->print(os); return os.str();
}
static json::Value opnd(const Value* V);
static json::Value gepParts(const GEPOperator* G) {
  int64_t off = 0; json::Array vars; json::Array path;
  for(auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
    Value* I = it.getOperand();
    if(StructType* ST = it.getStructTypeOrNull()) {
      unsigned f = cast<ConstantInt>(I)->getZExtValue();
      off += DL->getStructLayout(ST)->getElementOffset(f);
      path.push_back(json::Array{ST->hasName() ? ST->getName().str() : "anon", (int64_t)f});
    } else {
      int64_t sz = DL->getTypeAllocSize(it.getIndexedType());
      if(auto* C = dyn_cast<ConstantInt>(I)) off += C->getSExtValue() * sz;
      else vars.push_back(json::Array{opnd(I), sz});
    }
  }
  return json::Object{{"base", opnd(G->getPointerOperand())}, {"off", off},
                      {"vars", std::move(vars)}, {"path", std::move(path)},
                      {"src", tyStr(G->getSourceElementType())}};
}
static json::Value constVal(const Constant* C, int depth);
static json::Value opnd(const Value* V) {
  if(auto* C = dyn_cast<ConstantInt>(V)) {
    if(C->getBitWidth() <= 64) return json::Array{"i", C->getSExtValue(), (int64_t)C->getBitWidth()};
    return json::Array{"u"};
  }
  if(auto* C = dyn_cast<ConstantFP>(V)) {
    SmallString<32> s; C->getValueAPF().toString(s);
    return json::Array{"f", std::string(s.str())};
  }
  if(isa<ConstantPointerNull>(V)) return json::Array{"i", 0, 64};
  if(isa<UndefValue>(V)) return json::Array{"u"};
  if(isa<Function>(V)) return json::Array{"fn", V->getName().str()};
  if(isa<GlobalVariable>(V)) return json::Array{"g", V->getName().str()};
  if(auto* CE = dyn_cast<ConstantExpr>(V)) {
    if(auto* G = dyn_cast<GEPOperator>(CE)) return json::Array{"gep", gepParts(G)};
    return json::Array{"ce", CE->getOpcodeName(), opnd(CE->getOperand(0))};
  }
  if(auto* A = dyn_cast<Argument>(V)) return json::Array{"a", (int64_t)A->getArgNo()};
  if(auto* B = dyn_cast<BasicBlock>(V)) return json::Array{"b", (int64_t)BID[B]};
  if(isa<Instruction>(V)) return json::Array{"v", (int64_t)VID[V]};
  if(isa<ConstantAggregateZero>(V)) return json::Array{"zero"};
  return json::Array{"u"};
}
static json::Value constVal(const Constant* C, int depth) {
  if(depth > 6) return nullptr;
  if(auto* D = dyn_cast<ConstantDataArray>(C)) {
    if(D->isString()) {
      std::string s = D->getAsString().str();
      json::Array bytes; for(unsigned char ch : s) bytes.push_back((int64_t)ch);
      return json::Object{{"bytes", std::move(bytes)}};
    }
    json::Array a; for(unsigned i = 0; i < D->getNumElements(); ++i) a.push_back(constVal(D->getElementAsConstant(i), depth+1));
    return json::Object{{"arr", std::move(a)}, {"elsz", (int64_t)DL->getTypeAllocSize(D->getElementType())}};
  }
  if(auto* A = dyn_cast<ConstantArray>(C)) {
    json::Array a; for(auto& o : A->operands()) a.push_back(constVal(cast<Constant>(o.get()), depth+1));
    return json::Object{{"arr", std::move(a)}, {"elsz", (int64_t)DL->getTypeAllocSize(A->getType()->getElementType())}};
  }
  if(auto* S = dyn_cast<ConstantStruct>(C)) {
    json::Array a; auto* L = DL->getStructLayout(S->getType());
    for(unsigned i = 0; i < S->getNumOperands(); ++i)
      a.push_back(json::Array{(int64_t)L->getElementOffset(i), constVal(cast<Constant>(S->getOperand(i)), depth+1)});
    return json::Object{{"struct", std::move(a)}};
  }
  if(isa<ConstantAggregateZero>(C)) return json::Object{{"zero", (int64_t)DL->getTypeAllocSize(C->getType())}};
  return json::Object{{"v", opnd(C)}};
}
static std::string diTyName(const DIType* T, int depth = 0) {
  if(!T) return "void";
  if(depth > 8) return "?";
  if(auto* D = dyn_cast<DIDerivedType>(T)) {
    if(D->getTag() == dwarf::DW_TAG_pointer_type) return diTyName(D->getBaseType(), depth+1) + "*";
    if(D->getTag() == dwarf::DW_TAG_typedef) return D->getName().str();
    return diTyName(D->getBaseType(), depth+1);
  }
  if(!T->getName().empty()) return T->getName().str();
  if(isa<DISubroutineType>(T)) return "fn";
  return "anon";
}
static std::string diCanon(const DIType* T, int depth = 0) { // struct/union name behind pointers & typedefs
  if(!T || depth > 10) return "";
  if(auto* D = dyn_cast<DIDerivedType>(T)) {
    std::string b = diCanon(D->getBaseType(), depth+1);
    if(D->getTag() == dwarf::DW_TAG_pointer_type) return b + "*";
    return b;
  }
  if(auto* C = dyn_cast<DICompositeType>(T)) return C->getName().str();
  return T->getName().str();
}
int main(int argc, char** argv) {
  if(argc < 2) { errs() << "usage: irdump file.bc\n"; return 2; }
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if(!M) { Err.print("irdump", errs()); return 2; }
  DL = &M->getDataLayout();
  json::Object out;
  // debug info
  DebugInfoFinder F; F.processModule(*M);
  json::Object dis, enums, typedefs;
  std::map<const DIType*, std::string> tdname;
  for(auto* T : F.types()) if(auto* D = dyn_cast<DIDerivedType>(T))
    if(D->getTag() == dwarf::DW_TAG_typedef && D->getBaseType() && D->getBaseType()->getName().empty())
      tdname[D->getBaseType()] = D->getName().str();
  for(auto* T : F.types()) {
    if(auto* C = dyn_cast<DICompositeType>(T)) {
      if(C->getTag() == dwarf::DW_TAG_enumeration_type) {
        json::Object vals;
        for(auto* E : C->getElements()) if(auto* En = dyn_cast<DIEnumerator>(E)) vals[En->getName().str()] = En->getValue().getSExtValue();
        std::string nm = C->getName().str();
        if(nm.empty()) nm = "anon_" + std::to_string(enums.size());
        enums[nm] = std::move(vals);
      } else if(C->getTag() == dwarf::DW_TAG_structure_type || C->getTag() == dwarf::DW_TAG_union_type) {
        if(C->isForwardDecl()) continue;
        json::Array fs;
        for(auto* E : C->getElements()) if(auto* D = dyn_cast<DIDerivedType>(E))
          fs.push_back(json::Object{{"name", D->getName().str()}, {"off", (int64_t)(D->getOffsetInBits()/8)},
                                    {"size", (int64_t)(D->getSizeInBits()/8)}, {"type", diTyName(D->getBaseType())}, {"canon", diCanon(D->getBaseType())}});
        std::string nm = C->getName().str();
        if(nm.empty() && tdname.count(C)) nm = tdname[C];
        if(nm.empty()) nm = "anon@" + std::to_string(C->getLine());
        dis[nm] = json::Object{{"fields", std::move(fs)}, {"size", (int64_t)(C->getSizeInBits()/8)}, {"union", C->getTag() == dwarf::DW_TAG_union_type}};
      }
    } else if(auto* D = dyn_cast<DIDerivedType>(T)) {
      if(D->getTag() == dwarf::DW_TAG_typedef) typedefs[D->getName().str()] = diCanon(D->getBaseType());
    }
  }
  out["di"] = std::move(dis); out["enums"] = std::move(enums); out["typedefs"] = std::move(typedefs);
  // mem2reg
  {
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    FunctionPassManager FPM; FPM.addPass(PromotePass());
    ModulePassManager MPM; MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
    MPM.run(*M, MAM);
  }
  json::Object gl;
  for(auto& G : M->globals()) {
    json::Object o; o["const"] = G.isConstant(); o["size"] = (int64_t)DL->getTypeAllocSize(G.getValueType());
    o["local"] = G.hasLocalLinkage();
    if(G.hasInitializer()) o["init"] = constVal(G.getInitializer(), 0);
    gl[G.getName().str()] = std::move(o);
  }
  out["globals"] = std::move(gl);
  json::Object fns;
  for(auto& Fn : *M) {
    if(Fn.isIntrinsic()) continue;
    json::Object fo;
    fo["decl"] = Fn.isDeclaration(); fo["nargs"] = (int64_t)Fn.arg_size(); fo["vararg"] = Fn.isVarArg();
    fo["local"] = Fn.hasLocalLinkage(); fo["ret"] = tyStr(Fn.getReturnType());
    json::Array at; for(auto& A : Fn.args()) at.push_back(tyStr(A.getType())); fo["argtys"] = std::move(at);
    if(!Fn.isDeclaration()) {
      if(auto* SP = Fn.getSubprogram()) {
        fo["file"] = SP->getFilename().str(); fo["line"] = (int64_t)SP->getLine();
        json::Array ptys;
        for(auto* T : SP->getType()->getTypeArray()) ptys.push_back(diCanon(T));
        fo["ditys"] = std::move(ptys);
      }
      VID.clear(); BID.clear(); int vi = 0, bi = 0;
      for(auto& B : Fn) { BID[&B] = bi++; for(auto& I : B) VID[&I] = vi++; }
      json::Object anames;
      json::Array bs;
      for(auto& B : Fn) {
        json::Array is;
        for(auto& I : B) {
          if(auto* DV = dyn_cast<DbgVariableIntrinsic>(&I)) {
            if(auto* V = DV->getVariableLocationOp(0)) {
              if(auto* A = dyn_cast<Argument>(V)) anames[std::to_string(A->getArgNo())] = DV->getVariable()->getName().str();
              if(isa<AllocaInst>(V)) {
                is.push_back(json::Object{{"op","dbgdecl"},{"id",-1},{"ops",json::Array{opnd(V)}},{"name",DV->getVariable()->getName().str()},{"dity",diCanon(DV->getVariable()->getType())}});
              }
            }
            continue;
          }
          if(isa<DbgInfoIntrinsic>(&I)) continue;
          json::Object o; o["id"] = (int64_t)VID[&I]; o["op"] = I.getOpcodeName(); o["ty"] = tyStr(I.getType());
          if(I.getDebugLoc()) {
            o["line"] = (int64_t)I.getDebugLoc().getLine();
          }
          json::Array ops;
          if(auto* P = dyn_cast<PHINode>(&I)) {
            for(unsigned i = 0; i < P->getNumIncomingValues(); ++i)
              ops.push_back(json::Array{(int64_t)BID[P->getIncomingBlock(i)], opnd(P->getIncomingValue(i))});
          } else if(auto* G = dyn_cast<GetElementPtrInst>(&I)) {
            o["gep"] = gepParts(cast<GEPOperator>(G));
          } else if(auto* C = dyn_cast<CallBase>(&I)) {
            for(auto& A : C->args()) ops.push_back(opnd(A.get()));
            o["callee"] = opnd(C->getCalledOperand());
            if(auto* CF = C->getCalledFunction()) if(CF->isIntrinsic()) o["intr"] = true;
          } else if(auto* S = dyn_cast<SwitchInst>(&I)) {
            ops.push_back(opnd(S->getCondition()));
            json::Array cs; for(auto& c : S->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), (int64_t)BID[c.getCaseSuccessor()]});
            o["cases"] = std::move(cs); o["default"] = (int64_t)BID[S->getDefaultDest()];
          } else if(auto* Br = dyn_cast<BranchInst>(&I)) {
            json::Array succ; for(unsigned i = 0; i < Br->getNumSuccessors(); ++i) succ.push_back((int64_t)BID[Br->getSuccessor(i)]);
            o["succ"] = std::move(succ);
            if(Br->isConditional()) ops.push_back(opnd(Br->getCondition()));
          } else {
            for(auto& U : I.operands()) ops.push_back(opnd(U.get()));
          }
          if(auto* C = dyn_cast<CmpInst>(&I)) { o["pred"] = CmpInst::getPredicateName(C->getPredicate()).str(); o["cty"] = tyStr(C->getOperand(0)->getType()); }
          if(auto* A = dyn_cast<AllocaInst>(&I)) { o["aty"] = tyStr(A->getAllocatedType()); o["asz"] = (int64_t)DL->getTypeAllocSize(A->getAllocatedType()); }
          if(auto* L = dyn_cast<LoadInst>(&I)) (void)L;
          if(auto* S = dyn_cast<StoreInst>(&I)) o["vty"] = tyStr(S->getValueOperand()->getType());
          if(auto* C = dyn_cast<CastInst>(&I)) o["fty"] = tyStr(C->getOperand(0)->getType());
          o["ops"] = std::move(ops);
          is.push_back(std::move(o));
        }
        bs.push_back(std::move(is));
      }
      fo["blocks"] = std::move(bs); fo["anames"] = std::move(anames);
    }
    fns[Fn.getName().str()] = std::move(fo);
  }
  out["functions"] = std::move(fns);
  outs() << json::Value(std::move(out)) << "\n";
  return 0;
}
