// irx: link LLVM bitcode of the units under analysis, make every C function
// and every listed C++ function opaque, inline everything else, bring the
// result into SSA form and write it out as JSON for the analyses in lib/.
//
//   irx OUT.json OPAQUE_REGEX ROOT_REGEX unit.bc...
//
// OPAQUE_REGEX and ROOT_REGEX are matched (search) against demangled names.
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/PassManager.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/AlwaysInliner.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/Scalar/ADCE.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Transforms/Utils/Local.h>

#include <fstream>
#include <map>
#include <regex>
#include <set>

using namespace llvm;

static std::map<const Value*, int> ids;
static const DataLayout* DL;
static Module* M;

// Names of expression templates get very long; only their beginning matters.
static std::string demangled(StringRef n) {
  static std::map<std::string, std::string> memo;
  if (n.size() > 3000) return n.substr(0, 3000).str();
  auto it = memo.find(n.str());
  if (it != memo.end()) return it->second;
  std::string d = demangle(n.str());
  if (d.size() > 2000) d.resize(2000);
  memo[n.str()] = d;
  return d;
}

static std::string tystr(Type* t) {
  if (t->isPointerTy()) return "ptr";
  if (auto* i = dyn_cast<IntegerType>(t)) return "i" + std::to_string(i->getBitWidth());
  if (t->isVoidTy()) return "void";
  if (t->isDoubleTy()) return "double";
  if (t->isFloatTy()) return "float";
  std::string s;
  raw_string_ostream os(s);
  t->print(os, false, true);
  return os.str();
}

static json::Value val(const Value* v);

static json::Value gepval(const GEPOperator* g) {
  json::Object o;
  o["k"] = "gep";
  o["base"] = val(g->getPointerOperand());
  unsigned bits = DL->getIndexSizeInBits(0);
  MapVector<Value*, APInt> var;
  APInt c(bits, 0);
  if (!g->collectOffset(*DL, bits, var, c)) {
    o["unknown"] = true;
    return std::move(o);
  }
  o["off"] = c.getSExtValue();
  json::Array a;
  for (auto& kv : var) a.push_back(json::Array{val(kv.first), kv.second.getSExtValue()});
  o["var"] = std::move(a);
  return std::move(o);
}

static json::Value val(const Value* v) {
  json::Object o;
  if (auto* f = dyn_cast<Function>(v)) {
    o["k"] = "fn";
    o["name"] = f->getName().str();
    o["dem"] = demangled(f->getName());
    return std::move(o);
  }
  if (auto* g = dyn_cast<GlobalVariable>(v)) {
    o["k"] = "global";
    o["name"] = g->getName().str();
    o["const"] = g->isConstant();
    if (g->hasInitializer() && g->isConstant())
      if (auto* d = dyn_cast<ConstantDataSequential>(g->getInitializer()))
        if (d->isString()) o["str"] = json::fixUTF8(d->getAsString().str());
    return std::move(o);
  }
  if (auto* c = dyn_cast<ConstantInt>(v)) {
    o["k"] = "int";
    SmallString<32> s;
    c->getValue().toStringSigned(s);
    o["v"] = s.str().str();
    o["bits"] = (int64_t)c->getBitWidth();
    return std::move(o);
  }
  if (auto* c = dyn_cast<ConstantFP>(v)) {
    o["k"] = "fp";
    SmallString<32> s;
    c->getValueAPF().toString(s);
    o["v"] = s.str().str();
    return std::move(o);
  }
  if (isa<ConstantPointerNull>(v)) {
    o["k"] = "null";
    return std::move(o);
  }
  if (isa<UndefValue>(v)) {
    o["k"] = "undef";
    return std::move(o);
  }
  if (isa<ConstantAggregateZero>(v)) {
    o["k"] = "zero";
    return std::move(o);
  }
  if (auto* c = dyn_cast<ConstantDataSequential>(v); c && c->isString()) {
    o["k"] = "str";
    o["v"] = json::fixUTF8(c->getAsString().str());
    return std::move(o);
  }
  if (auto* c = dyn_cast<ConstantDataSequential>(v); c && c->getElementType()->isIntegerTy() && c->getNumElements() <= 4096) {
    o["k"] = "data";
    o["bits"] = c->getElementType()->getIntegerBitWidth();
    json::Array a;
    for (unsigned i = 0; i < c->getNumElements(); i++) a.push_back(std::to_string(c->getElementAsAPInt(i).getSExtValue()));
    o["v"] = std::move(a);
    return std::move(o);
  }
  if (isa<ConstantStruct>(v) || isa<ConstantArray>(v)) {
    auto* c = cast<ConstantAggregate>(v);
    o["k"] = "agg";
    json::Array a;
    for (auto& op : c->operands()) a.push_back(val(op));
    o["v"] = std::move(a);
    return std::move(o);
  }
  if (auto* c = dyn_cast<ConstantExpr>(v)) {
    if (auto* g = dyn_cast<GEPOperator>(c)) return gepval(g);
    o["k"] = "cexpr";
    o["op"] = c->getOpcodeName();
    json::Array a;
    for (auto& op : c->operands()) a.push_back(val(op));
    o["ops"] = std::move(a);
    return std::move(o);
  }
  auto it = ids.find(v);
  if (it != ids.end()) {
    o["k"] = isa<Argument>(v) ? "arg" : "v";
    o["id"] = it->second;
    return std::move(o);
  }
  o["k"] = "other";
  o["text"] = isa<MetadataAsValue>(v) ? "metadata" : "value " + std::to_string(v->getValueID());
  return std::move(o);
}

// C functions: not mangled, or the static inline functions of C headers.
static bool cfunction(const Function& F, std::string& plain) {
  StringRef n = F.getName();
  if (n.starts_with("_GLOBAL__") || n.starts_with("__cxx_global") || n.starts_with("__clang_call_terminate") || n.starts_with("llvm.") || n.starts_with("__cxa_") || n.starts_with("_Unwind") || n.starts_with("__gxx")) return false;
  if (!n.starts_with("_Z")) {
    plain = n.str();
    return true;
  }
  if (!n.starts_with("_ZL") && !n.starts_with("_Z")) return false;
  auto* sp = F.getSubprogram();
  if (!sp) return false;
  StringRef file = sp->getFilename();
  if (!file.contains("/flint/") && !file.ends_with("/gmp.h") && !file.contains("e-antic/renf.h") && !file.contains("e-antic/renf_elem.h") && !file.contains("e-antic/nf")) return false;
  std::string d = demangled(n);
  auto p = d.find('(');
  if (p == std::string::npos || d.find("::") < p || d.find('<') < p) return false;
  plain = d.substr(0, p);
  return true;
}

static void loc(json::Object& o, const Instruction& I) {
  // innermost and outermost source position
  if (auto* d = I.getDebugLoc().get()) {
    json::Array a;
    for (const DILocation* l = d; l; l = l->getInlinedAt())
      a.push_back(json::Array{l->getFilename().str(), (int64_t)l->getLine()});
    o["loc"] = std::move(a);
  }
}

static json::Object fn(Function& F) {
  ids.clear();
  int n = 0;
  std::map<const BasicBlock*, int> bid;
  for (auto& a : F.args()) ids[&a] = n++;
  for (auto& B : F) {
    int b = bid.size();
    bid[&B] = b;
    for (auto& I : B) ids[&I] = n++;
  }
  json::Object o;
  o["name"] = F.getName().str();
  o["dem"] = demangled(F.getName());
  o["ret"] = tystr(F.getReturnType());
  if (auto* sp = F.getSubprogram()) {
    o["file"] = (sp->getDirectory() + "/" + sp->getFilename()).str();
    if (sp->getFilename().starts_with("/")) o["file"] = sp->getFilename().str();
    o["line"] = (int64_t)sp->getLine();
  }
  json::Array args;
  for (auto& a : F.args()) {
    json::Object ao;
    ao["ty"] = tystr(a.getType());
    ao["name"] = a.getName().str();
    if (a.hasStructRetAttr()) {
        ao["sret"] = true;
        ao["srty"] = tystr(a.getParamStructRetType());
      }
    if (a.hasByValAttr()) ao["byval"] = true;
    args.push_back(std::move(ao));
  }
  o["args"] = std::move(args);
  json::Array blocks;
  for (auto& B : F) {
    json::Array ins;
    for (auto& I : B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      json::Object io;
      io["id"] = ids[&I];
      io["ty"] = tystr(I.getType());
      loc(io, I);
      if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
        io["op"] = "gep";
        io["gep"] = gepval(cast<GEPOperator>(g));
      } else if (auto* a = dyn_cast<AllocaInst>(&I)) {
        io["op"] = "alloca";
        auto sz = a->getAllocationSize(*DL);
        io["size"] = sz ? (int64_t)sz->getFixedValue() : -1;
        io["aty"] = tystr(a->getAllocatedType());
      } else if (auto* p = dyn_cast<PHINode>(&I)) {
        io["op"] = "phi";
        json::Array in;
        for (unsigned i = 0; i < p->getNumIncomingValues(); ++i)
          in.push_back(json::Array{bid[p->getIncomingBlock(i)], val(p->getIncomingValue(i))});
        io["in"] = std::move(in);
      } else if (auto* c = dyn_cast<CallBase>(&I)) {
        io["op"] = isa<InvokeInst>(I) ? "invoke" : "call";
        io["callee"] = val(c->getCalledOperand());
        json::Array as;
        for (auto& a : c->args()) as.push_back(val(a));
        io["args"] = std::move(as);
        json::Array tys;
        for (auto& a : c->args()) tys.push_back(tystr(a->getType()));
        io["argtys"] = std::move(tys);
        if (c->hasStructRetAttr()) io["sret"] = true;
        if (c->doesNotThrow()) io["nounwind"] = true;
        if (auto* inv = dyn_cast<InvokeInst>(&I)) {
          io["normal"] = bid[inv->getNormalDest()];
          io["unwind"] = bid[inv->getUnwindDest()];
        }
      } else if (auto* b = dyn_cast<BranchInst>(&I)) {
        io["op"] = "br";
        if (b->isConditional()) io["cond"] = val(b->getCondition());
        json::Array s;
        for (unsigned i = 0; i < b->getNumSuccessors(); ++i) s.push_back(bid[b->getSuccessor(i)]);
        io["succ"] = std::move(s);
      } else if (auto* s = dyn_cast<SwitchInst>(&I)) {
        io["op"] = "switch";
        io["cond"] = val(s->getCondition());
        io["default"] = bid[s->getDefaultDest()];
        json::Array cs;
        for (auto& c : s->cases()) cs.push_back(json::Array{val(c.getCaseValue()), bid[c.getCaseSuccessor()]});
        io["cases"] = std::move(cs);
      } else {
        io["op"] = I.getOpcodeName();
        if (auto* c = dyn_cast<CmpInst>(&I)) io["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
        if (auto* l = dyn_cast<LoadInst>(&I)) io["size"] = (int64_t)DL->getTypeStoreSize(l->getType());
        if (auto* l = dyn_cast<LoadInst>(&I))
          if (l->isAtomic()) io["atomic"] = true;
        if (auto* s = dyn_cast<StoreInst>(&I)) io["size"] = (int64_t)DL->getTypeStoreSize(s->getValueOperand()->getType());
        if (auto* s = dyn_cast<StoreInst>(&I)) {
          io["sty"] = tystr(s->getValueOperand()->getType());
          if (s->isAtomic()) io["atomic"] = true;
        }
        if (auto* e = dyn_cast<ExtractValueInst>(&I)) {
          json::Array x;
          for (auto i : e->indices()) x.push_back((int64_t)i);
          io["idx"] = std::move(x);
        }
        if (auto* e = dyn_cast<InsertValueInst>(&I)) {
          json::Array x;
          for (auto i : e->indices()) x.push_back((int64_t)i);
          io["idx"] = std::move(x);
        }
        if (auto* a = dyn_cast<AtomicRMWInst>(&I)) io["rmw"] = AtomicRMWInst::getOperationName(a->getOperation()).str();
        json::Array ops;
        for (auto& op : I.operands()) ops.push_back(isa<BasicBlock>(op) ? json::Value(nullptr) : val(op));
        io["ops"] = std::move(ops);
      }
      ins.push_back(std::move(io));
    }
    json::Object bo;
    bo["id"] = bid[&B];
    bo["ins"] = std::move(ins);
    blocks.push_back(std::move(bo));
  }
  o["blocks"] = std::move(blocks);
  return o;
}

int main(int argc, char** argv) {
  if (argc < 5) return 2;
  LLVMContext C;
  SMDiagnostic err;
  std::unique_ptr<Module> mod;
  for (int i = 4; i < argc; ++i) {
    auto m = parseIRFile(argv[i], err, C);
    if (!m) {
      err.print(argv[0], errs());
      return 2;
    }
    if (!mod)
      mod = std::move(m);
    else if (Linker::linkModules(*mod, std::move(m)))
      return 2;
  }
  M = mod.get();
  DL = &M->getDataLayout();
  std::ifstream oin(argv[2]), rin(argv[3]);
  std::string ore((std::istreambuf_iterator<char>(oin)), {}), rre((std::istreambuf_iterator<char>(rin)), {});
  while (ore.size() && ore.back() == '\n') ore.pop_back();
  while (rre.size() && rre.back() == '\n') rre.pop_back();
  std::regex opaque(ore, std::regex::optimize), root(rre, std::regex::optimize);
  std::set<Function*> roots;
  for (auto it = M->alias_begin(); it != M->alias_end();) {
    GlobalAlias& A = *it++;
    if (auto* f = dyn_cast<Function>(A.getAliasee()->stripPointerCasts())) {
      A.replaceAllUsesWith(f);
      A.eraseFromParent();
    }
  }
  json::Array globals;
  for (auto& G : M->globals()) {
    json::Object o;
    o["name"] = G.getName().str();
    o["dem"] = demangled(G.getName());
    o["const"] = G.isConstant();
    o["internal"] = G.hasLocalLinkage();
    o["tls"] = G.isThreadLocal();
    if (G.hasInitializer()) {
      o["init"] = val(G.getInitializer());
      o["size"] = (int64_t)DL->getTypeAllocSize(G.getValueType());
    }
    globals.push_back(std::move(o));
  }
  json::Array declared;
  std::map<Function*, std::string> plains;
  for (auto& F : *M) {
    std::string d = demangled(F.getName()), plain;
    bool cfun = cfunction(F, plain);
    if (cfun) {
      plains[&F] = plain;
      F.setDoesNotThrow();
      if (!F.isDeclaration()) {
        F.deleteBody();
        F.setComdat(nullptr);
        F.setDoesNotThrow();
      }
      continue;
    }
    if (F.isDeclaration()) continue;
    // roots are functions of the code under analysis, not of its libraries
    auto* sp = F.getSubprogram();
    if ((d.find("verif_driver::") == 0 || d.find("unique_factory::UniqueFactory<") == 0 || (sp && sp->getFilename().contains("libexactreal/") && !sp->getFilename().contains("/include/"))) && std::regex_search(d.substr(0, 600), root)) roots.insert(&F);
    if (std::regex_search(d.substr(0, 600), opaque)) {
      if (roots.count(&F)) {
        // a root that its callers must not see through
        F.addFnAttr(Attribute::NoInline);
        F.removeFnAttr(Attribute::AlwaysInline);
      } else {
        F.deleteBody();
        F.setComdat(nullptr);
      }
      continue;
    }
    F.removeFnAttr(Attribute::NoInline);
    F.removeFnAttr(Attribute::OptimizeNone);
    F.addFnAttr(Attribute::AlwaysInline);
  }
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  for (auto& kv : plains)
    if (kv.first->getName() != kv.second) {
      if (auto* g = M->getFunction(kv.second)) {
        if (g != kv.first) kv.first->replaceAllUsesWith(g);
      } else
        kv.first->setName(kv.second);
    }
  // calls of functions that cannot throw
  for (auto& F : *M)
    for (auto& B : F)
      if (auto* inv = dyn_cast<InvokeInst>(B.getTerminator()))
        if (auto* c = inv->getCalledFunction())
          if (c->doesNotThrow()) changeToCall(inv);
  // Drop everything not needed by a root before inlining.
  for (auto& F : *M)
    if (!F.isDeclaration()) {
      if (roots.count(&F)) {
        F.setLinkage(GlobalValue::ExternalLinkage);
        F.setComdat(nullptr);
      } else {
        F.setComdat(nullptr);
        F.setLinkage(GlobalValue::InternalLinkage);
      }
    }
  {
    ModulePassManager P;
    P.addPass(GlobalDCEPass());
    {
      FunctionPassManager FP;
      FP.addPass(SROAPass(SROAOptions::ModifyCFG));
      P.addPass(createModuleToFunctionPassAdaptor(std::move(FP)));
    }
    P.addPass(AlwaysInlinerPass(false));
    P.addPass(GlobalDCEPass());
    P.run(*M, MAM);
  }
  {
    ModulePassManager P;
    FunctionPassManager FP;
    SimplifyCFGOptions so;
    so.hoistCommonInsts(false).sinkCommonInsts(false).convertSwitchToLookupTable(false).forwardSwitchCondToPhi(false).convertSwitchRangeToICmp(false);
    FP.addPass(SROAPass(SROAOptions::ModifyCFG));
    FP.addPass(EarlyCSEPass(false));
    FP.addPass(SimplifyCFGPass(so));
    FP.addPass(SROAPass(SROAOptions::ModifyCFG));
    FP.addPass(EarlyCSEPass(false));
    FP.addPass(ADCEPass());
    FP.addPass(SimplifyCFGPass(so));
    P.addPass(createModuleToFunctionPassAdaptor(std::move(FP)));
    P.run(*M, MAM);
  }
  json::Object out;
  json::Array fns;
  for (auto& F : *M)
    if (!F.isDeclaration() && roots.count(&F)) fns.push_back(fn(F));
  out["functions"] = std::move(fns);
  // what std::function objects call
  json::Array inv;
  for (auto& F : *M)
    if (!F.isDeclaration() && !roots.count(&F) && F.getName().starts_with("_ZNSt17_Function_handler") && F.getName().contains("9_M_invoke")) inv.push_back(fn(F));
  out["invokers"] = std::move(inv);
  out["globals"] = std::move(globals);
  std::error_code ec;
  raw_fd_ostream os(argv[1], ec);
  os << json::Value(std::move(out)) << "\n";
  return 0;
}
