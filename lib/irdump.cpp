// irdump: link the bitcode of all translation units, inline every helper that is not a named
// anchor, normalise the result with standard LLVM passes and write it out as JSON.
//   irdump OUT.json KEEPFILE PASSES in1.bc in2.bc ...
// KEEPFILE holds one demangled function name (without parameters) per line; these functions keep
// their identity (are not inlined).  A line "file-static NAME" keeps internal functions of that name.
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/Regex.h"
#include "llvm/Demangle/Demangle.h"
#include <fstream>
#include <map>
#include <set>
using namespace llvm;
using J = json::Value;

static std::string dem(StringRef n) { return demangle(n.str()); }
// demangled name without parameter list and without return type of templates
static std::string baseName(StringRef mangled) {
  std::string d = dem(mangled);
  // strip a trailing .123 suffix given by the linker
  int depth = 0; size_t cut = std::string::npos;
  for (size_t i = 0; i < d.size(); i++) {
    char c = d[i];
    if (c == '<') depth++;
    else if (c == '>') depth--;
    else if (c == '(' && depth == 0) {
      if (d.compare(i, 21, "(anonymous namespace)") == 0) { i += 20; continue; }
      if (i >= 8 && d.compare(i - 8, 8, "operator") == 0) { i++; continue; }
      cut = i; break;
    }
  }
  return cut == std::string::npos ? d : d.substr(0, cut);
}
static std::string tstr(Type *t) { std::string s; raw_string_ostream o(s); t->print(o); return s; }

struct Dump {
  Module &M; const DataLayout &DL;
  std::map<const Value *, int> ids; int next = 0;
  Dump(Module &m) : M(m), DL(m.getDataLayout()) {}
  int id(const Value *v) { auto it = ids.find(v); if (it != ids.end()) return it->second; return ids[v] = next++; }
  J apint(const APInt &a) { SmallString<40> s; a.toStringUnsigned(s); return J(std::string(s.str())); }
  J op(const Value *v) {
    if (auto *c = dyn_cast<ConstantInt>(v)) return json::Array{"c", apint(c->getValue()), (int64_t)c->getBitWidth()};
    if (isa<ConstantPointerNull>(v)) return json::Array{"null"};
    if (isa<UndefValue>(v)) return json::Array{"undef"};
    if (auto *f = dyn_cast<Function>(v)) return json::Array{"f", f->getName().str()};
    if (auto *g = dyn_cast<GlobalVariable>(v)) return json::Array{"g", g->getName().str()};
    if (auto *ge = dyn_cast<GEPOperator>(v)) if (isa<Constant>(v)) {
      APInt off(64, 0); if (ge->accumulateConstantOffset(DL, off))
        return json::Array{"cgep", op(ge->getPointerOperand()), apint(off)};
    }
    if (auto *c = dyn_cast<Constant>(v)) {
      if (c->isNullValue()) return json::Array{"zero", tstr(c->getType())};
      std::string s; raw_string_ostream o(s); v->printAsOperand(o); return json::Array{"const", s};
    }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return json::Array{"other"};
    return json::Array{"v", id(v)};
  }
  static std::string path(const DIFile *f) {
    if (!f) return "";
    std::string n = f->getFilename().str();
    return (n.empty() || n[0] == '/') ? n : f->getDirectory().str() + "/" + n;
  }
  J loc(const DILocation *d) {
    if (!d) return nullptr;
    std::string fn; if (auto *sp = d->getScope()->getSubprogram()) fn = sp->getName().str();
    json::Array a{path(d->getFile()), (int64_t)d->getLine(), fn};
    if (auto *ia = d->getInlinedAt()) a.push_back(loc(ia));
    return a;
  }
  json::Object fun(Function &F) {
    json::Object o; o["name"] = F.getName().str(); o["base"] = baseName(F.getName()); o["dem"] = dem(F.getName());
    o["internal"] = F.hasInternalLinkage(); o["ret"] = tstr(F.getReturnType()); o["vararg"] = F.isVarArg();
    if (auto *sp = F.getSubprogram()) { o["file"] = path(sp->getFile()); o["line"] = (int64_t)sp->getLine(); o["src"] = sp->getName().str(); }
    json::Array args; for (auto &a : F.args()) args.push_back(json::Array{id(&a), tstr(a.getType()), a.getName().str(), a.hasStructRetAttr()});
    o["args"] = std::move(args);
    o["decl"] = F.isDeclaration();
    if (F.isDeclaration()) return o;
    DominatorTree DT(F); LoopInfo LI(DT);
    std::map<const BasicBlock *, int> bid; int n = 0; for (auto &b : F) bid[&b] = n++;
    json::Array blocks;
    for (auto &B : F) {
      json::Object bo; bo["id"] = bid[&B]; bo["name"] = B.getName().str();
      json::Array ins;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) {
          if (auto *dv = dyn_cast<DbgValueInst>(&I)) {
            json::Object d; d["op"] = "dbg"; if (dv->getNumVariableLocationOps() == 1 && dv->getValue(0)) d["v"] = op(dv->getValue(0));
            d["var"] = dv->getVariable()->getName().str(); ins.push_back(std::move(d)); }
          continue; }
        if (auto *II = dyn_cast<IntrinsicInst>(&I)) {
          auto k = II->getIntrinsicID();
          if (k == Intrinsic::lifetime_start || k == Intrinsic::lifetime_end || k == Intrinsic::experimental_noalias_scope_decl) continue; }
        json::Object d; d["op"] = I.getOpcodeName(); d["id"] = id(&I); d["ty"] = tstr(I.getType());
        if (auto &dl = I.getDebugLoc()) d["loc"] = loc(dl.get());
        json::Array ops;
        if (auto *p = dyn_cast<PHINode>(&I)) {
          for (unsigned i = 0; i < p->getNumIncomingValues(); i++) ops.push_back(json::Array{op(p->getIncomingValue(i)), bid[p->getIncomingBlock(i)]});
        } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
          MapVector<Value *, APInt> vo; APInt co(64, 0);
          if (!g->collectOffset(DL, 64, vo, co)) { d["bad"] = true; }
          d["base"] = op(g->getPointerOperand()); d["off"] = std::to_string(co.getSExtValue());
          json::Array ix; for (auto &kv : vo) ix.push_back(json::Array{op(kv.first), std::to_string(kv.second.getSExtValue())});
          d["idx"] = std::move(ix); d["srcty"] = tstr(g->getSourceElementType()); d["es"] = (int64_t)DL.getTypeAllocSize(g->getSourceElementType()); d["inb"] = g->isInBounds();
          // the array type whose elements are selected, if any
          json::Array at; Type *outer = nullptr;
          for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
            if (gti.isSequential()) {
              int64_t cnt = -1; if (auto *aty = dyn_cast_or_null<ArrayType>(outer)) cnt = aty->getNumElements();
              at.push_back(json::Array{op(gti.getOperand()), cnt, (int64_t)DL.getTypeAllocSize(gti.getIndexedType()).getFixedValue()});
            }
            outer = gti.getIndexedType();
          }
          d["sel"] = std::move(at);
        } else if (auto *cb = dyn_cast<CallBase>(&I)) {
          const Value *cv = cb->getCalledOperand()->stripPointerCasts();
          if (auto *cf = dyn_cast<Function>(cv)) { d["callee"] = cf->getName().str(); } else d["ind"] = op(cv);
          for (auto &a : cb->args()) ops.push_back(op(a.get()));
          json::Array at; for (auto &a : cb->args()) at.push_back(tstr(a->getType())); d["aty"] = std::move(at);
          if (auto *iv = dyn_cast<InvokeInst>(&I)) { d["normal"] = bid[iv->getNormalDest()]; d["unwind"] = bid[iv->getUnwindDest()]; }
        } else if (auto *br = dyn_cast<BranchInst>(&I)) {
          if (br->isConditional()) { ops.push_back(op(br->getCondition())); d["succ"] = json::Array{bid[br->getSuccessor(0)], bid[br->getSuccessor(1)]}; }
          else d["succ"] = json::Array{bid[br->getSuccessor(0)]};
        } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
          ops.push_back(op(sw->getCondition())); d["def"] = bid[sw->getDefaultDest()];
          json::Array cs; for (auto &c : sw->cases()) cs.push_back(json::Array{apint(c.getCaseValue()->getValue()), bid[c.getCaseSuccessor()]}); d["cases"] = std::move(cs);
        } else {
          if (auto *ic = dyn_cast<ICmpInst>(&I)) d["pred"] = ICmpInst::getPredicateName(ic->getPredicate()).str();
          if (auto *al = dyn_cast<AllocaInst>(&I)) { d["alloc"] = (int64_t)DL.getTypeAllocSize(al->getAllocatedType()); d["aty"] = tstr(al->getAllocatedType()); }
          if (auto *st = dyn_cast<StoreInst>(&I)) { d["size"] = (int64_t)DL.getTypeStoreSize(st->getValueOperand()->getType()); d["vty"] = tstr(st->getValueOperand()->getType()); }
          if (auto *ld = dyn_cast<LoadInst>(&I)) d["size"] = (int64_t)DL.getTypeStoreSize(ld->getType());
          if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { json::Array x; for (auto i : ev->indices()) x.push_back((int64_t)i); d["ix"] = std::move(x); }
          if (auto *ev = dyn_cast<InsertValueInst>(&I)) { json::Array x; for (auto i : ev->indices()) x.push_back((int64_t)i); d["ix"] = std::move(x); }
          if (auto *c = dyn_cast<CastInst>(&I)) d["fty"] = tstr(c->getSrcTy());
          for (auto &u : I.operands()) ops.push_back(op(u.get()));
        }
        d["ops"] = std::move(ops);
        ins.push_back(std::move(d));
      }
      bo["ins"] = std::move(ins); blocks.push_back(std::move(bo));
    }
    o["blocks"] = std::move(blocks);
    json::Array loops;
    for (auto *L : LI.getLoopsInPreorder()) {
      json::Object lo; lo["header"] = bid[L->getHeader()]; lo["depth"] = (int64_t)L->getLoopDepth();
      lo["parent"] = L->getParentLoop() ? J(bid[L->getParentLoop()->getHeader()]) : J(nullptr);
      json::Array bs; for (auto *b : L->blocks()) bs.push_back(bid[b]); lo["blocks"] = std::move(bs); loops.push_back(std::move(lo));
    }
    o["loops"] = std::move(loops);
    return o;
  }
};

int main(int argc, char **argv) {
  if (argc < 5) { errs() << "usage\n"; return 2; }
  LLVMContext C; SMDiagnostic E;
  std::unique_ptr<Module> M;
  std::unique_ptr<Linker> L;
  for (int i = 4; i < argc; i++) {
    auto m = parseIRFile(argv[i], E, C);
    if (!m) { E.print("irdump", errs()); return 2; }
    if (!M) { M = std::move(m); L = std::make_unique<Linker>(*M); }
    else if (L->linkInModule(std::move(m))) { errs() << "link failed\n"; return 2; }
  }
  std::set<std::string> keep; std::vector<std::string> patt; bool inlineAll = true, only = false;
  { std::ifstream f(argv[2]); std::string l; while (std::getline(f, l)) { if (l.empty()) continue;
      if (l == "noinline") inlineAll = false; else if (l == "only") only = true; else if (l[0] == '~') patt.push_back(l.substr(1)); else keep.insert(l); } }
  std::vector<Regex> rx; for (auto &p : patt) rx.emplace_back(p);
  for (auto &A : M->aliases()) if (A.getValueType() == A.getAliasee()->getType() || A.getType() == A.getAliasee()->getType()) A.replaceAllUsesWith(A.getAliasee());
  // functions taking part in recursion are never inlined
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::AlwaysInline);
    std::string b = baseName(F.getName());
    std::string srcn = F.getSubprogram() ? F.getSubprogram()->getName().str() : "";
    bool k = !inlineAll || keep.count(b) || keep.count("static " + srcn) ;
    if (only && !k) F.setLinkage(GlobalValue::InternalLinkage), F.setComdat(nullptr);
    if (only && k) F.setLinkage(GlobalValue::ExternalLinkage), F.setComdat(nullptr);
    for (auto &r : rx) if (r.match(b)) k = true;
    if (!k) F.addFnAttr(Attribute::AlwaysInline); else F.addFnAttr(Attribute::NoInline);
  }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  if (auto e = PB.parsePassPipeline(MPM, argv[3])) { errs() << toString(std::move(e)) << "\n"; return 2; }
  MPM.run(*M, MAM);
  if (verifyModule(*M, &errs())) return 2;
  Dump D(*M);
  json::Array fs; for (auto &F : *M) { if (F.isIntrinsic() && F.isDeclaration()) {} fs.push_back(D.fun(F)); }
  json::Array gs;
  for (auto &G : M->globals()) {
    json::Object o; o["name"] = G.getName().str(); o["dem"] = dem(G.getName()); o["const"] = G.isConstant(); o["tls"] = G.isThreadLocal();
    o["ty"] = tstr(G.getValueType()); o["decl"] = G.isDeclaration(); o["internal"] = G.hasLocalLinkage();
    o["size"] = G.isDeclaration() ? (int64_t)-1 : (int64_t)M->getDataLayout().getTypeAllocSize(G.getValueType());
    SmallVector<DIGlobalVariableExpression *, 1> gv; G.getDebugInfo(gv);
    if (!gv.empty()) { auto *v = gv[0]->getVariable(); o["file"] = Dump::path(v->getFile()); o["line"] = (int64_t)v->getLine(); o["src"] = v->getName().str();
      // is the declared type const, and does it lead to memory that is not?
      auto strip = [](const DIType *t) { while (t && t->getTag() == dwarf::DW_TAG_typedef) t = cast<DIDerivedType>(t)->getBaseType(); return t; };
      const DIType *t = strip(v->getType()); bool c = false, pm = false;
      auto arr = [&]() { while (t && t->getTag() == dwarf::DW_TAG_array_type) t = strip(cast<DICompositeType>(t)->getBaseType()); };
      arr();
      if (t && t->getTag() == dwarf::DW_TAG_const_type) { c = true; t = strip(cast<DIDerivedType>(t)->getBaseType()); arr(); }
      if (t && t->getTag() == dwarf::DW_TAG_const_type) { c = true; t = strip(cast<DIDerivedType>(t)->getBaseType()); }
      if (t && (t->getTag() == dwarf::DW_TAG_pointer_type || t->getTag() == dwarf::DW_TAG_reference_type)) { t = strip(cast<DIDerivedType>(t)->getBaseType());
        pm = !(t && (t->getTag() == dwarf::DW_TAG_const_type || t->getTag() == dwarf::DW_TAG_subroutine_type)); }
      o["dconst"] = c; o["dptrmut"] = pm; }
    if (G.hasInitializer()) if (auto *cd = dyn_cast<ConstantDataSequential>(G.getInitializer())) {
      if (cd->isString()) o["str"] = json::fixUTF8(cd->getAsString());
      else if (cd->getElementType()->isIntegerTy()) { json::Array a; for (unsigned i = 0; i < cd->getNumElements(); i++) a.push_back(std::to_string(cd->getElementAsInteger(i))); o["ints"] = std::move(a); o["es"] = (int64_t)(cd->getElementByteSize()); } }
    json::Array us; std::set<std::string> fs2; std::vector<const User *> st(G.user_begin(), G.user_end()); std::set<const User *> seen;
    while (!st.empty()) { auto *u = st.back(); st.pop_back(); if (!seen.insert(u).second) continue; if (auto *I = dyn_cast<Instruction>(u)) fs2.insert(I->getFunction()->getName().str()); else for (auto *x : u->users()) st.push_back(x); }
    for (auto &s : fs2) us.push_back(s); o["users"] = std::move(us);
    gs.push_back(std::move(o));
  }
  std::error_code ec; raw_fd_ostream os(argv[1], ec);
  os << J(json::Object{{"functions", std::move(fs)}, {"globals", std::move(gs)}});
  return 0;
}
