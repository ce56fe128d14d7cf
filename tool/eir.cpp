// eir: dump a compact, SSA-form (post-SROA) JSON view of one LLVM bitcode module.
// Field accesses are resolved to <struct tag>.<member> through debug info.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Analysis/MemorySSA.h"
#include "llvm/Analysis/AliasAnalysis.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/Support/MD5.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static raw_ostream *O;
static const DataLayout *DL;
static std::map<std::string, std::map<uint64_t, std::string>> Fields; // tag -> byte offset -> name
static std::map<std::string, std::vector<std::pair<std::string,int64_t>>> Enums;
static std::map<std::string, std::vector<std::array<std::string,3>>> Structs; // tag-> (name, type, off)

static std::string esc(StringRef s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c == '\n') r += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}

static std::string ditype(const DIType *t, int d = 0) {
  if (!t) return "void";
  if (d > 8) return "?";
  if (auto *b = dyn_cast<DIBasicType>(t)) return b->getName().str();
  if (auto *c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_array_type) {
      return ditype(c->getBaseType(), d + 1) + "[]";
    }
    std::string k = c->getTag() == dwarf::DW_TAG_enumeration_type ? "enum " :
                    c->getTag() == dwarf::DW_TAG_union_type ? "union " : "struct ";
    return k + c->getName().str();
  }
  if (auto *x = dyn_cast<DIDerivedType>(t)) {
    switch (x->getTag()) {
      case dwarf::DW_TAG_typedef: return x->getName().str();
      case dwarf::DW_TAG_pointer_type: return ditype(x->getBaseType(), d + 1) + "*";
      case dwarf::DW_TAG_const_type: case dwarf::DW_TAG_volatile_type: case dwarf::DW_TAG_restrict_type:
        return ditype(x->getBaseType(), d + 1);
      default: return x->getName().str();
    }
  }
  if (isa<DISubroutineType>(t)) return "fn";
  return "?";
}

static const DIType *strip(const DIType *t) {
  while (t) {
    auto *x = dyn_cast<DIDerivedType>(t);
    if (!x) return t;
    if (x->getTag() == dwarf::DW_TAG_typedef || x->getTag() == dwarf::DW_TAG_const_type ||
        x->getTag() == dwarf::DW_TAG_volatile_type) t = x->getBaseType();
    else return t;
  }
  return t;
}

static void collectComposite(const DICompositeType *c, const std::string &tag) {
  if (Structs.count(tag)) return;
  auto &F = Fields[tag]; auto &S = Structs[tag];
  for (auto *e : c->getElements()) {
    auto *m = dyn_cast_or_null<DIDerivedType>(e);
    if (!m || m->getTag() != dwarf::DW_TAG_member) continue;
    uint64_t off = m->getOffsetInBits() / 8;
    if (!F.count(off)) F[off] = m->getName().str();
    S.push_back({m->getName().str(), ditype(m->getBaseType()), std::to_string(off)});
  }
}

static std::string structTag(StructType *st) {
  if (!st->hasName()) return "anon";
  StringRef n = st->getName();
  if (n.starts_with("struct.")) n = n.drop_front(7);
  else if (n.starts_with("union.")) n = n.drop_front(6);
  // strip trailing ".NN"
  size_t p = n.rfind('.');
  if (p != StringRef::npos) {
    bool dig = p + 1 < n.size();
    for (char ch : n.drop_front(p + 1)) if (!isdigit((unsigned char)ch)) dig = false;
    if (dig) n = n.take_front(p);
  }
  return n.str();
}

static std::string fieldName(StructType *st, unsigned idx) {
  std::string tag = structTag(st);
  if (st->isOpaque()) return tag + ".#" + std::to_string(idx);
  uint64_t off = DL->getStructLayout(st)->getElementOffset(idx);
  auto it = Fields.find(tag);
  if (it != Fields.end()) { auto f = it->second.find(off); if (f != it->second.end()) return tag + "." + f->second; }
  return tag + ".#" + std::to_string(idx);
}

static std::map<const Value *, int> Ids;

static std::string gepPath(const GEPOperator *g, bool &ok);
static std::string opnd(const Value *v) {
  if (auto *c = dyn_cast<ConstantInt>(v)) {
    if (c->getBitWidth() <= 64) return "\"#" + std::to_string(c->getBitWidth() == 1 ? (int64_t)c->getZExtValue() : c->getSExtValue()) + "\"";
    return "\"#big\"";
  }
  if (isa<ConstantPointerNull>(v)) return "\"#0\"";
  if (isa<UndefValue>(v)) return "\"undef\"";
  if (auto *c = dyn_cast<ConstantFP>(v)) {
    SmallString<32> s; c->getValueAPF().toString(s); return esc("fp:" + s.str().str());
  }
  if (auto *g = dyn_cast<GlobalValue>(v)) return esc("@" + g->getName().str());
  if (auto *ce = dyn_cast<ConstantExpr>(v)) {
    if (auto *g = dyn_cast<GEPOperator>(ce)) {
      bool ok; std::string p = gepPath(g, ok);
      return "[\"gep\"," + opnd(g->getPointerOperand()) + "," + p + "]";
    }
    if (ce->isCast()) return opnd(ce->getOperand(0));
    return "\"constexpr\"";
  }
  if (isa<Constant>(v)) {
    if (cast<Constant>(v)->isNullValue()) return "\"#0\"";
    return "\"const\"";
  }
  auto it = Ids.find(v);
  if (it != Ids.end()) return "\"%" + std::to_string(it->second) + "\"";
  if (isa<MetadataAsValue>(v)) return "\"md\"";
  if (isa<InlineAsm>(v)) return "\"asm\"";
  return "\"?\"";
}

static std::string gepPath(const GEPOperator *g, bool &ok) {
  std::string r = "[";
  bool first = true; int n = 0;
  for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi, ++n) {
    Value *ix = gi.getOperand();
    std::string s;
    if (StructType *st = gi.getStructTypeOrNull()) {
      unsigned k = cast<ConstantInt>(ix)->getZExtValue();
      s = esc(fieldName(st, k));
    } else {
      if (n == 0) { if (auto *c = dyn_cast<ConstantInt>(ix)) if (c->isZero()) continue; }
      s = "[" + opnd(ix) + "," + std::to_string((unsigned long long)DL->getTypeAllocSize(gi.getIndexedType()).getFixedValue()) + "]";
    }
    if (!first) r += ",";
    r += s; first = false;
  }
  return r + "]";
}

static std::string tyname(Type *t) {
  if (t->isVoidTy()) return "void";
  if (t->isPointerTy()) return "ptr";
  if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
  if (t->isDoubleTy()) return "double";
  if (t->isFloatTy()) return "float";
  if (auto *s = dyn_cast<StructType>(t)) return structTag(s);
  if (auto *a = dyn_cast<ArrayType>(t)) return "[" + std::to_string(a->getNumElements()) + " x " + tyname(a->getElementType()) + "]";
  return "other";
}

static std::string initv(const Constant *c, int depth = 0) {
  if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
    if (cds->isString()) {
      StringRef s = cds->getAsString();
      size_t z = s.find('\0'); if (z != StringRef::npos) s = s.take_front(z);
      return "{\"s\":" + esc(s) + "}";
    }
    std::string r = "[";
    for (unsigned i = 0; i < cds->getNumElements(); i++) { if (i) r += ","; r += opnd(cds->getElementAsConstant(i)); }
    return r + "]";
  }
  if (isa<ConstantAggregate>(c)) {
    std::string r = "[";
    for (unsigned i = 0; i < c->getNumOperands(); i++) { if (i) r += ","; r += initv(cast<Constant>(c->getOperand(i)), depth + 1); }
    return r + "]";
  }
  if (isa<ConstantAggregateZero>(c)) return "\"zero\"";
  return opnd(c);
}


// ---------------------------------------------------------------- normal form
// A function's normal form is its optimised, renumbered dependence graph: independent of names, of the order of independent computations, of the way
// conditions and loops are spelt, and of helpers that did not exist in the reference tree (these are inlined).
struct Norm {
  Function &F; MemorySSA &MS; AAResults &AA;
  std::map<const Value *, int> num; std::vector<const Value *> work;
  std::map<const BasicBlock *, int> bn; std::vector<const BasicBlock *> order;
  std::map<const MemoryAccess *, int> mem;
  std::string out;
  Norm(Function &F, MemorySSA &MS, AAResults &AA) : F(F), MS(MS), AA(AA) {}
  static std::string ty(Type *t) { std::string s; raw_string_ostream o(s); if (auto *st = dyn_cast<StructType>(t)) { if (st->hasName()) { auto n = st->getName(); size_t p = n.rfind('.'); if (p != StringRef::npos && p > 6 && isdigit(n[p+1])) n = n.substr(0, p); return n.str(); } } t->print(o, false, true); return o.str(); }
  static std::string cst(const Constant *c, int d = 0) {
    if (auto *g = dyn_cast<GlobalVariable>(c)) {
      if (g->hasPrivateLinkage() && g->hasInitializer() && d < 4) return "{" + cst(g->getInitializer(), d + 1) + "}";
      return "@" + g->getName().str();
    }
    if (auto *g = dyn_cast<GlobalValue>(c)) return "@" + g->getName().str();
    if (auto *i = dyn_cast<ConstantInt>(c)) { SmallString<32> s; i->getValue().toStringSigned(s); return ty(c->getType()) + " " + s.str().str(); }
    if (auto *i = dyn_cast<ConstantDataSequential>(c)) { if (i->isString()) return "\"" + i->getAsString().str() + "\""; }
    if (auto *e = dyn_cast<ConstantExpr>(c)) { std::string s = std::string(e->getOpcodeName()) + "(";
      if (auto *g = dyn_cast<GEPOperator>(e)) s += ty(g->getSourceElementType()) + ":";
      for (auto &o : e->operands()) s += cst(cast<Constant>(o), d) + ","; return s + ")"; }
    if (isa<ConstantAggregate>(c)) { std::string s = "["; for (auto &o : c->operands()) s += cst(cast<Constant>(o), d) + ","; return s + "]"; }
    std::string s; raw_string_ostream o(s); c->print(o); return o.str();
  }
  // structural hash that does not depend on numbering; used to order commutative operands and commuting stores
  std::map<std::pair<const Value *, int>, uint64_t> hc;
  static uint64_t mix(uint64_t a, uint64_t b) { a ^= b + 0x9e3779b97f4a7c15ULL + (a << 6) + (a >> 2); a *= 0xff51afd7ed558ccdULL; a ^= a >> 33; return a; }
  static uint64_t hs(StringRef s) { return MD5Hash(s); }
  uint64_t h(const Value *v, int d = 0) {
    if (auto *c = dyn_cast<Constant>(v)) return hs(cst(c));
    if (auto *a = dyn_cast<Argument>(v)) return mix(77, a->getArgNo());
    if (d > 7) return 1;
    auto k = std::make_pair(v, d); auto it = hc.find(k); if (it != hc.end()) return it->second;
    auto *i = dyn_cast<Instruction>(v); if (!i) return 2;
    uint64_t r = mix(i->getOpcode(), hs(ty(i->getType())));
    if (auto *c = dyn_cast<CmpInst>(i)) r = mix(r, c->getPredicate());
    if (auto *g = dyn_cast<GetElementPtrInst>(i)) r = mix(r, hs(ty(g->getSourceElementType())));
    bool comm = i->isCommutative() || isa<PHINode>(i) || (isa<ICmpInst>(i) && cast<ICmpInst>(i)->isEquality());
    uint64_t s = 0;
    for (auto &o : i->operands()) { if (isa<BasicBlock>(o)) continue; uint64_t x = h(o, d + (isa<PHINode>(i) ? 3 : 1)); if (comm) s += x * (x | 1); else r = mix(r, x); }
    r = mix(r, s);
    return hc[k] = r;
  }
  int n(const Value *v) {
    auto it = num.find(v); if (it != num.end()) return it->second;
    int k = num.size(); num[v] = k; work.push_back(v); return k;
  }
  std::string op(const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) return cst(c);
    if (auto *a = dyn_cast<Argument>(v)) return "a" + std::to_string(a->getArgNo());
    if (auto *b = dyn_cast<BasicBlock>(v)) return "b" + std::to_string(bn[b]);
    if (isa<Instruction>(v)) return "%" + std::to_string(n(v));
    return "?";
  }
  static bool effect(const Instruction *i) { return i->mayWriteToMemory() || i->isTerminator() || isa<CallBase>(i) || i->mayHaveSideEffects(); }
  std::string memid(const MemoryAccess *m) {
    if (MS.isLiveOnEntryDef(m)) return "m0";
    if (auto *p = dyn_cast<MemoryPhi>(m)) return "mp" + std::to_string(bn[p->getBlock()]);
    auto it = mem.find(m); return "m" + std::to_string(it == mem.end() ? -1 : it->second);
  }
  std::string def(const Value *v) {
    auto *i = cast<Instruction>(v);
    std::string s = std::string(i->getOpcodeName()) + " " + ty(i->getType());
    if (auto *p = dyn_cast<PHINode>(i)) {
      std::vector<std::pair<int, const Value *>> in;
      for (unsigned k = 0; k < p->getNumIncomingValues(); k++) in.push_back({bn[p->getIncomingBlock(k)], p->getIncomingValue(k)});
      std::sort(in.begin(), in.end(), [](auto &a, auto &b) { return a.first < b.first; });
      s += " in b" + std::to_string(bn[p->getParent()]);
      for (auto &x : in) s += " [" + std::to_string(x.first) + ":" + op(x.second) + "]";
      return s;
    }
    if (auto *c = dyn_cast<CmpInst>(i)) s += std::string(" ") + CmpInst::getPredicateName(c->getPredicate()).str();
    if (auto *g = dyn_cast<GetElementPtrInst>(i)) s += " " + ty(g->getSourceElementType());
    if (auto *a = dyn_cast<AllocaInst>(i)) s += " " + ty(a->getAllocatedType());
    if (isa<LoadInst>(i)) {
      auto *ma = MS.getMemoryAccess(i);
      if (ma) s += " " + memid(MS.getWalker()->getClobberingMemoryAccess(ma));
    }
    if (auto *e = dyn_cast<ExtractValueInst>(i)) for (unsigned x : e->indices()) s += " ." + std::to_string(x);
    std::vector<const Value *> ops(i->op_begin(), i->op_end());
    if (ops.size() == 2 && (i->isCommutative() || (isa<ICmpInst>(i) && cast<ICmpInst>(i)->isEquality())) && h(ops[1]) < h(ops[0])) std::swap(ops[0], ops[1]);
    if (isa<CallBase>(i)) s += " call";
    for (auto *o : ops) s += " " + op(o);
    return s;
  }
  std::string run() {
    // blocks in canonical depth-first order
    std::vector<const BasicBlock *> st{&F.getEntryBlock()};
    while (!st.empty()) {
      auto *b = st.back(); st.pop_back();
      if (bn.count(b)) continue;
      bn[b] = order.size(); order.push_back(b);
      auto *t = b->getTerminator();
      std::vector<const BasicBlock *> su;
      if (auto *sw = dyn_cast<SwitchInst>(t)) {
        std::vector<std::pair<int64_t, const BasicBlock *>> cs;
        for (auto &c : sw->cases()) cs.push_back({c.getCaseValue()->getSExtValue(), c.getCaseSuccessor()});
        std::sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; });
        for (auto &c : cs) su.push_back(c.second);
        su.push_back(sw->getDefaultDest());
      } else for (unsigned k = 0; k < t->getNumSuccessors(); k++) su.push_back(t->getSuccessor(k));
      for (auto it = su.rbegin(); it != su.rend(); ++it) st.push_back(*it);
    }
    // effects; adjacent stores that do not alias are sorted
    std::map<const BasicBlock *, std::vector<const Instruction *>> eff;
    int mc = 1;
    for (auto *b : order) {
      auto &l = eff[b];
      for (auto &i : *b) if (effect(&i)) l.push_back(&i);
      for (size_t k = 0; k < l.size();) {
        size_t e = k;
        while (e < l.size() && isa<StoreInst>(l[e]) && cast<StoreInst>(l[e])->isSimple()) {
          bool ok = true;
          for (size_t j = k; j < e && ok; j++) ok = AA.isNoAlias(MemoryLocation::get(cast<StoreInst>(l[j])), MemoryLocation::get(cast<StoreInst>(l[e])));
          if (!ok) break;
          e++;
        }
        if (e > k + 1) std::stable_sort(l.begin() + k, l.begin() + e, [&](const Instruction *a, const Instruction *b) {
          return mix(h(a->getOperand(1)), h(a->getOperand(0))) < mix(h(b->getOperand(1)), h(b->getOperand(0))); });
        k = e > k ? e : k + 1;
      }
      for (auto *i : l) if (auto *ma = MS.getMemoryAccess(i)) mem[ma] = mc++;
    }
    for (auto *b : order) {
      out += "b" + std::to_string(bn[b]) + ":\n";
      for (auto *i : eff[b]) {
        if (auto *sw = dyn_cast<SwitchInst>(i)) {
          out += "switch " + op(sw->getCondition());
          std::vector<std::pair<int64_t, int>> cs;
          for (auto &c : sw->cases()) cs.push_back({c.getCaseValue()->getSExtValue(), bn[c.getCaseSuccessor()]});
          std::sort(cs.begin(), cs.end());
          for (auto &c : cs) out += " " + std::to_string(c.first) + ":" + std::to_string(c.second);
          out += " d" + std::to_string(bn[sw->getDefaultDest()]) + "\n";
        } else if (auto *br = dyn_cast<BranchInst>(i)) {
          out += "br"; if (br->isConditional()) out += " " + op(br->getCondition());
          for (unsigned k = 0; k < br->getNumSuccessors(); k++) out += " b" + std::to_string(bn[br->getSuccessor(k)]);
          out += "\n";
        } else {
          if (!i->getType()->isVoidTy()) out += op(i) + " = ";
          out += def(i) + "\n";
        }
      }
    }
    for (size_t k = 0; k < work.size(); k++) {
      auto *i = cast<Instruction>(work[k]);
      if (effect(i)) continue;
      std::string d = def(i);
      out += "%" + std::to_string(num[i]) + " = " + d + "\n";
    }
    return out;
  }
};

static void readNames(const char *p, std::set<std::string> &s) {
  FILE *f = fopen(p, "r"); if (!f) return;
  char b[1024]; while (fgets(b, sizeof b, f)) { std::string x(b); while (!x.empty() && (x.back() == '\n' || x.back() == ' ')) x.pop_back(); s.insert(x); }
  fclose(f);
}

static void normalise(Module &M, const char *known, const char *outp, bool full) {
  std::set<std::string> kn; readNames(known, kn);
  StripDebugInfo(M);
  for (auto &Fn : M) {
    Fn.removeFnAttr(Attribute::OptimizeNone); Fn.removeFnAttr(Attribute::NoInline); Fn.removeFnAttr(Attribute::AlwaysInline); Fn.removeFnAttr(Attribute::InlineHint);
    if (Fn.isDeclaration()) continue;
    if (kn.count(Fn.getName().str()) || Fn.isVarArg()) Fn.addFnAttr(Attribute::NoInline); else Fn.addFnAttr(Attribute::AlwaysInline);
  }
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  MPM.addPass(AlwaysInlinerPass());
  for (int k = 0; k < 2; k++)
    MPM.addPass(createModuleToFunctionPassAdaptor(PB.buildFunctionSimplificationPipeline(OptimizationLevel::O2, ThinOrFullLTOPhase::None)));
  FunctionPassManager L;
  L.addPass(SimplifyCFGPass(SimplifyCFGOptions().hoistCommonInsts(true).sinkCommonInsts(true)));
  MPM.addPass(createModuleToFunctionPassAdaptor(std::move(L)));
  MPM.run(M, MAM);
  std::error_code ec; raw_fd_ostream out(outp, ec);
  for (auto &Fn : M) if (!Fn.isDeclaration() && kn.count(Fn.getName().str())) {
    auto &MS = FAM.getResult<MemorySSAAnalysis>(Fn).getMSSA();
    auto &AA = FAM.getResult<AAManager>(Fn);
    std::string t = Norm(Fn, MS, AA).run();
    MD5 m; m.update(t); MD5::MD5Result r; m.final(r);
    out << Fn.getName() << " " << r.digest() << "\n";
    if (full) out << t << "\n";
  }
}

// Development only: behaviour-preserving rewrites of the IR, to find rules that depend on how the code is written.
static void swapConds(Function &F) {
  // br c1 ? B : X;  B: (pure) br c2 ? T : X   ==>   the two tests the other way round
  std::set<BasicBlock *> done;
  for (auto &A : F) {
    auto *b1 = dyn_cast<BranchInst>(A.getTerminator());
    if (!b1 || !b1->isConditional() || done.count(&A)) continue;
    for (int k = 0; k < 2; k++) {
      BasicBlock *B = b1->getSuccessor(k), *X = b1->getSuccessor(1 - k);
      if (B == X || B == &A || B->getSinglePredecessor() != &A) continue;
      auto *b2 = dyn_cast<BranchInst>(B->getTerminator());
      if (!b2 || !b2->isConditional()) continue;
      int j = b2->getSuccessor(0) == X ? 0 : b2->getSuccessor(1) == X ? 1 : -1;
      if (j < 0 || b2->getSuccessor(1 - j) == X) continue;
      bool ok = true;
      for (auto &I : *B) {
        if (&I == b2 || isa<DbgInfoIntrinsic>(&I)) continue;
        if (isa<PHINode>(&I) || I.mayHaveSideEffects()) { ok = false; break; }
        // a test that is only meaningful after the first one (p && p->x) stays behind it
        if (auto *L = dyn_cast<LoadInst>(&I)) {
          Value *c = b1->getCondition();
          if (auto *cmp = dyn_cast<ICmpInst>(c)) if (isa<ConstantPointerNull>(cmp->getOperand(1))) { ok = false; break; }
        }
      }
      for (auto &P : X->phis()) if (P.getIncomingValueForBlock(&A) != P.getIncomingValueForBlock(B)) ok = false;
      if (!ok) continue;
      std::vector<Instruction *> mv;
      for (auto &I : *B) if (&I != b2) mv.push_back(&I);
      for (auto *I : mv) I->moveBefore(b1);
      Value *c1 = b1->getCondition(), *c2 = b2->getCondition();
      // b1 goes to B on side k, b2 to X on side j
      auto pick = [&](Value *c, bool neg, Instruction *at) -> Value * { return neg ? BinaryOperator::CreateNot(c, "", at) : c; };
      bool flip = (k != 1 - j);      // B on side k must mean "not X" for both tests
      b1->setCondition(pick(c2, flip, b1));
      b2->setCondition(pick(c1, flip, b2));
      auto d1 = b1->getDebugLoc(); b1->setDebugLoc(b2->getDebugLoc()); b2->setDebugLoc(d1);
      done.insert(&A); done.insert(B);
      break;
    }
  }
}
static bool sameAddr(Value *a, Value *b, int d = 0) {
  if (a == b) return true;
  if (d > 6) return false;
  auto *x = dyn_cast<Instruction>(a), *y = dyn_cast<Instruction>(b);
  if (!x || !y || x->getOpcode() != y->getOpcode() || x->getType() != y->getType() || x->getNumOperands() != y->getNumOperands()) return false;
  if (!isa<GetElementPtrInst>(x) && !isa<CastInst>(x)) return false;
  if (auto *g = dyn_cast<GetElementPtrInst>(x)) if (g->getSourceElementType() != cast<GetElementPtrInst>(y)->getSourceElementType()) return false;
  for (unsigned i = 0; i < x->getNumOperands(); i++) if (!sameAddr(x->getOperand(i), y->getOperand(i), d + 1)) return false;
  return true;
}
static void cacheLoads(Function &F, FunctionAnalysisManager &FAM) {
  // values read twice with no write in between are read once; values just stored are not read back
  for (bool ch = true; ch;) {
    ch = false;
    auto &DT = FAM.getResult<DominatorTreeAnalysis>(F);
    auto &MS = FAM.getResult<MemorySSAAnalysis>(F).getMSSA();
    std::vector<LoadInst *> L; std::vector<StoreInst *> S;
    for (auto &B : F) for (auto &I : B) { if (auto *l = dyn_cast<LoadInst>(&I)) L.push_back(l); if (auto *s = dyn_cast<StoreInst>(&I)) S.push_back(s); }
    std::map<LoadInst *, Value *> rep;
    for (auto *l : L) {
      if (l->isVolatile() || !l->getPointerOperand()) continue;
      auto *c = MS.getWalker()->getClobberingMemoryAccess(l);
      if (auto *d = dyn_cast<MemoryDef>(c)) if (auto *s = dyn_cast_or_null<StoreInst>(d->getMemoryInst()))
        if (s->getValueOperand()->getType() == l->getType() && sameAddr(s->getPointerOperand(), l->getPointerOperand()) && !isa<PHINode>(s->getPointerOperand())) { rep[l] = s->getValueOperand(); continue; }
      for (auto *k : L) if (k != l && !rep.count(k) && k->getType() == l->getType() && sameAddr(k->getPointerOperand(), l->getPointerOperand()) && DT.dominates(k, l)
          && MS.getWalker()->getClobberingMemoryAccess(k) == c) { rep[l] = k; break; }
    }
    for (auto &p : rep) { Value *v = p.second; while (auto *q = dyn_cast<LoadInst>(v)) { auto it = rep.find(q); if (it == rep.end()) break; v = it->second; } p.first->replaceAllUsesWith(v); ch = true; }
    for (auto &p : rep) p.first->eraseFromParent();
    FAM.clear();
  }
}
static void stress(Function &F, FunctionAnalysisManager &FAM, PassBuilder &PB, const std::string &what) {
  if (what == "swap") { swapConds(F); return; }
  if (what == "cache") { cacheLoads(F, FAM); return; }
  FunctionPassManager P;
  if (auto e = PB.parsePassPipeline(P, what)) { errs() << toString(std::move(e)) << "\n"; exit(2); }
  P.run(F, FAM); FAM.clear();
}

int main(int argc, char **argv) {
  if (argc < 3) { errs() << "usage: eir in.bc out.json\n"; return 2; }
  LLVMContext C; SMDiagnostic E;
  auto M = parseIRFile(argv[1], E, C);
  if (!M) { E.print(argv[0], errs()); return 2; }
  DL = &M->getDataLayout();

  DebugInfoFinder F; F.processModule(*M);
  for (auto *t : F.types()) {
    if (auto *c = dyn_cast<DICompositeType>(t)) {
      if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
        std::string nm = c->getName().str();
        if (nm.empty()) nm = "anon@" + c->getFilename().str() + ":" + std::to_string(c->getLine());
        auto &v = Enums[nm];
        if (v.empty()) for (auto *e : c->getElements()) if (auto *en = dyn_cast_or_null<DIEnumerator>(e))
          v.push_back({en->getName().str(), en->getValue().getSExtValue()});
      } else if (c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_union_type) {
        if (!c->getName().empty() && !c->isForwardDecl()) collectComposite(c, c->getName().str());
      }
    } else if (auto *x = dyn_cast<DIDerivedType>(t)) {
      if (x->getTag() == dwarf::DW_TAG_typedef) {
        auto *b = dyn_cast_or_null<DICompositeType>(x->getBaseType());
        if (b && b->getName().empty()) {
          if (b->getTag() == dwarf::DW_TAG_enumeration_type) {
            auto &v = Enums[x->getName().str()];
            if (v.empty()) for (auto *e : b->getElements()) if (auto *en = dyn_cast_or_null<DIEnumerator>(e))
              v.push_back({en->getName().str(), en->getValue().getSExtValue()});
          } else if (b->getTag() != dwarf::DW_TAG_array_type) collectComposite(b, x->getName().str());
        }
      }
    }
  }

  // SROA
  {
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    FunctionPassManager FPM; FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
    for (auto &Fn : *M) if (!Fn.isDeclaration()) {
      removeUnreachableBlocks(Fn);
      Fn.removeFnAttr(Attribute::OptimizeNone);
      FPM.run(Fn, FAM);
      FAM.clear();
      if (const char *st = getenv("EIR_STRESS")) stress(Fn, FAM, PB, st);
      // selects become explicit branches, so that ?: and if/else look alike
      std::vector<SelectInst *> Sel;
      for (auto &BB : Fn) for (auto &I : BB) if (auto *s = dyn_cast<SelectInst>(&I)) Sel.push_back(s);
      for (auto *s : Sel) {
        if (!s->getCondition()->getType()->isIntegerTy(1)) continue;
        Instruction *T, *E;
        SplitBlockAndInsertIfThenElse(s->getCondition(), s, &T, &E);
        auto *P = PHINode::Create(s->getType(), 2, "", &*s->getParent()->begin());
        P->addIncoming(s->getTrueValue(), T->getParent());
        P->addIncoming(s->getFalseValue(), E->getParent());
        T->setDebugLoc(s->getDebugLoc()); E->setDebugLoc(s->getDebugLoc()); P->setDebugLoc(s->getDebugLoc());
        T->getParent()->getSinglePredecessor()->getTerminator()->setDebugLoc(s->getDebugLoc());
        s->replaceAllUsesWith(P); s->eraseFromParent();
      }
    }
  }

  std::error_code ec; raw_fd_ostream out(argv[2], ec);
  if (ec) { errs() << ec.message() << "\n"; return 2; }
  O = &out;
  out << "{\"source\":" << esc(M->getSourceFileName()) << ",\n\"enums\":{";
  bool first = true;
  for (auto &e : Enums) {
    out << (first ? "" : ",") << esc(e.first) << ":["; first = false;
    bool f2 = true; for (auto &p : e.second) { out << (f2 ? "" : ",") << "[" << esc(p.first) << "," << p.second << "]"; f2 = false; }
    out << "]";
  }
  out << "},\n\"structs\":{"; first = true;
  for (auto &s : Structs) {
    out << (first ? "" : ",\n") << esc(s.first) << ":["; first = false;
    bool f2 = true; for (auto &p : s.second) { out << (f2 ? "" : ",") << "[" << esc(p[0]) << "," << esc(p[1]) << "," << p[2] << "]"; f2 = false; }
    out << "]";
  }
  out << "},\n\"sizes\":{"; first = true;
  for (auto *st : M->getIdentifiedStructTypes()) if (!st->isOpaque()) {
    out << (first ? "" : ",") << esc(structTag(st)) << ":" << (unsigned long long)DL->getTypeAllocSize(st).getFixedValue(); first = false;
  }
  out << "},\n\"globals\":{"; first = true;
  for (auto &G : M->globals()) {
    std::string dt;
    SmallVector<DIGlobalVariableExpression *, 1> gv; G.getDebugInfo(gv);
    if (!gv.empty()) dt = ditype(gv[0]->getVariable()->getType());
    out << (first ? "" : ",\n") << esc(G.getName()) << ":{\"def\":" << (G.isDeclaration() ? 0 : 1)
        << ",\"const\":" << (G.isConstant() ? 1 : 0) << ",\"local\":" << (G.hasLocalLinkage() ? 1 : 0)
        << ",\"ty\":" << esc(tyname(G.getValueType())) << ",\"dt\":" << esc(dt)
        << ",\"line\":" << (gv.empty() ? 0 : gv[0]->getVariable()->getLine());
    if (G.hasInitializer()) out << ",\"init\":" << initv(G.getInitializer());
    out << "}"; first = false;
  }
  out << "},\n\"functions\":{"; first = true;
  for (auto &Fn : *M) {
    if (Fn.isIntrinsic()) continue;
    if (Fn.isDeclaration()) continue;
    Ids.clear(); int id = 0;
    for (auto &A : Fn.args()) Ids[&A] = id++;
    std::map<const BasicBlock *, int> B; int bn = 0;
    for (auto &BB : Fn) { B[&BB] = bn++; for (auto &I : BB) if (!I.getType()->isVoidTy()) Ids[&I] = id++; }
    out << (first ? "" : ",\n") << esc(Fn.getName()) << ":{\"local\":" << (Fn.hasLocalLinkage() ? 1 : 0)
        << ",\"noret\":" << (Fn.doesNotReturn() ? 1 : 0) << ",\"va\":" << (Fn.isVarArg() ? 1 : 0);
    first = false;
    std::vector<std::string> pts; std::string rt; std::vector<std::string> pnames(Fn.arg_size());
    auto *SP = Fn.getSubprogram();
    if (SP) {
      out << ",\"file\":" << esc(SP->getFilename()) << ",\"line\":" << SP->getLine();
      if (auto *ty = SP->getType()) { auto a = ty->getTypeArray();
        for (unsigned i = 0; i < a.size(); i++) { if (i == 0) rt = ditype(a[i]); else pts.push_back(ditype(a[i])); } }
      for (auto *n : SP->getRetainedNodes()) if (auto *lv = dyn_cast<DILocalVariable>(n))
        if (lv->getArg() && lv->getArg() <= pnames.size()) pnames[lv->getArg() - 1] = lv->getName().str();
    }
    // names from dbg intrinsics
    std::map<int, std::string> vnames; std::map<int, std::string> vtypes;
    for (auto &BB : Fn) for (auto &I : BB) if (auto *dv = dyn_cast<DbgVariableIntrinsic>(&I)) {
      if (dv->getNumVariableLocationOps() < 1) continue;
      Value *v = dv->getVariableLocationOp(0);
      if (v && Ids.count(v)) { if (!vnames.count(Ids[v])) { vnames[Ids[v]] = dv->getVariable()->getName().str(); vtypes[Ids[v]] = ditype(dv->getVariable()->getType()); } }
    }
    out << ",\"rt\":" << esc(rt) << ",\"rty\":" << esc(tyname(Fn.getReturnType())) << ",\"args\":[";
    for (unsigned i = 0; i < Fn.arg_size(); i++) {
      std::string nm = vnames.count(i) ? vnames[i] : pnames[i];
      out << (i ? "," : "") << "[" << esc(nm) << "," << esc(i < pts.size() ? pts[i] : "") << "]";
    }
    out << "],\"names\":{";
    { bool f = true; for (auto &p : vnames) { out << (f ? "" : ",") << "\"" << p.first << "\":[" << esc(p.second) << "," << esc(vtypes[p.first]) << "]"; f = false; } }
    out << "},\"blocks\":[";
    bool fb = true;
    for (auto &BB : Fn) {
      out << (fb ? "" : ",") << "\n["; fb = false; bool fi = true;
      for (auto &I : BB) {
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        if (auto *ii = dyn_cast<IntrinsicInst>(&I)) {
          auto k = ii->getIntrinsicID();
          if (k == Intrinsic::lifetime_start || k == Intrinsic::lifetime_end) continue;
        }
        unsigned line = I.getDebugLoc() ? I.getDebugLoc().getLine() : 0;
        int rid = Ids.count(&I) ? Ids[&I] : -1;
        out << (fi ? "" : ",") << "[" << rid << "," << line << ","; fi = false;
        if (auto *c = dyn_cast<CallBase>(&I)) {
          Value *cv = c->getCalledOperand()->stripPointerCasts();
          out << "\"call\"," << opnd(cv) << ",[";
          for (unsigned i = 0; i < c->arg_size(); i++) out << (i ? "," : "") << opnd(c->getArgOperand(i));
          out << "]," << (c->doesNotReturn() ? 1 : 0);
        } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
          bool ok; out << "\"gep\"," << opnd(g->getPointerOperand()) << "," << gepPath(cast<GEPOperator>(g), ok);
        } else if (auto *l = dyn_cast<LoadInst>(&I)) {
          out << "\"load\"," << opnd(l->getPointerOperand()) << "," << esc(tyname(l->getType()));
        } else if (auto *s = dyn_cast<StoreInst>(&I)) {
          out << "\"store\"," << opnd(s->getValueOperand()) << "," << opnd(s->getPointerOperand()) << "," << esc(tyname(s->getValueOperand()->getType()));
        } else if (auto *a = dyn_cast<AllocaInst>(&I)) {
          out << "\"alloca\"," << esc(tyname(a->getAllocatedType())) << "," << opnd(a->getArraySize());
        } else if (auto *p = dyn_cast<PHINode>(&I)) {
          out << "\"phi\",[";
          for (unsigned i = 0; i < p->getNumIncomingValues(); i++) out << (i ? "," : "") << "[" << opnd(p->getIncomingValue(i)) << "," << B[p->getIncomingBlock(i)] << "]";
          out << "]";
        } else if (auto *c = dyn_cast<CmpInst>(&I)) {
          out << "\"cmp\"," << esc(CmpInst::getPredicateName(c->getPredicate())) << "," << opnd(c->getOperand(0)) << "," << opnd(c->getOperand(1));
        } else if (auto *b = dyn_cast<BinaryOperator>(&I)) {
          out << "\"bin\"," << esc(b->getOpcodeName()) << "," << opnd(b->getOperand(0)) << "," << opnd(b->getOperand(1));
        } else if (auto *c = dyn_cast<CastInst>(&I)) {
          out << "\"cast\"," << esc(c->getOpcodeName()) << "," << opnd(c->getOperand(0)) << "," << esc(tyname(c->getSrcTy())) << "," << esc(tyname(c->getDestTy()));
        } else if (auto *s = dyn_cast<SelectInst>(&I)) {
          out << "\"select\"," << opnd(s->getCondition()) << "," << opnd(s->getTrueValue()) << "," << opnd(s->getFalseValue());
        } else if (auto *b = dyn_cast<BranchInst>(&I)) {
          if (b->isConditional()) out << "\"br\"," << opnd(b->getCondition()) << "," << B[b->getSuccessor(0)] << "," << B[b->getSuccessor(1)];
          else out << "\"jmp\"," << B[b->getSuccessor(0)];
        } else if (auto *s = dyn_cast<SwitchInst>(&I)) {
          out << "\"switch\"," << opnd(s->getCondition()) << "," << B[s->getDefaultDest()] << ",[";
          bool f = true; for (auto &cs : s->cases()) { out << (f ? "" : ",") << "[" << cs.getCaseValue()->getSExtValue() << "," << B[cs.getCaseSuccessor()] << "]"; f = false; }
          out << "]";
        } else if (auto *r = dyn_cast<ReturnInst>(&I)) {
          out << "\"ret\","; if (r->getReturnValue()) out << opnd(r->getReturnValue()); else out << "null";
        } else if (isa<UnreachableInst>(&I)) {
          out << "\"unreachable\"";
        } else if (auto *e = dyn_cast<ExtractValueInst>(&I)) {
          out << "\"extract\"," << opnd(e->getAggregateOperand()) << ",["; bool f = true;
          for (unsigned ix : e->indices()) { out << (f ? "" : ",") << ix; f = false; } out << "]";
        } else if (auto *e = dyn_cast<InsertValueInst>(&I)) {
          out << "\"insert\"," << opnd(e->getAggregateOperand()) << "," << opnd(e->getInsertedValueOperand());
        } else {
          out << "\"other\"," << esc(I.getOpcodeName()) << ",[";
          for (unsigned i = 0; i < I.getNumOperands(); i++) out << (i ? "," : "") << opnd(I.getOperand(i));
          out << "]";
        }
        out << "]";
      }
      out << "]";
    }
    out << "]}";
  }
  out << "}}\n";
  out.flush();
  if (argc > 4) normalise(*M, argv[3], argv[4], argc > 5);
  return 0;
}
