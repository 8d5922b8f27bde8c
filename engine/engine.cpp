// mse: a small symbolic executor for LLVM 18 bitcode with Z3 as the deciding back end.
#include "engine.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <thread>

using namespace llvm;

static double nowS() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ------------------------------------------------------------------ memory
static Obj* freedObj() { static Obj* o = [] { Obj* x = new Obj; x->kind = OFreed; x->ref = 1 << 28; return x; }(); return o; }
static void chunkUnref(Chunk* c) {
  if (!c) return;
  if (--c->ref == 0) { if (c->s) free(c->s); free(c); }
}
static void objUnref(Obj* o) {
  if (!o || o->kind == OFreed) return;
  if (--o->ref == 0) { for (auto c : o->ch) chunkUnref(c); delete o; }
}
static Chunk* newChunk(uint32_t cap, uint8_t fill) {
  Chunk* c = (Chunk*)malloc(sizeof(Chunk) + cap);
  c->ref = 1; c->cap = cap; c->s = nullptr;
  memset(c->b, fill, cap);
  return c;
}
static uint32_t chunkCap(const Obj* o, size_t i) {
  uint64_t rest = (uint64_t)o->size - (uint64_t)i * CH;
  return rest > CH ? CH : (uint32_t)rest;
}
static Chunk* chunkW(Obj* o, size_t i) {
  Chunk*& c = o->ch[i];
  if (!c) c = newChunk(chunkCap(o, i), o->fill);
  else if (c->ref > 1) {
    Chunk* n = newChunk(c->cap, 0);
    memcpy(n->b, c->b, c->cap);
    if (c->s) { n->s = (Expr**)malloc(sizeof(Expr*) * c->cap); memcpy(n->s, c->s, sizeof(Expr*) * c->cap); }
    c->ref--;
    c = n;
  }
  return c;
}
Memory::Memory(const Memory& m) : pages(m.pages), next(m.next) { for (auto p : pages) p->ref++; }
Memory::~Memory() {
  for (auto p : pages)
    if (--p->ref == 0) { for (auto o : p->o) objUnref(o); delete p; }
}
static Page* freedPage() {
  static Page* p = [] { Page* x = new Page; x->ref = 1 << 28; for (auto& o : x->o) o = freedObj(); return x; }();
  return p;
}
static Page* pageW(Memory& m, uint32_t p) {
  Page*& pg = m.pages[p];
  if (pg->ref > 1) {
    Page* n = new Page;
    for (unsigned i = 0; i < PG; i++) { n->o[i] = pg->o[i]; if (n->o[i] && n->o[i]->kind != OFreed) n->o[i]->ref++; }
    pg->ref--;
    pg = n;
  }
  return pg;
}
uint32_t Memory::alloc(uint64_t size, ObjKind k, uint8_t fill) {
  uint32_t id = next++;
  uint32_t p = id / PG;
  while (p >= pages.size()) { Page* n = new Page; for (auto& o : n->o) o = nullptr; pages.push_back(n); }
  Page* pg = pageW(*this, p);
  Obj* o = new Obj;
  o->size = (uint32_t)size; o->kind = k; o->fill = fill;
  o->ch.assign((size + CH - 1) / CH, nullptr);
  pg->o[id % PG] = o;
  return id;
}
Obj* Memory::getW(uint32_t id) {
  Page* pg = pageW(*this, id / PG);
  Obj*& o = pg->o[id % PG];
  if (o->ref > 1) {
    Obj* n = new Obj(*o);
    n->ref = 1;
    for (auto c : n->ch) if (c) c->ref++;
    o->ref--;
    o = n;
  }
  return o;
}
void Memory::release(uint32_t id) {
  uint32_t p = id / PG;
  Page* pg = pageW(*this, p);
  Obj*& o = pg->o[id % PG];
  objUnref(o);
  o = freedObj();
  // collapse fully freed pages
  if (p + 1 < pages.size()) {
    for (auto x : pg->o) if (x != freedObj() && !(p == 0 && x == pg->o[0] && x == nullptr)) return;
    if (pg != freedPage()) {
      if (--pg->ref == 0) delete pg;
      pages[p] = freedPage();
      freedPage()->ref++;
    }
  }
}

static inline uint64_t addrOf(uint32_t id) { return (uint64_t)id << 32; }

// ------------------------------------------------------------------ engine
struct Finding {
  std::string kind, label, where;
  std::vector<std::pair<std::string, std::string>> inputs;  // name, hex
  std::vector<int> sched;
  std::vector<std::string> stack;
  int count = 1;
};

struct Options {
  std::string entry, out;
  double maxTime = 300;
  uint64_t maxInstrPath = 20000000;
  uint64_t maxPaths = 1000000;
  uint64_t mallocLimit = 64u << 20;
  int maxEnum = 300;
  int maxFindings = 4;
  int maxPreempt = 2;
  int maxTimeouts = 1;
  bool races = false;
  bool hangIsFinding = false;
  bool merge = true;
  unsigned solverMs = 60000;
  int verbose = 0;
} opt;

enum class St { Run, Dead };

struct Engine;
typedef std::function<bool(Engine&, State&, KI&, std::vector<V>&, V&)> BuiltinFn;

struct Engine {
  std::unique_ptr<Module> M;
  const DataLayout* DL;
  Solver solver;
  std::map<Function*, std::unique_ptr<KFunction>> kfs;
  std::map<const GlobalValue*, uint64_t> gaddr;
  std::map<uint32_t, Function*> funcAt;
  std::map<std::string, int> builtinIdx;
  std::vector<BuiltinFn> builtins;
  std::vector<State*> work;
  std::vector<Finding> findings;
  std::map<std::string, uint64_t> checks;       // label -> times decided
  std::map<std::string, uint64_t> checksTrivial;
  std::map<std::string, uint64_t> covers;
  std::set<std::string> expected;
  std::map<std::string, uint64_t> incomplete;   // reason -> count
  std::map<std::string, int> typeids;
  std::map<std::string, uint64_t> bounds;
  std::set<std::string> stubs;
  uint64_t paths = 0, pathsDone = 0, forks = 0, instrs = 0, errPaths = 0;
  uint64_t assertQ = 0, memQ = 0, branchQ = 0;
  double t0 = nowS();
  bool stop = false;
  std::vector<std::pair<Finding, std::vector<std::string>>> samples;

  // ---------------------------------------------------------- reports
  std::string fname(Function* f) { return demangle(f->getName().str()); }
  std::vector<std::string> stackOf(State& s) {
    std::vector<std::string> r;
    auto& st = s.th[s.cur].st;
    for (int i = (int)st.size() - 1; i >= 0 && r.size() < 14; i--) r.push_back(fname(st[i].kf->F));
    return r;
  }
  void fillInputs(State& s, const Model& m, Finding& f) {
    for (auto& b : s.bufs) {
      std::string hex;
      char t[4];
      for (uint32_t i = 0; i < b.size; i++) {
        uint32_t v = varIndex(b.name, i);
        snprintf(t, sizeof t, "%02x", v < m.size() ? m[v] : 0);
        hex += t;
      }
      f.inputs.push_back({b.name, hex});
    }
    f.sched = s.sched;
  }
  // inputs and covers of some completed paths, for validation against a native run
  void takeSample(State& s) {
    if (samples.size() >= 12 || s.bufs.empty()) return;
    if (pathsDone > 4 && (pathsDone & (pathsDone - 1))) return;
    Finding f;
    fillInputs(s, s.model, f);
    std::vector<std::string> tr;
    uint64_t gen = nextEvalGen();
    for (auto& t : s.trace) {
      if (t.first.compare(0, 6, "cover ") == 0) { tr.push_back(t.first); continue; }
      uint64_t v = t.second.e ? (uint64_t)evalExpr(t.second.e, s.model, gen) : t.second.c;
      char b[32]; snprintf(b, sizeof b, " %llx", (unsigned long long)v);
      tr.push_back(t.first + b);
    }
    samples.push_back({f, tr});
  }
  void report(State& s, const std::string& kind, const std::string& label, const Model& m) {
    std::string where;
    auto st = stackOf(s);
    for (auto& x : st) if (x.find("mdf::") != std::string::npos || x.find("h_") == 0) { where = x; break; }
    if (where.empty() && !st.empty()) where = st[0];
    for (auto& f : findings)
      if (f.kind == kind && f.label == label && f.where == where) { f.count++; return; }
    Finding f;
    f.kind = kind; f.label = label; f.where = where;
    f.stack = st;
    fillInputs(s, m, f);
    findings.push_back(f);
    if (opt.verbose) {
      fprintf(stderr, "FINDING %s %s at %s\n", kind.c_str(), label.c_str(), where.c_str());
      for (auto& x : st) fprintf(stderr, "    %s\n", x.c_str());
      for (auto& p : f.inputs) fprintf(stderr, "    %s = %s\n", p.first.c_str(), p.second.c_str());
    }
    if ((int)findings.size() >= opt.maxFindings) stop = true;
  }
  void incompletePath(State& s, const std::string& why) {
    incomplete[why]++;
    if (opt.verbose && incomplete[why] == 1) {
      fprintf(stderr, "INCOMPLETE %s\n", why.c_str());
      for (auto& x : stackOf(s)) fprintf(stderr, "    %s\n", x.c_str());
    }
  }

  // ---------------------------------------------------------- types
  void leafsOf(Type* t, uint64_t base, std::vector<LeafT>& out) {
    if (t->isVoidTy()) return;
    if (auto* st = dyn_cast<StructType>(t)) {
      const StructLayout* sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) leafsOf(st->getElementType(i), base + sl->getElementOffset(i), out);
      return;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
      uint64_t sz = DL->getTypeAllocSize(at->getElementType());
      for (uint64_t i = 0; i < at->getNumElements(); i++) leafsOf(at->getElementType(), base + i * sz, out);
      return;
    }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) {
      uint64_t sz = DL->getTypeSizeInBits(vt->getElementType()) / 8;
      if (sz == 0) sz = 1;
      for (unsigned i = 0; i < vt->getNumElements(); i++) leafsOf(vt->getElementType(), base + i * sz, out);
      return;
    }
    unsigned bits = t->isPointerTy() ? 64 : (unsigned)DL->getTypeSizeInBits(t);
    out.push_back({bits, base, t->isFloatingPointTy()});
  }
  unsigned nslots(Type* t) { std::vector<LeafT> l; leafsOf(t, 0, l); return l.size(); }
  unsigned scalarBits(Type* t) {
    if (auto* vt = dyn_cast<VectorType>(t)) t = vt->getElementType();
    if (t->isPointerTy()) return 64;
    if (!t->isSized()) return 0;
    return (unsigned)DL->getTypeSizeInBits(t);
  }

  // ---------------------------------------------------------- constants
  uint64_t globalAddr(const GlobalValue* g) {
    if (auto* ga = dyn_cast<GlobalAlias>(g)) return constInt(cast<Constant>(ga->getAliasee()));
    auto it = gaddr.find(g);
    if (it != gaddr.end()) return it->second;
    fprintf(stderr, "no address for %s\n", g->getName().str().c_str());
    abort();
  }
  uint64_t gepOff(const GEPOperator* g) {
    APInt off(64, 0);
    if (!g->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "gep const\n"); abort(); }
    return off.getZExtValue();
  }
  uint64_t constInt(const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) return ci->getValue().getBitWidth() <= 64 ? ci->getZExtValue() : ci->getValue().trunc(64).getZExtValue();
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
      APInt b = cf->getValueAPF().bitcastToAPInt();
      return b.getBitWidth() <= 64 ? b.getZExtValue() : b.trunc(64).getZExtValue();
    }
    if (auto* gv = dyn_cast<GlobalValue>(c)) return globalAddr(gv);
    if (auto* ge = dyn_cast<GEPOperator>(c)) return constInt(cast<Constant>(ge->getPointerOperand())) + gepOff(ge);
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      unsigned w = scalarBits(ce->getType());
      uint64_t m = (uint64_t)maskw(w > 64 ? 64 : w);
      auto A = [&](int i) { return constInt(ce->getOperand(i)); };
      switch (ce->getOpcode()) {
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc:
        case Instruction::ZExt: case Instruction::AddrSpaceCast: return A(0) & m;
        case Instruction::Add: return (A(0) + A(1)) & m;
        case Instruction::Sub: return (A(0) - A(1)) & m;
        case Instruction::Mul: return (A(0) * A(1)) & m;
        case Instruction::And: return A(0) & A(1);
        case Instruction::Or: return A(0) | A(1);
        case Instruction::Xor: return A(0) ^ A(1);
        case Instruction::Shl: return (A(0) << A(1)) & m;
        case Instruction::LShr: return A(0) >> A(1);
        default: break;
      }
    }
    if (auto* de = dyn_cast<DSOLocalEquivalent>(c)) return globalAddr(de->getGlobalValue());
    std::string s; raw_string_ostream os(s); c->print(os);
    fprintf(stderr, "unsupported constant %s\n", s.c_str());
    abort();
  }
  void constLeafs(const Constant* c, std::vector<V>& out) {
    Type* t = c->getType();
    if (isa<StructType>(t) || isa<ArrayType>(t) || isa<FixedVectorType>(t)) {
      unsigned n = isa<StructType>(t) ? cast<StructType>(t)->getNumElements()
                   : isa<ArrayType>(t) ? (unsigned)cast<ArrayType>(t)->getNumElements()
                                       : cast<FixedVectorType>(t)->getNumElements();
      for (unsigned i = 0; i < n; i++) {
        Constant* el = c->getAggregateElement(i);
        if (!el) { fprintf(stderr, "aggregate const\n"); abort(); }
        constLeafs(el, out);
      }
      return;
    }
    unsigned w = scalarBits(t);
    if (w > 64) {
      V v;
      if (auto* ci = dyn_cast<ConstantInt>(c)) {
        u128 x = ci->getValue().trunc(64).getZExtValue();
        x |= (u128)ci->getValue().lshr(64).trunc(64).getZExtValue() << 64;
        v.e = mkConst(x, w);
      } else v.e = mkConst(0, w > 128 ? 128 : w);
      out.push_back(v);
      return;
    }
    out.push_back(cv(constInt(c)));
  }

  // ---------------------------------------------------------- translation
  KFunction* kfunc(Function* F) {
    auto it = kfs.find(F);
    if (it != kfs.end()) return it->second.get();
    auto* kf = new KFunction;
    kfs[F].reset(kf);
    kf->F = F;
    std::map<const Value*, int> slot;
    std::map<const Constant*, int> cslot;
    int n = 0;
    for (auto& a : F->args()) { unsigned k = nslots(a.getType()); slot[&a] = n; kf->args.push_back({n, k}); n += k; }
    std::map<BasicBlock*, KBlock*> bbs;
    for (auto& bb : *F) {
      auto* kb = new KBlock; kb->bb = &bb;
      kf->blocks.emplace_back(kb);
      bbs[&bb] = kb;
      for (auto& I : bb) if (!I.getType()->isVoidTy()) { slot[&I] = n; n += nslots(I.getType()); }
    }
    kf->nslots = n;
    auto opnd = [&](const Value* v) -> int {
      if (auto* c = dyn_cast<Constant>(v)) {
        auto ic = cslot.find(c);
        if (ic != cslot.end()) return ic->second;
        int code = ~(int)kf->consts.size();
        constLeafs(c, kf->consts);
        cslot[c] = code;
        return code;
      }
      auto is = slot.find(v);
      if (is == slot.end()) return INT32_MIN;
      return is->second;
    };
    auto edge = [&](BasicBlock* from, BasicBlock* to) {
      KEdge e; e.to = bbs[to];
      for (auto& phi : to->phis()) {
        int d = slot[&phi];
        int o = opnd(phi.getIncomingValueForBlock(from));
        unsigned k = nslots(phi.getType());
        unsigned pw = k == 1 && (phi.getType()->isIntegerTy() || phi.getType()->isFloatTy() || phi.getType()->isDoubleTy()) ? scalarBits(phi.getType()) : 0;
        for (unsigned i = 0; i < k; i++) { e.moves.push_back({d + (int)i, o >= 0 ? o + (int)i : o - (int)i}); e.mw.push_back(pw); }
      }
      return e;
    };
    for (auto& bb : *F) {
      KBlock* kb = bbs[&bb];
      for (auto& I : bb) {
        if (isa<PHINode>(I)) continue;
        if (isa<DbgInfoIntrinsic>(I)) continue;
        KI k;
        k.I = &I;
        k.op = I.getOpcode();
        if (!I.getType()->isVoidTy()) {
          k.dst = slot[&I];
          k.nslots = nslots(I.getType());
          k.w = scalarBits(I.getType());
        }
        switch (k.op) {
          case Instruction::Br: {
            auto* br = cast<BranchInst>(&I);
            if (br->isConditional()) k.o.push_back(opnd(br->getCondition()));
            for (unsigned i = 0; i < br->getNumSuccessors(); i++) k.edges.push_back(edge(&bb, br->getSuccessor(i)));
            break;
          }
          case Instruction::Switch: {
            auto* sw = cast<SwitchInst>(&I);
            k.o.push_back(opnd(sw->getCondition()));
            k.w = scalarBits(sw->getCondition()->getType());
            k.edges.push_back(edge(&bb, sw->getDefaultDest()));
            for (auto& c : sw->cases()) { k.cases.push_back(c.getCaseValue()->getZExtValue()); k.edges.push_back(edge(&bb, c.getCaseSuccessor())); }
            break;
          }
          case Instruction::GetElementPtr: {
            auto* g = cast<GetElementPtrInst>(&I);
            k.o.push_back(opnd(g->getPointerOperand()));
            for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
              Value* idx = gi.getOperand();
              if (StructType* st = gi.getStructTypeOrNull()) {
                k.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
              } else {
                int64_t sz = DL->getTypeAllocSize(gi.getIndexedType());
                if (auto* ci = dyn_cast<ConstantInt>(idx)) k.off += sz * ci->getSExtValue();
                else { k.o.push_back(opnd(idx)); k.scale.push_back(sz); k.ow.push_back(scalarBits(idx->getType())); }
              }
            }
            break;
          }
          case Instruction::Load:
            k.o.push_back(opnd(cast<LoadInst>(&I)->getPointerOperand()));
            leafsOf(I.getType(), 0, k.leafs);
            break;
          case Instruction::Store:
            k.o.push_back(opnd(cast<StoreInst>(&I)->getValueOperand()));
            k.o.push_back(opnd(cast<StoreInst>(&I)->getPointerOperand()));
            leafsOf(cast<StoreInst>(&I)->getValueOperand()->getType(), 0, k.leafs);
            break;
          case Instruction::Alloca: {
            auto* al = cast<AllocaInst>(&I);
            k.off = DL->getTypeAllocSize(al->getAllocatedType());
            k.o.push_back(opnd(al->getArraySize()));
            break;
          }
          case Instruction::ExtractValue: {
            auto* ev = cast<ExtractValueInst>(&I);
            k.o.push_back(opnd(ev->getAggregateOperand()));
            k.off = aggIndex(ev->getAggregateOperand()->getType(), ev->getIndices());
            break;
          }
          case Instruction::InsertValue: {
            auto* iv = cast<InsertValueInst>(&I);
            k.o.push_back(opnd(iv->getAggregateOperand()));
            k.o.push_back(opnd(iv->getInsertedValueOperand()));
            k.off = aggIndex(iv->getAggregateOperand()->getType(), iv->getIndices());
            k.w2 = nslots(iv->getInsertedValueOperand()->getType());
            break;
          }
          case Instruction::ICmp: case Instruction::FCmp: {
            auto* c = cast<CmpInst>(&I);
            k.sub = c->getPredicate();
            k.w2 = scalarBits(c->getOperand(0)->getType());
            k.o = {opnd(c->getOperand(0)), opnd(c->getOperand(1))};
            break;
          }
          case Instruction::ShuffleVector: {
            auto* sv = cast<ShuffleVectorInst>(&I);
            k.o = {opnd(sv->getOperand(0)), opnd(sv->getOperand(1))};
            for (int m : sv->getShuffleMask()) k.scale.push_back(m);
            k.w2 = cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements();
            break;
          }
          case Instruction::Invoke: case Instruction::Call: {
            auto* cb = cast<CallBase>(&I);
            Value* cal = cb->getCalledOperand()->stripPointerCasts();
            if (auto* ga = dyn_cast<GlobalAlias>(cal)) cal = ga->getAliaseeObject();
            k.callee = dyn_cast<Function>(cal);
            k.o.push_back(k.callee ? INT32_MIN : opnd(cb->getCalledOperand()));
            for (unsigned i = 0; i < cb->arg_size(); i++) {
              Value* a = cb->getArgOperand(i);
              if (a->getType()->isMetadataTy()) { k.o.push_back(INT32_MIN); k.ow.push_back(0); continue; }
              k.o.push_back(opnd(a));
              k.ow.push_back(nslots(a->getType()));
            }
            if (auto* inv = dyn_cast<InvokeInst>(&I)) {
              k.edges.push_back(edge(&bb, inv->getNormalDest()));
              k.edges.push_back(edge(&bb, inv->getUnwindDest()));
            }
            if (k.callee) {
              std::string nm = k.callee->getName().str();
              if (k.callee->isIntrinsic()) {
                k.sub = k.callee->getIntrinsicID();
              } else {
                auto ib = builtinIdx.find(nm);
                if (ib != builtinIdx.end()) k.builtin = ib->second;
              }
            }
            break;
          }
          default:
            for (auto& op : I.operands()) {
              if (isa<BasicBlock>(op)) continue;
              k.o.push_back(opnd(op));
            }
            if (I.getNumOperands() && !isa<BasicBlock>(I.getOperand(0))) k.w2 = scalarBits(I.getOperand(0)->getType());
            if (k.op == Instruction::Ret && I.getNumOperands()) k.nslots = nslots(I.getOperand(0)->getType());
            break;
        }
        kb->insts.push_back(std::move(k));
      }
    }
    return kf;
  }
  unsigned aggIndex(Type* t, ArrayRef<unsigned> idx) {
    unsigned r = 0;
    for (unsigned i : idx) {
      if (auto* st = dyn_cast<StructType>(t)) {
        for (unsigned j = 0; j < i; j++) r += nslots(st->getElementType(j));
        t = st->getElementType(i);
      } else {
        auto* at = cast<ArrayType>(t);
        r += i * nslots(at->getElementType());
        t = at->getElementType();
      }
    }
    return r;
  }

  // ---------------------------------------------------------- values
  static inline V get(Frame& f, int code, int lane = 0) {
    return code >= 0 ? f.regs[code + lane] : f.kf->consts[~code + lane];
  }
  static Expr* ex(const V& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
  static V vex(Expr* e) {
    V v;
    if (e->isConst() && e->w <= 64) v.c = (uint64_t)e->c;
    else v.e = e;
    return v;
  }

  // ---------------------------------------------------------- solver glue
  // evaluates the condition under the state's model
  bool mdl(State& s, Expr* c) { return evalExpr(c, s.model, nextEvalGen()) != 0; }
  void addPC(State& s, Expr* c) {
    if (c->isConst()) return;
    if (c->k == K::And && c->w == 1) { addPC(s, c->a[0]); addPC(s, c->a[1]); return; }
    s.pc.push_back(c);
  }
  Sat feasible(State& s, Expr* c, Model& m) { m = s.model; return solver.check(s.pc, c, m); }
  // must `c` hold in every model of the path condition?
  bool mustBe(State& s, Expr* c, Model* cex = nullptr) {
    if (c->isConst()) { if (!c->c && cex) *cex = s.model; return c->c; }
    Model m;
    Sat r = feasible(s, mkNot(c), m);
    if (r == Sat::Sat) { if (cex) *cex = m; return false; }
    if (r == Sat::Unknown) { incompletePath(s, "solver gave no answer (query timeout)"); return true; }
    return true;
  }
  std::map<std::string, uint64_t> forkSites;
  bool traceForks = getenv("MSE_FORKS") != nullptr;
  State* clone(State& s) {
    if (traceForks) {
      std::string w;
      auto& st = s.th[s.cur].st;
      for (size_t i = st.size(), k = 0; i-- && k < 4; k++) { auto n = demangle(st[i].kf->F->getName().str()); w += " < " + n.substr(0, n.find('(')); }
      forkSites[w]++;
    }
    forks++; paths++; auto* n = new State(s); n->depth++; return n; }
  // fork so that the alternative re-executes the current instruction
  // returns the truth value taken by s.
  bool decide(State& s, Expr* c) {
    if (c->isConst()) return c->c;
    bool t = mdl(s, c);
    Expr* tk = t ? c : mkNot(c);
    Expr* ot = t ? mkNot(c) : c;
    Model m;
    Sat r = feasible(s, ot, m);
    branchQ++;
    if (r == Sat::Sat) {
      State* n = clone(s);
      n->th[n->cur].st.back().pc--;
      n->model = m;
      addPC(*n, ot);
      work.push_back(n);
      addPC(s, tk);
    } else if (r == Sat::Unknown) { incompletePath(s, "solver gave no answer (query timeout)"); addPC(s, tk); }
    return t;
  }
  // pick one concrete value; the alternatives re-execute the instruction
  bool concretize(State& s, Expr* e, uint64_t& out) {
    if (e->isConst()) { out = (uint64_t)e->c; return true; }
    u128 v = evalExpr(e, s.model, nextEvalGen());
    Expr* eq = mkEq(e, mkConst(v, e->w));
    Model m;
    Sat r = feasible(s, mkNot(eq), m);
    branchQ++;
    if (r == Sat::Sat) {
      if (s.enumCount >= opt.maxEnum) { incompletePath(s, "too many values for one symbolic quantity"); }
      else {
        State* n = clone(s);
        n->th[n->cur].st.back().pc--;
        n->model = m;
        n->enumCount++;
        addPC(*n, mkNot(eq));
        work.push_back(n);
      }
      addPC(s, eq);
    } else if (r == Sat::Unknown) { incompletePath(s, "solver gave no answer (query timeout)"); addPC(s, eq); }
    s.enumCount = 0;
    out = (uint64_t)v;
    return true;
  }

  // ---------------------------------------------------------- memory access
  // Resolve an address for an access of n bytes.  Returns false when the state died.
  // off is set to a concrete offset or, when offE is non-null, to a symbolic one.
  std::string addrInfo(State& s, uint64_t a) {
    Obj* o = s.mem.get(a >> 32);
    char b[128];
    if (a < (1ull << 32)) snprintf(b, sizeof b, "null pointer");
    else if (!o) snprintf(b, sizeof b, "wild pointer");
    else if (o->kind == OFreed) snprintf(b, sizeof b, "use after free/scope");
    else snprintf(b, sizeof b, "out of bounds of a %s object", o->kind == OHeap ? "heap" : o->kind == OStack ? "stack" : "global");
    return b;
  }
  // ---------------------------------------------------------- data races
  bool inAtomic = false;
  static void joinClock(VClock& a, const VClock& b) { for (int i = 0; i < 4; i++) a[i] = std::max(a[i], b[i]); }
  void acquire(State& s, uint64_t addr, int t) {
    if (!opt.races || t > 3) return;
    auto it = s.race.sync.find(addr);
    if (it != s.race.sync.end()) joinClock(s.race.vc[t], it->second);
  }
  void release(State& s, uint64_t addr, int t) {
    if (!opt.races || t > 3) return;
    auto it = s.race.sync.emplace(addr, VClock{}).first;
    joinClock(it->second, s.race.vc[t]);
    s.race.vc[t][t]++;
  }
  void raceAccess(State& s, uint32_t id, uint32_t off, uint64_t n, bool write) {
    const int t = s.cur;
    if (t > 2) return;
    const VClock& c = s.race.vc[t];
    for (uint64_t i = 0; i < n;) {
      const uint32_t g = (off + i) & ~7u;
      auto& r = s.race.rec.emplace(((uint64_t)id << 32) | g, RaceRec{}).first->second;
      for (uint32_t b = (off + i) & 7; b < 8 && i < n; b++, i++) {
        // an epoch is clock << 2 | thread; 0 means none
        auto bad = [&](uint32_t e) { return e && (int)(e & 3) != t && (e >> 2) > c[e & 3]; };
        bool race = bad(r.w[b]);
        if (write) for (int k = 0; k < 3; k++) race = race || bad(r.r[k][b]);
        if (race) { report(s, "race", write ? "unsynchronised write" : "unsynchronised read", s.model); }
        if (write) r.w[b] = c[t] << 2 | t;
        else r.r[t][b] = c[t] << 2 | t;
        if (race) return;
      }
    }
  }
  bool resolve(State& s, const V& p, uint64_t n, bool write, uint32_t& id, uint32_t& off, Expr*& offE) {
    offE = nullptr;
    if (!p.e) {
      id = p.c >> 32; off = (uint32_t)p.c;
      Obj* o = id ? s.mem.get(id) : nullptr;
      if (!o || o->kind == OFreed || o->kind == OFunc || (uint64_t)off + n > o->size) {
        if (n == 0) return true;
        report(s, "memory", std::string(write ? "write: " : "read: ") + addrInfo(s, p.c), s.model);
        return false;
      }
      if (write && o->ro) { report(s, "memory", "write to read-only data", s.model); return false; }
      if (s.race.on && o->kind != OStack && !inAtomic) raceAccess(s, id, off, n, write);
      return true;
    }
    Expr* a = p.e;
    uint64_t v = (uint64_t)evalExpr(a, s.model, nextEvalGen());
    auto live = [&](uint32_t i) { Obj* o = i ? s.mem.get(i) : nullptr; return o && o->kind != OFreed && o->kind != OFunc && o->size >= n; };
    uint32_t cand = v >> 32;
    bool inb = live(cand) && (uint32_t)v + n <= s.mem.get(cand)->size;
    if (!inb) {
      // the current model is out of bounds; is the intended object reachable?
      report(s, "memory", std::string(write ? "write: " : "read: ") + addrInfo(s, v), s.model);
      return false;
    }
    Obj* o = s.mem.get(cand);
    Expr* rel = mkBin(K::Sub, a, mkConst(addrOf(cand), 64));
    Expr* ok = mkBin(K::Ule, rel, mkConst(o->size - n, 64));
    Model m;
    memQ++;
    Sat r = feasible(s, mkNot(ok), m);
    if (r == Sat::Sat) {
      State* st = clone(s);
      st->th[st->cur].st.back().pc--;
      st->model = m;
      addPC(*st, mkNot(ok));
      work.push_back(st);
      addPC(s, ok);
    } else if (r == Sat::Unknown) { incompletePath(s, "solver gave no answer (query timeout)"); addPC(s, ok); }
    if (write && o->ro) { report(s, "memory", "write to read-only data", s.model); return false; }
    id = cand;
    if (rel->isConst()) { off = (uint32_t)rel->c; return true; }
    // is it really a single value?
    uint64_t ov = (uint32_t)v;
    Expr* single = mkEq(rel, mkConst(ov, 64));
    Model m2;
    Sat r2 = feasible(s, mkNot(single), m2);
    if (r2 == Sat::Unsat) { off = (uint32_t)ov; return true; }
    uint64_t count = (o->size - n) / strideOf(rel) + 1;
    if (count > (write ? 256 : 4096) || (write && count * n > 4096)) {
      uint64_t cvv;
      concretize(s, rel, cvv);
      off = (uint32_t)cvv;
      return true;
    }
    offE = rel;
    return true;
  }
  static unsigned tz(Expr* e) {
    if (e->isConst()) { if (e->c == 0) return 63; unsigned n = 0; while (!((e->c >> n) & 1)) n++; return n; }
    if (e->k == K::Concat) {
      unsigned l = tz(e->a[1]);
      return l >= e->a[1]->w || (e->a[1]->isConst() && e->a[1]->c == 0) ? e->a[1]->w + tz(e->a[0]) : l;
    }
    if (e->k == K::ZExt || e->k == K::SExt) return tz(e->a[0]);
    if (e->k == K::Mul) return tz(e->a[0]) + tz(e->a[1]);
    if (e->k == K::Add || e->k == K::Sub) return std::min(tz(e->a[0]), tz(e->a[1]));
    if (e->k == K::Ite) return std::min(tz(e->a[1]), tz(e->a[2]));
    return 0;
  }
  static uint64_t strideOf(Expr* rel) {
    Expr* x = rel;
    if (x->k == K::Add && x->a[1]->isConst()) x = x->a[0];
    Expr* lo = lowConst(x);
    unsigned n = lo ? lo->w : tz(x);
    if (n > 12) n = 12;
    return 1ull << n;
  }
  static uint64_t phaseOf(Expr* rel, uint64_t stride) {
    uint64_t p = 0;
    if (rel->k == K::Add && rel->a[1]->isConst()) { p = (uint64_t)rel->a[1]->c; rel = rel->a[0]; }
    if (Expr* lo = lowConst(rel)) p += (uint64_t)lo->c;
    return p & (stride - 1);
  }
  // the constant (non zero) low bits of an address
  static Expr* lowConst(Expr* x) {
    while (x->k == K::ZExt) x = x->a[0];
    if (x->k != K::Concat) return nullptr;
    while (x->k == K::Concat) x = x->a[1];
    return x->isConst() && x->c ? x : nullptr;
  }
  static V readScalar(const Obj* o, uint32_t off, unsigned bits) {
    unsigned n = (bits + 7) / 8;
    size_t ci = off / CH; uint32_t co = off % CH;
    if (co + n <= CH) {
      Chunk* c = o->ch[ci];
      if (!c) {
        if (n <= 8) { uint64_t v = 0; memset(&v, o->fill, n); return cv(bits < 64 ? v & (uint64_t)maskw(bits) : v); }
      } else if (!c->s) {
        if (n <= 8) { uint64_t v = 0; memcpy(&v, c->b + co, n); return cv(bits < 64 ? v & (uint64_t)maskw(bits) : v); }
      }
    }
    Expr* r = nullptr;
    bool anysym = false;
    Expr* parts[32];
    uint8_t conc[32];
    if (n > 16) { fprintf(stderr, "wide read %u\n", bits); abort(); }
    for (unsigned i = 0; i < n; i++) {
      Chunk* c = o->ch[(off + i) / CH];
      uint32_t p = (off + i) % CH;
      parts[i] = nullptr;
      conc[i] = c ? c->b[p] : o->fill;
      if (c && c->s && c->s[p]) { parts[i] = c->s[p]; anysym = true; }
    }
    if (!anysym && n <= 8) { uint64_t v = 0; memcpy(&v, conc, n); return cv(bits < 64 ? v & (uint64_t)maskw(bits) : v); }
    for (unsigned i = 0; i < n; i++) {
      Expr* b = parts[i] ? parts[i] : mkConst(conc[i], 8);
      r = r ? mkConcat(b, r) : b;
    }
    if (bits < n * 8) r = mkExtract(r, 0, bits);
    return vex(r);
  }
  static void writeByte(Obj* o, uint32_t off, uint8_t b, Expr* e) {
    Chunk* c = chunkW(o, off / CH);
    uint32_t p = off % CH;
    if (e && e->isConst()) { b = (uint8_t)e->c; e = nullptr; }
    if (e) {
      if (!c->s) c->s = (Expr**)calloc(c->cap, sizeof(Expr*));
      c->s[p] = e;
    } else {
      c->b[p] = b;
      if (c->s) c->s[p] = nullptr;
    }
  }
  static void writeScalar(Obj* o, uint32_t off, const V& v, unsigned bits) {
    unsigned n = (bits + 7) / 8;
    if (!v.e) {
      uint32_t co = off % CH;
      if (co + n <= CH) {
        Chunk* c = chunkW(o, off / CH);
        memcpy(c->b + co, &v.c, n);
        if (c->s) memset(c->s + co, 0, n * sizeof(Expr*));
        return;
      }
      for (unsigned i = 0; i < n; i++) writeByte(o, off + i, (uint8_t)(v.c >> (8 * i)), nullptr);
      return;
    }
    Expr* e = v.e;
    if (e->w < n * 8) e = mkZExt(e, n * 8);
    for (unsigned i = 0; i < n; i++) writeByte(o, off + i, 0, mkExtract(e, 8 * i, 8));
  }
  bool load(State& s, const V& p, unsigned bits, V& out) {
    uint32_t id, off; Expr* oe;
    unsigned n = (bits + 7) / 8;
    if (!resolve(s, p, n, false, id, off, oe)) return false;
    Obj* o = s.mem.get(id);
    if (!oe) { out = readScalar(o, off, bits); return true; }
    uint64_t st = strideOf(oe), ph = phaseOf(oe, st);
    Expr* r = nullptr;
    uint64_t cnt = ph > o->size - n ? 0 : (o->size - n - ph) / st + 1;
    if (cnt > 16) {  // multiplexer tree over the index bits
      unsigned lg = 0;
      while ((1ull << lg) < st) lg++;
      unsigned nb = 0;
      while ((1ull << nb) < cnt) nb++;
      Expr* ix = ph ? mkBin(K::Sub, oe, mkConst(ph, 64)) : oe;
      // the decimal digit pair table of the C++ library: the value is a digit of the index
      if (bits == 8 && st == 2 && cnt >= 100 && exprBelow(oe, 200)) {
        bool tens = true, ones = true;
        for (uint64_t k = 0; k < 100 && (tens || ones); k++) {
          V v = readScalar(o, (uint32_t)(ph + 2 * k), 8);
          if (v.e || v.c != '0' + k / 10) tens = false;
          if (v.e || v.c != '0' + k % 10) ones = false;
        }
        if (tens || ones) {
          Expr* q = mkBin(tens ? K::UDiv : K::URem, mkBin(K::LShr, oe, mkConst(1, 64)), mkConst(10, 64));
          out = vex(mkBin(K::Add, mkExtract(q, 0, 8), mkConst('0', 8)));
          return true;
        }
      }
      std::function<Expr*(uint64_t, unsigned)> mux = [&](uint64_t base, unsigned b) -> Expr* {
        if (b == 0) return ex(readScalar(o, (uint32_t)(ph + base * st), bits), bits);
        Expr* l = mux(base, b - 1);
        if (base + (1ull << (b - 1)) >= cnt) return l;
        Expr* h = mux(base + (1ull << (b - 1)), b - 1);
        if (l == h) return l;
        return mkIte(mkExtract(ix, lg + b - 1, 1), h, l);
      };
      out = vex(mux(0, nb));
      return true;
    }
    for (int64_t k = (int64_t)ph + (int64_t)((o->size - n - ph) / st) * (int64_t)st; k >= (int64_t)ph; k -= (int64_t)st) {
      if (ph > o->size - n) break;
      Expr* v = ex(readScalar(o, (uint32_t)k, bits), bits);
      r = r ? mkIte(mkEq(oe, mkConst(k, 64)), v, r) : v;
    }
    if (!r) return false;
    out = vex(r);
    return true;
  }
  bool store(State& s, const V& p, const V& val, unsigned bits) {
    uint32_t id, off; Expr* oe;
    unsigned n = (bits + 7) / 8;
    if (!resolve(s, p, n, true, id, off, oe)) return false;
    Obj* o = s.mem.getW(id);
    if (!oe) { writeScalar(o, off, val, bits); return true; }
    uint64_t st = strideOf(oe), ph = phaseOf(oe, st);
    if (ph > o->size - n) return false;
    Expr* e = ex(val, bits);
    if (e->w < n * 8) e = mkZExt(e, n * 8);
    for (uint64_t k = ph; k + n <= o->size; k += st) {
      Expr* c = mkEq(oe, mkConst(k, 64));
      if (c->isConst() && !c->c) continue;
      for (unsigned i = 0; i < n; i++) {
        Expr* old = ex(readScalar(o, k + i, 8), 8);
        writeByte(o, k + i, 0, mkIte(c, mkExtract(e, 8 * i, 8), old));
      }
    }
    return true;
  }
  // block transfer with concrete length
  bool memCopy(State& s, V d, V src, uint64_t n) {
    if (n == 0) return true;
    uint64_t da, sa;
    if (d.e) { if (!concretize(s, d.e, da)) return false; d = cv(da); }
    if (src.e) { if (!concretize(s, src.e, sa)) return false; src = cv(sa); }
    uint32_t di, doff, si, soff; Expr* x;
    if (!resolve(s, src, n, false, si, soff, x)) return false;
    if (!resolve(s, d, n, true, di, doff, x)) return false;
    std::vector<uint8_t> b(n);
    std::vector<Expr*> e;
    Obj* so = s.mem.get(si);
    for (uint64_t i = 0; i < n;) {
      uint32_t p = (soff + i) % CH;
      uint64_t k = std::min<uint64_t>(n - i, CH - p);
      Chunk* c = so->ch[(soff + i) / CH];
      if (!c) memset(&b[i], so->fill, k);
      else {
        memcpy(&b[i], c->b + p, k);
        if (c->s) { if (e.empty()) e.assign(n, nullptr); memcpy(&e[i], c->s + p, k * sizeof(Expr*)); }
      }
      i += k;
    }
    Obj* o = s.mem.getW(di);
    writeBlock(o, doff, b.data(), e.empty() ? nullptr : e.data(), n);
    return true;
  }
  static void writeBlock(Obj* o, uint32_t off, const uint8_t* b, Expr** e, uint64_t n) {
    for (uint64_t i = 0; i < n;) {
      uint32_t p = (off + i) % CH;
      uint64_t k = std::min<uint64_t>(n - i, CH - p);
      Chunk* c = chunkW(o, (off + i) / CH);
      memcpy(c->b + p, b + i, k);
      bool any = false;
      if (e) for (uint64_t j = 0; j < k; j++) if (e[i + j]) { any = true; break; }
      if (any) {
        if (!c->s) c->s = (Expr**)calloc(c->cap, sizeof(Expr*));
        memcpy(c->s + p, e + i, k * sizeof(Expr*));
      } else if (c->s) memset(c->s + p, 0, k * sizeof(Expr*));
      i += k;
    }
  }
  bool memFill(State& s, V d, V val, uint64_t n) {
    if (n == 0) return true;
    uint64_t da;
    if (d.e) { concretize(s, d.e, da); d = cv(da); }
    uint32_t di, doff; Expr* x;
    if (!resolve(s, d, n, true, di, doff, x)) return false;
    Obj* o = s.mem.getW(di);
    if (!val.e) {
      std::vector<uint8_t> b(n, (uint8_t)val.c);
      writeBlock(o, doff, b.data(), nullptr, n);
    } else for (uint64_t i = 0; i < n; i++) writeByte(o, doff + i, 0, val.e);
    return true;
  }
  bool readBytes(State& s, V p, uint64_t n, std::vector<Expr*>& out) {
    uint64_t a;
    if (p.e) { concretize(s, p.e, a); p = cv(a); }
    uint32_t id, off; Expr* x;
    if (n && !resolve(s, p, n, false, id, off, x)) return false;
    out.clear();
    if (!n) return true;
    Obj* o = s.mem.get(id);
    for (uint64_t i = 0; i < n; i++) out.push_back(ex(readScalar(o, off + i, 8), 8));
    return true;
  }
  // reads a C string; forks on symbolic terminators
  bool readCStr(State& s, V p, std::string& out, std::vector<Expr*>* sym = nullptr) {
    uint64_t a;
    if (p.e) { concretize(s, p.e, a); p = cv(a); }
    out.clear();
    for (uint64_t i = 0;; i++) {
      V b;
      if (!load(s, cv(p.c + i), 8, b)) return false;
      if (b.e) {
        if (decide(s, mkEq(b.e, mkConst(0, 8)))) return true;
        if (sym) { sym->push_back(b.e); out.push_back('?'); continue; }
        uint64_t v; concretize(s, b.e, v);
        out.push_back((char)v);
        continue;
      }
      if (b.c == 0) return true;
      if (sym) sym->push_back(mkConst(b.c, 8));
      out.push_back((char)b.c);
    }
  }

  // ---------------------------------------------------------- calls
  void pushFrame(State& s, Function* F, std::vector<V>& args, KI* site, uint64_t vararg = 0) {
    KFunction* kf = kfunc(F);
    kf->executed = true;
    kf->calls++;
    auto& st = s.th[s.cur].st;
    st.emplace_back();
    Frame& f = st.back();
    f.kf = kf; f.bb = kf->blocks[0].get(); f.pc = 0; f.call = site; f.vararg = vararg;
    f.regs.resize(kf->nslots);
    unsigned k = 0;
    for (auto& a : kf->args)
      for (unsigned i = 0; i < a.second; i++) if (k < args.size()) f.regs[a.first + i] = args[k++];
  }
  void popFrame(State& s) {
    auto& st = s.th[s.cur].st;
    for (auto id : st.back().allocas) s.mem.release(id);
    st.pop_back();
  }
  static void takeEdge(Frame& f, KEdge& e) {
    if (e.moves.size() == 1) {
      f.regs[e.moves[0].first] = get(f, e.moves[0].second);
    } else if (!e.moves.empty()) {
      V tmp[16];
      std::vector<V> big;
      V* t = tmp;
      if (e.moves.size() > 16) { big.resize(e.moves.size()); t = big.data(); }
      for (size_t i = 0; i < e.moves.size(); i++) t[i] = get(f, e.moves[i].second);
      for (size_t i = 0; i < e.moves.size(); i++) f.regs[e.moves[i].first] = t[i];
    }
    f.bb = e.to; f.pc = 0;
  }

  // ---------------------------------------------------------- exceptions
  uint64_t tiVt[3] = {0, 0, 0};  // class, si, vmi vtable ids
  uint64_t ld64(State& s, uint64_t a) { Obj* o = s.mem.get(a >> 32); if (!o || (uint32_t)a + 8 > o->size) return 0; return readScalar(o, (uint32_t)a, 64).c; }
  bool tiMatch(State& s, uint64_t thrown, uint64_t want, int depth = 0) {
    if (thrown == want) return true;
    if (!thrown || depth > 16) return false;
    uint64_t vt = ld64(s, thrown) >> 32;
    if (vt == tiVt[1]) return tiMatch(s, ld64(s, thrown + 16), want, depth + 1);
    if (vt == tiVt[2]) {
      uint32_t cnt = ld64(s, thrown + 16) >> 32;
      for (uint32_t i = 0; i < cnt && i < 16; i++) if (tiMatch(s, ld64(s, thrown + 24 + 16 * i), want, depth + 1)) return true;
    }
    return false;
  }
  int typeId(uint64_t ti) {
    if (!ti) return 1;
    static std::map<uint64_t, int> ids;
    auto it = ids.find(ti);
    if (it != ids.end()) return it->second;
    int n = 2 + ids.size();
    ids[ti] = n;
    return n;
  }
  std::string tiName(State& s, uint64_t ti) {
    uint64_t p = ld64(s, ti + 8);
    std::string n;
    Obj* o = s.mem.get(p >> 32);
    if (o) for (uint32_t i = (uint32_t)p; i < o->size; i++) { uint64_t c = readScalar(o, i, 8).c; if (!c) break; n.push_back((char)c); }
    return demangle("_ZTS" + n);
  }
  // returns false if the state dies (uncaught)
  bool unwind(State& s, uint64_t exc, bool first) {
    auto& st = s.th[s.cur].st;
    uint64_t ti = s.excs[exc].ti;
    if (first) {
      // an exception without any handler terminates before unwinding
    }
    while (!st.empty()) {
      Frame& f = st.back();
      KI& k = f.bb->insts[f.pc - 1];
      if (k.op == Instruction::Invoke) {
        KBlock* lb = k.edges[1].to;
        LandingPadInst* lp = nullptr;
        for (auto& I : *lb->bb) if ((lp = dyn_cast<LandingPadInst>(&I))) break;
        int sel = 0; bool hit = false;
        for (unsigned i = 0; i < lp->getNumClauses() && !hit; i++) {
          if (lp->isCatch(i)) {
            uint64_t c = constInt(lp->getClause(i));
            if (c == 0 || tiMatch(s, ti, c)) { hit = true; sel = typeId(c); }
          } else {
            auto* arr = cast<Constant>(lp->getClause(i));
            unsigned n = cast<ArrayType>(arr->getType())->getNumElements();
            bool in = false;
            for (unsigned j = 0; j < n; j++) if (tiMatch(s, ti, constInt(arr->getAggregateElement(j)))) in = true;
            if (!in) { hit = true; sel = -1; }
          }
        }
        if (hit || lp->isCleanup()) {
          takeEdge(f, k.edges[1]);
          // the landingpad instruction itself reads these
          s.th[s.cur].curExc = exc;
          s.th[s.cur].pendingRet = sel;
          return true;
        }
      }
      popFrame(s);
    }
    return false;
  }
  bool throwExc(State& s, uint64_t exc) {
    // report where it was thrown if nothing catches it
    auto stk = stackOf(s);
    std::string nm = tiName(s, s.excs[exc].ti);
    std::string where;
    for (auto& x : stk) if (x.find("mdf::") != std::string::npos || x.find("h_") == 0) { where = x; break; }
    if (unwind(s, exc, true)) return true;
    Finding f; f.kind = "exception"; f.label = "uncaught exception " + nm; f.where = where; f.stack = stk;
    for (auto& g : findings) if (g.kind == f.kind && g.label == f.label && g.where == f.where) { g.count++; return false; }
    fillInputs(s, s.model, f);
    findings.push_back(f);
    if (opt.verbose) {
      fprintf(stderr, "FINDING %s at %s\n", f.label.c_str(), where.c_str());
      for (auto& x : stk) fprintf(stderr, "    %s\n", x.c_str());
      for (auto& p : f.inputs) fprintf(stderr, "    %s = %s\n", p.first.c_str(), p.second.c_str());
    }
    if ((int)findings.size() >= opt.maxFindings) stop = true;
    return false;
  }

  // ---------------------------------------------------------- scheduling
  // choose the next thread; called when the current one cannot continue or at a
  // preemption point.  `s` keeps the first choice, the others become new states.
  bool runnable(State& s, int t) {
    Thread& th = s.th[t];
    switch (th.stat) {
      case TReady: return !th.st.empty();
      case TMutex: return s.mutex.find(th.waitAddr) == s.mutex.end();
      case TJoin: return s.th[th.waitAddr].stat == TDone;
      case TTimed: return s.mutex.find(th.reMutex) == s.mutex.end() && th.timeouts < opt.maxTimeouts;
      default: return false;
    }
  }
  void joined(State& s, int t, int other) {
    if (!opt.races || t > 3 || other > 3) return;
    joinClock(s.race.vc[t], s.race.vc[other]);
    bool alone = true;
    for (int i = 0; i < (int)s.th.size(); i++) if (i != t && s.th[i].stat != TDone) alone = false;
    if (alone) { s.race.on = false; s.race.rec.clear(); }
  }
  void wake(State& s, int t) {
    Thread& th = s.th[t];
    Frame* f = th.st.empty() ? nullptr : &th.st.back();
    auto finish = [&](int rv) {
      KI& k = f->bb->insts[f->pc - 1];
      if (k.dst >= 0) f->regs[k.dst] = cv((uint64_t)(uint32_t)rv);
      if (k.op == Instruction::Invoke) takeEdge(*f, k.edges[0]);
    };
    if (th.stat == TMutex) { s.mutex[th.waitAddr] = t + 1; acquire(s, th.waitAddr, t); th.stat = TReady; finish(th.pendingRet); }
    else if (th.stat == TJoin) { joined(s, t, (int)th.waitAddr); th.stat = TReady; finish(0); }
    else if (th.stat == TTimed) { s.mutex[th.reMutex] = t + 1; acquire(s, th.reMutex, t); th.timeouts++; th.stat = TReady; s.skew += 1000000000000000ull; finish(110); }
    s.cur = t;
  }
  bool schedule(State& s, bool voluntary) {
    std::vector<int> c;
    for (int t = 0; t < (int)s.th.size(); t++) if (runnable(s, t)) c.push_back(t);
    if (c.empty()) {
      // allow further timeouts before calling it a deadlock
      for (int t = 0; t < (int)s.th.size(); t++)
        if (s.th[t].stat == TTimed && s.mutex.find(s.th[t].reMutex) == s.mutex.end()) c.push_back(t);
      if (c.empty()) { report(s, "deadlock", "no thread can continue", s.model); return false; }
      for (int t : c) if (s.th[t].timeouts > opt.maxTimeouts + 20) { incompletePath(s, "timed wait bound"); return false; }
    }
    if (!voluntary) {
      // preemption: stay with the current thread, fork the others within the budget
      for (int t : c) if (t != s.cur && s.preempts < opt.maxPreempt) {
        State* n = clone(s);
        n->preempts++;
        n->sched.push_back(t);
        wake(*n, t);
        work.push_back(n);
      }
      if (c.size() > 1 && s.preempts < opt.maxPreempt) s.sched.push_back(s.cur);
      return true;
    }
    for (size_t i = 1; i < c.size(); i++) {
      State* n = clone(s);
      n->sched.push_back(c[i]);
      wake(*n, c[i]);
      work.push_back(n);
    }
    if (c.size() > 1) s.sched.push_back(c[0]);
    wake(s, c[0]);
    return true;
  }

  #include "exec.inc"
  #include "builtins.inc"

  // ---------------------------------------------------------- setup
  bool loadModule(LLVMContext& ctx, const std::string& path) {
    SMDiagnostic err;
    M = parseIRFile(path, err, ctx);
    if (!M) { err.print("mse", errs()); return false; }
    DL = &M->getDataLayout();
    return true;
  }
  void writeConst(State& s, Obj* o, uint64_t off, const Constant* c) {
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
      StringRef raw = cds->getRawDataValues();
      writeBlock(o, off, (const uint8_t*)raw.data(), nullptr, raw.size());
      return;
    }
    Type* t = c->getType();
    if (auto* st = dyn_cast<StructType>(t)) {
      const StructLayout* sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) writeConst(s, o, off + sl->getElementOffset(i), c->getAggregateElement(i));
      return;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
      uint64_t sz = DL->getTypeAllocSize(at->getElementType());
      for (uint64_t i = 0; i < at->getNumElements(); i++) writeConst(s, o, off + i * sz, c->getAggregateElement(i));
      return;
    }
    std::vector<V> l; constLeafs(c, l);
    std::vector<LeafT> lt; leafsOf(t, 0, lt);
    for (size_t i = 0; i < l.size(); i++) writeScalar(o, off + lt[i].off, l[i], lt[i].bits);
  }
  void initGlobals(State& s) {
    for (auto& f : *M) {
      uint32_t id = s.mem.alloc(1, OFunc, 0);
      gaddr[&f] = addrOf(id);
      funcAt[id] = &f;
    }
    for (auto& g : M->globals()) {
      uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 64;
      if (g.isDeclaration() && sz < 256) sz = 256;
      uint32_t id = s.mem.alloc(sz, OGlobal, 0);
      gaddr[&g] = addrOf(id);
      std::string n = g.getName().str();
      if (n == "_ZTVN10__cxxabiv117__class_type_infoE") tiVt[0] = id;
      if (n == "_ZTVN10__cxxabiv120__si_class_type_infoE") tiVt[1] = id;
      if (n == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") tiVt[2] = id;
    }
    for (auto& g : M->globals()) {
      uint32_t id = gaddr[&g] >> 32;
      if (g.isDeclaration()) {
        // type_info of a library type: only its name is ever read
        std::string n = g.getName().str();
        if (n.rfind("_ZTI", 0) == 0 && n.size() < 180) {
          Obj* o = s.mem.getW(id);
          writeScalar(o, 8, cv(gaddr[&g] + 64), 64);
          for (size_t i = 4; i <= n.size(); i++) writeScalar(o, 64 + i - 4, cv(i < n.size() ? (uint8_t)n[i] : 0), 8);
        }
        continue;
      }
      Obj* o = s.mem.getW(id);
      writeConst(s, o, 0, g.getInitializer());
      o->ro = g.isConstant();
    }
  }
  void runStates() {
    while (!work.empty() && !stop) {
      if (nowS() - t0 > opt.maxTime) { incomplete["time limit"] += work.size(); break; }
      State* s = work.back();
      work.pop_back();
      run(*s);
      delete s;
    }
    if (stop && !work.empty()) incomplete["stopped after findings"] += work.size();
    for (auto s : work) delete s;
    work.clear();
  }
};

static std::string jstr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

// a call of sym_point after every atomic store: the places where another thread can observe it
static int addPoints(const char* in, const char* out) {
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile(in, err, ctx);
  if (!M) return 2;
  std::vector<Instruction*> at;
  for (auto& F : *M) for (auto& B : F) for (auto& I : B)
    if (auto* st = dyn_cast<StoreInst>(&I)) if (st->isAtomic()) at.push_back(&I);
  if (!at.empty()) {
    auto fn = M->getOrInsertFunction("sym_point", FunctionType::get(Type::getVoidTy(ctx), false));
    for (auto* I : at) {
      auto* c = CallInst::Create(fn);
      c->setDebugLoc(I->getDebugLoc());
      c->insertAfter(I);
    }
  }
  std::error_code ec;
  raw_fd_ostream o(out, ec);
  if (ec) return 2;
  WriteBitcodeToFile(*M, o);
  return 0;
}

static int realMain(int argc, char** argv) {
  if (argc == 4 && std::string(argv[1]) == "--points") return addPoints(argv[2], argv[3]);
  std::string mod;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") opt.entry = val();
    else if (a == "--out") opt.out = val();
    else if (a == "--max-time") opt.maxTime = atof(val().c_str());
    else if (a == "--max-instr") opt.maxInstrPath = strtoull(val().c_str(), 0, 10);
    else if (a == "--max-enum") opt.maxEnum = atoi(val().c_str());
    else if (a == "--max-findings") opt.maxFindings = atoi(val().c_str());
    else if (a == "--max-preempt") opt.maxPreempt = atoi(val().c_str());
    else if (a == "--max-timeouts") opt.maxTimeouts = atoi(val().c_str());
    else if (a == "--malloc-limit") opt.mallocLimit = strtoull(val().c_str(), 0, 10);
    else if (a == "--solver-ms") opt.solverMs = atoi(val().c_str());
    else if (a == "--no-merge") opt.merge = false;
    else if (a == "--races") opt.races = true;
    else if (a == "--hang") opt.hangIsFinding = true;
    else if (a == "-v") opt.verbose++;
    else mod = a;
  }
  LLVMContext ctx;
  Engine e;
  e.solver.timeoutMs = opt.solverMs;
  if (!e.loadModule(ctx, mod)) return 2;
  e.registerBuiltins();
  Function* F = e.M->getFunction(opt.entry);
  if (!F) { fprintf(stderr, "no entry %s\n", opt.entry.c_str()); return 2; }
  auto* s = new State;
  s->th.emplace_back();
  e.initGlobals(*s);
  // global constructors, then the entry
  std::vector<std::pair<int, Function*>> ctors;
  if (auto* gc = e.M->getNamedGlobal("llvm.global_ctors"))
    if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer()))
      for (auto& op : arr->operands()) {
        auto* st = cast<ConstantStruct>(op);
        if (auto* f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts()))
          ctors.push_back({(int)cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f});
      }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  std::vector<V> none;
  // frames run top first: push the entry, then the constructors in reverse
  e.pushFrame(*s, F, none, nullptr);
  for (int i = (int)ctors.size() - 1; i >= 0; i--) e.pushFrame(*s, ctors[i].second, none, nullptr);
  e.paths = 1;
  e.work.push_back(s);
  e.runStates();
  for (auto& p : e.forkSites) fprintf(stderr, "FORK %8llu %s\n", (unsigned long long)p.second, p.first.c_str());
  double wall = nowS() - e.t0;
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);

  // result
  std::string j = "{\n";
  auto kv = [&](const char* k, const std::string& v, bool last = false) { j += std::string(" \"") + k + "\": " + v + (last ? "\n" : ",\n"); };
  kv("entry", jstr(opt.entry));
  kv("wall_s", std::to_string(wall));
  kv("paths", std::to_string(e.paths));
  kv("paths_completed", std::to_string(e.pathsDone));
  kv("forks", std::to_string(e.forks));
  kv("merged_branches", std::to_string(e.merges));
  kv("instructions", std::to_string(e.instrs));
  kv("queries", std::to_string(e.solver.stats.queries));
  kv("queries_unsat", std::to_string(e.solver.stats.unsat));
  kv("queries_sat", std::to_string(e.solver.stats.sat));
  kv("queries_unknown", std::to_string(e.solver.stats.unknown));
  kv("cache_hits", std::to_string(e.solver.stats.cacheHits));
  kv("domain_decided", std::to_string(e.solver.stats.domain));
  kv("model_hits", std::to_string(e.solver.stats.modelHits));
  kv("model_mismatch", std::to_string(e.solver.stats.modelMismatch));
  kv("solver_s", std::to_string(e.solver.stats.time));
  kv("solver_max_s", std::to_string(e.solver.stats.maxTime));
  kv("memory_checks_symbolic", std::to_string(e.memQ));
  kv("exprs", std::to_string(exprCount()));
  kv("maxrss_mb", std::to_string(ru.ru_maxrss / 1024));
  auto mp = [&](std::map<std::string, uint64_t>& m) {
    std::string r = "{"; bool f = true;
    for (auto& p : m) { if (!f) r += ", "; f = false; r += jstr(p.first) + ": " + std::to_string(p.second); }
    return r + "}";
  };
  kv("checks", mp(e.checks));
  kv("checks_solver", mp(e.checksTrivial));
  kv("covers", mp(e.covers));
  kv("bounds", mp(e.bounds));
  {
    std::string r = "["; bool f = true;
    for (auto& x : e.expected) if (!e.covers.count(x)) { if (!f) r += ", "; f = false; r += jstr(x); }
    kv("uncovered", r + "]");
  }
  kv("incomplete", mp(e.incomplete));
  {
    std::string r = "["; bool f = true;
    std::vector<std::string> fs;
    for (auto& p : e.kfs) if (p.second->executed) {
      std::string n = demangle(p.first->getName().str());
      std::string base = n.substr(0, n.find('('));
      if (base.find("mdf::") != std::string::npos && base.find("std::") == std::string::npos && base.find("__gnu_cxx") == std::string::npos) fs.push_back(base);
    }
    std::sort(fs.begin(), fs.end());
    fs.erase(std::unique(fs.begin(), fs.end()), fs.end());
    for (auto& n : fs) { if (!f) r += ", "; f = false; r += jstr(n); }
    kv("functions", r + "]");
  }
  {
    std::string r = "["; bool f = true;
    for (auto& n : e.stubs) { if (!f) r += ", "; f = false; r += jstr(n); }
    kv("stubs", r + "]");
  }
  {
    std::string r = "[";
    for (size_t i = 0; i < e.samples.size(); i++) {
      auto& f = e.samples[i].first;
      r += std::string(i ? "," : "") + "\n  {\"inputs\": [";
      for (size_t k = 0; k < f.inputs.size(); k++) r += (k ? ", [" : "[") + jstr(f.inputs[k].first) + ", " + jstr(f.inputs[k].second) + "]";
      r += "], \"sched\": [";
      for (size_t k = 0; k < f.sched.size(); k++) r += (k ? ", " : "") + std::to_string(f.sched[k]);
      r += "], \"trace\": [";
      for (size_t k = 0; k < e.samples[i].second.size(); k++) r += (k ? ", " : "") + jstr(e.samples[i].second[k]);
      r += "]}";
    }
    kv("samples", r + "]");
  }
  std::string fs = "[";
  for (size_t i = 0; i < e.findings.size(); i++) {
    auto& f = e.findings[i];
    if (i) fs += ",";
    fs += "\n  {\"kind\": " + jstr(f.kind) + ", \"label\": " + jstr(f.label) + ", \"where\": " + jstr(f.where) + ", \"count\": " + std::to_string(f.count);
    fs += ", \"inputs\": [";
    for (size_t k = 0; k < f.inputs.size(); k++) fs += (k ? ", [" : "[") + jstr(f.inputs[k].first) + ", " + jstr(f.inputs[k].second) + "]";
    fs += "], \"sched\": [";
    for (size_t k = 0; k < f.sched.size(); k++) fs += (k ? ", " : "") + std::to_string(f.sched[k]);
    fs += "], \"stack\": [";
    for (size_t k = 0; k < f.stack.size(); k++) fs += (k ? ", " : "") + jstr(f.stack[k]);
    fs += "]}";
  }
  kv("findings", fs + "]", true);
  j += "}\n";
  if (opt.out.empty()) fputs(j.c_str(), stdout);
  else { FILE* fo = fopen(opt.out.c_str(), "w"); fputs(j.c_str(), fo); fclose(fo); }
  fflush(stdout); fflush(stderr);
  _exit(e.findings.empty() ? (e.incomplete.empty() ? 0 : 3) : 1);
}

int main(int argc, char** argv) {
  // deep expression recursion needs a big stack
  struct rlimit rl;
  getrlimit(RLIMIT_STACK, &rl);
  rlim_t want = 2048ull << 20;
  if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < want && !getenv("MSE_STACK")) {
    rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? want : std::min(want, rl.rlim_max);
    if (setrlimit(RLIMIT_STACK, &rl) == 0) { setenv("MSE_STACK", "1", 1); execv("/proc/self/exe", argv); }
  }
  return realMain(argc, argv);
}
