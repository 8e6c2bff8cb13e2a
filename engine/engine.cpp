// Symbolic executor for LLVM IR compiled from the repository's current sources.
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <fcntl.h>
#include <unistd.h>
#include "mem.h"
#include "solver.h"

ExprPool X;
namespace L = llvm;
using L::cast;
using L::dyn_cast;
using L::isa;

static double b2d(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static uint64_t d2b(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static float b2f(uint64_t u) { float d; uint32_t v = (uint32_t)u; memcpy(&d, &v, 4); return d; }
static uint64_t f2b(float d) { uint32_t u; memcpy(&u, &d, 4); return u; }
static uint64_t maskw(uint64_t v, unsigned w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
static int64_t sext(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v = maskw(v, w); return (int64_t)((v ^ m) - m); }
static Q zq(uint64_t v) { Z z; mpz_import(z.get_mpz_t(), 1, 1, 8, 0, 0, &v); return Q(z); }
static Q zsq(int64_t v) { if (v >= 0) return zq((uint64_t)v); return -zq((uint64_t)0 - (uint64_t)v); }
static uint64_t qmod64(const Q& q) { Z z = q.get_num(), r; mpz_fdiv_r_2exp(r.get_mpz_t(), z.get_mpz_t(), 64); uint64_t o = 0; mpz_export(&o, nullptr, 1, 8, 0, 0, r.get_mpz_t()); return o; }
static Q pow2(unsigned n) { Z z = 1; z <<= n; return Q(z); }

struct Fork { E cond; };
struct PathEnd { std::string kind, msg; };  // kind: assume | done | assert | exception | memory | abort | hang | unsupported
struct Unwind {};

struct FuncInfo;
struct Opd { int slot = -1; Value v; };
struct DI {
  L::Instruction* I;
  unsigned opc;
  int dst = -1;
  std::vector<Opd> ops;
  FuncInfo* callee = nullptr;  // resolved direct callee
  int builtin = -1;
  unsigned w = 0, w2 = 0;      // widths
  std::vector<std::pair<int, int64_t>> gep;  // (operand index, scale)
  int64_t gepConst = 0;
  uint64_t size = 0;
  std::vector<int> succ;
  std::vector<unsigned> idx;
  std::vector<uint64_t> swv;
};
struct BBInfo {
  std::vector<DI> ins;
  std::map<int, std::vector<std::pair<int, Opd>>> phi;  // pred -> (dst, value)
  bool hit = false;
  L::BasicBlock* bb = nullptr;
};
struct FuncInfo {
  L::Function* F;
  int nslots = 0;
  bool decoded = false;
  std::vector<BBInfo> bbs;
  uint64_t addr = 0;
  int builtin = -2;
  int tok = -1;
};
struct Frame {
  FuncInfo* f;
  int bb = 0, ip = 0;
  std::vector<Value> regs;
  std::vector<uint64_t> allocas;
};
struct State {
  std::vector<Frame> st;
  Mem mem;
  std::vector<E> pc;
  std::unordered_map<E, bool> known;
  ModelP model;
  uint64_t steps = 0;
  unsigned depth = 0;
  unsigned fresh = 0;
  bool fpmode = false;
  uint64_t excObj = 0, excTI = 0;
  std::map<uint64_t, uint64_t> exTI;
  std::vector<uint64_t> caught;
  std::vector<std::string> inputs;           // names in order of creation
  std::vector<E> inputE;
  std::vector<std::string> covers;
  bool approx = false;
  uint64_t sel = 0;
};

struct Violation {
  std::string kind, label;
  std::vector<std::pair<std::string, std::string>> in;
  std::string cond;
};

struct Engine {
  L::LLVMContext ctx;
  std::unique_ptr<L::Module> M;
  const L::DataLayout* DL;
  Solver S;
  std::unordered_map<const L::Function*, FuncInfo*> fi;
  std::unordered_map<uint64_t, FuncInfo*> faddr;
  std::unordered_map<const L::GlobalValue*, uint64_t> gaddr;
  std::unordered_map<uint64_t, const L::GlobalVariable*> gByAddr;
  std::unordered_map<std::string, std::vector<E>> symByName;
  std::vector<std::unique_ptr<State>> work;
  State* cur = nullptr;

  // limits and counters
  uint64_t maxSteps = 30000000, totalSteps = 0, forks = 0, paths = 0, infeasible = 0, concretized = 0, assumeKilled = 0;
  uint64_t chkTotal = 0, chkTriv = 0, chkSolver = 0, chkUndis = 0, chkFail = 0;
  double timeLimit = 600, firstViol = -1;
  unsigned maxViol = 3;
  std::map<std::string, uint64_t> covers, labels, errors;
  std::vector<Violation> viols;
  std::vector<std::vector<std::pair<std::string, std::string>>> witnesses;
  unsigned maxWit = 6;
  bool incomplete = false;
  std::string incompleteWhy;
  std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
  double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

  std::vector<std::string> bnames;
  std::unordered_map<std::string, int> bidx;
  std::vector<std::function<void(DI&, std::vector<Value>&, Value&)>> bfn;

  // ------------------------------------------------------------------ constants and globals
  Value constVal(const L::Constant* c) {
    if (auto* ci = dyn_cast<L::ConstantInt>(c)) {
      if (ci->getBitWidth() > 64) {
        if (ci->getValue().getActiveBits() > 64) throw PathEnd{"unsupported", "wide constant"};
      }
      return Value(ci->getValue().getZExtValue());
    }
    if (auto* cf = dyn_cast<L::ConstantFP>(c)) {
      if (cf->getType()->isFloatTy()) return Value(f2b(cf->getValueAPF().convertToFloat()));
      if (cf->getType()->isDoubleTy()) return Value(d2b(cf->getValueAPF().convertToDouble()));
      L::APFloat a = cf->getValueAPF(); bool li; a.convert(L::APFloat::IEEEdouble(), L::APFloat::rmNearestTiesToEven, &li);
      return Value(d2b(a.convertToDouble()));
    }
    if (isa<L::ConstantPointerNull>(c)) return Value((uint64_t)0);
    if (isa<L::UndefValue>(c) || isa<L::ConstantAggregateZero>(c)) {
      if (c->getType()->isAggregateType()) {
        std::vector<Value> v;
        unsigned n = isa<L::StructType>(c->getType()) ? c->getType()->getStructNumElements() : (unsigned)c->getType()->getArrayNumElements();
        for (unsigned i = 0; i < n; i++) v.push_back(constVal(c->getAggregateElement(i)));
        return Value(X.mkAgg(v));
      }
      return Value((uint64_t)0);
    }
    if (auto* g = dyn_cast<L::GlobalValue>(c)) return Value(globalAddr(g));
    if (auto* ca = dyn_cast<L::ConstantAggregate>(c)) {
      std::vector<Value> v;
      for (unsigned i = 0; i < ca->getNumOperands(); i++) v.push_back(constVal(ca->getOperand(i)));
      return Value(X.mkAgg(v));
    }
    if (auto* ce = dyn_cast<L::ConstantExpr>(c)) {
      switch (ce->getOpcode()) {
        case L::Instruction::GetElementPtr: {
          auto* g = cast<L::GEPOperator>(ce);
          L::APInt off(64, 0);
          if (!g->accumulateConstantOffset(*DL, off)) throw PathEnd{"unsupported", "const gep"};
          return Value(constVal(cast<L::Constant>(g->getPointerOperand())).c + off.getSExtValue());
        }
        case L::Instruction::BitCast: case L::Instruction::PtrToInt: case L::Instruction::IntToPtr: case L::Instruction::AddrSpaceCast:
          return constVal(ce->getOperand(0));
        case L::Instruction::Trunc: return Value(maskw(constVal(ce->getOperand(0)).c, ce->getType()->getIntegerBitWidth()));
        case L::Instruction::Sub: return Value(maskw(constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c, ce->getType()->getIntegerBitWidth()));
        case L::Instruction::Add: return Value(maskw(constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c, ce->getType()->getIntegerBitWidth()));
        default: break;
      }
    }
    std::string s; L::raw_string_ostream o(s); c->print(o);
    throw PathEnd{"unsupported", "constant " + o.str()};
  }
  uint64_t globalAddr(const L::GlobalValue* g) {
    auto it = gaddr.find(g);
    if (it != gaddr.end()) return it->second;
    if (auto* al = dyn_cast<L::GlobalAlias>(g)) { uint64_t a = constVal(al->getAliasee()).c; gaddr[g] = a; return a; }
    if (auto* f = dyn_cast<L::Function>(g)) {
      if (f->isDeclaration() && f->hasExternalWeakLinkage()) { gaddr[g] = 0; return 0; }
      uint64_t a = initMem->alloc(16, 3, false, f->getName().str());
      gaddr[g] = a;
      faddr[a] = info(f);
      return a;
    }
    auto* gv = cast<L::GlobalVariable>(g);
    if (gv->isDeclaration() && gv->hasExternalWeakLinkage()) { gaddr[g] = 0; return 0; }
    uint64_t sz = gv->isDeclaration() ? 4096 : (uint64_t)DL->getTypeAllocSize(gv->getValueType());
    uint64_t a = initMem->alloc(sz, gv->isDeclaration() ? 3 : 0, false, gv->getName().str());
    gaddr[g] = a;
    gByAddr[a] = gv;
    if (gv->isDeclaration() && gv->getName() == "__libc_single_threaded") { uint64_t off; initMem->getW(a, off)->b[0] = 1; }
    return a;
  }
  Mem* initMem = nullptr;
  void writeConst(uint64_t addr, const L::Constant* c) {
    if (isa<L::UndefValue>(c) || isa<L::ConstantAggregateZero>(c)) return;
    L::Type* t = c->getType();
    if (auto* cds = dyn_cast<L::ConstantDataSequential>(c)) {
      uint64_t es = DL->getTypeAllocSize(cds->getElementType());
      for (unsigned i = 0; i < cds->getNumElements(); i++) writeConst(addr + i * es, cds->getElementAsConstant(i));
      return;
    }
    if (auto* ca = dyn_cast<L::ConstantAggregate>(c)) {
      if (auto* st = dyn_cast<L::StructType>(t)) {
        auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < ca->getNumOperands(); i++) writeConst(addr + sl->getElementOffset(i), ca->getOperand(i));
      } else {
        uint64_t es = DL->getTypeAllocSize(ca->getOperand(0)->getType());
        for (unsigned i = 0; i < ca->getNumOperands(); i++) writeConst(addr + i * es, ca->getOperand(i));
      }
      return;
    }
    Value v = constVal(c);
    uint64_t off;
    Obj* o = initMem->getW(addr, off);
    unsigned n = DL->getTypeStoreSize(t);
    for (unsigned i = 0; i < n && i < 8; i++) o->b.at(off + i) = (uint8_t)(v.c >> (8 * i));
  }

  // ------------------------------------------------------------------ decoding
  FuncInfo* info(L::Function* f) { return info((const L::Function*)f); }
  FuncInfo* info(const L::Function* f) {
    auto& p = fi[f];
    if (!p) { p = new FuncInfo(); p->F = const_cast<L::Function*>(f); }
    return p;
  }
  unsigned width(L::Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    return 64;
  }
  void decode(FuncInfo* f) {
    f->decoded = true;
    std::unordered_map<const L::Value*, int> slot;
    int n = 0;
    for (auto& a : f->F->args()) slot[&a] = n++;
    std::unordered_map<const L::BasicBlock*, int> bi;
    int k = 0;
    for (auto& bb : *f->F) { bi[&bb] = k++; for (auto& i : bb) if (!i.getType()->isVoidTy()) slot[&i] = n++; }
    f->nslots = n;
    f->bbs.resize(k);
    auto op = [&](L::Value* v) {
      Opd o;
      if (auto* c = dyn_cast<L::Constant>(v)) o.v = constVal(c);
      else if (isa<L::MetadataAsValue>(v) || isa<L::InlineAsm>(v) || isa<L::BasicBlock>(v)) {}
      else o.slot = slot.at(v);
      return o;
    };
    for (auto& bb : *f->F) {
      BBInfo& B = f->bbs[bi[&bb]];
      B.bb = &bb;
      for (auto& i : bb) {
        if (auto* p = dyn_cast<L::PHINode>(&i)) {
          for (unsigned q = 0; q < p->getNumIncomingValues(); q++) {
            auto& v = B.phi[bi[p->getIncomingBlock(q)]];
            int d = slot[&i];
            bool dup = false;
            for (auto& x : v) if (x.first == d) dup = true;
            if (!dup) v.push_back({d, op(p->getIncomingValue(q))});
          }
          continue;
        }
        if (isa<L::DbgInfoIntrinsic>(&i)) continue;
        DI d;
        d.I = &i;
        d.opc = i.getOpcode();
        if (auto* dj = dyn_cast<L::PossiblyDisjointInst>(&i)) if (dj->isDisjoint()) d.opc = L::Instruction::Add;
        if (!i.getType()->isVoidTy()) d.dst = slot[&i];
        if (auto* cb = dyn_cast<L::CallBase>(&i)) {
          for (auto& a : cb->args()) d.ops.push_back(op(a.get()));
          auto* cv = cb->getCalledOperand()->stripPointerCasts();
          if (auto* al = dyn_cast<L::GlobalAlias>(cv)) cv = al->getAliasee()->stripPointerCasts();
          if (auto* cf = dyn_cast<L::Function>(cv)) {
            if (cf->isIntrinsic()) {
              auto id = cf->getIntrinsicID();
              if (id == L::Intrinsic::lifetime_start || id == L::Intrinsic::lifetime_end || id == L::Intrinsic::assume || id == L::Intrinsic::experimental_noalias_scope_decl || id == L::Intrinsic::donothing || id == L::Intrinsic::prefetch) continue;
            }
            d.callee = info(cf);
          } else d.ops.push_back(op(cb->getCalledOperand()));
          if (auto* iv = dyn_cast<L::InvokeInst>(&i)) { d.succ.push_back(bi[iv->getNormalDest()]); d.succ.push_back(bi[iv->getUnwindDest()]); }
        } else if (auto* br = dyn_cast<L::BranchInst>(&i)) {
          if (br->isConditional()) d.ops.push_back(op(br->getCondition()));
          for (unsigned s = 0; s < br->getNumSuccessors(); s++) d.succ.push_back(bi[br->getSuccessor(s)]);
        } else if (auto* sw = dyn_cast<L::SwitchInst>(&i)) {
          d.ops.push_back(op(sw->getCondition()));
          d.w = width(sw->getCondition()->getType());
          d.succ.push_back(bi[sw->getDefaultDest()]);
          for (auto& c : sw->cases()) { d.swv.push_back(c.getCaseValue()->getZExtValue()); d.succ.push_back(bi[c.getCaseSuccessor()]); }
        } else if (auto* g = dyn_cast<L::GetElementPtrInst>(&i)) {
          for (auto& o : g->operands()) d.ops.push_back(op(o.get()));
          unsigned oi = 1;
          for (auto it = L::gep_type_begin(g), e = L::gep_type_end(g); it != e; ++it, ++oi) {
            if (auto* st = it.getStructTypeOrNull()) {
              d.gepConst += DL->getStructLayout(st)->getElementOffset(cast<L::ConstantInt>(it.getOperand())->getZExtValue());
            } else {
              int64_t sc = DL->getTypeAllocSize(it.getIndexedType());
              if (auto* ci = dyn_cast<L::ConstantInt>(it.getOperand())) d.gepConst += sc * ci->getSExtValue();
              else { d.gep.push_back({(int)oi, sc}); d.idx.push_back(width(it.getOperand()->getType())); }
            }
          }
        } else {
          for (auto& o : i.operands()) d.ops.push_back(op(o.get()));
          if (auto* a = dyn_cast<L::AllocaInst>(&i)) d.size = DL->getTypeAllocSize(a->getAllocatedType());
          if (isa<L::LoadInst>(&i)) d.size = DL->getTypeStoreSize(i.getType());
          if (auto* s = dyn_cast<L::StoreInst>(&i)) { d.size = DL->getTypeStoreSize(s->getValueOperand()->getType()); d.w = width(s->getValueOperand()->getType()); }
          if (auto* ev = dyn_cast<L::ExtractValueInst>(&i)) d.idx.assign(ev->idx_begin(), ev->idx_end());
          if (auto* iv = dyn_cast<L::InsertValueInst>(&i)) d.idx.assign(iv->idx_begin(), iv->idx_end());
        }
        if (!isa<L::StoreInst>(&i) && !isa<L::SwitchInst>(&i)) d.w = i.getType()->isVoidTy() ? 0 : width(i.getType());
        if (i.getNumOperands() && !isa<L::CallBase>(&i)) d.w2 = width(i.getOperand(0)->getType());
        B.ins.push_back(std::move(d));
      }
    }
  }

  // ------------------------------------------------------------------ deciding conditions
  bool decide(E c) {
    if (c == X.T) return true;
    if (c == X.F) return false;
    auto it = cur->known.find(c);
    if (it != cur->known.end()) return it->second;
    E n = X.bNot(c);
    if (n == X.T) return false;
    if (n == X.F) return true;
    it = cur->known.find(n);
    if (it != cur->known.end()) return !it->second;
    MVal v;
    if (cur->model && Eval::ev(c, *cur->model, v)) {
      // the model already shows this side feasible
      S.st.modelHits++;
      E other = v.u ? n : c;
      ModelP m;
      int r = S.check(cur->pc, other, cur->model, &m);
      if (r == 0) { cur->known[c] = v.u; return v.u; }
      pendModel = r == 1 ? m : nullptr;
      pendPrefer = v.u;
      throw Fork{c};
    }
    ModelP m1, m2;
    int r1 = S.check(cur->pc, c, cur->model, &m1);
    if (r1 == 0) { cur->known[c] = false; if (!cur->model) cur->model = nullptr; return false; }
    int r2 = S.check(cur->pc, n, cur->model, &m2);
    if (r2 == 0) { cur->known[c] = true; if (r1 == 1) cur->model = m1; return true; }
    cur->model = r1 == 1 ? m1 : nullptr;
    pendModel = r2 == 1 ? m2 : nullptr;
    pendPrefer = true;
    throw Fork{c};
  }
  ModelP pendModel;
  bool pendPrefer = true;
  void addPC(State* s, E c) {
    if (c == X.T) return;
    if (c->k == K::And) { addPC(s, c->kids[0]); addPC(s, c->kids[1]); s->known[c] = true; return; }
    if (s->known.count(c) && s->known[c]) return;
    s->pc.push_back(c);
    s->known[c] = true;
    if (c->k == K::Eq0) {  // useful consequences for ordering tests
      E a = c->kids[0];
      Poly p = ExprPool::asPoly(a), n = ExprPool::addP(Poly(), p, Q(-1));
      s->known[X.cmp0(p, a->s, K::Lt0)] = false;
      s->known[X.cmp0(n, a->s, K::Lt0)] = false;
    } else if (c->k == K::Lt0 || c->k == K::Le0) {
      E a = c->kids[0];
      bool strict = c->k == K::Lt0;
      Poly p = ExprPool::asPoly(a);
      if (strict) { s->known[X.cmp0(p, a->s, K::Le0)] = true; E q = X.cmp0(p, a->s, K::Eq0); if (q != X.F && q != X.T) s->known[q] = false; }
      else if (a->s == Sort::Int) {  // p<=0 also gives p-1<=0 and p-1 != 0
        Poly p1 = ExprPool::addP(p, ExprPool::constPoly(Q(1)), Q(-1));
        E q = X.cmp0(p1, a->s, K::Eq0); if (q != X.F && q != X.T) s->known[q] = false;
        E l = X.cmp0(p1, a->s, K::Le0); if (l != X.T && l != X.F) s->known[l] = true;
      }
    }
  }
  uint64_t concretize(Value v, unsigned w) {
    if (!v.e) return v.c;
    if (v.e->s == Sort::Bool) return decide(v.e);
    E e = toInt(v, w);
    e = normU(e, w);
    if (e->hasLo && e->hasHi && e->lo == e->hi) return qmod64(e->lo);
    MVal mv;
    if (!(cur->model && Eval::ev(e, *cur->model, mv))) {
      ModelP m;
      E probe = X.cmp0(ExprPool::addP(Poly(), ExprPool::asPoly(e), Q(-1)), Sort::Int, K::Le0);
      if (probe == X.T) probe = X.cmp0(ExprPool::addP(ExprPool::asPoly(e), ExprPool::constPoly(pow2(64)), Q(-1)), Sort::Int, K::Lt0);
      int r = S.check(cur->pc, probe, cur->model, &m);
      if (r != 1) throw PathEnd{"unsupported", "concretize without model"};
      cur->model = m;
      if (!Eval::ev(e, *m, mv)) { if (e->k == K::Poly && e->p->t.empty()) mv.q = 0; else throw PathEnd{"unsupported", "concretize: no exact model value"}; }
    }
    E c = eqConst(e, mv.q);
    concretized++;
    if (getenv("SYMEX_CONC") && concretized < 8) fprintf(stderr, "concretize w=%u %s%s\n", w, X.str(v.e).substr(0, 200).c_str(), where().c_str());
    if (decide(c)) return qmod64(mv.q);
    throw PathEnd{"unsupported", "concretize inconsistency"};
  }
  E eqConst(E e, const Q& q) { return X.cmp0(ExprPool::addP(ExprPool::asPoly(e), ExprPool::constPoly(q), Q(-1)), e->s, K::Eq0); }

  // ------------------------------------------------------------------ integers
  E fromPoly(Poly p, Sort s) { return X.mkPoly(std::move(p), s); }
  Poly ipoly(Value v, unsigned w) {
    if (!v.e) return ExprPool::constPoly(zsq(sext(v.c, w)));
    return ExprPool::asPoly(toInt(v, w));
  }
  Value ival(Poly p, unsigned w) {
    Q q;
    if (ExprPool::isConst(p, q)) return Value(maskw(qmod64(q), w));
    return Value(X.mkPoly(std::move(p), Sort::Int));
  }
  E toInt(Value v, unsigned w) {
    E e = v.e;
    if (e->s == Sort::Int) return e;
    if (e->s == Sort::Byte) return byteInt(e);
    if (e->s == Sort::Bool) { throw PathEnd{"unsupported", "bool as int"}; }
    // the bits of a floating-point value used as an integer: unconstrained (over-approximation)
    E x = X.mk(K::ISym, Sort::Int, {}, 0, "bits_of_" + std::to_string(e->id));
    setRange(x, 0, pow2(w) - 1);
    return x;
  }
  void setRange(E x, const Q& lo, const Q& hi) { Expr* y = const_cast<Expr*>(x); y->hasLo = y->hasHi = true; y->lo = lo; y->hi = hi; }
  E byteInt(E e) {  // Byte node: u = index | size<<8
    unsigned i = e->u & 255, n = (e->u >> 8) & 255;
    E k = e->kids[0];
    if (k->s == Sort::Int) return modPow(idivPow(normU(k, n * 8), i * 8), 8);
    E x = X.mk(K::ISym, Sort::Int, {}, 0, "byte" + std::to_string(i) + "_of_" + std::to_string(k->id));
    setRange(x, 0, 255);
    return x;
  }
  E constE(const Q& q) { return X.mkPoly(ExprPool::constPoly(q), Sort::Int); }
  E idivPow(E e, unsigned sh) {
    if (sh == 0) return e;
    if (e->hasLo && e->hasHi && e->lo >= 0 && e->hi < pow2(sh)) return constE(0);
    return X.mk(K::IDiv, Sort::Int, {e, constE(pow2(sh))}, 0, "");
  }
  E modPow(E e, unsigned sh) {
    if (e->hasLo && e->hasHi && e->lo >= 0 && e->hi < pow2(sh)) return e;
    E d = X.mk(K::IDiv, Sort::Int, {e, constE(pow2(sh))}, 0, "");
    E r = X.mkPoly(ExprPool::addP(ExprPool::asPoly(e), ExprPool::asPoly(d), -pow2(sh)), Sort::Int);
    // r is in [0,2^sh): name it through its interval
    if (!(r->hasLo && r->lo == 0 && r->hasHi && r->hi == pow2(sh) - 1)) { setRange(r, 0, pow2(sh) - 1); }
    return r;
  }
  E norm(E e, unsigned w, const Q& lo, const Q& hi) {
    Q m = pow2(w);
    for (int guard = 0; guard < 8; guard++) {
      bool okL = e->hasLo && e->lo >= lo, okH = e->hasHi && e->hi <= hi;
      if (okL && okH) return e;
      if (!okH) {
        if (e->hasHi && e->hi > hi + 4 * m) break;
        if (!e->hasHi) break;
        E c = X.cmp0(ExprPool::addP(ExprPool::constPoly(hi), ExprPool::asPoly(e), Q(-1)), Sort::Int, K::Lt0);  // hi - e < 0
        if (decide(c)) { e = X.mkPoly(ExprPool::addP(ExprPool::asPoly(e), ExprPool::constPoly(m), Q(-1)), Sort::Int); continue; }
      }
      if (!okL) {
        if (!e->hasLo || e->lo < lo - 4 * m) break;
        E c = X.cmp0(ExprPool::addP(ExprPool::asPoly(e), ExprPool::constPoly(lo), Q(-1)), Sort::Int, K::Lt0);  // e - lo < 0
        if (decide(c)) { e = X.mkPoly(ExprPool::addP(ExprPool::asPoly(e), ExprPool::constPoly(m), Q(1)), Sort::Int); continue; }
      }
      return e;  // within range on this path
    }
    // far out of range: explicit modulo
    if (lo == 0) { E d = X.mk(K::IDiv, Sort::Int, {e, constE(m)}, 0, ""); E r = X.mkPoly(ExprPool::addP(ExprPool::asPoly(e), ExprPool::asPoly(d), -m), Sort::Int); setRange(r, 0, hi); return r; }
    E sh = X.mkPoly(ExprPool::addP(ExprPool::asPoly(e), ExprPool::constPoly(lo), Q(-1)), Sort::Int);
    E d = X.mk(K::IDiv, Sort::Int, {sh, constE(m)}, 0, "");
    E r = X.mkPoly(ExprPool::addP(ExprPool::asPoly(e), ExprPool::asPoly(d), -m), Sort::Int);
    setRange(r, lo, hi);
    return r;
  }
  E normU(E e, unsigned w) { return norm(e, w, 0, pow2(w) - 1); }
  E normS(E e, unsigned w) { return norm(e, w, -pow2(w - 1), pow2(w - 1) - 1); }
  Poly uP(Value v, unsigned w) { if (!v.e) return ExprPool::constPoly(zq(maskw(v.c, w))); return ExprPool::asPoly(normU(toInt(v, w), w)); }
  Poly sP(Value v, unsigned w) { if (!v.e) return ExprPool::constPoly(zsq(sext(v.c, w))); return ExprPool::asPoly(normS(toInt(v, w), w)); }
  Value bval(E e) { if (e == X.T) return Value((uint64_t)1); if (e == X.F) return Value((uint64_t)0); return Value(e); }
  E boolE(Value v) {
    if (!v.e) return (v.c & 1) ? X.T : X.F;
    if (v.e->s == Sort::Bool) return v.e;
    E i = toInt(v, 1);
    return X.bNot(eqConst(normU(i, 1), 0));
  }
  Value icmp(unsigned pred, Value a, Value b, unsigned w) {
    using P = L::CmpInst;
    if (!a.e && !b.e) {
      uint64_t x = maskw(a.c, w), y = maskw(b.c, w);
      int64_t sx = sext(x, w), sy = sext(y, w);
      switch (pred) {
        case P::ICMP_EQ: return x == y; case P::ICMP_NE: return x != y;
        case P::ICMP_ULT: return x < y; case P::ICMP_ULE: return x <= y; case P::ICMP_UGT: return x > y; case P::ICMP_UGE: return x >= y;
        case P::ICMP_SLT: return sx < sy; case P::ICMP_SLE: return sx <= sy; case P::ICMP_SGT: return sx > sy; case P::ICMP_SGE: return sx >= sy;
      }
    }
    if (w == 1 || (a.e && a.e->s == Sort::Bool) || (b.e && b.e->s == Sort::Bool)) {
      E x = boolE(a), y = boolE(b);
      if (pred == P::ICMP_EQ) return bval(X.bNot(X.bXor(x, y)));
      if (pred == P::ICMP_NE) return bval(X.bXor(x, y));
      return icmp(pred, Value((uint64_t)decide(x)), Value((uint64_t)decide(y)), w);
    }
    if (pred == P::ICMP_EQ || pred == P::ICMP_NE) {
      bool ne = pred == P::ICMP_NE;
      if (a.e && a.e == b.e) return Value((uint64_t)!ne);
      if (a.e && b.e && (a.e->s == Sort::Real || a.e->s == Sort::FP) && b.e->s == a.e->s) {  // bit comparison of doubles
        E r = a.e->s == Sort::FP ? X.mk(K::FSame, Sort::Bool, {a.e, b.e}, 0, "") : X.cmp0(ExprPool::addP(ExprPool::asPoly(a.e), ExprPool::asPoly(b.e), Q(-1)), Sort::Real, K::Eq0);
        return bval(ne ? X.bNot(r) : r);
      }
      Poly d = ExprPool::addP(ipoly(a, w), ipoly(b, w), Q(-1));
      Q q;
      if (ExprPool::isConst(d, q)) { bool eq = maskw(qmod64(q), w) == 0; return Value((uint64_t)(eq != ne)); }
      E de = X.mkPoly(Poly(d), Sort::Int);
      if (!(de->hasLo && de->hasHi && de->lo > -pow2(w) && de->hi < pow2(w))) d = ExprPool::addP(uP(a, w), uP(b, w), Q(-1));
      E r = X.cmp0(d, Sort::Int, K::Eq0);
      return bval(ne ? X.bNot(r) : r);
    }
    bool sg = pred == P::ICMP_SLT || pred == P::ICMP_SLE || pred == P::ICMP_SGT || pred == P::ICMP_SGE;
    Poly x = sg ? sP(a, w) : uP(a, w), y = sg ? sP(b, w) : uP(b, w);
    switch (pred) {
      case P::ICMP_ULT: case P::ICMP_SLT: return bval(X.cmp0(ExprPool::addP(x, y, Q(-1)), Sort::Int, K::Lt0));
      case P::ICMP_ULE: case P::ICMP_SLE: return bval(X.cmp0(ExprPool::addP(x, y, Q(-1)), Sort::Int, K::Le0));
      case P::ICMP_UGT: case P::ICMP_SGT: return bval(X.cmp0(ExprPool::addP(y, x, Q(-1)), Sort::Int, K::Lt0));
      default: return bval(X.cmp0(ExprPool::addP(y, x, Q(-1)), Sort::Int, K::Le0));
    }
  }
  Value idiv(Poly a, Poly b, bool rem, unsigned w) {  // both non-negative, floor
    Q qb, qa;
    if (ExprPool::isConst(b, qb)) {
      if (qb == 0) throw PathEnd{"memory", "integer division by zero"};
      if (ExprPool::isConst(a, qa)) { Q d = Eval::fl(qa / qb); return Value(maskw(qmod64(rem ? Q(qa - d * qb) : d), w)); }
      if (qb == 1) return rem ? Value((uint64_t)0) : ival(a, w);
    } else {
      E be = X.mkPoly(Poly(b), Sort::Int);
      if (decide(eqConst(be, 0))) throw PathEnd{"memory", "integer division by zero"};
    }
    E ae = X.mkPoly(Poly(a), Sort::Int), be = X.mkPoly(Poly(b), Sort::Int);
    E d = X.mk(K::IDiv, Sort::Int, {ae, be}, 0, "");
    if (!rem) return Value(d);
    Poly r = ExprPool::addP(a, X.mulP(ExprPool::asPoly(d), b), Q(-1));
    E re = X.mkPoly(std::move(r), Sort::Int);
    if (ExprPool::isConst(b, qb)) setRange(re, 0, qb - 1);
    return Value(re);
  }
  Value binop(unsigned opc, Value a, Value b, unsigned w) {
    using I = L::Instruction;
    if (!a.e && !b.e) {
      uint64_t x = maskw(a.c, w), y = maskw(b.c, w);
      switch (opc) {
        case I::Add: return maskw(x + y, w); case I::Sub: return maskw(x - y, w); case I::Mul: return maskw(x * y, w);
        case I::UDiv: if (!y) throw PathEnd{"memory", "integer division by zero"}; return x / y;
        case I::URem: if (!y) throw PathEnd{"memory", "integer division by zero"}; return x % y;
        case I::SDiv: if (!y) throw PathEnd{"memory", "integer division by zero"}; if (sext(y, w) == -1) return maskw(0 - x, w); return maskw((uint64_t)(sext(x, w) / sext(y, w)), w);
        case I::SRem: if (!y) throw PathEnd{"memory", "integer division by zero"}; if (sext(y, w) == -1) return (uint64_t)0; return maskw((uint64_t)(sext(x, w) % sext(y, w)), w);
        case I::And: return x & y; case I::Or: return x | y; case I::Xor: return x ^ y;
        case I::Shl: return y >= w ? 0 : maskw(x << y, w); case I::LShr: return y >= w ? 0 : x >> y;
        case I::AShr: return maskw((uint64_t)(sext(x, w) >> (y >= w ? w - 1 : y)), w);
      }
    }
    bool ab = (a.e && a.e->s == Sort::Bool) || (b.e && b.e->s == Sort::Bool) || w == 1;
    if (ab && w == 1) {
      switch (opc) {
        case I::And: case I::Mul: return bval(X.bAnd(boolE(a), boolE(b)));
        case I::Or: return bval(X.bOr(boolE(a), boolE(b)));
        case I::Xor: case I::Add: case I::Sub: return bval(X.bXor(boolE(a), boolE(b)));
      }
    }
    if (a.e && a.e->s == Sort::Bool) a = Value((uint64_t)decide(a.e));
    if (b.e && b.e->s == Sort::Bool) b = Value((uint64_t)decide(b.e));
    if (!a.e && !b.e) return binop(opc, a, b, w);
    // reinterpretation of doubles: sign manipulations
    switch (opc) {
      case I::Add: return ival(ExprPool::addP(ipoly(a, w), ipoly(b, w), Q(1)), w);
      case I::Sub: return ival(ExprPool::addP(ipoly(a, w), ipoly(b, w), Q(-1)), w);
      case I::Mul: return ival(X.mulP(ipoly(a, w), ipoly(b, w)), w);
      case I::UDiv: return idiv(uP(a, w), uP(b, w), false, w);
      case I::URem: return idiv(uP(a, w), uP(b, w), true, w);
      case I::SDiv: case I::SRem: {
        Poly x = sP(a, w), y = sP(b, w);
        bool nx = decide(X.cmp0(x, Sort::Int, K::Lt0)), ny = decide(X.cmp0(y, Sort::Int, K::Lt0));
        if (nx) x = ExprPool::addP(Poly(), x, Q(-1));
        if (ny) y = ExprPool::addP(Poly(), y, Q(-1));
        Value r = idiv(x, y, opc == I::SRem, w);
        bool neg = opc == I::SDiv ? nx != ny : nx;
        if (!neg) return r;
        return ival(ExprPool::addP(Poly(), ipoly(r, w), Q(-1)), w);
      }
      case I::And: case I::Or: case I::Xor: {
        if (a.e && !b.e) std::swap(a, b);  // constant first
        // a word of bit flags (vector<bool>) nobody has written yet: its unwritten bits are taken as zero
        if (!a.e && w == 64 && b.e && b.e->k == K::ISym && b.e->name.compare(0, 6, "uninit") == 0) return binop(opc, a, Value((uint64_t)0), w);
        if (!a.e) {
          uint64_t m = maskw(a.c, w);
          if (opc == I::And) {
            if (m == 0) return Value((uint64_t)0);
            if (m == maskw(~0ull, w)) return b;
            if ((m & (m + 1)) == 0) { unsigned k = __builtin_popcountll(m); Poly p = ipoly(b, w); E e = X.mkPoly(std::move(p), Sort::Int); return ival(ExprPool::asPoly(modPow(e, k)), w); }
            uint64_t nm = maskw(~m, w);
            if ((nm & (nm + 1)) == 0) { unsigned k = __builtin_popcountll(nm); E e = normU(toInt(b, w), w); return ival(ExprPool::addP(ExprPool::asPoly(e), ExprPool::asPoly(modPow(e, k)), Q(-1)), w); }
          } else if (opc == I::Or) {
            if (m == 0) return b;
            if (m == maskw(~0ull, w)) return Value(m);
          } else {
            if (m == 0) return b;
            if (m == maskw(~0ull, w)) return ival(ExprPool::addP(ExprPool::constPoly(Q(-1)), ipoly(b, w), Q(-1)), w);
          }
        }
        if (a.e == b.e && a.e) return opc == I::Xor ? Value((uint64_t)0) : a;
        uint64_t x = concretize(a, w), y = concretize(b, w);
        return binop(opc, Value(x), Value(y), w);
      }
      case I::Shl: case I::LShr: case I::AShr: {
        uint64_t k = concretize(b, w);
        if (k >= w) return Value((uint64_t)0);
        if (!a.e) return binop(opc, a, Value(k), w);
        if (opc == I::Shl) return ival(X.mulP(ipoly(a, w), ExprPool::constPoly(pow2(k))), w);
        if (opc == I::LShr) return ival(ExprPool::asPoly(idivPow(normU(toInt(a, w), w), k)), w);
        return ival(ExprPool::asPoly(idivPow(normS(toInt(a, w), w), k)), w);
      }
    }
    throw PathEnd{"unsupported", "integer op"};
  }

  // ------------------------------------------------------------------ floating point
  bool isFP(Value v) { return v.e && v.e->s == Sort::FP; }
  E fpE(Value v) {
    if (!v.e) return X.mk(K::FConst, Sort::FP, {}, v.c, "");
    if (v.e->s == Sort::FP) return v.e;
    if (v.e->s == Sort::Real) return X.mk(K::FUF, Sort::FP, {}, v.e->id, "real2fp");
    return X.mk(K::FUF, Sort::FP, {}, v.e->id, "bits2fp");
  }
  Poly rP(Value v) {
    if (!v.e) {
      double d = b2d(v.c);
      if (!std::isfinite(d)) throw PathEnd{"unsupported", "non-finite value in real arithmetic"};
      return ExprPool::constPoly(Q(d));
    }
    if (v.e->s == Sort::Real) return ExprPool::asPoly(v.e);
    // an integer's bytes read as a double
    E x = X.mk(K::RSym, Sort::Real, {}, v.e->id, "reinterpreted");
    return ExprPool::asPoly(x);
  }
  Value rval(Poly p) {
    Q q;
    if (ExprPool::isConst(p, q)) return Value(d2b(q2d(q)));
    // Int atoms inside a Real polynomial stay Real-sorted
    E e = X.mkPoly(std::move(p), Sort::Real);
    return Value(e);
  }
  Value fbin(unsigned opc, Value a, Value b) {
    using I = L::Instruction;
    if (!a.e && !b.e) {
      double x = b2d(a.c), y = b2d(b.c);
      switch (opc) {
        case I::FAdd: return d2b(x + y); case I::FSub: return d2b(x - y); case I::FMul: return d2b(x * y); case I::FDiv: return d2b(x / y);
        case I::FRem: return d2b(std::fmod(x, y));
      }
    }
    if (isFP(a) || isFP(b)) {
      E x = fpE(a), y = fpE(b);
      K k;
      switch (opc) {
        case I::FAdd: k = K::FAdd; if (x->id > y->id) std::swap(x, y); break;
        case I::FSub: k = K::FSub; break;
        case I::FMul: k = K::FMul; if (x->id > y->id) std::swap(x, y); break;
        case I::FDiv: k = K::FDiv; break;
        default: return Value(X.mk(K::FUF, Sort::FP, {x, y}, 0, "frem"));
      }
      return Value(X.mk(k, Sort::FP, {x, y}, 0, ""));
    }
    // non-finite concrete operand against a (finite) real
    if ((!a.e && !std::isfinite(b2d(a.c))) || (!b.e && !std::isfinite(b2d(b.c)))) {
      bool aN = !a.e && !std::isfinite(b2d(a.c));
      double inf = aN ? b2d(a.c) : b2d(b.c);
      if (std::isnan(inf)) return d2b(inf);
      if (opc == I::FAdd) return d2b(inf);
      if (opc == I::FSub) return d2b(aN ? inf : -inf);
      if (opc == I::FDiv && !aN) return d2b(0.0);
      Value o = aN ? b : a;
      Poly p = rP(o);
      if (decide(X.cmp0(p, Sort::Real, K::Eq0))) return d2b(opc == I::FMul ? NAN : inf);
      return d2b(decide(X.cmp0(p, Sort::Real, K::Lt0)) ? -inf : inf);
    }
    Poly x = rP(a), y = rP(b);
    switch (opc) {
      case I::FAdd: return rval(ExprPool::addP(x, y, Q(1)));
      case I::FSub: return rval(ExprPool::addP(x, y, Q(-1)));
      case I::FMul: return rval(X.mulP(x, y));
      case I::FDiv: return rdiv(x, y);
      case I::FRem: {
        Value q = rdiv(x, y);
        Value t = truncR(q);
        return fbin(I::FSub, a, fbin(I::FMul, t, b));
      }
    }
    throw PathEnd{"unsupported", "fp op"};
  }
  Value rdiv(const Poly& x, const Poly& y) {
    Q q;
    if (ExprPool::isConst(y, q)) {
      if (q == 0) return divZero(x);
      return rval(ExprPool::addP(Poly(), x, 1 / q));
    }
    if (decide(X.cmp0(y, Sort::Real, K::Eq0))) return divZero(x);
    return rval(X.mulP(x, inv(y)));
  }
  Poly inv(const Poly& y) {
    // factor out the leading coefficient; invert a monomial atom by atom
    Q lead = y.t.back().second;
    Poly n = ExprPool::addP(Poly(), y, 1 / lead);
    Poly r = ExprPool::constPoly(1 / lead);
    if (n.t.size() == 1) {
      for (E a : n.t[0].first.a) {
        E iv = a->k == K::Inv ? a->kids[0] : X.mk(K::Inv, Sort::Real, {a}, 0, "");
        r = X.mulP(r, ExprPool::asPoly(iv));
      }
      return r;
    }
    E iv = X.mk(K::Inv, Sort::Real, {X.mkPoly(std::move(n), Sort::Real)}, 0, "");
    return X.mulP(r, ExprPool::asPoly(iv));
  }
  Value divZero(const Poly& x) {
    Q q;
    if (ExprPool::isConst(x, q)) return d2b(q == 0 ? NAN : q > 0 ? INFINITY : -INFINITY);
    if (decide(X.cmp0(x, Sort::Real, K::Eq0))) return d2b(NAN);
    return d2b(decide(X.cmp0(x, Sort::Real, K::Lt0)) ? -INFINITY : INFINITY);
  }
  Value floorR(Value v) {
    if (!v.e) return d2b(std::floor(b2d(v.c)));
    if (isFP(v)) return Value(X.mk(K::FUF, Sort::FP, {v.e}, 0, "floor"));
    Poly p = rP(v);
    if (intPoly(p)) return v;
    E e = X.mk(K::Floor, Sort::Int, {X.mkPoly(std::move(p), Sort::Real)}, 0, "");
    return rval(ExprPool::asPoly(e));
  }
  bool intPoly(const Poly& p) {
    for (auto& t : p.t) {
      if (t.second.get_den() != 1) return false;
      for (E a : t.first.a) if (a->s != Sort::Int) return false;
    }
    return true;
  }
  Value negR(Value v) { return fbin(L::Instruction::FSub, Value(d2b(0.0)), v); }
  Value truncR(Value v) {
    if (!v.e) return d2b(std::trunc(b2d(v.c)));
    if (isFP(v)) return Value(X.mk(K::FUF, Sort::FP, {v.e}, 0, "trunc"));
    Poly p = rP(v);
    if (intPoly(p)) return v;
    if (decide(X.cmp0(p, Sort::Real, K::Lt0))) return negR(floorR(negR(v)));
    return floorR(v);
  }
  // single precision: symbolic floats are carried as the (rounded) double value
  Value fl2d(Value a) { return a.e ? a : Value(d2b(b2f(a.c))); }
  Value d2fl(Value a) {
    if (!a.e) return Value(f2b((float)b2d(a.c)));
    if (isFP(a)) return a.e->k == K::FRnd ? a : Value(X.mk(K::FRnd, Sort::FP, {a.e}, 0, ""));
    if (a.e->k == K::UF && a.e->name == "f32") return a;
    if (a.e->s == Sort::Bool) return d2fl(Value((uint64_t)decide(a.e)));
    Value r = rval(rP(a));
    if (!r.e) return d2fl(r);
    rounded = true;
    return Value(X.mk(K::UF, Sort::Real, {r.e}, 0, "f32"));
  }
  bool rounded = false;
  Value fneg(Value a) {
    if (!a.e) return a.c ^ (1ull << 63);
    if (isFP(a)) return a.e->k == K::FNeg ? Value(a.e->kids[0]) : Value(X.mk(K::FNeg, Sort::FP, {a.e}, 0, ""));
    return rval(ExprPool::addP(Poly(), rP(a), Q(-1)));
  }
  Value fabsV(Value a) {
    if (!a.e) return a.c & ~(1ull << 63);
    if (isFP(a)) return Value(X.mk(K::FAbs, Sort::FP, {a.e}, 0, ""));
    return decide(X.cmp0(rP(a), Sort::Real, K::Lt0)) ? fneg(a) : a;
  }
  Value sqrtV(Value a) {
    if (!a.e) return d2b(std::sqrt(b2d(a.c)));
    if (isFP(a)) return Value(X.mk(K::FSqrt, Sort::FP, {a.e}, 0, ""));
    Poly p = rP(a);
    if (decide(X.cmp0(p, Sort::Real, K::Lt0))) return d2b(NAN);
    return rval(ExprPool::asPoly(X.mk(K::Sqrt, Sort::Real, {X.mkPoly(std::move(p), Sort::Real)}, 0, "")));
  }
  Value fcmp(unsigned pred, Value a, Value b) {
    using P = L::CmpInst;
    if (pred == P::FCMP_TRUE) return (uint64_t)1;
    if (pred == P::FCMP_FALSE) return (uint64_t)0;
    if (!a.e && !b.e) {
      double x = b2d(a.c), y = b2d(b.c);
      bool un = std::isnan(x) || std::isnan(y);
      switch (pred) {
        case P::FCMP_OEQ: return x == y; case P::FCMP_OGT: return x > y; case P::FCMP_OGE: return x >= y; case P::FCMP_OLT: return x < y; case P::FCMP_OLE: return x <= y;
        case P::FCMP_ONE: return !un && x != y; case P::FCMP_ORD: return !un; case P::FCMP_UNO: return un;
        case P::FCMP_UEQ: return un || x == y; case P::FCMP_UGT: return un || x > y; case P::FCMP_UGE: return un || x >= y; case P::FCMP_ULT: return un || x < y; case P::FCMP_ULE: return un || x <= y; case P::FCMP_UNE: return un || x != y;
      }
    }
    if (isFP(a) || isFP(b)) {
      E x = fpE(a), y = fpE(b);
      auto lt = [&](E p, E q) { return p == q ? X.F : X.mk(K::FLt, Sort::Bool, {p, q}, 0, ""); };
      auto le = [&](E p, E q) { return X.mk(K::FLe, Sort::Bool, {p, q}, 0, ""); };
      auto eq = [&](E p, E q) { if (p->id > q->id) std::swap(p, q); return X.mk(K::FEq, Sort::Bool, {p, q}, 0, ""); };
      auto nan = [&](E p) { if (p->k == K::FConst) return std::isnan(b2d(p->u)) ? X.T : X.F; return X.mk(K::FNan, Sort::Bool, {p}, 0, ""); };
      E un = X.bOr(nan(x), nan(y));
      switch (pred) {
        case P::FCMP_OEQ: return bval(eq(x, y)); case P::FCMP_OGT: return bval(lt(y, x)); case P::FCMP_OGE: return bval(le(y, x));
        case P::FCMP_OLT: return bval(lt(x, y)); case P::FCMP_OLE: return bval(le(x, y)); case P::FCMP_ONE: return bval(X.bAnd(X.bNot(un), X.bNot(eq(x, y))));
        case P::FCMP_ORD: return bval(X.bNot(un)); case P::FCMP_UNO: return bval(un);
        case P::FCMP_UEQ: return bval(X.bOr(un, eq(x, y))); case P::FCMP_UGT: return bval(X.bNot(le(x, y))); case P::FCMP_UGE: return bval(X.bNot(lt(x, y)));
        case P::FCMP_ULT: return bval(X.bNot(le(y, x))); case P::FCMP_ULE: return bval(X.bNot(lt(y, x))); case P::FCMP_UNE: return bval(X.bNot(eq(x, y)));
      }
    }
    for (int i = 0; i < 2; i++) {
      Value v = i ? b : a;
      if (!v.e && !std::isfinite(b2d(v.c))) {
        double d = b2d(v.c), other = 0;
        return fcmp(pred, Value(d2b(i ? other : d)), Value(d2b(i ? d : other)));  // any finite number orders the same way
      }
    }
    Poly x = rP(a), y = rP(b);
    Poly d = ExprPool::addP(x, y, Q(-1)), n = ExprPool::addP(y, x, Q(-1));
    switch (pred) {
      case P::FCMP_OEQ: case P::FCMP_UEQ: return bval(X.cmp0(d, Sort::Real, K::Eq0));
      case P::FCMP_ONE: case P::FCMP_UNE: return bval(X.bNot(X.cmp0(d, Sort::Real, K::Eq0)));
      case P::FCMP_OLT: case P::FCMP_ULT: return bval(X.cmp0(d, Sort::Real, K::Lt0));
      case P::FCMP_OLE: case P::FCMP_ULE: return bval(X.cmp0(d, Sort::Real, K::Le0));
      case P::FCMP_OGT: case P::FCMP_UGT: return bval(X.cmp0(n, Sort::Real, K::Lt0));
      case P::FCMP_OGE: case P::FCMP_UGE: return bval(X.cmp0(n, Sort::Real, K::Le0));
      case P::FCMP_ORD: return (uint64_t)1;
      default: return (uint64_t)0;
    }
  }
  Value itof(Value v, unsigned w, bool sg) {
    if (v.e && v.e->s == Sort::Bool) v = Value((uint64_t)decide(v.e));
    if (!v.e) return sg ? d2b((double)sext(v.c, w)) : d2b((double)maskw(v.c, w));
    E e = sg ? normS(toInt(v, w), w) : normU(toInt(v, w), w);
    if (cur->fpmode) return Value(X.mk(K::FUF, Sort::FP, {}, e->id, "itof"));
    Poly p = ExprPool::asPoly(e);
    // beyond 2^53 the conversion rounds to the neighbouring representable integer (ties upwards)
    auto lt = [&](const Poly& q, unsigned k) { return decide(X.cmp0(ExprPool::addP(q, ExprPool::constPoly(pow2(k)), Q(-1)), Sort::Int, K::Lt0)); };
    Poly neg = ExprPool::addP(Poly(), p, Q(-1));
    for (int side = 0; side < (sg ? 2 : 1); side++) {
      const Poly& q = side ? neg : p;
      if (lt(q, 53)) continue;
      unsigned k = 1;
      while (k < 11 && !lt(q, 53 + k)) k++;
      E h = idivPow(X.mkPoly(ExprPool::addP(q, ExprPool::constPoly(pow2(k - 1)), Q(1)), Sort::Int), k);
      return rval(ExprPool::addP(Poly(), ExprPool::asPoly(h), side ? -pow2(k) : pow2(k)));
    }
    return rval(p);
  }
  Value ftoi(Value v, unsigned w, bool sg) {
    if (!v.e) {
      double d = b2d(v.c);
      if (std::isnan(d)) return (uint64_t)0;
      if (sg) { if (d >= 9.2e18 || d <= -9.3e18) return maskw(1ull << 63, w); return maskw((uint64_t)(int64_t)d, w); }
      if (d < 0) { if (d > -9.2e18) return maskw((uint64_t)(int64_t)d, w); return (uint64_t)0; }
      if (d >= 18446744073709551616.0) return maskw(~0ull, w);
      return maskw((uint64_t)d, w);
    }
    if (isFP(v)) {
      E x = X.mk(K::ISym, Sort::Int, {}, v.e->id, "ftoi");
      setRange(x, sg ? Q(-pow2(w - 1)) : Q(0), sg ? Q(pow2(w - 1) - 1) : Q(pow2(w) - 1));
      return Value(x);
    }
    Value t = truncR(v);
    if (!t.e) return ftoi(t, w, sg);
    Poly p = rP(t);
    return ival(p, w);
  }

  // ------------------------------------------------------------------ memory access
  [[noreturn]] void memErr(const std::string& s) { throw PathEnd{"memory", s + where()}; }
  std::string where() {
    std::string r;
    for (int k = (int)cur->st.size() - 1, n = 0; k >= 0 && n < 6; k--, n++) {
      r += " <- " + L::demangle(cur->st[k].f->F->getName().str()).substr(0, 100);
    }
    return r;
  }
  E byteNode(E e, unsigned i, unsigned n) { return X.mk(K::Byte, Sort::Byte, {e}, i | (n << 8), ""); }
  Value load(uint64_t addr, unsigned n, L::Type* t) {
    uint64_t off;
    const Obj* o = cur->mem.get(addr, off);
    if (!o) memErr("load from invalid address");
    if (!o->alive) memErr("use after free");
    if (off > o->size || off + n > o->size) memErr("out-of-bounds load");
    if (n > 8) throw PathEnd{"unsupported", "wide load"};
    bool anyS = false, anyU = false, allU = true;
    if (!o->sym.empty()) for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { anyS = true; break; }
    if (!o->uninit.empty()) for (unsigned i = 0; i < n; i++) { if (o->uninit[off + i]) anyU = true; else allU = false; }
    else allU = false;
    if (anyU && allU) {
      // whole value uninitialised: a fresh unconstrained symbol, remembered in memory
      std::string nm = "uninit" + std::to_string(cur->fresh++);
      E e;
      if (t->isDoubleTy()) e = X.mk(cur->fpmode ? K::FSym : K::RSym, cur->fpmode ? Sort::FP : Sort::Real, {}, 0, nm);
      else { e = X.mk(K::ISym, Sort::Int, {}, n, nm); setRange(e, 0, pow2(8 * n) - 1); }
      Obj* w = cur->mem.getW(addr, off);
      if (w->sym.empty()) w->sym.assign(w->size, nullptr);
      for (unsigned i = 0; i < n; i++) { w->sym[off + i] = byteNode(e, i, n); w->uninit[off + i] = 0; }
      return Value(e);
    }
    if (!anyS) {
      uint64_t v = 0;
      memcpy(&v, &o->b[off], n);
      if (t->isFloatTy()) return Value(v);
      return Value(v);
    }
    E f = o->sym[off];
    if (f) {
      unsigned sz = (f->u >> 8) & 255, i0 = f->u & 255;
      bool cons = true;
      for (unsigned i = 1; i < n && cons; i++) {
        E g = o->sym[off + i];
        if (!g || g->kids[0] != f->kids[0] || g->u != ((i0 + i) | (sz << 8))) cons = false;
      }
      if (cons && i0 == 0 && sz == n) return Value(f->kids[0]);
      if (cons && n == 1) return Value(f);
      if (cons && f->kids[0]->s == Sort::Int) return ival(ExprPool::asPoly(idivPow(normU(f->kids[0], sz * 8), i0 * 8)), n * 8);
    }
    Poly p;
    for (unsigned i = 0; i < n; i++) {
      E g = o->sym[off + i];
      Q sc = pow2(8 * i);
      if (g) p = ExprPool::addP(p, ExprPool::asPoly(byteInt(g)), sc);
      else p = ExprPool::addP(p, ExprPool::constPoly(zq(o->b[off + i])), sc);
    }
    return ival(p, n * 8);
  }
  void store(uint64_t addr, Value v, unsigned n, unsigned w) {
    uint64_t off;
    Obj* o = cur->mem.getW(addr, off);
    if (!o) memErr("store to invalid address");
    if (!o->alive) memErr("use after free (store)");
    if (off > o->size || off + n > o->size) memErr("out-of-bounds store");
    if (n > 8) throw PathEnd{"unsupported", "wide store"};
    if (!o->uninit.empty()) for (unsigned i = 0; i < n; i++) o->uninit[off + i] = 0;
    if (!v.e) {
      memcpy(&o->b[off], &v.c, n);
      if (!o->sym.empty()) for (unsigned i = 0; i < n; i++) o->sym[off + i] = nullptr;
      return;
    }
    if (o->sym.empty()) o->sym.assign(o->size, nullptr);
    if (v.e->s == Sort::Byte) { o->sym[off] = v.e; return; }
    for (unsigned i = 0; i < n; i++) o->sym[off + i] = byteNode(v.e, i, n);
  }
  void storeV(uint64_t addr, Value v, unsigned n, unsigned w, L::Type* t) {
    if (v.e && v.e->s == Sort::Agg) {
      if (auto* st = dyn_cast<L::StructType>(t)) {
        auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < v.e->agg.size(); i++) storeV(addr + (uint64_t)sl->getElementOffset(i), v.e->agg[i], DL->getTypeStoreSize(st->getElementType(i)), width(st->getElementType(i)), st->getElementType(i));
      } else {
        auto* et = t->getArrayElementType();
        for (unsigned i = 0; i < v.e->agg.size(); i++) storeV(addr + i * DL->getTypeAllocSize(et), v.e->agg[i], DL->getTypeStoreSize(et), width(et), et);
      }
      return;
    }
    if (v.e && v.e->s == Sort::Bool) v = Value((uint64_t)decide(v.e));
    store(addr, v, n, w);
  }
  Value loadV(uint64_t addr, L::Type* t) {
    if (auto* st = dyn_cast<L::StructType>(t)) {
      auto* sl = DL->getStructLayout(st);
      std::vector<Value> v;
      for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(loadV(addr + (uint64_t)sl->getElementOffset(i), st->getElementType(i)));
      return Value(X.mkAgg(v));
    }
    if (t->isArrayTy()) {
      auto* et = t->getArrayElementType();
      std::vector<Value> v;
      for (unsigned i = 0; i < t->getArrayNumElements(); i++) v.push_back(loadV(addr + i * (uint64_t)DL->getTypeAllocSize(et), et));
      return Value(X.mkAgg(v));
    }
    return load(addr, DL->getTypeStoreSize(t), t);
  }
  void copyMem(uint64_t d, uint64_t s, uint64_t n) {
    if (!n) return;
    uint64_t so, dof;
    const Obj* os = cur->mem.get(s, so);
    if (!os) memErr("memcpy from invalid address");
    if (!os->alive) memErr("use after free (memcpy)");
    if (so > os->size || so + n > os->size) memErr("out-of-bounds memcpy source");
    std::vector<uint8_t> b(os->b.begin() + so, os->b.begin() + so + n);
    std::vector<E> sy;
    if (!os->sym.empty()) sy.assign(os->sym.begin() + so, os->sym.begin() + so + n);
    std::vector<uint8_t> un;
    if (!os->uninit.empty()) un.assign(os->uninit.begin() + so, os->uninit.begin() + so + n);
    Obj* od = cur->mem.getW(d, dof);
    if (!od) memErr("memcpy to invalid address");
    if (!od->alive) memErr("use after free (memcpy)");
    if (dof > od->size || dof + n > od->size) memErr("out-of-bounds memcpy destination");
    std::copy(b.begin(), b.end(), od->b.begin() + dof);
    bool anyS = false, anyU = false;
    for (E e : sy) if (e) anyS = true;
    for (auto u : un) if (u) anyU = true;
    if (anyS && od->sym.empty()) od->sym.assign(od->size, nullptr);
    if (!od->sym.empty()) for (uint64_t i = 0; i < n; i++) od->sym[dof + i] = sy.empty() ? nullptr : sy[i];
    if (anyU && od->uninit.empty()) od->uninit.assign(od->size, 0);
    if (!od->uninit.empty()) for (uint64_t i = 0; i < n; i++) od->uninit[dof + i] = un.empty() ? 0 : un[i];
  }
  std::string cstr(uint64_t a) {
    std::string s;
    uint64_t off;
    const Obj* o = cur->mem.get(a, off);
    if (!o || !o->alive) memErr("string at invalid address");
    for (;; off++) {
      if (off >= o->size) memErr("unterminated string");
      if (!o->sym.empty() && o->sym[off]) throw PathEnd{"unsupported", "symbolic string"};
      if (!o->b[off]) break;
      s.push_back((char)o->b[off]);
    }
    return s;
  }

  // ------------------------------------------------------------------ exceptions
  static const std::map<std::string, std::string>& stdBases() {
    static std::map<std::string, std::string> m = {
        {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
        {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
        {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
        {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
        {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
        {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
        {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"},
        {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt10bad_typeid", "_ZTISt9exception"}};
    return m;
  }
  std::vector<std::pair<uint64_t, int64_t>> tiBases(uint64_t ti) {
    std::vector<std::pair<uint64_t, int64_t>> r;
    auto it = gByAddr.find(ti);
    if (it == gByAddr.end()) return r;
    auto* g = it->second;
    if (g->isDeclaration()) {
      auto b = stdBases().find(g->getName().str());
      if (b != stdBases().end()) {
        auto* bg = M->getNamedValue(b->second);
        uint64_t ba = bg ? globalAddr(bg) : extraTI(b->second);
        r.push_back({ba, 0});
      }
      return r;
    }
    auto* ca = dyn_cast<L::ConstantAggregate>(g->getInitializer());
    if (!ca) return r;
    uint64_t vt = constVal(ca->getOperand(0)).c;
    uint64_t off;
    const Obj* o = cur->mem.get(vt, off);
    std::string vn = o ? o->name : "";
    if (vn.find("__si_class_type_info") != std::string::npos) r.push_back({constVal(ca->getOperand(2)).c, 0});
    else if (vn.find("__vmi_class_type_info") != std::string::npos)
      for (unsigned i = 4; i + 1 < ca->getNumOperands(); i += 2) r.push_back({constVal(ca->getOperand(i)).c, (int64_t)constVal(ca->getOperand(i + 1)).c >> 8});
    return r;
  }
  std::map<std::string, uint64_t> extraTIs;
  std::map<uint64_t, std::string> extraTIn;
  uint64_t extraTI(const std::string& n) {
    auto it = extraTIs.find(n);
    if (it != extraTIs.end()) return it->second;
    uint64_t a = 0x7f00000000000000ull + extraTIs.size();
    extraTIs[n] = a; extraTIn[a] = n;
    return a;
  }
  bool tiMatch(uint64_t thrown, uint64_t target, int64_t* offp = nullptr) {
    if (thrown == target) return true;
    if (extraTIn.count(thrown)) {
      auto b = stdBases().find(extraTIn[thrown]);
      if (b == stdBases().end()) return false;
      auto* bg = M->getNamedValue(b->second);
      return tiMatch(bg ? globalAddr(bg) : extraTI(b->second), target, offp);
    }
    for (auto& b : tiBases(thrown)) {
      int64_t sub = 0;
      if (tiMatch(b.first, target, &sub)) { if (offp) *offp = b.second + sub; return true; }
    }
    return false;
  }
  std::string tiName(uint64_t ti) {
    auto it = gByAddr.find(ti);
    if (it != gByAddr.end()) return L::demangle(it->second->getName().str());
    return "?";
  }
  void popFrame() {
    for (uint64_t a : cur->st.back().allocas) cur->mem.kill(a);
    cur->st.pop_back();
  }
  void unwind() {  // exception cur->excObj/excTI in flight: find a landing pad
    // the frame on top made the call (or is the frame of a builtin call)
    for (;;) {
      if (cur->st.empty()) throw PathEnd{"exception", "uncaught exception of type " + tiName(cur->excTI)};
      Frame& f = cur->st.back();
      DI& d = f.f->bbs[f.bb].ins[f.ip];
      if (d.opc == L::Instruction::Invoke) {
        auto* lp = cast<L::InvokeInst>(d.I)->getLandingPadInst();
        bool take = lp->isCleanup();
        uint64_t sel = 0;
        for (unsigned i = 0; i < lp->getNumClauses(); i++) {
          if (lp->isCatch(i)) {
            uint64_t t = constVal(lp->getClause(i)).c;
            if (t == 0 || tiMatch(cur->excTI, t)) { take = true; sel = t == 0 ? 0x7fffffff : typeId(t); break; }
          } else {
            // exception specification (noexcept filter): treat an empty filter as terminate
            take = true; sel = (uint64_t)(uint32_t)-1; break;
          }
        }
        if (take) {
          jump(f, d.succ[1]);
          cur->exTI[cur->excObj] = cur->excTI;
          cur->sel = sel;
          return;
        }
      }
      popFrame();
    }
  }
  std::map<uint64_t, uint64_t> tids;
  uint64_t typeId(uint64_t ti) { auto& x = tids[ti]; if (!x) x = tids.size(); return x; }

  // ------------------------------------------------------------------ control
  Value val(Frame& f, const Opd& o) { return o.slot < 0 ? o.v : f.regs[o.slot]; }
  void jump(Frame& f, int nb) {
    BBInfo& B = f.f->bbs[nb];
    if (!B.phi.empty()) {
      auto& v = B.phi[f.bb];
      if (v.size() == 1) f.regs[v[0].first] = val(f, v[0].second);
      else {
        std::vector<Value> tmp(v.size());
        for (size_t i = 0; i < v.size(); i++) tmp[i] = val(f, v[i].second);
        for (size_t i = 0; i < v.size(); i++) f.regs[v[i].first] = tmp[i];
      }
    }
    B.hit = true;
    f.bb = nb;
    f.ip = 0;
  }
  void pushCall(FuncInfo* fn, const std::vector<Value>& args, DI* site) {
    if (!fn->decoded) decode(fn);
    if (cur->st.size() > 2000) throw PathEnd{"hang", "call depth limit" + where()};
    Frame f;
    f.f = fn;
    f.regs.resize(fn->nslots);
    for (size_t i = 0; i < args.size() && i < fn->F->arg_size(); i++) f.regs[i] = args[i];
    if (site) {
      auto* cb = cast<L::CallBase>(site->I);
      for (unsigned i = 0; i < cb->arg_size() && i < fn->F->arg_size(); i++) if (cb->isByValArgument(i)) {
        uint64_t sz = DL->getTypeAllocSize(cb->getParamByValType(i));
        uint64_t a = cur->mem.alloc(sz, 2, true);
        copyMem(a, args[i].c, sz);
        f.regs[i] = Value(a);
        f.allocas.push_back(a);
      }
    }
    fn->bbs[0].hit = true;
    cur->st.push_back(std::move(f));
  }
  void finishCall(Frame& f, DI& d, Value r) {  // in the caller
    if (d.dst >= 0) f.regs[d.dst] = r;
    if (d.opc == L::Instruction::Invoke) jump(f, d.succ[0]);
    else f.ip++;
  }

  void step() {
    Frame& f = cur->st.back();
    DI& d = f.f->bbs[f.bb].ins[f.ip];
    using I = L::Instruction;
    auto A = [&](int i) { return val(f, d.ops[i]); };
    auto set = [&](Value v) { f.regs[d.dst] = v; f.ip++; };
    switch (d.opc) {
      case I::Br:
        if (d.succ.size() == 1) { jump(f, d.succ[0]); return; }
        { Value c = A(0); bool t = c.e ? decide(boolE(c)) : (c.c & 1); jump(f, d.succ[t ? 0 : 1]); }
        return;
      case I::Switch: {
        Value c = A(0);
        if (!c.e) {
          uint64_t x = maskw(c.c, d.w);
          for (size_t i = 0; i < d.swv.size(); i++) if (d.swv[i] == x) { jump(f, d.succ[i + 1]); return; }
          jump(f, d.succ[0]);
          return;
        }
        for (size_t i = 0; i < d.swv.size(); i++) if (decide(boolE(icmp(L::CmpInst::ICMP_EQ, c, Value(d.swv[i]), d.w)))) { jump(f, d.succ[i + 1]); return; }
        jump(f, d.succ[0]);
        return;
      }
      case I::Ret: {
        Value r; bool hv = !d.ops.empty();
        if (hv) r = A(0);
        popFrame();
        if (cur->st.empty()) throw PathEnd{"done", ""};
        Frame& c = cur->st.back();
        finishCall(c, c.f->bbs[c.bb].ins[c.ip], r);
        return;
      }
      case I::Unreachable: throw PathEnd{"abort", "unreachable executed" + where()};
      case I::Add: case I::Sub: case I::Mul: case I::UDiv: case I::SDiv: case I::URem: case I::SRem:
      case I::And: case I::Or: case I::Xor: case I::Shl: case I::LShr: case I::AShr:
        if (d.w > 64) throw PathEnd{"unsupported", "wide integer"};
        set(binop(d.opc, A(0), A(1), d.w)); return;
      case I::FAdd: case I::FSub: case I::FMul: case I::FDiv: case I::FRem:
        if (d.I->getType()->isFloatTy()) { set(d2fl(fbin(d.opc, fl2d(A(0)), fl2d(A(1))))); return; }
        set(fbin(d.opc, A(0), A(1))); return;
      case I::FNeg:
        if (d.I->getType()->isFloatTy() && !A(0).e) set(Value(A(0).c ^ 0x80000000u)); else set(fneg(A(0))); return;
      case I::ICmp: set(icmp(cast<L::ICmpInst>(d.I)->getPredicate(), A(0), A(1), d.w2)); return;
      case I::FCmp: {
        Value a = A(0), b = A(1);
        if (d.I->getOperand(0)->getType()->isFloatTy()) { a = fl2d(a); b = fl2d(b); }
        set(fcmp(cast<L::FCmpInst>(d.I)->getPredicate(), a, b)); return;
      }
      case I::Alloca: {
        uint64_t n = concretize(A(0), 64);
        uint64_t a = cur->mem.alloc(d.size * n, 2, true);
        f.allocas.push_back(a);
        set(a); return;
      }
      case I::Load: {
        uint64_t a = concretize(A(0), 64);
        L::Type* t = d.I->getType();
        Value v = t->isAggregateType() ? loadV(a, t) : load(a, d.size, t);
        if (d.w < 8 && !v.e) v.c = maskw(v.c, d.w);
        set(v); return;
      }
      case I::Store: {
        Value v = A(0);
        uint64_t a = concretize(A(1), 64);
        storeV(a, v, d.size, d.w, cast<L::StoreInst>(d.I)->getValueOperand()->getType());
        f.ip++; return;
      }
      case I::GetElementPtr: {
        Value base = A(0);
        Value r = binop(I::Add, base, Value((uint64_t)d.gepConst), 64);
        for (size_t i = 0; i < d.gep.size(); i++) {
          Value ix = val(f, d.ops[d.gep[i].first]);
          unsigned w = d.idx[i];
          if (!ix.e) ix = Value((uint64_t)sext(ix.c, w));
          else if (w < 64) ix = ival(sP(ix, w), 64);
          r = binop(I::Add, r, binop(I::Mul, ix, Value((uint64_t)d.gep[i].second), 64), 64);
        }
        set(r); return;
      }
      case I::Trunc: {
        Value a = A(0);
        if (!a.e) { set(maskw(a.c, d.w)); return; }
        if (a.e->s == Sort::Bool) { set(a); return; }
        if (d.w == 1) { E e = modPow(toInt(a, d.w2), 1); set(bval(X.bNot(eqConst(e, 0)))); return; }
        if (a.e->s == Sort::Byte && d.w == 8) { set(a); return; }
        set(ival(ipoly(a, d.w2), d.w)); return;
      }
      case I::ZExt: {
        Value a = A(0);
        if (!a.e) { set(maskw(a.c, d.w2)); return; }
        if (a.e->s == Sort::Bool) { set((uint64_t)decide(a.e)); return; }
        set(ival(uP(a, d.w2), d.w)); return;
      }
      case I::SExt: {
        Value a = A(0);
        if (!a.e) { set(maskw((uint64_t)sext(a.c, d.w2), d.w)); return; }
        if (a.e->s == Sort::Bool) { set(decide(a.e) ? maskw(~0ull, d.w) : 0); return; }
        set(ival(sP(a, d.w2), d.w)); return;
      }
      case I::UIToFP: case I::SIToFP: {
        Value v = itof(A(0), d.w2, d.opc == I::SIToFP);
        if (d.I->getType()->isFloatTy()) v = d2fl(v);
        set(v); return;
      }
      case I::FPToUI: case I::FPToSI: {
        Value a = A(0);
        if (d.I->getOperand(0)->getType()->isFloatTy()) a = fl2d(a);
        set(ftoi(a, d.w, d.opc == I::FPToSI)); return;
      }
      case I::FPExt: set(d.I->getOperand(0)->getType()->isFloatTy() ? fl2d(A(0)) : A(0)); return;
      case I::FPTrunc: set(d.I->getType()->isFloatTy() ? d2fl(A(0)) : A(0)); return;
      case I::PtrToInt: case I::IntToPtr: case I::BitCast: case I::AddrSpaceCast: case I::Freeze: set(A(0)); return;
      case I::Select: {
        Value c = A(0);
        bool t;
        if (!c.e) t = c.c & 1;
        else {
          E ce = boolE(c);
          Value x = A(1), y = A(2);
          if (d.w == 1 && d.I->getType()->isIntegerTy()) {
            set(bval(X.bOr(X.bAnd(ce, boolE(x)), X.bAnd(X.bNot(ce), boolE(y))))); return;
          }
          if (x.e == y.e && x.c == y.c) { set(x); return; }
          t = decide(ce);
        }
        set(t ? A(1) : A(2)); return;
      }
      case I::ExtractValue: {
        Value v = A(0);
        for (unsigned i : d.idx) v = v.e->agg.at(i);
        set(v); return;
      }
      case I::InsertValue: {
        std::function<Value(Value, size_t)> ins = [&](Value v, size_t k) -> Value {
          if (k == d.idx.size()) return A(1);
          std::vector<Value> a = v.e->agg;
          a.at(d.idx[k]) = ins(a.at(d.idx[k]), k + 1);
          return Value(X.mkAgg(a));
        };
        set(ins(A(0), 0)); return;
      }
      case I::LandingPad: {
        set(Value(X.mkAgg({Value(cur->excObj), Value(maskw(cur->sel, 32))}))); return;
      }
      case I::Resume: {
        Value v = A(0);
        uint64_t o = v.e->agg.at(0).c;
        cur->excObj = o; cur->excTI = cur->exTI[o];
        popFrame();
        unwind();
        return;
      }
      case I::AtomicRMW: {
        auto* rm = cast<L::AtomicRMWInst>(d.I);
        uint64_t a = concretize(A(0), 64);
        unsigned n = DL->getTypeStoreSize(d.I->getType());
        Value old = load(a, n, d.I->getType()), nv;
        switch (rm->getOperation()) {
          case L::AtomicRMWInst::Add: nv = binop(I::Add, old, A(1), d.w); break;
          case L::AtomicRMWInst::Sub: nv = binop(I::Sub, old, A(1), d.w); break;
          case L::AtomicRMWInst::Xchg: nv = A(1); break;
          default: throw PathEnd{"unsupported", "atomicrmw"};
        }
        store(a, nv, n, d.w);
        set(old); return;
      }
      case I::Fence: f.ip++; return;
      case I::Call: case I::Invoke: call(f, d); return;
      default: {
        std::string s; L::raw_string_ostream o(s); d.I->print(o);
        throw PathEnd{"unsupported", "instruction " + o.str()};
      }
    }
  }
  void call(Frame& f, DI& d) {
    std::vector<Value> args;
    FuncInfo* fn = d.callee;
    size_t na = cast<L::CallBase>(d.I)->arg_size();
    for (size_t i = 0; i < na; i++) args.push_back(val(f, d.ops[i]));
    if (!fn) {
      if (cast<L::CallBase>(d.I)->isInlineAsm()) { f.ip++; return; }
      uint64_t a = concretize(val(f, d.ops[na]), 64);
      auto it = faddr.find(a);
      if (it == faddr.end()) memErr("call through invalid function pointer");
      fn = it->second;
    }
    if (fn->builtin == -2) {
      fn->builtin = -1;
      std::string n = fn->F->getName().str();
      auto it = bidx.find(n);
      if (it != bidx.end()) fn->builtin = it->second;
      else if (fn->F->isIntrinsic()) {
        // strip the type suffixes
        std::string b = n;
        while (true) { auto it2 = bidx.find(b); if (it2 != bidx.end()) { fn->builtin = it2->second; break; } auto p = b.rfind('.'); if (p == std::string::npos || p < 5) break; b = b.substr(0, p); }
      }
    }
    if (fn->builtin >= 0) {
      Value r;
      bfn[fn->builtin](d, args, r);
      finishCall(cur->st.back(), d, r);
      return;
    }
    if (fn->F->isDeclaration()) throw PathEnd{"unsupported", "external function " + fn->F->getName().str()};
    if (fn->tok < 0) {
      std::string n = fn->F->getName().str();
      fn->tok = n.find("8to_charsId") != std::string::npos ? 1 : n.find("12dump_integerIl") != std::string::npos ? 3 : n.find("12dump_integerIm") != std::string::npos ? 2 : 0;
    }
    // printing a number as JSON text: a symbolic number is printed as a token, which reading turns back into the number
    if (fn->tok == 1 && args.size() >= 3 && args[2].e) args[2] = d2b(tokenF(args[2].e));
    if (fn->tok == 3 && args.size() >= 2 && args[1].e && decide(boolE(icmp(L::CmpInst::ICMP_SLT, args[1], Value((uint64_t)0), 64)))) {
      Value n = binop(L::Instruction::Sub, Value((uint64_t)0), args[1], 64);
      args[1] = Value((uint64_t)0 - (n.e ? tokenI(n.e) : n.c));
    }
    if (fn->tok >= 2 && args.size() >= 2 && args[1].e) args[1] = Value(tokenI(args[1].e));
    pushCall(fn, args, &d);
  }

  std::map<uint64_t, E> tokI;
  std::map<double, E> tokF;
  uint64_t tokenI(E e) { uint64_t t = 9100000000000000000ull + (uint64_t)e->id; tokI[t] = e; return t; }
  double tokenF(E e) { double t = 7500000000000.5 + (double)e->id; tokF[t] = e; return t; }
  // ------------------------------------------------------------------ models and reports
  std::vector<std::pair<std::string, std::string>> inputsUnder(const ModelP& m) {
    std::vector<std::pair<std::string, std::string>> r;
    for (size_t i = 0; i < cur->inputs.size(); i++) {
      E e = cur->inputE[i];
      MVal v;
      std::string s;
      if (m) Eval::ev(e, *m, v);
      else { Model em; Eval::ev(e, em, v); }
      char buf[64];
      if (e->s == Sort::Int) s = "u " + v.q.get_num().get_str();
      else if (e->s == Sort::Real) { snprintf(buf, sizeof buf, "d %a", q2d(v.q)); s = buf; }
      else if (e->s == Sort::FP) { snprintf(buf, sizeof buf, "d %a", b2d(v.u)); s = buf; if (std::isnan(b2d(v.u))) s = "d nan"; if (std::isinf(b2d(v.u))) s = b2d(v.u) > 0 ? "d inf" : "d -inf"; }
      r.push_back({cur->inputs[i], s});
    }
    return r;
  }
  E absLe(E sym, const Q& b) {
    Poly p = ExprPool::asPoly(sym);
    return X.bAnd(X.cmp0(ExprPool::addP(p, ExprPool::constPoly(b), Q(-1)), sym->s, K::Le0), X.cmp0(ExprPool::addP(ExprPool::addP(Poly(), p, Q(-1)), ExprPool::constPoly(b), Q(-1)), sym->s, K::Le0));
  }
  // all constraints at once, preferring values that doubles represent exactly
  ModelP niceModel(E extra) {
    std::vector<E> nice;
    for (E e : cur->inputE) {
      if (e->s == Sort::Real) {
        nice.push_back(X.mk(K::IsInt, Sort::Bool, {X.mkPoly(ExprPool::addP(Poly(), ExprPool::asPoly(e), Q(16)), Sort::Real)}, 0, ""));
        nice.push_back(absLe(e, Q(1024)));
      } else if (e->s == Sort::FP) {
        E mx = X.mk(K::FConst, Sort::FP, {}, d2b(1048576.0), "");
        nice.push_back(X.mk(K::FLe, Sort::Bool, {X.mk(K::FAbs, Sort::FP, {e}, 0, ""), mx}, 0, ""));
      }
    }
    E c = extra;
    ModelP m;
    if (rounded) {  // values that single precision cannot hold: odd multiples of 2^-24 between 1 and 8
      E h = extra;
      for (E e : cur->inputE) if (e->s == Sort::Real) {
        E k = X.mk(K::ISym, Sort::Int, {}, e->id, "odd");
        h = X.bAnd(h, X.cmp0(ExprPool::addP(ExprPool::addP(ExprPool::asPoly(e), ExprPool::constPoly(Q(1) / pow2(24)), Q(-1)), ExprPool::asPoly(k), -Q(2) / pow2(24)), Sort::Real, K::Eq0));
        h = X.bAnd(h, X.bAnd(absLe(e, Q(8)), X.bNot(absLe(e, Q(1)))));
      }
      if (h != X.F && S.check(cur->pc, h, cur->model, &m, 8000, false) == 1) return m;
    }
    for (E n : nice) c = X.bAnd(c, n);
    if (c != X.F && S.check(cur->pc, c, cur->model, &m, 8000, false) == 1) return m;
    m = nullptr;
    if (S.check(cur->pc, extra, cur->model, &m, 0, false) == 1) return m;
    return nullptr;
  }
  bool evalTrue(E e, const ModelP& m) { MVal v; return m && Eval::ev(e, *m, v) && v.u; }
  void report(const std::string& kind, const std::string& label, E extra, bool unknown = false) {
    // at most two candidates per (kind,label), several candidates overall
    int same = 0;
    for (auto& v : viols) if (v.kind == kind && v.label == label) same++;
    if (same >= 3 || viols.size() >= 12) return;
    ModelP m = niceModel(extra);
    if (!m) m = cur->model;
    Violation v;
    v.kind = kind; v.label = label;
    v.in = inputsUnder(m);
    v.cond = extra ? X.str(extra).substr(0, 600) : "";
    viols.push_back(v);
    fprintf(stderr, "candidate violation [%s] %s\n", kind.c_str(), label.c_str());
  }
  void checkCond(E c, const std::string& label, const std::vector<E>& stronger = {}) {
    // chkTotal etc. counted once: no decide() may throw after this point
    chkTotal++;
    labels[label]++;
    if (c == X.T) { chkTriv++; return; }
    auto it = cur->known.find(c);
    if (it != cur->known.end() && it->second) { chkTriv++; return; }
    chkSolver++;
    E n = X.bNot(c);
    ModelP m;
    int r = c == X.F ? 1 : S.check(cur->pc, n, cur->model, &m);
    if (r == 0) { cur->known[c] = true; return; }
    if (r == -1) { chkUndis++; return; }
    chkFail++;
    E ex = n;
    for (E s : stronger) { ModelP ms; if (s != X.F && S.check(cur->pc, s, cur->model, &ms, 8000) == 1) { ex = s; break; } }
    report("assert", label, ex);
    if (c == X.F) throw PathEnd{"assert", label};
    // continue on the side where it holds, if any
    ModelP mc;
    if (S.check(cur->pc, c, cur->model, &mc) == 0) throw PathEnd{"assert", label};
    addPC(cur, c);
    cur->model = mc;
  }
#include "builtins.inc"

  // ------------------------------------------------------------------ main loop
  uint64_t rng = 88172645463325252ull;
  uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
  // walk away from the solver's (often all-zero) model: change one input at a time, keep it while the path condition still holds
  ModelP diversify(ModelP m, E all) {
    if (!m || cur->approx) return m;
    Model best; best.v = m->v;
    MVal ok;
    if (!Eval::ev(all, best, ok) || !ok.u) return m;
    for (E e : cur->inputE) {
      for (int t = 0; t < 3; t++) {
        Model c; c.v = best.v;
        MVal v;
        if (e->s == Sort::Real) { Q lo = e->hasLo ? e->lo : Q(-64), hi = e->hasHi ? e->hi : Q(64); v.q = Q((int)(rnd() % 2049) - 1024) / 16; if (v.q < lo || v.q > hi) { Q span = hi - lo; v.q = lo + span * Q((int)(rnd() % 17)) / 16; } }
        else if (e->s == Sort::Int) { Q lo = e->hasLo ? e->lo : Q(0), hi = e->hasHi ? e->hi : Q(1000); Q span = hi - lo; unsigned sh = rnd() % 3; Z z = span.get_num(); if (z > 1000 && sh) z = 1000; Z r = z + 1; Z x; Z big = zq(rnd()).get_num(); mpz_fdiv_r(x.get_mpz_t(), big.get_mpz_t(), r.get_mpz_t()); v.q = lo + Q(x); }
        else if (e->s == Sort::FP) { v.u = d2b((double)((int)(rnd() % 2049) - 1024) / 16); }
        else break;
        c.v[e] = v;
        if (Eval::ev(all, c, ok) && ok.u) { best.v = c.v; break; }
      }
    }
    auto r = std::make_shared<Model>();
    r->v = best.v;
    return r;
  }
  void sampleWitness() {
    if (witnesses.size() >= maxWit && (paths % 37) != 0) return;
    ModelP m = niceModel(X.T);
    // niceModel(True) slices to nothing: solve every constraint
    E all = X.T;
    for (E e : cur->pc) all = X.bAnd(all, e);
    for (E e : cur->inputE) if (e->s == Sort::Real) { all = X.bAnd(all, X.mk(K::IsInt, Sort::Bool, {X.mkPoly(ExprPool::addP(Poly(), ExprPool::asPoly(e), Q(16)), Sort::Real)}, 0, "")); all = X.bAnd(all, absLe(e, Q(64))); }
    ModelP mm;
    std::vector<E> none;
    int r = all == X.T ? 1 : S.check(none, all, cur->model, &mm, 3000, false);
    if (r != 1) return;
    mm = diversify(mm ? mm : cur->model, all);
    auto w = inputsUnder(mm);
    if (witnesses.size() < maxWit) witnesses.push_back(w);
    else witnesses[paths / 37 % maxWit] = w;
  }
  void endPath(const PathEnd& p) {
    if (p.kind == "done") {
      paths++;
      for (auto& c : cur->covers) covers[c]++;
      if (maxWit) sampleWitness();
    } else if (p.kind == "assume") assumeKilled++;
    else if (p.kind == "assert") paths++;
    else if (p.kind == "unsupported") { errors[p.msg.substr(0, 300)]++; paths++; }
    else { paths++; chkFail++; report(p.kind, p.msg.substr(0, 400), X.T); }
  }
  void runState(std::unique_ptr<State> s) {
    cur = s.get();
    uint64_t tick = 0;
    for (;;) {
      if ((++tick & 0xffff) == 0 && elapsed() > timeLimit) { incomplete = true; incompleteWhy = "time limit"; return; }
      try {
        if (++cur->steps > maxSteps) throw PathEnd{"hang", "step limit" + where()};
        totalSteps++;
        step();
      } catch (Fork& fk) {
        forks++;
        if (getenv("SYMEX_CONC") && forks < 12) fprintf(stderr, "fork %s%s\n", X.str(fk.cond).substr(0, 200).c_str(), where().c_str());
        E c = fk.cond, n = X.bNot(c);
        auto o = std::make_unique<State>(*cur);
        bool pref = pendPrefer;
        addPC(cur, pref ? c : n);
        addPC(o.get(), pref ? n : c);
        if (!pref) { cur->known[c] = false; } else o->known[c] = false;
        o->model = pendModel;
        o->depth = ++cur->depth;
        cur->steps--; o->steps--;
        work.push_back(std::move(o));
        if (elapsed() > timeLimit) { incomplete = true; incompleteWhy = "time limit"; return; }
      } catch (Unwind&) {
        try { unwind(); } catch (PathEnd& p) { endPath(p); return; }
      } catch (PathEnd& p) {
        endPath(p);
       
        return;
      } catch (std::string& e) {
        PathEnd p{"unsupported", e};
        endPath(p); return;
      }
      if (viols.size() && firstViol < 0) firstViol = elapsed();
      if (viols.size() >= 8 || (viols.size() && elapsed() > std::min(timeLimit / 2, firstViol + 60))) { incomplete = true; incompleteWhy = "stopped after violations"; return; }
    }
  }
  // run a function to completion without forking support (global constructors)
  void runInit(State& s, L::Function* F) {
    cur = &s;
    pushCall(info(F), {}, nullptr);
    for (;;) {
      try { totalSteps++; step(); }
      catch (PathEnd& p) { if (p.kind == "done") return; fprintf(stderr, "init: %s %s\n", p.kind.c_str(), p.msg.c_str()); exit(2); }
      catch (Unwind&) { unwind(); }
    }
  }
};

static std::string jstr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}

int main(int argc, char** argv) {
  std::vector<std::string> bcs;
  std::string entry, out, srcPrefix = "/repo/";
  Engine* Ep = new Engine();
  Engine& E_ = *Ep;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx();
    else if (a == "--out") out = nx();
    else if (a == "--time") E_.timeLimit = atof(nx().c_str());
    else if (a == "--solver-ms") E_.S.timeoutMs = atoi(nx().c_str());
    else if (a == "--max-steps") E_.maxSteps = strtoull(nx().c_str(), nullptr, 10);
    else if (a == "--witnesses") E_.maxWit = atoi(nx().c_str());
    else if (a == "--src") srcPrefix = nx();
    else if (a == "--seed") E_.rng ^= strtoull(nx().c_str(), nullptr, 10) * 0x9e3779b97f4a7c15ull;
    else bcs.push_back(a);
  }
  L::SMDiagnostic err;
  for (auto& b : bcs) {
    auto m = L::parseIRFile(b, err, E_.ctx);
    if (!m) { err.print("symex", L::errs()); return 2; }
    if (!E_.M) E_.M = std::move(m);
    else if (L::Linker::linkModules(*E_.M, std::move(m))) { fprintf(stderr, "link failed\n"); return 2; }
  }
  E_.DL = &E_.M->getDataLayout();
  auto st = std::make_unique<State>();
  E_.initMem = &st->mem;
  E_.cur = st.get();
  E_.setupBuiltins();
  // materialise all globals
  for (auto& g : E_.M->globals()) E_.globalAddr(&g);
  for (auto& f : *E_.M) if (!f.isIntrinsic()) E_.globalAddr(&f);
  for (auto& g : E_.M->globals()) if (g.hasInitializer() && g.getName() != "llvm.global_ctors" && g.getName() != "llvm.global_dtors" && g.getName() != "llvm.used" && g.getName() != "llvm.compiler.used") E_.writeConst(E_.globalAddr(&g), g.getInitializer());
  auto* ef = E_.M->getFunction(entry);
  if (!ef || ef->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
  if (auto* gc = E_.M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<L::ConstantArray>(gc->getInitializer())) {
    std::vector<std::pair<uint64_t, L::Function*>> v;
    for (auto& o : ca->operands()) { auto* cs = cast<L::ConstantStruct>(o.get()); if (auto* f = dyn_cast<L::Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<L::ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
    std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& p : v) { E_.runInit(*st, p.second); }
  }
  st->steps = 0;
  st->model = std::make_shared<Model>();
  E_.initMem = nullptr;
  E_.cur = st.get();
  E_.pushCall(E_.info(ef), {}, nullptr);
  E_.work.push_back(std::move(st));
  try {
    while (!E_.work.empty()) {
      auto s = std::move(E_.work.back());
      E_.work.pop_back();
      E_.runState(std::move(s));
      if (E_.incomplete) break;
    }
  } catch (std::exception& e) { E_.errors[std::string("engine exception: ") + e.what()]++; E_.incomplete = true; }
  if (!E_.work.empty()) E_.incomplete = true;
  // functions of the repository whose code was executed symbolically
  std::set<std::string> fns;
  std::set<std::pair<std::string, unsigned>> lines;
  for (auto& kv : E_.fi) for (auto& B : kv.second->bbs) if (B.hit && B.bb) for (auto& i : *B.bb) {
    const L::DILocation* l = i.getDebugLoc().get();
    while (l) {
      std::string p = l->getFilename().str();
      if (p.size() && p[0] != '/') p = l->getDirectory().str() + "/" + p;
      if (p.compare(0, srcPrefix.size(), srcPrefix) == 0) {
        lines.insert({p, l->getLine()});
        if (auto* sp = l->getScope()->getSubprogram()) fns.insert(l->getInlinedAt() ? (sp->getLinkageName().empty() ? sp->getName() : sp->getLinkageName()).str() + " (inlined)" : kv.first->getName().str());
      }
      l = l->getInlinedAt();
    }
  }
  std::ostringstream j;
  j << "{\"entry\":" << jstr(entry) << ",\"status\":" << jstr(!E_.viols.empty() ? "violation" : E_.incomplete ? "incomplete" : E_.errors.size() ? "errors" : E_.S.st.unknown && E_.chkUndis ? "undischarged" : "ok")
    << ",\"incomplete\":" << (E_.incomplete ? "true" : "false") << ",\"why\":" << jstr(E_.incompleteWhy)
    << ",\"paths\":" << E_.paths << ",\"forks\":" << E_.forks << ",\"assume_killed\":" << E_.assumeKilled << ",\"instructions\":" << E_.totalSteps << ",\"concretized\":" << E_.concretized
    << ",\"checks\":" << E_.chkTotal << ",\"checks_syntactic\":" << E_.chkTriv << ",\"checks_solver\":" << E_.chkSolver << ",\"checks_undischarged\":" << E_.chkUndis << ",\"checks_failed\":" << E_.chkFail
    << ",\"queries\":" << E_.S.st.queries << ",\"sat\":" << E_.S.st.sat << ",\"unsat\":" << E_.S.st.unsat << ",\"unknown\":" << E_.S.st.unknown << ",\"cache_hits\":" << E_.S.st.cacheHits << ",\"solver_s\":" << E_.S.st.time << ",\"wall_s\":" << E_.elapsed();
  auto mp = [&](const char* n, std::map<std::string, uint64_t>& m) { j << ",\"" << n << "\":{"; bool f = true; for (auto& k : m) { if (!f) j << ","; f = false; j << jstr(k.first) << ":" << k.second; } j << "}"; };
  mp("covers", E_.covers); mp("labels", E_.labels); mp("errors", E_.errors);
  j << ",\"functions\":["; { bool f = true; for (auto& s : fns) { if (!f) j << ","; f = false; j << jstr(L::demangle(s)); } } j << "]";
  std::map<std::string, int> lc; for (auto& l : lines) lc[l.first]++;
  j << ",\"lines\":{"; { bool f = true; for (auto& s : lc) { if (!f) j << ","; f = false; j << jstr(s.first) << ":" << s.second; } } j << "}";
  auto kvs = [&](const std::vector<std::pair<std::string, std::string>>& v) { j << "["; bool f = true; for (auto& k : v) { if (!f) j << ","; f = false; j << "[" << jstr(k.first) << "," << jstr(k.second) << "]"; } j << "]"; };
  j << ",\"violations\":["; { bool f = true; for (auto& v : E_.viols) { if (!f) j << ","; f = false; j << "{\"kind\":" << jstr(v.kind) << ",\"label\":" << jstr(v.label) << ",\"cond\":" << jstr(v.cond) << ",\"inputs\":"; kvs(v.in); j << "}"; } } j << "]";
  j << ",\"witnesses\":["; { bool f = true; for (auto& w : E_.witnesses) { if (!f) j << ","; f = false; kvs(w); } } j << "]}";
  std::ofstream o(out.empty() ? "/dev/stdout" : out);
  o << j.str() << "\n";
  o.flush();
  _exit(0);
}
