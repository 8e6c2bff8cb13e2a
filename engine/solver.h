// z3 back end: translation of expressions, constraint slicing, query cache, models.
#pragma once
#include <z3++.h>
#include <chrono>
#include "expr.h"

struct MVal { Q q; uint64_t u = 0; bool approx = false; };
struct Model {
  std::unordered_map<E, MVal> v;
  mutable std::unordered_map<E, std::pair<bool, MVal>> memo;
};
using ModelP = std::shared_ptr<const Model>;

inline double q2d(const Q& q) { return mpf_class(q, 256).get_d(); }

struct Stats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, fallback = 0;
  double time = 0;
};

struct Solver {
  z3::context c;
  z3::solver s;
  std::unordered_map<E, unsigned> trIdx;
  z3::expr_vector tr;
  Stats st;
  unsigned timeoutMs = 20000;
  std::map<std::vector<uint32_t>, int> cache;  // unsat cache + sat cache of the exact constraint set
  std::map<std::vector<uint32_t>, ModelP> cacheModel;

  Solver() : s(c), tr(c) {}

  z3::expr rat(const Q& q, bool isInt) {
    if (isInt) return c.int_val(q.get_num().get_str().c_str());
    return c.real_val(q.get_str().c_str());
  }
  z3::expr tre(E e) {
    auto it = trIdx.find(e);
    if (it != trIdx.end()) return tr[it->second];
    z3::expr r = tr0(e);
    trIdx[e] = tr.size();
    tr.push_back(r);
    return r;
  }
  z3::expr asReal(E e) { z3::expr r = tre(e); return r.is_int() ? z3::to_real(r) : r; }
  z3::expr tr0(E e) {
    std::string nm = e->name + "#" + std::to_string(e->id);
    switch (e->k) {
      case K::True: return c.bool_val(true);
      case K::False: return c.bool_val(false);
      case K::BSym: return c.bool_const(nm.c_str());
      case K::Not: return !tre(e->kids[0]);
      case K::And: return tre(e->kids[0]) && tre(e->kids[1]);
      case K::Or: return tre(e->kids[0]) || tre(e->kids[1]);
      case K::Eq0: case K::Lt0: case K::Le0: {
        E a = e->kids[0];
        // split positive and negative monomials to both sides
        bool isInt = a->s == Sort::Int;
        z3::expr x = tre(a), z = isInt ? c.int_val(0) : c.real_val(0);
        if (e->k == K::Eq0) return x == z;
        if (e->k == K::Lt0) return x < z;
        return x <= z;
      }
      case K::IsInt: return z3::expr(c, Z3_mk_is_int(c, asReal(e->kids[0])));
      case K::Poly: {
        bool isInt = e->s == Sort::Int;
        z3::expr_vector sum(c);
        for (auto& t : e->p->t) {
          z3::expr_vector pr(c);
          bool one = t.second == 1 && !t.first.a.empty();
          if (!one) pr.push_back(rat(t.second, isInt));
          for (E a : t.first.a) pr.push_back(isInt ? tre(a) : asReal(a));
          if (pr.size() == 1) sum.push_back(pr[0]);
          else { std::vector<Z3_ast> as; for (unsigned i = 0; i < pr.size(); i++) as.push_back(pr[i]); sum.push_back(z3::expr(c, Z3_mk_mul(c, as.size(), as.data()))); }
        }
        if (sum.size() == 0) return isInt ? c.int_val(0) : c.real_val(0);
        if (sum.size() == 1) return sum[0];
        std::vector<Z3_ast> as; for (unsigned i = 0; i < sum.size(); i++) as.push_back(sum[i]);
        return z3::expr(c, Z3_mk_add(c, as.size(), as.data()));
      }
      case K::ISym: return c.int_const(nm.c_str());
      case K::RSym: return c.real_const(nm.c_str());
      case K::IDiv: return z3::expr(c, Z3_mk_div(c, tre(e->kids[0]), tre(e->kids[1])));
      case K::Floor: return z3::expr(c, Z3_mk_real2int(c, asReal(e->kids[0])));
      case K::Inv: case K::Sqrt: case K::UF: return c.real_const(("@" + std::to_string((int)e->k) + nm).c_str());
      case K::FSym: case K::FUF: return c.constant(("@f" + nm).c_str(), c.fpa_sort(11, 53));
      case K::FConst: {
        z3::expr bv = c.bv_val((uint64_t)e->u, 64);
        return z3::expr(c, Z3_mk_fpa_to_fp_bv(c, bv, c.fpa_sort(11, 53))).simplify();
      }
      case K::FAdd: return z3::expr(c, Z3_mk_fpa_add(c, c.fpa_rounding_mode(), tre(e->kids[0]), tre(e->kids[1])));
      case K::FSub: return z3::expr(c, Z3_mk_fpa_sub(c, c.fpa_rounding_mode(), tre(e->kids[0]), tre(e->kids[1])));
      case K::FMul: return z3::expr(c, Z3_mk_fpa_mul(c, c.fpa_rounding_mode(), tre(e->kids[0]), tre(e->kids[1])));
      case K::FDiv: return z3::expr(c, Z3_mk_fpa_div(c, c.fpa_rounding_mode(), tre(e->kids[0]), tre(e->kids[1])));
      case K::FSqrt: return z3::expr(c, Z3_mk_fpa_sqrt(c, c.fpa_rounding_mode(), tre(e->kids[0])));
      case K::FRnd: return z3::expr(c, Z3_mk_fpa_to_fp_float(c, c.fpa_rounding_mode(), z3::expr(c, Z3_mk_fpa_to_fp_float(c, c.fpa_rounding_mode(), tre(e->kids[0]), c.fpa_sort(8, 24))), c.fpa_sort(11, 53)));
      case K::FNeg: return z3::expr(c, Z3_mk_fpa_neg(c, tre(e->kids[0])));
      case K::FAbs: return z3::expr(c, Z3_mk_fpa_abs(c, tre(e->kids[0])));
      case K::FLt: return z3::expr(c, Z3_mk_fpa_lt(c, tre(e->kids[0]), tre(e->kids[1])));
      case K::FLe: return z3::expr(c, Z3_mk_fpa_leq(c, tre(e->kids[0]), tre(e->kids[1])));
      case K::FEq: return z3::expr(c, Z3_mk_fpa_eq(c, tre(e->kids[0]), tre(e->kids[1])));
      case K::FNan: return z3::expr(c, Z3_mk_fpa_is_nan(c, tre(e->kids[0])));
      case K::FSame: return tre(e->kids[0]) == tre(e->kids[1]);
      default: throw std::string("cannot translate expression kind ") + std::to_string((int)e->k);
    }
  }
  void collectAtoms(E e, std::unordered_set<E>& seen, std::vector<E>& defs) {
    if (!seen.insert(e).second) return;
    switch (e->k) {
      case K::ISym: case K::RSym: case K::Inv: case K::Sqrt: case K::UF: case K::IDiv: case K::FUF: defs.push_back(e); break;
      default: break;
    }
    if (e->k == K::Poly) { for (auto& t : e->p->t) for (E a : t.first.a) collectAtoms(a, seen, defs); }
    for (E k : e->kids) collectAtoms(k, seen, defs);
  }
  void axioms(const std::vector<E>& cs, z3::solver& sv) {
    std::unordered_set<E> seen;
    std::vector<E> defs;
    for (E e : cs) collectAtoms(e, seen, defs);
    for (E d : defs) {
      z3::expr x = tre(d);
      if (d->k == K::ISym || d->k == K::RSym) {
        if (d->hasLo) sv.add(x >= rat(d->lo, d->s == Sort::Int));
        if (d->hasHi) sv.add(x <= rat(d->hi, d->s == Sort::Int));
      } else if (d->k == K::Inv) {
        sv.add(x * asReal(d->kids[0]) == c.real_val(1));
        if (d->hasLo) sv.add(x >= rat(d->lo, false));
        if (d->hasHi) sv.add(x <= rat(d->hi, false));
      } else if (d->k == K::Sqrt) {
        sv.add(x >= 0 && x * x == asReal(d->kids[0]));
      } else if (d->k == K::UF) {
        if (d->hasLo) sv.add(x >= rat(d->lo, false));
        if (d->hasHi) sv.add(x <= rat(d->hi, false));
        if (d->name == "cos") {
          z3::expr a = asReal(d->kids[0]);
          sv.add(z3::implies(a == 0, x == 1));
          // value at the double nearest pi (the constant the code uses), to within 1e-15
          z3::expr pi = c.real_val("884279719003555/281474976710656");
          sv.add(z3::implies(a == pi, x <= c.real_val("-999999999999999/1000000000000000")));
        }
        if (d->name == "f32") {  // rounded to single precision
          z3::expr a = asReal(d->kids[0]), u = c.real_val("1/16777216"), ab = z3::ite(a >= 0, a, -a);
          sv.add(x - a <= u * ab && a - x <= u * ab);
        }
        for (E d2 : defs) if (d2->id < d->id && d2->k == K::UF && d2->name == d->name && d2->kids.size() == d->kids.size()) {
          z3::expr eq = c.bool_val(true);
          for (size_t i = 0; i < d->kids.size(); i++) eq = eq && asReal(d->kids[i]) == asReal(d2->kids[i]);
          sv.add(z3::implies(eq, x == tre(d2)));
        }
      } else if (d->k == K::FUF) {
        for (E d2 : defs) if (d2->id < d->id && d2->k == K::FUF && d2->name == d->name && d2->kids.size() == d->kids.size()) {
          z3::expr eq = c.bool_val(true);
          for (size_t i = 0; i < d->kids.size(); i++) eq = eq && tre(d->kids[i]) == tre(d2->kids[i]);
          sv.add(z3::implies(eq, x == tre(d2)));
        }
      }
    }
  }
  static bool getQ(const z3::expr& v, Q& q, bool& approx) {
    z3::context& c = v.ctx();
    std::string s;
    if (v.is_numeral()) s = Z3_get_numeral_string(c, v);
    else if (v.is_algebraic()) { s = Z3_get_numeral_string(c, z3::expr(c, Z3_get_algebraic_number_lower(c, v, 60))); approx = true; }
    else return false;
    try { q = Q(s); q.canonicalize(); } catch (...) { return false; }
    return true;
  }
  ModelP extract(z3::model m, const std::vector<E>& cs, const ModelP& base) {
    auto r = std::make_shared<Model>();
    if (base) r->v = base->v;
    std::unordered_set<E> seen;
    for (E e : cs) for (E y : X.support(e)) {
      if (!seen.insert(y).second) continue;
      z3::expr v = m.eval(tre(y), true);
      MVal mv;
      if (y->s == Sort::Bool) mv.u = v.is_true();
      else if (y->s == Sort::FP) {
        z3::expr b = z3::expr(c, Z3_mk_fpa_to_ieee_bv(c, v)).simplify();
        uint64_t u = 0;
        if (b.is_numeral()) { Z3_get_numeral_uint64(c, b, &u); } else u = 0x7ff8000000000000ull;
        mv.u = u;
      } else if (!getQ(v, mv.q, mv.approx)) continue;
      r->v[y] = mv;
    }
    return r;
  }
  // constraints of pc (transitively) sharing symbols with e
  std::vector<E> slice(const std::vector<E>& pc, E e) {
    std::unordered_set<E> syms(X.support(e).begin(), X.support(e).end());
    std::vector<char> used(pc.size(), 0);
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < pc.size(); i++) if (!used[i]) {
        auto& sp = X.support(pc[i]);
        bool hit = false;
        for (E y : sp) if (syms.count(y)) { hit = true; break; }
        if (hit) { used[i] = 1; ch = true; for (E y : sp) syms.insert(y); }
      }
    }
    std::vector<E> r;
    for (size_t i = 0; i < pc.size(); i++) if (used[i]) r.push_back(pc[i]);
    return r;
  }
  // 1 sat, 0 unsat, -1 unknown
  int check(const std::vector<E>& pc, E e, ModelP base, ModelP* out, unsigned tmo = 0, bool useCache = true) {
    if (e == X.F) return 0;
    std::vector<E> cs = slice(pc, e);
    cs.push_back(e);
    std::vector<uint32_t> key;
    for (E x : cs) key.push_back(x->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    if (useCache) {
      auto it = cache.find(key);
      if (it != cache.end()) {
        if (it->second == 0) { st.cacheHits++; return 0; }
        if (it->second == 1) {
          st.cacheHits++;
          if (out) {
            auto r = std::make_shared<Model>();
            if (base) r->v = base->v;
            for (auto& kv : cacheModel[key]->v) r->v[kv.first] = kv.second;
            *out = r;
          }
          return 1;
        }
        if (it->second == -1) { st.cacheHits++; return -1; }
      }
    }
    auto t0 = std::chrono::steady_clock::now();
    st.queries++;
    int res = -1;
    ModelP m;
    try {
      s.push();
      z3::params p(c);
      p.set("timeout", tmo ? tmo : timeoutMs);
      s.set(p);
      for (E x : cs) s.add(tre(x));
      axioms(cs, s);
      z3::check_result r = s.check();
      if (r == z3::sat) { res = 1; m = extract(s.get_model(), cs, nullptr); }
      else if (r == z3::unsat) res = 0;
      s.pop();
    } catch (z3::exception& ex) {
      fprintf(stderr, "z3: %s\n", ex.msg());
      s = z3::solver(c);
    }
    if (res == -1) {
      st.fallback++;
      for (int alt = 0; alt < 2 && res == -1; alt++) try {
        z3::params p(c);
        p.set("timeout", tmo ? tmo : timeoutMs);
        bool fp = false;
        for (E x : cs) for (E y : X.support(x)) if (y->s == Sort::FP) fp = true;
        z3::tactic t = fp ? z3::tactic(c, "qffp") : alt == 0 ? (z3::tactic(c, "simplify") & z3::tactic(c, "purify-arith") & z3::tactic(c, "propagate-values") & z3::tactic(c, "solve-eqs") & z3::tactic(c, "qfnra-nlsat")) : z3::tactic(c, "qfnia");
        z3::solver s2 = t.mk_solver();
        s2.set(p);
        for (E x : cs) s2.add(tre(x));
        axioms(cs, s2);
        z3::check_result r = s2.check();
        if (r == z3::sat) { res = 1; m = extract(s2.get_model(), cs, nullptr); }
        else if (r == z3::unsat) res = 0;
      } catch (z3::exception& ex) { }
    }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    st.time += dt;
    if (getenv("SYMEX_SLOW") && dt > atof(getenv("SYMEX_SLOW"))) {
      fprintf(stderr, "slow query %.2fs res=%d\n", dt, res);
      for (E x : cs) fprintf(stderr, "   %s\n", X.str(x).substr(0, 400).c_str());
    }
    if (res == 1) st.sat++; else if (res == 0) st.unsat++; else st.unknown++;
    if (useCache) { cache[key] = res; if (res == 1) cacheModel[key] = m; }
    if (res == 1 && out) {
      auto r = std::make_shared<Model>();
      if (base) r->v = base->v;
      for (auto& kv : m->v) r->v[kv.first] = kv.second;
      *out = r;
    }
    return res;
  }
};

// evaluation under a model; returns false when the value is not determined exactly
struct Eval {
  static double bits(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
  static uint64_t ub(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
  static Q fl(const Q& q) { Z z; mpz_fdiv_q(z.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return Q(z); }
  static bool ev(E e, const Model& m, MVal& r) {
    auto it = m.memo.find(e);
    if (it != m.memo.end()) { r = it->second.second; return it->second.first; }
    bool ok = ev0(e, m, r);
    m.memo[e] = {ok, r};
    return ok;
  }
  static bool ev0(E e, const Model& m, MVal& r) {
    MVal a, b;
    auto k = [&](int i, MVal& v) { return ev(e->kids[i], m, v); };
    switch (e->k) {
      case K::True: r.u = 1; return true;
      case K::False: r.u = 0; return true;
      case K::BSym: case K::FSym: case K::ISym: case K::RSym: {
        auto it = m.v.find(e);
        if (it == m.v.end()) {
          if (e->s == Sort::Int || e->s == Sort::Real) { if (e->hasLo && e->lo > 0) r.q = e->lo; else if (e->hasHi && e->hi < 0) r.q = e->hi; else r.q = 0; }
          return true;
        }
        r = it->second;
        return !r.approx;
      }
      case K::UF: case K::Sqrt: case K::FUF: {
        auto it = m.v.find(e);
        if (it == m.v.end()) return false;
        r = it->second; return !r.approx;
      }
      case K::Inv: if (!k(0, a) || a.q == 0) return false; r.q = 1 / a.q; return true;
      case K::Not: if (!k(0, a)) return false; r.u = !a.u; return true;
      case K::And: { bool x = k(0, a), y = k(1, b); if (x && !a.u) { r.u = 0; return true; } if (y && !b.u) { r.u = 0; return true; } if (!x || !y) return false; r.u = 1; return true; }
      case K::Or: { bool x = k(0, a), y = k(1, b); if (x && a.u) { r.u = 1; return true; } if (y && b.u) { r.u = 1; return true; } if (!x || !y) return false; r.u = 0; return true; }
      case K::Eq0: if (!k(0, a)) return false; r.u = a.q == 0; return true;
      case K::Lt0: if (!k(0, a)) return false; r.u = a.q < 0; return true;
      case K::Le0: if (!k(0, a)) return false; r.u = a.q <= 0; return true;
      case K::IsInt: if (!k(0, a)) return false; r.u = a.q.get_den() == 1; return true;
      case K::Poly: {
        Q s = 0;
        for (auto& t : e->p->t) {
          Q pr = t.second;
          for (E x : t.first.a) { if (!ev(x, m, a)) return false; pr *= a.q; }
          s += pr;
        }
        r.q = s; return true;
      }
      case K::IDiv: if (!k(0, a) || !k(1, b) || b.q <= 0) return false; r.q = fl(a.q / b.q); return true;
      case K::Floor: if (!k(0, a)) return false; r.q = fl(a.q); return true;
      case K::FConst: r.u = e->u; return true;
      case K::FAdd: case K::FSub: case K::FMul: case K::FDiv: case K::FLt: case K::FLe: case K::FEq: case K::FSame: {
        if (!k(0, a) || !k(1, b)) return false;
        double x = bits(a.u), y = bits(b.u);
        switch (e->k) {
          case K::FAdd: r.u = ub(x + y); break; case K::FSub: r.u = ub(x - y); break;
          case K::FMul: r.u = ub(x * y); break; case K::FDiv: r.u = ub(x / y); break;
          case K::FLt: r.u = x < y; break; case K::FLe: r.u = x <= y; break; case K::FEq: r.u = x == y; break;
          default: r.u = (std::isnan(x) && std::isnan(y)) || a.u == b.u;
        }
        return true;
      }
      case K::FNeg: if (!k(0, a)) return false; r.u = a.u ^ (1ull << 63); return true;
      case K::FAbs: if (!k(0, a)) return false; r.u = a.u & ~(1ull << 63); return true;
      case K::FRnd: if (!k(0, a)) return false; r.u = ub((double)(float)bits(a.u)); return true;
      case K::FSqrt: if (!k(0, a)) return false; r.u = ub(std::sqrt(bits(a.u))); return true;
      case K::FNan: if (!k(0, a)) return false; r.u = std::isnan(bits(a.u)); return true;
      default: return false;
    }
  }
};
