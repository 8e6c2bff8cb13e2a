// Expression DAG of the symbolic executor: hash-consed, canonical polynomials over exact rationals
// for integers (mathematical integers, congruent to the machine value modulo 2^w) and for reals,
// IEEE double nodes for bit-precise mode, booleans.
#pragma once
#include <gmpxx.h>
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using Q = mpq_class;
using Z = mpz_class;

enum class Sort : uint8_t { Bool, Int, Real, FP, Agg, Byte };
enum class K : uint8_t {
  // bool
  True, False, BSym, Not, And, Or, Eq0, Lt0, Le0, FLt, FLe, FEq, FNan, FSame, IsInt,
  // arithmetic
  Poly, ISym, RSym, IDiv, Floor, Inv, Sqrt, UF,
  // fp
  FSym, FConst, FAdd, FSub, FMul, FDiv, FNeg, FAbs, FSqrt, FUF, FRnd,
  // misc
  Byte, Agg
};

struct Expr;
using E = const Expr*;

struct Mono {  // product of atoms (sorted by id, repeated for powers)
  std::vector<E> a;
  bool operator==(const Mono& o) const { return a == o.a; }
};
struct Poly {
  std::vector<std::pair<Mono, Q>> t;  // sorted; no zero coefficients
};

struct Value {
  uint64_t c = 0;  // concrete payload (used when e == nullptr)
  E e = nullptr;
  Value() {}
  Value(uint64_t c) : c(c) {}
  Value(E e) : e(e) {}
};

struct Expr {
  K k;
  Sort s;
  uint32_t id;
  uint64_t u = 0;
  std::vector<E> kids;
  std::vector<Value> agg;
  Poly* p = nullptr;
  std::string name;
  bool hasLo = false, hasHi = false;
  Q lo, hi;  // interval for Int/Real
  mutable std::vector<E>* syms = nullptr;  // support (symbol atoms), lazily computed
};

inline uint64_t hmix(uint64_t h, uint64_t v) { return (h ^ (v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2))) * 0xff51afd7ed558ccdull; }

struct ExprPool {
  std::deque<Expr> store;
  std::unordered_multimap<uint64_t, E> tab;
  E T, F;
  ExprPool() {
    T = mk(K::True, Sort::Bool, {}, 0, "");
    F = mk(K::False, Sort::Bool, {}, 0, "");
  }
  static uint64_t hq(const Q& q) { return std::hash<std::string>()(q.get_str(62)); }
  E mk(K k, Sort s, std::vector<E> kids, uint64_t u, const std::string& name) {
    uint64_t h = hmix((uint64_t)k * 31 + (uint64_t)s, u);
    for (E x : kids) h = hmix(h, x->id + 1);
    if (!name.empty()) h = hmix(h, std::hash<std::string>()(name));
    auto r = tab.equal_range(h);
    for (auto it = r.first; it != r.second; ++it) {
      E x = it->second;
      if (x->k == k && x->s == s && x->u == u && x->kids == kids && x->name == name && !x->p) return x;
    }
    store.emplace_back();
    Expr& x = store.back();
    x.k = k; x.s = s; x.u = u; x.kids = std::move(kids); x.name = name; x.id = (uint32_t)store.size();
    tab.emplace(h, &x);
    initInterval(x);
    return &x;
  }
  E mkAgg(std::vector<Value> v) {
    store.emplace_back();
    Expr& x = store.back();
    x.k = K::Agg; x.s = Sort::Agg; x.agg = std::move(v); x.id = (uint32_t)store.size();
    return &x;
  }
  E mkPoly(Poly&& p, Sort s) {
    if (p.t.size() == 1 && p.t[0].second == 1 && p.t[0].first.a.size() == 1 && p.t[0].first.a[0]->s == s) return p.t[0].first.a[0];
    uint64_t h = hmix(777, (uint64_t)s);
    for (auto& t : p.t) {
      for (E x : t.first.a) h = hmix(h, x->id);
      h = hmix(h, hq(t.second));
    }
    auto r = tab.equal_range(h);
    for (auto it = r.first; it != r.second; ++it) {
      E x = it->second;
      if (x->k == K::Poly && x->s == s && x->p->t.size() == p.t.size()) {
        bool eq = true;
        for (size_t i = 0; eq && i < p.t.size(); i++)
          if (!(x->p->t[i].first == p.t[i].first) || x->p->t[i].second != p.t[i].second) eq = false;
        if (eq) return x;
      }
    }
    store.emplace_back();
    Expr& x = store.back();
    x.k = K::Poly; x.s = s; x.p = new Poly(std::move(p)); x.id = (uint32_t)store.size();
    tab.emplace(h, &x);
    initInterval(x);
    return &x;
  }

  struct Iv { bool l = false, h = false; Q lo, hi; };
  static Iv ivOf(E e) { Iv r; r.l = e->hasLo; r.h = e->hasHi; r.lo = e->lo; r.hi = e->hi; return r; }
  static Iv ivMul(const Iv& a, const Iv& b) {
    Iv r;
    if (a.l && a.h && b.l && b.h) {
      Q c[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
      r.lo = r.hi = c[0];
      for (int i = 1; i < 4; i++) { if (c[i] < r.lo) r.lo = c[i]; if (c[i] > r.hi) r.hi = c[i]; }
      r.l = r.h = true;
    } else if (a.l && b.l && a.lo >= 0 && b.lo >= 0) { r.l = true; r.lo = a.lo * b.lo; }
    return r;
  }
  void initInterval(Expr& x) {
    auto set = [&](const Iv& v) { x.hasLo = v.l; x.hasHi = v.h; x.lo = v.lo; x.hi = v.hi; };
    switch (x.k) {
      case K::Poly: {
        Iv s; s.l = s.h = true; s.lo = 0; s.hi = 0;
        for (auto& t : x.p->t) {
          Iv m; m.l = m.h = true; m.lo = m.hi = 1;
          auto& a = t.first.a;
          for (size_t i = 0; i < a.size();) {
            size_t j = i; while (j < a.size() && a[j] == a[i]) j++;
            Iv v = ivOf(a[i]), pw; pw.l = pw.h = true; pw.lo = pw.hi = 1;
            size_t n = j - i;
            if (n % 2 == 0) {  // even power: non-negative
              for (size_t k = 0; k < n; k++) pw = ivMul(pw, v);
              if (!pw.l || pw.lo < 0) { pw.l = true; pw.lo = 0; }
            } else for (size_t k = 0; k < n; k++) pw = ivMul(pw, v);
            m = ivMul(m, pw);
            i = j;
          }
          const Q& c = t.second;
          Iv ct;
          if (c > 0) { ct.l = m.l; ct.h = m.h; if (m.l) ct.lo = m.lo * c; if (m.h) ct.hi = m.hi * c; }
          else { ct.l = m.h; ct.h = m.l; if (m.h) ct.lo = m.hi * c; if (m.l) ct.hi = m.lo * c; }
          s.l = s.l && ct.l; s.h = s.h && ct.h;
          if (s.l) s.lo += ct.lo;
          if (s.h) s.hi += ct.hi;
        }
        set(s);
        break;
      }
      case K::IDiv: {  // floor division, kids[1] positive constant or known-positive
        E a = x.kids[0], b = x.kids[1];
        if (a->hasLo && a->lo >= 0) { x.hasLo = true; x.lo = 0; if (a->hasHi && b->hasLo && b->lo >= 1) { x.hasHi = true; x.hi = a->hi / b->lo; } }
        break;
      }
      case K::Floor: {
        E a = x.kids[0];
        auto fl = [](const Q& q) { Z z; mpz_fdiv_q(z.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return Q(z); };
        if (a->hasLo) { x.hasLo = true; x.lo = fl(a->lo); }
        if (a->hasHi) { x.hasHi = true; x.hi = fl(a->hi); }
        break;
      }
      case K::Inv: {
        E a = x.kids[0];
        if (a->hasLo && a->lo > 0) { x.hasHi = true; x.hi = 1 / a->lo; x.hasLo = true; x.lo = a->hasHi ? Q(1 / a->hi) : Q(0); }
        break;
      }
      case K::Sqrt: x.hasLo = true; x.lo = 0; break;
      case K::UF:
        if (x.name == "cos" || x.name == "sin") { x.hasLo = x.hasHi = true; x.lo = -1; x.hi = 1; }
        if (x.name == "exp") { x.hasLo = true; x.lo = 0; }
        break;
      default: break;
    }
  }

  // ---- polynomial helpers
  static bool monoLess(const Mono& a, const Mono& b) {
    if (a.a.size() != b.a.size()) return a.a.size() < b.a.size();
    for (size_t i = 0; i < a.a.size(); i++) if (a.a[i] != b.a[i]) return a.a[i]->id < b.a[i]->id;
    return false;
  }
  static Poly asPoly(E e) {
    if (e->k == K::Poly) return *e->p;
    Poly p; Mono m; m.a.push_back(e); p.t.push_back({m, Q(1)});
    return p;
  }
  static Poly constPoly(const Q& q) { Poly p; if (q != 0) p.t.push_back({Mono(), q}); return p; }
  static bool isConst(const Poly& p, Q& q) {
    if (p.t.empty()) { q = 0; return true; }
    if (p.t.size() == 1 && p.t[0].first.a.empty()) { q = p.t[0].second; return true; }
    return false;
  }
  static Poly addP(const Poly& a, const Poly& b, const Q& cb) {  // a + cb*b
    Poly r; size_t i = 0, j = 0;
    while (i < a.t.size() || j < b.t.size()) {
      if (j >= b.t.size() || (i < a.t.size() && monoLess(a.t[i].first, b.t[j].first))) r.t.push_back(a.t[i++]);
      else if (i >= a.t.size() || monoLess(b.t[j].first, a.t[i].first)) { Q c = b.t[j].second * cb; if (c != 0) r.t.push_back({b.t[j].first, c}); j++; }
      else { Q c = a.t[i].second + b.t[j].second * cb; if (c != 0) r.t.push_back({a.t[i].first, c}); i++; j++; }
    }
    return r;
  }
  Poly mulP(const Poly& a, const Poly& b) {
    std::vector<std::pair<Mono, Q>> v;
    for (auto& x : a.t) for (auto& y : b.t) {
      Mono m; m.a.resize(x.first.a.size() + y.first.a.size());
      std::merge(x.first.a.begin(), x.first.a.end(), y.first.a.begin(), y.first.a.end(), m.a.begin(), [](E p, E q) { return p->id < q->id; });
      // cancel a * inv(a), when inv's argument is an atom
      bool again = true;
      while (again) {
        again = false;
        for (size_t i = 0; i < m.a.size() && !again; i++) if (m.a[i]->k == K::Inv && m.a[i]->kids[0]->k != K::Poly)
          for (size_t j = 0; j < m.a.size(); j++) if (m.a[j] == m.a[i]->kids[0]) {
            size_t p = std::max(i, j), q = std::min(i, j);
            m.a.erase(m.a.begin() + p); m.a.erase(m.a.begin() + q); again = true; break;
          }
      }
      // sqrt(p)*sqrt(p) = p
      size_t sqi = 0;
      while (sqi + 1 < m.a.size() && !(m.a[sqi]->k == K::Sqrt && m.a[sqi] == m.a[sqi + 1])) sqi++;
      if (sqi + 1 < m.a.size()) {
        E k = m.a[sqi]->kids[0];
        m.a.erase(m.a.begin() + sqi, m.a.begin() + sqi + 2);
        Poly rest;
        rest.t.push_back({m, x.second * y.second});
        Poly pr = mulP(rest, asPoly(k));
        for (auto& t : pr.t) v.push_back(t);
        continue;
      }
      v.push_back({m, x.second * y.second});
    }
    std::sort(v.begin(), v.end(), [](auto& p, auto& q) { return monoLess(p.first, q.first); });
    Poly r;
    for (auto& t : v) {
      if (!r.t.empty() && r.t.back().first == t.first) { r.t.back().second += t.second; if (r.t.back().second == 0) r.t.pop_back(); }
      else if (t.second != 0) r.t.push_back(t);
    }
    return r;
  }

  // ---- booleans
  E bNot(E a) {
    switch (a->k) {
      case K::True: return F;
      case K::False: return T;
      case K::Not: return a->kids[0];
      case K::Lt0: {  // !(p<0) -> -p<=0
        Poly n = addP(Poly(), asPoly(a->kids[0]), Q(-1));
        return cmp0(n, a->kids[0]->s, K::Le0);
      }
      case K::Le0: {
        Poly n = addP(Poly(), asPoly(a->kids[0]), Q(-1));
        return cmp0(n, a->kids[0]->s, K::Lt0);
      }
      default: return mk(K::Not, Sort::Bool, {a}, 0, "");
    }
  }
  E bAnd(E a, E b) {
    if (a == F || b == F) return F;
    if (a == T) return b;
    if (b == T || a == b) return a;
    if (bNot(a) == b) return F;
    if (a->id > b->id) std::swap(a, b);
    return mk(K::And, Sort::Bool, {a, b}, 0, "");
  }
  E bOr(E a, E b) {
    if (a == T || b == T) return T;
    if (a == F) return b;
    if (b == F || a == b) return a;
    if (bNot(a) == b) return T;
    if (a->id > b->id) std::swap(a, b);
    return mk(K::Or, Sort::Bool, {a, b}, 0, "");
  }
  E bXor(E a, E b) { return bOr(bAnd(a, bNot(b)), bAnd(bNot(a), b)); }
  // k in {Eq0, Lt0, Le0}; canonicalised
  E cmp0(Poly p, Sort s, K k) {
    Q q;
    if (isConst(p, q)) return (k == K::Eq0 ? q == 0 : k == K::Lt0 ? q < 0 : q <= 0) ? T : F;
    if (s == Sort::Int) {
      if (k == K::Lt0) { p = addP(p, constPoly(Q(1)), Q(1)); k = K::Le0; }
      // divide by content of non-constant terms, floor the constant
      Z g = 0; Q c0 = 0;
      for (auto& t : p.t) {
        if (t.first.a.empty()) { c0 = t.second; continue; }
        Z n = abs(t.second.get_num());
        mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), n.get_mpz_t());
      }
      if (g > 1) {
        Q qc = c0 / Q(g);
        if (k == K::Eq0) { if (qc.get_den() != 1) return F; }
        else { Z z; mpz_cdiv_q(z.get_mpz_t(), qc.get_num_mpz_t(), qc.get_den_mpz_t()); qc = z; }
        Poly r;
        for (auto& t : p.t) if (!t.first.a.empty()) r.t.push_back({t.first, t.second / Q(g)});
        p = addP(r, constPoly(qc), Q(1));
      }
      if (k == K::Eq0 && p.t.back().second < 0) p = addP(Poly(), p, Q(-1));
    } else {
      Q lead = p.t.back().second;
      if (k != K::Eq0) lead = abs(lead);
      p = addP(Poly(), p, 1 / lead);
    }
    E e = mkPoly(std::move(p), s);
    if (k == K::Eq0) { if ((e->hasLo && e->lo > 0) || (e->hasHi && e->hi < 0)) return F; }
    if (k == K::Lt0) { if (e->hasLo && e->lo >= 0) return F; if (e->hasHi && e->hi < 0) return T; }
    if (k == K::Le0) { if (e->hasLo && e->lo > 0) return F; if (e->hasHi && e->hi <= 0) return T; }
    if (s == Sort::Real && k != K::Eq0 && e->k == K::Poly) {
      if (k == K::Lt0 && psd(*e->p, false)) return F;
      if (k == K::Le0 && psd(*e->p, true)) return T;
    }
    return mk(k, Sort::Bool, {e}, 0, "");
  }
  // exact decision: a quadratic polynomial (or its negation) is non-negative everywhere iff its Gram matrix over
  // (1, atoms) is positive semidefinite, tested by rational LDL^T elimination
  static bool psd(const Poly& p, bool neg) {
    bool quad = false;
    for (auto& t : p.t) { if (t.first.a.size() > 2) return false; if (t.first.a.size() == 2) quad = true; }
    if (!quad) return false;
    std::map<E, int> ix;
    for (auto& t : p.t) for (E a : t.first.a) if (!ix.count(a)) { int n = (int)ix.size() + 1; ix[a] = n; }
    int n = (int)ix.size() + 1;
    if (n > 80) return false;
    std::vector<std::vector<Q>> g(n, std::vector<Q>(n, Q(0)));
    for (auto& t : p.t) {
      Q c = neg ? Q(-t.second) : t.second;
      int i = t.first.a.size() > 0 ? ix[t.first.a[0]] : 0, j = t.first.a.size() > 1 ? ix[t.first.a[1]] : 0;
      if (i == j) g[i][i] += c; else { g[i][j] += c / 2; g[j][i] += c / 2; }
    }
    for (int i = 0; i < n; i++) if (g[i][i] < 0) return false;
    for (int i = n - 1; i >= 0; i--) {
      if (g[i][i] < 0) return false;
      if (g[i][i] == 0) { for (int j = 0; j < i; j++) if (g[i][j] != 0) return false; continue; }
      for (int r = 0; r < i; r++) if (g[r][i] != 0) { Q f = g[r][i] / g[i][i]; for (int q = 0; q < i; q++) if (g[i][q] != 0) g[r][q] -= f * g[i][q]; }
    }
    return true;
  }

  const std::vector<E>& support(E e) {
    if (e->syms) return *e->syms;
    auto* v = new std::vector<E>();
    std::unordered_set<E> seen;
    auto addAll = [&](E x) { for (E y : support(x)) if (seen.insert(y).second) v->push_back(y); };
    switch (e->k) {
      case K::ISym: case K::RSym: case K::BSym: case K::FSym: v->push_back(e); break;
      case K::Poly: for (auto& t : e->p->t) for (E a : t.first.a) addAll(a); break;
      default: for (E a : e->kids) addAll(a);
    }
    // uninterpreted results are free variables too
    if (e->k == K::UF || e->k == K::FUF || e->k == K::Sqrt || e->k == K::Inv) if (seen.insert(e).second) v->push_back(e);
    std::sort(v->begin(), v->end(), [](E a, E b) { return a->id < b->id; });
    e->syms = v;
    return *v;
  }

  std::string str(E e, int d = 0) {
    if (d > 12) return "..";
    auto kid = [&](int i) { return str(e->kids[i], d + 1); };
    switch (e->k) {
      case K::True: return "true"; case K::False: return "false";
      case K::Not: return "!" + kid(0);
      case K::And: return "(" + kid(0) + " && " + kid(1) + ")";
      case K::Or: return "(" + kid(0) + " || " + kid(1) + ")";
      case K::Eq0: return "(" + kid(0) + " == 0)";
      case K::Lt0: return "(" + kid(0) + " < 0)";
      case K::Le0: return "(" + kid(0) + " <= 0)";
      case K::Poly: {
        std::string s;
        for (auto& t : e->p->t) {
          if (!s.empty()) s += " + ";
          s += t.second.get_str();
          for (E a : t.first.a) s += "*" + str(a, d + 1);
        }
        return s.empty() ? "0" : s;
      }
      case K::BSym: case K::ISym: case K::RSym: case K::FSym: return e->name;
      case K::FConst: { double x; memcpy(&x, &e->u, 8); return std::to_string(x); }
      case K::Byte: return "byte" + std::to_string(e->u) + "(" + kid(0) + ")";
      default: {
        static const char* nm[] = {"true","false","bsym","not","and","or","eq0","lt0","le0","flt","fle","feq","fnan","fsame","isint","poly","isym","rsym","idiv","floor","inv","sqrt","uf","fsym","fconst","fadd","fsub","fmul","fdiv","fneg","fabs","fsqrt","fuf","frnd","byte","agg"};
        std::string s = nm[(int)e->k];
        if (!e->name.empty()) s += ":" + e->name;
        s += "(";
        for (size_t i = 0; i < e->kids.size(); i++) s += (i ? "," : "") + kid(i);
        return s + ")";
      }
    }
  }
};
extern ExprPool X;
