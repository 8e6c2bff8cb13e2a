  // builtin functions (included inside struct Engine)
  using Args = std::vector<Value>;
  void reg(const std::string& n, std::function<void(DI&, Args&, Value&)> f) { bidx[n] = bfn.size(); bfn.push_back(std::move(f)); bnames.push_back(n); }
  E mkISym(const std::string& nm, const Q& lo, const Q& hi) {
    uint64_t tag = std::hash<std::string>()(lo.get_str() + ":" + hi.get_str());
    E e = X.mk(K::ISym, Sort::Int, {}, tag, nm);
    setRange(e, lo, hi);
    return e;
  }
  void addInput(const std::string& nm, E e) {
    for (auto& s : cur->inputs) if (s == nm) throw PathEnd{"unsupported", "input name used twice: " + nm};
    cur->inputs.push_back(nm); cur->inputE.push_back(e);
  }
  uint64_t heapAlloc(uint64_t n, bool zero) {
    if (n > (1u << 26)) throw PathEnd{"unsupported", "huge allocation"};
    return cur->mem.alloc(n, 1, !zero);
  }
  void heapFree(uint64_t p) {
    if (!p) return;
    uint64_t off;
    const Obj* o = cur->mem.get(p, off);
    if (!o || off != 0 || o->kind != 1) memErr("free of a non-heap pointer");
    if (!o->alive) memErr("double free");
    cur->mem.kill(p);
  }
  void math1(const std::string& n, double (*fn)(double)) {
    reg(n, [this, n, fn](DI&, Args& a, Value& r) {
      if (!a[0].e) { r = d2b(fn(b2d(a[0].c))); return; }
      if (isFP(a[0])) { r = Value(X.mk(K::FUF, Sort::FP, {a[0].e}, 0, n)); return; }
      Poly p = rP(a[0]);
      r = rval(ExprPool::asPoly(X.mk(K::UF, Sort::Real, {X.mkPoly(std::move(p), Sort::Real)}, 0, n)));
    });
  }
  Value powV(Value a, Value b) {
    if (!a.e && !b.e) return d2b(std::pow(b2d(a.c), b2d(b.c)));
    if (isFP(a) || isFP(b)) {
      if (!b.e && b2d(b.c) == 2.0) return fbin(L::Instruction::FMul, a, a);
      if (!b.e && b2d(b.c) == 1.0) return a;
      return Value(X.mk(K::FUF, Sort::FP, {fpE(a), fpE(b)}, 0, "pow"));
    }
    if (!b.e) {
      double k = b2d(b.c);
      if (k == 0) return d2b(1.0);
      if (k == 0.5) return sqrtV(a);
      if (k == std::floor(k) && std::fabs(k) <= 8) {
        Value r = d2b(1.0);
        for (int i = 0; i < (int)std::fabs(k); i++) r = fbin(L::Instruction::FMul, r, a);
        if (k < 0) r = fbin(L::Instruction::FDiv, d2b(1.0), r);
        return r;
      }
    }
    Poly p = rP(a), q = rP(b);
    return rval(ExprPool::asPoly(X.mk(K::UF, Sort::Real, {X.mkPoly(std::move(p), Sort::Real), X.mkPoly(std::move(q), Sort::Real)}, 0, "pow")));
  }
  E sameE(Value a, Value b) {
    if (!a.e && !b.e) { double x = b2d(a.c), y = b2d(b.c); return (a.c == b.c || (std::isnan(x) && std::isnan(y))) ? X.T : X.F; }
    if (isFP(a) || isFP(b)) {
      E x = fpE(a), y = fpE(b);
      if (x == y) return X.T;
      if (x->id > y->id) std::swap(x, y);
      return X.mk(K::FSame, Sort::Bool, {x, y}, 0, "");
    }
    for (Value v : {a, b}) if (!v.e && !std::isfinite(b2d(v.c))) return X.F;
    return X.cmp0(ExprPool::addP(rP(a), rP(b), Q(-1)), Sort::Real, K::Eq0);
  }
  E withinE(Value a, Value b, const Q& tol) {
    Poly d = ExprPool::addP(rP(a), rP(b), Q(-1));
    Poly lo = ExprPool::addP(ExprPool::addP(Poly(), d, Q(-1)), ExprPool::constPoly(tol), Q(-1));  // -d - tol <= 0
    Poly hi = ExprPool::addP(d, ExprPool::constPoly(tol), Q(-1));
    return X.bAnd(X.cmp0(lo, Sort::Real, K::Le0), X.cmp0(hi, Sort::Real, K::Le0));
  }
  void setupBuiltins() {
    // ---- harness interface
    reg("sym_u64", [this](DI&, Args& a, Value& r) {
      std::string nm = cstr(a[0].c);
      E e = mkISym(nm, zq(concretize(a[1], 64)), zq(concretize(a[2], 64)));
      addInput(nm, e);
      r = Value(e);
    });
    reg("sym_f64", [this](DI&, Args& a, Value& r) {
      std::string nm = cstr(a[0].c);
      E e = cur->fpmode ? X.mk(K::FSym, Sort::FP, {}, 0, nm) : X.mk(K::RSym, Sort::Real, {}, 0, nm);
      addInput(nm, e);
      r = Value(e);
    });
    reg("sym_f64r", [this](DI&, Args& a, Value& r) {  // real in [lo,hi]
      std::string nm = cstr(a[0].c);
      double lo = b2d(a[1].c), hi = b2d(a[2].c);
      if (cur->fpmode) {
        E e = X.mk(K::FSym, Sort::FP, {}, 0, nm);
        E c = X.bAnd(X.mk(K::FLe, Sort::Bool, {X.mk(K::FConst, Sort::FP, {}, d2b(lo), ""), e}, 0, ""), X.mk(K::FLe, Sort::Bool, {e, X.mk(K::FConst, Sort::FP, {}, d2b(hi), "")}, 0, ""));
        if (!decide(c)) throw PathEnd{"assume", ""};
        addInput(nm, e); r = Value(e); return;
      }
      uint64_t tag = std::hash<std::string>()(std::to_string(lo) + ":" + std::to_string(hi));
      E e = X.mk(K::RSym, Sort::Real, {}, tag, nm);
      setRange(e, Q(lo), Q(hi));
      addInput(nm, e);
      r = Value(e);
    });
    reg("sym_f64i", [this](DI&, Args& a, Value& r) {  // integer-valued double in [lo,hi]
      std::string nm = cstr(a[0].c);
      E e = mkISym(nm, Q(b2d(a[1].c)), Q(b2d(a[2].c)));
      addInput(nm, e);
      r = rval(ExprPool::asPoly(e));
    });
    reg("sym_choice", [this](DI&, Args& a, Value& r) {
      std::string nm = cstr(a[0].c);
      uint64_t n = concretize(a[1], 32);
      E e = mkISym(nm, 0, zq(n - 1));
      for (uint64_t i = 0; i + 1 < n; i++) if (decide(eqConst(e, zq(i)))) { addInput(nm, e); r = i; return; }
      addInput(nm, e);
      r = n - 1;
    });
    reg("sym_fpmode", [this](DI&, Args& a, Value&) { cur->fpmode = a[0].c & 0xff; });
    reg("sym_symbolic", [](DI&, Args&, Value& r) { r = (uint64_t)1; });
    reg("sym_assume", [this](DI&, Args& a, Value&) {
      E c = boolE(a[0]);
      if (c == X.T) return;
      if (c == X.F) throw PathEnd{"assume", ""};
      auto it = cur->known.find(c);
      if (it != cur->known.end()) { if (it->second) return; throw PathEnd{"assume", ""}; }
      MVal v;
      if (!(cur->model && Eval::ev(c, *cur->model, v) && v.u)) {
        ModelP m;
        int q = S.check(cur->pc, c, cur->model, &m);
        if (q == 0) throw PathEnd{"assume", ""};
        cur->model = q == 1 ? m : nullptr;
      }
      addPC(cur, c);
    });
    reg("sym_check", [this](DI&, Args& a, Value&) { std::string l = cstr(a[1].c); checkCond(boolE(a[0]), l); });
    reg("sym_check_same", [this](DI&, Args& a, Value&) { std::string l = cstr(a[2].c); checkCond(sameE(a[0], a[1]), l); });
    reg("sym_check_close", [this](DI&, Args& a, Value&) {
      std::string l = cstr(a[3].c);
      double t = b2d(a[2].c);
      if (isFP(a[0]) || isFP(a[1])) { checkCond(sameE(a[0], a[1]), l); return; }
      bool nf = false; double x = 0, y = 0;
      for (int i = 0; i < 2; i++) if (!a[i].e && !std::isfinite(b2d(a[i].c))) nf = true;
      if (nf) { x = a[0].e ? 0 : b2d(a[0].c); y = a[1].e ? 0 : b2d(a[1].c); checkCond((!a[0].e && !a[1].e && (x == y || (std::isnan(x) && std::isnan(y)))) ? X.T : X.F, l); return; }
      Q tol(t);
      checkCond(withinE(a[0], a[1], tol), l, {X.bNot(withinE(a[0], a[1], Q(1))), X.bNot(withinE(a[0], a[1], Q(0.01))), X.bNot(withinE(a[0], a[1], tol * 1000))});
    });
    reg("sym_cover", [this](DI&, Args& a, Value&) { cur->covers.push_back(cstr(a[0].c)); });
    reg("sym_note", [this](DI&, Args& a, Value&) { if (getenv("SYMEX_NOTE")) fprintf(stderr, "note %s %s\n", cstr(a[0].c).c_str(), a[1].e ? X.str(a[1].e).c_str() : std::to_string((int64_t)a[1].c).c_str()); });
    reg("sym_noted", [this](DI&, Args& a, Value&) { if (getenv("SYMEX_NOTE")) fprintf(stderr, "note %s %s\n", cstr(a[0].c).c_str(), a[1].e ? X.str(a[1].e).c_str() : std::to_string(b2d(a[1].c)).c_str()); });
    reg("sym_heapdir", [this](DI&, Args& a, Value&) { cur->mem.down = concretize(a[0], 32) != 0; });
    reg("sym_smear", [this](DI&, Args& a, Value&) {});
    reg("sym_puts", [this](DI&, Args& a, Value&) { if (getenv("SYMEX_NOTE")) fprintf(stderr, "%s\n", cstr(a[0].c).c_str()); });
    // concrete conversions used by the runtime's number parsing and printing
    reg("sym_strtod", [this](DI&, Args& a, Value& r) {
      std::string s = cstr(a[0].c);
      char* e; double d = strtod(s.c_str(), &e);
      if (a[1].c) store(a[1].c, Value(a[0].c + (uint64_t)(e - s.c_str())), 8, 64);
      auto t = tokF.find(d);
      if (t != tokF.end()) r = Value(t->second); else r = d2b(d);
    });
    reg("sym_untoken", [this](DI&, Args& a, Value& r) {
      auto t = a[0].e ? tokI.end() : tokI.find(a[0].c);
      if (t != tokI.end()) r = Value(t->second); else r = a[0];
    });

    // ---- allocation
    auto nw = [this](DI&, Args& a, Value& r) { r = heapAlloc(concretize(a[0], 64), false); };
    for (auto n : {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t"}) reg(n, nw);
    reg("calloc", [this](DI&, Args& a, Value& r) { r = heapAlloc(concretize(a[0], 64) * concretize(a[1], 64), true); });
    auto fr = [this](DI&, Args& a, Value&) { heapFree(concretize(a[0], 64)); };
    for (auto n : {"free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}) reg(n, fr);

    // ---- memory and strings
    auto mcpy = [this](DI&, Args& a, Value& r) { uint64_t n = concretize(a[2], 64); uint64_t d = concretize(a[0], 64), s = concretize(a[1], 64); copyMem(d, s, n); r = d; };
    for (auto n : {"llvm.memcpy", "llvm.memmove", "llvm.memcpy.inline", "memcpy", "memmove"}) reg(n, mcpy);
    auto mset = [this](DI&, Args& a, Value& r) {
      uint64_t n = concretize(a[2], 64), d = concretize(a[0], 64);
      Value v = a[1]; if (!v.e) v.c &= 255;
      if (v.e) v = Value(concretize(v, 8));
      for (uint64_t i = 0; i < n; i++) store(d + i, v, 1, 8);
      r = d;
    };
    reg("llvm.memset", mset); reg("memset", mset);
    auto mcmp = [this](DI&, Args& a, Value& r) {
      uint64_t n = concretize(a[2], 64), x = concretize(a[0], 64), y = concretize(a[1], 64);
      L::Type* t8 = L::Type::getInt8Ty(ctx);
      for (uint64_t i = 0; i < n; i++) {
        Value p = load(x + i, 1, t8), q = load(y + i, 1, t8);
        if (!p.e && !q.e) { if ((p.c & 255) != (q.c & 255)) { r = maskw((p.c & 255) < (q.c & 255) ? ~0ull : 1, 32); return; } continue; }
        if (p.e == q.e && p.e) continue;
        if (!decide(boolE(icmp(L::CmpInst::ICMP_EQ, p, q, 8)))) { r = decide(boolE(icmp(L::CmpInst::ICMP_ULT, p, q, 8))) ? maskw(~0ull, 32) : 1; return; }
      }
      r = (uint64_t)0;
    };
    reg("memcmp", mcmp); reg("bcmp", mcmp);
    reg("strlen", [this](DI&, Args& a, Value& r) { r = cstr(concretize(a[0], 64)).size(); });
    reg("strcmp", [this](DI&, Args& a, Value& r) { int c = strcmp(cstr(a[0].c).c_str(), cstr(a[1].c).c_str()); r = maskw((uint64_t)(int64_t)c, 32); });
    reg("memchr", [this](DI&, Args& a, Value& r) {
      uint64_t p = a[0].c, n = concretize(a[2], 64);
      L::Type* t8 = L::Type::getInt8Ty(ctx);
      for (uint64_t i = 0; i < n; i++) { uint64_t c = concretize(load(p + i, 1, t8), 8); if ((c & 255) == (a[1].c & 255)) { r = p + i; return; } }
      r = (uint64_t)0;
    });
    reg("abort", [this](DI&, Args&, Value&) { throw PathEnd{"abort", "abort" + where()}; });
    reg("_ZSt9terminatev", [this](DI&, Args&, Value&) { throw PathEnd{"abort", "std::terminate" + where()}; });
    reg("__clang_call_terminate", [this](DI&, Args&, Value&) { throw PathEnd{"abort", "exception escapes noexcept" + where()}; });
    reg("__assert_fail", [this](DI&, Args&, Value&) { throw PathEnd{"abort", "assert" + where()}; });
    reg("llvm.trap", [this](DI&, Args&, Value&) { throw PathEnd{"abort", "trap" + where()}; });
    reg("__cxa_pure_virtual", [this](DI&, Args&, Value&) { throw PathEnd{"abort", "pure virtual call" + where()}; });
    reg("__cxa_atexit", [](DI&, Args&, Value& r) { r = (uint64_t)0; });
    reg("__cxa_guard_acquire", [this](DI&, Args& a, Value& r) { Value v = load(a[0].c, 1, L::Type::getInt8Ty(ctx)); r = (uint64_t)((v.c & 1) == 0); });
    reg("__cxa_guard_release", [this](DI&, Args& a, Value&) { store(a[0].c, Value((uint64_t)1), 1, 8); });
    reg("__cxa_guard_abort", [](DI&, Args&, Value&) {});
    for (auto n : {"_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "__gxx_personality_v0"}) reg(n, [](DI&, Args&, Value&) {});
    reg("pthread_mutex_lock", [](DI&, Args&, Value& r) { r = (uint64_t)0; });
    reg("pthread_mutex_unlock", [](DI&, Args&, Value& r) { r = (uint64_t)0; });
    reg("__errno_location", [this](DI&, Args&, Value& r) { r = heapAlloc(8, true); });

    // ---- exceptions
    reg("__cxa_allocate_exception", [this](DI&, Args& a, Value& r) { r = heapAlloc(concretize(a[0], 64), false); });
    reg("__cxa_free_exception", [this](DI&, Args& a, Value&) { heapFree(a[0].c); });
    reg("__cxa_throw", [this](DI&, Args& a, Value&) { cur->excObj = a[0].c; cur->excTI = a[1].c; cur->exTI[a[0].c] = a[1].c; throw Unwind{}; });
    reg("__cxa_begin_catch", [this](DI&, Args& a, Value& r) { cur->caught.push_back(a[0].c); r = a[0]; });
    reg("__cxa_get_exception_ptr", [this](DI&, Args& a, Value& r) { r = a[0]; });
    reg("__cxa_end_catch", [this](DI&, Args&, Value&) { if (!cur->caught.empty()) cur->caught.pop_back(); });
    reg("__cxa_rethrow", [this](DI&, Args&, Value&) {
      if (cur->caught.empty()) throw PathEnd{"abort", "rethrow without exception"};
      cur->excObj = cur->caught.back(); cur->excTI = cur->exTI[cur->excObj];
      throw Unwind{};
    });
    reg("llvm.eh.typeid.for", [this](DI&, Args& a, Value& r) { r = typeId(a[0].c); });
    reg("__dynamic_cast", [this](DI&, Args& a, Value& r) {
      uint64_t obj = concretize(a[0], 64), dst = a[2].c;
      if (!obj) { r = (uint64_t)0; return; }
      L::Type* pt = L::PointerType::get(ctx, 0);
      uint64_t vp = concretize(load(obj, 8, pt), 64);
      int64_t top = (int64_t)concretize(load(vp - 16, 8, L::Type::getInt64Ty(ctx)), 64);
      uint64_t ti = concretize(load(vp - 8, 8, pt), 64);
      int64_t off = 0;
      if (tiMatch(ti, dst, &off)) r = obj + (uint64_t)top + (uint64_t)off;
      else r = (uint64_t)0;
    });

    // ---- maths
    math1("cos", std::cos); math1("sin", std::sin); math1("tan", std::tan); math1("exp", std::exp); math1("log", std::log); math1("log10", std::log10); math1("log2", std::log2);
    math1("tanh", std::tanh); math1("atan", std::atan); math1("exp2", std::exp2); math1("cbrt", std::cbrt);
    math1("asin", std::asin); math1("acos", std::acos); math1("sinh", std::sinh); math1("cosh", std::cosh); math1("expm1", std::expm1); math1("log1p", std::log1p); math1("asinh", std::asinh); math1("acosh", std::acosh); math1("atanh", std::atanh); math1("erf", std::erf); math1("tgamma", std::tgamma); math1("lgamma", std::lgamma);
    for (auto p : std::vector<std::pair<std::string, std::string>>{{"llvm.cos", "cos"}, {"llvm.sin", "sin"}, {"llvm.exp", "exp"}, {"llvm.log", "log"}, {"llvm.log10", "log10"}, {"llvm.log2", "log2"}, {"llvm.exp2", "exp2"}}) bidx[p.first] = bidx[p.second];
    auto pw = [this](DI&, Args& a, Value& r) { r = powV(a[0], a[1]); };
    reg("pow", pw); reg("llvm.pow", pw);
    reg("llvm.powi", [this](DI&, Args& a, Value& r) { r = powV(a[0], Value(d2b((double)sext(concretize(a[1], 32), 32)))); });
    auto sq = [this](DI&, Args& a, Value& r) { r = sqrtV(a[0]); };
    reg("sqrt", sq); reg("llvm.sqrt", sq);
    auto fa = [this](DI& d, Args& a, Value& r) { if (d.I->getType()->isFloatTy()) { if (!a[0].e) { r = a[0].c & 0x7fffffff; return; } r = fabsV(a[0]); return; }
      if (a[0].e && !isFP(a[0])) {  // only compared with infinity: the sign does not matter
        bool onlyInf = true;
        for (auto* u : d.I->users()) { auto* fc = dyn_cast<L::FCmpInst>(u); auto* k = fc ? dyn_cast<L::ConstantFP>(fc->getOperand(1)) : nullptr; if (!k || !k->isInfinity()) onlyInf = false; }
        if (onlyInf) { r = a[0]; return; }
      }
      r = fabsV(a[0]); };
    reg("fabs", fa); reg("llvm.fabs", fa);
    auto fl = [this](DI&, Args& a, Value& r) { r = floorR(a[0]); };
    reg("floor", fl); reg("llvm.floor", fl);
    auto ce = [this](DI&, Args& a, Value& r) { r = a[0].e ? fneg(floorR(fneg(a[0]))) : Value(d2b(std::ceil(b2d(a[0].c)))); };
    reg("ceil", ce); reg("llvm.ceil", ce);
    auto tc = [this](DI&, Args& a, Value& r) { r = truncR(a[0]); };
    reg("trunc", tc); reg("llvm.trunc", tc);
    auto rd = [this](DI&, Args& a, Value& r) {
      if (!a[0].e) { r = d2b(std::round(b2d(a[0].c))); return; }
      if (isFP(a[0])) { r = Value(X.mk(K::FUF, Sort::FP, {a[0].e}, 0, "round")); return; }
      bool neg = decide(X.cmp0(rP(a[0]), Sort::Real, K::Lt0));
      Value v = neg ? fneg(a[0]) : a[0];
      v = floorR(fbin(L::Instruction::FAdd, v, d2b(0.5)));
      r = neg ? fneg(v) : v;
    };
    reg("round", rd); reg("llvm.round", rd);
    auto fm = [this](DI&, Args& a, Value& r) { r = fbin(L::Instruction::FRem, a[0], a[1]); };
    reg("fmod", fm);
    auto mx = [this](DI&, Args& a, Value& r) { Value c = fcmp(L::CmpInst::FCMP_OLT, a[0], a[1]); r = (c.e ? decide(boolE(c)) : c.c) ? a[1] : a[0]; };
    auto mn = [this](DI&, Args& a, Value& r) { Value c = fcmp(L::CmpInst::FCMP_OLT, a[1], a[0]); r = (c.e ? decide(boolE(c)) : c.c) ? a[1] : a[0]; };
    reg("fmax", mx); reg("llvm.maxnum", mx); reg("llvm.maximum", mx); reg("fmin", mn); reg("llvm.minnum", mn); reg("llvm.minimum", mn);
    auto fma_ = [this](DI&, Args& a, Value& r) { r = fbin(L::Instruction::FAdd, fbin(L::Instruction::FMul, a[0], a[1]), a[2]); };
    reg("fma", fma_); reg("llvm.fma", fma_); reg("llvm.fmuladd", fma_);
    auto cs = [this](DI&, Args& a, Value& r) {
      if (!a[0].e && !a[1].e) { r = d2b(std::copysign(b2d(a[0].c), b2d(a[1].c))); return; }
      Value m = fabsV(a[0]);
      Value c = fcmp(L::CmpInst::FCMP_OLT, a[1], d2b(0.0));
      r = (c.e ? decide(boolE(c)) : c.c) ? fneg(m) : m;
    };
    reg("copysign", cs); reg("llvm.copysign", cs);
    reg("llvm.is.fpclass", [this](DI&, Args& a, Value& r) {
      uint64_t m = a[1].c;
      if (a[0].e && !isFP(a[0])) {
        if ((m & 0x1f8) == 0x1f8 || !(m & 0x1f8)) { r = (uint64_t)((m & 0x1f8) != 0); return; }
        // finite real: sign and zero-ness decide
        bool z = decide(X.cmp0(rP(a[0]), Sort::Real, K::Eq0));
        if (z) { r = (uint64_t)((m & (32 | 64)) != 0); return; }
        bool n = decide(X.cmp0(rP(a[0]), Sort::Real, K::Lt0));
        r = (uint64_t)((m & (n ? (8 | 16) : (128 | 256))) != 0); return;
      }
      if (a[0].e) {
        E x = a[0].e;
        E nan = X.mk(K::FNan, Sort::Bool, {x}, 0, "");
        E ab = X.mk(K::FAbs, Sort::FP, {x}, 0, "");
        E inf = X.mk(K::FEq, Sort::Bool, {ab, X.mk(K::FConst, Sort::FP, {}, d2b(INFINITY), "")}, 0, "");
        uint64_t out = 0;
        if (decide(nan)) out = m & 3; else if (decide(inf)) out = m & (4 | 512); else out = m & (8 | 16 | 32 | 64 | 128 | 256);
        r = (uint64_t)(out != 0); return;
      }
      double d = b2d(a[0].c); uint64_t k;
      bool n = std::signbit(d);
      switch (std::fpclassify(d)) { case FP_NAN: k = 3; break; case FP_INFINITE: k = n ? 4 : 512; break; case FP_NORMAL: k = n ? 8 : 256; break; case FP_SUBNORMAL: k = n ? 16 : 128; break; default: k = n ? 32 : 64; }
      r = (uint64_t)((m & k) != 0);
    });

    // ---- integer intrinsics
    auto mm = [this](unsigned pred) { return [this, pred](DI& d, Args& a, Value& r) { Value c = icmp(pred, a[0], a[1], d.w); r = (c.e ? decide(boolE(c)) : (c.c & 1)) ? a[0] : a[1]; }; };
    reg("llvm.umin", mm(L::CmpInst::ICMP_ULT)); reg("llvm.umax", mm(L::CmpInst::ICMP_UGT)); reg("llvm.smin", mm(L::CmpInst::ICMP_SLT)); reg("llvm.smax", mm(L::CmpInst::ICMP_SGT));
    reg("llvm.abs", [this](DI& d, Args& a, Value& r) {
      Value c = icmp(L::CmpInst::ICMP_SLT, a[0], Value((uint64_t)0), d.w);
      r = (c.e ? decide(boolE(c)) : (c.c & 1)) ? binop(L::Instruction::Sub, Value((uint64_t)0), a[0], d.w) : a[0];
    });
    auto ovf = [this](unsigned opc, bool sg) {
      return [this, opc, sg](DI& d, Args& a, Value& r) {
        unsigned w = width(cast<L::CallBase>(d.I)->getArgOperand(0)->getType());
        Poly x = sg ? sP(a[0], w) : uP(a[0], w), y = sg ? sP(a[1], w) : uP(a[1], w);
        Poly z = opc == L::Instruction::Add ? ExprPool::addP(x, y, Q(1)) : opc == L::Instruction::Sub ? ExprPool::addP(x, y, Q(-1)) : X.mulP(x, y);
        Q lo = sg ? Q(-pow2(w - 1)) : Q(0), hi = sg ? Q(pow2(w - 1) - 1) : Q(pow2(w) - 1);
        E lt = X.cmp0(ExprPool::addP(z, ExprPool::constPoly(lo), Q(-1)), Sort::Int, K::Lt0);
        E gt = X.cmp0(ExprPool::addP(ExprPool::constPoly(hi), z, Q(-1)), Sort::Int, K::Lt0);
        r = Value(X.mkAgg({ival(z, w), bval(X.bOr(lt, gt))}));
      };
    };
    reg("llvm.uadd.with.overflow", ovf(L::Instruction::Add, false)); reg("llvm.usub.with.overflow", ovf(L::Instruction::Sub, false)); reg("llvm.umul.with.overflow", ovf(L::Instruction::Mul, false));
    reg("llvm.sadd.with.overflow", ovf(L::Instruction::Add, true)); reg("llvm.ssub.with.overflow", ovf(L::Instruction::Sub, true)); reg("llvm.smul.with.overflow", ovf(L::Instruction::Mul, true));
    reg("llvm.usub.sat", [this](DI& d, Args& a, Value& r) { Value c = icmp(L::CmpInst::ICMP_ULT, a[0], a[1], d.w); r = (c.e ? decide(boolE(c)) : (c.c & 1)) ? Value((uint64_t)0) : binop(L::Instruction::Sub, a[0], a[1], d.w); });
    reg("llvm.uadd.sat", [this](DI& d, Args& a, Value& r) {
      Poly z = ExprPool::addP(uP(a[0], d.w), uP(a[1], d.w), Q(1));
      E gt = X.cmp0(ExprPool::addP(ExprPool::constPoly(pow2(d.w) - 1), z, Q(-1)), Sort::Int, K::Lt0);
      r = decide(gt) ? Value(maskw(~0ull, d.w)) : ival(z, d.w);
    });
    reg("llvm.expect", [](DI&, Args& a, Value& r) { r = a[0]; });
    reg("llvm.is.constant", [](DI&, Args&, Value& r) { r = (uint64_t)0; });
    reg("llvm.objectsize", [](DI&, Args&, Value& r) { r = ~0ull; });
    reg("llvm.ctlz", [this](DI& d, Args& a, Value& r) { uint64_t v = concretize(a[0], d.w); r = v ? (uint64_t)(__builtin_clzll(v) - (64 - d.w)) : (uint64_t)d.w; });
    reg("llvm.cttz", [this](DI& d, Args& a, Value& r) { uint64_t v = concretize(a[0], d.w); r = v ? (uint64_t)__builtin_ctzll(v) : (uint64_t)d.w; });
    reg("llvm.ctpop", [this](DI& d, Args& a, Value& r) { r = (uint64_t)__builtin_popcountll(concretize(a[0], d.w)); });
    reg("llvm.bswap", [this](DI& d, Args& a, Value& r) { r = __builtin_bswap64(concretize(a[0], d.w)) >> (64 - d.w); });
    reg("llvm.fshl", [this](DI& d, Args& a, Value& r) { uint64_t x = concretize(a[0], d.w), y = concretize(a[1], d.w), s = concretize(a[2], d.w) % d.w; r = s ? maskw((x << s) | (y >> (d.w - s)), d.w) : x; });
    reg("llvm.fshr", [this](DI& d, Args& a, Value& r) { uint64_t x = concretize(a[0], d.w), y = concretize(a[1], d.w), s = concretize(a[2], d.w) % d.w; r = s ? maskw((x << (d.w - s)) | (y >> s), d.w) : y; });
    reg("llvm.stacksave", [](DI&, Args&, Value& r) { r = (uint64_t)0; });
    reg("llvm.stackrestore", [](DI&, Args&, Value&) {});
    reg("llvm.threadlocal.address", [](DI&, Args& a, Value& r) { r = a[0]; });
    reg("llvm.launder.invariant.group", [](DI&, Args& a, Value& r) { r = a[0]; });
  }
