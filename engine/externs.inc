  // ------------------------------------------------------------ external functions (inside struct Engine)
  typedef void (Engine::*Ext)(State &, const Ins &, std::vector<Val> &, Val &);
  std::vector<std::pair<std::string, Ext>> extTable;
  std::vector<std::pair<std::string, Ext>> extPrefix;
  std::map<std::string, int> extIdx;
  bool isOverride(const std::string &) { return false; }
  int extIndex(const std::string &n) {
    auto it = extIdx.find(n);
    if (it != extIdx.end()) return it->second;
    for (auto &p : extPrefix) if (n.compare(0, p.first.size(), p.first) == 0) { extTable.push_back({n, p.second}); return extIdx[n] = extTable.size() - 1; }
    return -1;
  }
  void ext(const char *n, Ext e) { extTable.push_back({n, e}); extIdx[n] = extTable.size() - 1; }
  void initExt() {
    for (const char *n : {"_Znwm", "_Znam", "malloc"}) ext(n, &Engine::xMalloc);
    for (const char *n : {"_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) ext(n, &Engine::xMalloc);
    ext("calloc", &Engine::xCalloc); for (const char *n : {"_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) ext(n, &Engine::xMalloc);
    ext("_ZdlPvRKSt9nothrow_t", &Engine::xFree); ext("_ZdaPvRKSt9nothrow_t", &Engine::xFree);
    ext("__cxa_allocate_exception", &Engine::xExAlloc); ext("__cxa_free_exception", &Engine::xNop); ext("__cxa_throw", &Engine::xExThrow); ext("__cxa_rethrow", &Engine::xExRethrow);
    ext("__cxa_begin_catch", &Engine::xExBegin); ext("__cxa_end_catch", &Engine::xExEnd); extPrefix.push_back({"llvm.eh.typeid.for", &Engine::xExTypeid});
    for (const char *n : {"_ZNSt9exceptionD", "_ZNSt11logic_error", "_ZNSt13runtime_error", "_ZNSt12out_of_range", "_ZNSt16invalid_argument", "_ZNSt12length_error", "_ZNSt12domain_error", "_ZNSt11range_error", "_ZNSt14overflow_error", "_ZNSt15underflow_error"}) extPrefix.push_back({n, &Engine::xArg0});
    for (const char *n : {"pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "pthread_self"}) ext(n, &Engine::xZero);
    for (const char *n : {"fmod", "fmodf", "fmodl", "remainder", "atan2", "ldexp", "ldexpf", "ldexpl", "scalbn", "llvm.ldexp.f64.i32", "cbrt", "tanh", "sin", "cos", "tan", "atan", "sinh", "cosh", "expm1", "rint", "nearbyint", "logb", "tgamma", "lgamma", "erf"}) ext(n, &Engine::xConcM);
    for (const char *n : {"lround", "lroundf", "lroundl", "llround", "llroundf", "llroundl"}) ext(n, &Engine::xLround);
    extPrefix.push_back({"llvm.rint.", &Engine::xConcM}); extPrefix.push_back({"llvm.nearbyint.", &Engine::xConcM}); extPrefix.push_back({"llvm.exp.", &Engine::xConc1}); extPrefix.push_back({"llvm.exp2.", &Engine::xConc1});
    for (const char *n : {"_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}) ext(n, &Engine::xFree);
    for (const char *n : {"memcpy", "memmove"}) ext(n, &Engine::xMemcpy);
    extPrefix.push_back({"llvm.memcpy", &Engine::xMemcpy}); extPrefix.push_back({"llvm.memmove", &Engine::xMemcpy});
    ext("memset", &Engine::xMemset); extPrefix.push_back({"llvm.memset", &Engine::xMemset});
    ext("memcmp", &Engine::xMemcmp); ext("bcmp", &Engine::xMemcmp); ext("strlen", &Engine::xStrlen); ext("memchr", &Engine::xMemchr); ext("__dynamic_cast", &Engine::xDynCast);
    for (const char *n : {"llvm.lifetime", "llvm.assume", "llvm.experimental.noalias", "llvm.dbg", "llvm.donothing", "llvm.prefetch", "llvm.invariant", "llvm.var.annotation"}) extPrefix.push_back({n, &Engine::xNop});
    for (const char *n : {"__cxa_atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "puts", "printf", "putchar", "fprintf", "fflush", "fwrite", "fputs", "__cxa_guard_release", "atexit"}) ext(n, &Engine::xZero);
    for (const char *n : {"_ZStls", "_ZNSo", "_ZSt16__ostream_insert", "_ZSt4endl", "_ZSt5flush"}) extPrefix.push_back({n, &Engine::xArg0});
    ext("__cxa_guard_acquire", &Engine::xGuard);
    for (const char *n : {"llvm.trap", "abort", "exit", "_ZSt9terminatev", "__cxa_pure_virtual", "__cxa_bad_cast", "_ZSt21__glibcxx_assert_failPKciS0_S0_", "__assert_fail", "_Unwind_Resume", "__cxa_call_unexpected", "__cxa_throw_bad_array_new_length"}) ext(n, &Engine::xAbort);
    extPrefix.push_back({"_ZSt", &Engine::xThrow});
    for (const char *n : {"log", "logl", "logf", "log2", "log2l", "log2f", "log10", "log10l", "log10f", "log1p", "log1pl", "log1pf"}) ext(n, &Engine::xLog);
    for (const char *n : {"llvm.log.", "llvm.log2.", "llvm.log10."}) extPrefix.push_back({n, &Engine::xLog});
    for (const char *n : {"fabs", "fabsl", "fabsf"}) ext(n, &Engine::xFabs); extPrefix.push_back({"llvm.fabs.", &Engine::xFabs});
    for (const char *n : {"fmax", "fmaxl", "fmaxf"}) ext(n, &Engine::xFmax); extPrefix.push_back({"llvm.maxnum.", &Engine::xFmax}); extPrefix.push_back({"llvm.maximum.", &Engine::xFmax});
    for (const char *n : {"fmin", "fminl", "fminf"}) ext(n, &Engine::xFmin); extPrefix.push_back({"llvm.minnum.", &Engine::xFmin}); extPrefix.push_back({"llvm.minimum.", &Engine::xFmin});
    for (const char *n : {"sqrt", "sqrtl", "sqrtf"}) ext(n, &Engine::xSqrt); extPrefix.push_back({"llvm.sqrt.", &Engine::xSqrt});
    for (const char *n : {"pow", "powl", "powf"}) ext(n, &Engine::xPow); extPrefix.push_back({"llvm.pow.", &Engine::xPow}); extPrefix.push_back({"llvm.powi.", &Engine::xPow});
    for (const char *n : {"exp", "expl", "expf", "exp2", "exp2l", "exp2f"}) ext(n, &Engine::xConc1);
    for (const char *n : {"hypot", "hypotl", "hypotf"}) ext(n, &Engine::xHypot);
    for (const char *n : {"floor", "floorl", "floorf", "ceil", "ceill", "ceilf", "trunc", "truncl", "truncf", "round", "roundl", "roundf"}) ext(n, &Engine::xFloor);
    for (const char *n : {"llvm.floor.", "llvm.ceil.", "llvm.trunc.", "llvm.round."}) extPrefix.push_back({n, &Engine::xFloor});
    extPrefix.push_back({"llvm.fmuladd.", &Engine::xFma}); extPrefix.push_back({"llvm.fma.", &Engine::xFma}); ext("fma", &Engine::xFma); ext("fmal", &Engine::xFma); ext("fmaf", &Engine::xFma);
    extPrefix.push_back({"llvm.is.fpclass", &Engine::xFpclass}); extPrefix.push_back({"llvm.copysign.", &Engine::xCopysign});
    ext("nextafterf", &Engine::xNext); ext("nextafter", &Engine::xNext);
    for (const char *n : {"llvm.umax.", "llvm.umin.", "llvm.smax.", "llvm.smin."}) extPrefix.push_back({n, &Engine::xIntMM});
    extPrefix.push_back({"llvm.abs.", &Engine::xIntAbs}); ext("abs", &Engine::xIntAbs); ext("labs", &Engine::xIntAbs);
    for (const char *n : {"llvm.uadd.with.overflow", "llvm.usub.with.overflow", "llvm.umul.with.overflow", "llvm.sadd.with.overflow", "llvm.ssub.with.overflow", "llvm.smul.with.overflow"}) extPrefix.push_back({n, &Engine::xOvf});
    for (const char *n : {"llvm.ctlz.", "llvm.cttz.", "llvm.ctpop.", "llvm.bswap.", "llvm.fshl.", "llvm.fshr.", "llvm.usub.sat.", "llvm.uadd.sat."}) extPrefix.push_back({n, &Engine::xBits});
    extPrefix.push_back({"llvm.expect", &Engine::xArg0}); extPrefix.push_back({"llvm.launder", &Engine::xArg0}); extPrefix.push_back({"llvm.strip.invariant", &Engine::xArg0});
    extPrefix.push_back({"llvm.is.constant", &Engine::xZero}); extPrefix.push_back({"llvm.threadlocal.address", &Engine::xArg0}); extPrefix.push_back({"llvm.objectsize", &Engine::xMinus1});
    ext("llvm.stacksave.p0", &Engine::xZero); ext("llvm.stackrestore.p0", &Engine::xNop); ext("llvm.stacksave", &Engine::xZero); ext("llvm.stackrestore", &Engine::xNop);
    // harness interface
    ext("sym_real", &Engine::hReal); ext("sym_float", &Engine::hFloat); ext("sym_ld", &Engine::hLd); ext("sym_int", &Engine::hInt); ext("sym_bool", &Engine::hBool);
    ext("sym_assume", &Engine::hAssume); ext("sym_assert", &Engine::hAssert); ext("sym_close", &Engine::hClose); ext("sym_ge", &Engine::hGe); ext("sym_closet", &Engine::hCloseT); ext("sym_get", &Engine::hGeT); ext("sym_live", &Engine::hLive);
    ext("sym_param", &Engine::hParam); ext("sym_paramf", &Engine::hParamF); ext("sym_out", &Engine::hOut); ext("sym_outf", &Engine::hOutF); ext("sym_symbolic", &Engine::xOne); ext("sym_fix", &Engine::hFix);
    ext("sym_nan", &Engine::hNan);
  }
  void xExAlloc(State &s, const Ins &, std::vector<Val> &a, Val &r) { r = VI((u64)newObj(s, concretize(s, a[0], 64), 3) << 32); }
  void xExThrow(State &s, const Ins &, std::vector<Val> &a, Val &) {
    s.exPtr = concretize(s, a[0], 64); s.exTi = concretize(s, a[1], 64); const GlobalVariable *g = gvAt(s.exTi);
    s.exWhat = g ? g->getName().str() : "?"; if (s.exWhat.compare(0, 4, "_ZTI") == 0) s.exWhat = s.exWhat.substr(4); s.unwinding = true;
  }
  std::map<u64, std::string> exName;
  void xExBegin(State &s, const Ins &, std::vector<Val> &a, Val &r) { u64 p = concretize(s, a[0], 64); exName[p] = s.exWhat; s.caught.push_back({p, s.exTi}); r = VI(p); }
  void xExEnd(State &s, const Ins &, std::vector<Val> &, Val &) { if (!s.caught.empty()) s.caught.pop_back(); }
  void xExRethrow(State &s, const Ins &, std::vector<Val> &, Val &) { if (s.caught.empty()) throw Fault{"abort", "rethrow without exception", false}; s.exPtr = s.caught.back().first; s.exTi = s.caught.back().second; s.exWhat = exName[s.exPtr]; s.unwinding = true; }
  void xExTypeid(State &s, const Ins &, std::vector<Val> &a, Val &r) { r = VI(exTypeId(concretize(s, a[0], 64)) & 0xffffffffu); }
  void xConcM(State &s, const Ins &x, std::vector<Val> &a, Val &r) {
    std::string n = x.callee->name; double v[2] = {0, 0};
    for (size_t k = 0; k < a.size() && k < 2; k++) { if (a[k].k == Val::F) v[k] = a[k].f; else if (a[k].k == Val::I) v[k] = (int)a[k].i; else throw PathEnd{n + " of symbolic real"}; }
    auto is = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
    double q = is("fmod") ? fmod(v[0], v[1]) : is("remainder") ? remainder(v[0], v[1]) : is("atan2") ? atan2(v[0], v[1]) : is("ldexp") || is("scalbn") || is("llvm.ldexp") ? ldexp(v[0], (int)v[1]) : is("cbrt") ? cbrt(v[0]) : is("tanh") ? tanh(v[0]) : is("sinh") ? sinh(v[0]) : is("cosh") ? cosh(v[0]) : is("sin") ? sin(v[0]) : is("cos") ? cos(v[0]) : is("tan") ? tan(v[0]) : is("atan") ? atan(v[0]) : is("expm1") ? expm1(v[0]) : is("logb") ? logb(v[0]) : is("tgamma") ? tgamma(v[0]) : is("lgamma") ? lgamma(v[0]) : is("erf") ? erf(v[0]) : rint(v[0]);
    r = VF(roundTo(q, x.fpk));
  }
  int64_t roundSym(State &s, const Val &v) { // half away from zero
    bool neg = !decide(s, cmp0(v.p, 1));
    const Poly *p = P.add(neg ? P.scale(v.p, -1) : v.p, P.constant(Rat(1, 2))); Val w = fromPoly(p);
    int64_t t = truncSym(s, w); return neg ? -t : t;
  }
  void xLround(State &s, const Ins &x, std::vector<Val> &a, Val &r) { Val v = FV(a[0]); r = VI((u64)(v.k == Val::F ? (int64_t)llroundl(v.f) : roundSym(s, v))); }
  void xUnsup(State &, const Ins &x, std::vector<Val> &, Val &) { throw PathEnd{"unmodelled external"}; }
  void xNop(State &, const Ins &, std::vector<Val> &, Val &) {}
  void xZero(State &, const Ins &, std::vector<Val> &, Val &r) { r = VI(0); }
  void xOne(State &, const Ins &, std::vector<Val> &, Val &r) { r = VI(1); }
  void xMinus1(State &, const Ins &x, std::vector<Val> &, Val &r) { r = VI(maskw(x.w)); }
  void xArg0(State &, const Ins &, std::vector<Val> &a, Val &r) { r = a.empty() ? VI(0) : a[0]; }
  void xMalloc(State &s, const Ins &, std::vector<Val> &a, Val &r) { u64 n = concretize(s, a[0], 64); s.live++; r = VI((u64)newObj(s, n, 1) << 32); }
  void xCalloc(State &s, const Ins &, std::vector<Val> &a, Val &r) { u64 n = concretize(s, a[0], 64) * concretize(s, a[1], 64); s.live++; r = VI((u64)newObj(s, n, 1, true) << 32); }
  void xFree(State &s, const Ins &, std::vector<Val> &a, Val &) {
    u64 p = concretize(s, a[0], 64); if (!p) return;
    Obj *o = getR(s, p >> 32);
    if (!o || (u32)p) throw Fault{"memory", "free of an invalid pointer", false};
    if (!o->alive) throw Fault{"memory", "double free", false};
    if (o->kind != 1) throw Fault{"memory", "free of a non-heap object", false};
    s.live--; if (reuse()) s.freed[cls(o->size)].push_back(p >> 32); killObj(s, p >> 32);
  }
  void hLive(State &s, const Ins &, std::vector<Val> &, Val &r) { r = VI((u64)(u32)s.live); }
  void xMemcpy(State &s, const Ins &, std::vector<Val> &a, Val &r) { u64 n = concretize(s, a[2], 64), d = concretize(s, a[0], 64), q = concretize(s, a[1], 64); memcopy(s, d, q, n); r = VI(d); }
  void xMemset(State &s, const Ins &, std::vector<Val> &a, Val &r) {
    u64 n = concretize(s, a[2], 64), d = concretize(s, a[0], 64), v = concretize(s, a[1], 8); r = VI(d); if (!n) return;
    Obj *o = access(s, d, n, true); u32 off = (u32)d; if (!o->sym.empty()) clearCells(o, off, n);
    memset(&o->b[off], (int)v, n); memset(&o->init[off], 1, n);
  }
  void xMemcmp(State &s, const Ins &, std::vector<Val> &a, Val &r) {
    u64 n = concretize(s, a[2], 64), p = concretize(s, a[0], 64), q = concretize(s, a[1], 64);
    for (u64 k = 0; k < n; k++) { u64 x = concretize(s, load(s, p + k, 1, 8, 0), 8), y = concretize(s, load(s, q + k, 1, 8, 0), 8); if (x != y) { r = VI((u64)(x < y ? -1 : 1) & 0xffffffffu); return; } }
    r = VI(0);
  }
  void xMemchr(State &s, const Ins &, std::vector<Val> &a, Val &r) {
    u64 p = concretize(s, a[0], 64), c = concretize(s, a[1], 32) & 255, n = concretize(s, a[2], 64);
    for (u64 k = 0; k < n; k++) if ((concretize(s, load(s, p + k, 1, 8, 0), 8) & 255) == c) { r = VI(p + k); return; }
    r = VI(0);
  }
  void xDynCast(State &s, const Ins &, std::vector<Val> &a, Val &r) { // single inheritance without offsets
    u64 p = concretize(s, a[0], 64), dst = concretize(s, a[2], 64); r = VI(0); if (!p) return;
    u64 vt = concretize(s, load(s, p, 8, 64, 0), 64), top = concretize(s, load(s, vt - 16, 8, 64, 0), 64), ti = concretize(s, load(s, vt - 8, 8, 64, 0), 64);
    if (top) throw PathEnd{"dynamic_cast of a base subobject"};
    while (ti != dst) {
      const GlobalVariable *g = gvAt(ti); const ConstantStruct *cs = g && g->hasInitializer() ? dyn_cast<ConstantStruct>(g->getInitializer()) : nullptr;
      if (!cs || cs->getNumOperands() < 3) return; if (cs->getNumOperands() > 3) throw PathEnd{"dynamic_cast with several bases"};
      ti = constVal(cs->getOperand(2)).i;
    }
    r = VI(p);
  }
  std::string cstr(State &s, u64 p) { std::string t; for (;;) { Val v = load(s, p++, 1, 8, 0); if (v.k != Val::I || !v.i) break; t += (char)v.i; } return t; }
  void xStrlen(State &s, const Ins &, std::vector<Val> &a, Val &r) { r = VI(cstr(s, concretize(s, a[0], 64)).size()); }
  void xGuard(State &s, const Ins &, std::vector<Val> &a, Val &r) { u64 p = concretize(s, a[0], 64); Val v = load(s, p, 1, 8, 0); if (v.k == Val::I && v.i) { r = VI(0); return; } store(s, p, VI(1), 1, 0); r = VI(1); }
  void xAbort(State &s, const Ins &x, std::vector<Val> &a, Val &) {
    std::string w = x.callee ? x.callee->name : "abort";
    if (w.find("glibcxx_assert") != std::string::npos && a.size() > 3 && a[3].k == Val::I) w = "library assertion failed: " + cstr(s, a[3].i);
    throw Fault{"abort", w, false};
  }
  void xThrow(State &s, const Ins &x, std::vector<Val> &, Val &) {
    std::string n = x.callee ? x.callee->name : "";
    size_t k = n.find("__throw_");
    if (k != std::string::npos) { // std::__throw_out_of_range(...): an exception of that type
      std::string t = n.substr(k + 8); for (const char *e : {"PKcz", "PKc", "v"}) { size_t l = strlen(e); if (t.size() > l && t.compare(t.size() - l, l, e) == 0) { t = t.substr(0, t.size() - l); break; } }
      if (t.size() > 4 && t.compare(t.size() - 4, 4, "_fmt") == 0) t = t.substr(0, t.size() - 4);
      s.exPtr = (u64)newObj(s, 16, 3, true) << 32; s.exTi = 0; s.exWhat = "St" + std::to_string(t.size()) + t; s.unwinding = true; return;
    }
    throw PathEnd{"unmodelled external function " + n};
  }
  int kindOf(const Ins &x) { return x.fpk; }
  Val FV(const Val &v) { return v.k == Val::UND ? undefReal() : v; }
  void xLog(State &s, const Ins &x, std::vector<Val> &a, Val &r) {
    std::string n = x.callee->name; Val v = FV(a[0]);
    int base = n.find("log2") != std::string::npos ? 2 : n.find("log10") != std::string::npos ? 10 : 0;
    if (n.find("log1p") != std::string::npos) { if (v.k == Val::F) { r = VF(roundTo(log1pl(v.f), x.fpk)); return; } v = fromPoly(P.add(v.p, P.constant(1))); }
    r = logOf(s, v, x.fpk, base);
  }
  void xFabs(State &s, const Ins &, std::vector<Val> &a, Val &r) { Val v = FV(a[0]); if (v.k == Val::F) { r = VF(fabsl(v.f)); return; } if (decide(s, cmp0(v.p, 1))) r = v; else r = fromPoly(P.scale(v.p, -1)); }
  void mm(State &s, std::vector<Val> &a, Val &r, bool mx) {
    Val x = FV(a[0]), y = FV(a[1]);
    if (x.k == Val::F && std::isnan(x.f)) { r = y; return; } if (y.k == Val::F && std::isnan(y.f)) { r = x; return; }
    Val c = fcmp(CmpInst::FCMP_OGE, x, y); bool ge = c.k == Val::I ? c.i : decide(s, c.s->e); r = ge == mx ? x : y;
  }
  void xFmax(State &s, const Ins &, std::vector<Val> &a, Val &r) { mm(s, a, r, true); }
  void xFmin(State &s, const Ins &, std::vector<Val> &a, Val &r) { mm(s, a, r, false); }
  void xSqrt(State &s, const Ins &x, std::vector<Val> &a, Val &r) {
    Val v = FV(a[0]); if (v.k == Val::F) { r = VF(x.fpk == 1 ? (long double)sqrtf(v.f) : x.fpk == 2 ? (long double)sqrt((double)v.f) : sqrtl(v.f)); return; }
    if (!decide(s, cmp0(v.p, 1))) { r = VF(NAN); return; }
    const Poly *q = P.fun(A_SQRT, v.p); Atom *at = P.atoms[P.monos[q->t[0].first]->f[0].first]; at->hasLo = true; at->lo = 0;
    addPC(s, low(P.mul(q, q)) == low(v.p)); r = VSR(q);
  }
  void xPow(State &s, const Ins &x, std::vector<Val> &a, Val &r) {
    Val v = FV(a[0]), e = a[1];
    if (v.k == Val::F && e.k == Val::F) { r = VF(x.fpk == 1 ? (long double)powf(v.f, e.f) : x.fpk == 2 ? (long double)pow((double)v.f, (double)e.f) : powl(v.f, e.f)); return; }
    int n = 0; if (e.k == Val::F && e.f == (int)e.f && fabsl(e.f) <= 8) n = (int)e.f; else if (e.k == Val::I) n = (int)sext(e.i, 32); else throw PathEnd{"pow of symbolic real"};
    Val p = VF(1); for (int k = 0; k < std::abs(n); k++) p = fbin(s, Instruction::FMul, x.fpk, p, v);
    if (n < 0) p = fbin(s, Instruction::FDiv, x.fpk, VF(1), p); r = p;
  }
  void xHypot(State &s, const Ins &x, std::vector<Val> &a, Val &r) {
    Val p = fbin(s, Instruction::FMul, x.fpk, FV(a[0]), FV(a[0])), q = fbin(s, Instruction::FMul, x.fpk, FV(a[1]), FV(a[1]));
    std::vector<Val> b{fbin(s, Instruction::FAdd, x.fpk, p, q)}; xSqrt(s, x, b, r);
  }
  void xConc1(State &s, const Ins &x, std::vector<Val> &a, Val &r) { Val v = FV(a[0]); if (v.k != Val::F) throw PathEnd{"exp of symbolic real"}; bool two = x.callee->name.find("exp2") == 0; r = VF(roundTo(two ? exp2l(v.f) : expl(v.f), x.fpk)); }
  void xFloor(State &s, const Ins &x, std::vector<Val> &a, Val &r) {
    std::string n = x.callee->name; Val v = FV(a[0]);
    bool fl = n.find("floor") != std::string::npos, ce = n.find("ceil") != std::string::npos, ro = n.find("round") != std::string::npos;
    if (v.k == Val::F) { r = VF(fl ? floorl(v.f) : ce ? ceill(v.f) : ro ? roundl(v.f) : truncl(v.f)); return; }
    if (ro) { r = VF(roundSym(s, v)); return; }
    int64_t t = truncSym(s, v);
    if (fl) { if (decide(s, mkNot(cmp0(P.sub(v.p, P.constant(t)), 1)))) t--; }
    if (ce) { if (decide(s, cmp0(P.sub(v.p, P.constant(t)), 0))) t++; }
    r = VF(t);
  }
  void xFma(State &s, const Ins &x, std::vector<Val> &a, Val &r) { Val p = fbin(s, Instruction::FMul, x.fpk, FV(a[0]), FV(a[1])); r = fbin(s, Instruction::FAdd, x.fpk, p, FV(a[2])); }
  void xCopysign(State &s, const Ins &, std::vector<Val> &a, Val &r) { if (a[0].k == Val::F && a[1].k == Val::F) r = VF(copysignl(a[0].f, a[1].f)); else throw PathEnd{"copysign"}; }
  void xNext(State &s, const Ins &x, std::vector<Val> &a, Val &r) { if (a[0].k == Val::F && a[1].k == Val::F) r = VF(x.fpk == 1 ? (long double)nextafterf(a[0].f, a[1].f) : (long double)nextafter((double)a[0].f, (double)a[1].f)); else throw PathEnd{"nextafter of a symbolic real"}; }
  void xFpclass(State &s, const Ins &x, std::vector<Val> &a, Val &r) {
    unsigned m = a[1].i; Val v = FV(a[0]);
    if (v.k == Val::F) {
      long double f = v.f; unsigned b = std::isnan(f) ? 3 : std::isinf(f) ? (f < 0 ? 4 : 512) : f == 0 ? (std::signbit(f) ? 32 : 64) : (f < 0 ? 8 : 256);
      r = VI((m & b) != 0); return;
    }
    unsigned fin = m & 0x1f8;
    if (fin == 0x1f8) { r = VI(1); return; } if (fin == 0) { r = VI(0); return; }
    E e = z.bool_val(false);
    if (m & 8) e = mkOr(e, mkNot(cmp0(v.p, 1))); if (m & 0x60) e = mkOr(e, cmp0(v.p, 2)); if (m & 256) e = mkOr(e, cmp0(v.p, 0));
    r = vbool(e);
  }
  void xIntMM(State &s, const Ins &x, std::vector<Val> &a, Val &r) {
    std::string n = x.callee->name; bool mx = n.find("max") != std::string::npos, un = n[5] == 'u';
    Val c = icmp(s, un ? CmpInst::ICMP_UGE : CmpInst::ICMP_SGE, x.w, a[0], a[1]);
    if (c.k == Val::I) { r = (c.i != 0) == mx ? a[0] : a[1]; return; }
    r = vbv(mx ? z3::ite(boolOf(c), bvOf(a[0], x.w), bvOf(a[1], x.w)) : z3::ite(boolOf(c), bvOf(a[1], x.w), bvOf(a[0], x.w)), x.w);
  }
  void xIntAbs(State &s, const Ins &x, std::vector<Val> &a, Val &r) {
    Val c = icmp(s, CmpInst::ICMP_SGE, x.w, a[0], VI(0)); Val n = ibin(s, Instruction::Sub, x.w, VI(0), a[0]);
    if (c.k == Val::I) { r = c.i ? a[0] : n; return; } r = vbv(z3::ite(boolOf(c), bvOf(a[0], x.w), bvOf(n, x.w)), x.w);
  }
  void xOvf(State &s, const Ins &x, std::vector<Val> &a, Val &r) {
    std::string n = x.callee->name; unsigned w = x.idx[0]; r.k = Val::AGG; r.g = new Agg;
    u64 p = concretize(s, a[0], w) & maskw(w), q = concretize(s, a[1], w) & maskw(w); bool sg = n[5] == 's';
    __int128 A = sg ? (__int128)sext(p, w) : (__int128)p, B = sg ? (__int128)sext(q, w) : (__int128)q;
    __int128 R = n.find("add") != std::string::npos ? A + B : n.find("sub") != std::string::npos ? A - B : A * B;
    u64 lo = (u64)R & maskw(w); bool ov = sg ? R != (__int128)sext(lo, w) : (R < 0 || R != (__int128)lo);
    r.g->v = {VI(lo), VI(ov)};
  }
  void xBits(State &s, const Ins &x, std::vector<Val> &a, Val &r) {
    std::string n = x.callee->name; unsigned w = x.w; u64 p = concretize(s, a[0], w) & maskw(w);
    if (n.find("ctlz") != std::string::npos) { unsigned c = 0; for (int k = w - 1; k >= 0 && !((p >> k) & 1); k--) c++; r = VI(c); }
    else if (n.find("cttz") != std::string::npos) { unsigned c = 0; while (c < w && !((p >> c) & 1)) c++; r = VI(c); }
    else if (n.find("ctpop") != std::string::npos) r = VI(__builtin_popcountll(p));
    else if (n.find("usub.sat") != std::string::npos) { u64 q = concretize(s, a[1], w) & maskw(w); r = VI(p > q ? p - q : 0); }
    else if (n.find("uadd.sat") != std::string::npos) { u64 q = concretize(s, a[1], w) & maskw(w); u64 t = (p + q) & maskw(w); r = VI(t < p ? maskw(w) : t); }
    else if (n.find("fsh") != std::string::npos) { u64 q = concretize(s, a[1], w) & maskw(w), c = (concretize(s, a[2], w) & maskw(w)) % w; bool l = n.find("fshl") != std::string::npos; if (!c) r = VI(l ? p : q); else r = VI((l ? (p << c) | (q >> (w - c)) : (p << (w - c)) | (q >> c)) & maskw(w)); }
    else throw PathEnd{"unmodelled external function " + n};
  }
  // ---- harness interface
  std::string inName(State &s, std::vector<Val> &a) { return cstr(s, concretize(s, a[0], 64)) + "_" + std::to_string((int)sext(concretize(s, a[1], 32), 32)); }
  int getInput(const std::string &n, int kind) {
    auto it = inputIdx.find(n); if (it != inputIdx.end()) return it->second;
    Input i; i.name = n; i.kind = kind; inputs.push_back(i); return inputIdx[n] = inputs.size() - 1;
  }
  void realInput(State &s, std::vector<Val> &a, Val &r, int kind) {
    std::string n = inName(s, a); Rat lo = ratOf(a[2].f), hi = ratOf(a[3].f);
    if (fixedMode) { auto f = fixed.find(n); long double x = f == fixed.end() ? a[2].f : strtold(f->second.c_str(), 0); r = VF(kind == 1 ? (long double)(float)x : x); return; }
    if (lo == hi) { r = VF(a[2].f); return; }
    int k = getInput(n, kind); Input &i = inputs[k];
    if (i.atom < 0) { Atom *t = P.newAtom(A_INPUT, n); t->hasLo = t->hasHi = true; t->lo = lo; t->hi = hi; t->isFloat = kind == 1; i.atom = t->id; i.lo = lo; i.hi = hi; }
    r = VSR(P.atomPoly(i.atom));
  }
  void hReal(State &s, const Ins &, std::vector<Val> &a, Val &r) { realInput(s, a, r, 0); }
  void hFloat(State &s, const Ins &, std::vector<Val> &a, Val &r) { realInput(s, a, r, 1); }
  void hLd(State &s, const Ins &, std::vector<Val> &a, Val &r) { realInput(s, a, r, 2); }
  void hInt(State &s, const Ins &, std::vector<Val> &a, Val &r) {
    std::string n = inName(s, a); int64_t lo = sext(a[2].i, 32), hi = sext(a[3].i, 32);
    if (fixedMode) { auto f = fixed.find(n); r = VI((u64)(f == fixed.end() ? lo : atoll(f->second.c_str())) & 0xffffffffu); return; }
    if (lo == hi) { r = VI(lo & 0xffffffffu); return; }
    int k = getInput(n, 3); Input &i = inputs[k];
    if (i.var < 0) { i.ilo = lo; i.ihi = hi; i.var = newIVar(n, 32, lo, hi, false, k); }
    Val v; v.k = Val::SB; v.s = mk(ivars[i.var].e, 32, false); r = norm(s, v);
  }
  void hBool(State &s, const Ins &x, std::vector<Val> &a, Val &r) {
    std::vector<Val> b{a[0], a[1], VI(0), VI(1)}; Val v; hInt(s, x, b, v);
    if (v.k == Val::I) r = VI(v.i & 1); else r = vbool(v.s->e == z.bv_val(1, 32));
  }
  void hNan(State &, const Ins &, std::vector<Val> &, Val &r) { r = VF(NAN); }
  void hAssume(State &s, const Ins &, std::vector<Val> &a, Val &) {
    Val v = norm(s, a[0]);
    if (v.k == Val::UND) throw Fault{"uninitialised", "assumption on an undefined value", true};
    if (v.k == Val::I) { if (!(v.i & 1)) throw PathEnd{"infeasible"}; return; }
    E e = boolOf(v); ModelRef m; bool known;
    if (evalModel(s.model, e, known) && known) { addPC(s, e); return; }
    if (query(s.pc, e, useModels ? &m : nullptr) == z3::unsat) throw PathEnd{"infeasible"};
    addPC(s, e); s.model = m;
  }
  void hAssert(State &s, const Ins &, std::vector<Val> &a, Val &) {
    Val v = norm(s, a[0]); std::string id = cstr(s, concretize(s, a[1], 64));
    assertHits[id]++;
    if (v.k == Val::UND) v = undefInt(1);
    if (v.k == Val::I) {
      if (v.i & 1) { nAssertConst++; return; }
      onViolation(s, id, z.bool_val(true), "assertion is false on this path", false);
      throw PathEnd{"infeasible"};
    }
    E e = boolOf(v), ne = mkNot(e);
    sync(s.pc); lpush(); ladd(ne);
    if (logLemmas) addLogLemmas();
    auto r = check();
    lpop();
    if (r == z3::unsat) { nAssertDis++; return; }
    if (r == z3::unknown) { nAssertUnk++; return; }
    onViolation(s, id, ne, "assertion can be false", depsUndef(e));
    ModelRef m; if (query(s.pc, e, useModels ? &m : nullptr) == z3::unsat) throw PathEnd{"infeasible"};
    addPC(s, e); s.model = m;
  }
  // |a-b| <= tol, a >= b - tol ; tiny coefficients (rounding noise of concrete sub-computations) are dropped
  const Poly *dropTiny(const Poly *d, Rat &slack) {
    std::vector<std::pair<int, Rat>> t; bool any = false;
    for (auto &x : d->t) {
      if (x.first) { PolyCtx::Range g = P.monoRange(x.first); if (g.hasLo && g.hasHi) { Rat mx = std::max(Rat(abs(g.lo)), Rat(abs(g.hi))); Rat c = abs(x.second) * mx; if (c < Rat(1, 100000000000L)) { slack += c; any = true; continue; } } }
      t.push_back(x);
    }
    return any ? P.intern(std::move(t)) : d;
  }
  Val closeVal(State &s, const Val &a0, const Val &b0, bool geOnly, Rat tol) {
    Val a = FV(a0), b = FV(b0);
    if (a.k == Val::F && b.k == Val::F) {
      long double t = ldOf(tol) * (1 + fabsl(a.f) + fabsl(b.f));
      if (std::isnan(a.f) || std::isnan(b.f)) return VI(0);
      if (std::isinf(a.f) || std::isinf(b.f)) return VI(geOnly ? a.f >= b.f : a.f == b.f);
      return VI(geOnly ? a.f >= b.f - t : fabsl(a.f - b.f) <= t);
    }
    if (a.k == Val::F && !std::isfinite(a.f)) return VI(geOnly && a.f > 0);
    if (b.k == Val::F && !std::isfinite(b.f)) return VI(geOnly && b.f < 0);
    const Poly *d = substR(s, P.sub(toPoly(a), toPoly(b))); Rat slack = 0;
    const Poly *q = dropTiny(d, slack);
    Rat T = tol;
    E e = cmp0(P.add(q, P.constant(T)), 1);
    if (!geOnly) e = mkAnd(e, cmp0(P.sub(P.constant(T), q), 1));
    if (e.is_true()) { // the difference of the two sides is constant: let the solver confirm it from the unreduced sides
      E x = low(substR(s, toPoly(a))), y = low(substR(s, toPoly(b))), t = P.num(T + slack);
      E ne = geOnly ? y - x > t : (x - y > t || y - x > t);
      sync(s.pc); lpush(); ladd(ne); auto res = check(); lpop();
      if (res == z3::unsat) { nIdent++; return VI(1); }
      nIdentOpen++;
    }
    return vbool(e);
  }
  void hClose(State &s, const Ins &, std::vector<Val> &a, Val &r) { r = closeVal(s, a[0], a[1], false, TOL); }
  void hCloseT(State &s, const Ins &, std::vector<Val> &a, Val &r) { r = closeVal(s, a[0], a[1], false, ratOf(a[2].f)); }
  void hGe(State &s, const Ins &, std::vector<Val> &a, Val &r) { r = closeVal(s, a[0], a[1], true, TOL); }
  void hGeT(State &s, const Ins &, std::vector<Val> &a, Val &r) { r = closeVal(s, a[0], a[1], true, ratOf(a[2].f)); }
  void hParam(State &s, const Ins &, std::vector<Val> &a, Val &r) { std::string n = cstr(s, concretize(s, a[0], 64)); auto it = params.find(n); r = it == params.end() ? a[1] : VI((u64)(int64_t)atoll(it->second.c_str()) & 0xffffffffu); }
  void hParamF(State &s, const Ins &, std::vector<Val> &a, Val &r) { std::string n = cstr(s, concretize(s, a[0], 64)); auto it = params.find(n); r = it == params.end() ? a[1] : VF((double)strtod(it->second.c_str(), 0)); }
  void hOut(State &s, const Ins &, std::vector<Val> &a, Val &) { std::string n = inName(s, a); Val v = norm(s, a[2]); if (v.k == Val::I) { v.i = (u64)sext(v.i & 0xffffffffu, 32); s.outs.push_back({n, v}); } else if (v.k == Val::SB) s.outs.push_back({n, v}); }
  void hOutF(State &s, const Ins &, std::vector<Val> &a, Val &) { std::string n = inName(s, a); s.outs.push_back({n, FV(a[2])}); }
  void hFix(State &s, const Ins &, std::vector<Val> &a, Val &r) { r = VI(concretize(s, a[0], 32)); }
  // lemma instances for logarithms, valid for all positive arguments:
  //   a*(log b - log a - log r) <= b/r - a   and   b>=a>0 => a*(log b - log a) >= 0
  void addLogLemmas() {
    std::vector<int> logs;
    for (size_t d = 1; d < act.size() && d < P.monos.size(); d++) if (act[d] && P.monos[d]->isAtom() && P.atoms[P.monos[d]->f[0].first]->kind == A_LOG) logs.push_back(P.monos[d]->f[0].first);
    // logs occurring inside products
    std::set<int> ls(logs.begin(), logs.end());
    for (size_t d = 1; d < act.size() && d < P.monos.size(); d++) if (act[d]) for (auto &fe : P.monos[d]->f) if (P.atoms[fe.first]->kind == A_LOG) ls.insert(fe.first);
    std::vector<std::pair<const Poly *, const Poly *>> args; // (argument, log)
    for (int l : ls) args.push_back({P.atoms[l]->arg, P.atomPoly(l)});
    for (auto &A : args) for (auto &B : args) {
      if (A.first == B.first) continue;
      const Poly *diff = P.mul(A.first, P.sub(B.second, A.second));
      for (auto &r : logRatios) {
        Rat lr = ratOf(logl(ldOf(r)));
        const Poly *l = P.sub(diff, P.scale(A.first, lr)), *u = P.sub(P.scale(B.first, Rat(1) / r), A.first);
        const Poly *g = P.sub(P.add(u, P.scale(A.first, Rat("1/1000000000000"))), l);
        ladd(cmpRaw(g));
      }
      PolyCtx::Range g = polyRange(P.sub(B.first, A.first));
      if (g.hasLo && g.lo >= 0) ladd(cmpRaw(diff));
    }
  }
  E cmpRaw(const Poly *p) { return low(p) >= 0; }
