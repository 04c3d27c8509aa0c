  // ------------------------------------------------------------ models, replay, reports (inside struct Engine)
  struct Assign { std::map<int, Rat> atom; std::map<int, int64_t> ivar; std::map<std::string, std::string> txt; };
  bool atomValue(int at, std::map<int, Rat> &v, Rat &out) {
    auto it = v.find(at);
    if (it != v.end()) { out = it->second; return true; }
    Atom *a = P.atoms[at];
    if (!a->arg) return false;
    Rat x; if (!polyValue(a->arg, v, x)) return false;
    if (a->kind == A_POLY) out = x;
    else if (a->kind == A_LOG) { if (x <= 0) return false; out = ratOf(logl(ldOf(x))); }
    else if (a->kind == A_SQRT) { if (x < 0) return false; out = ratOf(sqrtl(ldOf(x))); }
    else if (a->kind == A_RND32) out = ratOf((long double)(float)ldOf(x)) - x;
    else if (a->kind == A_RND64) out = ratOf((long double)(double)ldOf(x)) - x;
    else return false;
    v[at] = out; return true;
  }
  bool polyValue(const Poly *p, std::map<int, Rat> &v, Rat &out) {
    out = 0;
    for (auto &t : p->t) {
      Rat m = t.second;
      for (auto &fe : P.monos[t.first]->f) {
        Rat x; if (!atomValue(fe.first, v, x)) return false;
        for (int k = 0; k < std::abs(fe.second); k++) { if (fe.second > 0) m *= x; else { if (x == 0) return false; m /= x; } }
      }
      out += m;
    }
    return true;
  }
  static Rat snap(const Rat &v, int bits) { // round to a multiple of 2^-bits
    mpz_class t = 1; t <<= bits; Rat x = v * Rat(t); mpz_class n = x.get_num(), d = x.get_den(), q;
    mpz_class two_n = 2 * n + d, two_d = 2 * d; mpz_fdiv_q(q.get_mpz_t(), two_n.get_mpz_t(), two_d.get_mpz_t());
    Rat r(q, t); r.canonicalize(); return r;
  }
  // concrete inputs satisfying pc && extra, consistent with the definitions of products and logarithms
  bool solveInputs(PCNode *pc, const E &extra, int attempt, Assign &A) {
    sync(pc); int pushes = 1; lpush(); ladd(extra);
    bool ok = false;
    auto done = [&](bool r) { while (pushes-- > 0) lpop(); return r; };
    if (check() != z3::sat) return done(false);
    // inputs in the active set, those in products first
    std::map<int, int> deg;
    for (size_t d = 1; d < act.size() && d < P.monos.size(); d++) if (act[d]) {
      auto &f = P.monos[d]->f; bool prod = f.size() > 1 || f[0].second != 1;
      for (auto &fe : f) collectInputs(fe.first, deg, prod ? 1 : 0);
    }
    std::vector<std::pair<int, int>> order; for (auto &x : deg) order.push_back({-x.second, x.first});
    std::sort(order.begin(), order.end());
    if (attempt > 0 && attempt % 2 == 0) std::shuffle(order.begin(), order.end(), rng);
    std::vector<int> monos; for (size_t d = 1; d < act.size() && d < P.monos.size(); d++) if (act[d]) monos.push_back(d);
    std::map<int, Rat> val;
    auto addDefs = [&](std::map<int, Rat> &v) {
      for (int d : monos) {
        auto &f = P.monos[d]->f; if (f.size() == 1 && f[0].second == 1 && !P.atoms[f[0].first]->arg) continue;
        Rat c = 1; int open = -1; bool bad = false;
        for (auto &fe : f) {
          Rat x; if (atomValue(fe.first, v, x)) { for (int k = 0; k < std::abs(fe.second); k++) { if (fe.second > 0) c *= x; else if (x != 0) c /= x; else bad = true; } }
          else if (open < 0 && fe.second == 1) open = fe.first; else bad = true;
        }
        if (bad) continue;
        if (open >= 0) { if (f.size() == 1 && f[0].second == 1) continue; int mo = P.getMono({{open, 1}}); if (mo < (int)act.size() && act[mo]) S.add(P.var(d) == P.num(c) * P.var(mo)); }
        else S.add(P.var(d) == P.num(c));
      }
    };
    for (auto &ov : order) {
      int at = ov.second; Atom *a = P.atoms[at]; int mono = P.getMono({{at, 1}});
      E var = P.var(mono); bool in = mono < (int)act.size() && act[mono];
      Rat v;
      if (in) v = numeral(S.get_model().eval(var, true)); else v = a->hasLo ? a->lo : Rat(0);
      std::vector<Rat> cand;
      if (attempt > 0) { std::uniform_int_distribution<int> u(0, 64); if (a->hasLo && a->hasHi) for (int k = 0; k < 2; k++) cand.push_back(snap(a->lo + (a->hi - a->lo) * Rat(u(rng), 64), 6)); }
      for (int b : {0, 2, 4, 10, 20, 40}) if (b <= 20 || !a->isFloat) cand.push_back(snap(v, b)); // 1-p is exact for multiples of 2^-24
      if (!a->isFloat) cand.push_back(ratOf((long double)(double)ldOf(v)));
      if (nRounded && !a->isFloat) for (int k = 0; k < 4; k++) { Rat w = snap(v, 4) + Rat((int)(rng() % 2000001) - 1000000, 1 << 30) * (1 + abs(v)); cand.insert(cand.begin() + (attempt ? 0 : cand.size()), snap(w, k < 3 ? 36 : 50)); }
      bool found = false;
      for (size_t k = 0; k < cand.size() && !found; k++) {
        Rat &c = cand[k]; if (k && c == cand[k - 1]) continue;
        if ((a->hasLo && c < a->lo) || (a->hasHi && c > a->hi)) continue;
        lpush(); pushes++;
        std::map<int, Rat> v2 = val; v2[at] = c; if (in) S.add(var == P.num(c)); addDefs(v2);
        if (check() == z3::sat) { val[at] = c; found = true; } else { lpop(); pushes--; }
      }
      if (!found) return done(false);
    }
    if (check() != z3::sat) return done(false);
    z3::model m = S.get_model();
    A.atom = val;
    for (auto &i : inputs) {
      char buf[64];
      if (i.kind <= 2) {
        auto it = val.find(i.atom); Rat v = it != val.end() ? it->second : (attempt ? snap(i.lo + (i.hi - i.lo) * Rat((int)(rng() % 65), 64), 6) : (i.lo <= 0 && i.hi >= 1 ? Rat(1) : i.lo));
        if (v < i.lo) v = i.lo; if (v > i.hi) v = i.hi;
        A.atom[i.atom] = v; snprintf(buf, sizeof buf, "%La", ldOf(v));
      } else {
        int64_t v = i.ilo;
        if (actI.count(i.var)) { uint64_t n = 0; E x = m.eval(ivars[i.var].e, true); Z3_get_numeral_uint64(z, x, &n); v = sext(n, ivars[i.var].w); }
        A.ivar[i.var] = v; snprintf(buf, sizeof buf, "%lld", (long long)v);
      }
      A.txt[i.name] = buf;
    }
    ok = true;
    return done(ok);
  }
  void collectInputs(int at, std::map<int, int> &deg, int add) {
    Atom *a = P.atoms[at];
    if (a->kind == A_INPUT) { deg[at] += add; return; }
    if (a->kind == A_UNDEF) return;
    if (a->arg) for (auto &t : a->arg->t) for (auto &fe : P.monos[t.first]->f) collectInputs(fe.first, deg, a->kind == A_LOG ? 0 : 1);
  }
  int fileNo = 0;
  std::string writeInput(const Assign &A, const std::string &kind) {
    std::string fn = workDir + "/" + tag + "_" + kind + std::to_string(fileNo++) + ".in";
    std::ofstream o(fn);
    o << "harness " << tag << "\n";
    for (auto &p : params) o << "param " << p.first << " " << p.second << "\n";
    for (auto &t : A.txt) o << "in " << t.first << " " << t.second << "\n";
    return fn;
  }
  // returns 0 ok, 1 assertion failed (id), 2 crash, 3 hang, 4 assumption not met
  int native(const std::string &cmd, const std::string &file, std::string &out, int secs = 10) {
    double t = now();
    std::string c = "ulimit -v 16000000 2>/dev/null; timeout -s KILL " + std::to_string(secs) + " " + cmd + " " + file + " 2>&1";
    if (cmd.find("asan") != std::string::npos) c = "timeout -s KILL " + std::to_string(secs) + " " + cmd + " " + file + " 2>&1";
    FILE *f = popen(c.c_str(), "r"); out.clear(); char b[4096]; size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) if (out.size() < 16000000) out.append(b, n);
    int rc = pclose(f); tReplay += now() - t;
    if (WIFEXITED(rc)) { int e = WEXITSTATUS(rc); if (e == 0) return 0; if (e == 66) return 1; if (e == 67) return 4; if (e == 137 || e == 124) return 3; return 2; }
    return 2;
  }
  int maxConfirmed = 1; bool stopOnConfirm = true;
  void onFault(State &s, Fault &f) {
    std::string where = s.fr.empty() ? "" : demangle(s.fr.back().fn->name);
    onViolation(s, "fault", z.bool_val(true), f.kind + ": " + f.what + " in " + where, f.undef);
  }
  std::string lastLines(const std::string &o) { std::string r = o.size() > 1500 ? o.substr(0, 1500) : o; return r; }
  void onViolation(State &s, const std::string &id, const E &extra, const std::string &what, bool undef) {
    std::string key = id + (id == "fault" ? what : "");
    int &tries = violTries[key];
    if (tries >= 12) return;
    tries++;
    std::string reason = "no consistent concrete inputs found"; std::string file, nat;
    for (int att = 0; att < 4; att++) {
      Assign A;
      if (!solveInputs(s.pc, extra, att, A)) { if (!nRounded || !att) continue; Assign B; if (!solveInputs(s.pc, z.bool_val(true), att, B)) continue; A = B; } // a rounding error on this path: any values with all bits in use
      file = writeInput(A, "viol"); std::string out; reason = "native run did not fail";
      int r = replayCmd.empty() ? 0 : native(replayCmd, file, out);
      nat = r == 1 ? "assertion" : r == 2 ? "crash" : r == 3 ? "hang" : "";
      if (!nat.empty() && r != 4) { report(id, what, file, nat, out); return; }
      if (r == 4) { reason = "assumption not met natively"; continue; }
      if (id == "fault" && !replayAsan.empty()) { r = native(replayAsan, file, out, 30); if (r == 1 || r == 2) { report(id, what, file, "sanitizer", out); return; } }
      if (undef && !replayVg.empty()) { r = native(replayVg, file, out, 60); if (r == 1 || r == 2) { report(id, what, file, "memcheck", out); return; } }
      if (id == "fault" && att >= 1) break;
    }
    viols.push_back(Viol{id, what + " [" + reason + "]", file, "", false});
  }
  void report(const std::string &id, const std::string &what, const std::string &file, const std::string &nat, const std::string &out) {
    viols.push_back(Viol{id, what, file, nat + ": " + lastLines(out), true}); nConfirmed++;
    fprintf(stderr, "[lpsym] confirmed violation %s (%s) %s\n", id.c_str(), what.c_str(), file.c_str());
    if (nConfirmed >= maxConfirmed) throw Stop{};
  }
  std::map<std::string, std::string> parseOuts(const std::string &o) {
    std::map<std::string, std::string> m; std::istringstream is(o); std::string l;
    while (std::getline(is, l)) { std::istringstream ls(l); std::string k, n, v; ls >> k >> n >> v; if (k == "OUT") m[n] = v; }
    return m;
  }
  // the engine cannot follow this path further: run the real code on values that lead here
  int nCut = 0;
  void onIncomplete(State &s, const std::string &why, int n) {
    if (replayCmd.empty() || n >= 4 || nCut >= 24) return;
    nCut++; std::string out;
    for (int att = 0; att < 3; att++) {
      Assign A; if (!solveInputs(s.pc, z.bool_val(true), att, A)) continue;
      std::string file = writeInput(A, "cut"); int r = native(replayCmd, file, out);
      if (r == 1 || r == 2 || r == 3) { report(r == 1 ? "replay" : "fault", "native run of a path the engine could not follow (" + why + ") fails", file, r == 1 ? "assertion" : r == 2 ? "crash" : "hang", out); return; }
      unlink(file.c_str());
    }
  }
  // a complete path: optionally replay it natively and compare what was computed
  void endPath(State &s) {
    nPaths++;
    if (replayCmd.empty() || (int)nTraces >= sampleMax || (nPaths & (nPaths - 1) && nPaths % 97 != 0)) return;
    Assign A;
    if (!solveInputs(s.pc, z.bool_val(true), 0, A) && !solveInputs(s.pc, z.bool_val(true), 1, A)) { nTraceNoModel++; return; }
    std::string file = writeInput(A, "trace"), out;
    int r = native(replayCmd, file, out);
    nTraces++;
    if (r == 1 || r == 2 || r == 3) { // the real code fails on inputs of a path whose assertions were discharged
      bool tie = false; (void)tie;
      report(r == 1 ? "replay" : "fault", "native run of a sampled path fails", file, r == 1 ? "assertion" : r == 2 ? "crash" : "hang", out); return;
    }
    auto m = parseOuts(out); bool same = out.find("REACHED") != std::string::npos; int cmp = 0; std::string diff;
    std::map<std::string, Val> last; for (auto &o : s.outsV()) last[o.first] = o.second;
    for (auto &o : last) {
      auto it = m.find(o.first); if (it == m.end()) { same = false; diff = o.first + " missing"; break; }
      long double nv = strtold(it->second.c_str(), 0), ev = 0;
      if (o.second.k == Val::I) ev = (long double)(int64_t)o.second.i;
      else if (o.second.k == Val::F) ev = o.second.f;
      else if (o.second.k == Val::SR) { Rat x; auto v = A.atom; if (!polyValue(o.second.p, v, x)) continue; ev = ldOf(x); }
      else continue;
      cmp++;
      if (std::isnan(nv) && std::isnan(ev)) continue; if (nv == ev) continue;
      if (!(fabsl(nv - ev) <= 1e-5L * (1 + fabsl(nv)))) { same = false; diff = o.first + " native " + it->second + " engine " + std::to_string(ev); break; }
    }
    if (same) nTraceOk++; else { nTraceDiverge++; if (samples.size() < 12) samples.push_back("DIVERGED " + diff + " " + file); }
    if (samples.size() < 4) { std::string t = "path " + std::to_string(nPaths) + " inputs:"; int n = 0; for (auto &x : A.txt) { if (n++ > 14) { t += " ..."; break; } t += " " + x.first + "=" + trimHex(x.second); } t += " outputs compared: " + std::to_string(cmp); samples.push_back(t); }
    if (same) unlink(file.c_str());
  }
  static std::string trimHex(const std::string &s) { if (s.find("0x") == std::string::npos) return s; char b[64]; snprintf(b, sizeof b, "%.10Lg", strtold(s.c_str(), 0)); return b; }

  // ------------------------------------------------------------ top level
  bool load_(const std::string &bc) {
    SMDiagnostic err; mod = parseIRFile(bc, err, lctx);
    if (!mod) { err.print("lpsym", errs()); return false; }
    DL = &mod->getDataLayout(); return true;
  }
  // each of the splitN processes runs the same first paths, then keeps every splitN-th open state
  void takeShare() {
    std::vector<State *> m, l; size_t k = 0;
    for (State *x : mainWork) { if ((int)(k++ % splitN) == splitK) m.push_back(x); else freeState(x); }
    for (State *x : later) { if ((int)(k++ % splitN) == splitK) l.push_back(x); else freeState(x); }
    mainWork = m; later = l;
    if (splitK) { nPaths = nInstr = nForks = nQueries = nSat = nUnsat = nUnk = nAssertDis = nIdent = nIdentOpen = nAssertConst = nAssertUnk = nIncomplete = nInfeasible = 0; tSolver = 0; incomplete.clear(); assertHits.clear(); nTraces = nTraceOk = nTraceDiverge = nTraceNoModel = 0; samples.clear(); shared = true; }
  }
  void explore() {
    z3::params zp(z); zp.set("timeout", qTimeout); zp.set("random_seed", seed); S.set(zp);
    undo.emplace_back(); rng.seed(seed);
    init0 = new State; 
    for (auto &g : mod->globals()) gvAddr(&g);
    for (auto &f : *mod) if (!f.isIntrinsic()) gvAddr(&f);
    for (auto &g : mod->globals()) if (g.hasInitializer() && g.getName() != "llvm.global_ctors" && g.getName() != "llvm.used" && g.getSection() != "llvm.metadata") {
      try { initConst(gvAddr(&g), g.getInitializer()); } catch (PathEnd &e) { /* unsupported initialiser: stays zero */ }
    }
    if (auto *g = mod->getNamedGlobal("__libc_single_threaded")) store(*init0, gvAddr(g), VI(1), 1, 0);
    // run constructors, then the harness
    std::vector<Function *> todo;
    if (auto *g = mod->getNamedGlobal("llvm.global_ctors")) if (g->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(g->getInitializer()))
      for (auto &op : ca->operands()) if (auto *cs = dyn_cast<ConstantStruct>(op)) if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) todo.push_back(f);
    work = &mainWork;
    State *s = init0;
    try {
      std::vector<Val> none;
      for (Function *f : todo) {
        pushFrame(*s, fnOf(f), none, nullptr);
        s = run(s, 0);
        if (!s) { fprintf(stderr, "global constructor failed\n"); exit(3); }
      }
      Function *h = mod->getFunction(harnessEntry);
      if (!h || h->isDeclaration()) { fprintf(stderr, "no entry %s\n", harnessEntry.c_str()); exit(3); }
      s->instrs = 0;
      pushFrame(*s, fnOf(h), none, nullptr);
      mainWork.push_back(s);
      bool phase1 = splitN > 1;
      for (;;) {
        State *x = nullptr;
        if (phase1 && mainWork.size() + later.size() >= (size_t)6 * splitN) phase1 = false, takeShare();
        if (phase1 && !mainWork.empty()) { x = mainWork.front(); mainWork.erase(mainWork.begin()); }
        else if (!mainWork.empty()) { x = mainWork.back(); mainWork.pop_back(); }
        else if (!later.empty()) { size_t k = 0; x = later[k]; later.erase(later.begin()); }
        else break;
        work = &mainWork;
        State *r = run(x, 0);
        if (r) { try { endPath(*r); } catch (...) { throw; } freeState(r); }
        if (now() - tStart > budget) { truncated = !mainWork.empty() || !later.empty(); break; }
      }
      if (phase1 && splitK) mainWork.clear(), takeShare(); // finished before the split: process 0 reports it
    } catch (Stop &) {}
  }
  static std::string js(const std::string &s) {
    std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\"";
  }
  void writeResult(const std::string &file) {
    std::ofstream o(file);
    o << "{\n \"harness\": " << js(tag) << ",\n \"params\": {"; bool f = true; for (auto &p : params) { o << (f ? "" : ", ") << js(p.first) << ": " << js(p.second); f = false; } o << "},\n";
    o << " \"paths\": " << nPaths << ", \"instructions\": " << nInstr << ", \"forks\": " << nForks << ", \"merged_calls\": " << nMerge << ", \"queries\": " << nQueries << ", \"sat\": " << nSat << ", \"unsat\": " << nUnsat << ", \"unknown\": " << nUnk
      << ", \"model_hits\": " << nModelHits << ",\n \"assert_discharged\": " << nAssertDis << ", \"identities\": " << nIdent << ", \"identities_open\": " << nIdentOpen << ", \"assert_concrete\": " << nAssertConst << ", \"assert_undecided\": " << nAssertUnk << ", \"infeasible\": " << nInfeasible << ", \"incomplete\": " << nIncomplete
      << ", \"pending\": " << (mainWork.size() + later.size()) << ", \"truncated\": " << (truncated ? "true" : "false") << ",\n \"solver_s\": " << tSolver << ", \"replay_s\": " << tReplay << ", \"wall_s\": " << (now() - tStart)
      << ",\n \"traces\": " << nTraces << ", \"traces_ok\": " << nTraceOk << ", \"traces_diverged\": " << nTraceDiverge << ", \"traces_nomodel\": " << nTraceNoModel << ",\n \"inputs\": " << inputs.size() << ", \"logs\": " << P.funAtom.size() << ", \"monomials\": " << P.monos.size() << ",\n";
    o << " \"asserts\": {"; f = true; for (auto &a : assertHits) { o << (f ? "" : ", ") << js(a.first) << ": " << a.second; f = false; } o << "},\n";
    o << " \"incomplete_reasons\": {"; f = true; for (auto &a : incomplete) { o << (f ? "" : ", ") << js(a.first) << ": " << a.second; f = false; } o << "},\n";
    o << " \"functions\": ["; f = true; for (auto &x : fns) if (x.second->decoded && x.second->isLib && !x.second->ext && x.second->name.compare(0, 4, "_ZNS") != 0 && x.second->name.compare(0, 4, "_ZSt") != 0) { o << (f ? "" : ", ") << js(demangle(x.second->name)); f = false; } o << "],\n";
    o << " \"samples\": ["; f = true; for (auto &x : samples) { o << (f ? "" : ", ") << js(x); f = false; } o << "],\n";
    o << " \"violations\": ["; f = true; for (auto &v : viols) { o << (f ? "" : ",\n  ") << "{\"id\": " << js(v.id) << ", \"what\": " << js(v.what) << ", \"file\": " << js(v.file) << ", \"confirmed\": " << (v.confirmed ? "true" : "false") << ", \"native\": " << js(v.native) << "}"; f = false; } o << "]\n}\n";
  }
