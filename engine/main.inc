int main(int argc, char **argv) {
  Engine e; std::string bc, res = "/dev/stdout";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--param") { std::string p = nx(); size_t q = p.find('='); e.params[p.substr(0, q)] = p.substr(q + 1); }
    else if (a == "--replay") e.replayCmd = nx(); else if (a == "--replay-asan") e.replayAsan = nx(); else if (a == "--replay-vg") e.replayVg = nx();
    else if (a == "--work") e.workDir = nx(); else if (a == "--entry") e.harnessEntry = nx(); else if (a == "--tag") e.tag = nx();
    else if (a == "--budget") e.budget = atof(nx().c_str()); else if (a == "--result") res = nx(); else if (a == "--seed") e.seed = atoi(nx().c_str());
    else if (a == "--max-instr") e.maxInstr = atoll(nx().c_str()); else if (a == "--max-depth") e.maxDepth = atoi(nx().c_str()); else if (a == "--traces") e.sampleMax = atoi(nx().c_str());
    else if (a == "--query-timeout") e.qTimeout = atoi(nx().c_str()); else if (a == "--max-confirmed") e.maxConfirmed = atoi(nx().c_str());
    else if (a == "--split") { std::string p = nx(); sscanf(p.c_str(), "%d/%d", &e.splitK, &e.splitN); }
    else if (a == "--tol") e.TOL = ratOf(strtold(nx().c_str(), 0));
    else if (a == "--logratios") { e.logLemmas = true; std::istringstream is(nx()); std::string t; while (std::getline(is, t, ',')) { Rat r(t); r.canonicalize(); e.logRatios.push_back(r); } }
    else if (a == "--fixed") { e.fixedMode = true; std::ifstream f(nx()); std::string l; while (std::getline(f, l)) { std::istringstream ls(l); std::string k, n, v; ls >> k >> n >> v; if (k == "in") e.fixed[n] = v; if (k == "param") e.params[n] = v; } }
    else bc = a;
  }
  e.initExt();
  if (!e.load_(bc)) return 3;
  // a query that ignores its timeout must not lose what was decided before it
  std::thread([&] { while (now() - e.tStart < e.budget + 45) usleep(500000); e.truncated = true; e.writeResult(res); _exit(0); }).detach();
  e.explore();
  e.budget = 1e9; // keeps the watchdog out
  e.writeResult(res);
  _exit(0);
}
