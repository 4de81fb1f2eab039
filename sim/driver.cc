// The driver: forks one child per simulated run, gathers the statistics, and turns a violation into a minimised,
// replayable file.
#include "core.hh"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <typeinfo>
#include <csignal>
#include <cxxabi.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <boost/log/core.hpp>

using namespace sim;
namespace {
  double wall() { timespec t{}; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + 1e-9 * double(t.tv_nsec); }
  struct Opt { std::string prop, tier = "quick", evidence, replayDir = "replays", level = "exploration", only; std::uint64_t seed = 1; long runs = 1000, from = 0; double secs = 60; int jobs = 8, cpu = 20; double shrinkSecs = 45; } opt;
  constexpr int TIMEOUT = 4;

  Report *shared() { return static_cast<Report *>(mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)); }
  Report *gRep = nullptr;
  void onCpu(int) { if (gRep) gRep->status = TIMEOUT; _exit(0); }

  struct Outcome { int status = OK; std::string cls, msg; std::uint64_t digest = 0; };

  std::string demangle(const char *n) { int st; char *d = abi::__cxa_demangle(n, nullptr, nullptr, &st); std::string s = st == 0 ? d : n; return s; }

  pid_t launch(Report *rep, int errFd, const Scenario &sc, std::uint64_t seed, const std::vector<std::uint32_t> *script, int cpu) {
    rep->clear();
    if (ftruncate(errFd, 0)) {}
    std::fflush(nullptr);
    const pid_t pid = fork();
    if (pid) return pid;
    gRep = rep; lseek(errFd, 0, SEEK_SET); dup2(errFd, 1); dup2(errFd, 2);
    signal(SIGXCPU, onCpu); signal(SIGALRM, onCpu);
    rlimit rl{rlim_t(cpu), rlim_t(cpu + 5)}; setrlimit(RLIMIT_CPU, &rl); alarm(unsigned(cpu * 8));
    rlimit core{0, 0}; setrlimit(RLIMIT_CORE, &core);
    static Run r(rep, seed, script, opt.tier == "thorough"); ::sim::run = &r;
    heap::start(r.ch.below(4) == 0 ? 0 : 1 + r.ch.below(1u << 20));
    try { sc.fn(r); }
    catch (const std::exception &e) { heap::failAfter(0); r.violation("exception", "unexpected exception " + demangle(typeid(e).name()) + ": " + e.what()); }
    catch (...) { heap::failAfter(0); r.violation("exception", "unexpected exception of unknown type"); }
    r.finish();
  }
  Outcome classify(Report *rep, int errFd, int st, bool confirmHang) {
    Outcome o; o.digest = rep->digest;
    const auto errText = [&] { char b[1500]; const off_t n = lseek(errFd, 0, SEEK_END); const ssize_t k = pread(errFd, b, sizeof b, std::max<off_t>(0, n - off_t(sizeof b))); return std::string(b, k > 0 ? std::size_t(k) : 0); };
    if (rep->status == VIOLATION) { o.status = VIOLATION; o.cls = rep->cls; o.msg = rep->msg; }
    else if (rep->status == INCONCLUSIVE) { o.status = INCONCLUSIVE; o.cls = rep->cls; }
    else if (rep->status == TIMEOUT || (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL))) {
      if (rep->hardBudget && confirmHang && rep->status == TIMEOUT) { o.status = VIOLATION; o.cls = "no-progress"; o.msg = "the run does not finish (CPU limit)"; o.digest = 0; }
      else { o.status = INCONCLUSIVE; o.cls = "cpu limit"; }
    }
    else if (WIFSIGNALED(st)) { o.status = VIOLATION; o.cls = WTERMSIG(st) == SIGABRT ? "abort" : "crash-signal-" + std::to_string(WTERMSIG(st)); o.msg = errText(); }
    else if (rep->status == OK && WEXITSTATUS(st) == 0) o.status = OK;
    else { o.status = VIOLATION; o.cls = "exit"; o.msg = "the process ended with status " + std::to_string(WEXITSTATUS(st)) + " inside the run: " + errText(); }
    return o;
  }
  struct Slot { Report *rep; int err; Slot() : rep(shared()), err(memfd_create("sim", 0)) {} };
  Outcome execute(Slot &s, const Scenario &sc, std::uint64_t seed, const std::vector<std::uint32_t> *script, int cpu) {
    const pid_t p = launch(s.rep, s.err, sc, seed, script, cpu); int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    return classify(s.rep, s.err, st, true);
  }
  // many scripts at once; results in order
  std::vector<Outcome> executeAll(std::vector<Slot> &slots, const Scenario &sc, const std::vector<std::vector<std::uint32_t>> &scripts, int cpu) {
    std::vector<Outcome> out(scripts.size()); std::vector<pid_t> pids;
    for (std::size_t i = 0; i < scripts.size(); ++i) pids.push_back(launch(slots[i].rep, slots[i].err, sc, 0, &scripts[i], cpu));
    for (std::size_t i = 0; i < scripts.size(); ++i) { int st = 0; while (waitpid(pids[i], &st, 0) < 0 && errno == EINTR) {} out[i] = classify(slots[i].rep, slots[i].err, st, true); }
    return out;
  }

  struct Viol { long idx; const Scenario *sc; Outcome o; std::vector<std::uint32_t> ch; };

  const Scenario *pickScenario(const std::vector<const Scenario *> &scs, long idx) {
    long total = 0; for (auto s: scs) total += s->weight;
    long k = long(mix(opt.seed * 77 + 5, std::uint64_t(idx)) % std::uint64_t(total));
    for (auto s: scs) { if (k < s->weight) return s; k -= s->weight; }
    return scs[0];
  }
  std::uint64_t seedOf(long idx) { return mix(mix(opt.seed, fnv(opt.prop)), std::uint64_t(idx)); }

  struct Agg { std::map<std::string, std::uint64_t> cnt; std::set<std::uint64_t> digests, states; std::vector<std::string> samples; double simTime = 0; std::uint64_t events = 0, allocs = 0, maxAllocs = 0; };
  std::string esc(const std::string &s) { std::string o; for (char c: s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (static_cast<unsigned char>(c) < 32) o += ' '; else o += c; } return o; }

  void writeReplay(const std::string &path, const Scenario &sc, const Outcome &o, const std::vector<std::uint32_t> &ch, const Report &rep, long idx, std::size_t origLen) {
    std::ofstream f(path);
    f << "# LearnTA deterministic simulation replay. Run: simcheck replay <this file>\n";
    f << "property " << sc.prop << "\nscenario " << sc.name << "\nclass " << o.cls << "\ndigest " << o.digest << "\ntier " << opt.tier << "\n";
    f << "# VERIF_SEED=" << opt.seed << " run=" << idx << " choices before minimisation: " << origLen << "\n";
    f << "choices " << ch.size(); for (auto c: ch) f << " " << c; f << "\n";
    std::istringstream m("violation: " + o.msg + "\n--- the environment of the run\n" + std::string(rep.desc) + "--- event log (tail)\n" + std::string(rep.log, rep.logLen));
    std::string l; while (std::getline(m, l)) f << "# " << l << "\n";
  }

  std::vector<std::uint32_t> shrink(std::vector<Slot> &slots, const Scenario &sc, const std::string &cls, std::vector<std::uint32_t> best, int cpu) {
    const double until = wall() + opt.shrinkSecs;
    auto attempt = [&](std::vector<std::vector<std::uint32_t>> &cands) -> bool {
      bool any = false;
      for (std::size_t i = 0; i < cands.size() && wall() < until; i += slots.size()) {
        std::vector<std::vector<std::uint32_t>> batch(cands.begin() + long(i), cands.begin() + long(std::min(cands.size(), i + slots.size())));
        auto res = executeAll(slots, sc, batch, cpu);
        for (std::size_t k = 0; k < res.size(); ++k) if (res[k].status == VIOLATION && res[k].cls == cls) {
          auto used = std::vector<std::uint32_t>(slots[k].rep->ch, slots[k].rep->ch + std::min<std::size_t>(slots[k].rep->nch, batch[k].size()));
          while (!used.empty() && used.back() == 0) used.pop_back();
          auto weight = [](const std::vector<std::uint32_t> &v) { unsigned long long s = 0; for (auto x: v) s += x; return std::make_pair(v.size(), s); };
          if (weight(used) < weight(best)) { best = used; any = true; }
          break;
        }
        if (any) return true;
      }
      return false;
    };
    while (!best.empty() && best.back() == 0) best.pop_back();
    for (bool ch = true; ch && wall() < until;) {
      ch = false;
      for (std::size_t len = std::max<std::size_t>(1, best.size() / 2); len >= 1 && wall() < until; len = len == 1 ? 0 : len / 2) {
        for (std::size_t at = 0; at < best.size() && wall() < until;) { // remove or clear chunks
          std::vector<std::vector<std::uint32_t>> c; std::size_t p = at;
          for (; p < best.size() && c.size() < slots.size(); p += len) {
            auto a = best; a.erase(a.begin() + long(p), a.begin() + long(std::min(a.size(), p + len))); c.push_back(a);
            auto b = best; bool nz = false; for (std::size_t q = p; q < std::min(b.size(), p + len); ++q) { nz |= b[q] != 0; b[q] = 0; }
            if (nz && c.size() < slots.size()) c.push_back(b);
          }
          if (attempt(c)) ch = true; else at = p;
        }
        if (len == 1) break;
      }
      for (std::size_t at = 0; at < best.size() && wall() < until;) { // smaller values
        std::vector<std::vector<std::uint32_t>> c; std::size_t p = at;
        for (; p < best.size() && c.size() + 1 < slots.size(); ++p) if (best[p] > 1) { auto a = best; a[p] /= 2; c.push_back(a); a = best; a[p] -= 1; c.push_back(a); }
        if (!c.empty() && attempt(c)) ch = true; else at = p;
      }
    }
    return best;
  }

  std::vector<std::string> knownFindings(const std::string &path) {
    std::vector<std::string> v; std::ifstream f(path); std::string l;
    while (std::getline(f, l)) if (l.rfind("finding:", 0) == 0) v.push_back(l);
    return v;
  }

  int replay(const std::string &path, bool quiet) {
    std::ifstream f(path); std::string l, sc, cls; std::uint64_t digest = 0; std::vector<std::uint32_t> ch; std::string prop;
    while (std::getline(f, l)) {
      std::istringstream s(l); std::string k; s >> k;
      if (k == "property") s >> prop; else if (k == "scenario") s >> sc; else if (k == "class") s >> cls; else if (k == "digest") s >> digest; else if (k == "tier") s >> opt.tier;
      else if (k == "choices") { std::size_t n; s >> n; std::uint32_t c; while (s >> c) ch.push_back(c); }
    }
    for (auto &x: scenarios()) if (x.prop == prop && x.name == sc) {
      Slot slot; auto o = execute(slot, x, 0, &ch, opt.cpu * 3);
      if (!quiet) { std::cout << slot.rep->desc << std::string(slot.rep->log, slot.rep->logLen) << (o.status == VIOLATION ? o.cls + ": " + o.msg : std::string("no violation")) << "\n"; }
      if (o.status == VIOLATION && o.cls == cls && (digest == o.digest || digest == 0)) { if (!quiet) std::cout << "VIOLATION property=" << prop << " replay=" << path << std::endl; return 1; }
      if (o.status == VIOLATION && !quiet) std::cout << "a different violation or a different event log (digest " << o.digest << ")\n";
      return o.status == VIOLATION ? 3 : 0;
    }
    std::cerr << "unknown scenario\n"; return 2;
  }
}

int main(int argc, char **argv) {
  boost::log::core::get()->set_logging_enabled(false);
  setvbuf(stdout, nullptr, _IOLBF, 0);
  if (argc < 3) { std::cerr << "usage: simcheck run PROP [--k v ...] | replay FILE | one PROP IDX\n"; return 2; }
  const std::string mode = argv[1];
  std::string known, stub; 
  for (int i = 3; i + 1 < argc; ++i) {
    const std::string k = argv[i], v = argv[i + 1];
    if (k == "--tier") opt.tier = v; else if (k == "--seed") opt.seed = std::stoull(v); else if (k == "--runs") opt.runs = std::stol(v); else if (k == "--secs") opt.secs = std::stod(v);
    else if (k == "--jobs") opt.jobs = std::stoi(v); else if (k == "--evidence") opt.evidence = v; else if (k == "--replays") opt.replayDir = v; else if (k == "--cpu") opt.cpu = std::stoi(v);
    else if (k == "--known") known = v; else if (k == "--stub") stub = v; else if (k == "--level") opt.level = v; else if (k == "--shrink") opt.shrinkSecs = std::stod(v); else if (k == "--only") opt.only = v; else if (k == "--from") opt.from = std::stol(v); else continue;
    ++i;
  }
  if (mode == "replay") return replay(argv[2], argc > 3 && std::string(argv[3]) == "--quiet");
  opt.prop = argv[2];
  std::vector<const Scenario *> scs;
  for (auto &s: scenarios()) if (s.prop == opt.prop && (!s.thoroughOnly || opt.tier == "thorough") && (opt.only.empty() || opt.only == s.name)) scs.push_back(&s);
  if (scs.empty()) { std::cerr << "no scenario for " << opt.prop << "\n"; return 2; }
  if (mode == "one") { // one run, verbosely
    const long idx = std::stol(argv[3]); Slot s; auto sc = pickScenario(scs, idx); const double t = wall(); auto o = execute(s, *sc, seedOf(idx), nullptr, opt.cpu);
    std::cout << "scenario " << sc->name << "\n" << s.rep->desc << std::string(s.rep->log, s.rep->logLen) << "status " << o.status << " " << o.cls << " " << o.msg << " choices " << s.rep->nch << " events " << s.rep->events << " allocs " << s.rep->inSutAllocs << " wall " << wall() - t << "\n"; 
    for (int i = 0; i < s.rep->ncnt; ++i) std::cout << "  " << s.rep->cntName[i] << " " << s.rep->cnt[i] << "\n";
    return 0;
  }

  const double t0 = wall();
  std::cout << "simulation property=" << opt.prop << " tier=" << opt.tier << " VERIF_SEED=" << opt.seed << " runs<=" << opt.runs << " secs<=" << opt.secs << std::endl;
  char tmpl[] = "/tmp/simcheckXXXXXX"; const std::string tmp = mkdtemp(tmpl);
  auto *stop = static_cast<volatile long *>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  stop[0] = opt.runs; stop[1] = opt.from; // stop[0]: no run at or above this index is started any more
  std::vector<pid_t> workers;
  for (int w = 0; w < opt.jobs; ++w) {
    std::fflush(nullptr);
    const pid_t p = fork(); if (p) { workers.push_back(p); continue; }
    Agg a; Slot slot; std::vector<std::uint32_t> script;
    while (wall() - t0 < opt.secs) {
      const long idx = __sync_fetch_and_add(&stop[1], 1); if (idx >= stop[0]) break;
      const auto sc = pickScenario(scs, idx);
      auto o = execute(slot, *sc, seedOf(idx), nullptr, opt.cpu);
      const Report &r = *slot.rep;
      ++a.cnt["runs"]; ++a.cnt[std::string("scenario:") + sc->name];
      if (o.status == VIOLATION) {
        ++a.cnt["violating runs"];
        std::ofstream f(tmp + "/v" + std::to_string(idx)); f << sc->name << "\n" << o.digest << "\n" << o.cls << "\n" << r.nch; for (std::size_t i = 0; i < r.nch; ++i) f << " " << r.ch[i]; f << "\n"; f.close();
        long cur = stop[0]; while (idx < cur && !__sync_bool_compare_and_swap(&stop[0], cur, idx)) cur = stop[0];
        continue;
      }
      if (o.status == INCONCLUSIVE) { ++a.cnt["inconclusive: " + o.cls]; ++a.cnt[std::string("inconclusive in ") + sc->name]; if (getenv("SIM_VERBOSE")) std::printf("inconclusive idx=%ld %s %s events=%lu allocs=%lu\n", idx, sc->name, o.cls.c_str(), r.events, r.inSutAllocs); }
      else { ++a.cnt["conclusive"]; if (r.events >= 4 && r.nch >= 4) { a.digests.insert(r.digest); } }
      for (int i = 0; i < r.nstates; ++i) if (a.states.size() < 2000000) a.states.insert(r.states[i]);
      for (int i = 0; i < r.ncnt; ++i) a.cnt[r.cntName[i]] += r.cnt[i];
      a.simTime += r.simTime; a.events += r.events; a.allocs += r.inSutAllocs; a.maxAllocs = std::max(a.maxAllocs, r.inSutAllocs);
      if (idx - opt.from < 3) { std::string d = r.desc; d += "--- events (head of the tail)\n"; d += std::string(r.log, std::min<std::size_t>(r.logLen, 600)); a.samples.push_back("run " + std::to_string(idx) + " scenario " + sc->name + "\n" + d.substr(0, 1800)); }
      if (o.status == OK && idx % 24 == 0) { // determinism: the same choices give the same event log
        script.assign(r.ch, r.ch + r.nch); const auto ev = r.digest; auto o2 = execute(slot, *sc, 0, &script, opt.cpu); ++a.cnt["determinism re-runs"];
        if (o2.status == OK && o2.digest != ev) { ++a.cnt["determinism mismatches"]; if (getenv("SIM_VERBOSE")) std::printf("nondeterministic idx=%ld %s\n", idx, sc->name); }
        if (o2.status == VIOLATION) ++a.cnt["determinism mismatches"];
      }
    }
    std::ofstream f(tmp + "/w" + std::to_string(w)); f.precision(17);
    f << a.simTime << " " << a.events << " " << a.allocs << " " << a.maxAllocs << "\n" << a.cnt.size() << "\n"; for (auto &[k, v]: a.cnt) f << v << " " << k << "\n";
    f << a.digests.size(); for (auto d: a.digests) f << " " << d; f << "\n" << a.states.size(); for (auto d: a.states) f << " " << d; f << "\n" << a.samples.size() << "\n";
    for (auto &s: a.samples) f << esc(s) << "\n";
    f.close(); _exit(0);
  }
  for (auto p: workers) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }
  Agg a;
  for (int w = 0; w < opt.jobs; ++w) {
    std::ifstream f(tmp + "/w" + std::to_string(w)); double st; std::uint64_t ev, al, mx; if (!(f >> st >> ev >> al >> mx)) { std::cerr << "worker " << w << " failed\n"; return 2; }
    a.simTime += st; a.events += ev; a.allocs += al; a.maxAllocs = std::max(a.maxAllocs, mx); std::size_t n; f >> n; std::string l;
    for (std::size_t i = 0; i < n; ++i) { std::uint64_t v; f >> v; f.get(); std::getline(f, l); a.cnt[l] += v; }
    f >> n; for (std::size_t i = 0; i < n; ++i) { std::uint64_t d; f >> d; a.digests.insert(d); } f >> n; for (std::size_t i = 0; i < n; ++i) { std::uint64_t d; f >> d; a.states.insert(d); }
    f >> n; std::getline(f, l); for (std::size_t i = 0; i < n; ++i) { std::getline(f, l); a.samples.push_back(l); }
  }
  const double tRun = wall() - t0;
  // ---- violations
  int rc = 0; std::string vline; std::vector<long> idxs; int nviol = int(a.cnt["violating runs"]);
  for (long i = opt.from; i <= stop[1] + 64 && nviol > 0; ++i) { if (access((tmp + "/v" + std::to_string(i)).c_str(), R_OK) == 0) idxs.push_back(i); if (idxs.size() >= 5) break; }
  if (!idxs.empty()) {
    std::vector<Slot> slots(std::size_t(opt.jobs)); rc = 2; const auto findings = knownFindings(known); bool allKnown = true;
    for (long idx: idxs) {
      std::ifstream f(tmp + "/v" + std::to_string(idx)); std::string scn, cls; std::uint64_t dig; std::size_t n; std::getline(f, scn); f >> dig; f.get(); std::getline(f, cls); f >> n; std::vector<std::uint32_t> ch(n); for (auto &c: ch) f >> c;
      const Scenario *sc = nullptr; for (auto s: scs) if (s->name == scn) sc = s;
      auto again = execute(slots[0], *sc, 0, &ch, opt.cpu * 2);
      if (again.status != VIOLATION || again.cls != cls || (dig && again.digest != dig)) { std::cerr << "run " << idx << " (" << scn << ", " << cls << ") does not reproduce from its choices\n"; allKnown = false; continue; }
      std::cout << "run " << idx << " scenario " << scn << ": " << cls << "; minimising " << ch.size() << " choices" << std::endl;
      auto small = shrink(slots, *sc, cls, ch, std::max(5, opt.cpu / 2));
      auto fin = execute(slots[0], *sc, 0, &small, opt.cpu * 2);
      if (fin.status != VIOLATION || fin.cls != cls) { small = ch; fin = execute(slots[0], *sc, 0, &small, opt.cpu * 2); }
      const std::string sig = std::string(sc->prop) + " " + scn + " " + cls + " " + std::to_string(fnv(slots[0].rep->desc)); bool isKnown = false;
      for (auto &k: findings) if (k.find(sig) != std::string::npos) isKnown = true;
      if (isKnown) { std::cout << "KNOWN-FINDING: property=" << opt.prop << " " << sig << std::endl; continue; }
      allKnown = false;
      if (system(("mkdir -p '" + opt.replayDir + "'").c_str())) {}
      const std::string path = opt.replayDir + "/" + opt.prop + "-" + scn + "-" + std::to_string(idx) + ".replay";
      writeReplay(path, *sc, fin, small, *slots[0].rep, idx, ch.size());
      char self[4096]; const ssize_t k = readlink("/proc/self/exe", self, sizeof self - 1); self[k > 0 ? k : 0] = 0;
      const int r2 = system(("'" + std::string(self) + "' replay '" + path + "' --quiet").c_str());
      if (!(WIFEXITED(r2) && WEXITSTATUS(r2) == 1)) { std::cerr << "the minimised run does not reproduce in a fresh process\n"; continue; }
      std::cout << "  " << fin.cls << ": " << fin.msg.substr(0, 1500) << "\n  minimised to " << small.size() << " choices (signature " << sig << ")" << std::endl;
      vline = "VIOLATION property=" + opt.prop + " replay=" + path; rc = 1; break;
    }
    if (rc == 2 && allKnown) rc = 0;
  }
  // ---- evidence
  const double dt = wall() - t0; const auto runs = a.cnt["runs"]; const auto perHour = [&](double x) { return tRun > 0 ? x / tRun * 3600 : 0; };
  if (!opt.evidence.empty()) {
    std::ofstream e(opt.evidence + ".tmp"); e.precision(12);
    e << "{\n \"property\": \"" << opt.prop << "\", \"tier\": \"" << opt.tier << "\", \"seed\": " << opt.seed << ", \"level\": \"" << opt.level << "\",\n \"wall_s\": " << dt << ", \"violations\": " << (rc == 1 ? 1 : 0) << ",\n";
    e << " \"coverage\": {\n  \"evaluations\": " << runs << ", \"distinct_nontrivial\": " << a.digests.size() << ",\n";
    e << "  \"rule\": \"One evaluation is one simulated run: a forked process in which one recorded stream of choices, seeded from VERIF_SEED, the property and the run number, decides the targets, the teacher's answers, the schedule, the heap layout and every fault. Two runs are distinct when their event logs (all interactions between the learner or library and its environment) hash differently; a run is non-trivial when it is conclusive, drew at least 4 choices and logged at least 4 events.\",\n";
    e << "  \"runs_and_seeds_per_hour\": " << perHour(double(runs)) << ", \"simulated_time_units\": " << a.simTime << ", \"events\": " << a.events << ", \"library_allocations\": " << a.allocs << ", \"max_library_allocations_in_a_run\": " << a.maxAllocs << ",\n";
    e << "  \"distinct_states\": " << a.states.size() << ", \"distinct_states_measure\": \"distinct 64-bit digests of the states each scenario reports: conjectured automata, explored configurations, answered queries, interleaving prefixes\",\n";
    e << "  \"counters\": {"; bool first = true; for (auto &[k, v]: a.cnt) if (k.rfind("fault:", 0) != 0) { e << (first ? "" : ", ") << "\"" << esc(k) << "\": " << v; first = false; } e << "},\n";
    e << "  \"faults_injected\": {"; first = true; for (auto &[k, v]: a.cnt) if (k.rfind("fault:", 0) == 0) { e << (first ? "" : ", ") << "\"" << esc(k.substr(6)) << "\": " << v; first = false; } e << "},\n";
    e << "  \"components\": \"" << esc(stub) << "\",\n  \"samples\": ["; first = true; for (auto &s: a.samples) { e << (first ? "" : ", ") << "\"" << s << "\""; first = false; } e << "]\n },\n";
    e << " \"assumptions\": [\"a clean batch of seeded runs is evidence, not proof\", \"the reference model of timed automata in sim/ref.hh is right\", \"the single-threaded code reads nothing nondeterministic but the heap layout, std::random_device and the clock, all of which the simulator owns\"]\n}\n";
    e.close(); std::rename((opt.evidence + ".tmp").c_str(), opt.evidence.c_str());
  }
  std::cout << runs << " runs in " << tRun << " s, " << a.digests.size() << " distinct, " << a.states.size() << " states, sim time " << a.simTime << "\n"; for (auto &[k, v]: a.cnt) std::cout << "  " << k << ": " << v << "\n";
  for (auto &e: {tmp}) if (system(("rm -rf '" + e + "'").c_str())) {}
  if (!vline.empty()) std::cout << vline << std::endl;
  return rc;
}
