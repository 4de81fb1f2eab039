// The simulator core: one stream of recorded choices, a seeded heap, cooperative fibers, event log, fork isolation.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <stdexcept>
#include <functional>
#include "prng.hh"

namespace sim {
  // ---- the memory shared between a simulated run (a forked child) and the driver ---------------------------------
  enum Status : int { RUNNING = 0, OK = 1, VIOLATION = 2, INCONCLUSIVE = 3 };
  struct Report {
    static constexpr std::size_t MAXCH = 1u << 20, MAXLOG = 1u << 16, MAXDESC = 1u << 15, MAXCNT = 96;
    int status; int hardBudget; int overBudget;
    char cls[64]; char msg[8192]; char desc[MAXDESC]; std::size_t descLen;
    std::uint64_t digest, events, inSutAllocs; double simTime;
    std::size_t nch; std::uint32_t ch[MAXCH];
    std::size_t logLen; char log[MAXLOG];
    int ncnt; char cntName[MAXCNT][40]; std::uint64_t cnt[MAXCNT];
    int nstates; std::uint64_t states[256];
    void clear();
  };

  // ---- choices: PRNG-driven and recorded, or replayed (0 once the script is exhausted) ------------------------
  class Choices {
    Report *rep; const std::vector<std::uint32_t> *script; Prng rng; std::size_t pos = 0;
  public:
    Choices(Report *rep, std::uint64_t seed, const std::vector<std::uint32_t> *script) : rep(rep), script(script), rng(seed) {}
    std::uint64_t below(std::uint64_t n);
    int range(int lo, int hi) { return lo + int(below(std::uint64_t(hi - lo + 1))); }
    // 0 always means "no"
    bool chance(int num, int den) { return int(below(std::uint64_t(den))) >= den - num; }
    template<class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    std::uint64_t sub() { return mix(0x51ed270b, below(1u << 30)); }
  };

  // ---- one run ----------------------------------------------------------------------------------------------
  struct Run {
    Report *rep; Choices ch; bool thorough;
    Run(Report *r, std::uint64_t seed, const std::vector<std::uint32_t> *script, bool th) : rep(r), ch(r, seed, script), thorough(th) {}
    void log(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    void logs(const std::string &s);
    void desc(const std::string &s);
    void count(const char *name, std::uint64_t n = 1);
    void fault(const char *kind) { count((std::string("fault:") + kind).c_str()); }
    void time(double t) { rep->simTime += t; }
    void state(std::uint64_t h);
    [[noreturn]] void violation(const char *cls, const std::string &msg);
    [[noreturn]] void inconclusive(const char *why);
    [[noreturn]] void finish();
    // budget on the allocations made by the code under test: the deterministic step counter of the simulator
    void budget(std::uint64_t allocs, bool hard) { limit = allocs * (thorough ? 8 : 1); rep->hardBudget = hard; }
    std::uint64_t limit = ~0ULL;
  };
  extern Run *run;
  inline void check(bool ok, const char *cls, const std::string &msg) { if (!ok) run->violation(cls, msg); }

  // ---- seeded heap ------------------------------------------------------------------------------------------
  namespace heap {
    void start(std::uint64_t layoutSeed); // from now on allocations come from a fresh region with a seeded layout
    std::uint64_t liveBytes();            // bytes of the seeded region in use
    std::uint64_t sutAllocs();            // allocations made by the code under test so far
    // make the n-th further allocation of the code under test fail, and the following count-1 ones (0: off)
    void failAfter(std::uint64_t n, std::uint64_t count = 1);
    bool failed();                        // an injected failure has fired since failAfter
    bool countAndFail(bool mayFail); void fill(void *, std::size_t);
    extern int sutDepth;                  // > 0 while the code under test runs
  }
  // "the code under test is running" / "the environment is running"
  struct InSut { int old; InSut() : old(heap::sutDepth) { heap::sutDepth = 1; } ~InSut() { heap::sutDepth = old; } };
  struct InEnv { int old; InEnv() : old(heap::sutDepth) { heap::sutDepth = 0; } ~InEnv() { heap::sutDepth = old; } };

  // ---- simulated entropy (std::random_device) ---------------------------------------------------------------
  extern std::function<unsigned()> entropy;

  // ---- fibers: several clients in one thread, switched only where the simulator says ---------------------------
  class Fibers {
  public:
    static void spawn(std::function<void()> f);
    static bool inFiber();
    static void yield();      // back to the scheduler (no-op outside a fiber)
    // run all fibers; the scheduler draws who goes next
    static void runAll(Choices &ch);
    static std::uint64_t switches();
  };

  // ---- scenarios --------------------------------------------------------------------------------------------
  struct Scenario { const char *prop; const char *name; int weight; void (*fn)(Run &); bool thoroughOnly = false; };
  std::vector<Scenario> &scenarios();
  struct Register { Register(const char *prop, const char *name, int weight, void (*fn)(Run &), bool th = false) { scenarios().push_back({prop, name, weight, fn, th}); } };

  inline std::uint64_t fnv(const void *p, std::size_t n, std::uint64_t h = 1469598103934665603ULL) {
    auto c = static_cast<const unsigned char *>(p);
    for (std::size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
    return h;
  }
  inline std::uint64_t fnv(const std::string &s, std::uint64_t h = 1469598103934665603ULL) { return fnv(s.data(), s.size(), h); }
}
