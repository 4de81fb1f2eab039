#include "core.hh"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <random>
#include <chrono>
#include <memory>
#include <cxxabi.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>

extern "C" void *__real_malloc(std::size_t);
namespace sim {
  Run *run = nullptr;
  std::function<unsigned()> entropy;
  std::vector<Scenario> &scenarios() { static std::vector<Scenario> s; return s; }

  void Report::clear() {
    status = RUNNING; hardBudget = overBudget = 0; cls[0] = msg[0] = desc[0] = 0; descLen = 0;
    digest = 1469598103934665603ULL; events = inSutAllocs = 0; simTime = 0; nch = 0; logLen = 0; ncnt = 0; nstates = 0;
  }
  std::uint64_t Choices::below(std::uint64_t n) {
    if (n <= 1) return 0;
    std::uint64_t v;
    if (script) v = pos < script->size() ? (*script)[pos] % n : 0; else v = rng.below(n);
    ++pos;
    if (rep->nch < Report::MAXCH) rep->ch[rep->nch++] = std::uint32_t(v); else run->inconclusive("too many choices");
    return v;
  }
  void Run::logs(const std::string &s) {
    ++rep->events; rep->digest = fnv(s, rep->digest * 31 + 7);
    if (rep->logLen + s.size() + 1 >= Report::MAXLOG) { // keep the tail
      const std::size_t keep = Report::MAXLOG / 2; if (rep->logLen > keep) { std::memmove(rep->log, rep->log + rep->logLen - keep, keep); rep->logLen = keep; }
    }
    const std::size_t n = std::min(s.size(), Report::MAXLOG / 4);
    std::memcpy(rep->log + rep->logLen, s.data(), n); rep->logLen += n; rep->log[rep->logLen++] = '\n';
  }
  void Run::log(const char *fmt, ...) {
    char buf[4096]; va_list ap; va_start(ap, fmt); std::vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap); InEnv e; logs(buf);
  }
  void Run::desc(const std::string &s) {
    const std::size_t n = std::min(s.size(), Report::MAXDESC - 2 - rep->descLen);
    std::memcpy(rep->desc + rep->descLen, s.data(), n); rep->descLen += n; rep->desc[rep->descLen] = 0;
  }
  void Run::count(const char *name, std::uint64_t n) {
    for (int i = 0; i < rep->ncnt; ++i) if (!std::strncmp(rep->cntName[i], name, 39)) { rep->cnt[i] += n; return; }
    if (rep->ncnt < int(Report::MAXCNT)) { std::strncpy(rep->cntName[rep->ncnt], name, 39); rep->cntName[rep->ncnt][39] = 0; rep->cnt[rep->ncnt++] = n; }
  }
  void Run::state(std::uint64_t h) { if (rep->nstates < 256) rep->states[rep->nstates++] = h; }
  void Run::finish() { rep->inSutAllocs = heap::sutAllocs(); if (rep->status == RUNNING) rep->status = OK; _exit(0); }
  void Run::violation(const char *cls, const std::string &msg) {
    heap::sutDepth = 0;
    std::strncpy(rep->cls, cls, 63); rep->cls[63] = 0; std::strncpy(rep->msg, msg.c_str(), sizeof rep->msg - 1); rep->msg[sizeof rep->msg - 1] = 0;
    logs(std::string("VIOLATION ") + cls);
    rep->status = VIOLATION; finish();
  }
  void Run::inconclusive(const char *why) { std::strncpy(rep->cls, why, 63); rep->cls[63] = 0; rep->status = INCONCLUSIVE; finish(); }

  // ---- heap ---------------------------------------------------------------------------------------------------
  namespace heap {
    int sutDepth = 0;
    namespace {
      struct Header { std::uint32_t cls; std::uint32_t magic; std::uint64_t size; };
      static_assert(sizeof(Header) == 16);
      constexpr std::uint32_t MAGIC = 0x51a7c0de;
      constexpr std::size_t REGION = std::size_t(3) << 30;
      char *base = nullptr, *cur = nullptr, *end = nullptr; bool seeded = false;
      std::uint64_t layout = 0, live = 0, allocs = 0, failAt = 0, failN = 0; bool fired = false; unsigned char junk = 0xa5;
      struct Free { Free *next; };
      constexpr int NCLS = 64 + 32; Free *lists[NCLS];
      int classOf(std::size_t n, std::size_t &sz) {
        if (n <= 1024) { const std::size_t k = n == 0 ? 1 : (n + 15) / 16; sz = k * 16; return int(k - 1); }
        int b = 11; while ((std::size_t(1) << b) < n) ++b; sz = std::size_t(1) << b; return 64 + b - 11;
      }
      inline std::uint64_t draw() { layout = layout * 6364136223846793005ULL + 1442695040888963407ULL; return layout >> 33; }
      bool mine(void *p) { return seeded && p >= base && p < end; }
    }
    bool countAndFail(bool mayFail) {
      {
        ++allocs;
        if (run && allocs > run->limit) { run->rep->overBudget = 1; run->rep->inSutAllocs = allocs; if (run->rep->hardBudget) run->violation("no-progress", "the deterministic step budget is exhausted: the run does not finish"); run->inconclusive("over the step budget"); }
        if (mayFail && failAt && allocs >= failAt && failN > 0) { --failN; if (failN == 0) failAt = 0; fired = true; if (run) run->fault("alloc-failure"); return true; }
      }
      return false;
    }
    void fill(void *p, std::size_t n) { std::memset(p, junk, std::min<std::size_t>(n, 1024)); }
    void *allocate(std::size_t n) {
      if (sutDepth > 0 && countAndFail(true)) return nullptr;
      if (!seeded) { void *p = __real_malloc(n ? n : 1); if (!p) std::abort(); return p; }
      std::size_t sz; const int c = classOf(n, sz);
      char *p;
      if (lists[c] && (layout == 0 || draw() % 4)) { p = reinterpret_cast<char *>(lists[c]); lists[c] = lists[c]->next; }
      else {
        if (layout) cur += 16 * (draw() % 5);
        if (cur + sz + sizeof(Header) > end) { if (run) run->inconclusive("out of simulated memory"); std::abort(); }
        p = cur + sizeof(Header); cur += sz + sizeof(Header);
      }
      auto *h = reinterpret_cast<Header *>(p) - 1; h->cls = std::uint32_t(c); h->magic = MAGIC; h->size = sz; live += sz;
      std::memset(p, junk, std::min<std::size_t>(sz, 256));
      return p;
    }
    void release(void *p) {
      if (!p) return;
      if (!mine(p)) { if (!seeded) std::free(p); return; } // blocks from before the run are leaked: the child exits anyway
      auto *h = static_cast<Header *>(p) - 1;
      if (h->magic != MAGIC) { if (run) run->violation("heap-corruption", "a block is released twice or was never allocated"); std::abort(); }
      h->magic = 0; live -= h->size; std::memset(p, 0xdd, std::min<std::size_t>(h->size, 256));
      auto *f = static_cast<Free *>(p); f->next = lists[h->cls]; lists[h->cls] = f;
    }
    void start(std::uint64_t layoutSeed) {
      if (!base) {
        base = static_cast<char *>(mmap(reinterpret_cast<void *>(0x200000000000ULL), REGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0));
        if (base == MAP_FAILED) { std::fprintf(stderr, "cannot map the simulated heap\n"); _exit(99); }
        end = base + REGION;
      }
      cur = base; std::memset(lists, 0, sizeof lists); layout = layoutSeed; junk = layoutSeed ? static_cast<unsigned char>(0x11 + layoutSeed % 199) : 0xa5; seeded = true; live = allocs = 0;
    }
    std::uint64_t liveBytes() { return live; }
    std::uint64_t sutAllocs() { return allocs; }
    void failAfter(std::uint64_t n, std::uint64_t count) { if (n) fired = false; failAt = n ? allocs + n : 0; failN = n ? count : 0; }
    bool failed() { return fired; }
  }

  // ---- fibers ---------------------------------------------------------------------------------------------------
  namespace {
    struct Fiber { ucontext_t ctx; std::function<void()> f; bool done = false; int sut = 0; char eh[16]; };
    std::vector<std::unique_ptr<Fiber>> fibers; ucontext_t mainCtx; int current = -1; std::uint64_t nswitch = 0; char mainEh[16];
    void entry() { { auto &f = *fibers[current]; f.f(); f.done = true; } swapcontext(&fibers[current]->ctx, &mainCtx); }
    char *ehGlobals() { return reinterpret_cast<char *>(abi::__cxa_get_globals()); }
  }
  void Fibers::spawn(std::function<void()> f) {
    auto x = std::make_unique<Fiber>(); x->f = std::move(f); std::memset(x->eh, 0, 16);
    constexpr std::size_t STK = 16u << 20;
    void *stk = mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    getcontext(&x->ctx); x->ctx.uc_stack.ss_sp = stk; x->ctx.uc_stack.ss_size = STK; x->ctx.uc_link = nullptr;
    makecontext(&x->ctx, entry, 0); fibers.push_back(std::move(x));
  }
  bool Fibers::inFiber() { return current >= 0; }
  void Fibers::yield() {
    if (current < 0) return;
    auto &f = *fibers[current]; f.sut = heap::sutDepth; std::memcpy(f.eh, ehGlobals(), 16);
    swapcontext(&f.ctx, &mainCtx);
  }
  void Fibers::runAll(Choices &ch) {
    std::memcpy(mainEh, ehGlobals(), 16); const int sut = heap::sutDepth;
    std::vector<int> live; for (int i = 0; i < int(fibers.size()); ++i) live.push_back(i);
    int stick = 0, last = -1;
    while (!live.empty()) {
      // bursts: the scheduler mostly keeps a fiber for a drawn number of steps
      std::size_t k;
      if (last >= 0 && stick > 0 && std::find(live.begin(), live.end(), last) != live.end()) { k = std::size_t(std::find(live.begin(), live.end(), last) - live.begin()); --stick; }
      else { k = ch.below(live.size()); stick = int(ch.below(4) ? ch.below(6) : ch.below(200)); last = live[k]; ++nswitch; }
      current = live[k]; auto &f = *fibers[current]; heap::sutDepth = f.sut; std::memcpy(ehGlobals(), f.eh, 16);
      swapcontext(&mainCtx, &f.ctx);
      std::memcpy(ehGlobals(), mainEh, 16); heap::sutDepth = sut;
      if (f.done) live.erase(live.begin() + long(k));
      current = -1;
    }
    fibers.clear();
  }
  std::uint64_t Fibers::switches() { return nswitch; }
}

// ---- global replacements: heap, entropy, clock -----------------------------------------------------------------------
void *operator new(std::size_t n) { void *p = sim::heap::allocate(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](std::size_t n) { return operator new(n); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return sim::heap::allocate(n); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return sim::heap::allocate(n); }
void operator delete(void *p) noexcept { sim::heap::release(p); }
void operator delete[](void *p) noexcept { sim::heap::release(p); }
void operator delete(void *p, std::size_t) noexcept { sim::heap::release(p); }
void operator delete[](void *p, std::size_t) noexcept { sim::heap::release(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim::heap::release(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim::heap::release(p); }

// malloc as called from the code compiled into the simulator (Eigen's matrices), by -Wl,--wrap=malloc
extern "C" void *__wrap_malloc(std::size_t n) {
  if (sim::heap::sutDepth <= 0) return __real_malloc(n);
  sim::heap::countAndFail(false); // never fails: Eigen's resize frees the old block before it allocates, and keeps the pointer if that throws
  void *p = __real_malloc(n); if (p) sim::heap::fill(p, n); return p;
}

namespace std {
  void random_device::_M_init(const std::string &) {}
  void random_device::_M_fini() {}
  random_device::result_type random_device::_M_getval() { return sim::entropy ? sim::entropy() : 4u; }
  namespace chrono { inline namespace _V2 {
    static std::uint64_t simTicks = 0;
    system_clock::time_point system_clock::now() noexcept { simTicks += 1000; return time_point(duration(static_cast<rep>(1700000000000000000LL + static_cast<rep>(simTicks)))); }
  } }
}
