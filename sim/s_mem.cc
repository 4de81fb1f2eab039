// Membership queries: M01 M02
#include "env.hh"
namespace sim {
  static Target drawT(Run &r, int maxClocks, bool copies) {
    GenCfg g; g.clocks = r.ch.range(1, maxClocks); g.locs = r.ch.range(1, 4); g.letters = r.ch.range(1, 2); g.maxc = r.ch.range(1, 3); g.copies = copies;
    g.complete = r.ch.chance(1, 4); g.missPct = r.ch.pick(std::vector<int>{20, 40, 5}); g.cutPct = r.ch.pick(std::vector<int>{60, 90, 40}); g.accPct = r.ch.pick(std::vector<int>{50, 30, 70});
    Target t; t.letters = g.letters; t.a = genAut(r.ch, g); r.desc("system (alphabet size " + std::to_string(t.letters) + ")\n" + ref::show(t.a)); r.logs(ref::show(t.a)); return t;
  }
  static ref::Word drawW(Run &r, int letters, int maxLen, int grid, int maxTime) {
    ref::Word w; w.d = {ref::UNIT / grid * r.ch.range(0, maxTime * grid)}; const int len = r.ch.range(0, maxLen);
    for (int k = 0; k < len; ++k) { w.w.push_back(char('a' + r.ch.below(std::uint64_t(letters)))); w.d.push_back(ref::UNIT / grid * r.ch.range(0, maxTime * grid)); }
    return w;
  }
  // ---- M01: the answers to membership queries -------------------------------------------------------------------------
  static void membership(Run &r, int mode) { // 0 no faults, 1 SUL failures, 2 allocation failures
    r.budget(4000000 * 4, true); const Target t = drawT(r, 2, true); const auto ta = toTA(t.a);
    const int clients = r.ch.range(1, 3);
    auto client = [&](int id) {
      SulLog sl; const int kind = int(r.ch.below(3)); const bool real = r.ch.chance(1, 2); const bool cached = kind > 0;
      auto sul = std::make_unique<SimSul>(t, sl, real ? lib::runner(ta) : nullptr, true); auto *sulp = sul.get();
      r.desc("client " + std::to_string(id) + ": oracle kind " + std::to_string(kind) + (real ? ", real runner\n" : "\n"));
      auto o = lib::membership(kind, std::move(sul)); InEnv env;
      std::vector<ref::Word> asked; std::set<std::string> answered; std::size_t aborted = 0; std::size_t calls = 0; const int grid = r.ch.pick(std::vector<int>{2, 4, 16});
      for (int n = r.ch.range(4, 40); n > 0; --n) {
        ref::Word w; const auto k = r.ch.below(6);
        if (asked.empty() || k == 0) w = drawW(r, t.letters, 5, grid, 5);
        else {
          w = r.ch.pick(asked);
          if (k == 2 && !w.w.empty()) { const auto c = r.ch.below(w.w.size()); w.w.resize(c); w.d.resize(c + 1); } // a prefix
          else if (k == 3) { w.w.push_back(char('a' + r.ch.below(std::uint64_t(t.letters)))); w.d.push_back(ref::UNIT / grid * r.ch.range(0, 3 * grid)); } // an extension
          else if (k == 4) { auto &d = w.d[r.ch.below(w.d.size())]; d = std::max<ref::i64>(0, d + ref::UNIT / grid * r.ch.range(-1, 1)); } // another delay
          else if (k == 5 && w.d.size() > 1) std::swap(w.d[r.ch.below(w.d.size())], w.d[r.ch.below(w.d.size())]);
        }
        asked.push_back(w); const auto key = ref::show(w); ref::Exec e(t.a); const bool want = e.run(w);
        // the same word, spelled with unobservable events: they only split the delay
        TimedWord tw = toWord(w);
        if (r.ch.chance(1, 4)) { std::string s; std::vector<double> d; for (std::size_t i = 0; i < w.d.size(); ++i) { if (i) s.push_back(w.w[i - 1]); const auto cut = w.d[i] / 2; if (r.ch.chance(1, 2)) { d.push_back(ref::toD(cut)); s.push_back('\0'); d.push_back(ref::toD(w.d[i] - cut)); } else d.push_back(ref::toD(w.d[i])); } tw = TimedWord{s, d}; r.count("words with unobservable events"); }
        bool done = false;
        for (int attempt = 0; attempt < 20 && !done; ++attempt) {
          const auto pre = sl.pre;
          if (mode == 1 && attempt < 3 && r.ch.chance(1, 3)) sl.failAtCall = sl.calls + 1 + long(r.ch.below(2 * w.w.size() + 3)); else sl.failAtCall = -1;
          if (mode == 2 && attempt < 3 && r.ch.chance(1, 2) && !Fibers::inFiber()) heap::failAfter(1 + r.ch.below(12));
          bool got = false; ++calls;
          try { { InSut s; got = o->ask(tw); } heap::failAfter(0); done = true; }
          catch (const SulFault &) { check(mode == 1, "stray-exception", "a failure out of nowhere"); r.log("%d fails", id); }
          catch (const std::bad_alloc &) { heap::failAfter(0); sl.interrupted = true; check(mode == 2 && heap::failed(), "stray-exception", "bad_alloc out of nowhere"); r.log("%d fails", id); }
          if (!done) { ++aborted; r.count("failed queries"); continue; }
          r.log("%d %s %d", id, key.c_str(), int(got));
          check(sl.failAtCall < 0 || sl.calls < sl.failAtCall || mode != 1, "swallowed-exception", "a failure of the system was swallowed");
          check(got == want, "wrong-answer", "client " + std::to_string(id) + ": the answer to " + key + " is " + std::to_string(got) + " although the system says " + std::to_string(want));
          if (mode == 2 && aborted) check(sl.pre <= pre + 1, "asked-again", "the system is asked several times"); // hashing allocates: a failed rehash may forget answers
          else if (cached && answered.count(key)) check(sl.pre == pre, "asked-again", "the system is asked again about " + key + " although the answer is known");
          else check(sl.pre == pre + 1, "not-asked", "the system is run " + std::to_string(sl.pre - pre) + " times to answer " + key);
          answered.insert(key); r.count("answered queries"); r.state(fnv(key, fnv(ref::show(t.a))));
        }
        check(done, "no-progress", "a query keeps failing although the faults stopped");
        if (mode == 1) sl.failAtCall = -1;
        check(o->count() == sl.pre, "statistics", "the oracle reports " + std::to_string(o->count()) + " runs of the system, actually " + std::to_string(sl.pre));
      }
      (void) sulp; InSut s; o.reset();
    };
    if (mode == 2 || clients == 1) client(0);
    else { for (int i = 0; i < clients; ++i) Fibers::spawn([&client, i] { try { client(i); } catch (const std::exception &e) { InEnv q; run->violation("exception", std::string("unexpected exception: ") + e.what()); } }); Fibers::runAll(r.ch); r.count("client switches", Fibers::switches()); }
  }
  static Register a1("M01", "interleaved-clients", 40, [](Run &r) { membership(r, 0); });
  static Register a2("M01", "sul-failures", 40, [](Run &r) { membership(r, 1); });
  static Register a3("M01", "allocation-failures", 20, [](Run &r) { membership(r, 2); });

  // ---- C01: the counters of the membership oracles and of the executor ---------------------------------------------------
  struct TapSul : SUL { std::unique_ptr<SUL> in; std::size_t pres = 0; long calls = 0, failAt = -1; explicit TapSul(std::unique_ptr<SUL> i) : in(std::move(i)) {}
    ~TapSul() override { InSut s; in.reset(); }
    void call() { ++calls; Fibers::yield(); if (calls == failAt) { run->fault("sul-exception"); throw SulFault(1); } }
    void pre() override { { InEnv e; call(); ++pres; } in->pre(); } void post() override { { InEnv e; call(); } in->post(); }
    bool step(char c) override { { InEnv e; call(); } return in->step(c); } bool step(double d) override { { InEnv e; call(); } return in->step(d); }
    [[nodiscard]] std::size_t count() const override { return in->count(); } };
  static void counters(Run &r) {
    r.budget(4000000, true); Target t; const bool empty = r.ch.chance(1, 6); TimedAutomaton ta;
    if (empty) { t.letters = 2; r.desc("system: an automaton without locations\n"); } else { t = drawT(r, 2, true); ta = toTA(t.a); }
    struct Client { TapSul *tap; std::unique_ptr<lib::Membership> o; int kind; std::size_t asks = 0; std::set<std::string> known; };
    std::vector<std::unique_ptr<Client>> cs; const int n = r.ch.range(1, 3);
    for (int i = 0; i < n; ++i) { auto c = std::make_unique<Client>(); c->kind = int(r.ch.below(3)); auto tap = std::make_unique<TapSul>(lib::runner(ta)); c->tap = tap.get(); c->o = lib::membership(c->kind, std::move(tap)); cs.push_back(std::move(c)); r.desc("client with oracle kind " + std::to_string(cs.back()->kind) + "\n"); }
    std::vector<ref::Word> pool; for (int i = r.ch.range(1, 5); i > 0; --i) pool.push_back(drawW(r, t.letters, 4, 2, 3));
    for (int ops = r.ch.range(3, 25); ops > 0; --ops) {
      auto &c = *cs[r.ch.below(cs.size())]; const auto &w = r.ch.pick(pool); c.tap->failAt = r.ch.chance(1, 6) ? c.tap->calls + 1 + long(r.ch.below(4)) : -1;
      const auto before = c.tap->pres; ++c.asks; bool ok = false, got = false;
      try { InSut s; got = c.o->ask(toWord(w)); ok = true; } catch (const SulFault &) {}
      c.tap->failAt = -1; const auto key = ref::show(w); r.log("%s %d %d", key.c_str(), int(ok), int(got));
      if (ok) { bool want = false; if (!empty) { ref::Exec e(t.a); want = e.run(w); } check(got == want, "wrong-answer", "the answer to " + key + " is wrong"); check(c.kind == 0 || !c.known.count(key) || c.tap->pres == before, "statistics", "a known word is executed again"); c.known.insert(key); }
      for (auto &q: cs) {
        std::size_t count; std::string text; { InSut s; count = q->o->count(); text = q->o->statistics(); }
        auto is = [&](const char *label, std::size_t want) { const long v = statistic(text, label); check(v == long(want), "statistics", std::string("\"") + label + "\" reports " + std::to_string(v) + ", actually " + std::to_string(want)); };
        check(count == q->tap->pres, "statistics", "the oracle reports " + std::to_string(count) + " executions, actually " + std::to_string(q->tap->pres));
        is("Number of membership queries", q->kind == 0 ? q->tap->pres : q->asks); if (q->kind > 0) is("Number of membership queries (with cache)", q->tap->pres);
        if (q->kind == 2) { is("Number of symbolic membership queries", 0); is("Number of symbolic membership queries (with cache)", 0); }
      }
      r.count("counted queries"); r.state(fnv(key, c.tap->pres));
    }
    InSut s; cs.clear();
  }
  static Register a4("C01", "membership-counters", 25, counters);

  // ---- M02: the answers to symbolic queries -----------------------------------------------------------------------------
  static bool within(const lib::Cond &c, const std::vector<double> &d) {
    for (std::size_t i = 0; i < c.n; ++i) { double s = 0; for (std::size_t j = i; j < c.n; ++j) { s += d[j]; const auto &l = c.lo[i * c.n + j], &u = c.up[i * c.n + j]; if (l.closed ? s < l.v : s <= l.v) return false; if (u.closed ? s > u.v : s >= u.v) return false; } }
    return true;
  }
  // durations drawn one after the other inside the condition; nullopt if the grid is too coarse
  static std::optional<std::vector<double>> drawIn(Run &r, Prng &p, const lib::Cond &c) {
    std::vector<double> d; constexpr double G = 1.0 / 64;
    for (std::size_t i = 0; i < c.n; ++i) {
      double lo = 0, hi = 1e9, s = 0;
      for (int j = int(i); j >= 0; --j) { if (j < int(i)) s += d[std::size_t(j)]; const auto &l = c.lo[std::size_t(j) * c.n + i], &u = c.up[std::size_t(j) * c.n + i]; lo = std::max(lo, l.v - s + (l.closed ? 0 : G)); hi = std::min(hi, u.v - s - (u.closed ? 0 : G)); }
      if (lo > hi) return std::nullopt;
      hi = std::min(hi, lo + 8); const auto n = std::uint64_t((hi - lo) / G); const auto q = p.below(8); // the borders of the interval are drawn often
      d.push_back(lo + G * double(q == 0 ? 0 : q == 1 ? n : p.below(n + 1)));
    }
    (void) r; return d;
  }
  static void symbolic(Run &r, int mode) { // 0 none, 1 SUL failures, 2 allocation failures
    r.budget(4000000 * 4, true); const Target t = drawT(r, 2, true); const auto ta = toTA(t.a);
    const int clients = mode == 2 ? 1 : r.ch.range(1, 2);
    auto client = [&](int id) {
      SulLog sl; const bool real = r.ch.chance(1, 2); auto sul = std::make_unique<SimSul>(t, sl, real ? lib::runner(ta) : nullptr, true); auto o = lib::symbolic(std::move(sul));
      std::vector<int> ids; std::vector<std::vector<lib::Cond>> answers;
      auto steps = [&](int maxActions, int maxTicks) { std::string s; const int n = r.ch.range(r.ch.chance(3, 4) ? 3 : 0, maxActions + maxTicks + 2); int a = 0, k = 0; for (int i = 0; i < n; ++i) if (r.ch.chance(1, 3)) { if (a++ < maxActions) s.push_back(char('a' + r.ch.below(std::uint64_t(t.letters)))); } else if (k++ < maxTicks) s.push_back('\0'); return s; };
      for (int n = r.ch.range(2, 8); n > 0; --n) {
        int q; std::size_t slot; std::string w; lib::Cond c;
        if (ids.empty() || !r.ch.chance(1, 4)) { const auto p = steps(2, 7), s = steps(2, 5); { InSut x; q = o->build(p, s); w = o->word(q); c = o->cond(q); } slot = ids.size(); ids.push_back(q); answers.emplace_back(); }
        else { slot = r.ch.below(ids.size()); q = ids[slot]; InSut x; w = o->word(q); c = o->cond(q); }
        std::vector<lib::Cond> res; bool done = false;
        for (int attempt = 0; attempt < 8 && !done; ++attempt) {
          const auto base = heap::sutAllocs(); (void) base;
          if (mode == 1 && attempt < 3 && r.ch.chance(1, 2)) sl.failAtCall = sl.calls + 1 + long(r.ch.below(r.ch.chance(1, 2) ? 12 : 80)); else sl.failAtCall = -1;
          if (mode == 2 && attempt < 3 && r.ch.chance(2, 3)) heap::failAfter(1 + r.ch.below(r.ch.chance(1, 2) ? 60 : 600));
          try { { InSut x; res = o->query(q, r.ch.chance(1, 2)); } heap::failAfter(0); done = true; }
          catch (const SulFault &) { check(mode == 1, "stray-exception", "a failure out of nowhere"); r.count("failed queries"); }
          catch (const std::bad_alloc &) { heap::failAfter(0); sl.interrupted = true; check(mode == 2 && heap::failed(), "stray-exception", "bad_alloc out of nowhere"); r.count("failed queries"); }
        }
        check(done, "no-progress", "a symbolic query keeps failing although the faults stopped"); sl.failAtCall = -1;
        r.count("symbolic queries"); r.log("%d query %zu over \"%s\": %zu conditions, %zu runs", id, slot, w.c_str(), res.size(), sl.pre);
        Prng p(r.ch.sub()); int in = 0, acc = 0;
        for (int i = 0; i < 60; ++i) {
          const auto d = drawIn(r, p, c); if (!d) { r.count("grid too coarse"); continue; }
          if (!within(c, *d)) { r.count("sample outside of the language"); continue; }
          ref::Word rw; rw.w = w; for (double x: *d) { ref::i64 k; if (!ref::fromD(x, k)) run->inconclusive("grid"); rw.d.push_back(k); }
          ref::Exec e(t.a); const bool want = e.run(rw); bool got = false; for (auto &x: res) got |= within(x, *d);
          ++in; acc += want;
          check(got == want, "wrong-answer", "the answer to the symbolic query over \"" + w + "\" is wrong on " + ref::show(rw) + ": it says " + std::to_string(got));
        }
        for (auto &x: res) for (int i = 0; i < 10; ++i) if (const auto d = drawIn(r, p, x)) { check(!within(x, *d) || within(c, *d), "wrong-answer", "the answer to a symbolic query contains words outside of the query"); }
        if (acc > 0 && acc < in) r.count("mixed symbolic queries"); r.count("words checked", std::size_t(in));
        r.state(fnv(w, mix(std::uint64_t(acc), res.size())));
        if (r.ch.chance(1, 3)) { const auto d = drawIn(r, p, c); if (d && within(c, *d)) { bool got; { InSut x; got = o->ask(TimedWord{w, *d}); } ref::Word rw; rw.w = w; for (double x: *d) { ref::i64 k; ref::fromD(x, k); rw.d.push_back(k); } ref::Exec e(t.a); check(got == e.run(rw), "wrong-answer", "a plain query after symbolic ones is answered wrongly"); } }
      }
      check(o->count() == sl.pre, "statistics", "the number of runs of the system is misreported"); if (mode == 0) for (auto &[k, n]: sl.words) check(n == 1, "asked-again", "the system is asked " + std::to_string(n) + " times about " + k);
      InSut s; o.reset();
    };
    if (clients == 1) client(0);
    else { for (int i = 0; i < clients; ++i) Fibers::spawn([&client, i] { try { client(i); } catch (const std::exception &e) { InEnv q; run->violation("exception", std::string("unexpected exception: ") + e.what()); } }); Fibers::runAll(r.ch); r.count("client switches", Fibers::switches()); }
  }
  static Register b1("M02", "interleaved-clients", 50, [](Run &r) { symbolic(r, 0); });
  static Register b2("M02", "sul-failures", 30, [](Run &r) { symbolic(r, 1); });
  static Register b3("M02", "allocation-failures", 20, [](Run &r) { symbolic(r, 2); });
}
