// Whole learning sessions: L01 L02 L03 C01 S01 F01
#include "env.hh"
namespace sim {
  struct Class { const char *name; int clocks, locsLo, locsHi, lettersLo, lettersHi, maxcLo, maxcHi; };
  static Target drawTarget(Run &r, const Class &c) {
    GenCfg g; g.clocks = c.clocks; g.locs = r.ch.range(c.locsLo, c.locsHi); g.letters = r.ch.range(c.lettersLo, c.lettersHi); g.maxc = r.ch.range(c.maxcLo, c.maxcHi);
    g.complete = r.ch.chance(1, 4); g.missPct = r.ch.pick(std::vector<int>{20, 40, 5}); g.cutPct = r.ch.pick(std::vector<int>{60, 90, 40}); g.accPct = r.ch.pick(std::vector<int>{50, 30, 70});
    Target t; t.letters = g.letters; t.a = genAut(r.ch, g); t.name = c.name;
    r.desc("target (" + t.name + ", alphabet size " + std::to_string(t.letters) + ")\n" + ref::show(t.a)); r.logs(ref::show(t.a));
    return t;
  }
  static const char *teacherName[] = {"exact, shortest", "exact, any", "exact, any, repeating", "complement", "memo(complement)", "memo(exact)", "chain(random test, complement)", "chain(test, exact)", "memo(chain(tests, complement simplified))"};
  static std::unique_ptr<EquivalenceOracle> makeTeacher(Run &r, const Target &t, TeacherLog &lg, const TimedAutomaton &ta, int kind) {
    using V = std::vector<std::unique_ptr<EquivalenceOracle>>;
    const auto al = alphabetOf(t.letters);
    auto compl_ = [&] { return lib::complementOracle(ta, ta.complement(al), al); };
    auto watch = [&](std::unique_ptr<EquivalenceOracle> o, const char *what) { return std::make_unique<WatchedOracle>(t, lg, std::move(o), true, what); };
    switch (kind) {
      case 0: case 1: case 2: return std::make_unique<SimTeacher>(t, lg, r.ch, kind);
      case 3: return watch(compl_(), "the complement oracle");
      case 4: return watch(lib::memoOracle(compl_(), ta), "the memo over the complement oracle");
      case 5: { auto *inner = new TeacherLog; return watch(lib::memoOracle(std::make_unique<SimTeacher>(t, *inner, r.ch, 1), ta), "the memo oracle"); }
      case 6: { V v; v.push_back(lib::randomOracle(al, ta, 20, 6, 4)); v.push_back(compl_()); return watch(lib::chainOracle(std::move(v)), "the chain of random tests and the complement oracle"); }
      default: { V v; std::vector<TimedWord> ws; auto simplified = [&] { InSut s; auto c = ta.complement(al); lib::inPlace(c, lib::SIMPLIFY_STRONG, al); if (!c.initialStates.empty()) lib::inPlace(c, lib::SIMPLIFY_ZONES, al); return c; }; const int n = r.ch.range(0, 4); for (int i = 0; i < n; ++i) { ref::Word w; w.d = {0}; const int len = r.ch.range(0, 4); w.d[0] = ref::UNIT / 2 * r.ch.range(0, 6); for (int k = 0; k < len; ++k) { w.w.push_back(char('a' + r.ch.below(std::uint64_t(t.letters)))); w.d.push_back(ref::UNIT / 2 * r.ch.range(0, 6)); } ws.push_back(toWord(w)); }
        if (kind == 8) { v.push_back(lib::testOracle(ta, ws)); v.push_back(lib::complementOracle(ta, simplified(), al)); return watch(lib::memoOracle(lib::chainOracle(std::move(v)), ta), "the memo over the chain of tests and the simplified complement"); }
        auto *inner = new TeacherLog; v.push_back(lib::testOracle(ta, ws)); v.push_back(std::make_unique<SimTeacher>(t, *inner, r.ch, 1)); return watch(lib::chainOracle(std::move(v)), "the chain of tests and the exact oracle"); }
    }
  }
  static void checkResult(Run &r, const Target &t, const TimedAutomaton &h, const char *cls) {
    const auto bad = malformed(h, t.letters); check(bad.empty(), "malformed-result", bad);
    const auto H = fromTA(h); const auto e = ref::equivalent(t.a, H, alphabetStr(t.letters));
    if (!e.decided) r.inconclusive("result: product too large");
    r.logs("result " + std::to_string(e.equal));
    check(e.equal, cls, "the learned automaton is wrong on " + ref::show(e.cex) + "\nlearned\n" + ref::show(H));
    // and as executed by the library's own runner
    TimedAutomaton copy = h; auto run1 = lib::runner(copy);
    for (int i = 0; i < 6; ++i) { ref::Word w; w.d = {ref::UNIT / 4 * r.ch.range(0, 14)}; const int len = r.ch.range(0, 5); for (int k = 0; k < len; ++k) { w.w.push_back(char('a' + r.ch.below(std::uint64_t(t.letters)))); w.d.push_back(ref::UNIT / 4 * r.ch.range(0, 14)); }
      bool q; { InSut s; q = runSul(*run1, toWord(w)); } ref::Exec x(t.a); check(q == x.run(w), cls, "the learned automaton, executed, is wrong on " + ref::show(w) + "\nlearned\n" + ref::show(H)); }
  }
  struct Ended { int queries; std::size_t pre, maxRepeats, maxMem; };
  static std::function<unsigned()> seededEntropy(Run &r) { auto p = std::make_shared<Prng>(r.ch.sub()); return [p] { return unsigned(p->next() >> 32); }; }
  static void learnOnce(Run &r, const Class &c, std::uint64_t budget, bool hard, int kinds) {
    r.budget(budget, hard);
    const Target t = drawTarget(r, c); entropy = seededEntropy(r);
    const int kind = int(r.ch.below(std::uint64_t(kinds))); const bool real = r.ch.chance(1, 2);
    r.desc(std::string("teacher: ") + teacherName[kind] + (real ? "; real runner" : "; reference as the system") + "\n");
    const auto ta = toTA(t.a); SulLog sl; TeacherLog tl; tl.sul = &sl; sl.keepWords = false;
    auto sul = std::make_unique<SimSul>(t, sl, real ? lib::runner(ta) : nullptr);
    auto teacher = makeTeacher(r, t, tl, ta, kind);
    TimedAutomaton h;
    { InSut s; auto l = lib::learner(alphabetOf(t.letters), std::move(sul), std::move(teacher)); h = l->run(); }
    r.count("learning sessions"); r.count("membership queries", sl.pre); r.count("equivalence queries", std::size_t(tl.queries)); r.count((std::string("teacher: ") + teacherName[kind]).substr(0, 47).c_str());
    checkResult(r, t, h, "wrong-language");
    if (const char *f = getenv("SIM_STAT")) { if (FILE *o = std::fopen(f, "a")) { std::fprintf(o, "%s | locs %zu cexs %d q %d mem %zu rep %zu between %zu allocs %lu hyp %zu\n", c.name, t.a.locs.size(), tl.cexs, tl.queries, sl.pre, tl.maxRepeats, tl.maxMemBetween, heap::sutAllocs(), h.stateSize()); std::fclose(o); } }
  }
  static const Class TINY{"one clock, tiny", 1, 1, 2, 1, 1, 0, 2}, ONE{"one clock", 1, 2, 4, 1, 2, 1, 4}, TWO{"two clocks", 2, 1, 2, 1, 1, 1, 2}, TWOL{"two clocks, two letters", 2, 1, 2, 1, 2, 1, 1},
          SMALL{"one clock, small", 1, 2, 3, 1, 2, 1, 2};
  constexpr std::uint64_t HARD = 8000000, SOFT = 4000000;
  static Register a1("L01", "tiny", 30, [](Run &r) { learnOnce(r, TINY, HARD, true, 9); });
  static Register a2("L01", "one-clock", 40, [](Run &r) { learnOnce(r, ONE, SOFT, false, 9); });
  static Register a3("L01", "two-clocks", 15, [](Run &r) { learnOnce(r, TWO, SOFT, false, 9); });
  static Register a4("L01", "two-clocks-two-letters", 15, [](Run &r) { learnOnce(r, TWOL, SOFT, false, 9); });

  static ref::Word drawWord(Run &r, int letters, int maxLen, int grid = 4, int maxTime = 14) {
    ref::Word w; w.d = {ref::UNIT / grid * r.ch.range(0, maxTime)}; const int len = r.ch.range(0, maxLen);
    for (int k = 0; k < len; ++k) { w.w.push_back(char('a' + r.ch.below(std::uint64_t(letters)))); w.d.push_back(ref::UNIT / grid * r.ch.range(0, maxTime)); }
    return w;
  }
  // ---- L02: the hypotheses are legal, executable and stay what they were ------------------------------------------
  struct Probe { std::unique_ptr<SUL> runner; ref::Aut snap; ref::Exec ex; ref::Word w; std::size_t at = 0; Probe(const TimedAutomaton &h, const ref::Aut &H) : snap(H), ex(snap) { InSut s; runner = lib::runner(h); } };
  static void advance(Run &r, Probe &p, std::size_t upto) {
    for (; p.at < upto && p.at <= p.w.w.size(); ++p.at) {
      if (p.at == 0) { InSut s; p.runner->pre(); }
      if (p.at > 0) { bool q; { InSut s; q = p.runner->step(p.w.w[p.at - 1]); } const bool e = p.ex.step(p.w.w[p.at - 1]); check(q == e, "hypothesis-run", "a run of a conjectured automaton started before the learner went on goes wrong at an action of " + ref::show(p.w)); }
      bool q; { InSut s; q = p.runner->step(ref::toD(p.w.d[p.at])); } bool e = p.ex.delay(p.w.d[p.at]); if (p.w.d[p.at] == 0) e = p.ex.acc();
      check(q == e, "hypothesis-run", "a run of a conjectured automaton goes wrong at a delay of " + ref::show(p.w));
      r.count("probe steps");
    }
  }
  static void hypotheses(Run &r, const Class &c, std::uint64_t budget, bool hard) {
    r.budget(budget, hard); const Target t = drawTarget(r, c); entropy = seededEntropy(r);
    const int kind = int(r.ch.below(9)); const auto ta = toTA(t.a); SulLog sl; TeacherLog tl; tl.sul = &sl; tl.keep = true; sl.keepWords = false; r.desc(std::string("teacher: ") + teacherName[kind] + "\n");
    std::vector<std::unique_ptr<Probe>> probes; const std::string al = alphabetStr(t.letters);
    tl.onHypothesis = [&](const TimedAutomaton &h, const ref::Aut &H) {
      for (auto &p: probes) advance(r, *p, p->at + 1); // runs of older hypotheses go on while the learner works
      for (int i = 0; i < 2; ++i) { auto p = std::make_unique<Probe>(h, H); p->w = drawWord(r, t.letters, 5); advance(r, *p, r.ch.below(3)); probes.push_back(std::move(p)); }
    };
    TimedAutomaton h; auto sul = std::make_unique<SimSul>(t, sl, nullptr); auto teacher = makeTeacher(r, t, tl, ta, kind);
    { InSut s; auto l = lib::learner(alphabetOf(t.letters), std::move(sul), std::move(teacher)); h = l->run(); }
    r.count("learning sessions"); r.count("hypotheses kept", tl.kept.size());
    for (auto &p: probes) advance(r, *p, 100);
    for (std::size_t i = 0; i < tl.kept.size(); ++i) {
      const auto bad = malformed(tl.kept[i], t.letters); check(bad.empty(), "hypothesis-changed", "conjecture #" + std::to_string(i) + ", after the session: " + bad);
      const auto now = fromTA(tl.kept[i]); if (ref::show(now) == ref::show(tl.snap[i])) continue;
      const auto e = ref::equivalent(tl.snap[i], now, al); if (!e.decided) continue;
      check(e.equal, "hypothesis-changed", "conjecture #" + std::to_string(i) + " changes its language after it was submitted, on " + ref::show(e.cex) + "\nthen\n" + ref::show(tl.snap[i]) + "now\n" + ref::show(now));
    }
    const auto bad = malformed(h, t.letters); check(bad.empty(), "malformed-result", bad);
    if (!tl.snap.empty()) { const auto e = ref::equivalent(tl.snap.back(), fromTA(h), al); if (e.decided) check(e.equal, "result-differs", "the returned automaton is not the one the teacher accepted: " + ref::show(e.cex)); }
    r.logs("end");
  }
  static Register b1("L02", "tiny", 25, [](Run &r) { hypotheses(r, TINY, HARD, true); });
  static Register b2("L02", "one-clock", 45, [](Run &r) { hypotheses(r, ONE, SOFT, false); });
  static Register b3("L02", "two-clocks", 15, [](Run &r) { hypotheses(r, TWO, SOFT, false); });
  static Register b4("L02", "two-clocks-two-letters", 15, [](Run &r) { hypotheses(r, TWOL, SOFT, false); });

  // ---- L03: progress ---------------------------------------------------------------------------------------------
  static void progress(Run &r, const Class &c, std::uint64_t budget, bool hard, int maxCex, int maxRepeat, std::size_t maxMem) {
    r.budget(budget, hard); const Target t = drawTarget(r, c); entropy = seededEntropy(r);
    const int kind = int(r.ch.below(9)); const auto ta = toTA(t.a); SulLog sl; TeacherLog tl; tl.sul = &sl; sl.keepWords = false; r.desc(std::string("teacher: ") + teacherName[kind] + "\n");
    tl.onHypothesis = [&](const TimedAutomaton &, const ref::Aut &) {
      check(tl.cexs <= maxCex, "no-progress", "the session needs more than " + std::to_string(maxCex) + " counterexamples");
      check(int(tl.maxRepeats) <= maxRepeat, "no-progress", "one counterexample remains a counterexample to the hypothesis after it was given " + std::to_string(tl.maxRepeats) + " times");
      check(tl.maxMemBetween <= maxMem, "no-progress", "more than " + std::to_string(maxMem) + " membership queries between two hypotheses");
    };
    // a stuck learner asks on and on between two hypotheses: the simulated system notices
    struct Watch : SUL { std::unique_ptr<SimSul> in; TeacherLog &tl; SulLog &sl; std::size_t lim; Watch(std::unique_ptr<SimSul> i, TeacherLog &tl, SulLog &sl, std::size_t lim) : in(std::move(i)), tl(tl), sl(sl), lim(lim) {}
      void pre() override { in->pre(); InEnv e; check(sl.pre - tl.lastPre <= lim, "no-progress", "more than " + std::to_string(lim) + " membership queries without a hypothesis"); }
      void post() override { in->post(); } bool step(char c) override { return in->step(c); } bool step(double d) override { return in->step(d); } [[nodiscard]] std::size_t count() const override { return in->count(); } };
    auto sul = std::make_unique<Watch>(std::make_unique<SimSul>(t, sl, nullptr, true), tl, sl, maxMem); auto teacher = makeTeacher(r, t, tl, ta, kind);
    TimedAutomaton h; { InSut s; auto l = lib::learner(alphabetOf(t.letters), std::move(sul), std::move(teacher)); h = l->run(); }
    r.count("learning sessions"); r.count("counterexamples", std::size_t(tl.cexs)); r.count("membership queries", sl.pre); r.log("end %d %zu", tl.cexs, sl.pre); r.state(mix(std::uint64_t(tl.cexs), sl.pre));
  }
  static Register c1("L03", "tiny", 60, [](Run &r) { progress(r, TINY, HARD, true, 60, 30, 20000); });
  static Register c2("L03", "small", 25, [](Run &r) { progress(r, SMALL, 40000000, false, 150, 80, 200000); });
  static Register c3("L03", "two-clocks", 15, [](Run &r) { progress(r, TWO, SOFT, false, 150, 80, 200000); });

  // ---- C01: reported statistics -------------------------------------------------------------------------------------
  struct CountingOracle : EquivalenceOracle { std::unique_ptr<EquivalenceOracle> in; std::size_t &n; CountingOracle(std::unique_ptr<EquivalenceOracle> i, std::size_t &n) : in(std::move(i)), n(n) {} std::optional<TimedWord> findCounterExample(const TimedAutomaton &h) override { ++n; ++eqQueryCount; return in->findCounterExample(h); } };
  static void statistics(Run &r, const Class &c) {
    r.budget(SOFT, false); const Target t = drawTarget(r, c); entropy = seededEntropy(r);
    const auto ta = toTA(t.a); SulLog sl; TeacherLog tl, inner; tl.sul = &sl; const auto al = alphabetOf(t.letters);
    const int kind = int(r.ch.below(5)); std::size_t outerCalls = 0, innerCalls = 0; std::unique_ptr<EquivalenceOracle> teacher;
    auto exact = [&](TeacherLog &l) { return std::make_unique<SimTeacher>(t, l, r.ch, 1); };
    struct Outer : EquivalenceOracle { // sees the calls of the learner, answers and reports through the oracle under test
      std::unique_ptr<EquivalenceOracle> in; std::size_t &n; Outer(std::unique_ptr<EquivalenceOracle> i, std::size_t &n) : in(std::move(i)), n(n) {}
      std::optional<TimedWord> findCounterExample(const TimedAutomaton &h) override { ++n; ++eqQueryCount; return in->findCounterExample(h); }
      std::ostream &printStatistics(std::ostream &o) const override { return in->printStatistics(o); } };
    EquivalenceOracle *mid = nullptr; const char *names[] = {"exact", "memo", "complement", "chain", "random+exact chain"};
    if (kind == 0) teacher = exact(tl);
    else if (kind == 1) teacher = lib::memoOracle(std::make_unique<CountingOracle>(exact(tl), innerCalls), ta);
    else if (kind == 2) teacher = lib::complementOracle(ta, ta.complement(al), al);
    else { std::vector<std::unique_ptr<EquivalenceOracle>> v; if (kind == 4) v.push_back(lib::randomOracle(al, ta, 10, 4, 3)); v.push_back(lib::testOracle(ta, {})); v.push_back(std::make_unique<CountingOracle>(exact(tl), innerCalls)); teacher = lib::chainOracle(std::move(v)); }
    mid = teacher.get(); r.desc(std::string("teacher: ") + names[kind] + "\n");
    auto outer = std::make_unique<Outer>(std::move(teacher), outerCalls);
    SimSul *sulp; auto sul = std::make_unique<SimSul>(t, sl, nullptr); sulp = sul.get(); (void) sulp;
    InSut s; auto l = lib::learner(al, std::move(sul), std::move(outer));
    auto verify = [&](const char *when) {
      InEnv e; std::string text; std::size_t numEq; { InSut q; text = l->statistics(); numEq = l->numEq(); } r.logs(text);
      auto eq = [&](const char *label, std::size_t want) { const long v = statistic(text, label); check(v == long(want), "statistics", std::string(when) + ": \"" + label + "\" reports " + std::to_string(v) + ", actually " + std::to_string(want)); };
      const auto midCalls = mid->numEqQueries();
      check(numEq == outerCalls, "statistics", std::string(when) + ": the learner reports " + std::to_string(numEq) + " equivalence queries, actually " + std::to_string(outerCalls));
      check(midCalls == outerCalls, "statistics", std::string(when) + ": the oracle counts " + std::to_string(midCalls) + " equivalence queries, actually " + std::to_string(outerCalls));
      eq("Number of equivalence queries", outerCalls);
      if (kind == 1) eq("Number of equivalence queries (with cache)", innerCalls);
      eq("Number of membership queries (with cache)", sl.pre);
      const long all = statistic(text, "Number of membership queries"), sym = statistic(text, "Number of symbolic membership queries"), symC = statistic(text, "Number of symbolic membership queries (with cache)");
      check(all >= long(sl.pre) && sym >= symC && symC > 0, "statistics", std::string(when) + ": implausible totals: " + text);
      check(sl.pre == sl.words.size(), "statistics", std::string(when) + ": a word was asked more than once although answers are cached");
    };
    verify("before learning");
    auto h = l->run(); verify("after learning");
    { InEnv e; r.count("learning sessions"); }
    if (r.ch.chance(1, 2)) { const auto before = sl.pre; auto h2 = l->run(); verify("after a second run"); InEnv e; r.count("repeated runs"); check(sl.pre == before, "statistics", "a repeated run asks new membership queries"); checkResult(r, t, h2, "wrong-language"); }
  }
  static Register d1("C01", "tiny", 50, [](Run &r) { statistics(r, TINY); });
  static Register d2("C01", "small", 40, [](Run &r) { statistics(r, SMALL); });
  static Register d3("C01", "two-clocks", 10, [](Run &r) { statistics(r, TWO); });

  // ---- S01: sessions in one process do not influence one another -------------------------------------------------------
  static void isolation(Run &r, bool faults) {
    r.budget(3 * SOFT, false); entropy = seededEntropy(r);
    const int n = r.ch.range(2, 4); struct Sess { Target t; TimedAutomaton ta; SulLog sl; TeacherLog tl; int kind; bool done = false, failed = false; };
    std::vector<std::unique_ptr<Sess>> ss;
    for (int i = 0; i < n; ++i) {
      auto s = std::make_unique<Sess>();
      if (i > 0 && r.ch.chance(1, 3)) { s->t = ss[0]->t; s->ta = ss[0]->ta; r.desc("same target as session 0\n"); r.count("shared automata"); } // the sessions share one automaton object
      else { s->t = drawTarget(r, r.ch.chance(1, 3) ? SMALL : r.ch.chance(1, 4) ? TWO : TINY); s->ta = toTA(s->t.a); }
      s->kind = int(r.ch.below(9)); s->sl.keepWords = true; s->tl.sul = &s->sl;
      if (faults && r.ch.chance(1, 2)) { if (r.ch.chance(1, 4)) s->tl.failAtQuery = r.ch.range(1, 4); else s->sl.failAtCall = 1 + long(r.ch.below(r.ch.chance(1, 2) ? 2000 : 60)); }
      r.desc("session " + std::to_string(i) + " teacher: " + teacherName[s->kind] + "\n"); ss.push_back(std::move(s));
    }
    const bool nested = r.ch.chance(1, 5);
    auto body = [&](int i) {
      auto &s = *ss[std::size_t(i)];
      auto sul = std::make_unique<SimSul>(s.t, s.sl, r.ch.chance(1, 2) ? lib::runner(s.ta) : nullptr, true); auto teacher = makeTeacher(r, s.t, s.tl, s.ta, s.kind);
      TimedAutomaton h; bool ok = false;
      try { InSut x; auto l = lib::learner(alphabetOf(s.t.letters), std::move(sul), std::move(teacher)); h = l->run(); ok = true; }
      catch (const SulFault &) { InEnv e; check(s.sl.faults > 0, "stray-exception", "an exception of another session"); s.failed = true; }
      catch (const TeacherFault &) { InEnv e; check(s.tl.faults > 0, "stray-exception", "an exception of another session"); s.failed = true; }
      InEnv e; check(ok || s.failed, "stray-exception", "no result"); r.log("session %d ends %s", i, ok ? "ok" : "failed");
      if (ok) { check(s.sl.faults + std::size_t(s.tl.faults) == 0, "swallowed-exception", "the failure of the environment was swallowed"); checkResult(r, s.t, h, "wrong-language"); for (auto &[w, k]: s.sl.words) check(k == 1, "repeated-query", "session " + std::to_string(i) + " asks " + w + " more than once"); s.done = true; r.count("sessions finished"); }
      else r.count("sessions failed by injection");
    };
    if (nested) { // strictly one after the other, and the first one again at the end
      for (int i = 0; i < n; ++i) body(i);
      r.count("sequential histories"); ss[0]->sl = SulLog{}; ss[0]->tl = TeacherLog{}; body(0);
    } else {
      for (int i = 0; i < n; ++i) Fibers::spawn([&body, i] { try { body(i); } catch (const std::exception &e) { InEnv q; run->violation("exception", std::string("unexpected exception ") + typeid(e).name() + ": " + e.what()); } });
      Fibers::runAll(r.ch); r.count("interleaved histories"); r.count("session switches", Fibers::switches());
    }
  }
  static Register e1("S01", "interleaved", 70, [](Run &r) { isolation(r, false); });
  static Register e2("S01", "interleaved-with-failures", 30, [](Run &r) { isolation(r, true); });

  // ---- F01: failures of the environment ---------------------------------------------------------------------------------
  static void failures(Run &r, int mode) { // 0 SUL, 1 teacher, 2 allocation
    r.budget(3 * SOFT, false); entropy = seededEntropy(r); const Target t = drawTarget(r, r.ch.chance(1, 3) ? SMALL : r.ch.chance(1, 4) ? TWO : TINY); const auto ta = toTA(t.a);
    const int rounds = r.ch.range(1, 3); static int suls = 0, teachers = 0; suls = teachers = 0;
    struct CSul : SimSul { using SimSul::SimSul; ~CSul() override { --suls; } };
    struct CTeacher : EquivalenceOracle { std::unique_ptr<EquivalenceOracle> in; explicit CTeacher(std::unique_ptr<EquivalenceOracle> i) : in(std::move(i)) {} ~CTeacher() override { --teachers; InEnv e; in.reset(); } std::optional<TimedWord> findCounterExample(const TimedAutomaton &h) override { ++eqQueryCount; return in->findCounterExample(h); } };
    auto session = [&](bool inject) {
      auto sl = std::make_unique<SulLog>(); auto tl = std::make_unique<TeacherLog>(); sl->keepWords = false; const int kind = int(r.ch.below(9));
      if (inject && mode == 0) { const std::uint64_t lim[] = {40, 400, 4000}; sl->failAtCall = 1 + long(r.ch.below(lim[r.ch.below(3)])); }
      if (inject && mode == 1) tl->failAtQuery = r.ch.range(1, 5);
      r.desc(std::string(inject ? "failing" : "clean") + " session, teacher: " + teacherName[kind] + "\n");
      TimedAutomaton h; bool ok = false, threw = false; const bool resume = inject && mode == 1;
      {
        auto sul = std::make_unique<CSul>(t, *sl, r.ch.chance(1, 2) ? lib::runner(ta) : nullptr, true); ++suls;
        auto teacher = std::make_unique<CTeacher>(makeTeacher(r, t, *tl, ta, kind)); ++teachers;
        if (inject && mode == 2) { const std::uint64_t lim[] = {200, 5000, 100000}; heap::failAfter(1 + r.ch.below(lim[r.ch.below(3)]), r.ch.chance(1, 4) ? 3 : 1); }
        std::unique_ptr<lib::Session> l;
        try { InSut x; l = lib::learner(alphabetOf(t.letters), std::move(sul), std::move(teacher)); h = l->run(); ok = true; }
        catch (const SulFault &f) { InEnv e; threw = true; check(sl->faults > 0 && f.id == 1, "wrong-exception", "SUL failure out of nowhere"); }
        catch (const TeacherFault &f) { InEnv e; threw = true; check(tl->faults > 0 && f.id == 2, "wrong-exception", "teacher failure out of nowhere"); }
        catch (const std::bad_alloc &) { InEnv e; threw = true; check(heap::failed(), "wrong-exception", "bad_alloc out of nowhere"); }
        const bool hit = heap::failed(); heap::failAfter(0);
        r.log("session %s", ok ? "ok" : "threw");
        if (inject && mode == 0) check(ok == (sl->faults == 0), "swallowed-exception", "the failure of the system under learning was swallowed");
        if (inject && mode == 1) check(ok == (tl->faults == 0), "swallowed-exception", "the failure of the teacher was swallowed");
        if (inject && mode == 2 && ok && hit) r.count("allocation failure absorbed");
        if (threw && resume && l) { InSut x; h = l->run(); ok = true; InEnv e; r.count("resumed after a teacher failure"); }
        InSut x; l.reset();
      }
      check(suls == 0 && teachers == 0, "leak", "the learner does not release its oracles exactly once: " + std::to_string(suls) + " " + std::to_string(teachers));
      if (ok) { checkResult(r, t, h, "wrong-language"); r.count("sessions finished"); } else r.count("sessions failed by injection");
      return ok;
    };
    for (int i = 0; i < rounds; ++i) session(true);
    check(session(false), "not-recovered", "a fresh session after the failures does not finish");
  }
  static Register f1("F01", "sul-exceptions", 40, [](Run &r) { failures(r, 0); });
  static Register f2("F01", "teacher-exceptions", 20, [](Run &r) { failures(r, 1); });
  static Register f3("F01", "allocation-failures", 40, [](Run &r) { failures(r, 2); });
}
