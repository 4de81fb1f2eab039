// The runner, the operations on automata and the equivalence oracles: R01 T01 E01 E02
#include "env.hh"
namespace sim {
  static GenCfg drawCfg(Run &r, int maxClocks, int maxLocs) {
    GenCfg g; g.clocks = r.ch.range(1, maxClocks); g.locs = r.ch.range(1, maxLocs); g.letters = r.ch.range(1, 2); g.maxc = r.ch.range(1, 3); g.copies = r.ch.chance(1, 3);
    g.complete = r.ch.chance(1, 4); g.missPct = r.ch.pick(std::vector<int>{20, 40, 5}); g.cutPct = r.ch.pick(std::vector<int>{60, 90, 40}); g.accPct = r.ch.pick(std::vector<int>{50, 30, 70}); return g;
  }
  // updates to constants that are not zero, as in conjectured automata
  static void addConstants(Run &r, ref::Aut &a) {
    for (auto &l: a.locs) for (auto &[c, ts]: l.out) for (auto &t: ts) for (auto &q: t.r) if (!q.copy && r.ch.chance(1, 4)) q.val = ref::UNIT / 4 * r.ch.range(0, 10);
  }
  static void addEpsilon(Run &r, ref::Aut &a, int maxc) {
    const int n = int(a.locs.size()); const bool loops = r.ch.chance(1, 2); // with constants on unobservable transitions, loops could take no time
    for (int i = 0; i < n; ++i) if (r.ch.chance(1, 2)) {
      const int x = int(r.ch.below(std::uint64_t(a.nclk))); int lo = r.ch.range(0, maxc);
      for (int k = r.ch.range(1, 3); k > 0; --k) {
        ref::Tr t; t.g = {{x, ref::GE, lo}}; const bool bounded = k > 1 || r.ch.chance(1, 2); const int up = lo + r.ch.range(0, 2); if (bounded) t.g.push_back({x, r.ch.chance(1, 2) && up > lo ? ref::LT : ref::LE, up});
        if (a.nclk > 1 && r.ch.chance(1, 4)) t.g.push_back({(x + 1) % a.nclk, r.ch.chance(1, 2) ? ref::LE : ref::LT, r.ch.range(1, maxc + 1)});
        if (i + 1 < n && r.ch.chance(1, 2)) { t.dst = i + 1 + int(r.ch.below(std::uint64_t(n - i - 1))); if (r.ch.chance(1, 3)) t.r.push_back({x, false, 0, 0}); else if (!loops && r.ch.chance(1, 4)) t.r.push_back({x, false, 0, ref::UNIT / 4 * r.ch.range(0, 8)}); else if (a.nclk > 1 && r.ch.chance(1, 4)) t.r.push_back({x, true, (x + 1) % a.nclk, 0}); }
        else if (loops && lo > 0) { t.dst = int(r.ch.below(std::uint64_t(n))); for (int y = 0; y < a.nclk; ++y) t.r.push_back({y, false, 0, 0}); } // time passes in every such loop
        else { lo = up + 1; continue; }
        a.locs[i].out['\0'].push_back(t); lo = up + 1;
      }
      if (a.locs[i].out.count('\0')) { auto &v = a.locs[i].out['\0']; if (v.empty()) a.locs[i].out.erase('\0'); else if (v.size() > 1 && r.ch.chance(1, 2)) std::reverse(v.begin(), v.end()); }
    }
  }
  static ref::Word drawW(Run &r, int letters, int maxLen, int grid, int maxTime) {
    ref::Word w; w.d = {ref::UNIT / grid * r.ch.range(0, maxTime * grid)}; const int len = r.ch.range(0, maxLen);
    for (int k = 0; k < len; ++k) { w.w.push_back(char('a' + r.ch.below(std::uint64_t(letters)))); w.d.push_back(ref::UNIT / grid * r.ch.range(0, maxTime * grid)); }
    return w;
  }
  static void reportStray(const std::exception &e) { InEnv q; run->violation("exception", std::string("unexpected exception: ") + e.what()); }

  // ---- R01: the runner executes the automaton --------------------------------------------------------------------------
  static void runners(Run &r, int mode) { // 0 no unobservable transitions, 1 with, 2 allocation failures
    r.budget(20000000, true); const auto g = drawCfg(r, 3, 4); auto a = genAut(r.ch, g); addConstants(r, a);
    if (mode == 1 || (mode == 2 && r.ch.chance(1, 2))) addEpsilon(r, a, g.maxc);
    r.desc(ref::show(a)); r.logs(ref::show(a)); const auto ta = toTA(a); const int n = mode == 2 ? 1 : r.ch.range(1, 4);
    const bool eps = ref::hasEps(a);
    auto client = [&](int id) {
      std::unique_ptr<SUL> s; { InSut x; s = lib::runner(ta); } ref::Exec e(a); std::size_t words = 0;
      for (int k = r.ch.range(3, 14); k > 0; --k) {
        const int grid = r.ch.pick(std::vector<int>{1, 2, 4, 16}); const auto w = drawW(r, g.letters, 7, grid, 4);
        Fibers::yield(); ++words; { InSut x; s->pre(); } e.reset(); bool given = false; std::string trace = "pre"; double t = 0;
        auto cmp = [&](bool got, bool want, const char *what) { check(got == want, "runner", "client " + std::to_string(id) + ": the runner answers " + std::to_string(got) + " after " + what + " of: " + trace); };
        const std::size_t stop = r.ch.chance(1, 6) ? r.ch.below(2 * w.w.size() + 2) : 1000; std::size_t at = 0; bool failed = false;
        auto guarded = [&](auto f) { // one call, possibly with a failing allocation inside
          if (mode == 2 && r.ch.chance(1, 5)) heap::failAfter(1 + r.ch.below(3));
          try { { InSut x; f(); } heap::failAfter(0); } catch (const std::bad_alloc &) { heap::failAfter(0); check(mode == 2 && heap::failed(), "stray-exception", "bad_alloc out of nowhere"); failed = true; r.count("words given up after a failure"); }
          return !failed; };
        for (std::size_t i = 0; i < w.d.size() && !given; ++i) {
          if (i > 0) { if (at++ >= stop) { given = true; break; } Fibers::yield(); bool got = false; trace += std::string(" ") + w.w[i - 1]; if (!guarded([&] { got = s->step(w.w[i - 1]); })) break; cmp(got, e.step(w.w[i - 1]), "the last action"); }
          if (at++ >= stop) { given = true; break; }
          // the delay at once or in pieces; pieces of length zero are legal too
          ref::i64 rest = w.d[i]; int pieces = r.ch.chance(1, 3) ? r.ch.range(2, 4) : 1;
          while (pieces-- > 0) {
            const ref::i64 d = pieces == 0 ? rest : rest / 16 * r.ch.range(0, 16); rest -= d; Fibers::yield(); bool got = false; trace += " " + std::to_string(ref::toD(d)); t += ref::toD(d); const int fuel = int(e.eps);
            if (!guarded([&] { got = s->step(ref::toD(d)); })) break;
            const bool want = e.delay(d); if (e.eps > fuel) r.count("unobservable transitions taken", std::uint64_t(e.eps - fuel));
            if (e.ambiguous) { r.count("ambiguous words"); given = true; break; } // two transitions at the same instant: not specified
            cmp(got, d == 0 ? e.acc() : want, "the last delay");
          }
          if (failed) break;
          r.state(mix(fnv(trace), std::uint64_t(e.loc + 2)));
        }
        r.time(t); if (failed) continue; // given up: the next word starts afresh
        if (!given || r.ch.chance(1, 2)) { InSut x; s->post(); } else r.count("words left without an end");
        r.log("%d %s -> %d", id, trace.c_str(), e.loc); check(s->count() == words, "runner-count", "the runner reports " + std::to_string(s->count()) + " words, actually " + std::to_string(words)); r.count("words run");
      }
      InSut x; s.reset();
    };
    if (n == 1) client(0); else { for (int i = 0; i < n; ++i) Fibers::spawn([&client, i] { try { client(i); } catch (const std::exception &e) { reportStray(e); } }); Fibers::runAll(r.ch); r.count("runner switches", Fibers::switches()); }
    (void) eps; check(ref::show(fromTA(ta)) == ref::show(a), "automaton-changed", "executing an automaton changes it");
  }
  static Register a1("R01", "observable", 35, [](Run &r) { runners(r, 0); });
  static Register a2("R01", "unobservable", 45, [](Run &r) { runners(r, 1); });
  static Register a3("R01", "allocation-failures", 20, [](Run &r) { runners(r, 2); });

  // ---- T01: the operations on automata keep languages ---------------------------------------------------------------------
  struct Item { TimedAutomaton ta; ref::Aut lang; std::string origin; }; // lang: the language it must have
  static void sameLanguage(Run &r, const Item &it, const std::string &al, const char *cls, const std::string &when) {
    const auto bad = malformed(it.ta, int(al.size()), false, true); check(bad.empty(), "malformed", when + ": " + it.origin + ": " + bad);
    const auto now = fromTA(it.ta); if (ref::show(now) == ref::show(it.lang)) return;
    const auto e = ref::equivalent(it.lang, now, al, 60000); if (!e.decided) { r.count("too large to compare"); return; } r.count("languages compared");
    check(e.equal, cls, when + ": the language of the automaton from " + it.origin + " is wrong on " + ref::show(e.cex) + "\nit should be\n" + ref::show(it.lang) + "it is\n" + ref::show(now));
  }
  static void operations(Run &r, bool faults) {
    r.budget(20000000, false); std::vector<std::unique_ptr<Item>> pool; const int letters = r.ch.range(1, 2); const auto al = alphabetStr(letters); const auto alp = alphabetOf(letters);
    struct Probe { std::unique_ptr<SUL> s; Item *on; ref::Aut a; ref::Exec e; ref::Word w; std::size_t at = 0; explicit Probe(Item *i) : on(i), a(i->lang), e(a) {} };
    std::vector<std::unique_ptr<Probe>> probes;
    auto fresh = [&] { auto g = drawCfg(r, 2, 3); g.letters = letters; auto it = std::make_unique<Item>(); it->lang = genAut(r.ch, g); if (r.ch.chance(1, 4)) addConstants(r, it->lang); it->ta = toTA(it->lang); it->origin = "fresh #" + std::to_string(pool.size()); r.desc(it->origin + "\n" + ref::show(it->lang)); r.logs(ref::show(it->lang)); pool.push_back(std::move(it)); };
    for (int i = r.ch.range(1, 2); i > 0; --i) fresh();
    auto advance = [&](Probe &p, std::size_t upto) {
      for (; p.at < upto && p.at <= p.w.w.size(); ++p.at) {
        if (p.at == 0) { InSut s; p.s->pre(); } else { bool q; { InSut s; q = p.s->step(p.w.w[p.at - 1]); } const bool e = p.e.step(p.w.w[p.at - 1]); check(q == e, "probe", "a run of the automaton from " + p.on->origin + " goes wrong at an action of " + ref::show(p.w)); }
        bool q; { InSut s; q = p.s->step(ref::toD(p.w.d[p.at])); } const bool e = p.e.delay(p.w.d[p.at]); check(q == (p.w.d[p.at] == 0 ? p.e.acc() : e), "probe", "a run of the automaton from " + p.on->origin + " goes wrong at a delay of " + ref::show(p.w)); r.count("probe steps");
      } };
    for (int k = r.ch.range(4, 14); k > 0; --k) {
      Item *a = pool[r.ch.below(pool.size())].get(); const int what = int(r.ch.below(11)); const bool inject = faults && r.ch.chance(1, 2);
      const auto hard = [&](bool on) { r.rep->hardBudget = on; }; // no cheap operation may use up the budget; the exploration of zones may
      auto arm = [&] { hard(true); if (inject) heap::failAfter(1 + r.ch.below(r.ch.chance(1, 2) ? 20 : 400)); };
      for (auto &p: probes) if (r.ch.chance(1, 2)) advance(*p, p->at + 1);
      if (r.ch.chance(1, 2) && (a->lang.init >= 0 || a->lang.locs.empty())) { auto p = std::make_unique<Probe>(a); p->w = drawW(r, letters, 5, 4, 4); try { InSut s; p->s = lib::runner(a->ta); } catch (const std::bad_alloc &) { run->violation("stray-exception", "bad_alloc"); } advance(*p, r.ch.below(4)); probes.push_back(std::move(p)); }
      std::string opname; auto made = std::make_unique<Item>(); bool ok = false, isNew = false, flip = false;
      try {
        if (what == 0) { opname = "deepCopy"; isNew = true; made->lang = a->lang; arm(); { InSut s; made->ta = lib::deepCopy(a->ta); } }
        else if (what <= 2) { opname = "complement"; isNew = flip = true; arm(); { InSut s; made->ta = lib::complementOf(a->ta, alp); } }
        else if (what <= 4) {
          Item *b = pool[r.ch.below(pool.size())].get(); opname = "intersection with " + b->origin; if (a->lang.locs.size() * b->lang.locs.size() > 12 || a->lang.nclk + b->lang.nclk > 4) continue;
          isNew = true; made->lang = ref::product(a->lang, b->lang); arm(); { InSut s; made->ta = lib::intersection(a->ta, b->ta); }
        } else if (what == 10) { // a word of the language, if there is one
          opname = "sample"; if (a->lang.init < 0 || a->lang.locs.size() * std::size_t(a->lang.nclk) > 30) continue;
          bool quick = r.ch.chance(1, 2); std::optional<TimedWord> w; arm(); hard(false); { InSut s; w = lib::sampleOf(a->ta, quick); } heap::failAfter(0);
          if (w) { ref::Word v; if (fromWord(*w, v)) { ref::Exec e(a->lang); check(e.run(v), "wrong-sample", "the sampled word " + ref::show(v) + " is not in the language of the automaton from " + a->origin + "\n" + ref::show(a->lang)); r.count("words sampled"); } else r.count("sampled words finer than a tick"); }
          else if (a->lang.nclk <= 3) { ref::Aut none; none.nclk = 0; none.init = 0; none.locs.resize(1); const auto e = ref::equivalent(a->lang, none, al, 60000); if (e.decided) { check(e.equal, "wrong-sample", "no word is found although " + ref::show(e.cex) + " is in the language of the automaton from " + a->origin + "\n" + ref::show(a->lang)); r.count("empty languages confirmed"); } }
        } else {
          const int op = int(r.ch.below(lib::N_IN_PLACE)); opname = lib::inPlaceName(op); probes.erase(std::remove_if(probes.begin(), probes.end(), [&](auto &p) { return p->on == a; }), probes.end());
          if (op == lib::SIMPLIFY_ZONES && (a->ta.initialStates.empty() || a->lang.locs.size() * std::size_t(a->lang.nclk) > 30)) continue; // nothing to do on an automaton without initial locations
          arm(); hard(op != lib::SIMPLIFY_ZONES); { InSut s; lib::inPlace(a->ta, op, alp); }
        }
        heap::failAfter(0); hard(false); ok = true;
      } catch (const std::bad_alloc &) { heap::failAfter(0); hard(false); check(inject && heap::failed(), "stray-exception", "bad_alloc out of nowhere"); r.count("failed operations"); }
      r.log("%s on %s: %s", opname.c_str(), a->origin.c_str(), ok ? "ok" : "failed"); r.count(("op: " + opname.substr(0, opname.find(' '))).c_str());
      if (!ok && !isNew && opname != "sample") { // an in-place operation that failed: the automaton is given up, the others must not suffer
        pool.erase(std::find_if(pool.begin(), pool.end(), [&](auto &x) { return x.get() == a; })); if (pool.empty()) fresh();
      } else if (ok && isNew) {
        made->origin = opname.substr(0, 12) + "(" + a->origin.substr(0, 40) + ")";
        if (flip) { // compare with the complement of the reference
          const auto bad = malformed(made->ta, letters, false, true); check(bad.empty(), "malformed", made->origin + ": " + bad);
          const auto now = fromTA(made->ta); const auto e = ref::equivalent(a->lang, now, al, 60000, true); r.count("languages compared");
          if (e.decided) check(e.equal, "wrong-language", made->origin + " is not the complement: wrong on " + ref::show(e.cex) + "\noperand\n" + ref::show(a->lang) + "result\n" + ref::show(now)); else r.count("too large to compare");
          made->lang = now;
        } else sameLanguage(r, *made, al, "wrong-language", "after " + opname);
        made->lang = fromTA(made->ta); { bool d; { InSut s; d = lib::deterministicOf(made->ta); } check(d == malformed(made->ta, letters, true, true).empty(), "malformed", made->origin + ": the library misjudges whether it is deterministic"); }
        pool.push_back(std::move(made)); if (pool.size() > 6) { probes.erase(std::remove_if(probes.begin(), probes.end(), [&](auto &p) { return p->on == pool[0].get(); }), probes.end()); pool.erase(pool.begin()); }
      } else if (ok && opname != "sample") { sameLanguage(r, *a, al, "wrong-language", "after " + opname); a->lang = fromTA(a->ta); a->origin = opname + "(" + a->origin.substr(0, 60) + ")"; r.state(fnv(ref::show(a->lang))); }
      for (auto &it: pool) if (it.get() != a || isNew || !ok) sameLanguage(r, *it, al, "other-changed", opname + (ok ? "" : ", which failed,") + " changes another automaton");
    }
    for (auto &p: probes) advance(*p, 100);
  }
  // automata with unobservable transitions: these fire as soon as they can, so words without delays of length zero have one run
  static void unobservableOps(Run &r) {
    r.budget(20000000, false); auto g = drawCfg(r, 2, 3); auto lang = genAut(r.ch, g); addEpsilon(r, lang, g.maxc); const auto al = alphabetOf(g.letters); r.desc(ref::show(lang)); r.logs(ref::show(lang));
    TimedAutomaton ta = toTA(lang); bool flipped = false; std::string hist;
    for (int k = r.ch.range(1, 4); k > 0; --k) {
      const int what = int(r.ch.below(4)); std::string op;
      if (what == 0) { op = "deepCopy"; InSut s; ta = lib::deepCopy(ta); }
      else if (what <= 2) { op = "complement"; { InSut s; ta = lib::complementOf(ta, al); } flipped = !flipped; }
      else { op = "makeComplete"; InSut s; lib::inPlace(ta, lib::MAKE_COMPLETE, al); } // the simplifications let unobservable transitions wait
      hist += op + " "; r.log("%s", op.c_str()); r.count(("op: " + op).c_str());
      const auto bad = malformed(ta, g.letters, false, true); check(bad.empty(), "malformed", "after " + hist + ": " + bad);
      const auto now = fromTA(ta); std::unique_ptr<SUL> run1; { InSut s; if (!ta.initialStates.empty()) run1 = lib::runner(ta); }
      for (int i = 0; i < 25; ++i) {
        auto w = drawW(r, g.letters, 5, r.ch.pick(std::vector<int>{1, 2, 4}), 3); for (auto &d: w.d) if (d == 0) d = ref::UNIT / 4;
        ref::Exec e(lang); bool in = false, skip = false;
        for (std::size_t j = 0; j < w.d.size(); ++j) { if (j) e.step(w.w[j - 1]); in = e.delay(w.d[j]); if (e.loc >= 0) { const auto &o = lang.locs[e.loc].out; auto it = o.find('\0'); if (it != o.end()) for (auto &t: it->second) skip = skip || ref::sat(t.g, e.v); } }
        if (e.ambiguous || skip) { r.count("ambiguous words"); continue; } // an unobservable transition and an action at the same instant
        ref::Exec f(now); const bool got = f.run(w); r.count("words compared"); { double t = 0; for (auto d: w.d) t += ref::toD(d); r.time(t); }
        check(got == (in != flipped), "wrong-language", "after " + hist + ": the automaton is wrong on " + ref::show(w) + "\noriginal\n" + ref::show(lang) + "now\n" + ref::show(now));
        if (run1 && i < 5) { bool q; { InSut s; q = runSul(*run1, toWord(w)); } check(q == got, "probe", "after " + hist + ": the automaton, executed, is wrong on " + ref::show(w)); }
      }
      r.state(fnv(ref::show(now)));
    }
  }
  static Register b3("T01", "unobservable", 20, [](Run &r) { unobservableOps(r); });
  static Register b1("T01", "histories", 70, [](Run &r) { operations(r, false); });
  static Register b2("T01", "histories-with-allocation-failures", 30, [](Run &r) { operations(r, true); });

  // ---- E01: the complement oracle decides equivalence ------------------------------------------------------------------------
  static ref::Aut mutate(Run &r, const ref::Aut &t, int letters, int maxc) {
    ref::Aut h = t; if (h.locs.empty()) return h;
    for (int k = r.ch.range(1, 2); k > 0; --k) {
      auto &l = h.locs[r.ch.below(h.locs.size())]; const auto m = r.ch.below(6);
      auto any = [&]() -> ref::Tr * { std::vector<ref::Tr *> v; for (auto &x: h.locs) for (auto &[c, ts]: x.out) for (auto &q: ts) v.push_back(&q); return v.empty() ? nullptr : v[r.ch.below(v.size())]; };
      if (m == 0) l.acc = !l.acc;
      else if (m == 1) { if (auto q = any()) q->dst = int(r.ch.below(h.locs.size())); }
      else if (m == 2) { if (auto q = any()) { q->r.clear(); for (int x = 0; x < h.nclk; ++x) if (r.ch.chance(1, 2)) q->r.push_back({x, false, 0, 0}); } }
      else if (m == 3) { if (auto q = h.nclk > 0 ? any() : nullptr) q->g.push_back({int(r.ch.below(std::uint64_t(h.nclk))), int(r.ch.below(4)), r.ch.range(0, maxc)}); }
      else if (m == 4) { const char c = char('a' + r.ch.below(std::uint64_t(letters))); auto &v = l.out[c]; if (!v.empty()) v.erase(v.begin() + long(r.ch.below(v.size()))); }
      else { h.locs.push_back(l); const int n = int(h.locs.size()) - 1; if (auto q = any()) q->dst = n; } // an equivalent copy of a location, so far
    }
    return h;
  }
  static void oracle(Run &r, int mode) { // 0 plain, 1 allocation failures, 2 several oracles on shared automata
    r.budget(8000000, false); const auto g = drawCfg(r, 2, 3); Target t; t.letters = g.letters; t.a = genAut(r.ch, g); r.desc("target\n" + ref::show(t.a)); r.logs(ref::show(t.a)); const auto alp = alphabetOf(t.letters);
    const auto ta = toTA(t.a); const auto comp = [&] { InSut s; return ta.complement(alp); }; std::vector<std::unique_ptr<EquivalenceOracle>> os; std::vector<const char *> names;
    for (int i = mode == 2 ? 3 : 1; i > 0; --i) {
      const auto kind = r.ch.below(3); auto c = comp();
      { InSut s; if (kind > 0) lib::inPlace(c, lib::SIMPLIFY_STRONG, alp); if (kind > 1 && !c.initialStates.empty()) lib::inPlace(c, lib::SIMPLIFY_ZONES, alp); os.push_back(lib::complementOracle(ta, c, alp)); }
      names.push_back(kind == 0 ? "the complement oracle" : kind == 1 ? "the oracle with the simplified complement" : "the oracle with the complement simplified with zones");
    }
    struct Hyp { TimedAutomaton ta; ref::Aut a; }; std::vector<Hyp> hs; std::size_t asked = 0;
    for (int k = r.ch.range(2, 6); k > 0; --k) {
      std::size_t i;
      if (!hs.empty() && r.ch.chance(1, 4)) i = r.ch.below(hs.size());
      else {
        Hyp h; const auto m = r.ch.below(8); GenCfg g2 = g; g2.clocks = r.ch.range(1, 2); g2.locs = r.ch.range(1, 3);
        if (m == 0) h.a = genAut(r.ch, g2); else if (m == 1) h.a = t.a; else h.a = mutate(r, hs.empty() || hs.back().a.init < 0 || r.ch.chance(1, 2) ? t.a : hs.back().a, t.letters, g.maxc);
        if (r.ch.chance(1, 5)) addConstants(r, h.a);
        h.ta = toTA(h.a); if (r.ch.chance(1, 6)) { InSut s; lib::inPlace(h.ta, r.ch.chance(1, 2) ? lib::SIMPLIFY : lib::SIMPLIFY_STRONG, alp); }
        h.a = fromTA(h.ta); r.desc("hypothesis " + std::to_string(hs.size()) + "\n" + ref::show(h.a)); r.logs(ref::show(h.a)); r.state(fnv(ref::show(h.a), fnv(ref::show(t.a)))); hs.push_back(std::move(h)); i = hs.size() - 1;
      }
      const auto o = r.ch.below(os.size()); std::optional<TimedWord> ans; bool done = false;
      for (int attempt = 0; attempt < 5 && !done; ++attempt) {
        if (mode == 1 && attempt < 3 && r.ch.chance(2, 3)) heap::failAfter(1 + r.ch.below(r.ch.chance(1, 2) ? 2000 : 60));
        try { { InSut s; ans = os[o]->findCounterExample(hs[i].ta); } heap::failAfter(0); done = true; } catch (const std::bad_alloc &) { heap::failAfter(0); check(mode == 1 && heap::failed(), "stray-exception", "bad_alloc out of nowhere"); r.count("failed queries"); }
        if (o == 0) ++asked;
      }
      check(done, "no-progress", "an equivalence query keeps failing although the faults stopped");
      r.log("query %zu %zu: %d", std::size_t(o), i, int(ans.has_value())); r.count("equivalence queries judged"); r.count(ans ? "counterexamples given" : "hypotheses accepted");
      WatchedOracle::judge(t, hs[i].a, ans, true, names[o], 100000);
      check(os[0]->numEqQueries() == asked, "statistics", "the number of equivalence queries is misreported");
      for (auto &h: hs) check(ref::show(fromTA(h.ta)) == ref::show(h.a), "hypothesis-changed", "an equivalence query changes a hypothesis");
    }
    check(ref::show(fromTA(ta)) == ref::show(t.a), "target-changed", "an equivalence query changes the target");
  }
  static Register c1("E01", "histories", 55, [](Run &r) { oracle(r, 0); });
  static Register c2("E01", "allocation-failures", 20, [](Run &r) { oracle(r, 1); });
  static Register c3("E01", "several-oracles", 25, [](Run &r) { oracle(r, 2); });

  // ---- E02: the combinators and the testing oracles ------------------------------------------------------------------------------
  struct Scripted : EquivalenceOracle { // an exact oracle that may stay silent or fail
    const Target &t; Choices &ch; std::size_t &calls; bool faults, silent; std::optional<ref::Word> last; bool failedNow = false; std::size_t *order, *serial;
    Scripted(const Target &t, Choices &ch, std::size_t &calls, bool faults, bool silent) : t(t), ch(ch), calls(calls), faults(faults), silent(silent) {}
    std::optional<TimedWord> findCounterExample(const TimedAutomaton &h) override {
      InEnv e; ++eqQueryCount; ++calls; last.reset(); failedNow = false;
      if (faults && ch.chance(1, 4)) { failedNow = true; run->fault("teacher-exception"); throw TeacherFault(3); }
      if (silent && ch.chance(1, 2)) return std::nullopt;
      const auto H = fromTA(h); ref::Product p(t.a, H, alphabetStr(t.letters)); if (p.unsupported) run->inconclusive("constants too fine");
      const auto bad = p.explore(60000, 1 + ch.below(8)); if (bad.empty()) { if (p.capped) run->inconclusive("product too large"); return std::nullopt; }
      Prng sub(ch.sub()); const auto w = p.concretise(ch.pick(bad), &sub); if (!w) run->inconclusive("delays too fine"); last = *w; return toWord(*w);
    }
  };
  static bool differs(const ref::Aut &a, const ref::Aut &b, const ref::Word &w) { ref::Exec x(a), y(b); return x.run(w) != y.run(w); }
  // do the two differ at some checkpoint of the word: after every delay and every action?
  static bool differsOnTheWay(const ref::Aut &a, const ref::Aut &b, const ref::Word &w) {
    ref::Exec x(a), y(b); for (std::size_t i = 0; i < w.d.size(); ++i) { if (i) { x.step(w.w[i - 1]); y.step(w.w[i - 1]); if (x.acc() != y.acc()) return true; } x.delay(w.d[i]); y.delay(w.d[i]); if (x.acc() != y.acc()) return true; } return false;
  }
  static void combinators(Run &r, bool faults) {
    r.budget(20000000, true); auto g = drawCfg(r, 2, 3); g.copies = false; Target t; t.letters = g.letters; t.a = genAut(r.ch, g); r.desc("target\n" + ref::show(t.a)); r.logs(ref::show(t.a)); const auto ta = toTA(t.a); const auto alp = alphabetOf(t.letters);
    { auto p = std::make_shared<Prng>(r.ch.sub()); entropy = [p] { return unsigned(p->next() >> 32); }; }
    const int kind = int(r.ch.below(4)); const char *names[] = {"chain", "memo", "tests", "random tests"}; r.desc(std::string("oracle: ") + names[kind] + "\n"); r.count((std::string("oracle: ") + names[kind]).c_str());
    std::vector<Scripted *> in; std::vector<std::size_t> calls(4, 0); std::unique_ptr<EquivalenceOracle> o; std::vector<ref::Word> tests, memory; int maxLen = 0, maxDur = 0, maxTests = 0;
    auto scripted = [&](bool silent) { auto s = std::make_unique<Scripted>(t, r.ch, calls[in.size()], faults, silent); in.push_back(s.get()); return s; };
    if (kind == 0) { std::vector<std::unique_ptr<EquivalenceOracle>> v; for (int i = r.ch.range(1, 4); i > 0; --i) v.push_back(scripted(true)); InSut s; o = lib::chainOracle(std::move(v)); }
    else if (kind == 1) { auto s = scripted(r.ch.chance(1, 2)); InSut x; o = lib::memoOracle(std::move(s), ta); }
    else if (kind == 2) { std::vector<TimedWord> ws; for (int i = r.ch.range(0, 5); i > 0; --i) { tests.push_back(drawW(r, t.letters, 5, 2, 3)); r.desc("test " + ref::show(tests.back()) + "\n"); ws.push_back(toWord(tests.back())); } InSut s; o = lib::testOracle(ta, ws); }
    else { maxTests = r.ch.range(1, 12); maxLen = r.ch.range(0, 5); maxDur = r.ch.range(1, 5); InSut s; o = lib::randomOracle(alp, ta, maxTests, maxLen, maxDur); }
    std::size_t asked = 0; std::vector<std::pair<TimedAutomaton, ref::Aut>> hs;
    for (int k = r.ch.range(3, 12); k > 0; --k) {
      std::size_t hi; if (!hs.empty() && r.ch.chance(1, 3)) hi = r.ch.below(hs.size());
      else { const auto h = r.ch.chance(1, 6) ? t.a : r.ch.chance(1, 5) ? genAut(r.ch, g) : mutate(r, t.a, t.letters, g.maxc); hs.emplace_back(toTA(h), h); hi = hs.size() - 1; r.desc("hypothesis " + std::to_string(hi) + "\n" + ref::show(h)); r.logs(ref::show(h)); r.state(fnv(ref::show(h), fnv(ref::show(t.a)))); }
      const auto before = calls; const auto &H = hs[hi].second; std::optional<TimedWord> ans; bool threw = false; ++asked;
      bool remembered = false; for (auto &w: memory) remembered |= differsOnTheWay(t.a, H, w);
      try { InSut s; ans = o->findCounterExample(hs[hi].first); }
      catch (const TeacherFault &f) { InEnv e; threw = true; check(faults && f.id == 3, "stray-exception", "a failure out of nowhere"); r.count("failed queries"); }
      r.log("ask %zu: %s", hi, threw ? "fails" : ans ? "counterexample" : "none"); r.count("equivalence queries judged");
      check(o->numEqQueries() == asked, "statistics", "the number of equivalence queries is misreported");
      bool someFailed = false; for (std::size_t i = 0; i < in.size(); ++i) if (calls[i] != before[i]) someFailed |= in[i]->failedNow;
      check(threw == someFailed, threw ? "stray-exception" : "swallowed-exception", "a failure of an inner oracle is not reported to the caller, or reported without a reason");
      if (ans) WatchedOracle::judge(t, H, ans, false, names[kind], 1);
      if (kind == 0) { // the oracles are asked in order until one of them answers
        bool stopped = false; for (std::size_t i = 0; i < in.size(); ++i) { const auto n = calls[i] - before[i]; check(n == (stopped ? 0u : 1u), "chain-order", "oracle " + std::to_string(i) + " of the chain is asked " + std::to_string(n) + " times"); if (stopped) continue; if (in[i]->failedNow || in[i]->last) { stopped = true; if (in[i]->last && !threw) check(ans && *ans == toWord(*in[i]->last), "chain-answer", "the chain does not give the counterexample of its member"); } }
        if (!threw && !stopped) check(!ans, "chain-answer", "the chain gives a counterexample nobody found");
      } else if (kind == 1) {
        const auto n = calls[0] - before[0];
        check(n == (remembered ? 0u : 1u), "memo", remembered ? "the inner oracle is asked although a remembered word is a counterexample" : "the inner oracle is not asked exactly once although no remembered word is a counterexample");
        if (remembered) check(ans.has_value(), "memo", "a remembered counterexample is not found again"); else if (!threw) { check(ans.has_value() == in[0]->last.has_value(), "memo", "the answer of the inner oracle is lost"); if (ans) { check(*ans == toWord(*in[0]->last), "memo", "the answer of the inner oracle is changed"); memory.push_back(*in[0]->last); } }
      } else if (kind == 2) {
        bool want = false; for (auto &w: tests) want |= differsOnTheWay(t.a, H, w); check(ans.has_value() == want, "tests", want ? "a failing test is not reported" : "a failing test is reported although all tests pass");
        if (ans) { ref::Word w; check(fromWord(*ans, w), "tests", "shape"); bool prefix = false; for (auto &x: tests) { if (x.w.compare(0, w.w.size(), w.w) || w.w.size() > x.w.size()) continue; bool ok = true; for (std::size_t i = 0; i + 1 < w.d.size(); ++i) ok &= w.d[i] == x.d[i]; ok &= w.d.back() == x.d[w.d.size() - 1] || w.d.back() == 0; prefix |= ok; } check(prefix, "tests", "the reported word is not a prefix of a test"); r.count("failing tests reported"); }
      } else if (ans) {
        check(int(ans->wordSize()) <= maxLen, "random-tests", "a random word is longer than allowed"); for (double d: ans->getDurations()) check(d >= 0 && d <= maxDur, "random-tests", "a random delay is longer than allowed"); r.count("random counterexamples");
      } else if (maxTests > 0) { // a hypothesis that is wrong on every word cannot survive
        bool never = true; for (auto &l: H.locs) never &= !l.acc; bool always = true; for (auto &l: t.a.locs) { always &= l.acc; } if (never && t.a.locs[t.a.init].acc && always) check(false, "random-tests", "a hypothesis that is wrong on the empty action word with every delay is not refuted");
      }
      for (auto &h: hs) check(ref::show(fromTA(h.first)) == ref::show(h.second), "hypothesis-changed", "an equivalence query changes a hypothesis");
    }
    InSut s; o.reset();
  }
  static Register d1("E02", "histories", 55, [](Run &r) { combinators(r, false); });
  static Register d2("E02", "failing-inner-oracles", 45, [](Run &r) { combinators(r, true); });
}
