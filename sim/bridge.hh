// Conversions between LearnTA's public automaton type and the reference model.
#pragma once
#include "ref.hh"
#include <set>
#include "timed_automaton.hh"
#include "timed_word.hh"
namespace sim {
  inline ref::Aut fromTA(const learnta::TimedAutomaton &ta) {
    ref::Aut a; std::map<const learnta::TAState *, int> id;
    for (auto &s: ta.states) { const int k = int(id.size()); id[s.get()] = k; }
    a.nclk = int(ta.maxConstraints.size());
    a.locs.resize(id.size());
    auto need = [&](int c) { if (c + 1 > a.nclk) a.nclk = c + 1; };
    for (auto &s: ta.states) {
      auto &l = a.locs[id[s.get()]]; l.acc = s->isMatch;
      for (auto &[c, ts]: s->next) for (auto &t: ts) {
        ref::Tr r; auto it = id.find(t.target);
        if (it == id.end()) throw std::logic_error("dangling transition target");
        r.dst = it->second;
        for (auto &g: t.guard) { int op = 0; switch (g.odr) { case learnta::Constraint::Order::lt: op = ref::LT; break; case learnta::Constraint::Order::le: op = ref::LE; break; case learnta::Constraint::Order::ge: op = ref::GE; break; case learnta::Constraint::Order::gt: op = ref::GT; break; }
          r.g.push_back({int(g.x), op, g.c}); need(g.x); }
        for (auto &[x, v]: t.resetVars) {
          ref::Reset q{int(x), v.index() == 1, 0, 0}; need(x);
          if (q.copy) { q.src = std::get<learnta::ClockVariables>(v); need(q.src); }
          else if (!ref::fromD(std::get<double>(v), q.val)) throw std::logic_error("reset constant not representable");
          r.r.push_back(q);
        }
        l.out[c].push_back(std::move(r));
      }
    }
    a.init = ta.initialStates.empty() || ta.states.empty() ? -1 : id.at(ta.initialStates.front().get());
    return a;
  }
  inline learnta::TimedAutomaton toTA(const ref::Aut &a) {
    using namespace learnta;
    TimedAutomaton ta; ta.states.resize(a.locs.size());
    for (std::size_t i = 0; i < a.locs.size(); ++i) ta.states[i] = std::make_shared<TAState>(a.locs[i].acc);
    std::vector<int> mx(a.nclk, 0);
    for (std::size_t i = 0; i < a.locs.size(); ++i)
      for (auto &[c, ts]: a.locs[i].out) for (auto &t: ts) {
        TATransition x; x.target = ta.states[t.dst].get();
        for (auto &g: t.g) {
          static const Constraint::Order od[] = {Constraint::Order::lt, Constraint::Order::le, Constraint::Order::ge, Constraint::Order::gt};
          x.guard.push_back(Constraint{ClockVariables(g.clk), od[g.op], g.c}); mx[g.clk] = std::max(mx[g.clk], g.c);
        }
        for (auto &r: t.r) {
          if (r.copy) x.resetVars.emplace_back(ClockVariables(r.dst), ClockVariables(r.src));
          else x.resetVars.emplace_back(ClockVariables(r.dst), ref::toD(r.val));
        }
        ta.states[i]->next[c].push_back(std::move(x));
      }
    // constants flow backwards through copies: keep a uniform maximum when there are copies
    bool copies = false; for (auto &l: a.locs) for (auto &[c, ts]: l.out) for (auto &t: ts) for (auto &r: t.r) copies |= r.copy;
    if (copies) { int m = 0; for (int x: mx) m = std::max(m, x); for (auto &x: mx) x = m; }
    ta.maxConstraints = mx;
    if (a.init >= 0) ta.initialStates = {ta.states[a.init]};
    return ta;
  }
  inline learnta::TimedWord toWord(const ref::Word &w) {
    std::vector<double> d; for (auto x: w.d) d.push_back(ref::toD(x));
    return learnta::TimedWord{w.w, d};
  }
  inline bool fromWord(const learnta::TimedWord &w, ref::Word &o) {
    o.w = w.getWord(); o.d.clear();
    for (double d: w.getDurations()) { ref::i64 t; if (!ref::fromD(d, t)) return false; o.d.push_back(t); }
    return true;
  }
  // ---- workload: random deterministic timed automata ---------------------------------------------------------
  struct GenCfg { int locs = 3, clocks = 1, letters = 2, maxc = 2; bool complete = false; bool copies = false; int cutPct = 60; int missPct = 20; int accPct = 50; };
  template<class R> ref::Aut genAut(R &r, const GenCfg &g) {
    ref::Aut a; a.nclk = g.clocks; a.init = 0; a.locs.resize(g.locs);
    for (auto &l: a.locs) l.acc = r.chance(g.accPct, 100);
    if (std::none_of(a.locs.begin(), a.locs.end(), [](auto &l) { return l.acc; })) a.locs[r.below(a.locs.size())].acc = true;
    for (auto &l: a.locs) for (int k = 0; k < g.letters; ++k) {
      const char c = char('a' + k);
      // a list of disjoint boxes: split recursively on clocks
      std::vector<std::vector<ref::Guard>> boxes = {{}};
      for (int x = 0; x < g.clocks; ++x) if (r.chance(g.cutPct, 100)) {
        const int cst = r.range(0, g.maxc), mode = r.range(0, 3);
        std::vector<std::vector<ref::Guard>> nb;
        for (auto &b: boxes) {
          auto with = [&](std::vector<ref::Guard> extra) { auto q = b; q.insert(q.end(), extra.begin(), extra.end()); nb.push_back(q); };
          if (nb.size() > 4) { nb.push_back(b); continue; }
          if (mode == 0 && cst > 0) { with({{x, ref::LT, cst}}); with({{x, ref::GE, cst}}); }
          else if (mode == 1) { with({{x, ref::LE, cst}}); with({{x, ref::GT, cst}}); }
          else if (mode == 2) { if (cst > 0) with({{x, ref::LT, cst}}); with({{x, ref::GE, cst}, {x, ref::LE, cst}}); with({{x, ref::GT, cst}}); }
          else { const int c2 = cst + r.range(1, 2); with({{x, ref::LE, cst}}); with({{x, ref::GT, cst}, {x, ref::LT, std::min(c2, g.maxc + 1)}}); with({{x, ref::GE, std::min(c2, g.maxc + 1)}}); }
        }
        boxes = nb;
      }
      for (auto &b: boxes) {
        if (!g.complete && r.chance(g.missPct, 100)) continue;
        ref::Tr t; t.dst = int(r.below(a.locs.size())); t.g = b;
        for (int x = 0; x < g.clocks; ++x) {
          if (r.chance(35, 100)) t.r.push_back({x, false, 0, 0});
          else if (g.copies && g.clocks > 1 && r.chance(15, 100)) { int y = int(r.below(g.clocks)); if (y != x) t.r.push_back({x, true, y, 0}); }
        }
        l.out[c].push_back(t);
      }
    }
    return a;
  }
}
