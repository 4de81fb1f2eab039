// The simulated environment of a learning session: the system under learning and the teacher.
#pragma once
#include <memory>
#include <set>
#include <sstream>
#include "core.hh"
#include "bridge.hh"
#include "lib.hh"
namespace sim {
  using learnta::Alphabet; using learnta::TimedAutomaton; using learnta::TimedWord; using learnta::EquivalenceOracle; using learnta::SUL;

  struct SulFault : std::runtime_error { int id; explicit SulFault(int id) : std::runtime_error("injected SUL failure"), id(id) {} };
  struct TeacherFault : std::runtime_error { int id; explicit TeacherFault(int id) : std::runtime_error("injected teacher failure"), id(id) {} };

  inline std::vector<Alphabet> alphabetOf(int letters) { std::vector<Alphabet> a; for (int i = 0; i < letters; ++i) a.push_back(char('a' + i)); return a; }
  inline std::string alphabetStr(int letters) { std::string a; for (int i = 0; i < letters; ++i) a.push_back(char('a' + i)); return a; }

  // the truth about a target, as the environment knows it
  struct Target { ref::Aut a; int letters = 1; std::string name; };

  // what happened at the interface to the system under learning; shared with the checks
  struct SulLog {
    std::size_t pre = 0, post = 0, steps = 0, faults = 0, aborted = 0; double time = 0;
    std::map<std::string, int> words; // completed words and how often they were fed
    bool keepWords = true;
    long failAtCall = -1; int failWhere = 0; // fail at the n-th call (any kind)
    long calls = 0; bool interrupted = false; // interrupted: the word being fed was given up by a failure elsewhere
  };
  // The system under learning. "Ref" executes the reference model; otherwise a real TimedAutomatonRunner is driven
  // and compared with the reference step by step.
  class SimSul : public SUL {
    const Target &t; SulLog &lg; std::unique_ptr<SUL> real; ref::Exec ex; std::string cur; ref::Word w; std::size_t n = 0; bool quiet; int phase = 0; // 0 idle, 1 expects a delay, 2 expects an action or post
    void call() {
      ++lg.calls; Fibers::yield();
      if (lg.failAtCall >= 0 && lg.calls >= lg.failAtCall) { lg.failAtCall = -1; ++lg.faults; run->fault("sul-exception"); run->log("sul fails"); if (phase != 0) ++lg.aborted; phase = 0; throw SulFault(1); }
    }
  public:
    SimSul(const Target &t, SulLog &lg, std::unique_ptr<SUL> real, bool quiet = false) : t(t), lg(lg), real(std::move(real)), ex(t.a), quiet(quiet) {}
    ~SimSul() override { InEnv e; real.reset(); }
    void pre() override {
      InEnv e; call(); if (lg.interrupted) { lg.interrupted = false; phase = 0; } check(phase == 0, "sul-protocol", "a new word is started before the end of the previous one");
      ++lg.pre; ++n; phase = 1; w = {}; ex.reset(); if (real) { InSut s; real->pre(); }
    }
    void post() override {
      InEnv e; call(); check(phase == 2, "sul-protocol", "post without a complete word");
      ++lg.post; phase = 0; if (real) { InSut s; real->post(); }
      const auto key = ref::show(w);
      if (lg.keepWords) ++lg.words[key];
      if (!quiet) run->logs("q " + key + (ex.acc() ? " 1" : " 0"));
    }
    bool step(char c) override {
      InEnv e; call(); ++lg.steps; check(phase == 2, "sul-protocol", "an action is fed before the first delay");
      check(c >= 'a' && c < 'a' + t.letters, "sul-protocol", std::string("an action outside of the alphabet is fed: ") + std::to_string(int(c)));
      phase = 1; w.w.push_back(c); const bool r = ex.step(c); if (real) { bool q; { InSut s; q = real->step(c); } check(q == r, "runner", "the runner and the reference disagree after an action"); } return r;
    }
    bool step(double d) override {
      InEnv e; call(); ++lg.steps; check(phase == 1, "sul-protocol", "two delays in a row"); check(d >= 0 && d < 1e9, "sul-protocol", "a delay that is not a finite nonnegative number");
      ref::i64 k; if (!ref::fromD(d, k)) run->inconclusive("delay finer than a tick");
      phase = 2; w.d.push_back(k); lg.time += d; run->time(d); bool r = ex.delay(k); if (k == 0) r = ex.acc();
      if (real) { bool q; { InSut s; q = real->step(d); } check(q == r, "runner", "the runner and the reference disagree after a delay"); } return r;
    }
    [[nodiscard]] std::size_t count() const override { return n; }
  };

  inline bool runSul(SUL &s, const TimedWord &w) {
    s.pre(); const auto word = w.getWord(); const auto d = w.getDurations(); bool r = s.step(d[0]);
    for (std::size_t i = 0; i < word.size(); ++i) { s.step(word[i]); r = s.step(d[i + 1]); }
    s.post(); return r;
  }

  // a number reported in printed statistics, or -1
  inline long statistic(const std::string &text, const std::string &label) {
    std::istringstream in(text); std::string l; while (std::getline(in, l)) { const auto p = l.rfind(": "); if (p != std::string::npos && l.substr(0, p) == label) return std::stol(l.substr(p + 2)); } return -1;
  }
  // does the automaton have a legal shape? (judged on what a user can see and execute)
  // strict: transitions that do the same must not overlap either; maybeEmpty: the empty language may be written without an initial location
  inline std::string malformed(const TimedAutomaton &h, int letters, bool strict = false, bool maybeEmpty = false) {
    std::set<const learnta::TAState *> st; for (auto &s: h.states) { if (!s) return "null location"; if (!st.insert(s.get()).second) return "a location is listed twice"; }
    if (h.states.empty()) return h.initialStates.empty() ? "" : "initial location that is not a location";
    if (h.initialStates.empty() && maybeEmpty) {} else if (h.initialStates.size() != 1) return "the number of initial locations is " + std::to_string(h.initialStates.size());
    if (!h.initialStates.empty() && !st.count(h.initialStates[0].get())) return "the initial location is not a location";
    for (auto &s: h.states) for (auto &[c, ts]: s->next) {
      if (c != 0 && !(c >= 'a' && c < 'a' + letters) && !ts.empty()) return "an action outside of the alphabet";
      for (auto &t: ts) {
        if (!st.count(t.target)) return "a transition to a location that does not belong to the automaton";
        std::set<int> dst;
        for (auto &g: t.guard) { if (g.x >= h.clockSize()) return "a guard over a clock that does not exist"; if (g.c < 0) return "a negative guard constant"; }
        for (auto &[x, v]: t.resetVars) {
          if (x >= h.clockSize()) return "an update of a clock that does not exist";
          if (!dst.insert(x).second) return "two updates of one clock in one transition";
          if (v.index() == 1 ? std::get<learnta::ClockVariables>(v) >= h.clockSize() : !(std::get<double>(v) >= 0 && std::get<double>(v) < 1e9)) return "an update with an illegal value";
        }
      }
      // mutually exclusive guards: compare the boxes
      auto box = [&](const learnta::TATransition &t) { std::vector<std::array<int, 2>> b(h.clockSize(), {0, 1 << 30}); // in half units: lower and upper inclusive
        for (auto &g: t.guard) { using O = learnta::Constraint::Order; auto &q = b[g.x]; if (g.odr == O::lt) q[1] = std::min(q[1], 2 * g.c - 1); else if (g.odr == O::le) q[1] = std::min(q[1], 2 * g.c); else if (g.odr == O::ge) q[0] = std::max(q[0], 2 * g.c); else q[0] = std::max(q[0], 2 * g.c + 1); }
        return b; };
      if (c != 0) for (std::size_t i = 0; i < ts.size(); ++i) for (std::size_t j = 0; j < i; ++j) {
        auto a = box(ts[i]), b = box(ts[j]); bool meet = true;
        for (std::size_t x = 0; x < a.size(); ++x) if (std::max(a[x][0], b[x][0]) > std::min(a[x][1], b[x][1])) meet = false;
        if (meet && (strict || ts[i].target != ts[j].target || std::multiset<std::pair<int, std::variant<double, learnta::ClockVariables>>>(ts[i].resetVars.begin(), ts[i].resetVars.end()) != std::multiset<std::pair<int, std::variant<double, learnta::ClockVariables>>>(ts[j].resetVars.begin(), ts[j].resetVars.end()))) return "two transitions with the same action are enabled at once";
      }
    }
    return "";
  }

  // shared record of the equivalence queries of a session
  struct TeacherLog {
    int queries = 0, cexs = 0, faults = 0; std::map<std::string, int> given; std::vector<std::pair<ref::Word, bool>> cexHistory;
    std::vector<TimedAutomaton> kept; std::vector<ref::Aut> snap; // hypotheses kept by the environment, and what they were
    bool keep = false; long failAtQuery = -1; std::size_t maxRepeats = 0; std::size_t lastPre = 0, maxMemBetween = 0; const SulLog *sul = nullptr;
    std::function<void(const TimedAutomaton &, const ref::Aut &)> onHypothesis;
  };
  // what the environment does with every equivalence query, whichever oracle then answers
  inline ref::Aut noteHypothesis(const Target &t, TeacherLog &lg, const TimedAutomaton &h) {
    ++lg.queries; Fibers::yield();
    if (lg.sul) { lg.maxMemBetween = std::max(lg.maxMemBetween, lg.sul->pre - lg.lastPre); lg.lastPre = lg.sul->pre; }
    const auto bad = malformed(h, t.letters); check(bad.empty(), "malformed-hypothesis", bad);
    auto H = fromTA(h); run->state(fnv(ref::show(H)));
    run->log("eq #%d locs %zu", lg.queries, H.locs.size());
    if (lg.keep) { lg.kept.push_back(h); lg.snap.push_back(H); }
    if (lg.onHypothesis) lg.onHypothesis(h, H);
    if (lg.failAtQuery >= 0 && lg.queries >= lg.failAtQuery) { lg.failAtQuery = -1; ++lg.faults; run->fault("teacher-exception"); run->log("teacher fails"); throw TeacherFault(2); }
    return H;
  }
  // the exact teacher: searches the product of the target and the hypothesis, and draws which counterexample to give
  class SimTeacher : public EquivalenceOracle {
    const Target &t; TeacherLog &lg; Choices &ch; int style; std::size_t cap;
  public:
    // style 0: a shortest counterexample; 1: any of many; 2: as 1, and old counterexamples that still are ones are given again
    SimTeacher(const Target &t, TeacherLog &lg, Choices &ch, int style, std::size_t cap = 300000) : t(t), lg(lg), ch(ch), style(style), cap(cap) {}
    std::optional<TimedWord> findCounterExample(const TimedAutomaton &h) override {
      InEnv env; ++eqQueryCount;
      const auto H = noteHypothesis(t, lg, h);
      auto give = [&](const ref::Word &w) -> std::optional<TimedWord> {
        ref::Exec ea(t.a), eb(H); const bool x = ea.run(w), y = eb.run(w);
        if (x == y) run->inconclusive("teacher: not a counterexample");
        ++lg.cexs; lg.maxRepeats = std::max(lg.maxRepeats, std::size_t(++lg.given[ref::show(w)])); lg.cexHistory.emplace_back(w, x);
        run->logs("cex " + ref::show(w) + (x ? " 1" : " 0"));
        return toWord(w);
      };
      if (style == 2 && !lg.cexHistory.empty() && ch.chance(1, 2)) {
        std::vector<ref::Word> again; for (auto &[w, x]: lg.cexHistory) { ref::Exec e(H); if (e.run(w) != x) again.push_back(w); }
        if (!again.empty()) { run->count("cex given again"); return give(ch.pick(again)); }
      }
      ref::Product p(t.a, H, alphabetStr(t.letters));
      if (p.unsupported) run->inconclusive("teacher: constants too fine");
      const auto bad = p.explore(cap, style == 0 ? 1 : 1 + ch.below(20));
      run->count("product nodes explored", p.nodes.size());
      if (bad.empty()) { if (p.capped) run->inconclusive("teacher: product too large"); run->log("eq yes"); return std::nullopt; }
      Prng sub(style == 0 ? 1 : ch.sub());
      const auto w = p.concretise(style == 0 ? bad[0] : ch.pick(bad), style == 0 ? nullptr : &sub);
      if (!w) run->inconclusive("teacher: delays too fine");
      return give(*w);
    }
  };
  // a real oracle of the library, watched: the answer must be right
  class WatchedOracle : public EquivalenceOracle {
    const Target &t; TeacherLog &lg; std::unique_ptr<EquivalenceOracle> inner; bool complete; const char *what; std::size_t cap;
  public:
    WatchedOracle(const Target &t, TeacherLog &lg, std::unique_ptr<EquivalenceOracle> inner, bool complete, const char *what, std::size_t cap = 300000) : t(t), lg(lg), inner(std::move(inner)), complete(complete), what(what), cap(cap) {}
    ~WatchedOracle() override { InSut s; inner.reset(); }
    std::optional<TimedWord> findCounterExample(const TimedAutomaton &h) override {
      InEnv env; ++eqQueryCount; const auto H = noteHypothesis(t, lg, h);
      std::optional<TimedWord> r; { InSut s; r = inner->findCounterExample(h); }
      judge(t, H, r, complete, what, cap, &lg);
      ref::Word w; if (r && !fromWord(*r, w)) run->count("counterexamples over arbitrary reals");
      return r;
    }
    static void judge(const Target &t, const ref::Aut &H, const std::optional<TimedWord> &r, bool complete, const char *what, std::size_t cap, TeacherLog *lg = nullptr) {
      if (r) {
        ref::Word w; if (!fromWord(*r, w)) { w = {}; for (double d: r->getDurations()) w.d.push_back(ref::i64(std::llround(std::ldexp(d, ref::UBITS)))); w.w = r->getWord(); run->count("words rounded to ticks"); }
        for (auto d: w.d) check(d >= 0, "bad-counterexample", std::string(what) + ": a negative delay");
        for (char c: w.w) check(c >= 'a' && c < 'a' + t.letters, "bad-counterexample", std::string(what) + ": an action outside of the alphabet");
        check(w.d.size() == w.w.size() + 1, "bad-counterexample", std::string(what) + ": shape");
        ref::Exec ea(t.a), eb(H); const bool x = ea.run(w), y = eb.run(w);
        check(x != y, "bad-counterexample", std::string(what) + " gives a word on which the target and the hypothesis agree: " + ref::show(w) + "\nhypothesis\n" + ref::show(H));
        run->logs(std::string("cex by ") + what + " " + ref::show(w));
        if (lg) { ++lg->cexs; lg->maxRepeats = std::max(lg->maxRepeats, std::size_t(++lg->given[ref::show(w)])); lg->cexHistory.emplace_back(w, x); }
      } else {
        run->logs(std::string(what) + " finds no counterexample");
        if (complete) {
          const auto e = ref::equivalent(t.a, H, alphabetStr(t.letters), cap);
          if (!e.decided) run->inconclusive("product too large");
          check(e.equal, "missed-counterexample", std::string(what) + " accepts a hypothesis that is wrong on " + ref::show(e.cex) + "\nhypothesis\n" + ref::show(H));
        }
      }
    }
  };
}
