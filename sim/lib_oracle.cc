#include "lib.hh"
#include "timed_automata_equivalence_oracle.hh"
#include "equivalence_oracle_memo.hh"
#include "equivalance_oracle_chain.hh"
#include "equivalence_oracle_by_random_test.hh"
namespace lib {
  std::unique_ptr<EquivalenceOracle> complementOracle(TimedAutomaton t, TimedAutomaton c, std::vector<Alphabet> a) { return std::make_unique<ComplementTimedAutomataEquivalenceOracle>(std::move(t), std::move(c), std::move(a)); }
  std::unique_ptr<EquivalenceOracle> memoOracle(std::unique_ptr<EquivalenceOracle> o, const TimedAutomaton &t) { return std::make_unique<EquivalenceOracleMemo>(std::move(o), t); }
  std::unique_ptr<EquivalenceOracle> chainOracle(std::vector<std::unique_ptr<EquivalenceOracle>> v) { auto c = std::make_unique<EquivalenceOracleChain>(); for (auto &o: v) c->push_back(std::move(o)); return c; }
  std::unique_ptr<EquivalenceOracle> testOracle(const TimedAutomaton &t, const std::vector<TimedWord> &ws) { auto o = std::make_unique<EquivalenceOracleByTest>(t); for (auto &w: ws) o->push_back(w); return o; }
  std::unique_ptr<EquivalenceOracle> randomOracle(std::vector<Alphabet> a, const TimedAutomaton &t, int n, int l, int d) { return std::make_unique<EquivalenceOracleByRandomTest>(std::move(a), t, n, l, d); }
  std::unique_ptr<SUL> runner(const TimedAutomaton &t) { return std::make_unique<TimedAutomatonRunner>(t); }
  TimedAutomaton intersection(const TimedAutomaton &a, const TimedAutomaton &b) {
    TimedAutomaton r; boost::unordered_map<std::pair<TAState *, TAState *>, std::shared_ptr<TAState>> m; intersectionTA(a, b, r, m); return r;
  }
}
