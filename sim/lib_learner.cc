#include "lib.hh"
#include "learner.hh"
#include <sstream>
namespace lib {
  namespace {
    struct S : Session {
      Learner l;
      S(const std::vector<Alphabet> &a, std::unique_ptr<SUL> s, std::unique_ptr<EquivalenceOracle> e) : l(a, std::make_unique<SymbolicMembershipOracle>(std::move(s)), std::move(e)) {}
      TimedAutomaton run() override { return l.run(); }
      std::string statistics() override { std::stringstream o; l.printStatistics(o); return o.str(); }
      std::size_t numEq() override { return l.numEqQueries(); }
    };
  }
  std::unique_ptr<Session> learner(const std::vector<Alphabet> &a, std::unique_ptr<SUL> s, std::unique_ptr<EquivalenceOracle> e) { return std::make_unique<S>(a, std::move(s), std::move(e)); }
}
