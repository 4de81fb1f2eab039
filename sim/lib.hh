// Thin access to the heavy parts of LearnTA, so that each is instantiated in one translation unit.
#pragma once
#include <memory>
#include <optional>
#include <string>
#include <vector>
#include "sul.hh"
#include "equivalence_oracle.hh"
namespace lib {
  using namespace learnta;
  struct Session { // one learner with its oracles
    virtual ~Session() = default;
    virtual TimedAutomaton run() = 0;
    virtual std::string statistics() = 0;
    virtual std::size_t numEq() = 0;
  };
  std::unique_ptr<Session> learner(const std::vector<Alphabet> &, std::unique_ptr<SUL>, std::unique_ptr<EquivalenceOracle>);
  std::unique_ptr<EquivalenceOracle> complementOracle(TimedAutomaton target, TimedAutomaton complement, std::vector<Alphabet>);
  std::unique_ptr<EquivalenceOracle> memoOracle(std::unique_ptr<EquivalenceOracle>, const TimedAutomaton &target);
  std::unique_ptr<EquivalenceOracle> chainOracle(std::vector<std::unique_ptr<EquivalenceOracle>>);
  std::unique_ptr<EquivalenceOracle> testOracle(const TimedAutomaton &target, const std::vector<TimedWord> &);
  std::unique_ptr<EquivalenceOracle> randomOracle(std::vector<Alphabet>, const TimedAutomaton &, int maxTests, int maxLength, int maxDuration);
  std::unique_ptr<SUL> runner(const TimedAutomaton &);
  // membership: kind 0 the plain oracle, 1 with the cache, 2 the symbolic oracle asked about single words
  struct Membership { virtual ~Membership() = default; virtual bool ask(const TimedWord &) = 0; virtual std::size_t count() = 0; virtual std::string statistics() = 0; };
  std::unique_ptr<Membership> membership(int kind, std::unique_ptr<SUL>);
  // symbolic membership: a language is built step by step; bounds are read through the public accessors
  struct Bound { double v; bool closed; }; // v: may be infinite
  struct Cond { std::size_t n = 0; std::vector<Bound> lo, up; }; // sum of the durations i..j within [lo, up], index i * n + j
  struct Symbolic {
    virtual ~Symbolic() = default;
    // a prefix: steps, 0 = continuous successor, otherwise an action; a suffix: the same, built backwards; returns the id of prefix + suffix
    virtual int build(const std::string &prefixSteps, const std::string &suffixSteps) = 0;
    virtual std::string word(int id) = 0; virtual Cond cond(int id) = 0;
    virtual std::vector<Cond> query(int id, bool vandalise) = 0; // vandalise: the caller modifies the returned set
    virtual bool ask(const TimedWord &) = 0; virtual std::size_t count() = 0;
  };
  std::unique_ptr<Symbolic> symbolic(std::unique_ptr<SUL>);
  TimedAutomaton intersection(const TimedAutomaton &, const TimedAutomaton &);

  // operations on automata
  enum InPlace { SIMPLIFY_TRANSITIONS, REMOVE_UNREACHABLE, REMOVE_DEAD_LOOP, REMOVE_DEAD_STATES, REMOVE_USELESS, REMOVE_UNUSED_CLOCKS, SIMPLIFY, SIMPLIFY_STRONG, SIMPLIFY_ZONES, MAKE_COMPLETE, N_IN_PLACE };
  const char *inPlaceName(int);
  void inPlace(TimedAutomaton &, int op, const std::vector<Alphabet> &);
  TimedAutomaton deepCopy(const TimedAutomaton &);
  TimedAutomaton complementOf(const TimedAutomaton &, const std::vector<Alphabet> &);
  bool deterministicOf(const TimedAutomaton &);
  std::optional<TimedWord> sampleOf(const TimedAutomaton &, bool quick); // a word of the language, by the zone automaton
}
