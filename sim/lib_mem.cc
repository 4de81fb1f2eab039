#include "lib.hh"
#include "symbolic_membership_oracle.hh"
#include "forward_regional_elementary_language.hh"
#include "backward_regional_elementary_language.hh"
#include <sstream>
namespace lib {
  namespace {
    struct M : Membership {
      std::unique_ptr<MembershipOracle> o;
      explicit M(std::unique_ptr<MembershipOracle> o) : o(std::move(o)) {}
      bool ask(const TimedWord &w) override { return o->answerQuery(w); }
      std::size_t count() override { return o->count(); }
      std::string statistics() override { std::stringstream s; o->printStatistics(s); return s.str(); }
    };
    Cond read(const TimedCondition &t) {
      Cond c; c.n = t.size(); c.lo.resize(c.n * c.n); c.up.resize(c.n * c.n);
      for (std::size_t i = 0; i < c.n; ++i) for (std::size_t j = i; j < c.n; ++j) { const auto l = t.getLowerBound(i, j), u = t.getUpperBound(i, j); c.lo[i * c.n + j] = {-l.first, l.second}; c.up[i * c.n + j] = {u.first, u.second}; }
      return c;
    }
    struct Y : Symbolic {
      SymbolicMembershipOracle o; std::vector<ElementaryLanguage> langs;
      explicit Y(std::unique_ptr<SUL> s) : o(std::move(s)) {}
      int build(const std::string &p, const std::string &s) override {
        auto f = ForwardRegionalElementaryLanguage::fromTimedWord(TimedWord{"", {0}}); for (char c: p) f = c ? f.successor(c) : f.successor();
        auto b = BackwardRegionalElementaryLanguage::fromTimedWord(TimedWord{"", {0}}); for (char c: s) b = c ? b.predecessor(c) : b.predecessor();
        langs.push_back(f + b); return int(langs.size()) - 1;
      }
      std::string word(int i) override { return langs.at(i).getWord(); }
      Cond cond(int i) override { return read(langs.at(i).getTimedCondition()); }
      std::vector<Cond> query(int i, bool vandalise) override {
        auto r = o.query(langs.at(i)); std::vector<Cond> v; for (auto &c: r.getConditions()) v.push_back(read(c));
        if (vandalise) { r.removeEqualityUpperBoundAssign(); for (auto &c: r) c.removeUpperBoundAssign(); if (!r.empty()) r.push_back(r.front()); }
        return v;
      }
      bool ask(const TimedWord &w) override { return o.answerQuery(w); }
      std::size_t count() override { return o.count(); }
    };
  }
  std::unique_ptr<Membership> membership(int kind, std::unique_ptr<SUL> s) {
    if (kind == 2) return std::make_unique<M>(std::make_unique<SymbolicMembershipOracle>(std::move(s)));
    auto p = std::make_unique<SULMembershipOracle>(std::move(s));
    if (kind == 0) return std::make_unique<M>(std::move(p));
    return std::make_unique<M>(std::make_unique<MembershipOracleCache>(std::move(p)));
  }
  std::unique_ptr<Symbolic> symbolic(std::unique_ptr<SUL> s) { return std::make_unique<Y>(std::move(s)); }
}
