#include "lib.hh"
#include "timed_automaton.hh"
#include "ta2za.hh"
namespace lib {
  const char *inPlaceName(int o) { static const char *n[] = {"simplifyTransitions", "removeTriviallyUnreachableStates", "removeDeadLoop", "removeTriviallyDeadStates", "removeUselessTransitions", "removeUnusedClockVariables", "simplify", "simplifyStrong", "simplifyWithZones", "makeComplete"}; return n[o]; }
  void inPlace(TimedAutomaton &a, int o, const std::vector<Alphabet> &al) {
    switch (o) {
      case SIMPLIFY_TRANSITIONS: a.simplifyTransitions(); break;
      case REMOVE_UNREACHABLE: a.removeTriviallyUnreachableStates(); break;
      case REMOVE_DEAD_LOOP: a.removeDeadLoop(); break;
      case REMOVE_DEAD_STATES: a.removeTriviallyDeadStates(); break;
      case REMOVE_USELESS: a.removeUselessTransitions(); break;
      case REMOVE_UNUSED_CLOCKS: a.removeUnusedClockVariables(); break;
      case SIMPLIFY: a.simplify(); break;
      case SIMPLIFY_STRONG: a.simplifyStrong(); break;
      case SIMPLIFY_ZONES: a.simplifyWithZones(); break;
      case MAKE_COMPLETE: a.makeComplete(al); break;
      default: break;
    }
  }
  TimedAutomaton deepCopy(const TimedAutomaton &a) { TimedAutomaton r; std::unordered_map<TAState *, std::shared_ptr<TAState>> m; a.deepCopy(r, m); return r; }
  TimedAutomaton complementOf(const TimedAutomaton &a, const std::vector<Alphabet> &al) { return a.complement(al); }
  bool deterministicOf(const TimedAutomaton &a) { return a.deterministic(); }
  std::optional<TimedWord> sampleOf(const TimedAutomaton &a, bool quick) { ZoneAutomaton z; ta2za(a, z, quick); return z.sampleWithMemo(); }
}
