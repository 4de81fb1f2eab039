#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the simulator from /repo's current working tree and searches PROPERTY.
# Exit 0: held on everything explored; 1 and a VIOLATION line: broken; anything else: an error of the check.
here=$(cd "$(dirname "$0")" && pwd); cd "$here" || exit 2
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; repo=${VERIF_REPO:-/repo}; seed=${VERIF_SEED:-1}
# the build is kept under a name made from the contents of everything that goes into it
key=$( (cd "$repo" && find include src examples -maxdepth 1 -type f \( -name '*.hh' -o -name '*.cc' \) -print0 | sort -z | xargs -0 sha256sum; cd "$here/sim" && sha256sum *; g++ --version | head -1) | sha256sum | cut -c1-20) || exit 2
out=$here/build/$key
if [ ! -x "$out/simcheck" ]; then
  mkdir -p "$here/build"; tmp=$(mktemp -d "$here/build/tmp.XXXXXX") || exit 2
  bash sim/build.sh "$tmp" "$repo" || { echo "the simulator does not build against $repo" >&2; rm -rf "$tmp"; exit 2; }
  rm -f "$tmp"/*.o "$tmp"/*.log; mv -T "$tmp" "$out" 2>/dev/null || rm -rf "$tmp"
fi
[ -n "$prop" ] || exit 0 # only build
secs=55; shrink=40; cpu=20; runs=100000000; [ "$tier" = thorough ] && { secs=3000; shrink=300; cpu=150; }
case "$prop" in
  L01|L02|L03|C01|S01|F01) level="real: learner, observation table, membership oracles, equivalence oracles, runner and automata operations; simulated: system under learning, exact teacher, heap and allocation failures, entropy, schedule of the clients" ;;
  *) level="real: the library code named by the property; simulated: systems under learning, teachers, callers and their schedule, heap and allocation failures, entropy" ;;
esac
exec "$out/simcheck" run "$prop" --tier "$tier" --seed "$seed" --runs $runs --secs ${VERIF_SECS:-$secs} --jobs ${VERIF_JOBS:-8} --shrink $shrink --cpu $cpu \
  --evidence "$here/evidence/$prop.json" --replays "$here/replays" --known "$here/known_findings.txt" --level exploration --stub "$level"
