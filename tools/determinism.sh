#!/bin/bash
# determinism.sh [RUNS] [SEED]: the same seeds in several processes, split
# differently between them and under different load, must give the same histories.
cd "$(dirname "$0")/../sim" || exit 2
n=${1:-400} seed=${2:-7} bad=0
for i in $(seq -w 1 17); do
  b=target/release/vsim
  [ "$i" = 15 ] && b=target-svg/release/vsim
  [ "$i" = 17 ] && b=target/assert/vsim
  k=$n
  [ "$i" = 05 ] && k=6
  h=$((k / 2))
  one=$($b digest "C$i" --runs "$k" --seed "$seed" --each 1 | head -n "$k")
  t=$(mktemp -d)
  $b digest "C$i" --from $h --runs $((k - h)) --seed "$seed" --each 1 >"$t/b" &
  $b digest "C$i" --runs $h --seed "$seed" --each 1 >"$t/a"
  wait
  two=$(head -qn -1 "$t/a" "$t/b")
  rm -r "$t"
  if [ "$(sort -n <<<"$one")" = "$(sort -n <<<"$two")" ]; then
    echo "C$i $k runs: identical histories ($(sort -n <<<"$one" | sha256sum | cut -c1-16))"
  else
    echo "C$i DIFFERS"; bad=1
  fi
done
exit $bad
