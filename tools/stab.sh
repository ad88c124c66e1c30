#!/bin/bash
# stab.sh mod1,mod2 [seeds...]: verify the modules under several solver seeds (as check.py runs them)
M=$1; shift; D=$(mktemp -d /tmp/stab.XXXX)
/verif/vtool/target/debug/vtool --src ${SRC:-/repo/src} --specs /verif/specs --out $D/o.rs --map $D/m.json --modules $M || exit 1
A=""; for x in ${M//,/ }; do A="$A --verify-only-module $x"; done
for s in ${@:-0 1 2 3 4 5}; do
  echo "seed $s: $(timeout 800 verus $D/o.rs $A --triggers-mode silent --rlimit ${RL:-30} --num-threads 8 --smt-option smt.random_seed=$s --smt-option sat.random_seed=$s 2>&1 | grep -E '^error|^ +--> |^[0-9]+ \|.*fn |results' | cut -c1-160)"
done
rm -r $D
