#!/bin/bash
# usage: dbg.sh harness secs [extra kani args]   (development aid; log in /tmp/c.HARNESS.log)
h=$1; t=$2; shift 2
L=/tmp/c.${h//:/_}.log
case $h in meta*) cd /verif/harness_meta;; *) cd /verif/harness;; esac
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=${KDIR:-/verif/build/kani}
( time timeout $t cargo kani --lib --features ${h%%::*} --exact --harness $h -Z unstable-options "$@" --no-memory-safety-checks --no-overflow-checks --no-assertion-reach-checks --cbmc-args --max-field-sensitivity-array-size ${FS:-1024} --verbosity 9 2>&1 | while IFS= read -r l; do printf '%s %s\n' "$(date +%T)" "${l:0:300}"; done > $L ) 2>&1 | grep real
grep -E "^[0-9:]+ error" -A6 $L | cut -c1-200 | head -60
grep -E "Status: (FAIL|UNREACH|UNSAT)" -A2 $L | cut -c10-260 | grep -v "^--" | grep -v Status | head -40
grep -E "VERIFICATION|variables|Runtime|SUMMARY|of .* failed|cover |Finished|CBMC|memory" $L | cut -c1-160| tail -30
grep -oE "Not unwinding.*" $L | cut -c1-250 | head -3
grep -o "Unwinding loop [^ ]* iteration *[0-9]*" $L | awk '{print $3}' | sort | uniq -c | sort -rn | head -${TOP:-6}
