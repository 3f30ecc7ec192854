#!/bin/bash
# kall.sh SECS JOBS HARNESS... : runs harnesses in parallel, prints a summary (development aid)
ulimit -v ${UV:-unlimited}; t=$1; j=$2; shift 2
F=$(for h in "$@"; do echo ${h%%::*}; done | sort -u | paste -sd,)
A=(); for h in "$@"; do A+=(--harness $h); done
case $1 in meta*) cd /verif/harness_meta;; *) cd /verif/harness;; esac
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=${KDIR:-/verif/build/kani}
O=/tmp/kall.$$.json; rm -f $O
time timeout $t cargo kani --lib --features $F --exact "${A[@]}" -Z unstable-options $KX --no-memory-safety-checks --no-overflow-checks --no-assertion-reach-checks --output-format terse -j $j --export-json $O --cbmc-args --max-field-sensitivity-array-size 1024 > /tmp/kall.$$.log 2>&1
python3 - $O /tmp/kall.$$.log <<'PY'
import json,sys,os
if not os.path.exists(sys.argv[1]):
    L=open(sys.argv[2],errors='replace').read().splitlines()
    i=[k for k,l in enumerate(L) if l.startswith('error')]
    print('NO RESULT'); print('\n'.join(x[:200] for k in i[:6] for x in L[k:k+8])); print('\n'.join(x[:200] for x in L[-12:])); sys.exit()
o=json.load(open(sys.argv[1]))
for r in o['verification_results']['results']:
    print(r['harness_id'],r['status'],r['duration_ms']//1000)
    n=0
    for c in r['checks']:
        d=c['description']; s=c['status']
        if s not in('Success','Satisfied') and not (s=='Undetermined'):
            print('   ',s,c.get('category'),d[:150],c['location'].get('file','')[-60:],c['location'].get('line')); n+=1
        if n>25: break
PY
