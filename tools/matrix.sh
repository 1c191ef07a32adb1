#!/bin/bash
# matrix.sh all|own [SEED...]: apply each planted bug to /repo, run every check (or only
# its property's), undo it, and write what alarmed to /tmp/matrix.txt.
cd "$(dirname "$0")/.." || exit 2
mode=$1; shift
[ $# = 0 ] && set -- $(ls seeded)
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for s in "$@"; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
    git -C /repo apply "$PWD/seeded/$s/patch.diff" || { echo "$s: does not apply"; continue; }
    if [ "$mode" = all ]; then ids=$(python3 -c "import json;print(*[json.loads(l)['id'] for l in open('properties.jsonl')])"); else ids=$p; fi
    out=
    for i in $ids; do
        timeout 900 ./check.sh $i quick >/tmp/matrix.out 2>/tmp/matrix.err; rc=$?
        if [ $rc = 1 ] && grep -q "^VIOLATION property=$i " /tmp/matrix.out; then out="$out $i"; elif [ $rc != 0 ]; then out="$out $i(rc=$rc)"; fi
    done
    git -C /repo checkout -q -- .
    case " $out " in *" $p "*) v=caught ;; *) v=MISSED ;; esac
    echo "$v $s $p alarms:$out" | tee -a /tmp/matrix.txt
done
