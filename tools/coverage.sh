#!/bin/bash
# line coverage of /repo's sources by all checks of the quick tier (used while developing the checks)
# usage: tools/coverage.sh OUTDIR [properties]
out=$1; shift
props=${*:-$(cd "$(dirname "$0")/.." && python3 -c "import json;print(' '.join(json.loads(l)['id'] for l in open('properties.jsonl')))")}
mkdir -p "$out/prof"; chmod 777 "$out" "$out/prof"
export VERIF_CFLAGS="-fprofile-instr-generate -fcoverage-mapping -mllvm -runtime-counter-relocation"
export VERIF_BUILD="$out/build" LLVM_PROFILE_FILE="$out/prof/%m%c.profraw"
cd "$(dirname "$0")/.."
for p in $props; do python3 run.py "$p" --tier quick; done
llvm-profdata merge -o "$out/all.profdata" "$out"/prof/*.profraw
b=$(ls -d "$out"/build/*/ | head -1)
llvm-cov show -instr-profile "$out/all.profdata" "$b/server" -object "$b/worker" > "$out/show.txt"
llvm-cov report -instr-profile "$out/all.profdata" "$b/server" -object "$b/worker" > "$out/report.txt"
