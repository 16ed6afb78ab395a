#!/bin/bash
# usage: coverage.sh DIR [checks...]: runs the checks built with coverage instrumentation and writes DIR/lines.txt (lines never executed) and DIR/summary.txt
d=$1; shift; mkdir -p $d; root=$(cd "$(dirname "$0")/.." && pwd); cd $root
[ $# -gt 0 ] || set -- $(seq -f "P%02g" 1 39)
for p in "$@"; do
  [ $p = P31 ] || [ $p = P36 ] && continue
  VF_COV=1 VF_BUILD=$d/build LLVM_PROFILE_FILE=$d/prof/$p-%4m.profraw timeout 1500 python3 bin/check.py $p | tail -1 | cut -c1-150
  llvm-profdata-18 merge -sparse $d/prof/$p-*.profraw -o $d/$p.profdata && rm -f $d/prof/$p-*.profraw
done
llvm-profdata-18 merge -sparse $d/P*.profdata -o $d/all.profdata
b=$(for p in "$@"; do [ -e $d/build/asan/$p ] && echo "-object $d/build/asan/$p"; done | sed '1s/-object //')
llvm-cov-18 report $b -instr-profile $d/all.profdata /repo/src /repo/fuzzylite > $d/summary.txt
llvm-cov-18 show $b -instr-profile $d/all.profdata /repo/src /repo/fuzzylite -format=text > $d/show.txt
awk '/^\/repo.*:$/{f=$1} /^ *[0-9]+\| +0\|/{print f $0}' $d/show.txt > $d/lines.txt
tail -1 $d/summary.txt
