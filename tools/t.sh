#!/bin/bash
# t.sh driver "cfg;cfg" "args;args": build the driver in each configuration and run it (development aid)
cd "$(dirname "$0")/.."
mkdir -p /tmp/w
IFS=';' read -ra C <<< "$2"; IFS=';' read -ra A <<< "$3"; [ ${#A[@]} = 0 ] && A=("")
for c in "${C[@]}"; do
  s=$(date +%s.%N)
  python3 tools/vbuild.py $1 drivers=$1.cpp $c > /tmp/bo.txt 2>&1 || { echo "BUILD FAILED $c"; grep -m12 -E "error|undefined" /tmp/bo.txt; continue; }
  e=$(tail -1 /tmp/bo.txt)
  echo "== $c build $(python3 -c "import time;print(round(time.time()-$s,1))") s"
  for a in "${A[@]}"; do
    s=$(date +%s.%N)
    $e $a dir=/tmp/w seed=${SEED:-1} > /tmp/out.txt 2> /tmp/err.txt; rc=$?
    echo "-- $a rc=$rc $(python3 -c "import time;print(round(time.time()-$s,1))") s; stderr $(wc -l < /tmp/err.txt) lines: $(head -c 300 /tmp/err.txt | tr '\n' ' ')"
    grep -a "@VIOL\|SHIM-V\|HARNESS" /tmp/out.txt | cut -c1-${W:-400} | head -${N:-8}
    grep -a "@STATS" /tmp/out.txt | cut -c1-${S:-300}
  done
done
