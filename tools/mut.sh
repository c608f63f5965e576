#!/bin/bash
# mut.sh <file in /repo> <python replace: old> <new> -- checks...   (apply a change, run checks, undo)
f=$1; old=$2; new=$3; shift 4
cd /verif
python3 - "$f" "$old" "$new" <<'P' || exit 9
import sys
f,o,n=sys.argv[1:]
p='/repo/'+f; t=open(p).read()
assert t.count(o)>=1, "pattern not found"
open(p,'w').write(t.replace(o,n,1))
P
for c in "$@"; do
  timeout 900 ./run.sh $c > /tmp/mut.out 2>&1; rc=$?
  echo "$c rc=$rc: $(grep -E '^run ' /tmp/mut.out | cut -c1-220) $(grep -c '^VIOLATION' /tmp/mut.out)"
  [ $rc = 2 ] && tail -5 /tmp/mut.out
done
git -C /repo checkout -- .
