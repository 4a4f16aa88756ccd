#!/bin/bash
# Language and library features that the executor has to cover: zzfeat.go is
# put into a copy of the repository and run case by case.
cd "$(dirname "$0")/.." || exit 2
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir "$d/r" && git -C /repo archive HEAD | tar x -C "$d/r" && cp selftest/zzfeat.go.txt "$d/r/zzfeat.go"
cp selftest/h_zz.go harness/h_zz.go; trap 'rm -rf "$d" harness/h_zz.go' EXIT
for i in $(seq 0 31); do bin/gosym one -repo "$d/r" -f h_zz.go -n VH_zz -t 100 -p lo=$i,hi=$i 2>&1 | grep -E "VIOL|INCONC|load"  | grep -v "loaded in" | sed "s/^/case $i:/"; done
