#!/bin/bash
# cover.sh OUTDIR [ID...]: which statements of /repo do the quick checks execute? (a development aid, not a check)
out=$1; shift; ids=${*:-01 02 03 04 05 06 07 08 09 10 11 12 13 14 15 16 18}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off VH_ROOT=$out/root
mkdir -p $out/root/evidence; cp /verif/known_findings.json $out/root/
cd /verif/harness
for i in $ids; do
  P=fast-ksw/ring,fast-ksw/rlwe,fast-ksw/utils,fast-ksw/ckks,fast-ksw/frlwe,fast-ksw/fckks
  go build -cover -covermode=set -coverpkg=$P,verifharness/c$i -o $out/bin ./c$i 2>/dev/null
  rm -rf $out/d$i; mkdir -p $out/d$i; GOCOVERDIR=$out/d$i $out/bin quick | tail -1
done
ls -d $out/d* | paste -sd, > $out/dirs
go tool covdata textfmt -i=$(cat $out/dirs) -o $out/all.txt
grep -v verifharness $out/all.txt > $out/repo.txt
cd /repo && GOFLAGS=-modfile=/opt/vp/fast-ksw.mod go tool cover -func=$out/repo.txt | awk '$NF!="100.0%"'
