#!/bin/bash
# run_harness.sh PROP OUTDIR TIER SEED BUDGET : builds /repo/zygo's test binary with the
# harness overlaid (the repository's own _test.go files are left out) and runs one property.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1 out=$2 tier=$3 seed=$4 budget=$5
repo=${VERIF_REPO:-/repo}
mkdir -p "$out"
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
python3 - "$here" "$repo" "$out" "$prop" <<'P'
import sys,os,glob,json
here,repo,out,prop=sys.argv[1:]
r={}
for f in glob.glob(repo+'/zygo/*_test.go'): r[f]=''
low=prop.lower()
for f in glob.glob(here+'/harness/*_verif_test.go'):
    b=os.path.basename(f)
    if b.startswith('c') and b[1:3].isdigit() and not b.startswith(low+'_'): continue
    r[repo+'/zygo/'+b]=f
json.dump({'Replace':r},open(out+'/overlay.json','w'))
P
cd "$repo/zygo" || exit 3
# go.mod as it is: -mod=mod may rewrite go.sum, so work on copies
cp "$repo/go.mod" "$out/go.mod"; cp "$repo/go.sum" "$out/go.sum"
go test -c -tags verif -vet=off -modfile="$out/go.mod" -overlay "$out/overlay.json" -o "$out/h.test" . >"$out/build.log" 2>&1 || { cat "$out/build.log"; exit 4; }
mkdir -p "$out/scratch"; cd "$out/scratch"
P=${prop}
VERIF_PROP=$prop VERIF_OUT=$out VERIF_TIER=$tier VERIF_SEED=$seed VERIF_BUDGET=$budget VERIF_HARNESS=$here/harness VERIF_REPO=$repo HOME=$out/scratch \
  timeout -k 5 $((budget*2+120)) "$out/h.test" -test.run "^TestVerif$P\$" -test.timeout 0 >"$out/stdout.log" 2>&1
rc=$?
rm -f "$out/h.test"
exit $((rc==0?0:5))
