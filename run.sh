#!/bin/bash
# run.sh PROPERTY [TIER]: builds the model checker together with the code in
# /repo's working tree and decides one property. Exit 0: held, 1: violated.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod
repo=${VERIF_REPO:-/repo} # a copy, when planted bugs are tried
dir=$(mktemp -d /tmp/verif-build-XXXXXX) || exit 3
chmod 755 "$dir"
trap 'chmod -R u+w "$dir" 2>/dev/null; rm -rf "$dir"' EXIT

adds="$repo/internal/zzrt/zzrt.go=$here/zzrt/zzrt.go"
for f in "$here"/mc/*.go; do
  adds="$adds,$repo/internal/zzverif/$(basename "$f")=$f"
done
(cd "$here/instr" && go build -o "$dir/instr" .) || { echo "cannot build the instrumenter"; exit 3; }
mkdir -p "$dir/src"
web=()
tags=
if [ "$prop" = C26 ]; then web=(-web); tags="-tags=zzweb"; fi
mode=instrumented
build() { # flags output
  (cd "$repo" && go build -overlay "$dir/overlay.json" $tags $1 -o "$dir/$2" ./internal/zzverif) 2>"$dir/err"
}
if ! { "$dir/instr" -repo "$repo" -out "$dir/src" -overlay "$dir/overlay.json" -add "$adds" "${web[@]}" 2>"$dir/err" && build "" mc; }; then
  head -5 "$dir/err" >&2
  mode=plain
  "$dir/instr" -plain -out "$dir/src" -overlay "$dir/overlay.json" -add "$adds" "${web[@]}" || exit 3
  if ! build "" mc; then
    head -20 "$dir/err"; echo "cannot build"; exit 3
  fi
fi
extra=()
uid=0
case $prop in
C22)
  "$dir/instr" -plain -overlay "$dir/overlay.json" -add "$adds" || exit 3
  if build "-race" race; then extra=(-race "$dir/race"); else head -5 "$dir/err" >&2; fi
  ;;
esac
case $prop in C21|C25|C26|C27|C28|C29|C30|C31|C32) uid=65534 ;; esac
if [ "$tier" = thorough ]; then budget=${VERIF_BUDGET:-420}; else budget=${VERIF_BUDGET:-24}; fi
"$dir/mc" check -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -evidence "$here/evidence/$prop.json" \
  -known "$here/known-findings.txt" -mode "$mode" -budget "$budget" -family "${VERIF_FAMILY:-}" -uid "$uid" "${extra[@]}"
