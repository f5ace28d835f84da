#!/bin/bash
# check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
# Besides the main build: where debug assertions refuse what a user's build lets pass, that build is
# checked too (plain); where threads could share something, a build in which all operations that other
# threads can see are scheduling points (visible).
ALSO=
case "$ID" in C18) ALSO=plain ;; esac
[ "$TIER" = thorough ] && ALSO=plain
case "$ID" in C06 | C07 | C22) ALSO="$ALSO visible" ;; esac
./build.sh || exit 2
for B in $ALSO; do
  ./build.sh $B || exit 2
  R="$PWD/target/$B-run"
  mkdir -p "$R" evidence
  cp known-findings.txt "$R/"
  case $B in
    plain) BIN=target/plain/mc; WHAT="The same exploration was run on a build without debug assertions and overflow checks" ;;
    visible) BIN=target/visible-build/visible/mc; WHAT="On a build in which every atomic operation and every access to static memory is a scheduling point" ;;
  esac
  LIMIT=$MC_LIMIT
  [ $B = visible ] && [ "$TIER" = quick ] && LIMIT=${LIMIT:-250}
  MC_LIMIT=$LIMIT VERIF_DIR="$R" $BIN check "$ID" "$TIER" >"$R/out.txt" 2>&1
  rc=$?
  if [ $rc -ne 0 ]; then
    cat "$R/out.txt"
    cp "$R/evidence/$ID.json" evidence/ 2>/dev/null
    exit $rc
  fi
  MC_ALSO="$MC_ALSO$WHAT: $(tail -2 "$R/out.txt" | grep -v KNOWN-FINDING | tr '\n' ' '). "
done
export VERIF_DIR="$PWD"
[ -n "$MC_ALSO" ] && export MC_ALSO
exec target/release/mc check "$ID" "$TIER"
