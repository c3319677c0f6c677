#!/bin/bash
# run.sh check  PROP [quick|thorough]     decide a property
# run.sh replay PROP FILE                 run one recorded case
# run.sh gen    PROP INDEX                print the case with this index
V=$(cd "$(dirname "$0")" && pwd)
MODE=$1; PROP=$2
case $PROP in
  C14|C15|C20) VARIANTS=asan ;;
  C09|C22|C24) VARIANTS="plain asan" ;;  # answers first, then memory errors
  C08|C25) VARIANTS="plain tsan" ;;      # answers first, then data races
  *) VARIANTS=plain ;;
esac
VARIANTS=${VF_VARIANT:-$VARIANTS}
export VF_EVIDENCE=${VF_EVIDENCE:-$V/evidence} VF_REPLAYS=${VF_REPLAYS:-$V/replays}
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0:hard_rss_limit_mb=3500 UBSAN_OPTIONS=halt_on_error=1:abort_on_error=1
# memory that is used before it is written, or after it is freed, has contents that show
export MALLOC_PERTURB_=165
export TSAN_OPTIONS=halt_on_error=1:abort_on_error=1:report_destroy_locked=0:hard_rss_limit_mb=3500
case $MODE in
  check)
    [ -n "${3:-}" ] && export VERIF_TIER=$3
    n=0
    for v in $VARIANTS; do
      BIN=$(bash "$V/build.sh" "$v") || exit 2
      PRE=""
      [ $v = tsan ] && setarch -R true 2>/dev/null && PRE="setarch -R"
      # a sanitizer that cannot start here decides nothing
      if [ $v != plain ] && ! $PRE "$BIN" gen "$PROP" 0 >/dev/null 2>&1; then
        echo "$v cannot run here" >&2
        [ $n -gt 0 ] && continue
        BIN=$(bash "$V/build.sh" plain) || exit 2; PRE=""
      fi
      if [ $n -gt 0 ]; then      # the evidence of a further variant is merged into the first
        W=$(mktemp -d); mv "$VF_EVIDENCE/$PROP.json" "$W/first.json"
        $PRE "$BIN" run "$PROP"; rc=$?
        python3 "$V/tools/merge.py" "$W/first.json" "$VF_EVIDENCE/$PROP.json" "$v"
        rm -rf "$W"
      else
        $PRE "$BIN" run "$PROP"; rc=$?
      fi
      [ $rc -ne 0 ] && break
      n=$((n+1))
    done
    # findings recorded and not repaired
    [ $rc -eq 0 ] && [ -f "$V/known_findings.txt" ] && grep "^KNOWN-FINDING: property=$PROP " "$V/known_findings.txt"
    exit $rc ;;
  replay|gen)
    BIN=$(bash "$V/build.sh" "${VARIANTS##* }") || exit 2
    exec "$BIN" "$MODE" "$PROP" "$3" ${4:-} ;;
  *) BIN=$(bash "$V/build.sh" "${VARIANTS%% *}") || exit 2; exec "$BIN" "$@" ;;
esac
