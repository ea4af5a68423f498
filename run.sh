#!/bin/bash
# run.sh PROPERTY quick|thorough   builds the simulator from /repo's working tree and runs the check
# run.sh replay FILE               evaluates a replay file against /repo's working tree
# run.sh explore PROPERTY N [DIR]  lists classes of outcomes
HERE="$(cd "$(dirname "$0")" && pwd)"
OUT="$(mktemp -d /tmp/verif-sim.XXXXXX)" || exit 2
trap 'rm -rf "$OUT"' EXIT
trap 'exit 2' INT TERM
race=
case "$1" in
  replay) grep -q '"property": "C06"' "$2" && race=race ;;
  C06) race=race ;;
  explore) [ "$2" = C06 ] && race=race ;;
esac
if ! bash "$HERE/build.sh" "$OUT" $race >"$OUT/build.log" 2>&1; then
  echo "ERROR: the build of the simulated code failed"
  tail -c 4000 "$OUT/build.log"
  exit 2
fi
[ -n "$race" ] && export GORACE="halt_on_error=0 history_size=3 exitcode=0"
case "$1" in
  replay) "$OUT/h" replay "$(realpath "$2")" ;;
  explore) "$OUT/h" explore "$2" "${3:-200}" $4 ;;
  *) "$OUT/h" check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -verif "$HERE" ${VERIF_ARGS:-} ;;
esac
exit $?
