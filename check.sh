#!/bin/bash
# check.sh <property> <quick|thorough>   or   check.sh replay <file>   or   check.sh setup
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_TARGET_DIR="$here/target" VERIF_DIR="$here" CARGO_NET_OFFLINE=true
m="$here/harness/Cargo.toml"
cargo build --release --offline --quiet --manifest-path "$m" --bin vh >"$here/target.build.log" 2>&1 || {
  cat "$here/target.build.log" >&2
  echo "check.sh: the harness does not build against /repo" >&2
  exit 2
}
case "$1" in
setup | C19 | replay)
  # the command line tool: its main.rs built with the harness' dependencies, or else /repo's package as it is
  if cargo build --release --offline --quiet --manifest-path "$m" --bin lbfcli >"$here/target.build.log" 2>&1; then
    export VERIF_CLI="$here/target/release/lbfcli"
  else
    CARGO_TARGET_DIR="$here/target/cli" cargo build --release --offline --quiet --manifest-path /repo/lbf/Cargo.toml --bin lbf >>"$here/target.build.log" 2>&1 || {
      cat "$here/target.build.log" >&2
      echo "check.sh: the command line tool does not build" >&2
      exit 2
    }
    export VERIF_CLI="$here/target/cli/release/lbf"
  fi
  ;;
esac
case "$1" in setup) exit 0 ;; esac
tier=${2:-quick}
mkdir -p "$here/evidence" "$here/replays"
ulimit -v 26000000
export VERIF_PROGRESS="$here/evidence/.progress.$$"
if [ "$1" = replay ]; then
  "$here/target/release/vh" replay "$2"
else
  "$here/target/release/vh" check "$1" "$tier"
fi
rc=$?
fam=$(cat "$VERIF_PROGRESS" 2>/dev/null)
rm -f "$VERIF_PROGRESS"
if [ $rc -gt 128 ] && [ "$1" != replay ]; then
  # the code under test brought the whole process down: stack overflow, abort, or out of memory
  r="$here/replays/$1-crash.json"
  m="the process ended with signal $((rc - 128)) (stack overflow, abort or memory exhausted) while exploring '$fam'"
  cat >"$r" <<EOF
{"property": "$1", "tier": "$tier", "seed": ${VERIF_SEED:-1}, "family": "$fam", "message": "$m",
 "replay": "bash /verif/check.sh replay $r"}
EOF
  cat >"$here/evidence/$1.json" <<EOF
{"property": "$1", "tier": "$tier", "seed": ${VERIF_SEED:-1}, "level": "model_checking",
 "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "exhaustive": false,
  "bounds": "the exploration was cut short: $m"},
 "assumptions": [], "wall_s": $SECONDS, "violations": [{"property": "$1", "family": "$fam", "message": "$m"}]}
EOF
  echo "  $m"
  echo "VIOLATION property=$1 replay=$r"
  exit 1
fi
exit $rc
