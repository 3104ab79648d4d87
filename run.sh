#!/bin/bash
# run.sh <property id>: rebuilds the check's binary against /repo's working tree and runs it.
# VERIF_SEED, VERIF_TIER (quick|thorough) come from the environment.
set -u
ID=${1:?usage: run.sh ID}
cd /verif/harness || exit 2
. ./env.sh
ulimit -c 0
case $ID in
  C01|C02|C04) BIN=codec;;
  C03) BIN=stdio;;
  C05|C06|C07) BIN=server;;
  C08|C09|C10) BIN=client;;
  C11|C12|C13|C14|C15|C16) BIN=proto;;
  C17|C18) BIN=notify;;
  C19|C20) BIN=stores;;
  C21|C22|C23|C24|C26|C35) BIN=httpc;;
  C25) BIN=ws;;
  C27|C28|C32|C37) BIN=text;;
  C29|C30|C31) BIN=resil;;
  C33|C34) BIN=auth;;
  C36) BIN=simd;;
  C38|C39|C41) BIN=misc;;
  C40) BIN=logs;;
  C42) BIN=e2e;;
  *) echo "unknown property $ID"; exit 2;;
esac

# Cargo decides by modification times; where the content differs from what was last built here, force it.
fresh() { # target dir
  local h; h=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32)
  if [ "$(cat "$1/.repo-hash" 2>/dev/null)" != "$h" ]; then
    find "$1" -maxdepth 4 -type d -path '*/.fingerprint/pmcp-*' -exec rm -rf {} + 2>/dev/null
    mkdir -p "$1"; echo "$h" > "$1/.repo-hash"
  fi
}

build() {
  local log; log=$(mktemp)
  if ! "$@" > "$log" 2>&1; then tail -60 "$log"; rm -f "$log"; echo "BUILD FAILED: $*"; exit 2; fi
  rm -f "$log"
}

verdict() { # exit code of a run, output file
  local rc=$1
  case $rc in
    0|1) return $rc;;
    132|134|135|136|139)
      mkdir -p /verif/evidence/replay
      local rp=/verif/evidence/replay/$ID.json
      printf '{"property":"%s","crash_exit_code":%d,"replay_cmd":"VERIF_SEED=%s VERIF_TIER=%s bash /verif/run.sh %s"}\n' "$ID" "$rc" "${VERIF_SEED:-1}" "${VERIF_TIER:-quick}" "$ID" > "$rp"
      echo "the run died with exit code $rc (abort, invalid memory access or illegal instruction)"
      echo "VIOLATION property=$ID replay=$rp"
      return 1;;
    *) return 2;;
  esac
}

# The vector routines once more, alone, under AddressSanitizer (and Miri in the thorough tier). What cannot be
# built or does not finish leaves only the main check; a report or a wrong result is a violation.
ub_run() { # kind, seconds, calls
  local out rc; out=$(mktemp)
  case $1 in
    asan) (cd /verif/harness-ub && RUSTFLAGS="-Zsanitizer=address -C target-feature=+avx2" CARGO_TARGET_DIR=/verif/harness/target-ub/asan \
            timeout -k 5 120 cargo +nightly build --offline --quiet --target x86_64-unknown-linux-gnu) > "$out" 2>&1 \
          || { echo "note: no AddressSanitizer build: $(grep -m1 -E '^error' "$out")"; rm -f "$out"; return 0; }
          UB_N=$3 ASAN_OPTIONS=detect_leaks=0 timeout -k 5 "$2" /verif/harness/target-ub/asan/x86_64-unknown-linux-gnu/debug/ub > "$out" 2>&1; rc=$?;;
    miri) (cd /verif/harness-ub && MIRIFLAGS="-Zmiri-disable-isolation" RUSTFLAGS="-C target-feature=+avx2" CARGO_TARGET_DIR=/verif/harness/target-ub/miri \
            UB_N=$3 timeout -k 5 "$2" cargo +nightly miri run --offline --quiet) > "$out" 2>&1; rc=$?;;
  esac
  if grep -qE 'AddressSanitizer: |Undefined Behavior' "$out" || grep -qE "^thread .*panicked at" "$out"; then
    mkdir -p /verif/evidence/replay
    local rp=/verif/evidence/replay/$ID-$1.txt
    { echo "VERIF_SEED=${VERIF_SEED:-1} UB_N=$3 ($1, /verif/harness-ub)"; head -c 8000 "$out"; } > "$rp"
    head -30 "$out"; rm -f "$out"
    echo "VIOLATION property=$ID replay=$rp"
    return 1
  fi
  if [ "$rc" = 124 ] || [ "$rc" = 137 ]; then echo "note: $1 run not finished in $2 s"; rm -f "$out"; return 0; fi
  local calls; calls=$(grep -oE 'UB-CALLS [0-9]+' "$out" | grep -oE '[0-9]+')
  UB_NOTE="${UB_NOTE:-}$1=${calls:-0};"
  [ -n "$calls" ] || { echo "note: $1: $(grep -m1 -E 'UB-SKIP|^error' "$out")"; }
  rm -f "$out"
}

fresh "$CARGO_TARGET_DIR"
UB_NOTE=
UB_RC=0
if [ "$ID" = C36 ]; then
  ub_run asan 60 4000 || UB_RC=1
  [ "${VERIF_TIER:-quick}" = thorough ] && { ub_run miri 400 400 || UB_RC=1; }
fi
export UB_NOTE
build cargo +stable build --offline --quiet --bin "$BIN"
( ulimit -v 25000000; exec "$CARGO_TARGET_DIR/debug/$BIN" "$ID" )
verdict $?
RC=$?
[ "$UB_RC" = 1 ] && RC=1
exit $RC
