#!/bin/bash
# check.sh <property> [quick|thorough] : build the harness against /repo's
# working tree, run the monitors of one property, write evidence/<id>.json.
# exit 0: held; 1 + VIOLATION line: broken; anything else: the check failed.
id=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
cd "$(dirname "$0")" || exit 2
here=$PWD
export RUSTUP_TOOLCHAIN=nightly-2023-12-06 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
export RUST_BACKTRACE=0
mkdir -p "$here/evidence" "$here/target"
if ! scratch=$(mktemp -d /dev/shm/tgmon.XXXXXX 2>/dev/null); then
  scratch=$(mktemp -d /tmp/tgmon.XXXXXX) || exit 2
fi
trap 'rm -rf "$scratch"' EXIT
if [ "$tier" = thorough ]; then limit=2400; else limit=300; fi

. "$here/tools/fresh.sh"

build() { # build <target directory> [cargo arguments]: quiet unless it fails
  local dir=$1
  shift
  if ! (cd "$here/harness" && exec 9>"$here/target/.lock" && flock 9 && stale "$dir" && cargo build --release --offline --target-dir "$dir" "$@" && built "$dir") >"$scratch/build.log" 2>&1; then
    grep -v '^warning' "$scratch/build.log" | tail -40 >&2
    echo "ERROR the harness does not build against /repo" >&2
    exit 2
  fi
}

run() { # run <tgmon> <evidence file>: the monitors themselves
  local bin=$1 out=$2 st
  timeout -k 10 $((limit + 300)) "$bin" --property "$id" --tier "$tier" --seed "$seed" --limit "$limit" \
    --known "$here/known_findings.json" --scratch "$scratch" --replays "$here/evidence/replays" \
    --svcd "$here/target/release/svcd" ${distro:+--distro "$distro"} --repo /repo --out "$out" 2>"$scratch/err.log"
  st=$?
  grep -v '^$' "$scratch/err.log" | tail -40 >&2
  return $st
}

died() { # died <status> <what>: the process under observation was killed by a signal or the sanitizer
  mkdir -p "$here/evidence/replays"
  local f="$here/evidence/replays/$id-$tier-$seed-crash.txt"
  { echo "$2 ended with status $1"; echo "replay: VERIF_SEED=$seed $here/check.sh $id $tier"; cat "$scratch/err.log"; } >"$f"
  echo "VIOLATION property=$id replay=$f"
  grep -m3 -E 'ERROR: (Address|Leak)Sanitizer|SUMMARY' "$scratch/err.log"
}

build "$here/target"
distro=
if [ "$id" = S06 ]; then
  # the distribution crate; where it does not build, this part is left out
  rm -f "$here/target/distro/release/distrod"
  (cd "$here/harness/distrod" && stale "$here/target/distro" && cargo build --release --offline --target-dir "$here/target/distro" && built "$here/target/distro") >"$scratch/distro.log" 2>&1
  distro="$here/target/distro/release/distrod"
fi
run "$here/target/release/tgmon" "$here/evidence/$id.json"
st=$?
case $st in
  0) ;;
  1) exit 1 ;;
  132|133|134|135|136|139) # SIGILL SIGTRAP SIGABRT SIGBUS SIGFPE SIGSEGV inside the code under observation
    died $st tgmon; exit 1 ;;
  *) exit $st ;;
esac

if [ "$id" = K03 ]; then
  # the same workload under AddressSanitizer and LeakSanitizer
  mkdir -p "$here/target/asan"
  RUSTFLAGS="-Zsanitizer=address --cfg sanitize_address_build" build "$here/target/asan" -p tgmon --target x86_64-unknown-linux-gnu
  asan="$here/target/asan/x86_64-unknown-linux-gnu/release/tgmon"
  export ASAN_OPTIONS=detect_leaks=1:exitcode=99:abort_on_error=0
  run "$asan" "$scratch/asan.json"
  st=$?
  if [ $st = 99 ] && grep -q 'LeakSanitizer has encountered a fatal error' "$scratch/err.log"; then
    # no tracing allowed here: without the leak checker
    export ASAN_OPTIONS=detect_leaks=0:exitcode=99:abort_on_error=0
    run "$asan" "$scratch/asan.json"
    st=$?
  fi
  case $st in
    0) ;;
    1) exit 1 ;;
    99|132|133|134|135|136|139) died $st "tgmon under AddressSanitizer ($ASAN_OPTIONS)"; exit 1 ;;
    *) exit $st ;;
  esac
  python3 - "$here/evidence/$id.json" "$scratch/asan.json" "$ASAN_OPTIONS" <<'P'
import json, sys
e, a = (json.load(open(f)) for f in sys.argv[1:3])
e["coverage"]["under_address_sanitizer"] = {"options": sys.argv[3], "evaluations": a["coverage"]["evaluations"], "observed": a["coverage"]["observed"]}
e["wall_s"] += a["wall_s"]
json.dump(e, open(sys.argv[1], "w"), indent=2)
P
fi
exit 0
