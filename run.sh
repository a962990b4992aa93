#!/bin/bash
# run.sh PROPERTY [quick|thorough]   decide one property on /repo's current working tree
# run.sh replay FILE                 repeat the case of a recorded violation
# run.sh setup                       build everything once (only saves time later)
#
# Exit codes: 0 held on everything observed, 1 violated (VIOLATION line printed), 2 no answer
# (the harness or the code under test did not build, too little was observed, or the run was ended).
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTDOCFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR RUST_LOG CARGO_INCREMENTAL
[ -d "$HOME/.cargo/bin" ] && PATH="$HOME/.cargo/bin:$PATH"

SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/vh.XXXXXXXX") || exit 2
export VH_ROOT=$ROOT VH_SCRATCH=$SCRATCH
cleanup() { case "$SCRATCH" in */vh.????????) chmod -R u+rwX "$SCRATCH" 2>/dev/null; find "$SCRATCH" -depth -delete 2>/dev/null ;; esac; }
trap cleanup EXIT
trap 'exit 2' INT TERM

# What was built from an earlier state of /repo must not be taken for its current state, whatever the file times say.
forget() {
  [ -d "$ROOT/target" ] || return 0
  find "$ROOT/target" -depth \( -path '*/.fingerprint/bardecoder-*' -o -path '*/.fingerprint/vh-*' \) -delete 2>/dev/null
}

# build NAME: checked (overflow and debug assertions on), plain (release), debugimg (checked, feature debug-images), asan
build() {
  local log="$SCRATCH/build.$1.log"
  local args=(build --offline --quiet --manifest-path "$ROOT/harness/Cargo.toml")
  case "$1" in
    checked)  cargo "${args[@]}" --target-dir "$ROOT/target/main" >"$log" 2>&1 ;;
    plain)    cargo "${args[@]}" --target-dir "$ROOT/target/main" --release >"$log" 2>&1 ;;
    debugimg) cargo "${args[@]}" --target-dir "$ROOT/target/debugimg" --features debug-images >"$log" 2>&1 ;;
    asan)     RUSTFLAGS="-Zsanitizer=address" cargo +nightly "${args[@]}" --target-dir "$ROOT/target/asan" --target x86_64-unknown-linux-gnu >"$log" 2>&1 ;;
  esac
  local rc=$?
  if [ $rc -ne 0 ]; then
    echo "build '$1' failed: no answer" >&2
    tail -40 "$log" >&2
    exit 2
  fi
}
binary() {
  case "$1" in
    checked)  echo "$ROOT/target/main/debug/vh" ;;
    plain)    echo "$ROOT/target/main/release/vh" ;;
    debugimg) echo "$ROOT/target/debugimg/debug/vh" ;;
    asan)     echo "$ROOT/target/asan/x86_64-unknown-linux-gnu/debug/vh" ;;
  esac
}
# The builds a property is watched in.
builds_of() {
  case "$1/$2" in
    C18/*)                echo "checked" ;;
    C07/thorough|C08/thorough) echo "checked plain asan" ;;
    */thorough)           echo "checked plain" ;;
    C01/*|C07/*|C08/*|C09/*) echo "checked plain" ;;
    *)                    echo "checked" ;;
  esac
}
prepare() { # builds needed, one after the other in the same target directory
  local b
  [ "$1" = C18 ] && { build debugimg; export VH_DEBUGIMG=$(binary debugimg); }
  for b in $2; do build "$b"; done
}

case "${1:-}" in
  setup)
    for t in cargo python3; do command -v $t >/dev/null || { echo "$t is missing" >&2; exit 2; }; done
    build checked; build plain; build debugimg
    echo "ready"
    ;;
  replay)
    f=${2:?replay file}
    get() { python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))[sys.argv[2]])' "$f" "$1"; }
    b=$(get build); p=$(get property)
    forget
    prepare "$p" "$b"
    VERIF_SEED=$(get seed) VH_BUILD=$b "$(binary "$b")" one "$p" "$(get tier)" "$(get stage)" "$(get index)"
    exit $?
    ;;
  C[0-9][0-9])
    p=$1; tier=${2:-${VERIF_TIER:-quick}}
    list=$(builds_of "$p" "$tier")
    forget
    prepare "$p" "$list"
    for b in $list; do
      VH_BUILD=$b "$(binary "$b")" check "$p" "$tier"
      rc=$?
      [ $rc -eq 0 ] || exit $rc
    done
    # one evidence file: what the other builds observed goes into the first one's
    python3 - "$ROOT/evidence" "$p" $list <<'PY' || exit 2
import json, os, sys
d, p, builds = sys.argv[1], sys.argv[2], sys.argv[3:]
main = json.load(open(f"{d}/{p}.json"))
rest = []
for b in builds[1:]:
    f = f"{d}/{p}.{b}.json"
    e = json.load(open(f))
    rest.append({k: e["coverage"][k] for k in ("build", "evaluations", "distinct_nontrivial", "calls_observed", "observed")} | {"wall_s": e["wall_s"]})
    main["wall_s"] = round(main["wall_s"] + e["wall_s"], 3)
    os.remove(f)
if rest:
    main["coverage"]["other_builds"] = rest
    json.dump(main, open(f"{d}/{p}.json", "w"), indent=1)
PY
    ;;
  *)
    sed -n '2,4p' "$0" >&2
    exit 2
    ;;
esac
