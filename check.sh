#!/bin/bash
# check.sh setup | check.sh ID quick|thorough | check.sh replay FILE
# Builds the model checker against /repo's current working tree and runs one check.
# exit 0: held on everything explored; exit 1 + "VIOLATION property=..": broken; anything else: error.
set -u
dir="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$dir"
build() { # profile -> builds, or exits 3
  ( cd "$dir/mc" && cargo build --offline --quiet --profile "$1" ) >"$dir/mc/build-$1.log" 2>&1 && return 0
  echo "check.sh: building the checker (profile $1) failed:" >&2
  tail -n 40 "$dir/mc/build-$1.log" >&2
  exit 3
}
mc="$dir/mc/target/checked/mc"
case "${1:-}" in
  setup)  build checked; build release; exit 0;;
  replay)
    build checked
    if grep -q '"profile": "release"' "$2"; then build release; export MC_RELEASE_EXE="$dir/mc/target/release/mc"; fi
    exec "$mc" replay "$2";;
  C[0-9]*)
    tier="${2:-quick}"
    mkdir -p "$dir/evidence" "$dir/replays"
    build checked
    unset MC_RELEASE_EXE
    if [ "$tier" = thorough ]; then
      build release
      export MC_RELEASE_EXE="$dir/mc/target/release/mc"
    fi
    exec "$mc" check "$1" "$tier";;
  *) echo "usage: check.sh setup | ID quick|thorough | replay FILE" >&2; exit 2;;
esac
