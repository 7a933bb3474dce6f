#!/bin/bash
# run.sh <property>: builds the harness against the working tree of /repo and
# decides the property ("thorough" as second argument: the thorough tier).
# Exit 0: held, 1: violation, 2: no verdict.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"
[ "${2:-}" = thorough ] && export VERIF_TIER=thorough
. /opt/vp/env.sh
export VERIF_DIR="$here"
mkdir -p "$here/.build"
flags=""; name="harness"
case "$id" in C18) flags="-race"; name="harness-race";; esac
bin="$here/.build/$name.$$"
demos="$here/.build/demos.$$"
trap 'rm -rf "$bin" "$demos"' EXIT
if ! ( cd "$here/harness" && go build $flags -o "$bin" . ) 2> "$here/.build/$name.$$.log"; then
  echo "BUILD FAILED for $id"; cat "$here/.build/$name.$$.log"; rm -f "$here/.build/$name.$$.log"; exit 2
fi
if [ "$id" = C23 ]; then
  export VERIF_DEMOS="$demos"; mkdir -p "$demos"
  if ! ( cd /repo && go build -o "$demos/" ./demo/json-stack ./demo/full-lua-stack ) 2> "$here/.build/$name.$$.log"; then
    echo "BUILD FAILED for $id"; cat "$here/.build/$name.$$.log"; rm -f "$here/.build/$name.$$.log"; exit 2
  fi
fi
rm -f "$here/.build/$name.$$.log"
"$bin" check "$id"
