#!/bin/bash
# run.sh ID: builds the checker against /repo's working tree and decides one property.
# run.sh replay FILE: re-executes a counterexample.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$here
. "$here/tools/env.sh"
build_mc || { echo "cannot build the checker against /repo" >&2; exit 2; }
id=${1:-}
if [ "$id" = replay ]; then id=$(sed -n 's/^ *"property": "\(.*\)",$/\1/p' "$2" | head -1); fi
for fl in $(flavours "$id"); do build_extra "$fl"; done
if [ "${1:-}" = replay ]; then exec "$MC" replay "$2"; fi
exec "$MC" check "$1"
