#!/bin/bash
# Builds the checker once; every check rebuilds it from /repo's working tree anyway.
here=$(cd "$(dirname "$0")/.." && pwd)
. "$here/tools/env.sh"
build_mc && echo "checker built: $MC"
