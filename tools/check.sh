#!/bin/bash
# usage: check.sh <property> [gover flags]   builds gover when needed, then decides the property on /repo's current tree
set -u
here="$(cd "$(dirname "$0")/.." && pwd)"
. "$here/tools/build.sh" || exit 2
p="$1"; shift
exec "$here/bin/gover" check -prop "$p" "$@"
