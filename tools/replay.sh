#!/bin/bash
# usage: replay.sh <property>   runs the bounded harness of a property against the real code in /repo
here="$(cd "$(dirname "$0")/.." && pwd)"
. "$here/tools/build.sh" || exit 2
exec "$here/bin/gover" replay "$1"
