#!/bin/bash
# builds /verif/bin/gover when its sources are newer (sourced or executed)
vdir="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
_need=0
[ -x "$vdir/bin/gover" ] || _need=1
if [ $_need = 0 ] && [ -n "$(find "$vdir/gover" -newer "$vdir/bin/gover" -name '*.go' -print -quit)" ]; then _need=1; fi
if [ $_need = 1 ]; then
  mkdir -p "$vdir/bin"
  ( cd "$vdir/gover" && env -u GOROOT HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin GOSUMDB=off GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o "$vdir/bin/gover" . ) || { echo "cannot build gover" >&2; false; }
fi
