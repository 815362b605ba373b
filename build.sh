#!/bin/bash
# builds /verif/bin/govc when it is missing or older than its sources (setup_cmd; also run by every check)
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
mkdir -p "$here/bin"
if [ ! -x "$here/bin/govc" ] || [ -n "$(find "$here/govc" -newer "$here/bin/govc" -print -quit)" ]; then
  (cd "$here/govc" && GOFLAGS=-mod=mod go build -o "$here/bin/govc.$$" . && mv "$here/bin/govc.$$" "$here/bin/govc")
fi
