#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Builds the verifier from /verif/govc when needed, then verifies the property on /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
if ! "$here/build.sh" >/tmp/govc-build.$$ 2>&1; then cat /tmp/govc-build.$$; echo "govc does not build"; exit 2; fi
rm -f "/tmp/govc-build.$$"
exec "$here/bin/govc" check -repo /repo -verif "$here" -tier "${2:-quick}" "$1"
