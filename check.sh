#!/bin/bash
# check.sh PROPERTY: decides one property on /repo's current tree.
d="$(cd "$(dirname "$0")" && pwd)"
if [ ! -x "$d/bin/engine" ] || [ -n "$(find "$d/engine" -newer "$d/bin/engine" -name '*.go' | head -1)" ]; then
  bash "$d/setup.sh" || exit 2
fi
exec "$d/bin/engine" -verif "$d" -repo /repo check "$1"
