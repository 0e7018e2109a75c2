#!/bin/bash
# bash replay.sh <replay/FILE.json>: runs one recorded counterexample against the real code.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/lib.sh"
engine || exit 3
exec "$VE" -repo /repo -verif "$here" -replay "$1"
