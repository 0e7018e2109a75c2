#!/bin/bash
# bash check.sh <property> <quick|thorough>: decides one property on /repo's current working tree.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/lib.sh"
engine || exit 3
exec "$VE" -repo /repo -verif "$here" -prop "$1" -tier "${2:-quick}"
