#!/bin/bash
# Builds the engine, and warms the build cache for /repo's packages.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/lib.sh"
engine || exit 1
cd /repo && go build ./... && echo ready
