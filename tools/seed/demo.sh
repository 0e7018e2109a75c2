#!/bin/bash
# Run with cwd = the repository, after the build: exit 0 when the demonstrated behaviour is right.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "${tmp:?}"' EXIT
{
  echo '{"Replace": {'
  sep=
  for f in "$here"/*_test.go; do
    printf '%s"%s/internal/zzdemo/%s": "%s"\n' "$sep" "$PWD" "$(basename "$f")" "$f"
    sep=,
  done
  echo '}}'
} > "$tmp/overlay.json"
timeout 250 go test -c -o "$tmp/demo" -overlay "$tmp/overlay.json" -vet=off ./internal/zzdemo || exit 3
cd "$tmp" && timeout 280 ./demo -test.run '^TestDemo$' -test.timeout 270s
