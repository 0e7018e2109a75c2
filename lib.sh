# sourced: go environment, and engine() which builds the engine when it is missing or stale
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
VE="$here/bin/verifeng"
engine() {
  mkdir -p "$here/bin"
  if [ -x "$VE" ] && [ -z "$(find "$here/engine" -newer "$VE" -type f)" ]; then return 0; fi
  (cd "$here/engine" && go build -o "$VE.$$" . && mv -f "$VE.$$" "$VE")
}
