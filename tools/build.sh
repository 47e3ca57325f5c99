# How the checkers are built; sourced by check.sh and setup.sh. Uses HERE and BUILD.
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:/usr/local/bin:/usr/local/sbin:/usr/bin:/usr/sbin:/bin:/sbin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" TZ=UTC GOWORK=off GO111MODULE=on
REPO=/repo

copy_sources() { cp -a "$HERE/h" "$BUILD/h"; }

try() { "$@" 2> "$BUILD/err" || { cat "$BUILD/err" >&2; echo "build failed" >&2; return 3; }; }

# the library as it is
build_codec() { cd "$BUILD/h" && try go build -o "$BUILD/codec" ./cmd/codec; }

# the commands
build_tools() {
  M=github.com/warthog618/sms/cmd
  mkdir -p "$BUILD/bin" && cd "$BUILD/h" && try go build -o "$BUILD/bin/" $M/smssubmit $M/smsdeliver $M/smscounter $M/smsdecode $M/charsets
}

# the library with its synchronisation, timers and goroutines under control:
# conc without the race detector, sched with (for the library, not for the harness)
build_conc() {
  local r=() p
  for p in sched vtime core ref cprops props cmd/conc; do r+=("-gcflags=verif.local/h/$p=-race=false -d=checkptr=0"); done
  cd "$BUILD/h" && mkdir -p "$BUILD/inst" &&
  try go build -o "$BUILD/instrument" ./cmd/instrument &&
  try "$BUILD/instrument" "$REPO" "$BUILD/inst" &&
  try go build -overlay "$BUILD/inst/overlay.json" -o "$BUILD/conc" ./cmd/conc &&
  try go build -race -overlay "$BUILD/inst/overlay.json" "-gcflags=all=-d=checkptr=0" "${r[@]}" -o "$BUILD/sched" ./cmd/conc
}
