#!/bin/sh
# check.sh -property Cxx -tier quick|thorough: builds the checker and decides
# one property on /repo's current source.
here=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
export PATH="$PATH:/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin"
unset GOARCH GOOS GOEXPERIMENT GODEBUG
mkdir -p "$here/bin" "$here/evidence" || exit 1
bin="$here/bin/crunchcheck"
if ! (cd "$here/checker" && GOFLAGS=-mod=mod go build -o "$bin.$$" .) 2>"$here/bin/build.log"; then
  cat "$here/bin/build.log"
  echo "check.sh: the checker does not build"
  exit 2
fi
mv -f "$bin.$$" "$bin"
[ "$1" = "-build" ] && exit 0
exec "$bin" -repo "${CRUNCH_REPO:-/repo}" -verif "$here" "$@"
