#!/bin/bash
# check.sh <property> [quick|thorough]      decide a property
# check.sh replay <file>                    re-run a recorded violation
set -u
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOFLAGS= GOPROXY=off GOWORK=off
mkdir -p "$here/.work"
drv=$(mktemp "$here/.work/driver.XXXXXX") || exit 2
trap 'rm -f "$drv"' EXIT
(cd "$here/sim" && go1.26 build -o "$drv" ./driver) || exit 2
if [ "${1:-}" = replay ]; then
  "$drv" -replay "$2"
elif [ "${1:-}" = setup ]; then
  for p in C01 C13 C20 C12; do "$drv" -prop $p -build || exit 1; done
else
  p=$1; shift
  t=${1:-}; [ $# -gt 0 ] && shift
  "$drv" -prop "$p" -tier "$t" "$@"
fi
