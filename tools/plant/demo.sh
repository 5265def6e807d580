#!/bin/bash
# Run with cwd /repo after build.sh: exit 0 if the property holds, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
export PYTHONDONTWRITEBYTECODE=1 LANG=C.UTF-8
exec python3 "$here/demo.py"
