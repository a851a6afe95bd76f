#!/bin/bash
# Warms the build cache: every check builds against /repo's current tree anyway.
cd "$(dirname "$0")" || exit 1
command -v go >/dev/null || export PATH=/opt/veriftools/go1.27.3/bin:$PATH
tmp=$(mktemp -d) || exit 1
GO111MODULE=off GOPATH="$PWD/harness" GOFLAGS= GOPROXY=off GOTOOLCHAIN=local /opt/veriftools/go1.27.3/bin/go build -o "$tmp" vgx/pbt vgx/sched/... vgx/fstest vgx/cmd/instr
rc=$?
/bin/rm -rf "$tmp"
exit $rc
