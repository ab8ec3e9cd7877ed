#!/bin/bash
# replay.sh TEST FILE: runs one minimal failing case again
# FILE is a .fail file of a random run or an input of a coverage-guided run
set -e
file=$(realpath "$2")
cd "$(dirname "$0")/harness"
tmp=$(mktemp -d)
trap 'rm -r -- "$tmp"' EXIT
cp go.mod go.sum "$tmp/"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
go test -c -vet=off -modfile "$tmp/go.mod" -o "$tmp/h.test" .
cd "$tmp"
case "$2" in
*.fail) ./h.test -test.run "^$1\$" -rapid.failfile="$file" -rapid.v ;;
*) mkdir -p testdata/fuzz/FuzzAny && cp "$file" testdata/fuzz/FuzzAny/case && VERIF_FUZZ=$1 ./h.test -test.run '^FuzzAny$/^case$' -test.v ;;
esac
