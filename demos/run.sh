#!/bin/bash
# Demonstrates the genuine defects found in crunch (documentation, not a check).
# usage: run.sh REPO   (a checkout of crunch; the base commit fails, the fixed tree passes)
repo=${1:-/repo}; here=$(cd "$(dirname "$0")" && pwd); export GOFLAGS=-mod=mod GOPROXY=off
for v in v1 v2 v3; do
  o=$(mktemp); echo "{\"Replace\":{\"$repo/$v/defects_verif_test.go\":\"$here/$v/defects_verif_test.go\"}}" > $o
  (cd $repo/$v && go test -overlay $o -vet=off -count=1 -timeout 60s -run Defect .); rm -f $o
done
