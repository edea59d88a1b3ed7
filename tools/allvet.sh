#!/bin/bash
# Vets the harness once per check.
cd "$(dirname "$0")/../harness" && for f in p[0-9]*.go; do p=$(basename $f .go); go vet -tags "verif ${p^^}" . || echo "FAIL $p"; done
