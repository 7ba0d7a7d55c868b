#!/bin/bash
# fix.sh PROPERTY "fix: message" "what failed"
cd "$(dirname "$0")/.." || exit 1
out=$(tools/fixcommit.sh "$2") || { echo "$out"; exit 1; }
echo "$out"
echo "fixed: property=$1 $(git -C /repo rev-parse --short HEAD) $3" >> known_findings.txt
