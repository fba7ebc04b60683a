#!/bin/bash
# Builds the fact extractor (cached under .cache; every check rebuilds it if it is missing).
cd "$(dirname "$0")" || exit 1
T=$(mktemp -d) && ./facts.sh "$T" all; R=$?
rm -rf "$T"
exit $R
