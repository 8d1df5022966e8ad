#!/bin/sh
# Builds the fact extractor and warms the dependency cache. Every check does the same on demand.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$here/build"
"$here/tools/facts.sh" "$here/build/setup-facts.json"
rm -f "$here/build/setup-facts.json"
