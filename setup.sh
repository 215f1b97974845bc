#!/bin/bash
# Nothing is fetched or installed: the checks build what they need from /repo's working tree.
set -e
cd "$(dirname "$0")"
for t in g++ ninja ar python3 gzip; do command -v $t >/dev/null || { echo "missing tool: $t"; exit 1; }; done
mkdir -p build evidence
