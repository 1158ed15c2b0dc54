#!/bin/bash
# Builds everything once, to warm the caches and to fail early. Each check builds again what it needs from /repo.
cd "$(dirname "$0")" || exit 3
mkdir -p evidence replays
exec ./run.sh --build
