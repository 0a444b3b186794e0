#!/bin/bash
# tools/mkseed.sh <seed id> : turn /repo's uncommitted change into seeded/<id>/patch.diff and undo it
V=$(cd "$(dirname "$0")/.." && pwd); mkdir -p "$V/seeded/$1"
git -C /repo diff > "$V/seeded/$1/patch.diff"; git -C /repo checkout -q -- .; wc -l "$V/seeded/$1/patch.diff"
