#!/bin/bash
# runs every registered check in parallel and prints the verdict lines
cd "$(dirname "$0")/.." || exit 2
ls checks | grep -E '^P[0-9]+\.js$' | sed 's/\.js//' | xargs -P 7 -I{} bash -c 'o=$(node checks/{}.js 2>&1); rc=$?; if [ $rc != 0 ] || [ -n "$V" ]; then echo "== {} rc=$rc"; echo "$o" | cut -c1-600 | head -${L:-12}; fi'
