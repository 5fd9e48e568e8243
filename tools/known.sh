#!/bin/bash
# Shows what the pinned inputs of the recorded findings do.
cd "$(dirname "$0")/.."
for f in known/*.json; do id=$(grep -o '"property": "C[0-9]*"' $f | grep -o 'C[0-9]*'); exe=harness/target/plain/plain/check; grep -q checked $f && exe=harness/target/checked/release/check; echo "$f: $($exe one $id $f 2>&1 | head -2|cut -c1-200)"; done
