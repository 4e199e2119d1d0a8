#!/bin/bash
# development helper: run the given properties and summarise
cd /verif/build/conc/x86_64-unknown-linux-gnu/release
for p in "$@"; do echo "== $p"; rm -f /tmp/o.jsonl; ( time MC_CASE_SECONDS=${S:-20} ./conc run $p ${T:-quick} 8 /tmp/o.jsonl ) 2>&1 | grep -E "real|fail"; python3 /tmp/sum.py /tmp/o.jsonl; done
