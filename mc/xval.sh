#!/bin/bash
# Cross-validation of the reduction: every outcome of a full search is found by the reduced one.
cd /verif/build/conc/x86_64-unknown-linux-gnu/release
for p in "$@"; do rm -f /tmp/a /tmp/b; ./conc run $p quick 8 /tmp/a;  MC_CASE_SECONDS=${S:-30} MC_TOTAL_SECONDS=${TT:-150} MC_NAIVE=1 ./conc run $p quick 8 /tmp/b; python3 - $p <<'P'
import json,sys
a={r['case']:r for r in map(json.loads,open('/tmp/a'))};b={r['case']:r for r in map(json.loads,open('/tmp/b')) if not r.get('skipped')}
b={c:r for c,r in b.items() if r['exhausted']}
d=[c for c in b if a[c]['oxor']!=b[c]['oxor'] or a[c]['outcomes']!=b[c]['outcomes']]
print(sys.argv[1],len(a),len(b),'mismatch',len(d), sum(r['executions'] for r in b.values()), sum(a[c]['executions'] for c in b)) 
for c in d[:5]: print(c,a[c]['outcomes'],b[c]['outcomes'])
P
done
