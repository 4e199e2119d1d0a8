#!/bin/bash
# runx.sh <bin> <prop> <tier>: runs a sequential engine on all cores and prints a summary
B=$1; P=$2; T=$3; D=$(mktemp -d); export TMPDIR=$D
s=$(date +%s.%N)
for i in 0 1 2 3 4 5 6 7; do $B run $P $T $i 8 $D/$i.json > $D/$i.log 2>&1 & done; wait
e=$(date +%s.%N)
python3 - $D $P $T $s $e <<'P'
import sys,json
d,p,t,s,e=sys.argv[1:]
n=st=0;tot=0;tr=False;S=set();v=[]
for i in range(8):
    for l in open(f'{d}/{i}.json'):
        j=json.loads(l)
        if 'cases' not in j: v.append(j); continue
        n+=j['cases'];st+=j['steps'];tot=j['total'];tr|=j['truncated'];S|=set(j['states']);v+=j['violations']
    
print(p,t,'cases',n,'of',tot,'steps',st,'states',len(S),'truncated',tr,'violations',len(v),'wall %.1f'%(float(e)-float(s)))
for x in v[:6]: print('  ',json.dumps(x)[:900])
P
rm -rf "$D"
