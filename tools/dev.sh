#!/bin/bash
# dev helper: dev.sh <monitor> <cases> [seed]   (parallel run, summary of violation keys)
m=$1; n=${2:-400}; s=${3:-1}; d=$(mktemp -d /tmp/devXXXX)
for i in 0 1 2 3 4 5 6 7; do
 (${B:-/verif/build}/mon_$m --seed $s --from $i --to $n --step 8 --out $d/o$i --status $d/s$i --scratch $d/x$i/ >$d/so$i 2>$d/se$i || echo "shard $i rc=$? case $(cat $d/s$i) $(grep -h -E 'ERROR|runtime error|Assertion|terminate|what' $d/se$i $d/so$i| head -3|cut -c1-300)") &
done; wait
python3 - $d <<'P'
import json,sys,glob,collections
k=collections.OrderedDict();ev=collections.Counter();w={};t=collections.Counter();sig=set()
for f in sorted(glob.glob(sys.argv[1]+'/o*')):
  for l in open(f):
    try:o=json.loads(l)
    except Exception: print('bad line',l[:100]);continue
    if o['t']=='viol': k.setdefault(o['key'],[]).append((o['case'],o['detail']))
    else:
      for a,b in o['events'].items(): ev[a]+=b
      for a,b in o['worst'].items(): w[a]=max(w.get(a,0),b)
      for a in('evals','nontrivial','checks','viol'): t[a]+=o[a]
      sig|=set(o['sig'])
print(dict(t),'distinct',len(sig)); print('events',dict(ev)); print('worst',{a:b for a,b in w.items() if b>0.01})
for a,b in k.items():
  print('VIOL',a,len(b))
  for c,d in b[:2]: print('    ',c,d[:400])
P
rm -rf $d
