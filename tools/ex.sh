#!/bin/bash
# ex.sh PROP variant seconds base
P=$1; V=${2:-dbg}; S=${3:-20}; B=${4:-1}
mkdir -p /tmp/ex; rm -f /tmp/ex/$P.$V.*
for i in 0 1 2 3 4 5 6 7; do ${VERIF_BUILD:-/verif/build}/$V/sim explore --prop $P --seed-base $B --workers 8 --worker $i --seconds $S --out /tmp/ex/$P.$V.$i & done; wait
python3 - $P $V <<'P'
import json,glob,sys
p,v=sys.argv[1:3]
tot={};prob={};flt={};viol=[];fi=''
for f in glob.glob(f'/tmp/ex/{p}.{v}.*.json'):
    d=json.load(open(f))
    for k in('runs','ok','discard','internal','timeouts','nontrivial','switches','rseq_aborts','lock_waits','steps','site_pairs','distinct_schedules'): tot[k]=tot.get(k,0)+d[k]
    for k,x in d['probes'].items(): prob[k]=prob.get(k,0)+x
    for k,x in d['faults'].items(): flt[k]=flt.get(k,0)+x
    viol+=d['violations']; fi=fi or d['first_internal']
print(tot);print('probes',prob);print('faults',flt)
if fi: print('INTERNAL',fi[:600])
seen={}
for t in viol:
    L=open(t).read().split('\n')
    k=(L[4],L[5]); seen.setdefault(k,[]).append((t,[l for l in L if l.startswith('# violation')][:6]))
for k,x in seen.items(): print('VIOL',k,len(x),x[0][0]); print('   ','\n    '.join(l[:400] for l in x[0][1]))
P
