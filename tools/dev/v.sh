#!/bin/bash
EXT=$(grep -v "^#" /verif/verus/unproved.txt | cut -f1 | paste -sd";" | sed "s,;,;;,g"); [ -n "$EXT" ] && EXT="--external=$EXT"; /verif/extract/target/debug/extract /repo/src /verif/verus /tmp/out.rs $EXT || exit 1
python3 -c "
import json
d=json.load(open('/tmp/out.json'))
for f in d['functions']:
    if f['lost']: print('LOST', f['id'], f['lost'])
for x in d['unused_annotations']: print('UNUSED', x)
"
cd /tmp && verus out.rs --rlimit ${RL:-60} --triggers-mode silent --multiple-errors 4 "$@" > /tmp/v.log 2>&1
python3 - <<'PY'
import re,os
src=open('/tmp/out.rs').read().split('\n')
fn=[]; cur='prelude'
own={}
for i,l in enumerate(src,1):
    m=re.search(r'//@FN (.*)',l)
    if m: cur=m.group(1)
    elif '//@END' in l: own[i]=cur; cur='-'
    m=re.search(r'proof fn (\w+)',l)
    if m and cur in('-','prelude') or (m and cur.startswith('L:')): cur='L:'+m.group(1)
    own[i]=cur
out=[]
L=open('/tmp/v.log').read().split('\n')
i=0
while i<len(L):
    l=L[i]
    if l.startswith('error') or 'verified' in l or (l.startswith('note: ') and ('while loop' in l or 'recommend' in l)) :
        locs=[]
        j=i+1
        while j<len(L) and not L[j].startswith(('error','note','warning')) :
            m=re.search(r'(?:-->|:::) out.rs:(\d+):(\d+)',L[j])
            if m: locs.append(int(m.group(1)))
            m=re.match(r' *(\d+) \|.*',L[j])
            if m:
                k=int(m.group(1))
                nx=L[j+1] if j+1<len(L) else ''
                if '^' in nx or '-' in nx and '|' in nx: locs.append(k)
            j+=1
        locs=list(dict.fromkeys(locs))
        if 'not all errors' not in l:
            out.append(l+'   '+' '.join(f'\n     {k} [{own.get(k)}] {src[k-1].strip()[:150]}' for k in locs[:4]))
    i+=1
N=int(os.environ.get('N','40'))
print('\n'.join(out[:N]))
PY
