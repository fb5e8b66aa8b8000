#!/bin/bash
# stable.sh ID : runs stable tests with bug applied, in a mount namespace
id=$1; d=/tmp/sw/t_$id; rm -rf $d; mkdir -p /tmp/sw /tmp/stab; cp -a /repo $d; git -C $d checkout -q -- . ; git -C $d apply /verif/seeded/$id/patch.diff || { echo "$id APPLYFAIL"; exit; }
unshare -Urm bash -c "mount --bind $d /repo && cd /repo && bash /opt/vp/build.sh >/tmp/stab/$id.build 2>&1 && bash /opt/vp/test.sh /tmp/stab/$id.json >/tmp/stab/$id.log 2>&1"
python3 - $id <<'P'
import json,sys
i=sys.argv[1]
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
try:
    r=json.load(open(f'/tmp/stab/{i}.json'))
except Exception as e: print(i,'NORESULT',e); sys.exit()
p=r.get('passed',r)
p=set(p if not isinstance(p,dict) else [k for k,v in p.items() if v in('passed',True,'pass')])
miss=sorted(b-p)
print(i,'STABLE' if not miss else f'FAILS {len(miss)} {miss[:3]}',flush=True)
P
rm -rf $d
