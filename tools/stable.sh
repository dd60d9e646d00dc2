#!/bin/bash
# usage: stable.sh DIR : run the repository's tests on DIR, exit 0 iff every stable test passes
. /opt/vp/env.sh
D=$(realpath "$1"); cd "$D" || exit 2
export PYTHONPATH=$D
O=$(mktemp /tmp/stable.XXXXXX)
timeout 800 python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -rA spta > "$O" 2>&1
python - "$O" <<'P'
import json,sys,re
b=json.load(open('/opt/vp/BASELINE.json'))
def names(o):
    if isinstance(o,str):
        if '::' in o: yield o
    elif isinstance(o,dict):
        for k,v in o.items():
            yield from names(k); yield from names(v)
    elif isinstance(o,list):
        for v in o: yield from names(v)
base=set(names(b))
txt=open(sys.argv[1]).read()
passed=set(re.findall(r'^PASSED (\S+)',txt,re.M))
norm=lambda s: s.replace('.py','').replace('/','.').replace('::','.')
miss={n for n in base if norm(n) not in {norm(p) for p in passed}}
print(len(passed), len(base), txt.strip().splitlines()[-1])
if base: 
    print('missing', sorted(miss)[:5]); sys.exit(1 if miss else 0)
sys.exit(0 if len(passed)>=116 else 1)
P
rc=$?; /bin/rm -f "$O"; exit $rc
