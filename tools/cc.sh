#!/bin/bash
# short summary of run-time contracts: cc.sh P01 P02 ...
for p in "$@"; do /opt/venv/bin/python -W ignore /verif/concrete/run.py $p --out /tmp/cc_$p.json ${TIER:+--tier $TIER} >/dev/null; python3 - $p <<'PY'
import json,sys
r=json.load(open('/tmp/cc_%s.json'%sys.argv[1]))
print(sys.argv[1],'n',r['n'],'ok',r['ok'],'viol',len(r['violations']),'harness',len(r['harness_errors']),'%.1fs'%r['wall'],r['groups'])
for l,m in r['violations'][:3]: print('   V',l,m[-700:])
for l,m in r['harness_errors'][:2]: print('   H',l,m[-900:])
PY
done
