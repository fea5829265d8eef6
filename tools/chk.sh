#!/bin/bash
# development helper: run a check, show only errors, verdicts and the family counts
cd /verif; s=$(date +%s); bash check.sh $1 ${2:-quick} > /tmp/chk.$1 2>&1; rc=$?
python3 - $1 <<'P'
import sys,re
t=open('/tmp/chk.'+sys.argv[1]).read()
blocks=re.split(r'\n(?=error|warning)',t)
n=0
for b in blocks:
    if b.startswith('error'): print(b[:900]); n+=1
    if n>6: break
i=[l for l in t.splitlines() if l.startswith(('VIOL','KNOWN','  family','  case','panic','the mach'))]
print('\n'.join(l[:400] for l in i[:12]))
for l in t.splitlines():
    if l.startswith('  ') and not l.startswith(('  family','  case','   ')) : print(l[:700])
P
echo "rc $rc $(($(date +%s)-s))s"; [ -f evidence/$1.json ] && python3 tools/fams.py $1
