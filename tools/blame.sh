#!/bin/bash
# For each seeded patch: which removed/changed lines of /repo are not lines of the original commit.
base=1cffacc
for d in /verif/seeded/*/; do
 python3 - "$d" <<'P'
import sys,re,subprocess
d=sys.argv[1]; cur=None; bad=[];n=0
lines=open(d+'patch.diff').read().split('\n'); bl={}
for l in lines:
    m=re.match(r'--- a/(.*)',l)
    if m:
        cur=m.group(1); bl[cur]=subprocess.run(['git','-C','/repo','blame','-s','--abbrev=8',cur],capture_output=True,text=True).stdout.split('\n'); continue
    if l.startswith('+++'): continue
    m=re.match(r'@@ -(\d+)',l)
    if m: ln=int(m.group(1)); continue
    if cur is None: continue
    if l.startswith('-'):
        n+=1
        if not bl[cur][ln-1].startswith('^'): bad.append((cur,ln,bl[cur][ln-1][:9]))
        ln+=1
    elif l.startswith(' '): ln+=1
print(d.split('/')[-2], 'removed',n,'bad',bad)
P
done
