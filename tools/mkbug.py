#!/usr/bin/env python3
# tools/mkbug.py ID PROPERTY FILE < spec: spec is blocks "<<<<\nold\n====\nnew\n>>>>"; optional "@@ file" lines switch file.
# Writes seeded/ID/patch.diff against /repo HEAD using a scratch worktree copy.
import sys,subprocess,os,re
ID=sys.argv[1]; f=None
S='/tmp/lf-scratch'
if not os.path.isdir(S+'/.git'): subprocess.check_call(['cp','-a','/repo',S])
subprocess.check_call(['git','-C',S,'checkout','-q','--','.'])
spec=sys.stdin.read()
for m in re.finditer(r'^@@ (\S+)\n|^<<<<\n(.*?)\n====\n(.*?)\n?>>>>$',spec,re.S|re.M):
    if m.group(1): f=m.group(1); continue
    p=f'{S}/{f}'; s=open(p).read(); old=m.group(2); new=m.group(3)
    if s.count(old)!=1: sys.exit(f'{ID}: {s.count(old)} matches in {f} of:\n{old}')
    open(p,'w').write(s.replace(old,new))
os.makedirs(f'/verif/seeded/{ID}',exist_ok=True)
d=subprocess.check_output(['git','-C',S,'diff'],text=True)
open(f'/verif/seeded/{ID}/patch.diff','w').write(d)
subprocess.check_call(['git','-C',S,'checkout','-q','--','.'])
print(ID,len(d.splitlines()),'lines')
