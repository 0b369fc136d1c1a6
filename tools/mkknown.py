#!/usr/bin/env python3
# Writes the "fixed:" lines of KNOWN_FINDINGS.txt from the fix commits in /repo (subject -> property).
import subprocess
by={}
order="C04 C03 C03 C01 C01 C01 C01 C01 C02 C10 C14 C13 C13 C11 C15 C15 C15 C10 C08 C12 C10 C09 C05 C05 C05 C09 C07 C07 C09 C09 C12 C11 C26 C20 C25 C20 C16 C17 C26 C18 C21 C22 C22 C23 C27 C27 C19 C11 C11 C11 C11 C27 C02 C04 C02 C09 C07 C09".split()
log=[l.split(' ',1) for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines()]
log=[(h,s) for h,s in log if s.startswith('fix: ')]
extra={}  # subject -> property for later commits
try:
    for l in open('/verif/tools/fixes.txt'):
        p,s=l.rstrip('\n').split(' ',1); extra[s]=p
except FileNotFoundError: pass
out=['# Defects of urban-wombat/gotables found by these checks.',
'# "fixed:" lines record repairs (commits in /repo); they suppress nothing.',
'# "finding: property=<id> key=<text in the message> :: <what fails>" lines record defects that are not repaired.','']
for i,(h,s) in enumerate(log):
    p=extra.get(s[5:]) or (order[i] if i<len(order) else None)
    assert p,(i,s)
    out.append('fixed: property=%s %s %s'%(p,h,s[5:]))
try:
    out+=['']+[l.rstrip('\n') for l in open('/verif/tools/findings.txt')]
except FileNotFoundError: pass
open('/verif/KNOWN_FINDINGS.txt','w').write('\n'.join(out)+'\n')
