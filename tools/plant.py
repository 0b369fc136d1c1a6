#!/usr/bin/env python3
# Plant a bug: plant.py SPEC.py. The spec sets ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)...], MAIN (Go main
# program: exits non-zero when it sees the bug), and optionally RACE=True, TIMEOUT. Validates in a scratch copy of
# /repo, writes /verif/seeded/<ID>/, then runs the property's check with the bug applied to /repo.
import sys,os,subprocess,shutil,json,tempfile
spec={}
exec(open(sys.argv[1]).read(),spec)
ID,PROP=spec['ID'],spec['PROP']
env=dict(os.environ,HOME='/root',PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',TZ='Australia/Sydney')
W='/tmp/plantwork'
shutil.rmtree(W,ignore_errors=True)
subprocess.run(['cp','-a','/repo',W],check=True)
for f,old,new in spec['EDITS']:
    p=os.path.join(W,f); s=open(p).read()
    n=spec.get('COUNT',1)
    if s.count(old)!=n and not spec.get('ANY'):
        print('EDIT: %d matches in %s of %r'%(s.count(old),f,old)); sys.exit(2)
    s=s.replace(old,new); open(p,'w').write(s)
# every removed line should be one of the original repository's
import re
base=subprocess.run(['git','-C','/repo','log','--format=%H','--reverse'],capture_output=True,text=True).stdout.split()
subj=subprocess.run(['git','-C','/repo','log','--format=%H %s'],capture_output=True,text=True).stdout.splitlines()
mine=[l.split()[0] for l in subj if l.split(' ',1)[1].startswith('fix:')]
for f in set(e[0] for e in spec['EDITS']):
    bl=subprocess.run(['git','-C','/repo','blame','-s','--abbrev=40',f],capture_output=True,text=True).stdout.splitlines()
    dd=subprocess.run(['git','-C',W,'diff','-U0','--',f],capture_output=True,text=True).stdout
    for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ',dd,re.M):
        a=int(m[1]); c=int(m[2]) if m[2] else 1
        for i in range(a,a+c):
            if bl[i-1].lstrip('^').split()[0][:39] in [x[:39] for x in mine]: print('NOT ORIGINAL:',bl[i-1][41:])
        if c==0: print('(insertion only at %s:%d)'%(f,a))
d='/verif/seeded/'+ID
os.makedirs(d,exist_ok=True)
patch=subprocess.run(['git','-C',W,'diff'],capture_output=True,text=True).stdout
open(d+'/patch.diff','w').write(patch)
open(d+'/main.go','w').write(spec['MAIN'].strip()+'\n')
race=' -race' if spec.get('RACE') else ''
open(d+'/demo.sh','w').write('''#!/bin/bash
# Run with cwd /repo. Exit 0: the property holds in the demonstration. Non-zero: it does not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=${HOME:-/root} TZ=Australia/Sydney
[ -x /opt/veriftools/go1.27.3/bin/go ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$tmp"' EXIT
cp "$here/main.go" "$tmp/" || exit 3
sed 's#^module .*#module demo#' "$repo/go.mod" > "$tmp/go.mod"
cp "$repo/go.sum" "$tmp/go.sum"
cd "$tmp" || exit 3
go mod edit -go=1.21 -require=github.com/urban-wombat/gotables@v0.0.0 -replace=github.com/urban-wombat/gotables="$repo" || exit 3
go build%s -o demo . || exit 3
timeout %d ./demo
'''%(race,spec.get('TIMEOUT',60)))
os.chmod(d+'/demo.sh',0o755)
json.dump({"property":PROP,"needs":spec['NEEDS'],"what_it_breaks":spec['BREAKS']},open(d+'/meta.json','w'),indent=1)
def sh(cmd,cwd):
    r=subprocess.run(cmd,cwd=cwd,env=env,capture_output=True,text=True,shell=isinstance(cmd,str))
    return r.returncode,r.stdout+r.stderr
rc,o=sh('go build . && go vet ./... >/dev/null 2>&1; go build .',W)
if rc: print('BUILD FAILS',o[:2000]); shutil.rmtree(d); sys.exit(2)
rc,o=sh('go test -json -vet=off -count=1 -timeout 10m .',W)
passed=set()
for l in o.splitlines():
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Action')=='pass' and e.get('Test'): passed.add(e['Package']+'/'+e['Test'])
stable=json.load(open('/opt/vp/BASELINE.json'))['stable']
miss=[t for t in stable if t not in passed]
if miss: print('TESTS FAIL',miss[:5],len(miss)); 
rc0,o0=sh(d+'/demo.sh','/repo')
rc1,o1=sh(d+'/demo.sh',W)
print('demo clean rc=%d, with the bug rc=%d'%(rc0,rc1)); 
if rc0: print('CLEAN DEMO FAILS:',o0[-1500:])
if rc1==0 or rc1==3: print('DEMO DOES NOT SEE IT:',o1[-1500:])
else: print('demo says:',o1[-400:].strip())
if miss or rc0 or rc1 in(0,3): shutil.rmtree(d); shutil.rmtree(W,ignore_errors=True); print('NOT KEPT'); sys.exit(1)
checks=[PROP]+spec.get('ALSO',[])
# The check runs from a copy of /verif whose harness builds against the changed copy.
V='/tmp/plantverif'
shutil.rmtree(V,ignore_errors=True)
os.makedirs(V)
for f in ('run.sh','KNOWN_FINDINGS.txt'): shutil.copy('/verif/'+f,V)
shutil.copytree('/verif/harness',V+'/harness')
for root,_,files in os.walk(V+'/harness'):
    for f in files:
        p=os.path.join(root,f); s=open(p).read()
        if '/repo' in s: open(p,'w').write(s.replace('/repo',W))
try:
    for ck in checks:
        r=subprocess.run([V+'/run.sh',ck],capture_output=True,text=True)
        v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        print(('CAUGHT' if r.returncode==1 and v else 'MISSED (rc %d)'%r.returncode),ck,ID,(r.stdout[:300]+r.stderr[:300]).replace('\n',' | '))
finally:
    shutil.rmtree(W,ignore_errors=True); shutil.rmtree(V,ignore_errors=True)
