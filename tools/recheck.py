#!/usr/bin/env python3
"""Run the property's quick check against every seeded change (or those named), on copies. recheck.py [ID...] [-j N]"""
import sys,os,json,shutil,subprocess,concurrent.futures as cf
args=sys.argv[1:]; jobs=2
if '-j' in args: i=args.index('-j'); jobs=int(args[i+1]); del args[i:i+2]
here='/verif/seeded'; ids=args or sorted(os.listdir(here))
env=dict(os.environ)
def one(i):
    meta=json.load(open(here+'/'+i+'/meta.json')); w='/tmp/recheck/'+i
    shutil.rmtree(w,ignore_errors=True); os.makedirs(w)
    try:
        subprocess.run(['cp','-a','/repo',w+'/repo'],check=True)
        if subprocess.run(['git','apply',here+'/'+i+'/patch.diff'],cwd=w+'/repo').returncode: return i,'DOES NOT APPLY',''
        os.makedirs(w+'/v')
        for f in ('run.sh','KNOWN_FINDINGS.txt'): shutil.copy('/verif/'+f,w+'/v')
        shutil.copytree('/verif/harness',w+'/v/harness')
        for r,_,fs in os.walk(w+'/v/harness'):
            for f in fs:
                p=os.path.join(r,f); s=open(p).read()
                if '/repo' in s: open(p,'w').write(s.replace('/repo',w+'/repo'))
        r=subprocess.run([w+'/v/run.sh',meta['property']],capture_output=True,text=True,env=env)
        ok=r.returncode==1 and 'VIOLATION' in r.stdout
        return i,'caught' if ok else 'MISSED rc=%d'%r.returncode,(r.stdout+r.stderr)[:160].replace('\n',' | ')
    finally: shutil.rmtree(w,ignore_errors=True)
with cf.ThreadPoolExecutor(jobs) as ex:
    for i,res,o in ex.map(one,ids): print(res,i,o,flush=True)
