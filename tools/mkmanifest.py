#!/usr/bin/env python3
# Writes /verif/MANIFEST.json for every property the harness implements.
import json,subprocess,re
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
src=''
import glob
for f in sorted(glob.glob('/verif/harness/props_*.go')): src+=open(f).read()
have=set(re.findall(r'register\(&Prop\{ID: "(C\d+)"',src))
tech={
 'C24':'runtime monitoring: race detector (ThreadSanitizer) under a many-goroutine stress workload, plus an online comparison of every goroutine\'s results with a sequential run',
 'C25':'runtime monitoring: race detector (ThreadSanitizer) under concurrent readers of shared tables, plus comparison of every result with a single reader\'s',
 'C22':'runtime monitoring: generated programs are compiled and run, and a monitor inside each checks the fields and the round trip',
 'C31':'runtime monitoring of the process: open files, goroutines, settings, output, and garbage collection of every table (weak references) and heap growth, under the workloads of the other properties',
 'C32':'runtime monitoring of processor time (of the thread) and allocated memory: each operation on one large input against the same work in sixteen parts',
 'C28':'runtime monitoring under injected faults (full device, file size limit, missing folder, short content), judged by an oracle over the file bytes',
}
default='runtime monitoring: the real code runs under generated workloads; an online oracle (reference model) judges every observed result'
notes={
 'C24':'Every interleaving the scheduler produced under stress was judged; not all interleavings.',
 'C25':'Every interleaving the scheduler produced under stress was judged; not all interleavings.',
 'C28':'Every listed kind of fault is injected at generated points; faults the kernel cannot be made to give here (medium errors) are not.',
}
checks=[]
na=[]
for p in props:
    i=p['id']
    if i not in have:
        na.append({'property':i,'reason':'its check is not built yet'})
        continue
    checks.append({'property':i,'quick_cmd':'./run.sh %s'%i,'thorough_cmd':'./run.sh %s --thorough'%i,
      'evidence_file':'evidence/%s.json'%i,'technique':tech.get(i,default),
      'level':'fault_enumeration' if i=='C28' else 'exploration',
      'level_note':notes.get(i,'Holds on every execution observed; the inputs and histories are sampled by seeded generators, not enumerated.')})
m={'version':1,'setup_cmd':'./setup.sh','checks':checks,'not_applicable':na,
 'notes':'One Go harness (harness/) is built against /repo\'s working tree by run.sh for each check. KNOWN_FINDINGS.txt lists the defects found and repaired. No hooks in /repo.'}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
open('/verif/MANIFEST.json','a').write('\n')
try:
    import jsonschema
    jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError: print('(not validated)')
print(len(checks),'checks;',len(na),'not applicable')
