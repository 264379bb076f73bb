#!/usr/bin/env python3
"""detect.py [ids] [-all] [-tier T]: runs the check of each planted bug's property (all
checks with -all) on a scratch copy of /repo with the bug, prints who reports it."""
import json,os,shutil,subprocess,sys,time,glob
args=sys.argv[1:]; allp='-all' in args
tier='quick'
if '-tier' in args: k=args.index('-tier'); tier=args[k+1]; del args[k:k+2]
only=[a for a in args if not a.startswith('-')]
def sh(c,**k): return subprocess.run(c,shell=True,text=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
props=[c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
W='/tmp/detectwork'
out=json.load(open('/verif/tools/plant/detected.json')) if os.path.exists('/verif/tools/plant/detected.json') else {}
for d in sorted(glob.glob('/verif/seeded/*/')):
    i=os.path.basename(d[:-1])
    if only and not any(i.startswith(o) for o in only): continue
    shutil.rmtree(W,ignore_errors=True); sh(f'cp -a /repo {W}')
    r=sh(f'git -C {W} apply {d}/patch.diff')
    if r.returncode: print(i,'does not apply'); continue
    p=json.load(open(d+'meta.json'))['property']
    res={}
    for q in (props if allp else [p]):
        t=time.time()
        r=sh(f'cd /verif && VRUN_REPO={W} ./run.sh {q} {tier}')
        v=[l for l in r.stdout.split('\n') if l.startswith('VIOLATION property='+q+' ')]
        k=[l for l in r.stdout.split('\n') if l.startswith('[')]
        res[q]=(r.returncode,bool(v),round(time.time()-t),(k[:1] or [''])[0][:140])
    own=res[p]
    hit=[q for q in res if res[q][0]==1 and res[q][1]]
    print(i,p,'CAUGHT' if own[0]==1 and own[1] else 'MISSED',own,' '.join(hit) if allp else '',flush=True)
    out.setdefault(i,{})['property']=p
    if allp: out[i]['caught_by']=hit
    out[i]['own']=own[0]==1 and own[1]
    json.dump(out,open('/verif/tools/plant/detected.json','w'),indent=1,sort_keys=True)
shutil.rmtree(W,ignore_errors=True)
