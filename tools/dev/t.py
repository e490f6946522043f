import sys,subprocess,json,tempfile,os,concurrent.futures as cf
sys.path.insert(0,'/verif')
from specs import registry
names=sys.argv[1:]
sel=[]
for n in names:
    if n.startswith('C') and n[1:].isdigit(): sel+=[type(s).__name__ for s in registry.for_property(n)]
    else: sel.append(n)
def job(n,c):
    out=tempfile.mktemp()
    p=subprocess.run(['python3-vt','/verif/pyvc/job.py',n,str(c),out],capture_output=True,text=True)
    try: return json.load(open(out))
    except Exception as e: return {'error':p.stderr[-2000:],'obligations':[],'caseno':c,'spec':n}
with cf.ThreadPoolExecutor(8) as ex:
    fs=[(n,c,ex.submit(job,n,c)) for n in sel for c in range(len(registry.get(n).cases)) if not registry.get(n).bounded_only]
    tot=ok=0
    for n,c,f in fs:
        r=f.result(); obs=r['obligations']; bad=[o for o in obs if o['status']!='proved']
        tot+=len(obs); ok+=len(obs)-len(bad)
        print(n,c,f"{len(obs)-len(bad)}/{len(obs)}",'paths',r.get('paths'),'wall',r.get('wall_s'),r.get('error') or '')
        for o in bad: print('    ',o['kind'],o['name'],o['status'])
        for m in r.get('models',[])[:1]: print('    model',json.dumps(m)[:600])
print(ok,'/',tot)
