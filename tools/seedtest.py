#!/usr/bin/env python3
"""seedtest.py [-c] [-n] id...: in scratch copies of /repo, confirm that each /verif/seeded/<id> patch applies, builds,
passes the stable tests, that its demo passes without and fails with it; -c only run the property's quick check,
-n skip the check."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys
V='/verif'
def run(c, **k):
    try: return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=900, **k)
    except subprocess.TimeoutExpired: 
        class R: returncode=124; stdout='timeout'
        return R
args=sys.argv[1:]; only='-c' in args; nocheck='-n' in args
ids=[a for a in args if not a.startswith('-')] or sorted(os.listdir(V+'/seeded'))
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def demo(d, repo, tmp):
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    for f in os.listdir(d):
        if not f.endswith(('.diff','.patch')) and f!='meta.json': (shutil.copytree if os.path.isdir(os.path.join(d,f)) else shutil.copy)(os.path.join(d,f), os.path.join(tmp,f))
    # the demos compile against $PWD
    r=run(['timeout','300','bash',tmp+'/demo.sh'],cwd=repo); shutil.rmtree(tmp); return r
def one(i):
    d=f'{V}/seeded/{i}'; m=json.load(open(d+'/meta.json')); w=f'/tmp/seed_{i}'; out=[]
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['cp','-a','/repo',w]); 
    try:
        run(['git','-C',w,'checkout','-f','.'])
        if not only:
            r=demo(d,w,w+'.demo'); out.append('demo-clean=%d'%r.returncode)
            if r.returncode: out.append(r.stdout[-600:])
        r=run(['git','-C',w,'apply',d+'/patch.diff'])
        if r.returncode: return i,'patch does not apply '+r.stdout
        if not only:
            shutil.rmtree(w+'/_build',ignore_errors=True)
            r=run(f'cmake -S /opt/vp/driver -B {w}/_build -G Ninja -DCMAKE_BUILD_TYPE=Release -DCMAKE_CXX_FLAGS=-Wno-error -DREPO={w} && ninja -C {w}/_build',shell=True,env=dict(os.environ,CC='gcc',CXX='g++'))
            if r.returncode: return i,'build fails '+r.stdout[-1500:]
            s=open('/opt/vp/test.sh').read().replace('/repo/_build',w+'/_build').replace('if ! bash /opt/vp/build.sh','if ! true')
            r=run(['bash','-c',s,'x',w+'/out.json'])
            try: ps=set(json.load(open(w+'/out.json'))['passed'])
            except Exception: return i,'tests: '+r.stdout[-500:]
            miss=[x for x in stable if x not in ps]; out.append('tests-missing=%d %s'%(len(miss),miss[:3]))
            r=demo(d,w,w+'.demo'); out.append('demo-bug=%d'%r.returncode)
        if not nocheck:
            r=run(['python3',V+'/check.py',m['property'],'--tier','quick'],cwd=V,env=dict(os.environ,KPSR_DEV_REPO=w))
            res=json.load(open(V+'/tools/seed_results.json')) if os.path.exists(V+'/tools/seed_results.json') else {}
            hit=r.returncode==1 and f"VIOLATION property={m['property']}" in r.stdout
            import re
            hs=sorted(set(re.findall(r' in (\w+):',r.stdout)) ) if hit else []
            res[i]=', '.join(hs) if hit else 'MISSED'
            json.dump(res,open(V+'/tools/seed_results.json','w'),indent=1,sort_keys=True)
            out.append('CAUGHT' if hit else 'MISSED rc=%d'%r.returncode)
            out.append('\n     '+'\n     '.join(l[:200] for l in r.stdout.splitlines() if not l.startswith('VIOLATION'))[:600 if hit else 900])
    finally: shutil.rmtree(w, ignore_errors=True)
    return i,' '.join(out)
with cf.ThreadPoolExecutor(3) as ex:
    for i,t in ex.map(one,ids): print(i,t,flush=True)
