#!/usr/bin/env python3
"""probe.py FILE.py [name...]: FILE.py defines PROBES, a list of (name, property, [(file, old, new)...]);
applies each to a scratch copy of /repo, drops those that do not build or that the existing tests
notice, and runs the property's quick check. JOBS (default 3)."""
import sys,os,subprocess,json,shutil,re,runpy
from concurrent.futures import ThreadPoolExecutor
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local',GOWORK='off')
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
P=runpy.run_path(sys.argv[1])['PROBES']; only=sys.argv[2:]
def run(p):
    name,props,edits=p
    w='/tmp/pr/'+name; shutil.rmtree(w,True); os.makedirs('/tmp/pr',exist_ok=True)
    subprocess.check_call(['cp','-a','/repo',w])
    try:
        mine=0
        for f,old,new in edits:
            t=open(f'{w}/{f}').read()
            if t.count(old)!=1: return name,props,'EDIT %d %s'%(t.count(old),f)
            open(f'{w}/{f}','w').write(t.replace(old,new))
        bl=subprocess.run(['git','diff','-U0'],cwd=w,stdout=subprocess.PIPE).stdout.decode()
        def sh(c,t=300):
            r=subprocess.run(c,cwd=w,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t); return r.returncode,r.stdout.decode('utf8','replace')
        rc,o=sh(['go','build','./...'])
        if rc: return name,props,'NOBUILD '+o[:300]
        os.makedirs(w+'/test/out',exist_ok=True)
        rc,o=sh(['go','test','-json','-vet=off','./...'])
        ok=set()
        for l in o.splitlines():
            try: j=json.loads(l)
            except Exception: continue
            if j.get('Action')=='pass' and 'Test' in j: ok.add(j['Package']+'/'+j['Test'])
        if stable-ok: return name,props,'tests notice it'
        v=w+'/.v'; os.makedirs(v); h=v+'/harness'; shutil.copytree(root+'/harness',h)
        t=open(h+'/go.mod').read(); open(h+'/go.mod','w').write(re.sub(r'=> /repo\b','=> '+w,t))
        shutil.copy(root+'/properties.jsonl',v)
        res=[]
        for prop in props.split():
            subprocess.check_call(['go','build']+(['-race'] if prop=='C19' else [])+['-o',v+'/h','.'],cwd=h,env=env)
            e=dict(env,VERIF_DIR=v,REPO_DIR=w,VERIF_SEED=os.environ.get('VERIF_SEED','1'))
            r=subprocess.run([v+'/h','check','-prop',prop,'-tier','quick'],env=e,cwd=v,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=1500)
            o=r.stdout.decode('utf8','replace')
            res.append(prop+' '+{0:'MISSED',1:'caught'}.get(r.returncode,'ERROR %d %s'%(r.returncode,o[-300:])))
        return name,props,'; '.join(res)
    finally: shutil.rmtree(w,True)
with ThreadPoolExecutor(int(os.environ.get('JOBS','3'))) as ex:
    for n,p,r in ex.map(run,[p for p in P if not only or p[0] in only]): print(n,r,flush=True)
