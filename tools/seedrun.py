#!/usr/bin/env python3
"""seedrun.py [id...]: runs each planted bug's property check (quick) against a scratch
copy of /repo with the bug applied. Options by env: JOBS (default 3), PROPS=all runs every property."""
import sys,os,subprocess,json,shutil,re
from concurrent.futures import ThreadPoolExecutor
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=sys.argv[1:] or sorted(os.listdir(root+'/seeded'))
env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local',GOWORK='off')
def run(i):
    w='/tmp/sr/'+i; shutil.rmtree(w,True); os.makedirs('/tmp/sr',exist_ok=True)
    subprocess.check_call(['cp','-a','/repo',w])
    subprocess.check_call(['git','-C',w,'apply',f'{root}/seeded/{i}/patch.diff'])
    prop=json.load(open(f'{root}/seeded/{i}/meta.json'))['property']
    v=w+'/.v'; os.makedirs(v); h=v+'/harness'; shutil.copytree(root+'/harness',h)
    t=open(h+'/go.mod').read(); open(h+'/go.mod','w').write(re.sub(r'=> /repo\b','=> '+w,t))
    subprocess.check_call(['go','build']+(['-race'] if prop=='C19' else [])+['-o',v+'/h','.'],cwd=h,env=env)
    for f in ('properties.jsonl','known_findings.txt'):
        if os.path.exists(f'{root}/{f}'): shutil.copy(f'{root}/{f}',v)
    e=dict(env,VERIF_DIR=v,REPO_DIR=w,VERIF_SEED=os.environ.get('VERIF_SEED','1'))
    res=[]
    for p in ([prop] if os.environ.get('PROPS')!='all' else ['C%02d'%k for k in range(1,29)]):
        r=subprocess.run([v+'/h','check','-prop',p,'-tier','quick'],env=e,cwd=v,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=1500)
        o=r.stdout.decode('utf8','replace')
        res.append((p,r.returncode,o))
    shutil.rmtree(w,True)
    return i,res
with ThreadPoolExecutor(int(os.environ.get('JOBS','3'))) as ex:
    for i,res in ex.map(run,ids):
        for p,rc,o in res:
            print(i,p,{0:'MISSED',1:'caught'}.get(rc,'ERROR %d'%rc),(o.strip().splitlines() or [''])[-1][:160] if rc else '',flush=True)
            if rc not in(0,1): print(o[-800:])
