#!/usr/bin/env python3
"""mutrun.py MUTDIR OUT.jsonl SCALE WORKERS CAP [SEED] [only-file]: builds each sampled
mutant in a scratch copy of /repo, drops those the existing tests kill, and
runs the checks (one shard, SCALE of the quick cases) until one reports."""
import sys,os,random,subprocess,json,threading,queue,shutil
mut,out,scale,workers,cap=sys.argv[1],sys.argv[2],sys.argv[3],int(sys.argv[4]),int(sys.argv[5])
seed=int(sys.argv[6]) if len(sys.argv)>6 else 1
only=sys.argv[7] if len(sys.argv)>7 else None
stable=json.load(open('/opt/vp/BASELINE.json'))['stable']
order="C23 C05 C11 C14 C01 C09 C07 C20 C12 C02 C03 C06 C13 C25 C22 C18 C17 C16 C15 C10 C08 C27 C21 C04 C26 C24 C19 C28".split()
env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local',GOWORK='off')
cov=None
if os.environ.get('MUT_COV'): # coverage profile: only mutate lines the checks run
    import re
    cov=set()
    for l in open(os.environ['MUT_COV']):
        m=re.match(r'github.com/signintech/pdft/(\S+?):(\d+)\.\d+,(\d+)\.\d+ \d+ (\d+)',l)
        if m and int(m[4]):
            for k in range(int(m[2]),int(m[3])+1): cov.add((m[1],k))
byf={}
_bl={}
def original(f,n): # lines of the repository as given, not of its fixes
    if f not in _bl: _bl[f]=subprocess.run(['git','-C','/repo','blame','-s',f],stdout=subprocess.PIPE).stdout.decode().split('\n')
    return n>len(_bl[f]) or _bl[f][n-1].startswith('^')
for d in sorted(os.listdir(mut)):
    f=open(f'{mut}/{d}/file').read()
    if only and f!=only: continue
    if cov is not None and (f,int(open(f'{mut}/{d}/desc').read().split(':')[1])) not in cov: continue
    if not original(f,int(open(f'{mut}/{d}/desc').read().split(':')[1])): continue
    byf.setdefault(f,[]).append(d)
rnd=random.Random(seed)
todo=[]
for f,l in byf.items():
    if f.endswith('fontmaker.go'): continue
    todo+= l if len(l)<=cap else rnd.sample(l,cap)
done=set()
if os.path.exists(out):
    for l in open(out): done.add(json.loads(l)['id'])
todo=[t for t in todo if t not in done]
rnd.shuffle(todo)
print(len(todo),'mutants')
q=queue.Queue()
for t in todo: q.put(t)
lock=threading.Lock()
def run(c,cwd,t,e=env):
    try:
        p=subprocess.run(c,cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t)
        return p.returncode,p.stdout.decode('utf8','replace')
    except subprocess.TimeoutExpired: return 99,'timeout'
def work(k):
    base=f'/tmp/mw/{k}'; shutil.rmtree(base,True); os.makedirs(base)
    repo=base+'/repo'; subprocess.run(['cp','-a','/repo',repo]); subprocess.run(['cp','-a','/verif/harness',base+'/harness'])
    gm=base+'/harness/go.mod'; s=open(gm).read().replace('=> /repo','=> '+repo); open(gm,'w').write(s)
    os.makedirs(base+'/verif'); os.makedirs(base+'/tmp')
    e=dict(env,VERIF_DIR=base+'/verif',REPO_DIR=repo,TMPDIR=base+'/tmp',VERIF_SEED='1',GOMAXPROCS='2')
    while True:
        try: t=q.get_nowait()
        except queue.Empty: return
        f=open(f'{mut}/{t}/file').read(); desc=open(f'{mut}/{t}/desc').read()
        orig=open(f'{repo}/{f}').read()
        res={'id':t,'desc':desc}
        try:
            open(f'{repo}/{f}','w').write(open(f'{mut}/{t}/src').read())
            rc,o=run(['go','build','./...'],repo,120)
            if rc: res['r']='nobuild'; continue
            rc,o=run(['go','test','-json','-vet=off','./...'],repo,100)
            ok=set()
            for l in o.splitlines():
                try: j=json.loads(l)
                except Exception: continue
                if j.get('Action')=='pass' and 'Test' in j: ok.add(j['Package']+'/'+j['Test'])
            # a test that panics hides later ones: only count explicit misses when package ran
            if any(s not in ok for s in stable): res['r']='tests'; continue
            rc,o=run(['go','build','-o',base+'/h','.'],base+'/harness',200)
            if rc: res['r']='nobuild-h'; continue
            res['r']='SURVIVED'; res['broken']=[]
            for p in order:
                rc,o=run([base+'/h','check','-prop',p,'-shards','1','-scale',scale,'-shrink','1ms'],base,400,e)
                if rc==1:
                    res['r']='killed'; res['by']=p; res['msg']=o[:300]; break
                if rc!=0: res['broken'].append(p); res['msg']=o[:1500]
        finally:
            open(f'{repo}/{f}','w').write(orig)
            shutil.rmtree(base+'/tmp',True); os.makedirs(base+'/tmp')
            with lock:
                open(out,'a').write(json.dumps(res)+'\n')
ts=[threading.Thread(target=work,args=(i,)) for i in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
for i in range(workers): shutil.rmtree(f'/tmp/mw/{i}',True)
