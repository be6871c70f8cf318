#!/usr/bin/env python3
"""mkseeds.py SPEC.py [id...]: SPEC.py defines SEEDS, a list of dicts (id, property,
edits [(file, old, new)], pkg, demo, needs, breaks). Makes seeded/<id>/ after
confirming in a scratch copy: only original lines touched, builds, stable
tests pass, demo passes without and fails with the change."""
import sys,os,subprocess,json,shutil,difflib,runpy
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec=runpy.run_path(sys.argv[1]); only=set(sys.argv[2:])
env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local',GOWORK='off')
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
W='/tmp/seedwork'
shutil.rmtree(W,True); subprocess.check_call(['cp','-a','/repo',W])
def sh(c,cwd=W,t=280):
    p=subprocess.run(c,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,shell=isinstance(c,str))
    return p.returncode,p.stdout.decode('utf8','replace')
DEMO='''#!/bin/bash
# exit 0 if the property holds for this scenario, nonzero if not; cwd: the repository
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
echo "{\\"Replace\\": {\\"$PWD/%(dir)szz_demo_test.go\\": \\"$here/zz_demo_test.go\\", \\"$PWD/%(dir)szz_help_test.go\\": \\"$here/zz_help_test.go\\"}}" > "$d/overlay.json"
export SCRATCH=$d
go test -count=1 -vet=off%(flags)s -overlay "$d/overlay.json" -run 'TestZZDemo$' %(pkg)s
'''
for s in spec['SEEDS']:
    if only and s['id'] not in only: continue
    print('==',s['id'],end=' ',flush=True)
    sh('git checkout -q -- .')
    d=os.path.join(root,'seeded',s['id']); tmp='/tmp/seedout/'+s['id']; shutil.rmtree(tmp,True); os.makedirs(tmp)
    pkg=s.get('pkg','.'); 
    open(tmp+'/demo.sh','w').write(DEMO%{'dir':'' if pkg=='.' else pkg[2:]+'/','pkg':pkg,'flags':s.get('flags','')})
    open(tmp+'/zz_demo_test.go','w').write(s['demo']); open(tmp+'/zz_help_test.go','w').write(spec['HELP'].get(pkg) )
    rc,o=sh(['bash',tmp+'/demo.sh'])
    if rc: print('DEMO FAILS ON CLEAN',o[-1500:]); continue
    bad=False
    for f,old,new in s['edits']:
        t=open(f'{W}/{f}').read()
        if t.count(old)!=1: print('EDIT count',t.count(old),f,repr(old)); bad=True; break
        bl=subprocess.run(['git','blame','-s',f],cwd='/repo',stdout=subprocess.PIPE).stdout.decode().split('\n')
        nt=t.replace(old,new)
        a=t.split('\n'); b=nt.split('\n'); orig=0; mine=0
        for tag,i1,i2,j1,j2 in difflib.SequenceMatcher(None,a,b,autojunk=False).get_opcodes():
            if tag in('replace','delete'):
                for k in range(i1,i2):
                    if bl[k].startswith('^09c4897'): orig+=1
                    else: mine+=1
        if mine or not orig: print(f'LINES orig={orig} mine={mine}',end=' ')
        open(f'{W}/{f}','w').write(nt)
    if bad: continue
    rc,o=sh('gofmt -l .; go build ./...')
    if rc: print('BUILD',o[-800:]); continue
    rc,o=sh('mkdir -p test/out; go test -json -vet=off ./...')
    ok=set()
    for l in o.splitlines():
        try: j=json.loads(l)
        except Exception: continue
        if j.get('Action')=='pass' and 'Test' in j: ok.add(j['Package']+'/'+j['Test'])
    if stable-ok: print('TESTS FAIL',stable-ok); continue
    rc,o=sh(['bash',tmp+'/demo.sh'])
    if rc==0: print('DEMO PASSES WITH CHANGE'); continue
    if 'build failed' in o or 'setup failed' in o: print('DEMO BUILD',o[-800:]); continue
    rc,diff=sh('git diff')
    open(tmp+'/patch.diff','w').write(diff)
    json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(tmp+'/meta.json','w'),indent=1)
    shutil.rmtree(d,True); shutil.copytree(tmp,d); print('ok')
    fails=[l for l in o.splitlines() if '_test.go' in l or 'panic' in l or 'RACE' in l][:1]
    print('    ',fails)
shutil.rmtree(W,True)
