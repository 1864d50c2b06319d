#!/usr/bin/env python3
"""mkseed.py SPEC.py: make planted bugs from a list of dicts
{id, prop, pkg, needs, breaks, edits: [(file, old, new)], demo: go test body}.
Each is confirmed in a scratch copy: it builds, the stable tests pass, the demo
fails with it and passes without."""
import json, os, subprocess, sys, shutil, tempfile
SEED='/verif/seeded'
DEMO='''#!/bin/bash
# exit 0 if the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(path)szz_seed_demo_test.go\\":\\"$d/demo.go.txt\\"}}" > "$t/o.json"
go test -vet=off -overlay "$t/o.json" -run 'TestSeedDemo$' -count=1 -timeout 120s ./%(pkg)s
'''
def sh(c, **k): return subprocess.run(['bash','-c',c],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
spec={}
exec(open(sys.argv[1]).read(), spec)
only=sys.argv[2:]
base=json.load(open('/opt/vp/BASELINE.json'))['stable'] if 'stable' in json.load(open('/opt/vp/BASELINE.json')) else None
for s in spec['seeds']:
    if only and s['id'] not in only: continue
    t=tempfile.mkdtemp(prefix='seed')
    r=t+'/repo'
    sh(f'cp -a /repo {r} && git -C {r} checkout -q -- .')
    ok=True
    for f,old,new in s['edits']:
        x=open(f'{r}/{f}').read()
        if x.count(old)!=1: print(s['id'],'edit of',f,'matches',x.count(old)); ok=False; break
        open(f'{r}/{f}','w').write(x.replace(old,new))
    if not ok: shutil.rmtree(t); continue
    d=t+'/out'; os.mkdir(d)
    open(d+'/patch.diff','w').write(sh(f'git -C {r} diff').stdout)
    pkg=s.get('pkg','.')
    path='' if pkg=='.' else pkg+'/'
    open(d+'/demo.sh','w').write(DEMO%dict(path=path,pkg=path))
    os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.go.txt','w').write(s['demo'])
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    env='[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh; '
    b=sh(env+f'cd {r} && go build ./... && go test -vet=off -count=1 -json $(go list ./... | grep -v internal/generator)')
    passed=set()
    for l in b.stdout.splitlines():
        try: e=json.loads(l)
        except Exception: continue
        if e.get('Action')=='pass' and e.get('Test'): passed.add((e['Package'],e['Test']))
    failed=[l for l in b.stdout.splitlines() if '"Action":"fail"' in l]
    w=sh(f'cd {r} && bash {d}/demo.sh'); 
    sh(f'git -C {r} checkout -q -- .')
    wo=sh(f'cd {r} && bash {d}/demo.sh')
    good = not failed and b.returncode==0 and w.returncode!=0 and wo.returncode==0
    print(s['id'],'OK' if good else 'BAD','tests',b.returncode,len(passed),'demo with',w.returncode,'without',wo.returncode)
    if not good:
        print(b.stdout[-600:] if b.returncode else '', w.stdout[-300:], wo.stdout[-600:] if wo.returncode else '')
    else:
        dst=f"{SEED}/{s['id']}"
        shutil.rmtree(dst,ignore_errors=True); shutil.copytree(d,dst)
    shutil.rmtree(t)
