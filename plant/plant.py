#!/usr/bin/env python3
"""plant.py SPEC.py...: make /verif/seeded/<id>/ from a specification and confirm it.

SPEC defines: id, prop, needs, breaks, edits=[(file, old, new)], pkg, demo (Go test source, func TestZZDemo).
"""
import sys, os, json, subprocess, shutil, tempfile
ENV=dict(os.environ,GOTOOLCHAIN='local',GOFLAGS='-mod=mod',GOPROXY='off',GOWORK='off',GOMODCACHE='/root/go/pkg/mod')
DEMO='''#!/bin/bash
# cwd: the repository. Exit 0 when the behaviour is right.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -r "$t"' EXIT
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
{
  echo '{"Replace":{'
  for f in "$PWD"/%(pkg)s/*_test.go; do [ -e "$f" ] && echo "\\"$f\\":\\"\\","; done
  echo "\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$d/demo_test.go\\"}}"
} > "$t/overlay.json"
exec timeout 250 go test %(flags)s-count=1 -vet=off -overlay "$t/overlay.json" -run '^TestZZDemo$' ./%(pkg)s
'''
def run(cmd,cwd,**k): return subprocess.run(cmd,cwd=cwd,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',**k)
base=json.load(open('/opt/vp/BASELINE.json'))
for spec in sys.argv[1:]:
    g={'flags':''}; exec(open(spec).read(),g)
    out='/verif/seeded/'+g['id']
    os.makedirs(out,exist_ok=True)
    open(out+'/demo.sh','w').write(DEMO%{'pkg':g['pkg'],'flags':g['flags']+' ' if g['flags'] else ''}); os.chmod(out+'/demo.sh',0o755)
    open(out+'/demo_test.go','w').write(g['demo'].lstrip())
    json.dump({'property':g['prop'],'needs':g['needs'],'what_it_breaks':g['breaks']},open(out+'/meta.json','w'),indent=1)
    w=tempfile.mkdtemp(prefix='plant',dir='/tmp')
    ok=True
    try:
        subprocess.run(['cp','-a','/repo/.',w]); run(['git','checkout','-q','--','.'],w)
        a=run(['bash',out+'/demo.sh'],w)
        if a.returncode: ok=False; print(g['id'],'demo fails on the unchanged tree\n',a.stdout[-1500:])
        for f,o,n in g['edits']:
            s=open(w+'/'+f).read()
            if s.count(o)!=1: ok=False; print(g['id'],'edit matches',s.count(o),f,repr(o))
            open(w+'/'+f,'w').write(s.replace(o,n,1))
        d=run(['git','diff'],w).stdout
        open(out+'/patch.diff','w').write(d)
        b=run(['go','build','./...'],w)
        if b.returncode: ok=False; print(g['id'],'does not build',b.stdout)
        b=run(['bash',out+'/demo.sh'],w)
        if b.returncode==0: ok=False; print(g['id'],'demo passes with the change')
        elif 'FAIL' not in b.stdout or 'build failed' in b.stdout: ok=False; print(g['id'],b.stdout[-1500:])
        t=run(['go','test','-json','./...'],w).stdout
        passed=set()
        for l in t.splitlines():
            try: e=json.loads(l)
            except Exception: continue
            if e.get('Action')=='pass' and e.get('Test'): passed.add(e['Package']+'/'+e['Test'])
        want=base['stable']
        miss=[x for x in want if x not in passed]
        if miss: ok=False; print(g['id'],'tests fail:',miss)
    finally:
        shutil.rmtree(w)
    print(g['id'],'OK' if ok else 'REJECTED')
