#!/usr/bin/env python3
"""plant.py BUGFILE...: makes /verif/seeded/<id>/ from bug descriptions and keeps
only those that apply, build, pass the stable tests and whose demo tells them apart.

A bug file is python that calls bug(id, prop, needs, breaks, edits, demo), where
edits is a list of (file, old, new) and demo the body of main() in Go."""
import json,os,shutil,subprocess,sys,tempfile
SEED='/verif/seeded'
DEMO='''#!/bin/bash
# exit 0: the behaviour is right; run in the root of the repository
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export REPO="$repo"
. /opt/vp/env.sh
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
cp "$here/main.go" "$d/main.go"
printf 'module demo\\n\\ngo 1.16\\n\\nrequire github.com/aiq/tok v0.0.0\\n\\nreplace github.com/aiq/tok => %s\\n' "$repo" > "$d/go.mod"
cd "$d" && go build@RACE@ -o demo . && timeout 60 ./demo
'''
bugs=[]
def bug(id,prop,needs,breaks,edits,demo,imports=(),race=False,pre=''):
    bugs.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo,imports=imports,race=race,pre=pre))
def sh(c,cwd=None,timeout=600):
    return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,timeout=timeout)
for f in sys.argv[1:]:
    exec(compile(open(f).read(),f,'exec'))
base=json.load(open('/opt/vp/BASELINE.json'))['stable']
def stable(w):
    r=sh('. /opt/vp/env.sh; go build ./... && go test -vet=off -json ./...',cwd=w)
    ok=set()
    for l in r.stdout.splitlines():
        try: j=json.loads(l)
        except Exception: continue
        if j.get('Action')=='pass' and j.get('Test'): ok.add((j['Package'],j['Test']))
    names={b for a,b in ok}|{a+'/'+b for a,b in ok}|{a+'::'+b for a,b in ok}|{a+'.'+b for a,b in ok}
    return [t for t in base if t not in names and t.split('::')[-1] not in names and t.split(' ')[-1] not in names], r
for b in bugs:
    w=tempfile.mkdtemp(prefix='plant.',dir='/tmp')
    try:
        sh(f'cp -a /repo/. {w}/ && git -C {w} checkout -q -- .')
        bad=None
        for f,o,n in b['edits']:
            p=os.path.join(w,f); s=open(p).read()
            if s.count(o)!=1: bad=f'{f}: old text found {s.count(o)} times'; break
            open(p,'w').write(s.replace(o,n))
        if bad: print(b['id'],'BAD',bad); continue
        r=sh('. /opt/vp/env.sh; gofmt -l .',cwd=w)
        diff=sh('git diff',cwd=w).stdout
        fail,r=stable(w)
        if fail or r.stdout=='' : print(b['id'],'TESTS FAIL' if fail else 'NO BUILD',fail[:3],r.stderr[-400:]); continue
        d=os.path.join(SEED,b['id']); shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        imps=''.join(f'\t"{i}"\n' for i in ['fmt','os',*b['imports']])
        body=('package main\n\nimport (\n'+imps+'\n\t"github.com/aiq/tok"\n'+('\t"github.com/aiq/tok/grammar"\n' if 'grammar.' in b['demo']+b['pre'] else '')+')\n\n'
          'var _ = tok.NewScanner\n\nfunc expect(ok bool, f string, a ...interface{}) {\n\tif !ok {\n\t\tfmt.Printf(f+"\\n", a...)\n\t\tos.Exit(1)\n\t}\n}\n\n'+b['pre']+'\nfunc main() {\n'+b['demo']+'\n}\n')
        open(d+'/main.go','w').write(body); sh(f'. /opt/vp/env.sh; gofmt -w {d}/main.go')
        open(d+'/demo.sh','w').write(DEMO.replace('@RACE@',' -race' if b['race'] else ''))
        open(d+'/patch.diff','w').write(diff)
        json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks']),open(d+'/meta.json','w'),indent=1)
        c=sh(f'bash {d}/demo.sh',cwd='/repo'); x=sh(f'bash {d}/demo.sh',cwd=w)
        built = 'demo' not in (x.stderr or '') or x.stdout
        if c.returncode!=0 or x.returncode==0 or (x.returncode!=0 and '# demo' in x.stderr):
            print(b['id'],'DEMO WRONG clean',c.returncode,'patched',x.returncode,c.stdout[-300:],c.stderr[-600:],x.stderr[-300:]); shutil.rmtree(d); continue
        print(b['id'],'ok:',x.stdout.strip()[:140] or x.returncode)
    finally:
        shutil.rmtree(w,ignore_errors=True)
