# usage: mk.py spec.py  -- spec defines S = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo, race=False)]
import sys, os, subprocess, json, shutil, importlib.util
spec=importlib.util.spec_from_file_location('spec', sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only=set(sys.argv[2:])
W='/tmp/seeds/w'
for s in m.S:
    if only and s['id'] not in only: continue
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(['git','clone','-q','/repo',W])
    for f,old,new in s['edits']:
        p=os.path.join(W,f); t=open(p).read()
        assert t.count(old)==1,(s['id'],f,old,t.count(old))
        open(p,'w').write(t.replace(old,new))
    d=subprocess.check_output(['git','diff'],cwd=W,text=True)
    o=os.environ.get('SEEDS','/verif/seeded')+'/'+s['id']; os.makedirs(o,exist_ok=True)
    open(o+'/patch.diff','w').write(d)
    open(o+'/demo_test.go','w').write(s['demo'])
    pre=s.get('pre','')
    open(o+'/demo.sh','w').write('''#!/bin/bash
# Run with cwd /repo after the build. Exit 0: the property holds here; nonzero: it is broken.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
%secho "{\\"Replace\\":{\\"$PWD/zz_seed_demo_test.go\\":\\"$here/demo_test.go\\"%s}}" > "$d/overlay.json"
timeout 250 go test -count=1 -vet=off -timeout 240s %s-overlay "$d/overlay.json" -run '^TestSeedDemo$' .
''' % (pre, s.get('ov',''), '-race ' if s.get('race') else ''))
    os.chmod(o+'/demo.sh',0o755)
    json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(o+'/meta.json','w'),indent=1)
    print('wrote',s['id'])
shutil.rmtree(W, ignore_errors=True)
