#!/usr/bin/env python3
"""mkseed.py SPEC.json: builds /verif/seeded/<id>/ from {id, property, needs, what_it_breaks, edits:[{file,old,new}], pkg, test}
pkg: package directory under src in which the demo test is placed; test: go source of the test (func TestDemo)."""
import json,sys,subprocess,os,shutil,tempfile
for spec in sys.argv[1:]:
    s=json.load(open(spec)) if spec.endswith('.json') else eval(open(spec).read())
    d='/verif/seeded/'+s['id']; os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp(prefix='/tmp/mkseed')
    subprocess.check_call(['git','clone','-q','--shared','/repo',w+'/r'])
    for e in s['edits']:
        p=w+'/r/'+e['file']; t=open(p).read()
        assert t.count(e['old'])==1,(e['file'],t.count(e['old']))
        open(p,'w').write(t.replace(e['old'],e['new']))
    diff=subprocess.check_output(['git','-C',w+'/r','diff']).decode()
    open(d+'/patch.diff','w').write(diff)
    shutil.rmtree(w)
    open(d+'/demo_test.go','w').write(s['test'])
    open(d+'/demo.sh','w').write('''#!/bin/bash
# runs the demonstration test inside package %s of the tree in the current directory
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
printf '{"Replace": {"%%s": "%%s"}}' "$repo/src/%s/zz_demo_test.go" "$here/demo_test.go" > "$W/ov.json"
cd "$repo/src" && go test -overlay "$W/ov.json" -vet=off -count=1 -timeout 200s -run '^TestDemo$' ./%s
'''%(s['pkg'],s['pkg'],s['pkg']))
    json.dump({k:s[k] for k in('property','needs','what_it_breaks')},open(d+'/meta.json','w'),indent=1)
    print(s['id'],'ok')
