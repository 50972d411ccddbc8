#!/usr/bin/env python3
"""mk.py DEF.py ... : each DEF defines id, property, needs, breaks, edits=[(file,old,new)], demo (go main body)"""
import sys,os,subprocess,json,shutil,runpy
DEMO='''#!/bin/bash
# exit 0: the behaviour is right; nonzero: broken
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=
printf '{"Replace": {"%s/zz_demo/main.go": "%s/demo.go.txt"}}' "$repo" "$here" > "$tmp/o.json"
go build -overlay "$tmp/o.json" -o "$tmp/demo" ./zz_demo || exit 3
timeout 60 "$tmp/demo"
'''
def sh(c,cwd=None):
    r=subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True); return r.returncode,r.stdout+r.stderr
for f in sys.argv[1:]:
    d=runpy.run_path(f); i=d['id']
    w='/tmp/seedwork/repo'
    shutil.rmtree('/tmp/seedwork',ignore_errors=True); os.makedirs('/tmp/seedwork')
    sh('cp -a /repo /tmp/seedwork/repo')
    out='/verif/seeded/'+i
    os.makedirs(out,exist_ok=True)
    open(out+'/demo.sh','w').write(DEMO); os.chmod(out+'/demo.sh',0o755)
    open(out+'/demo.go.txt','w').write(d['demo'])
    json.dump({"property":d['property'],"needs":d['needs'],"what_it_breaks":d['breaks']},open(out+'/meta.json','w'),indent=1)
    c0,o0=sh('bash '+out+'/demo.sh',w)
    bad=False
    for (fn,a,b) in d['edits']:
        p=w+'/'+fn; s=open(p).read()
        if s.count(a)!=1: print(i,'EDIT matches',s.count(a),repr(a)); bad=True; continue
        open(p,'w').write(s.replace(a,b))
    if bad: shutil.rmtree(out); continue
    sh('git diff > '+out+'/patch.diff',w)
    cb,ob=sh('gofmt -l parser wbnf ast gotree; go build ./... ',w)
    t=json.load(open('/opt/vp/BASELINE.json'))
    ct,ot=sh('go test ./... 2>&1 | grep -Ev "no test files|^ok" | head -20',w)
    c1,o1=sh('bash '+out+'/demo.sh',w)
    ok = c0==0 and c1!=0 and ot.strip()=='' and cb==0
    print(('OK  ' if ok else 'BAD ')+i,'demo clean',c0,'patched',c1,'build',cb,ob.strip()[:200],'tests:',ot.strip()[:300] or 'pass', '| demo:',o1.strip()[:150], o0.strip()[:200])
    if not ok: shutil.rmtree(out)
shutil.rmtree('/tmp/seedwork',ignore_errors=True)
