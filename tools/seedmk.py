"""mk(id, prop, edits=[(file, old, new[,count])], needs, breaks, main=go source or None, pkgtest=go test source)"""
import os, subprocess, json, sys, shutil
DEMO='''#!/bin/bash
d="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
export PATH=/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH HOME="${HOME:-/root}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
cp "$d/demo.go.txt" "$w/main.go"
printf 'module demo\\n\\ngo 1.16\\n\\nrequire ustack v0.0.0\\n\\nreplace ustack => %s\\n' "$repo" > "$w/go.mod"
cd "$w" && go build -o demo . || exit 2
timeout 120 ./demo
'''
PKG='''#!/bin/bash
d="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
export PATH=/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH HOME="${HOME:-/root}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
cp "$d/demo_test.go.txt" "$w/x_test.go"
printf '{"Replace": {"%s/zz_demo_test.go": "%s/x_test.go"}}' "$repo" "$w" > "$w/overlay.json"
go test -count=1 -timeout 120s -overlay "$w/overlay.json" -run 'TestDemo' .
'''
def mk(id, prop, edits, needs, breaks, main=None, pkgtest=None):
    d='/verif/seeded/'+id
    os.makedirs(d, exist_ok=True)
    w='/tmp/seedmk'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['git','clone','-q','/repo',w])
    for e in edits:
        f,old,new=e[:3]
        s=open(w+'/'+f).read()
        n=s.count(old)
        want=e[3] if len(e)>3 else 1
        assert n==want, (id,f,old,n)
        open(w+'/'+f,'w').write(s.replace(old,new))
    diff=subprocess.check_output(['git','-C',w,'diff'])
    open(d+'/patch.diff','wb').write(diff)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.sh','w').write(DEMO if main else PKG)
    os.chmod(d+'/demo.sh',0o755)
    if main: open(d+'/demo.go.txt','w').write(main)
    else: open(d+'/demo_test.go.txt','w').write(pkgtest)
    shutil.rmtree(w)
