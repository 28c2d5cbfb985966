import subprocess, os, json, shutil, sys
DEMO='''#!/bin/bash
# runs the test beside this file inside package %(pkg)s of the repository in the current directory
set -u
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off
T=$(mktemp -d /tmp/demo.XXXXXX)
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$D" > "$T/overlay.json"
timeout 250 go test -overlay "$T/overlay.json" -run TestZZDemo -count=1 %(flags)s ./%(pkg)s
rc=$?
rm -rf "$T"
exit $rc
'''
def foreign(diff, base):
    "old lines the diff deletes that do not stem from the original repository"
    f=None; n=0; out=[]
    for l in diff.splitlines():
        if l.startswith('--- a/'): f=l[6:]
        elif l.startswith('@@'): n=int(l.split()[1][1:].split(',')[0])
        elif l.startswith('-') and not l.startswith('---'):
            b=subprocess.run(['git','blame','-l','-s','-L%d,%d'%(n,n),'HEAD','--',f],cwd='/repo',capture_output=True,text=True).stdout
            if not b.lstrip('^').startswith(base[:39]): out.append(l[1:].strip())
            n+=1
        elif l.startswith(' '): n+=1
    return out
def plant(id, prop, needs, what, edits, pkg=None, test=None, files=None, demo=None, flags=""):
    R='/tmp/plantrepo'
    shutil.rmtree(R, ignore_errors=True)
    subprocess.check_call(['cp','-a','/repo',R])
    D='/verif/seeded/'+id
    shutil.rmtree(D, ignore_errors=True)
    os.makedirs(D)
    if demo is None:
        demo=DEMO%dict(pkg=pkg,flags=flags)
        open(D+'/demo_test.go.txt','w').write(test)
    for n,t in (files or {}).items(): open(D+'/'+n,'w').write(t)
    open(D+'/demo.sh','w').write(demo); os.chmod(D+'/demo.sh',0o755)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=what),open(D+'/meta.json','w'),indent=1)
    run=lambda: subprocess.run(['bash',D+'/demo.sh'],cwd=R,capture_output=True,text=True)
    r=run()
    if r.returncode: print(id,'demo FAILS on clean tree\n',r.stdout[-1500:],r.stderr[-1500:]); return False
    for f,o,n in edits:
        p=R+'/'+f; s=open(p).read()
        if s.count(o)!=1: print(id,'edit matches',s.count(o),'times',f,repr(o)); return False
        open(p,'w').write(s.replace(o,n))
    d=subprocess.run(['git','diff'],cwd=R,capture_output=True,text=True).stdout
    open(D+'/patch.diff','w').write(d)
    # does it change original lines?
    r=subprocess.run(['bash','-c','. /opt/vp/env.sh; go build ./... && go vet ./filtering >/dev/null 2>&1; go test ./... 2>&1 | grep -v "no test files"'],cwd=R,capture_output=True,text=True)
    bad=[l for l in r.stdout.splitlines() if 'FAIL' in l or 'panic' in l]
    if r.returncode>1 or bad: print(id,'tests:',r.stdout[-1500:],r.stderr[-800:]); return False
    r=run()
    if r.returncode==0: print(id,'demo PASSES with the patch'); return False
    base=subprocess.run('git rev-list --max-parents=0 HEAD',shell=True,cwd='/repo',capture_output=True,text=True).stdout.strip()
    # deleted lines that are original
    own=foreign(d,base)
    if own: print(id,'NOTE: changes lines of later commits:',own)
    print(id,'ok:',[l for l in (r.stdout+r.stderr).splitlines() if l.strip()][:2])
    shutil.rmtree(R, ignore_errors=True)
    return True
