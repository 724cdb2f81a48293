#!/usr/bin/env python3
"""seed.py SPEC.py: make and confirm planted bugs.

SPEC.py defines BUGS, a list of dicts: id, property, needs, breaks, edits
[(file, old, new)], pkg (package dir of the demo test) and test (Go source), or
sh (a shell demo). Each is confirmed in a scratch copy of /repo: it builds, the
tests pass, the demo fails with it and passes without it. Then it is written to
/verif/seeded/ID.
"""
import sys, os, subprocess, json, shutil, tempfile
OUT = '/verif/seeded'
DEMO = '''#!/bin/bash
# Runs demo_test.go inside the package {pkg}; cwd is the repository.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{{"Replace": {{"%s": "%s"}}}}' "$PWD/{pkg}/verif_demo_test.go" "$here/demo_test.go.txt" > "$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 200s -run 'TestVerifDemo$' ./{pkg}
'''
def sh(c, cwd): return subprocess.run(['bash','-c',c],cwd=cwd,capture_output=True,text=True)
def main():
    ns={}; exec(open(sys.argv[1]).read(),ns)
    only=sys.argv[2:]
    for b in ns['BUGS']:
        if only and b['id'] not in only: continue
        if not only and os.path.exists(f"{OUT}/{b['id']}/patch.diff"): continue
        d=tempfile.mkdtemp(prefix='seed'); r=d+'/repo'
        subprocess.run(['cp','-a','/repo',r])
        demo=d+'/demo'; os.mkdir(demo)
        if 'test' in b:
            open(demo+'/demo.sh','w').write(DEMO.format(pkg=b.get('pkg','.')))
            open(demo+'/demo_test.go.txt','w').write(b['test'])
        else:
            open(demo+'/demo.sh','w').write(b['sh'])
        for n,c in b.get('files',{}).items(): open(demo+'/'+n,'w').write(c)
        ok=True
        p=sh(f'bash {demo}/demo.sh',r)
        if p.returncode!=0: print(b['id'],'DEMO FAILS UNCHANGED',(p.stdout+p.stderr)[-3000:]); ok=False
        for f,o,n in b['edits']:
            s=open(f'{r}/{f}').read()
            if s.count(o)<1: print(b['id'],'OLD NOT FOUND',f,o); ok=False
            open(f'{r}/{f}','w').write(s.replace(o,n,1))
        if ok:
            p=sh('. /opt/vp/env.sh; go build ./...',r)
            if p.returncode: print(b['id'],'NO BUILD',p.stderr[-1500:]); ok=False
        if ok:
            p=sh(f'bash {demo}/demo.sh',r)
            if p.returncode==0: print(b['id'],'DEMO PASSES WITH BUG'); ok=False
            else: demo_out=(p.stdout+p.stderr)
        if ok:
            p=sh('. /opt/vp/env.sh; go test -vet=off ./... 2>&1 | grep -v "no test files"',r)
            bad=[l for l in p.stdout.splitlines() if l.startswith('FAIL') or '[FAIL]' in l]
            if bad: print(b['id'],'TESTS FAIL',bad[:8]); ok=False
        if ok:
            o=f"{OUT}/{b['id']}"; shutil.rmtree(o,ignore_errors=True); shutil.copytree(demo,o)
            diff=sh('git diff',r).stdout
            open(o+'/patch.diff','w').write(diff)
            json.dump({"property":b['property'],"needs":b['needs'],"what_it_breaks":b['breaks']},open(o+'/meta.json','w'),indent=1)
            print(b['id'],'OK', [l for l in demo_out.splitlines() if 'demo' in l.lower() or 'FAIL' in l][:3])
        subprocess.run(['rm','-rf',d])
main()
