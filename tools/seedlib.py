#!/usr/bin/env python3
"""Builds and confirms planted bugs. seeds*.py define SEEDS: id -> dict(prop, edits=[(file, old, new)...], demo, needs, breaks)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/seedrepo'
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local')
DEMO_SH = '''#!/bin/bash
# exit 0: the demonstration passes on the code in the current directory
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
d=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp)
trap 'rm -f "$o"' EXIT
printf '{"Replace": {"%s/zz_demo_test.go": "%s/demo_test.go.txt"}}' "$PWD" "$d" > "$o"
go test -vet=off -count=1 -timeout 120s -overlay "$o" -run '^TestSeedDemo$' .
'''
def sh(cmd, cwd=S):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    return b
def main(SEEDS):
    ids = sys.argv[1:] or list(SEEDS)
    if os.path.exists(S): shutil.rmtree(S)
    subprocess.run(['cp', '-a', '/repo', S], check=True)
    base = stable()
    for i in ids:
        s = SEEDS[i]
        sh('git checkout -q -- .')
        d = f'{V}/seeded/{i}'
        os.makedirs(d, exist_ok=True)
        hdr = 'package lpg\n\n'
        demo = s['demo']
        imps = ['"testing"'] + s.get('imports', [])
        body = hdr + 'import (\n' + ''.join('\t%s\n' % x for x in imps) + ')\n\nfunc TestSeedDemo(t *testing.T) {\n' + demo.strip('\n') + '\n}\n' + s.get('extra', '')
        open(d + '/demo_test.go.txt', 'w').write(body)
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(d + '/demo.sh', 0o755)
        r0 = sh(f'bash {d}/demo.sh')
        ok = True
        for f, old, new in s['edits']:
            t = open(f'{S}/{f}').read()
            n = t.count(old)
            if n != 1:
                print(i, 'EDIT MATCHES', n, 'TIMES in', f); ok = False; break
            open(f'{S}/{f}', 'w').write(t.replace(old, new))
        if not ok: shutil.rmtree(d); continue
        sh('gofmt -w *.go'); p = sh('git diff').stdout
        open(d + '/patch.diff', 'w').write(p)
        b = sh('go build ./...')
        r1 = sh(f'bash {d}/demo.sh')
        t = sh('go test -json -vet=off -count=1 -timeout 10m ./... ')
        res = {}
        for l in t.stdout.splitlines():
            try: e = json.loads(l)
            except Exception: continue
            if e.get('Test') and e.get('Action') in ('pass', 'fail', 'skip'): res[e['Package'] + '::' + e['Test']] = e['Action']
        fails = [k for k, v in res.items() if v == 'fail']
        good = r0.returncode == 0 and b.returncode == 0 and r1.returncode != 0 and not fails
        print(i, 'OK' if good else 'BAD', 'unchanged', r0.returncode, 'build', b.returncode, 'patched', r1.returncode, 'fails', fails)
        if r0.returncode != 0: print(r0.stdout[-1500:])
        if b.returncode != 0: print(b.stdout[-1500:])
        if good:
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        else: shutil.rmtree(d)
    sh('git checkout -q -- .')
    shutil.rmtree(S)
