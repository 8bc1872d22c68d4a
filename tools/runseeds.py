#!/usr/bin/env python3
"""Runs the check of each planted bug's property against a scratch copy with the bug; prints which are caught, and how."""
import json, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('-')]
flags = [a for a in sys.argv[1:] if a.startswith('-')]
ids = args or sorted(os.listdir(V + '/seeded'))
def run(i):
    d = f'{V}/seeded/{i}'
    prop = json.load(open(d + '/meta.json'))['property']
    r = f'/tmp/rs/{i}'; v = f'/tmp/rs/{i}.v'
    for x in (r, v): shutil.rmtree(x, ignore_errors=True)
    os.makedirs('/tmp/rs', exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', r], check=True)
    subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=r, check=True)
    os.makedirs(v + '/evidence')
    for f in ('contracts', 'hunt', 'conf.json', 'known-findings.txt', 'properties.jsonl', 'vc', 'tools'): 
        s = f'{V}/{f}'
        if os.path.exists(s): os.symlink(s, f'{v}/{f}')
    p = subprocess.run([V + '/bin/lpgvc', 'check', '-prop', prop] + flags, cwd=v, env=dict(os.environ, VC_REPO=r, VC_VERIF=v, VERIF_SEED='1', VERIF_TIER='quick'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    vio = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
    kind = 'MISSED' if p.returncode == 0 else 'input' if vio and not any('no-failing-input' in l for l in vio) else 'proof-only' if vio else 'ERROR %d' % p.returncode
    for x in (r, v): shutil.rmtree(x, ignore_errors=True)
    return i, kind, p.stdout[-300:] if 'ERROR' in kind else ''
with ThreadPoolExecutor(4) as ex:
    for i, k, o in ex.map(run, ids): print(i, k, o, flush=True)
