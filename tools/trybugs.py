#!/usr/bin/env python3
"""Run the check of each planted bug against a scratch copy with the bug: trybugs.py [--prop CXX,..|all] [id...]"""
import sys, os, json, shutil, subprocess, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
props = None
if args and args[0] == '--prop':
    props = args[1].split(','); args = args[2:]
for id_ in args or sorted(os.listdir(V + '/seeded')):
    meta = json.load(open('%s/seeded/%s/meta.json' % (V, id_)))
    tmp = tempfile.mkdtemp(prefix='try-')
    try:
        subprocess.check_call(['cp', '-a', '/repo', tmp + '/repo'])
        subprocess.check_call(['git', '-C', tmp + '/repo', 'apply', '%s/seeded/%s/patch.diff' % (V, id_)])
        for p in props or [meta['property']]:
            t = time.time()
            r = subprocess.run(['python3-vt', 'run.py', 'check', p, '--tier', 'quick'], cwd=V, text=True, capture_output=True,
                               env=dict(os.environ, TYPEDLOAD_REPO=tmp + '/repo', VERIF_SEED='1', VERIF_TIER='quick'))
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print(id_, p, 'rc=%d' % r.returncode, '%.0fs' % (time.time() - t), v[:1], flush=True)
            if r.returncode not in (0, 1):
                print(r.stdout[-1500:], r.stderr[-1500:])
    finally:
        shutil.rmtree(tmp)
