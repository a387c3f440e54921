#!/usr/bin/env python3
"""runs the quick check of the property of every planted bug against a scratch copy of /repo with the bug (not used by any check)
usage: tools/seeds.py [ids...]"""
import concurrent.futures as cf, glob, json, os, queue, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.path.basename(p) for p in glob.glob(V + '/seeded/*'))
slots = queue.Queue()
root = tempfile.mkdtemp(prefix='seeds-')
K = 4
for i in range(K):
    shutil.copytree('/repo', f'{root}/{i}', symlinks=True)
    slots.put(f'{root}/{i}')


def one(b):
    m = json.load(open(f'{V}/seeded/{b}/meta.json'))
    r = slots.get()
    try:
        ap = subprocess.run(['git', '-C', r, 'apply', f'{V}/seeded/{b}/patch.diff'], capture_output=True, text=True)
        if ap.returncode:
            return b, m, 'PATCH-FAILS', ap.stderr
        p = subprocess.run([V + '/run.sh', m['property'], 'quick'], capture_output=True, text=True,
                           env=dict(os.environ, RV_REPO=r, RV_WORKERS='2', VERIF_SEED=os.environ.get('VERIF_SEED', '1')))
        kinds = [line.split(']')[0].strip() + ']' for line in p.stdout.splitlines() if line.startswith('  [')]
        return b, m, 'caught' if p.returncode == 1 and f"VIOLATION property={m['property']}" in p.stdout else 'MISSED', kinds[:1]
    finally:
        subprocess.run(['git', '-C', r, 'checkout', '-q', '--', '.'])
        slots.put(r)


with cf.ThreadPoolExecutor(K) as ex:
    for b, m, res, k in ex.map(one, ids):
        print(f"{b} {m['property']} {res} {''.join(k)}", flush=True)
shutil.rmtree(root)
