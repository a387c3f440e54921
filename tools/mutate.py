"""Mutation campaign: small syntactic changes of cbx that pass the test suite, judged by the quick checks.

  mutate.py gen OUT.json [--frac F] [--seed S] [--only SUB]   enumerate mutants and keep those the tests do not notice
  mutate.py run OUT.json [--all] [--scale S] [--cap N] [--shard I/N]   run the checks against the kept mutants, most relevant first

Works on copies of /repo under a scratch directory; /repo itself is not touched.  Not used by any check.
"""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

PY = '/opt/venv/bin/python'
BASE = '/tmp/w/mut'
ORDER = {
    'constraints.py': 'C14 C26', 'correction.py': 'C02 C03 C07', 'noise.py': 'C25 C02 C04', 'objectives.py': 'C19 C18', 'plotting.py': 'C23',
    'regularizers.py': 'C13', 'scheduler.py': 'C12 C29 C04', 'adamcbo.py': 'C02 C29', 'cbo.py': 'C02', 'cbo_memory.py': 'C03 C08', 'cbs.py': 'C25 C26 C29',
    'driftconstrainedcbo.py': 'C14 C20', 'hypersurfacecbo.py': 'C15', 'mirrorcbo.py': 'C16', 'polarcbo.py': 'C17 C30', 'pso.py': 'C03',
    'regcombinationcbo.py': 'C14 C13', 'history.py': 'C09', 'objective_handling.py': 'C18 C30 C07', 'particle_init.py': 'C31 C30',
    'resampling.py': 'C20', 'success.py': 'C24', 'termination.py': 'C28 C05', 'torch_utils.py': 'C21 C22 C10',
    'pdyn.py': 'C02 C05 C08 C06 C07 C01 C30 C09 C11 C10 C29 C28', '__init__.py': 'C30'}
ALL = [f'C{i:02d}' for i in range(1, 32)]


def sites(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()))

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    out = []

    def rep(n, new, kind):
        a, b = span(n)
        out.append((a, b, new if isinstance(new, str) else ast.unparse(new), kind, n.lineno))
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])
            doc.add(n.body[0].value)
    for n in ast.walk(tree):
        if isinstance(n, ast.BinOp):
            for a, b in ((ast.Add, ast.Sub), (ast.Sub, ast.Add), (ast.Mult, ast.Div), (ast.Div, ast.Mult), (ast.Pow, ast.Mult),
                         (ast.Mod, ast.FloorDiv), (ast.FloorDiv, ast.Div)):
                if isinstance(n.op, a) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                    rep(n, '(' + ast.unparse(ast.BinOp(n.left, b(), n.right)) + ')', 'binop')
            if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
                rep(n, '(' + ast.unparse(n.left) + ')', 'left')
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            for a, b in ((ast.Lt, ast.LtE), (ast.LtE, ast.Lt), (ast.Gt, ast.GtE), (ast.GtE, ast.Gt), (ast.Eq, ast.NotEq),
                         (ast.Lt, ast.Gt), (ast.Gt, ast.Lt), (ast.Is, ast.IsNot), (ast.IsNot, ast.Is), (ast.In, ast.NotIn)):
                if isinstance(n.ops[0], a):
                    rep(n, '(' + ast.unparse(ast.Compare(n.left, [b()], n.comparators)) + ')', 'compare')
        elif isinstance(n, ast.BoolOp):
            rep(n, '(' + ast.unparse(ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), n.values)) + ')', 'boolop')
            for v in n.values:
                rep(n, '(' + ast.unparse(v) + ')', 'boolop-one')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)) and not isinstance(n.operand, ast.Constant):
            rep(n, '(' + ast.unparse(n.operand) + ')', 'unary')
        elif isinstance(n, ast.Constant) and n not in doc:
            if isinstance(n.value, bool):
                rep(n, str(not n.value), 'const')
            elif isinstance(n.value, (int, float)):
                rep(n, repr(n.value + 1) if n.value >= 0 else repr(n.value - 1), 'const')
                if n.value:
                    rep(n, repr(n.value / 2) if isinstance(n.value, float) else repr(n.value - 1), 'const')
            elif n.value is None:
                pass
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            if not isinstance(n, ast.While):
                rep(n.test, 'True', 'cond')
                rep(n.test, 'False', 'cond')
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            rep(n, 'pass', 'delete')
            if isinstance(n, ast.AugAssign):
                rep(n, ast.Assign([n.target], n.value, lineno=0), 'aug')
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    m = ast.Call(n.func, n.args, [q for q in n.keywords if q is not k])
                    rep(n, m, 'keyword')
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
                rep(n, n.func.value, 'copy')
            elif isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'deepcopy', 'asarray', 'atleast_2d', 'maximum', 'minimum', 'abs',
                                                                      'sqrt', 'clip', 'array', 'ravel') and n.args:
                rep(n, '(' + ast.unparse(n.args[0]) + ')', 'call-arg')
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                rep(n, ast.Call(n.func, n.args[::-1], n.keywords), 'swap')
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
            rep(n, '(' + ast.unparse(n.value) + ')', 'subscript')
        elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Tuple):
            pass
    return out


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def tree(name):
    t = f'{BASE}/{name}'
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree('/repo', t, symlinks=True, ignore=shutil.ignore_patterns('__pycache__', '.pytest_cache', '.git', 'docs'))
    return t


def mutate(m):
    src = open(f'/repo/cbx/{m["file"]}', 'rb').read()
    return src[:m['a']] + m['new'].encode() + src[m['b']:]


def gen(out, frac, seed, only):
    rng = random.Random(seed)
    ms = []
    for root, _, files in os.walk('/repo/cbx'):
        for f in sorted(files):
            if f.endswith('.py'):
                rel = os.path.relpath(os.path.join(root, f), '/repo/cbx')
                if only and not re.search(only, rel):
                    continue
                src = open(os.path.join(root, f)).read()
                for a, b, new, kind, line in sites(src):
                    if rng.random() < frac:
                        ms.append(dict(file=rel, a=a, b=b, new=new, kind=kind, line=line, old=src.encode()[a:b].decode()))
    rng.shuffle(ms)
    W = 8
    trees = [tree(f't{i}') for i in range(W)]
    kept, done = [], [0]

    def work(i):
        t = trees[i]
        for m in ms[i::W]:
            p = f'{t}/cbx/{m["file"]}'
            try:
                new = mutate(m)
                ast.parse(new)
            except SyntaxError:
                continue
            open(p, 'wb').write(new)
            try:
                r = sh(f'OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONPATH={t}:/opt/vp/plugins PYTHONDONTWRITEBYTECODE=1 timeout 120 {PY} -m pytest tests -q -x -p no:cacheprovider '
                       f'-p cbx_fixed_seed --timeout=20', cwd=t)
                ok = r.returncode == 0
            finally:
                shutil.copy(f'/repo/cbx/{m["file"]}', p)
            done[0] += 1
            if ok:
                kept.append(m)
                json.dump(sorted(kept, key=lambda m: (m['file'], m['line'], m['a'])), open(out + f'.{i}', 'w'))
                os.replace(out + f'.{i}', out)
            if done[0] % 50 == 0:
                print(done[0], 'of', len(ms), 'tried', len(kept), 'kept', flush=True)
    with ThreadPoolExecutor(W) as ex:
        list(ex.map(work, range(W)))
    for t in trees:
        shutil.rmtree(t)
    kept.sort(key=lambda m: (m['file'], m['line'], m['a']))
    json.dump(kept, open(out, 'w'), indent=0)
    print(len(ms), 'mutants', len(kept), 'pass the tests')


def run(out, everything, scale, cap, seed, shard):
    ms = json.load(open(out))
    if cap:                               # at most cap mutants of a file
        random.Random(seed).shuffle(ms)
        by = {}
        for m in ms:
            by.setdefault(m['file'], []).append(m)
        ms = [m for f in sorted(by) for m in by[f][:cap]]
    i, n = map(int, shard.split('/'))
    ms, out = ms[i::n], out + ('' if n == 1 else f'.{i}')
    t = tree(f'run{i}')
    for k, m in enumerate(ms):
        if 'by' in m and (m['by'] or not everything or m.get('full')):
            continue
        p = f'{t}/cbx/{m["file"]}'
        open(p, 'wb').write(mutate(m))
        first = ORDER.get(os.path.basename(m['file']), '').split()
        m['by'] = None
        for c in first + ([q for q in ALL if q not in first] if everything else []):
            r = sh(f'RV_SCALE={scale} RV_REPO={t} VERIF_SEED=1 timeout 300 ./run.sh {c} quick', cwd='/verif')
            if r.returncode == 1 or r.returncode not in (0, 2) or r.returncode == 2 and scale >= 1:
                m['by'] = c
                v = [ln for ln in r.stdout.splitlines() if ln.startswith('  [')]
                m['how'] = v[0][:160] if v else f'rc={r.returncode} ' + r.stdout[-160:]
                break
        m['full'] = everything
        shutil.copy(f'/repo/cbx/{m["file"]}', p)
        print(k, m['file'], m['line'], m['kind'], repr(m['old'][:60]), '->', repr(m['new'][:60]), '|', m['by'] or 'SURVIVES', m.get('how', '')[:70], flush=True)
        json.dump(ms, open(out + '.run', 'w'), indent=0)
    shutil.rmtree(t)


if __name__ == '__main__':
    a = sys.argv[1:]

    def opt(n, d):
        return a[a.index(n) + 1] if n in a else d
    if a[0] == 'gen':
        gen(a[1], float(opt('--frac', '1')), int(opt('--seed', '0')), opt('--only', ''))
    else:
        run(a[1], '--all' in a, float(opt('--scale', '1')), int(opt('--cap', '0')), int(opt('--seed', '0')), opt('--shard', '0/1'))
