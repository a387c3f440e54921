"""Runner of the runtime monitors: cases, verdicts, evidence.

A check is a module rv/checks/<id>.py with

    RULE       text: how cases are made and what makes one non-trivial
    FAMILIES   {name: (function(ctx, rng), number of cases per round)}
    REQUIRE    {counter: minimum}  - observations without which the verdict is inconclusive
    ASSUMPTIONS (optional)

Every case gets a random generator seeded by (VERIF_SEED, property, family, index), drives the
real cbx code and reports what its monitors saw:  ctx.seen(counter), ctx.sig(...), ctx.check(...).
Verdicts are three valued: exit 0 held, exit 1 violated, exit 2 inconclusive / error of the check.
"""
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings
import zlib
from collections import Counter

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RV_REPO', '/repo')
CASE_TIMEOUT = 60


class Violation(Exception):
    """raised to abandon a case after a violation that makes the rest meaningless"""


class Inconclusive(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class StepLimit(Exception):
    pass


def jsonable(o, depth=0):
    if isinstance(o, np.ndarray):
        if o.size > 24:
            return {'shape': list(o.shape), 'head': jsonable(o.ravel()[:6])}
        return jsonable(o.tolist())
    if isinstance(o, (np.floating, float)):
        return float(o) if np.isfinite(o) else repr(float(o))
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v, depth + 1) for v in o]
    if isinstance(o, (str, int, bool)) or o is None:
        return o
    return str(o)[:200]


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.counts = Counter()
        self.sigs = set()
        self.violations = []
        self.inconclusive = []
        self.samples = []
        self.case = None
        self.info = {}
        self.data = {}

    # --- what the monitors saw
    def seen(self, what, n=1):
        self.counts[what] += int(n)

    def sig(self, *parts):
        """signature of a non-trivial observation (distinct ones are counted)"""
        h = hashlib.blake2b(repr((self.case[0],) + parts).encode(), digest_size=8).digest()
        self.sigs.add(h)

    def describe(self, **kw):
        """description of the current case, goes to the evidence samples / replay file"""
        self.info.update(kw)

    # --- verdicts
    def fail(self, kind, msg='', stop=False, **kw):
        if not any(v['kind'] == kind and v['family'] == self.case[0] for v in self.violations):
            self.violations.append(dict(
                kind=kind, message=str(msg)[:2000], family=self.case[0], index=self.case[1],
                seed=self.case[2], info=jsonable(self.info), data=jsonable(kw)))
        self.counts['violations'] += 1
        if stop:
            raise Violation(kind)

    def check(self, cond, kind, msg='', stop=False, **kw):
        self.counts['oracle_evaluations'] += 1
        if not cond:
            self.fail(kind, msg, stop=stop, **kw)
            return False
        return True

    def close(self, a, b, kind, msg='', rtol=1e-7, atol=1e-9, mask=None, stop=False, **kw):
        """a (observed) equals b (expected) up to tolerances; shapes have to agree"""
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        self.counts['oracle_evaluations'] += 1
        if a.shape != b.shape:
            self.fail(kind, f'{msg} shape {a.shape} instead of {b.shape}', stop=stop, **kw)
            return False
        with np.errstate(all='ignore'):
            ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
        if mask is not None:
            ok = ok | ~np.broadcast_to(mask, ok.shape)
        if not ok.all():
            bad = np.argwhere(~ok)[0] if ok.ndim else ()
            i = tuple(bad)
            self.fail(kind, f'{msg} at index {tuple(int(j) for j in i)}: observed {a[i]!r}, expected {b[i]!r} '
                      f'({int((~ok).sum())} of {ok.size} entries differ)', stop=stop, **kw)
            return False
        return True

    def equal(self, a, b, kind, msg='', stop=False, **kw):
        """bit for bit equality (nan equals nan)"""
        a, b = np.asarray(a), np.asarray(b)
        self.counts['oracle_evaluations'] += 1
        same = a.shape == b.shape and (
            np.array_equal(a, b, equal_nan=True) if a.dtype.kind in 'fc' else np.array_equal(a, b))
        if not same:
            d = ''
            if a.shape == b.shape:
                neq = ~((a == b) | ((a != a) & (b != b)))
                i = tuple(np.argwhere(neq)[0]) if a.ndim else ()
                d = f'first difference at {tuple(int(j) for j in i)}: {a[i]!r} instead of {b[i]!r}'
            else:
                d = f'shape {a.shape} instead of {b.shape}'
            self.fail(kind, f'{msg} {d}', stop=stop, **kw)
        return same


def case_seed(seed, pid, family, index):
    return [int(seed) & 0xffffffff, zlib.crc32(pid.encode()), zlib.crc32(family.encode()), int(index)]


def load(pid):
    return importlib.import_module('rv.checks.' + pid.lower())


def classify_exception(e):
    """violation: the real code raised on a legitimate configuration, or what it produced could not be read"""
    tb = traceback.extract_tb(e.__traceback__)
    files = [f.filename for f in tb]
    repo = os.path.join(REPO, 'cbx') + os.sep
    in_cbx = [i for i, f in enumerate(files) if f.startswith(repo)]
    if in_cbx:
        return 'exception-in-cbx'
    if isinstance(e, (ValueError, IndexError, AttributeError, TypeError, ZeroDivisionError, FloatingPointError, np.linalg.LinAlgError, KeyError)):
        return 'malformed-observation'
    return None


def _alarm(signum, frame):
    raise CaseTimeout()


default_rng = np.random.default_rng


def fresh_generators(s):
    """default_rng whose unseeded generators are all different, but the same whenever the case is repeated"""
    n = [0]

    def make(seed=None):
        if seed is not None:
            return default_rng(seed)
        n[0] += 1
        return default_rng([zlib.crc32(repr(s).encode()), n[0], 2**31])
    return make


def run_case(ctx, mod, family, index, seed):
    fn = mod.FAMILIES[family][0]
    s = case_seed(seed, ctx.pid, family, index)
    rng = np.random.default_rng(s)
    ctx.case = (family, index, seed)
    ctx.info = {}
    np.random.seed(zlib.crc32(repr(s).encode()))
    np.random.default_rng = fresh_generators(s)
    if 'torch' in sys.modules:
        sys.modules['torch'].manual_seed(zlib.crc32(repr(s).encode()))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            fn(ctx, rng)
    except Violation:
        pass
    except StepLimit as e:
        ctx.fail('does-not-terminate', str(e))
    except CaseTimeout:
        ctx.inconclusive.append(f'{family}[{index}] timed out after {CASE_TIMEOUT} s')
    except Inconclusive as e:
        ctx.inconclusive.append(f'{family}[{index}] {e}')
    except Exception as e:
        kind = classify_exception(e)
        text = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        if kind:
            ctx.fail(f'{kind}:{type(e).__name__}', text)
        else:
            ctx.inconclusive.append(f'{family}[{index}] error of the harness:\n{text}')
    finally:
        signal.alarm(0)
        np.random.default_rng = default_rng
    ctx.counts['cases'] += 1
    ctx.counts['cases:' + family] += 1
    if len(ctx.samples) < 2 and ctx.info and index % 7 == 0:
        ctx.samples.append({'family': family, 'index': index, 'case': jsonable(ctx.info)})


def worker(pid, tier, seed, jobs, deadline, conn):
    import cbx  # noqa: F401
    mod = load(pid)
    ctx = Ctx(pid, tier)
    if hasattr(mod, 'init_worker'):
        mod.init_worker(ctx)
    todo = 0
    for (family, index) in jobs:
        if time.time() > deadline:
            break
        if len(ctx.violations) >= 8 or len(ctx.inconclusive) >= 20:
            break
        run_case(ctx, mod, family, index, seed)
        todo += 1
    conn.send((dict(ctx.counts), ctx.sigs, ctx.violations, ctx.inconclusive, ctx.samples, todo, ctx.data))
    conn.close()


def known_findings(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        return [k for k in json.load(fh)['findings'] if k['property'] == pid]


def jobs_of(mod, tier, workers, scale=1.):
    def rounds():
        r = 0
        while True:
            for name, spec in mod.FAMILIES.items():
                n = max(1, int(round(spec[1] * scale)))
                for i in range(n):
                    yield r, name, r * n + i
            r += 1
    out = [[] for _ in range(workers)]
    if tier == 'quick':
        k = 0
        for r, name, i in rounds():
            if r > 0:
                break
            out[k % workers].append((name, i))
            k += 1
        return out

    def gen(w):
        k = 0
        for r, name, i in rounds():
            # families with a single case (deterministic sweeps) are run once
            if r > 0 and mod.FAMILIES[name][1] <= 1:
                continue
            if k % workers == w:
                yield (name, i)
            k += 1
    return [gen(w) for w in range(workers)]


def main(argv):
    pid = argv[0]
    if pid == 'setup':
        import cbx.dynamics
        print('cbx is importable from', os.path.dirname(cbx.__file__))
        return 0
    tier = argv[1] if len(argv) > 1 and not argv[1].startswith('-') else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    if '--replay' in argv:
        return replay(pid, argv[argv.index('--replay') + 1])
    workers = int(os.environ.get('RV_WORKERS', min(8, os.cpu_count() or 1)))
    budget = float(os.environ.get('RV_BUDGET', 240 if tier == 'quick' else 420))
    deadline = t0 + budget
    try:
        sys.path.insert(0, VERIF)
        import cbx
        where = os.path.dirname(os.path.abspath(cbx.__file__))
        if os.path.realpath(where) != os.path.realpath(os.path.join(REPO, 'cbx')):
            print(f'ERROR: cbx is imported from {where}, not from {REPO}')
            return 2
        mod = load(pid)
    except Exception:
        traceback.print_exc()
        return 2
    jobs = jobs_of(mod, tier, workers, scale=float(os.environ.get('RV_SCALE', '1')))
    ctx = mp.get_context('fork')
    procs = []
    for w in range(workers):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=worker, args=(pid, tier, seed, jobs[w], deadline, b))
        p.start()
        b.close()
        procs.append((p, a))
    counts, sigs, viols, inconcl, samples, data = Counter(), set(), [], [], [], {}
    for p, a in procs:
        try:
            if a.poll(max(1., deadline + CASE_TIMEOUT + 30 - time.time())):
                c, s, v, i, sa, todo, d = a.recv()
                counts.update(c)
                sigs |= s
                viols += v
                inconcl += i
                samples += sa
                for k, x in d.items():
                    data.setdefault(k, []).append(x)
            else:
                inconcl.append('a worker did not answer')
        except EOFError:
            inconcl.append('a worker died')
        p.join(5)
        if p.is_alive():
            p.kill()
            p.join()
    # checks over the merged observations of all cases
    if hasattr(mod, 'finish'):
        fctx = Ctx(pid, tier)
        fctx.case = ('finish', 0, seed)
        try:
            mod.finish(fctx, data, counts)
        except Violation:
            pass
        viols += fctx.violations
        inconcl += fctx.inconclusive
        counts.update(fctx.counts)
    if not viols:
        for name, minimum in getattr(mod, 'REQUIRE', {}).items():
            if counts[name] < minimum:
                inconcl.append(f'monitor not reached: {name} observed {counts[name]} times, needs {minimum}')
    # known findings are identified by their mechanism
    known = known_findings(pid)
    new, old = [], {}
    for v in viols:
        k = next((k for k in known if k['kind'] == v['kind'] and k.get('family', v['family']) == v['family']), None)
        if k is None:
            new.append(v)
        else:
            old[k['kind']] = k
    for k in old.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    new.sort(key=lambda v: (v['kind'], v['index']))
    shown = {}
    for v in new:
        shown.setdefault((v['family'], v['kind']), v)
    for n, v in enumerate(list(shown.values())[:10]):
        path = os.path.join(VERIF, 'evidence', 'replay', f'{pid}-{n}.json')
        with open(path, 'w') as fh:
            json.dump(dict(v, property=pid, tier=tier), fh, indent=1)
        print(f'VIOLATION property={pid} replay={path}')
        print(f"  [{v['kind']}] family {v['family']} case {v['index']}: {v['message'][-1500:]}")
        print(f"  case: {json.dumps(v['info'])[:1500]}")
    for i in inconcl[:5]:
        print('INCONCLUSIVE:', i)
    wall = time.time() - t0
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': int(counts['cases']),
            'distinct_nontrivial': len(sigs),
            'rule': mod.RULE,
            'samples': samples[:6] if samples else [{'note': 'no case described itself'}],
            'oracle_evaluations': int(counts['oracle_evaluations']),
            'observed': {k: int(v) for k, v in sorted(counts.items())
                         if k not in ('cases', 'oracle_evaluations', 'violations')},
            'inconclusive_cases': len(inconcl),
            'known_findings_seen': sorted(old),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'violations': len(new),
        'wall_s': round(wall, 2),
    }
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print(f"{pid} {tier} seed={seed}: {counts['cases']} cases, {counts['oracle_evaluations']} oracle evaluations, "
          f"{len(sigs)} distinct, {len(shown)} violations, {len(inconcl)} inconclusive, {wall:.1f} s")
    if new:
        return 1
    if inconcl:
        return 2
    return 0


def replay(pid, path):
    with open(path) as fh:
        v = json.load(fh)
    if v['family'] == 'finish':     # judged over the merged observations of a whole run
        os.environ['VERIF_SEED'] = str(v['seed'])
        return main([pid, v.get('tier', 'quick')])
    sys.path.insert(0, VERIF)
    mod = load(pid)
    ctx = Ctx(pid, v.get('tier', 'quick'))
    if hasattr(mod, 'init_worker'):
        mod.init_worker(ctx)
    run_case(ctx, mod, v['family'], v['index'], v['seed'])
    for w in ctx.violations:
        print(f"VIOLATION property={pid} replay={path}\n  [{w['kind']}] {w['message']}\n  case: {json.dumps(w['info'])}")
    for i in ctx.inconclusive:
        print('INCONCLUSIVE:', i)
    return 1 if ctx.violations else (2 if ctx.inconclusive else 0)
