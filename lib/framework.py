"""Runs one property check: collects violations, compares them with the known findings, writes evidence."""
import json, multiprocessing as mp, os, re, sys, time, traceback
import build
from interp import AnalysisError, run_big

VERIF = build.VERIF


class Result:
    """What one job of a check found. Counts are sums over jobs; samples are kept in small number."""

    def __init__(self):
        self.counts = {}
        self.viol = {}
        self.samples = []
        self.errors = []
        self.sets = {}

    def n(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + k

    def seen(self, name, x):
        self.sets.setdefault(name, set()).add(x)

    def bad(self, key, text):
        """A violation. The key names the construct and the rule, never a line number."""
        self.viol.setdefault(key, text)

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    def err(self, text):
        self.errors.append(text)

    def merge(self, o):
        for k, v in o.counts.items():
            self.n(k, v)
        for k, v in o.viol.items():
            self.viol.setdefault(k, v)
        for k, v in o.sets.items():
            self.sets.setdefault(k, set()).update(v)
        self.samples = (self.samples + o.samples)[:8]
        self.errors += o.errors


def known(prop):
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            mm = re.match(r'^known: property=(\S+) key=(\S+) (.*)$', l.rstrip('\n'))
            if mm and mm.group(1) == prop:
                out[mm.group(2)] = mm.group(3)
    return out


def _job(a):
    f, args = a
    def go():
        r = Result()
        try:
            f(r, *args)
        except AnalysisError as e:
            r.err(f'{f.__name__}{args}: {e} {getattr(e, "loc", "")}')
        except build.CompileError as e:
            r.err(f'{f.__name__}{args}: {e}\n{e.out[-3000:]}')
        except Exception:
            r.err(f'{f.__name__}{args}: {traceback.format_exc()[-3000:]}')
        return r
    try:
        return run_big(go)
    except BaseException:
        r = Result()
        r.err(traceback.format_exc()[-3000:])
        return r


def jobs(list_of, procs=None):
    """Run (function, args) jobs in parallel; each function gets a Result as its first argument."""
    total = Result()
    n = min(len(list_of), procs or min(8, os.cpu_count() or 1))
    if n <= 1:
        for j in list_of:
            total.merge(_job(j))
        return total
    with mp.get_context('fork').Pool(n, maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(_job, list_of, chunksize=1):
            total.merge(r)
    return total


def tier():
    return 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'


def main(prop, spec):
    """spec: dict with run(tier, seed) -> Result, rule, floors {count: minimum}, assumptions."""
    t0 = time.time()
    t = tier()
    try:
        seed = int(os.environ.get('VERIF_SEED', '0'))
    except ValueError:
        seed = 0
    try:
        res = spec['run'](t, seed)
    except AnalysisError as e:
        print('check error:', e)
        sys.exit(2)
    except build.CompileError as e:
        print('check error:', e)
        print(e.out[-4000:])
        sys.exit(2)
    kf = known(prop)
    new = {k: v for k, v in res.viol.items() if k not in kf}
    old = {k: v for k, v in res.viol.items() if k in kf}
    for name, least in spec.get('floors', {}).items():
        have = res.counts.get(name, 0) or len(res.sets.get(name, ()))
        if have < least and not new:
            res.err(f'only {have} {name} were analysed, at least {least} are expected')
    cov = {'explanation': spec['rule']}
    cov.update({k: v for k, v in sorted(res.counts.items())})
    for k, v in sorted(res.sets.items()):
        cov['distinct_' + k] = len(v)
    cov['samples'] = res.samples
    ev = {'property': prop, 'tier': t, 'seed': seed, 'level': 'other', 'coverage': cov,
          'wall_s': round(time.time() - t0, 2),
          'assumptions': spec.get('assumptions', []),
          'violations': [{'key': k, 'what': v, 'known': k in kf} for k, v in sorted(res.viol.items())]}
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    os.replace(path + '.tmp', path)
    for k in sorted(old):
        print(f'KNOWN-FINDING: property={prop} {k}: {kf[k]}')
    for k, v in sorted(new.items()):
        print(f'  [{k}] {v}')
    for e in res.errors[:10]:
        print('check error:', e)
    if new:
        print(f'VIOLATION property={prop} replay={path}')
        sys.exit(1)
    if res.errors:
        sys.exit(2)
    print(f'{prop}: held ({", ".join(f"{k}={v}" for k, v in sorted(res.counts.items()))}) in {time.time() - t0:.1f} s')
    sys.exit(0)
