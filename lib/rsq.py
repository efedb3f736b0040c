"""Asking the type checker: generated query crates and programs that must (not) compile."""
import hashlib, json, os, re, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
import build


def generated(cfg, code, name):
    """Dump of a generated crate."""
    d = os.path.join(build.TARGET, 'gen')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f'{name}-{cfg.replace("/", "-")}-{hashlib.sha256(code.encode()).hexdigest()[:16]}.rs')
    if not os.path.exists(p):
        with open(p + f'.{os.getpid()}', 'w') as f:
            f.write(code)
        os.replace(p + f'.{os.getpid()}', p)
    return build.dump(cfg, p)


def queries(cfg, code, name):
    """Answers of the driver about the `query_*` functions of a generated crate."""
    with open(generated(cfg, code, name)) as f:
        return json.load(f)


def diagnostics(info, code, extra=()):
    """[(line, error code, message)] of compiling a crate; line 0 for errors without a place in it."""
    os.makedirs(os.path.join(build.TARGET, 'scratch'), exist_ok=True)
    od = tempfile.mkdtemp(prefix=f'q-{os.getpid()}-', dir=os.path.join(build.TARGET, 'scratch'))
    p = os.path.join(od, 'snip.rs')
    with open(p, 'w') as f:
        f.write(code)
    try:
        r = build.run(['rustc', '+' + build.TC] + build.rustc_args(info, p, 'snip', list(extra) + ['--out-dir', od, '--emit=metadata',
                      '--error-format=json']), env=build.env())
    finally:
        shutil.rmtree(od, ignore_errors=True)
    errs = []

    def lines(sp):
        while sp is not None:
            if sp['file_name'] == p:
                yield sp['line_start']
            sp = (sp.get('expansion') or {}).get('span')
    for l in r.stderr.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('level') != 'error':
            continue
        ls = [x for sp in m['spans'] if sp['is_primary'] for x in lines(sp)] or [x for sp in m['spans'] for x in lines(sp)]
        c = (m.get('code') or {}).get('code') or ''
        if not ls and m['message'].startswith(('aborting due', 'could not compile')):
            continue
        errs.append((ls[0] if ls else 0, c, m['message']))
    if r.returncode and not errs:
        raise build.CompileError('rustc failed', r.stderr[-3000:])
    return errs


def batch(info, prelude, cases, extra=()):
    """{name: [(code, message)]} for [(name, code)]; every case is a module of one crate."""
    src = prelude.rstrip('\n') + '\n'
    spans = []
    for k, (n, c) in enumerate(cases):
        a = src.count('\n') + 1
        src += f'mod c{k} {{\nuse super::*;\n{c}\n}}\n'
        spans.append((a, src.count('\n'), n))
    out = {n: [] for n, _ in cases}
    for l, c, msg in diagnostics(info, src, extra):
        n = next((n for a, b, n in spans if a <= l <= b), None)
        if n is None:
            out.setdefault('', []).append((c, msg))
        else:
            out[n].append((c, msg))
    return out


def judge(info, prelude, cases, extra=(), procs=2):
    """cases: [(name, stage, must compile?, code)] -> {name: (compiles?, messages)}

    Programs that must fail are compiled together by the stage they should fail in; one that shows no error
    there is compiled on its own before it is said to compile."""
    res = {}
    good = [(n, c) for n, s, ok, c in cases if ok]
    b = batch(info, prelude, good, extra)
    if '' in b:
        raise build.CompileError('the common part of a query crate does not compile', str(b[''])[:3000])
    early = any(c in ('', 'E0432', 'E0433', 'E0425', 'E0412') for v in b.values() for c, _ in v)
    for n, c in good:
        res[n] = (not b[n], b[n])
    again = [(n, c) for n, c in good if early and not b[n]]
    stages = {}
    for n, s, ok, c in cases:
        if not ok:
            stages.setdefault(s, []).append((n, c))
    for s, cs in stages.items():
        b = batch(info, prelude, cs, extra) if s != 'alone' else {n: [] for n, _ in cs}
        for n, c in cs:
            if b[n]:
                res[n] = (False, b[n])
            else:
                again.append((n, c))
    with ThreadPoolExecutor(procs) as ex:
        for (n, c), b in zip(again, ex.map(lambda nc: batch(info, prelude, [nc], extra), again)):
            es = [x for v in b.values() for x in v]
            res[n] = (not es, es)
    return res
