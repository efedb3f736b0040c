"""Calling-convention properties: what compiled thunks and indirect calls do with arguments and closures."""
import os, re
import framework, build, rsq, w_abi, models, c_types
from interp import *
from values import *
from models import UNIT

ARCHS = ['x86_64', 'i686', 'aarch64', 'armv7', 'thumb']
UNWINDS = lambda abi: abi in ('Rust', 'rust-call', 'rust-cold') or abi.endswith('-unwind')


class Quiet:
    """A scenario that decides nothing."""

    def setup_fn(self, m, o):
        pass

    def decide_eq(self, m, a, b, w):
        return None

    def decide_lt(self, m, a, b, w, signed):
        return None

    def decide_switch(self, m, v, br, w):
        return None


def words(m, k):
    return {'K': 2 * m.P, 'KZ': 0, 'KZ64': 0, 'K1': 1, 'KBig': 40 * m.P, 'KAl': 16 * m.P}[k]


def is_val(m, v, want, size):
    """Is a loaded value exactly the wanted unknown, possibly in pieces?"""
    if size == 0:
        return True
    if v is want:
        return True
    if isinstance(want, Ptr):
        return (v if isinstance(v, Ptr) or v is None else m.to_ptr(v)) == want
    if isinstance(want, Blob):
        return isinstance(v, Blob) and len(v.f) == len(want.f) and all(
            a[:2] == b[:2] and is_val(m, a[2], b[2], a[1]) for a, b in zip(sorted(v.f, key=lambda f: f[0]), want.f))
    if isinstance(v, Ext):
        return v.v is want and v.lo == 0 and v.n == size
    if isinstance(v, Blob):
        at = 0
        for q, s, x in sorted(v.f, key=lambda f: f[0]):
            if q != at:
                return False
            if x is want and q == 0 and s == size:
                return True
            if not (isinstance(x, Ext) and x.v is want and x.lo == q and x.n == s):
                return False
            at = q + s
        return at == size
    return False


def compile_roots(cfg, crate, sink):
    """Dump of a witness crate. Programs the library should accept but does not are reported and left out."""
    for _ in range(5):
        try:
            return rsq.generated(cfg, crate.src, 'abi')
        except build.CompileError as x:
            errs = rsq.diagnostics(build.compiled(cfg), crate.src)
            names = {}
            for l, c, msg in errs:
                if l not in crate.lines:
                    raise AnalysisError(f'{cfg}: the common part of a witness does not compile: {c} {msg}')
                names.setdefault(crate.lines[l], f'{c} {msg}')
            if not names:
                raise
            for n, msg in names.items():
                for root, e in crate.expect.items():
                    if root == n or root.split('::')[0] == n:
                        sink(e, msg)
            crate.without(names)
    raise AnalysisError(f'{cfg}: a witness does not compile')


class Run:
    """Interprets the roots of one generated witness crate."""

    def __init__(self, cfg, crate, r, refused):
        self.r, self.cfg, self.crate = r, cfg, crate
        m = self.m = Machine(compile_roots(cfg, crate, refused))
        models.install(m)
        m.models['<asm>'] = self.asm
        m.models['<fnptr>'] = self.fnptr
        for it in m.insts:
            n = it['path'].rsplit('::', 1)[-1]
            if n in ('spy_call', 'spy_drop', 'spy_new') and it.get('body') is None:
                m.models[it['path']] = getattr(self, n)
        m.max_steps = 200_000

    # -- spies
    def grab(self, m, p, n):
        if not n:
            return None
        o, off = m.deref(p)
        return m.load(o, off, n)

    def spy_new(self, m, it, args, tys):
        n = m.num(args[1], m.P)
        if n:
            o, off = m.deref(args[0])
            m.store(o, off, n, self.clo)
        m.ev('new', n)
        return UNIT

    def spy_call(self, m, it, args, tys):
        rec = m.insts[m.stack[-1]]
        tt, rt = rec['args'][0], rec['args'][1]
        vals = []
        if m.size(tt):
            o, off = m.deref(args[2])
            for i in range(len(m.types[tt]['fields'])):
                q, ty = m.field(tt, 0, i)
                vals.append(m.load(o, off + q, m.size(ty)) if m.size(ty) else None)
        else:
            vals = [None] * len(m.types[tt]['fields'])
        m.ev('call', args[0], m.num(args[1], m.P), tt, vals, tuple(m.stack), self.grab(m, args[0], self.ksize))
        if m.choose(2, 'closure unwinds') == 1:
            m.ev('unwinds')
            raise Unwind('closure')
        n = m.size(rt)
        if n:
            self.retv = self.unknown(m, 'ret', None, rt)
            o, off = m.deref(args[3])
            m.store(o, off, n, self.retv)
        return UNIT

    def spy_drop(self, m, it, args, tys):
        m.ev('drop', args[0], self.grab(m, args[0], self.ksize))
        return UNIT

    def asm(self, m, fr, body, t):
        outs = [o for o in t['ops'] if o[0] in ('out', 'inout') and o[-1] is not None]
        m.ev('asm', tuple(m.stack), len(outs), t.get('opt', ''))
        if len(outs) > 1:
            raise AnalysisError('assembly with several results')
        for o in outs:
            ob, off, _ = m.place(fr, m.c_place(body, o[-1]))
            m.store(ob, off, m.P, Ptr(self.obj, 0))

    def fnptr(self, m, fv, args, opty, fty, t):
        m.ev('indirect', fv, fty, list(args), list(opty))
        if m.choose(2, 'callee unwinds') == 1:
            m.ev('unwinds')
            raise Unwind('callee')
        n = m.size(m.types[fty]['output'])
        self.retv = self.unknown(m, 'ret', None, m.types[fty]['output'])
        return self.retv if n else UNIT

    # -- helpers
    def fresh(self, m, e):
        m.scn = Quiet()
        self.retv = None
        self.ksize = words(m, e['k']) if 'k' in e else 0
        self.clo = Opaque('closure', None, self.ksize)
        self.obj = m.new_obj('heap', 'closure', None, 64)
        if self.ksize:
            self.obj.ch[0] = (self.ksize, self.clo)

    def unknown(self, m, tag, i, ty):
        """An arbitrary value of a type; references point to objects of their own."""
        n = m.size(ty)
        t = m.types[ty]
        if t['k'] in ('ref', 'ptr'):
            p = Ptr(m.new_obj('ext', f'{tag} {i}', None, 16), 0)
            return p if n == m.P else Blob(n, [(0, m.P, p), (m.P, m.P, Opaque(tag, i, m.P))])
        return Opaque(tag, i, n) if n else UNIT

    def opaque(self, m, i, ty):
        return self.unknown(m, 'arg', i, ty)

    def bare_type(self, mod):
        """The function-pointer type of a unit, and the type it is declared as."""
        m = self.m
        it = m.insts[m.roots[mod + '::root_ptr']]
        ty = it['inputs'][0]
        t = m.types[ty]
        if t['k'] == 'adt':
            t = m.types[t['variants'][0]['fields'][0]['ty']]
        if t['k'] != 'fnptr':
            raise AnalysisError(f'the bare function of {mod} is {t["name"]}')
        return t

    def sig(self, t):
        n = lambda ty: re.sub(r"'\w+ ?", '', re.sub(r"for<[^>]*> ?", '', self.m.types[ty]['name']))
        return t['abi'], [n(x) for x in t['inputs']], n(t['output']), bool(t['c_variadic'])


NUM = {1: 'consumed', 2: 'mutably borrowed', 3: 'borrowed'}


def judge_calls(run, e, m, rs, ev, args, out, rsize, direct, bad):
    """The rules about one path of a thunk or of a direct call."""
    kind, ks = e['kind'], run.ksize
    calls = [x for x in ev if x[0] == 'call']
    for x in ev:
        if x[0] == 'ub':
            bad('A02', 'memory', f'{x[1]} ({x[2]})')
        if x[0] == 'indirect':
            bad('A02', 'extra', 'calls an unknown function')
    asms = [x for x in ev if x[0] == 'asm' and x[2] == 1]
    if len(calls) != 1:
        bad('A02', 'count', f'calls the closure {len(calls)} times')
        return
    c = calls[0]
    if not direct:
        if ks and (len(asms) != 1 or ev.index(asms[0]) > ev.index(c)):
            bad('A02', 'data block', f'passes its data block {len(asms)} times before calling the closure')
        if not ks and asms:
            bad('A02', 'data block', 'has a data block although the closure is zero-sized')
    if c[2] != kind:
        bad('A02', 'mode', f'the closure is {NUM.get(c[2])} instead of {NUM[kind]}')
    if len(c[4]) != len(args):
        bad('A02', 'arguments', f'passes {len(c[4])} arguments instead of {len(args)}')
        return
    for i, (a, v) in enumerate(zip(args, c[4])):
        if a is not UNIT and not is_val(m, v, a, 1 if isinstance(a, Ptr) else a.size):
            bad('A02', 'arguments', f'argument {i} of the closure is {describe(v)} instead of the received one')
            break
    if ks and not is_val(m, c[6], run.clo, ks):
        bad('A02', 'closure', 'the called object is not the closure')
    if kind != 1 and not direct and ks:
        p = c[1]
        if not (isinstance(p, Ptr) and p.obj is run.obj and p.off == 0):
            bad('A02', 'location', 'the closure is not called at the location embedded in the code')
        if not is_val(m, m.load(run.obj, 0, ks), run.clo, ks):
            bad('A02', 'location', 'the closure object is modified by the thunk')
    drops = [x for x in ev if x[0] == 'drop']
    want = 1 if kind == 1 else 0
    if len(drops) != want:
        bad('A02', 'drops', f'the closure is destroyed {len(drops)} times by a call (expected {want})' + (' when it unwinds' if any(x[0] == 'unwinds' for x in ev) else ''))
    elif want and ks and not is_val(m, drops[0][2], run.clo, ks):
        bad('A02', 'drops', 'something else than the closure is destroyed')
    unw = any(x[0] == 'unwinds' for x in ev)
    if not unw:
        if rs[0] != 'ret':
            bad('A02', 'result', f'does not return although the closure does ({rs[1]})')
        elif rsize and not is_val(m, out, run.retv, rsize):
            bad('A02', 'result', f'returns {describe(out)} instead of the result of the closure')
    elif not direct:
        if UNWINDS(e['abi']) and rs[0] != 'unwind':
            bad('A01', 'unwinding', f'a panic of the closure does not leave the thunk although "{e["abi"]}" allows it')
        if not UNWINDS(e['abi']) and rs[0] == 'unwind':
            bad('A01', 'unwinding', f'a panic of the closure leaves the thunk although "{e["abi"]}" forbids it')


def describe(v):
    if isinstance(v, Opaque):
        return f'argument {v.d}' if v.tag == 'arg' else {'ret': 'the result', 'closure': 'the closure'}.get(v.tag, v.tag)
    return str(v)


def thunk_root(run, name, e, sink):
    m = run.m
    mod = name.split('::')[0]
    box = {}

    def go(m):
        run.fresh(m, e)
        p = m.run(m.roots[name], [])
        p = p if isinstance(p, Ptr) else m.to_ptr(p)
        if p is None or p.obj.kind != 'fn' or p.off != 0:
            box['ptr'] = p
            raise PathEnd('no thunk')
        box['inst'] = i = p.obj.info
        del m.events[:]
        it = m.insts[i]
        body = m.body(i)
        tys = body.locals[1:body.argc + 1]
        box['args'] = [run.opaque(m, k, t) for k, t in enumerate(tys)]
        box['rsize'] = m.size(body.locals[0])
        return m.run(i, list(box['args']))
    n = 0
    for rs in m.explore(go):
        n += 1
        run.r.n('paths')
        if 'inst' not in box:
            sink('A02', 'thunk', f'yields {box.get("ptr")} instead of a compiled thunk')
            return
        judge_calls(run, e, m, rs, m.events, box['args'], rs[1] if rs[0] == 'ret' else None, box['rsize'], False,
                    lambda p, k, t: sink(p, k, t))
        if e.get('after'):
            e['after'](box['inst'], m.events)
    it = m.insts[box['inst']]
    want, got = run.sig(run.bare_type(mod)), run.sig(it)
    run.r.n('thunks')
    if want != got:
        f = lambda s: f'extern "{s[0]}" fn({", ".join(s[1])}{", ..." if s[3] else ""}) -> {s[2]}'
        sink('A01', 'signature', f'the thunk is {f(got)} but is exposed as {f(want)}')
    elif want[0] != e['abi']:
        sink('A01', 'signature', f'the function type of this convention is extern "{want[0]}", not "{e["abi"]}"')
    return box['inst']


def direct_root(run, name, e, sink):
    m = run.m
    inst = m.roots[name]
    tt = m.insts[inst]['inputs'][0]
    box = {}

    def go(m):
        run.fresh(m, e)
        box['args'] = [run.opaque(m, k, t) for k, t in enumerate(m.types[tt]['fields'])]
        return m.run(inst, [m.make_struct(tt, box['args'])])
    for rs in m.explore(go):
        run.r.n('paths')
        judge_calls(run, e, m, rs, m.events, box['args'], rs[1] if rs[0] == 'ret' else None, m.size(m.insts[inst]['output']), True,
                    lambda p, k, t: sink('A03', k, t))


def call_root(run, name, e, sink):
    m = run.m
    inst = m.roots[name]
    fty, tt = m.insts[inst]['inputs']
    want = run.bare_type(name.split('::')[0])
    box = {}

    def go(m):
        run.fresh(m, e)
        box['f'] = m.new_obj('ext', 'callee', None, 1)
        box['args'] = [run.opaque(m, k, t) for k, t in enumerate(m.types[tt]['fields'])]
        return m.run(inst, [Ptr(box['f'], 0), m.make_struct(tt, box['args'])])
    for rs in m.explore(go):
        run.r.n('paths')
        cs = [x for x in m.events if x[0] == 'indirect']
        if len(cs) != 1:
            sink('A03', 'call', f'calls the function {len(cs)} times')
            return
        c = cs[0]
        p = c[1] if isinstance(c[1], Ptr) else m.to_ptr(c[1])
        if p is None or p.obj is not box['f'] or p.off != 0:
            sink('A03', 'call', 'calls another function')
        if run.sig(m.types[c[2]]) != run.sig(want):
            sink('A03', 'call', f'calls it as {m.types[c[2]]["name"]}')
        if len(c[3]) != len(box['args']):
            sink('A03', 'call', f'passes {len(c[3])} arguments instead of {len(box["args"])}')
            return
        for i, (a, v) in enumerate(zip(box['args'], c[3])):
            if a is not UNIT and not is_val(m, v, a, 1 if isinstance(a, Ptr) else a.size):
                sink('A03', 'call', f'argument {i} is {describe(v)}')
        n = m.size(m.insts[inst]['output'])
        if rs[0] == 'ret' and n and not is_val(m, rs[1], run.retv, n):
            sink('A03', 'call', f'returns {describe(rs[1])} instead of the result')
        if rs[0] != 'ret' and not any(x[0] == 'unwinds' for x in m.events):
            sink('A03', 'call', f'does not return ({rs[1]})')


def ptr_root(run, name, e, sink):
    m = run.m
    inst = m.roots[name]

    def go(m):
        run.fresh(m, e)
        run.f = m.new_obj('ext', 'callee', None, 1)
        return m.run(inst, [Ptr(run.f, 0)])
    for rs in m.explore(go):
        run.r.n('paths')
        v = rs[1] if rs[0] == 'ret' else None
        if isinstance(v, Blob) and len(v.f) == 1:
            v = v.f[0][2]
        p = v if isinstance(v, Ptr) else (m.to_ptr(v) if isinstance(v, Lin) else None)
        if p is None or p.obj is not run.f or p.off != 0:
            sink('A03', 'pointer', f'converting the function pointer yields {v}')


KIND = {'thunk': thunk_root, 'direct': direct_root, 'call': call_root, 'ptr': ptr_root}


def is_packed(e):
    return e['root'].startswith(('m_', 'd_', 'fof_', 'fdo_'))


def wanted(prop, e):
    """Which roots a property is about."""
    w = e['what']
    if prop == 'A03':
        return w in ('direct', 'call', 'ptr') or is_packed(e)
    if prop in ('A01', 'A02', 'F01'):
        return w == 'thunk'
    return w != 'type'


def belongs(prop, p, e):
    """Does breaking a rule of family p violate the property being decided?"""
    if prop == 'A03':
        return p in ('A02', 'A03')
    if prop == 'H01':
        return p != 'F01'
    return p == prop


def refusal(prop, e):
    """Is a program that should compile and does not a violation of this property?"""
    if prop == 'A03':
        return e['what'] in ('direct', 'call', 'ptr') or is_packed(e)
    if prop == 'A01':
        return e['what'] == 'type' or (e['what'] == 'thunk' and not is_packed(e))
    return prop == 'H01'


def run_crate(r, prop, cfg, crate, after=None):
    def name(key, e):
        return f'{key}:{e["root"]}:{e["name"]}@{cfg}'.replace(' ', '_')

    def refused(e, msg):
        if refusal(prop, e):
            r.bad(name('refused', e), f'{cfg}: {e["name"]} ({e["root"]}): this use is refused by the compiler: {msg[:400]}')
    run = Run(cfg, crate, r, refused)
    for root, e in crate.expect.items():
        if not wanted(prop, e):
            continue
        r.n('roots')
        r.seen('signatures', e['name'])
        if after:
            e['after'] = lambda inst, ev, e=e: after(run, r, e, inst, ev, name, cfg)

        def sink(p, key, text):
            if belongs(prop, p, e):
                r.bad(name(key, e), f'{cfg}: {e["name"]} ({e["root"]}): {text}')
        try:
            KIND[e['what']](run, root, e, sink)
        except AnalysisError as x:
            if len(r.errors) < 5:
                r.err(f'{cfg} {root} {e["name"]} {e["root"]}: {x} {getattr(x, "loc", "")}')
    r.n('crates')
    r.sample(f'{cfg}: {list(crate.expect.values())[0]["name"]}')
    return run


def builtin_job(r, prop, cfg, part, parts, variadic):
    run_crate(r, prop, cfg, w_abi.builtin(build.compiled(cfg), cfg.split('/')[0], part, parts, variadic), AFTER.get(prop))


def declared_job(r, prop, cfg, part, parts, few):
    run_crate(r, prop, cfg, w_abi.declared(build.compiled(cfg), cfg.split('/')[0], part, parts, few), AFTER.get(prop))


# ------------------------------------------------------------------------------------------ H01
def decl_cases():
    """Programs about what a declaration exposes: [(name, stage, must compile?, code)]"""
    out = []
    T = lambda d: f'closure_ffi::bare_hrtb! {{ {d} }}'

    def yes(n, code):
        out.append((n + ' (accepted)', '', True, code))

    def no(n, stage, code):
        out.append((n + ' (refused)', stage, False, code))
    LT = ['a', 'b', 'c']
    # projections keep the lifetimes at their places
    for k in (1, 2, 3):
        ls = LT[:k]
        for j in range(k):
            d = T(f"pub type F = for<{', '.join(chr(39) + l for l in ls)}> extern \"C\" fn({', '.join(f'&{chr(39)}{l} u{8 << i}' for i, l in enumerate(ls))}) -> &'{ls[j]} u8;")
            for i in range(3):
                f = f"pub fn p<'a, 'b, 'c>(r: <F as FnPtr>::Ret<'a, 'b, 'c>) -> &'{LT[i]} u8 {{ r }}"
                g = f"pub fn p<'a, 'b, 'c>(r: &'{LT[i]} u8) -> <F as FnPtr>::Ret<'a, 'b, 'c> {{ r }}"
                for nm, x in (('out', f), ('in', g)):
                    if i == j:
                        yes(f'result {k}/{j} {nm}', d + x)
                    else:
                        no(f'result {k}/{j} as {i} {nm}', 'borrow', d + x)
        d = T(f"pub type F = for<{', '.join(chr(39) + l for l in ls)}> extern \"C\" fn({', '.join(f'&{chr(39)}{l} u{8 << i}' for i, l in enumerate(ls))});")
        for j in range(k):
            for i in range(3):
                for nm, x in (('out', f"pub fn p<'a, 'b, 'c>(r: <F as FnPtr>::Args<'a, 'b, 'c>) -> &'{LT[i]} u{8 << j} {{ r.{j} }}"),):
                    if i == j:
                        yes(f'argument {k}/{j} {nm}', d + x)
                    else:
                        no(f'argument {k}/{j} as {i} {nm}', 'borrow', d + x)
    yes('no result', T('pub type F = extern "C" fn(u8);') + "pub fn p(r: <F as FnPtr>::Ret<'static, 'static, 'static>) { let () = r; }")
    yes('no arguments', T('pub type F = extern "C" fn() -> u8;') + "pub fn p(r: <F as FnPtr>::Args<'static, 'static, 'static>) { let () = r; }")
    # visibility of the type and of its marker
    for v, inside, outside in (('', True, False), ('pub ', True, True), ('pub(crate) ', True, True), ('pub(super) ', True, True), ('pub(in super) ', True, True), ('pub(self) ', True, False)):
        for what in ('F', 'F_CC'):
            c = f'mod inner {{ use super::*; {T(v + "type F = extern " + chr(34) + "C" + chr(34) + " fn(u8);")} '
            yes(f'{v or "private "}{what} from inside', c + f'fn q(x: {what}) {{}} }}')
            f = c + f'}} fn q(x: inner::{what}) {{}}'
            if outside:
                yes(f'{v}{what} from outside', f)
            else:
                no(f'{v or "private "}{what} from outside', 'alone', f)
    no('pub(super) type from further outside', 'alone', 'mod o { mod inner { ' + T('pub(super) type F = extern "C" fn(u8);') + ' } pub use inner::F; }')
    yes('pub type from further outside', 'mod o { mod inner { ' + T('pub type F = extern "C" fn(u8);') + ' } pub use inner::F; } pub fn q(x: o::F) {}')
    # attributes
    for a, use in (('#[derive(PartialEq)]', 'pub fn q(x: F, y: F) -> bool { x == y }'), ('#[derive(PartialEq, Eq, Hash)]', 'pub fn q<T: core::hash::Hash>() {} pub fn w() { q::<F>() }'),
                   ('#[derive(PartialEq, Eq, PartialOrd, Ord)]', 'pub fn q<T: Ord>() {} pub fn w() { q::<F>() }')):
        yes(f'attribute {a}', T(a + ' pub type F = extern "C" fn(u8) -> u8;') + use)
        no(f'no attribute {a}', 'type', T('pub type F = extern "C" fn(u8) -> u8;') + use)
    yes('cfg attribute', T('#[cfg_attr(any(), nonsense)] #[doc = "x"] /// y\n pub type F = extern "C" fn(u8) -> u8;') + 'pub fn q(x: F) {}')
    # generics, bounds and where clauses
    for n, g, w, good, bad in (('Copy', '<T: Copy>', '', 'u8', 'alloc::string::String'), ('where Copy', '<T>', 'where T: Copy', 'u8', 'alloc::string::String'), ('implicit Sized', '<T>', '', 'u8', 'str'),
                               ('relaxed', '<T: ?Sized>', '', 'str', None), ('two', '<T: Clone + Send>', '', 'u8', '*const u8'), ('static', "<T: 'static>", '', "&'static u8", None)):
        d = T(f'pub type F{g} {w} = extern "C" fn(*const T);')
        yes(f'bound {n}', d + f'pub fn q(x: F<{good}>) {{}}')
        yes(f'bound {n} marker', d + f'pub fn q() -> F_CC {{ F::<{good}>::cc() }}')
        if bad:
            no(f'bound {n}', 'type', d + f'pub fn q(x: F<{bad}>) {{}}')
    no('static bound', 'alone', T("pub type F<T: 'static> = extern \"C\" fn(*const T);") + "pub fn q<'x>(y: &'x u8) { let x: Option<F<&'x u8>> = None; }")
    yes('lifetime parameter', T("pub type F<'x> = extern \"C\" fn(&'x u8);") + "pub fn q<'x>(x: F<'x>, y: &'x u8) { unsafe { FnPtr::call(x, (y,)) } }")
    yes('several parameters', T("pub type F<'x, 'y, T: 'static, U: 'static> = for<'a> extern \"C\" fn(&'x T, &'y U, &'a T) -> &'a U;") +
        "pub fn q<'x, 'y, 'z>(f: F<'x, 'y, u8, u16>, a: &'x u8, b: &'y u16, c: &'z u8) -> &'z u16 { unsafe { FnPtr::call(f, (a, b, c)) } }")
    # the closure trait each kind asks for
    d = T('pub type F = for<\'a> extern "C" fn(&\'a u8) -> u8;')
    for W, ok in (('BareFnOnceAny', ('once', 'mut', 'shared')), ('BareFnMutAny', ('mut', 'shared')), ('BareFnAny', ('shared',))):
        for k, body in (('once', 'let s = alloc::string::String::new(); let c = move |x: &u8| -> u8 { drop(s); *x };'), ('mut', 'let mut n = 0u8; let c = move |x: &u8| -> u8 { n += *x; n };'),
                        ('shared', 'let n = 0u8; let c = move |x: &u8| -> u8 { n + *x };')):
            f = d + f'pub fn q() {{ {body} let w = {W}::<F, dyn Any, JBoth>::with_cc_in(F::cc(), c, JBoth::default()); }}'
            if k in ok:
                yes(f'{W} of a {k} closure', f)
            else:
                no(f'{W} of a {k} closure', 'type' if k == 'mut' else 'alone', f)
    no('marker of another type', 'type', d + 'mod o { ' + T('pub type G = for<\'a> extern "C" fn(&\'a u8) -> u8;') + ' } pub fn q() { let w = BareFnAny::<F, dyn Any, JBoth>::with_cc_in(o::G::cc(), |x: &u8| *x, JBoth::default()); }')
    no('built-in marker', 'type', d + 'pub fn q() { let w = BareFnAny::<F, dyn Any, JBoth>::with_cc_in(cc::C, |x: &u8| *x, JBoth::default()); }')
    no('closure of another signature', 'type', d + 'pub fn q() { let w = BareFnAny::<F, dyn Any, JBoth>::with_cc_in(F::cc(), |x: &u16| 3u8, JBoth::default()); }')
    no('closure with another result', 'type', d + 'pub fn q() { let w = BareFnAny::<F, dyn Any, JBoth>::with_cc_in(F::cc(), |x: &u8| 3u16, JBoth::default()); }')
    no('closure with another arity', 'type', d + 'pub fn q() { let w = BareFnAny::<F, dyn Any, JBoth>::with_cc_in(F::cc(), |x: &u8, y: &u8| 3u8, JBoth::default()); }')
    return out


def decl_job(r, prop, cfg, part, parts, x):
    info = build.compiled(cfg)
    cases = [c for k, c in enumerate(decl_cases()) if k % parts == part]
    res = rsq.judge(info, c_types.head(info), cases)
    for n, st, ok, c in cases:
        got, msg = res[n]
        r.n('programs')
        r.n('accepted' if ok else 'refused')
        if got != ok:
            r.bad(f'{n.replace(" ", "_")}@{cfg}', f'{cfg}: {"is refused: " + msg[0][1] if ok else "compiles"}: {c}')


# ------------------------------------------------------------------------------------------ F01
def f01_after(run, r, e, inst, ev, name, cfg):
    """Rules about what is compiled into a thunk before its data block."""
    m = run.m
    asms = [x for x in ev if x[0] == 'asm' and x[2] == 1]
    if not run.ksize:
        return
    if len(asms) != 1:
        return
    a = asms[0]
    if 'PURE' in a[3]:
        r.bad(name('pure', e), f'{cfg}: {e["name"]}: the data block may be moved or merged (pure assembly)')
    if cfg.endswith('/cov'):
        r.n('coverage')
        c = next((x for x in ev if x[0] == 'call'), None)
        if c and any(m.insts[i]['body']['coverage'] for i in c[5][len(a[1]):]):
            r.n('instrumented')
        for i in a[1]:
            if m.insts[i]['body']['coverage']:
                r.bad(name('instrumented', e), f'{cfg}: {e["name"]} ({e["root"]}): {m.insts[i]["path"]} is instrumented in front of the data block')
        return
    if '/nosafe' not in cfg:
        return
    c = next((x for x in ev if x[0] == 'call'), None)
    if c is None:
        return
    r.n('outlined')
    depth = len(a[1])
    inside = c[5][depth:]
    k = ev.index(a)
    # a frame below the closure that is never inlined and whose effects cannot be proven absent
    for j, i in enumerate(inside):
        if m.insts[i].get('inline') != 'Never':
            continue
        st = c[5][:depth + j + 1]
        if any(x[0] == 'asm' and 'PURE' not in x[3] and x[1] == st for x in ev[k + 1:ev.index(c)]) or any(x[0] == 'opaque' for x in ev[k + 1:ev.index(c)]):
            return
        r.bad(name('outline', e), f'{cfg}: {e["name"]} ({e["root"]}): {m.insts[i]["path"]} is not opaque to interprocedural optimisation')
        return
    r.bad(name('inlined', e), f'{cfg}: {e["name"]} ({e["root"]}): the closure may be inlined into the thunk in front of the data block')


AFTER = {'F01': f01_after}


# ------------------------------------------------------------------------------------------ checks
def mk(prop, plan):
    def run(tier, seed):
        js = []
        for kind, cfg, parts, x in plan:
            build.compiled(cfg)
            js += [({'b': builtin_job, 'd': declared_job, 'c': decl_job}[kind], (prop, cfg, p, parts, x)) for p in range(parts)]
        return framework.jobs(js)
    return run


STD = [('b', a + '/std', {'x86_64': 5, 'i686': 7, 'win32': 5}.get(a, 3), False) for a in ARCHS + ['win64', 'win32']]
VAR = [('b', 'x86_64/nightly', 1, True)]
ASSUME = ['foreign code and the modelled standard library behave as in lib/models.py', 'the assembly block yields the address embedded in the generated code (decided by M03)']
RULE = ('Abstract interpretation of the MIR of generated client programs: every convention of every target, 0 to 12 arguments of pairwise different types (and other shapes), all three kinds, zero-sized and sized closures. '
        'Callables, arguments and results are unknown values whose identity is tracked; each path (normal and unwinding) of each root is judged. ')
SPEC = {
    'A01': dict(run=mk('A01', STD + VAR), floors={'roots': 21000, 'thunks': 21000}, assumptions=ASSUME,
                rule=RULE + 'Rule: the function a constructor, marker or template yields has exactly the ABI, argument types, result and variadicity of the function-pointer type, that type has the ABI its marker names, '
                            'unwinding leaves the thunk iff the ABI allows it, and every constructor accepts the function type it is named after.'),
    'A02': dict(run=mk('A02', STD + VAR), floors={'roots': 21000, 'paths': 42000}, assumptions=ASSUME,
                rule=RULE + 'Rule: the closure is called exactly once, in the right mode, at the embedded location, with the received values in order; the result is returned as it is; '
                            'consumed closures are destroyed exactly once and borrowed ones not at all.'),
    'A03': dict(run=mk('A03', STD + VAR), floors={'roots': 20000, 'paths': 40000}, assumptions=ASSUME,
                rule=RULE + 'Rule: generic calls reach the very pointer given, as its own type, with the arguments in order; pointer conversions are identities; packed-argument thunks, factories and direct calls forward like thunks.'),
    'H01': dict(run=mk('H01', [('d', a + '/std', 4, False) for a in ARCHS] + [('d', 'x86_64/nightly', 4, True), ('d', 'x86_64/nosafe', 4, True), ('d', 'win64/std', 2, True), ('d', 'win32/std', 2, True)] +
                       [('c', 'x86_64/std', 4, None), ('c', 'x86_64/nightly', 4, None)]), floors={'roots': 36000, 'programs': 240}, assumptions=ASSUME,
                rule=RULE + 'Here the function types come from declarations over all ABIs, arities up to 14, up to three lifetimes and generics. Rule: all rules of A01, A02 and A03, conversions are identities between exactly the declared '
                            'types, and programs about projections, visibility, attributes and bounds compile exactly if the declaration says so.'),
    'F01': dict(run=mk('F01', [('b', 'x86_64/nightly/cov', 5, False), ('b', 'x86_64/nightly/cov', 1, True), ('d', 'x86_64/nightly/cov', 3, True)] +
                       [('b', a + '/nosafe', 4, False) for a in ARCHS if a != 'i686'] + [('d', a + '/nosafe', 2, True) for a in ARCHS if a != 'i686']),
                floors={'coverage': 2500, 'instrumented': 50, 'outlined': 9000}, assumptions=ASSUME,
                rule=RULE + 'Rule: no function on the call stack at the data block is instrumented for coverage; without relocation, a frame that is never inlined and opaque to optimisation separates the data block from the closure.'),
}
