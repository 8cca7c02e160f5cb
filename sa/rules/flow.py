"""C19, C21-C23, C25, C29: flow of secrets, errors, encodings and effects."""
import itertools
from ..proto import *
from .. import spec, evalt
from ..spec import inv
from ..mir import tkey, subst_ty
from .runs import *
from . import verdicts as V
from .agree import protocol_runs, poly_runs, describe
from .basic import run_setup, STRUCT, srs_parts, chain, uses


# ---------------------------------------------------------------------- call sites in the MIR
def ops(x):
    """operands anywhere inside a dumped statement or terminator"""
    if isinstance(x, dict):
        if isinstance(x.get('k'), dict) or 'k' not in x and ('c' in x or 'm' in x):
            yield x
        return
    if isinstance(x, list):
        for y in x:
            yield from ops(y)


def mentions(body):
    """(callee description, span, is a call) of every function mentioned in a body"""
    for st, term, cleanup in body.blocks:
        for s in st:
            if s[0] == '=':
                for o in ops(s[2]):
                    f = o.get('k', {}).get('fn') if 'k' in o else None
                    if f:
                        yield f, s[3], False
        if term[0] == 'call':
            f = term[1].get('k', {}).get('fn') if 'k' in term[1] else None
            if f:
                yield f, term[5], True
            for o in ops(term[2]):
                g = o.get('k', {}).get('fn') if 'k' in o else None
                if g:
                    yield g, term[5], False


def closures_in(ty):
    if ty.get('k') == 'closure':
        yield ty['d'] if 'd' in ty else ty.get('p')
    for x in ty.get('a', []) or []:
        if isinstance(x, dict):
            yield from closures_in(x)
    if isinstance(ty.get('t'), dict):
        yield from closures_in(ty['t'])


def callees(prog, body):
    """ids of workspace bodies a body may enter"""
    for st, term, cleanup in body.blocks:
        for s in st:
            if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'closure':
                yield s[2][1][1]
    for f, _, _ in mentions(body):
        for k in ('r', 'd'):
            if f.get(k) in prog.bodies:
                yield f[k]
                break
        else:
            # a trait method: every workspace implementation
            tr, n = f.get('trait'), f.get('n')
            for i in prog.trait_impls.get(tr, []) if tr else ():
                d = dict((a, c) for a, c in i['items'])
                if n in d and d[n] in prog.bodies:
                    yield d[n]


def reachable(prog, roots):
    seen, todo = set(), [r for r in roots]
    while todo:
        i = todo.pop()
        if i in seen or i not in prog.bodies:
            continue
        seen.add(i)
        todo += list(callees(prog, prog.bodies[i]))
    return seen


def instances(prog, roots):
    """(body, types standing for its generic parameters) entered from the roots"""
    seen, todo = set(), [(r, {}) for r in roots]
    while todo:
        i, env = todo.pop()
        key = (i, tkey(env))
        if key in seen or i not in prog.bodies or len(seen) > 4000:
            continue
        seen.add(key)
        b = prog.bodies[i]
        yield b, env
        for c in callees(prog, b):
            todo.append((c, env if c in prog.bodies and prog.bodies[c].kind == 'closure' else {}))
        for f, _, _ in mentions(b):
            c = prog.bodies.get(f.get('d'))
            if c is not None and not f.get('trait'):
                todo.append((c.id, dict(zip(c.gn, [subst_ty(x, env) for x in f.get('a', [])]))))


def has(ty, pred):
    if pred(ty):
        return True
    return any(has(x, pred) for x in list(ty.get('a', []) or []) + ([ty['t']] if isinstance(ty.get('t'), dict) else []) if isinstance(x, dict))


# ---------------------------------------------------------------------- C29
GLOBAL_CELLS = ('std::thread::LocalKey',)


def C29(R, labs, deep):
    for cfg, lab in labs.items():
        R.cfg = cfg
        prog = lab.prog
        rule = 'no unsafe code'
        for u in prog.unsafe_blocks:
            R.check(rule, u['span'], not u['user'], 'an unsafe block', u['span'])
        for b in prog.bodies.values():
            R.check(rule, b, not b.unsafe, 'an unsafe function')
        for i in prog.impls:
            if 'unsafe' in i:
                R.check(rule, i['span'], not i['unsafe'], 'an unsafe implementation of %s' % i.get('trait'), i['span'])
        for kind, path, span in prog.unsafe_items:
            R.violate(rule, path, 'an %s' % kind, span)
        rule = 'no hidden global state'
        for s in prog.statics:
            R.check(rule, s['path'], not s['mut'] and s.get('freeze', True) and not s.get('tls', False),
                    'a %s' % ('mutable static' if s['mut'] else 'thread-local static' if s.get('tls') else 'static with interior mutability (%s)' % s.get('ty')), s['span'])
        for b in prog.bodies.values():
            bad = None
            for f, span, call in mentions(b):
                if f['p'].startswith('std::thread::LocalKey') or 'thread::local' in f['p']:
                    bad = (f['p'], span)
                elif f['n'] in ('leak', 'transmute', 'transmute_copy', 'from_raw_parts', 'from_raw_parts_mut') and f['p'].startswith(('std::', 'core::', 'alloc::')):
                    bad = (f['p'], span)
            ty = next((s[3] for st, term, c in b.blocks for s in st if s[0] == '=' and s[2][0] == 'cast' and 'Transmute' in s[2][1] and not b.expn), None)
            R.check(rule, b, bad is None, 'uses %s' % (bad and bad[0]), bad and bad[1])
            R.check('no reinterpretation of memory', b, ty is None, 'a transmute', ty)


# ---------------------------------------------------------------------- C25
SOURCES = [('a clock', ('std::time::Instant::now', 'std::time::SystemTime::now', 'std::time::Instant::elapsed', 'std::time::SystemTime::elapsed')),
           ('the environment', ('std::env::var', 'std::env::args', 'std::env::vars', 'std::env::current', 'std::env::home', 'std::env::temp', 'std::process::id')),
           ('the identity of the running thread', ('std::thread::current', 'rayon::current_thread_index', 'rayon_core::current_thread_index',
                                                   'rayon_core::thread_pool::current_thread_index', 'std::thread::Thread::id')),
           ('a file or socket', ('std::fs::', 'std::net::', 'std::io::stdin', 'std::process::Command'))]
RNGS = ('thread_rng', 'OsRng', 'ThreadRng', 'from_entropy', 'from_os_rng', 'getrandom', 'test_rng', 'RandomState')


def source(f):
    for p in (f['p'], f.get('rp') or ''):
        for what, pre in SOURCES:
            if p.startswith(pre):
                return what
        for s in RNGS:
            if s in p:
                return 'its own randomness (%s)' % s
        if p in ('rand::random', 'rand::prelude::random', 'ark_std::rand::random'):
            return 'its own randomness'
    if f['n'] in ('sample', 'gen', 'rand', 'new', 'default') and any(has(a, lambda z: z.get('k') == 'adt' and any(s in z['p'] for s in RNGS)) for a in f.get('a', [])):
        return 'its own randomness'
    return None


ORDERED = ('next', 'nth', 'last', 'collect', 'zip', 'enumerate', 'take', 'skip', 'step_by', 'find', 'find_map', 'position', 'fold', 'reduce', 'for_each', 'chain', 'take_while',
           'skip_while', 'map_while', 'scan', 'unzip', 'try_fold', 'try_for_each', 'partition', 'rposition', 'peekable', 'chunks', 'next_chunk')


def hash_order(b):
    """a use of the order in which a randomly keyed hash table lists its elements"""
    hits, keyed, sorts = [], False, False
    for f, span, call in mentions(b):
        a = f.get('a', [])
        keyed = keyed or any(has(x, lambda z: z.get('k') == 'adt' and z['p'].endswith('RandomState')) for x in a)
        sorts = sorts or f['n'].startswith('sort')
        if call and a and f['n'] in ORDERED and has(a[0], lambda z: z.get('k') == 'adt' and z['p'].startswith(('std::collections::hash_', 'std::collections::hash::'))):
            if f['n'] != 'collect' or not has(a[-1], lambda z: z.get('k') == 'adt' and z['p'].startswith(('std::collections::Hash', 'std::collections::BTree', 'std::collections::BinaryHeap'))):
                hits.append((f['p'], span))
    return hits[0] if hits and keyed and not sorts else None


SHARED = ('std::sync::atomic::', 'std::sync::Mutex', 'std::sync::RwLock', 'std::sync::mpsc', 'std::sync::poison', 'core::sync::atomic')


def C25(R, labs, deep):
    for cfg, lab in labs.items():
        R.cfg = cfg
        prog = lab.prog
        rule = 'no dependence on clock, environment, thread identity or own randomness'
        for b in prog.bodies.values():
            bad = None
            for f, span, call in mentions(b):
                w = source(f)
                if w:
                    bad = (w, f['p'], span)
            R.check(rule, b, bad is None, 'reads %s through %s' % (bad and bad[0], bad and bad[1]), bad and bad[2])
            h = hash_order(b)
            R.check('no dependence on the order of a randomly keyed hash table', b, h is None, 'uses the order of a hash table through %s' % (h and h[0]), h and h[1])
        rule = 'no mutable state shared between parallel closures'
        par_ = set()
        for b in prog.bodies.values():
            for f, span, call in mentions(b):
                if call and 'rayon' in f['p']:
                    for a in f.get('a', []):
                        par_ |= set(closures_in(a))
        inside = reachable(prog, par_)
        for i in sorted(inside):
            b = prog.bodies[i]
            bad = None
            for f, span, call in mentions(b):
                if f['p'].startswith(SHARED):
                    bad = (f['p'], span)
            R.check(rule, b, bad is None, 'a parallel closure uses %s' % (bad and bad[0]), bad and bad[1])
    values(R, labs, deep)


def sched_runs(lab, seed, deep):
    yield from protocol_runs(lab, [1, 2, 4, 8, 16] if deep else [1, 2, 4, 8], seed, 0, deep)
    yield from protocol_runs(lab, [2, 4], seed, 2)
    yield from poly_runs(lab, seed, 0, deep)


def run_values(r):
    """everything observable of an honest run: commitment, proof, verdict"""
    out = []
    if hasattr(r, 'commit'):
        try:
            out.append(('commitment', plain(r.s.env, r.commit())))
        except Stuck as e:
            out.append(('commitment', e.kind))
    try:
        out.append(('proof', plain(r.s.env, r.prove())))
    except Stuck as e:
        return out + [('proof', e.kind)]
    out.append(('verdict', repr(r.verify())))
    return out


def values(R, labs, deep):
    rule = 'same result for every number of threads and schedule'
    grid = [(1, 0), (1, 1), (2, 0), (3, 1), (5, 0), (8, 1)] + ([(th, sc) for th in (4, 7, 16, 33) for sc in (0, 1)] if deep else [])
    runs = zip(*[[(cfg, make) for make in sched_runs(lab, R.seed * 13, deep)] for cfg, lab in labs.items()])
    groups = {}
    for ms in runs:
        groups.setdefault(ms[0][1]().name, []).append(ms)

    def one(r, ms):
        cross = {}
        for cfg, make in ms:
            r.cfg = cfg

            def go():
                base = None
                for th, sc in grid:
                    x = make()
                    x.s.env.ints['threads'] = th
                    x.s.env.ints['sched'] = sc
                    v = run_values(x)
                    if base is None:
                        base = cross[cfg] = v
                        continue
                    d = [a[0] for a, b in zip(base, v) if a != b]
                    r.check(rule, x.s.fns[0], base == v, 'the %s depends on how the work is split (%d threads, schedule %d)' % (d[:1], th, sc), describe(x))
                if len(cross) == 2:
                    p, q = cross.values()
                    d = [a[0] for a, b in zip(p, q) if a != b]
                    r.check('same result with and without parallelism', x.s.fns[0], p == q, 'the %s differs between the parallel and the sequential build' % d[:1], describe(x))
            r.guard(rule, 'honest run', go)
    R.spread([('', lambda r, g=g: [one(r, ms) for ms in g]) for g in groups.values()])


C25.whole = True


# ---------------------------------------------------------------------- C21
def rounds_grid(deep):
    for n in (1, 2, 4, 8) + ((16,) if deep else ()):
        for l in range(0, 7 if deep else 6):
            yield n, l


def malformed(lab, fd):
    """(path, generics, lengths for (n, rounds), matching?) of the verifiers that know the key size"""
    gs = lambda a, n: {(a, ('f', 0)): n}
    st = lambda a: pv(a, fd.steps)
    yield GIPA + 'verify', GENERIC, lambda n, l: {('a0', ('f', 0)): n, ('a0', ('f', 1)): n, st('a2'): l}
    yield GSSM + 'verify_with_structured_scalar_message', ['IP', 'LMC', 'IPC', 'D'], lambda n, l: {('a0', ('f', 0)): n, st('a3'): l}
    yield SIPP + 'verify', ['E', 'D'], lambda n, l: {('a0',): n, ('a1',): n, ('a2',): n, pv('a4', fd.sipp): l} if n > 1 else None
    yield TIPA + 'verify', GENERIC6, lambda n, l: {pv('a3', fd.t_gipa, fd.steps): l}
    yield TIPA + 'verify_with_srs_shift', GENERIC6, lambda n, l: {pv('a3', fd.t_gipa, fd.steps): l}
    yield TSSM + 'verify_with_structured_scalar_message', ['IP', 'LMC', 'IPC', 'P', 'D'], lambda n, l: {pv('a4', fd.s_gipa, fd.steps): l}


def C21(R, labs, deep):
    for cfg, lab in labs.items():
        R.cfg = cfg
        fd = fields(lab)
        rule = 'a proof with any number of rounds is handled without a panic'
        for path, gens, lens in malformed(lab, fd):
            for z in (0, 2):
                for n, l in rounds_grid(deep):
                    L = lens(n, l)
                    if L is None or ('tipa' in path and n > 1):
                        continue
                    def go():
                        fn = lab.fn(path, gens, strict=True)
                        k, v = outcome(fn, Env(R.seed, lens=L, zeros=z))
                        smp = {'key size': n, 'rounds': l}
                        if fn.unmodelled:
                            R.undecided(rule, fn, 'no contract for %s' % sorted(fn.unmodelled)[:3])
                            return
                        R.check(rule, fn, k == ERR or (k == OK and v is False), 'verification %s' % ('panics' if k == PANIC else 'accepts a proof of random elements'), smp)
                    R.guard(rule, path, go)
            R.guard('work linear in key and proof', path, lambda: work(R, lab, path, gens, lens))
        V.no_mismatch(R, lab, deep)
        rule = 'the smallest instance is proved and verified without a panic'
        for mk_ in (GipaRun, TipaRun, GssmRun, TssmRun, G16Run):
            for z in (0, 2):
                R.guard(rule, mk_.name, lambda: smallest(R, rule, mk_(lab, 1, R.seed, z)))
        R.guard(rule, TipaRun.name, lambda: smallest(R, rule, TipaRun(lab, 1, R.seed, 0, shift=False)))
        rule = 'the degree split is defined for every degree'
        for cls in (UniRun, TUniRun):
            for deg in list(range(0, 34)) + ([63, 64, 100, 255, 256, 1000] if deep else []):
                def go():
                    path = cls.mod + 'UnivariatePolynomialCommitment::setup'
                    s = Sess(lab, R.seed, ints={('deg',): deg})
                    f = lab.fn(path, ['P', 'D', 'R'], args=[param('rng'), param('deg')], key='setup', strict=True)
                    s.fns.append(f)
                    k, v = outcome(f, s.env)
                    if f.unmodelled:
                        return R.undecided(rule, f, 'no contract for %s' % sorted(f.unmodelled)[:3])
                    R.check(rule, f, k == OK, 'setup for degree %d fails (%s)' % (deg, k), {'degree': deg})
                R.guard(rule, cls.name, go)
            for deg, d in ((0, 0), (0, 1), (1, 1), (1, 2), (2, 1)):
                R.guard(rule, cls.name, lambda: smallest(R, rule, cls(lab, deg, d, R.seed, 0)))


def smallest(R, rule, r):
    r.s.strict = True
    try:
        if hasattr(r, 'commit'):
            r.commit()
        r.prove()
        k, v = r.verify()
    except Stuck as e:
        return R.violate(rule, e.path, 'fails (%s) on the smallest instance' % e.kind, describe(r))
    R.check(rule, r.s.fns[-1], k != PANIC, 'verification panics on the smallest instance', describe(r))


CAP = 6000


def work(R, lab, path, gens, lens):
    """trips of every loop and size of every buffer, for proofs that claim far too many (or too few) rounds"""
    rule = 'work linear in key and proof'
    fn = lab.fn(path, gens, strict=True)
    entries = [closed(*e[:3]) + e[3:] for e in fn.work if not isinstance(e[3], tuple)]
    for n, l in ((2, 0), (4, 24), (4, 40), (2, 63), (2, 64), (2, 70), (64, 1)):
        L = lens(n, l)
        if L is None:
            continue
        env = Env(R.seed, lens=L)
        lim = 32 * (n + l + 4) + 1024
        worst = None
        for lv, sz, pc, where in entries:
            try:
                c = cost(env, lv, sz, pc, lim)
            except (Opaque, Undef, RecursionError):
                continue
            if c > lim and (worst is None or c > worst[0]):
                worst = (c, where)
        R.check(rule, fn, worst is None, 'more than %d steps in %s for a proof with %d rounds against a key of size %d' % (lim, worst and worst[1], l, n),
                {'key size': n, 'rounds': l, 'loops': len(fn.work)})


def closed(lv, sz, pc):
    """loop variables of one entry replaced by bound variables of their own"""
    m = {kv: t.bv(1000 + i) for i, (kv, c, g) in enumerate(lv)}
    S = lambda x: t.subst(x, m)
    return [(m[kv], S(c), tuple(S(y) for y in g)) for kv, c, g in lv], None if sz is None else S(sz), tuple(S(y) for y in pc)


def cost(env, lv, sz, pc, lim):
    ev = Ev(env)
    tot = 0

    def holds(cs, B):
        return all(ev.bool(c, B) for c in cs)

    def go(i, B):
        nonlocal tot
        if tot > lim:
            return
        if i == len(lv):
            if sz is not None and holds(pc, B):
                tot += ev.ev(sz, B)
            return
        kv, cond, g = lv[i]
        if not holds(g, B):
            return
        k = 0
        while tot <= lim and k <= lim:
            B2 = dict(B)
            B2[kv] = k
            if not ev.bool(cond, B2):
                return
            if i == len(lv) - 1 and sz is None:
                tot += 1
            else:
                tot += 0 if i < len(lv) - 1 or sz is not None else 1
                go(i + 1, B2)
            k += 1
        if k > lim:
            tot = lim + 1
    go(0, {})
    return tot


# ---------------------------------------------------------------------- C22
def fault_runs(lab, seed, deep):
    for n in (1, 2, 4) if deep else (1, 2):
        yield lambda n=n: GipaRun(lab, n, seed, checked=True)
        yield lambda n=n: GipaRun(lab, n, seed)
        yield lambda n=n: TipaRun(lab, n, seed)
        yield lambda n=n: TipaRun(lab, n, seed, shift=False)
        yield lambda n=n: GssmRun(lab, n, seed)
        yield lambda n=n: TssmRun(lab, n, seed)
        yield lambda n=n: G16Run(lab, n, seed)
    yield lambda: SippRun(lab, 2, seed)
    yield lambda: KzgRun(lab, 3, 3, seed)
    for nx, ny, ds in ((2, 2, [2, 2]), (1, 2, [2])):
        yield lambda nx=nx, ny=ny, ds=ds: BivRun(lab, nx, ny, ds, seed)
        yield lambda nx=nx, ny=ny, ds=ds: TBivRun(lab, nx, ny, ds, seed)
    yield lambda: UniRun(lab, 3, 4, seed)
    yield lambda: TUniRun(lab, 3, 4, seed)


def step(r, name):
    """(kind, value) of one step of an honest run"""
    try:
        v = getattr(r, name)()
        return v if name == 'verify' else (OK, v)
    except Stuck as e:
        return e.kind, None


def C22(R, labs, deep):
    evalt.FAULTS[0] = True
    rule = 'a failing step never yields success'
    jobs = []
    for cfg, lab in labs.items():
        groups = {}
        for make in fault_runs(lab, R.seed * 3 + 1, deep):
            m = make()
            groups.setdefault((m.name, getattr(m, 'checked', 0), getattr(m, 'shift', 0)), []).append(make)
        # the slow ones first
        for k in sorted(groups, key=lambda k: (not k[0].startswith('Groth'), not k[0].startswith('bi'), not k[0].startswith('uni'), k)):
            jobs.append((cfg, lambda r, cfg=cfg, ms=groups[k]: [r.guard(rule, 'honest run', lambda: faulted(r, rule, make)) for make in ms]))
        jobs.append((cfg, lambda r, lab=lab: degenerate(r, lab, deep)))
        # a check that fails is never reported as a success: an accepted input satisfies every equation of every sub-check
        for f in (V.C01, V.C02, V.C03, V.C04, V.C05, V.C06):
            def verdict(r, f=f, cfg=cfg, lab=lab):
                evalt.FAULTS[0] = False
                try:
                    f(r, {cfg: lab}, False)
                finally:
                    evalt.FAULTS[0] = True
            jobs.append((cfg, verdict))
    R.spread(jobs)


C22.whole = True


class Faulty:
    """a laboratory in which every fallible operation may fail"""

    def __init__(self, lab):
        self.lab = lab

    def __getattr__(self, k):
        return getattr(self.lab, k)

    def fn(self, path, gens=None, args=None, key=None, **kw):
        return self.lab.fn(path, gens, args, key, faults=True, **kw)


def verifier_scenes(lab):
    for l in (0, 1):
        yield GIPA + 'verify', lambda: V.gipa_scene(lab, 1 << l, l)
        for sh in (0, 1):
            yield TIPA + 'verify', lambda: V.tipa_scene(lab, l, sh)
        yield GSSM + 'verify', lambda: V.gssm_scene(lab, 1 << l, l)
        yield TSSM + 'verify', lambda: V.tssm_scene(lab, l)
        yield G16 + 'verify_aggregate_proof', lambda: V.g16_scene(lab, 1 << l, 2, l)
        yield PC + 'BivariatePolynomialCommitment::verify', lambda: V.bivariate_scene(lab, l)
        yield PC + 'UnivariatePolynomialCommitment::verify', lambda: V.bivariate_scene(lab, l, 1)
        yield TR + 'verify', lambda: V.transparent_scene(lab, 1 << l, 2, False)
        yield TR + 'verify', lambda: V.transparent_scene(lab, 1 << l, 2, True)
    yield PC + 'KZG::verify', lambda: V.kzg_scene(lab)
    yield SIPP + 'verify', lambda: V.sipp_scene(lab, 2)


def degenerate(R, lab, deep):
    """inputs for which every comparison of the verifier succeeds: a failing step is still no reason to accept"""
    rule = 'a failing step never makes a degenerate input accepted'
    for path, make in verifier_scenes(Faulty(lab)):
        def go():
            sc = make()
            if sc.fn.unmodelled:
                R.undecided(rule, sc.fn, 'no contract for %s' % sorted(sc.fn.unmodelled)[:3])
                return
            for level, own in ((0, 0), (1, 1), (None, 0), (1, 0)) + (((0, 1), (2, 2), (None, 1)) if deep else ()):
                def env(failing):
                    e = sc.env({a: own for a in sc.atoms})
                    e.level, e.failing = level, failing
                    return e
                base = env(None)
                try:
                    outcome(sc.fn, base)
                except Undef:
                    continue
                for key in sorted(base.faults, key=repr):
                    e = env(key)
                    try:
                        ok = sc.accepts(e)
                    except Undef:
                        continue
                    R.check(rule, sc.fn, ok is not True or not e.faults.get(key), 'an input is accepted although %s failed' % key[0],
                            dict(sc.sample, failing=key[0], claims=own, everything_else=level if level is not None else 'random field elements'))
        R.guard(rule, path, go)


def faulted(R, rule, make):
    probe = make()
    names = (['commit'] if hasattr(probe, 'commit') else []) + ['prove', 'verify']
    done = []
    for name in names:
        def upto(failing):
            r = make()
            r.s.faults = True
            for x in done:
                if x == 'prove':
                    step(r, x)
            # the steps before ran without failure; this one starts from a fresh evaluation of the same assignment
            e = r.s.env
            f = Env(e.seed, lens=dict(e.lens), nums=dict(e.nums), ints=dict(e.ints), zeros=e.zeros, binds=dict(e.binds))
            r.s.env = f
            f.failing = failing
            k, v = step(r, name)
            return r, k, v
        r, k, v = upto(None)
        if k != OK:
            R.undecided(rule, r.s.fns[-1] if r.s.fns else name, '%s of an honest run: %s' % (name, k))
            return
        fn = r.s.fns[-1]
        seen = dict(r.s.env.faults)
        run_, part, some = executed(r.s.env, fn)
        keys = set(run_) | {q for q in seen if q in part or q[0] in some}
        for key in sorted(keys, key=repr):
            smp = dict(describe(r), failing=key[0])
            if key not in seen:
                R.violate(rule, fn, '%s ignores whether %s fails' % (name, key[0]), smp)
                continue
            r2, k2, v2 = upto(key)
            bad = k2 == OK and (name != 'verify' or v2 is not False)
            R.check(rule, fn, not bad, '%s %s although %s failed' % (name, 'accepts' if name == 'verify' else 'returns a result', key[0]), smp)
        done.append(name)


def executed(env, fn):
    """the fallible operations performed for sure in this run, and the names of those that may be performed where the outcome asks"""
    out, part, names_ = set(), set(), set()
    for lv, f, pc, where in fn.work:
        if not isinstance(where, tuple):
            continue
        lv, f, pc = closed(lv, f, pc)
        try:
            if any(x.vars for x in (f,) + pc):
                raise Opaque('inside a closure')
            for full, key in trips(Ev(env), lv, f, pc):
                (out if full else part).add(key)
        except (Opaque, Undef, RecursionError):
            names_.add(where[1])
    return out, part, names_


def trips(ev, lv, f, pc):
    """a trip that does not reach the end of the loop body may or may not get to the operation"""
    def go(i, B, full):
        if i == len(lv):
            if all(ev.bool(c, B) for c in pc):
                yield full, (f.args[0], ev.canon(ev.ev(f.args[1], B)))
            return
        kv, cond, g = lv[i]
        if not all(ev.bool(c, B) for c in g):
            return
        for k in range(400):
            B2 = dict(B)
            B2[kv] = k
            more = ev.bool(cond, B2)
            yield from go(i + 1, B2, full and more)
            if not more:
                return
        raise Opaque('too many trips')
    yield from go(0, {}, True)


# ---------------------------------------------------------------------- C23
SER, DES, VALID = 'ark_serialize::CanonicalSerialize', 'ark_serialize::CanonicalDeserialize', 'ark_serialize::Valid'
PROOFS = ('GIPAProof', 'TIPAProof', 'TIPAWithSSMProof')
COMPRESS, VALIDATE = 'ark_serialize::Compress', 'ark_serialize::Validate'


def data_fields(prog, ty, path=()):
    """access paths of the data a value of this type holds; types of this workspace are looked into"""
    if ty.get('k') == 'adt' and ty['p'].endswith('::PhantomData'):
        return
    a = prog.adts.get(ty['p']) if ty.get('k') == 'adt' else None
    if a and len(a['variants']) == 1:
        for i, f in enumerate(a['variants'][0][1]):
            yield from data_fields(prog, f[1], path + (i,))
        return
    if ty.get('k') == 'tuple' and ty['a']:
        for i, x in enumerate(ty['a']):
            yield from data_fields(prog, x, path + (i,))
        return
    yield path, ty


def at(x, path):
    for i in path:
        x = t.fld(x, i)
    return x


def impls_of(lab, trait):
    for i in lab.prog.trait_impls.get(trait, []):
        if i['self'].get('k') == 'adt' and i['self']['p'] in lab.prog.adts:
            yield i


def method(lab, i, name):
    d = dict(i['items'])
    return lab.prog.bodies.get(d.get(name))


def C23(R, labs, deep):
    for cfg, lab in labs.items():
        R.cfg = cfg
        prog = lab.prog
        rule = 'a copy equals the original in every field'
        for i in impls_of(lab, 'std::clone::Clone'):
            b = method(lab, i, 'clone')
            if b is None:
                continue
            R.guard(rule, b, lambda: copy_ok(R, rule, lab, i, b))
        for trait, kind in ((SER, 'written'), (DES, 'read')):
            have = {i['self']['p'].split('::')[-1] for i in impls_of(lab, trait)}
            for p in PROOFS:
                if p not in have:
                    R.violate('encodings exist', p, '%s is not implemented' % trait)
                else:
                    R.held('encodings exist', p)
        for i in impls_of(lab, SER):
            R.guard('encoding', i['self']['p'], lambda: encoding(R, lab, i))


def copy_ok(R, rule, lab, i, b):
    if b.expn:
        R.held(rule, b, 'derived')
        return
    f = lab.fn_of(b)
    if f.unmodelled:
        return R.undecided(rule, b, 'no contract for %s' % sorted(f.unmodelled)[:3])
    fields_ = list(data_fields(lab.prog, i['self']))
    for seed in (1, 2):
        def env():
            return Env(seed, lens={'default': lambda p: 3})
        k, _ = outcome(f, env())
        if not R.check(rule, b, k == OK, 'copying fails (%s)' % k):
            return
        for path, ty in fields_:
            e = env()
            x, y = at(A(0), path), at(f.value, path)
            ev = Ev(e)
            if x is y:
                R.held(rule, b, path)
                continue
            R.check(rule, b, whole(e, x, ty) == whole(e, y, ty), 'field %s of the copy differs from the original' % names(lab, i['self'], path), path)


def names(lab, ty, path):
    out = []
    for i in path:
        if ty.get('k') == 'tuple':
            out.append(str(i))
            ty = ty['a'][i]
            continue
        a = lab.prog.adts.get(ty['p'])
        f = a['variants'][0][1][i]
        out.append(f[0])
        ty = f[1]
    return '.'.join(out)


def whole(e, x, ty):
    """canonical content of a field"""
    ev = Ev(e)
    v = ev.ev(x)
    if ty.get('k') == 'adt' and ty['p'].endswith('::Vec'):
        return tuple(repr(ev.canon(y)) for y in ev.seq(v))
    return ev.canon(ev.num(v)) if isinstance(v, Opq) else ev.canon(v)


def items(x):
    """concatenated pieces of a sequence term"""
    if x.op == 'nil' or x is t.NIL:
        return []
    if x.op == 'cat':
        return [z for y in x.args for z in items(y)]
    if x.op == 'list':
        return list(x.args)
    return [x]


def encoding(R, lab, i):
    prog = lab.prog
    ty = i['self']
    leaves = list(data_fields(prog, ty))
    sm, zm = method(lab, i, 'serialize_with_mode'), method(lab, i, 'serialized_size')
    di = next((j for j in impls_of(lab, DES) if j['self']['p'] == ty['p']), None)
    vi = next((j for j in impls_of(lab, VALID) if j['self']['p'] == ty['p']), None)
    vm = vi and method(lab, vi, 'check')
    bm = vi and method(lab, vi, 'batch_check')
    me = param('self')
    for mode, tag in ((0, 'c'), (1, 'u')):
        cm = mk('adt', COMPRESS, mode)
        rule = 'every field is written, once, in the chosen mode'
        f = lab.fn_of(sm, [me, t.NIL, cm], ('ser', mode), cellargs=(1,))
        if f.unmodelled:
            return R.undecided(rule, sm, 'no contract for %s' % sorted(f.unmodelled)[:3])
        e = Env(1, lens={'default': lambda p: 2})
        k, v = outcome(f, e)
        if not R.check(rule, sm, k == OK, 'writing fails (%s)' % k):
            return
        w = items(f.muts[1])
        order = []
        for x in w:
            if x.op != 'ser':
                return R.undecided(rule, sm, 'writes something other than a field (%s)' % x.op)
            p = next((p for p, _ in leaves if at(me, p) is x.args[1]), None)
            if p is None:
                return R.undecided(rule, sm, 'writes a computed value')
            order.append(p)
            R.check('every field is written, once, in the chosen mode', sm, x.args[0] == tag, 'field %s is written in another mode than requested' % names(lab, ty, p), {'mode': tag})
        for p, _ in leaves:
            R.check('every field is written, once, in the chosen mode', sm, order.count(p) == 1, 'field %s is written %d times' % (names(lab, ty, p), order.count(p)), {'mode': tag})
        # writing errors
        g = lab.fn_of(sm, [me, t.NIL, cm], ('ser', mode), cellargs=(1,), faults=True)
        swallow(R, 'a failing field makes writing, reading and checking fail', sm, g)
        rule = 'the announced size is the sum over the written fields'
        z = lab.fn_of(zm, [me, cm], ('size', mode))
        if z.unmodelled:
            R.undecided(rule, zm, 'no contract for %s' % sorted(z.unmodelled)[:3])
        else:
            want = t.ZERO
            for p in order:
                want = t.add(want, mk('sersize', tag, at(me, p)))
            e = Env(1, lens={'default': lambda p: 2})
            k, v = outcome(z, e)
            R.check(rule, zm, k == OK and Ev(e).num(v) == Ev(e).ev(want), 'the announced size is not the sum of the sizes of the written fields', {'mode': tag})
        if di is None:
            continue
        dm = method(lab, di, 'deserialize_with_mode')
        for val in (0, 1):
            rule = 'reading returns every field as written, in the chosen modes'
            d = lab.fn_of(dm, [param('R0'), cm, mk('adt', VALIDATE, val)], ('de', mode, val), cellargs=(0,))
            if d.unmodelled:
                R.undecided(rule, dm, 'no contract for %s' % sorted(d.unmodelled)[:3])
                continue
            got = t.pay(d.value, 0, 0)
            F_ = lab.fn_of(dm, [param('R0'), cm, mk('adt', VALIDATE, val)], ('de', mode, val), cellargs=(0,), faults=True)
            swallow(R, 'a failing field makes writing, reading and checking fail', dm, F_)
            for p, _ in leaves:
                x = at(got, p)
                if x.op != 'de':
                    R.undecided(rule, dm, 'field %s is not read directly' % names(lab, ty, p))
                    continue
                n, st = 0, x.args[0]
                while st.op == 'rd':
                    n, st = n + 1, st.args[0]
                smp = {'field': names(lab, ty, p), 'mode': tag, 'validate': val == 0}
                if R.check(rule, dm, n < len(order) and order[n] == p, 'field %s is read from the position of another field' % names(lab, ty, p), smp):
                    R.check(rule, dm, x.args[1] == tag, 'field %s is read in another mode than requested' % names(lab, ty, p), smp)
                    if x.args[2] is not (val == 0):
                        checked = val == 0 and sensitive(F_, 'check', x)
                        R.check(rule, dm, checked, 'field %s is read %s validation although the caller asked %s it' % (
                            names(lab, ty, p), 'with' if val else 'without', 'not to do' if val else 'for'), smp)
    for m in (vm, bm):
        if m is None:
            continue
        rule = 'checking covers every field'
        one = m is vm
        c = lab.fn_of(m, [me] if one else [mk('it', mk('dseq', t.lst(me, param('other'))), t.ZERO)], 'check', faults=True)
        if c.unmodelled:
            R.undecided(rule, m, 'no contract for %s' % sorted(c.unmodelled)[:3])
            continue
        for p, _ in leaves:
            R.check(rule, m, sensitive(c, 'check', at(me, p)) or sensitive(c, 'batch_check', at(me, p)), 'a value with an invalid field %s passes the check' % names(lab, ty, p), names(lab, ty, p))


def mentions_value(ev, key, want):
    """does the key of a fallible operation contain this value?"""
    def go(x):
        if x == want:
            return True
        return isinstance(x, tuple) and any(go(y) for y in x)
    return go(key)


def sensitive(f, op, leaf):
    """the call fails when the operation `op` fails on this value"""
    e = Env(1, lens={'default': lambda p: 2})
    k, _ = outcome(f, e)
    if k != OK:
        return False
    want = Ev(e).canon(Ev(e).ev(leaf))
    keys = [q for q in e.faults if q[0] == op and mentions_value(None, q[1], want)]
    for q in keys:
        e2 = Env(1, lens={'default': lambda p: 2})
        e2.failing = q
        if outcome(f, e2)[0] == OK:
            return False
    return bool(keys)


def swallow(R, rule, body, f):
    e = Env(1, lens={'default': lambda p: 2})
    k, _ = outcome(f, e)
    for q in sorted(e.faults, key=repr):
        e2 = Env(1, lens={'default': lambda p: 2})
        e2.failing = q
        R.check(rule, body, outcome(f, e2)[0] != OK, 'success although %s of a field failed' % q[0], q[0])


# ---------------------------------------------------------------------- C19
def scalars(prog, ty, v, e, env=None, depth=0, path=()):
    """(access path, value) of everything in a result that is not a group element"""
    ty = prog.norm_ty(ty, env or {})
    k = ty.get('k')
    ev = Ev(e)
    if depth > 8:
        return
    if k in ('ref', 'ptr'):
        yield from scalars(prog, ty['t'], v, e, None, depth + 1, path)
    elif k == 'tuple':
        for i, x in enumerate(ty['a']):
            yield from scalars(prog, x, proof_part(e, v, i, False), e, None, depth + 1, path + (str(i),))
    elif k in ('slice', 'array'):
        for j, y in enumerate(ev.seq(v)):
            yield from scalars(prog, ty['t'], y, e, None, depth + 1, path + (str(j),))
    elif k == 'adt':
        p = ty['p']
        if p.endswith(('::PhantomData', '::PairingOutput', '::Affine', '::Projective', 'SSMPlaceholderCommitment', 'HomomorphicPlaceholderValue', 'SSMDummyType')):
            return
        if p.endswith('::Vec'):
            for j, y in enumerate(ev.seq(v)):
                yield from scalars(prog, ty['a'][0], y, e, None, depth + 1, path + (str(j),))
            return
        if p.endswith('::Box'):
            yield from scalars(prog, ty['a'][0], v, e, None, depth + 1, path)
            return
        a = prog.adts.get(p)
        if a and len(a['variants']) == 1:
            m = dict(zip(a.get('gn', []), ty.get('a', [])))
            for i, f in enumerate(a['variants'][0][1]):
                yield from scalars(prog, f[1], proof_part(e, v, i, True), e, m, depth + 1, path + (f[0],))
            return
        yield path, v
    elif k == 'proj' and ty['n'] in ('G1', 'G2', 'G1Affine', 'G2Affine', 'G1Prepared', 'G2Prepared', 'Group', 'Key', 'Output', 'LeftMessage', 'RightMessage', 'Message', 'TargetField'):
        return
    elif k == 'param' and ty['n'] in ('G', 'G1', 'G2', 'P'):
        return
    else:
        yield path, v


def proof_part(e, v, i, adt):
    if isinstance(v, St):
        if v.tag == 'tup':
            return v.a[i]
        if v.tag == 'adt':
            return v.a[2 + i]
    if isinstance(v, Opq):
        return Opq(v.path + (('f', i),))
    if isinstance(v, tuple):
        return v[i]
    raise Opaque('part %d of %r' % (i, type(v).__name__))


def secret_type(ty):
    return has(ty, lambda z: z.get('k') == 'proj' and z['n'] in ('ScalarField', 'BigInt') or z.get('k') == 'adt' and z['p'].endswith(('::BigInt', '::Fp')))


def C19(R, labs, deep):
    for cfg, lab in labs.items():
        R.cfg = cfg
        prog = lab.prog
        small = {'size': (1, 2, 3), 'deg': (1, 3), 'x': (1, 2), 'y': (1,)}
        for path, gens, kind in STRUCT:
            names_ = {'tipa': ['size'], 'srs': ['size'], 'kzg': ['deg'], 'biv': ['x', 'y'], 'uni': ['deg']}[kind]
            for vals in itertools.product(*[small[n] for n in names_]):
                ints = list(zip(names_, vals))
                R.guard('no trapdoor in the result', path, lambda: trapdoor(R, lab, path, gens, kind, ints))
        rule = 'no trapdoor reaches a sink'
        roots = []
        for path, gens, kind in STRUCT:
            try:
                roots.append(lab.find(path).id)
            except Missing as e:
                R.violate(rule, str(e), 'public item the property is anchored on is missing')
        for b, env in instances(prog, roots):
            bad = None
            for f, span, call in mentions(b):
                p = f['p']
                if p.startswith(('core::fmt::rt::Argument', 'std::fmt::rt::Argument')) and any(secret_type(subst_ty(a, env)) for a in f.get('a', [])):
                    bad = ('formats a secret scalar', span)
                if p.startswith(('std::fs::', 'std::net::', 'std::process::Command', 'std::env::set_var', 'std::os::')):
                    bad = ('calls ' + p, span)
                if f['n'].startswith('serialize_') and f.get('a') and secret_type(f['a'][0]) and f['a'][0].get('k') != 'param' and len(f['a']) > 1 and \
                        has(f['a'][1], lambda z: z.get('k') == 'adt' and z['p'].startswith(('std::fs', 'std::net', 'std::io::Std', 'std::io::stdio'))):
                    bad = ('writes a secret scalar', span)
            R.check(rule, b, bad is None, 'setup %s' % (bad and bad[0]), bad and bad[1])


def trapdoor(R, lab, path, gens, kind, ints):
    s, k, v = run_setup(lab, path, gens, ints, R.seed)
    s2, k2, v2 = run_setup(lab, path, gens, ints, R.seed, rng=1)
    fn = s.fns[0]
    smp = dict(ints)
    if k != OK or k2 != OK:
        return R.undecided('no trapdoor in the result', fn, 'setup fails (%s)' % k)
    rt = fn.body.locals[0]
    if rt.get('k') == 'adt' and rt['p'].endswith('::Result'):
        rt = rt['a'][0]
    rule = 'no trapdoor in the result'
    one = list(scalars(lab.prog, rt, v, s.env))
    two = list(scalars(lab.prog, rt, v2, s2.env))
    R.check(rule, fn, len(one) == len(two), 'the shape of the result depends on the randomness', smp)
    for (p, x), (q, y) in zip(one, two):
        a, b = Ev(s.env).canon(x), Ev(s2.env).canon(y)
        R.check(rule, fn, a == b, 'the part %s of the result is not a group element and depends on the secret randomness' % '.'.join(p), smp)
    R.held(rule, fn, dict(smp, non_group_parts=len(one)))
    rule = 'trapdoors are full-size draws from the caller'
    e = s.env
    gp, hp, gb, ha, want = srs_parts(fields(lab), kind, ints, v, e)
    g2, h2, gb2, ha2, _ = srs_parts(fields(lab), kind, ints, v2, s2.env)
    if not (gp and hp and gp[0] and hp[0]):
        return R.undecided(rule, fn, 'no generator')
    dv = {modp(x): (q, ty) for q, (ty, x) in e.draws.items()}
    ch = chain(e, 8 + 2 * (len(e.draws) + sum(e.keycalls.values())))
    dig = candidates(e)
    for what, x, y in (('alpha', ha * inv(hp[0]) % P, ha2 * inv(h2[0]) % P), ('beta', gb * inv(gp[0]) % P, gb2 * inv(g2[0]) % P)):
        R.check(rule, fn, x != y, 'the trapdoor %s does not depend on the caller\'s randomness' % what, smp)
        R.check(rule, fn, x not in dig, 'the trapdoor %s is derived from a hash' % what, smp)
        if x in dv:
            q, ty = dv[x]
            src = e.rngsrc.get(q, q)
            R.check(rule, fn, not (isinstance(ty, str) and '"prim"' in ty), 'the trapdoor %s is drawn as a machine integer' % what, smp)
            if src in ch:
                R.held(rule, fn, smp)
            else:
                st = e.streams.get(src)
                h = st is not None and any(mentions_value(None, st, z) for z in e.hashed)
                if h:
                    R.violate(rule, fn, 'the trapdoor %s comes from a generator seeded with a hash' % what, smp)
                else:
                    R.undecided(rule, fn, 'trapdoor %s drawn from another source' % what)
        else:
            R.undecided(rule, fn, '%s: trapdoor %s of unknown origin' % (smp, what))
