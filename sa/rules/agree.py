"""Honest runs and Fiat-Shamir: C07 (prover), C08, C09, C10, C11, C12, C28, C33."""
import itertools
from ..proto import *
from .. import spec
from ..spec import inv
from . import verdicts as V
from .runs import *


def guard(R, rule, what, thunk):
    """like Report.guard; a prover that fails on an honest input is reported by the caller through Stuck"""
    return R.guard(rule, what, thunk)


def everywhere(R, rule, make, f):
    """the rule on one kind of honest run, and on its inputs for which the code has a special case"""
    probe(R, rule, 'honest run', lambda: f(make))


def vcode(r):
    return r.s.fns[-1] if r.s.fns else r.name


# ---------------------------------------------------------------------- the protocols
def protocol_runs(lab, sizes, seed, zeros, big=False):
    """constructors of honest runs of every interactive argument"""
    for n in sizes:
        yield lambda n=n: GipaRun(lab, n, seed, zeros)
        yield lambda n=n: TipaRun(lab, n, seed, zeros)
        yield lambda n=n: GssmRun(lab, n, seed, zeros)
        yield lambda n=n: TssmRun(lab, n, seed, zeros)
        if n > 1:
            yield lambda n=n: SippRun(lab, n, seed, zeros)
        if n <= 4 or big:
            yield lambda n=n: G16Run(lab, n, seed, zeros)


def big_runs(lab, seed, deep):
    for c in (GipaRun, TipaRun, GssmRun, TssmRun, SippRun, G16Run):
        for n in big_sizes(lab, c.paths, deep):
            yield lambda c=c, n=n: c(lab, n, seed)


def big_polys(lab, seed, deep):
    """polynomials of many coefficients"""
    for c in (BivRun, TBivRun):
        for n in big_sizes(lab, c.paths, deep):
            if n <= 1024:
                yield lambda c=c, n=n: c(lab, n, 2, [2] * n, seed)
                yield lambda c=c, n=n: c(lab, 2, n, [n, n], seed)
    for c in (UniRun, TUniRun):
        # the quotient of a long polynomial costs the square of its length here
        for d in sorted({64, 100} | ({200, 500} if deep else set()) | {n for n in near(lab, c.paths, 300 if c is UniRun else 2100) if n > 16}):
            yield lambda c=c, d=d: c(lab, d - 1, d, seed)
            yield lambda c=c, d=d: c(lab, d + 1, d, seed)


def poly_runs(lab, seed, zeros, deep=False):
    for n, d in ((1, 1), (2, 2), (5, 3), (4, 1), (4, 0)):
        yield lambda n=n, d=d: KzgRun(lab, n, d, seed, zeros)
    shapes = [(1, 1, [1]), (1, 4, [4]), (2, 2, [2, 2]), (2, 4, [4, 3]), (2, 4, [2]), (4, 2, [2, 0, 1]), (2, 3, [3, 1])]
    if deep:
        shapes += [(8, 4, [4] * 8), (4, 8, [8, 8, 8, 8]), (8, 2, [1, 2, 0, 2, 1]), (2, 16, [16, 9])]
    for nx, ny, ds in shapes:
        yield lambda nx=nx, ny=ny, ds=ds: BivRun(lab, nx, ny, ds, seed, zeros)
        if ny & (ny - 1) == 0:
            yield lambda nx=nx, ny=ny, ds=ds: TBivRun(lab, nx, ny, ds, seed, zeros)
    degs = [(0, 1), (1, 2), (2, 3), (3, 2), (5, 6), (15, 16)] + ([(30, 31), (63, 60), (100, 101)] if deep else [])
    for deg, d in degs:
        yield lambda deg=deg, d=d: UniRun(lab, deg, d, seed, zeros)
        yield lambda deg=deg, d=d: TUniRun(lab, deg, d, seed, zeros)


def describe(r):
    d = {'protocol': r.name, 'retries': bool(r.zeros), 'seed': r.seed}
    for k in ('n', 'nx', 'ny', 'degs', 'deg', 'd', 'checked', 'shift', 'special'):
        if hasattr(r, k):
            d[k] = getattr(r, k)
    return d


# ---------------------------------------------------------------------- C33 completeness
def complete(R, rule, make):
    r = None

    def go():
        nonlocal r
        r = make()
        try:
            r.prove()
            k, v = r.verify()
        except Stuck as e:
            R.violate(rule, e.path, 'the prover fails (%s) on a valid statement' % e.kind, describe(r))
            return
        R.check(rule, r.s.fns[-1], k == OK and v is True, 'an honestly generated proof is not accepted (%s)' % (k if k != OK else v), describe(r))
    R.guard(rule, 'honest run', go)


def special(make, nums):
    """an honest run on a special input: chosen coordinates are fixed before the claim is computed"""
    def f():
        r = make(nums)
        return r
    return f


def C33(R, labs, deep):
    rule = 'honest proof accepted'
    large = 'honest proof of a large statement accepted'
    jobs = []
    for cfg, lab in labs.items():
        def small(r, lab=lab, z=0):
            for s in range(3 if deep else 1):
                for mk_ in protocol_runs(lab, [1, 2, 4, 8, 16, 32] if deep else [1, 2, 4, 8], r.seed * 11 + s, z, deep):
                    complete(r, rule, mk_)
                for mk_ in poly_runs(lab, r.seed * 11 + s, z, deep):
                    complete(r, rule, mk_)
            for n in (1, 2, 4):
                complete(r, rule, lambda: GipaRun(lab, n, r.seed, z, checked=True))
                complete(r, rule, lambda: TipaRun(lab, n, r.seed, z, shift=False))

        def cases(r, lab=lab):
            for mk_ in list(protocol_runs(lab, [1, 2, 4], r.seed, 0, True)) + list(poly_runs(lab, r.seed, 0)):
                everywhere(r, rule, mk_, lambda m: complete(r, 'honest proof of a special case accepted', m))
            for mk_ in special_runs(lab, r.seed):
                complete(r, 'honest proof of a degenerate statement accepted', mk_)
        jobs += [(cfg, lambda r, f=f: f(r)) for f in (cases, small)] + [(cfg, lambda r, f=small, z=z: f(r, z=z)) for z in (2, 3)]
        for ms in by_class(list(big_polys(lab, R.seed, deep)) + list(big_runs(lab, R.seed, deep))):
            jobs.append((cfg, lambda r, ms=ms: [complete(r, large, m) for m in ms]))
    R.spread(jobs)


C33.whole = True


def by_class(makes):
    """runs of one protocol together; smaller inputs come first"""
    g = {}
    for m in makes:
        g.setdefault(m.__defaults__[0], []).append(m)
    return list(g.values())


def fixed(cls, over, what):
    """subclass of a run whose environment has some inputs pinned (matching is by parameter name and index)"""
    class X(cls):
        special = what

        def vec(self, name, n):
            for i in range(n):
                if name in over:
                    self.s.env.nums[(name, ix(i))] = F(over[name](i))
            return cls.vec(self, name, n)
    X.__name__ = cls.__name__
    return X


def special_runs(lab, seed):
    zero, one = (lambda i: 0), (lambda i: 1)
    alt = lambda i: i % 2
    for n in (1, 2, 4):
        for what, over in (('left message all zero', {'ma': zero}), ('messages all equal', {'ma': one, 'mb': one}), ('right message zero', {'mb': zero}),
                           ('left message half zero', {'ma': alt})):
            yield lambda n=n, o=over, w=what: fixed(GipaRun, o, w)(lab, n, seed)
            yield lambda n=n, o=over, w=what: fixed(TipaRun, o, w)(lab, n, seed)
        for what, over in (('message all zero', {'ma': zero}), ('message all equal', {'ma': one})):
            yield lambda n=n, o=over, w=what: fixed(GssmRun, o, w)(lab, n, seed)
            yield lambda n=n, o=over, w=what: fixed(TssmRun, o, w)(lab, n, seed)
        if n > 1:
            for what, over in (('zero coefficients', {'r': zero}), ('zero elements', {'a': alt}), ('all zero', {'a': zero, 'b': zero})):
                yield lambda n=n, o=over, w=what: fixed(SippRun, o, w)(lab, n, seed)
    for v in (0, 1, P - 1):
        for n in (1, 2, 4):
            yield lambda v=v, n=n: pick(GssmRun, {('sb',): v}, 'scalar %d' % (v if v < 2 else -1))(lab, n, seed)
            yield lambda v=v, n=n: pick(TssmRun, {('sb',): v}, 'scalar %d' % (v if v < 2 else -1))(lab, n, seed)
        yield lambda v=v: pick(KzgRun, {('z',): v}, 'point %d' % (v if v < 2 else -1))(lab, 4, 3, seed)
        for c in (BivRun, TBivRun):
            yield lambda v=v, c=c: pick(c, {('x',): v}, 'x %d' % (v if v < 2 else -1))(lab, 2, 4, [4, 2], seed)
            yield lambda v=v, c=c: pick(c, {('y',): v}, 'y %d' % (v if v < 2 else -1))(lab, 2, 4, [4, 2], seed)
        for c in (UniRun, TUniRun):
            yield lambda v=v, c=c: pick(c, {('z',): v}, 'point %d' % (v if v < 2 else -1))(lab, 3, 4, seed)
    # polynomials with zero coefficients
    for c in (BivRun, TBivRun):
        yield lambda c=c: pick(c, {('coef', i, j): 0 for i in range(2) for j in range(4)}, 'zero polynomial')(lab, 2, 4, [0, 0], seed)
        yield lambda c=c: pick(c, {('coef', 0, 0): 0, ('coef', 1, 1): 0}, 'zero coefficients')(lab, 2, 4, [4, 3], seed)
    for c in (UniRun, TUniRun):
        yield lambda c=c: pick(c, {}, 'zero polynomial')(lab, 3, 0, seed)
        yield lambda c=c: pick(c, {('coef', 0): 0, ('coef', 1): 0}, 'low coefficients zero')(lab, 3, 4, seed)


def pick(cls, over, what):
    class X(cls):
        special = what

        def __init__(self, *a, **k):
            self._over = over
            cls.__init__(self, *a, **k)

        def build(self):
            rnd = self.rnd
            self.rnd = lambda *k: self._over[k] if k in self._over else rnd(*k)
            cls.build(self)
    X.__name__ = cls.__name__
    return X


# ---------------------------------------------------------------------- C08
def inputs(env):
    return set(env.cands), set(env.draws)


def show_diff(a, b):
    return {'prover only': len(a - b), 'verifier only': len(b - a), 'common': len(a & b)}


def same_challenges(R, rule, make):
    def go():
        r = make()
        try:
            r.prove()
        except Stuck as e:
            R.undecided(rule, e.path, 'prover: %s' % e)
            return
        c1, d1 = inputs(r.s.env)
        f = r.s.fork()
        try:
            k, v = r.verify(f)
        except Stuck as e:
            R.undecided(rule, e.path, 'verifier: %s' % e)
            return
        c2, d2 = inputs(f.env)
        vf = f.fns[-1]
        same = c1 == c2 and d1 == d2
        if getattr(r, 'n', 2) == 1 and not same:
            # the quotient of a constant key polynomial is zero whatever the point: the prover's value need not read it
            same = c1 <= c2 and d1 <= d2
        R.check(rule, vf, same, 'prover and verifier derive challenges from different inputs (%s)' % show_diff(c1 | d1, c2 | d2), describe(r))
    R.guard(rule, 'challenge derivation', go)


def c08_transcript(R, lab, n, seed, zeros):
    rule = 'published verifier challenges equal the prover\'s'

    def go():
        r = GipaRun(lab, n, seed, zeros)
        try:
            r.prove()
        except Stuck as e:
            R.undecided(rule, e.path, str(e))
            return
        aux = Ev(r.s.env).fldv(r.aux, fields(lab).aux_tr) if isinstance(r.aux, Opq) else r.aux.a[2 + fields(lab).aux_tr]
        xs = nums(r.s.env, aux)
        f = r.s.fork()
        k, v = f.call(GIPA + 'verify_recursive_challenge_transcript', GENERIC, [r.coms, param('pf')], 'run')
        ys = nums(f.env, v.a[1]) if k == OK else None
        R.check(rule, f.fns[-1], xs == ys, 'the verifier\'s challenges differ from the prover\'s', describe(r))
    R.guard(rule, 'challenge derivation', go)


def C08(R, labs, deep):
    rule = 'prover and verifier hash the same inputs'
    for cfg, lab in labs.items():
        R.cfg = cfg
        for z in (0, 2, 3):
            for s in range(4 if deep else 2):
                sd = R.seed * 13 + s
                for mk_ in protocol_runs(lab, [1, 2, 4, 8, 16, 32] if deep else [1, 2, 4, 8], sd, z, deep):
                    if z == 0 and s == 0:
                        everywhere(R, rule, mk_, lambda m: same_challenges(R, rule, m))
                    else:
                        same_challenges(R, rule, mk_)
                for n in (1, 2, 4, 8):
                    c08_transcript(R, lab, n, sd, z)
        for mk_ in big_runs(lab, R.seed, deep):
            same_challenges(R, rule, mk_)
        for z in (0, 2):
            # the value derived is the value used: prover's openings and verifier's equations are at the hashed candidate
            for n in (2, 4, 8):
                openings_at_candidate(R, lab, TipaRun, n, R.seed, z)
                openings_at_candidate(R, lab, TssmRun, n, R.seed, z)
            for l in (0, 1, 2):
                R.guard('verifier uses the derived challenge', TIPA, lambda: soundness(R, 'verifier uses the derived challenge', V.tipa_scene(lab, l, True, R.seed), z))
                R.guard('verifier uses the derived challenge', TSSM, lambda: soundness(R, 'verifier uses the derived challenge', V.tssm_scene(lab, l, R.seed), z))


def proof_field(env, v, *path):
    ev = Ev(env)
    for i in path:
        if isinstance(v, St) and v.tag == 'adt':
            v = v.a[2 + i]
        elif isinstance(v, St) and v.tag == 'tup':
            v = v.a[i]
        elif isinstance(v, Opq):
            v = Opq(v.path + (('f', i),))
        elif isinstance(v, St) and v.tag == 'setf':
            v = ev.fldv(v, i)
        else:
            raise Opaque('shape of a proof')
    return v


def openings_at_candidate(R, lab, cls, n, seed, zeros):
    """the prover's KZG openings of the final keys verify at a challenge it hashed for"""
    rule = 'prover opens the final keys at the derived challenge'
    fd = fields(lab)

    def go():
        r = cls(lab, n, seed, zeros)
        try:
            r.prove()
        except Stuck as e:
            R.undecided(rule, e.path, str(e))
            return
        e = r.s.env
        pf_ = e.binds['pf']
        tipa = cls is TipaRun
        gp = proof_field(e, pf_, fd.t_gipa if tipa else fd.s_gipa)
        s2 = Sess(lab, e.seed, zeros)
        e.binds['gp'] = gp
        if tipa:
            k, v = r.s.call(GIPA + 'verify_recursive_challenge_transcript', GENERIC, [r.coms, param('gp')], 'gp')
        else:
            k, v = r.s.call(GIPA + 'verify_recursive_challenge_transcript', ['IP', 'LMC', ssm_of('LMC'), 'IPC', 'D'], [t.tup(param('ca'), param('sb'), param('ct')), param('gp')], 'gp')
        fn = r.s.fns[0]
        if k != OK:
            R.undecided(rule, fn, 'challenges')
            return
        xs = nums(e, v.a[1])
        xi = [inv(x) for x in xs]
        vs = V.vs_paths(lab, ('vs',))
        num = lambda *p: number(e, proof_field(e, pf_, *p))
        rr = spec.num(e, ('r',)) if tipa else 1
        if tipa:
            good = any(V.kzg_ok(e, vs, 'h', num(fd.t_ck, 0), num(fd.t_pi, 0), xi, inv(rr), z) == 0 and
                       V.kzg_ok(e, vs, 'g', num(fd.t_ck, 1), num(fd.t_pi, 1), xs, 1, z) == 0 for z in candidates(e))
        else:
            good = any(V.kzg_ok(e, vs, 'h', num(fd.s_ck), num(fd.s_pi), xi, 1, z) == 0 for z in candidates(e))
        R.check(rule, fn, good, 'no derived challenge is the point at which the final keys are opened', describe(r))
    R.guard(rule, 'prover', go)


# ---------------------------------------------------------------------- C09
class Items:
    """a verifier, the items each of its challenges has to bind, and how many challenges precede each item"""

    def __init__(self, fn, lens, name, ints=None):
        self.fn, self.lens, self.name, self.ints = fn, lens, name, ints or {}
        self.items = []        # (label, paths to change together, number of earlier challenges, key)
        self.kinds = 'verdict'

    def add(self, label, paths, before, key=None, later_only=None):
        self.items.append((label, paths, before, key))


def derive(it, seed, over=None):
    e = Env(seed, lens=dict(it.lens), nums={k: F(v) for k, v in (over or {}).items()}, ints=dict(it.ints))
    k, v = outcome(it.fn, e)
    if it.kinds == 'verdict':
        # read every conjunct of the acceptance condition, so that no challenge is skipped because an earlier check fails
        try:
            Ev(e).residuals(accept_term(it.fn), {})
        except Undef:
            pass
    return e, k


def bump(e, p):
    return (modp(e.num(p)) + 12345677) % P


def binding(R, rule, it, seed):
    def go():
        if it.fn.unmodelled:
            raise Opaque('no contract for %s' % sorted(it.fn.unmodelled)[:3])
        e0, k0 = derive(it, seed)
        c0, d0 = inputs(e0)
        s0 = c0 | d0
        if not s0:
            R.undecided(rule, it.fn, '%s: no challenge observed (%s)' % (it.name, k0))
            return
        for label, paths, before, key in it.items:
            over = {p: bump(e0, p) for p in paths}
            e1, k1 = derive(it, seed, over)
            c1, d1 = inputs(e1)
            common = len(s0 & (c1 | d1))
            smp = {'verifier': it.name, 'changed': label, 'challenges': len(s0), 'unaffected': common, 'allowed': before}
            if common > before:
                R.violate(rule, it.fn, '%s: %d challenge(s) do not depend on %s' % (it.name, common - before, label), smp, key and finding(it.fn, key))
            elif common < before:
                R.violate('challenges read only earlier messages', it.fn, '%s: an earlier challenge depends on %s' % (it.name, label), smp, key)
            else:
                R.held(rule, it.fn, smp)
    R.guard(rule, it.name, go)


def finding(fn, key):
    """known findings are identified by the verifier and the item its challenges leave out"""
    q = fn.path.split('::')
    return '%s/%s' % ('::'.join(x.split('<')[0] for x in q[1:] if x and not x.startswith('<')), key)


PART = ['left', 'right', 'inner-product']


def gipa_items(it, steps, l, parts=(0, 1, 2), extra=0):
    """rounds are stored last round first: entry k is preceded by l-1-k challenges"""
    for k in range(l):
        for o in (0, 1):
            for p in parts:
                path = steps + (ix(k), ('f', o), ('f', p))
                it.add('the %s %s cross term of round %d' % (['first', 'second'][o], PART[p], l - 1 - k),
                       [path], l - 1 - k + extra)


def C09(R, labs, deep):
    rule = 'challenge binds every earlier message'
    few = {1, 2, 3, 4, 5, 8} if deep else {1, 2, 3, 5}
    for cfg, lab in labs.items():
        R.cfg = cfg
        fd = fields(lab)
        ls = sorted(few | {c + d for c in literals(lab, *TipaRun.paths, *TssmRun.paths, *GipaRun.paths, *GssmRun.paths, *G16Run.paths) if 4 <= c <= 8 for d in (0, 1)})
        for s in range(2 if deep else 1):
            sd = R.seed * 17 + s
            for l in ls:
                def gipa():
                    st = pv('a2', fd.steps)
                    it = Items(lab.fn(GIPA + 'verify', GENERIC), {pv('a0', 0): 1 << l, pv('a0', 1): 1 << l, st: l}, 'GIPA verification, %d rounds' % l)
                    gipa_items(it, st, l)
                    for i in range(3):
                        it.add('the claimed %s commitment' % PART[i], [pv('a1', i)], 0, 'statement-commitments')
                    return it
                R.guard(rule, GIPA + 'verify', lambda: binding(R, rule, gipa(), sd))

                def published():
                    st = pv('a1', fd.steps)
                    it = Items(lab.fn(GIPA + 'verify_recursive_challenge_transcript', GENERIC), {st: l}, 'GIPA published challenges, %d rounds' % l)
                    it.kinds = 'challenges'
                    gipa_items(it, st, l)
                    return it
                R.guard(rule, GIPA + 'verify_recursive_challenge_transcript', lambda: binding(R, rule, published(), sd))

                def tipa(shift):
                    st = pv('a3', fd.t_gipa, fd.steps)
                    it = Items(lab.fn(TIPA + ('verify_with_srs_shift' if shift else 'verify'), GENERIC6), {st: l}, 'TIPA verification, %d rounds' % l)
                    gipa_items(it, st, l)
                    for i, w in enumerate(('left', 'right')):
                        it.add('the claimed final %s key' % w, [pv('a3', fd.t_ck, i)], l)
                    for i in range(3):
                        it.add('the claimed %s commitment' % PART[i], [pv('a2', i)], 0, 'statement-commitments')
                    return it
                for shift in (True, False):
                    R.guard(rule, TIPA + 'verify', lambda: binding(R, rule, tipa(shift), sd))

                def gssm():
                    st = pv('a3', fd.steps)
                    it = Items(lab.fn(GSSM + 'verify_with_structured_scalar_message', ['IP', 'LMC', 'IPC', 'D']), {pv('a0', 0): 1 << l, st: l}, 'structured-scalar GIPA verification, %d rounds' % l)
                    gipa_items(it, st, l)
                    for i, w in ((0, 'left'), (1, 'inner-product')):
                        it.add('the claimed %s commitment' % w, [pv('a1', i)], 0, 'statement-commitments')
                    it.add('the public scalar', [('a2',)], 0, 'public-scalar')
                    return it
                R.guard(rule, GSSM + 'verify', lambda: binding(R, rule, gssm(), sd))

                def tssm():
                    st = pv('a4', fd.s_gipa, fd.steps)
                    it = Items(lab.fn(TSSM + 'verify_with_structured_scalar_message', ['IP', 'LMC', 'IPC', 'P', 'D']), {st: l}, 'structured-scalar TIPA verification, %d rounds' % l)
                    gipa_items(it, st, l)
                    it.add('the claimed final key', [pv('a4', fd.s_ck)], l)
                    for i, w in ((0, 'left'), (1, 'inner-product')):
                        it.add('the claimed %s commitment' % w, [pv('a2', i)], 0, 'statement-commitments')
                    it.add('the public scalar', [('a3',)], 0, 'public-scalar')
                    return it
                R.guard(rule, TSSM + 'verify', lambda: binding(R, rule, tssm(), sd))

                def sipp():
                    n = 1 << l
                    st = pv('a4', fd.sipp)
                    it = Items(lab.fn(SIPP + 'verify', ['E', 'D']), {('a0',): n, ('a1',): n, ('a2',): n, st: l}, 'SIPP verification, %d rounds' % l)
                    for nm, w in (('a0', 'a'), ('a1', 'b'), ('a2', 'r')):
                        for i in range(n):
                            it.add('%s[%d]' % (w, i), [(nm, ix(i))], 0)
                    it.add('the claimed value', [('a3',)], 0)
                    for k in range(l):
                        for o, w in ((0, 'z_l'), (1, 'z_r')):
                            it.add('%s of round %d' % (w, k), [st + (ix(k), ('f', o))], k)
                    return it
                R.guard(rule, SIPP + 'verify', lambda: binding(R, rule, sipp(), sd))
            # the key point with no rounds
            for shift in (True, False):
                def tipa0():
                    it = Items(lab.fn(TIPA + ('verify_with_srs_shift' if shift else 'verify'), GENERIC6), {pv('a3', fd.t_gipa, fd.steps): 0}, 'TIPA verification, 0 rounds')
                    for i, w in enumerate(('left', 'right')):
                        it.add('the claimed final %s key' % w, [pv('a3', fd.t_ck, i)], 0)
                    return it
                R.guard(rule, TIPA + 'verify', lambda: binding(R, rule, tipa0(), sd))

            def tssm0():
                it = Items(lab.fn(TSSM + 'verify_with_structured_scalar_message', ['IP', 'LMC', 'IPC', 'P', 'D']), {pv('a4', fd.s_gipa, fd.steps): 0}, 'structured-scalar TIPA verification, 0 rounds')
                it.add('the claimed final key', [pv('a4', fd.s_ck)], 0)
                return it
            R.guard(rule, TSSM + 'verify', lambda: binding(R, rule, tssm0(), sd))
            for l in (1, 2):
                R.guard(rule, G16 + 'verify_aggregate_proof', lambda: g16_binding(R, rule, lab, l, sd))


def g16_binding(R, rule, lab, l, sd):
    """the aggregation challenge is the one candidate that the round messages of the two arguments do not influence"""
    sc = V.g16_scene(lab, 2, 1, l)
    fn = sc.fn
    fd = fields(lab)
    if fn.unmodelled:
        raise Opaque('no contract for %s' % sorted(fn.unmodelled)[:3])
    it = Items(fn, sc.lens, 'aggregate verification, %d rounds' % l)
    e0, k0 = derive(it, sd)
    c0 = set(e0.cands)
    ab, cc = pv('a3', fd.agg[5]), pv('a3', fd.agg[6])

    def after(paths):
        e1, _ = derive(it, sd, {p: bump(e0, p) for p in paths})
        return c0 & set(e1.cands)
    rounds = [fl(ab, fd.t_gipa, fd.steps) + (ix(k), ('f', o), ('f', p)) for k in range(l) for o in (0, 1) for p in (0, 1)]
    rounds += [fl(cc, fd.s_gipa, fd.steps) + (ix(k), ('f', o), ('f', 0)) for k in range(l) for o in (0, 1)]
    keep = after(rounds)
    if not keep:
        R.violate(rule, fn, 'aggregate verification: no challenge precedes the rounds of the inner arguments', {'challenges': len(c0)})
        return
    for i, w in enumerate(['com_a', 'com_b', 'com_c']):
        left = keep & after([pv('a3', fd.agg[i])])
        R.check(rule, fn, not left, 'aggregate verification: the aggregation challenge does not depend on %s' % w, {'changed': w, 'rounds': l})
    # the inner arguments' challenges
    for arg, steps, parts, keys, tot in ((ab, fl(ab, fd.t_gipa, fd.steps), (0, 1, 2), [fl(ab, fd.t_ck, 0), fl(ab, fd.t_ck, 1)], 'A-B'), (cc, fl(cc, fd.s_gipa, fd.steps), (0, 2), [fl(cc, fd.s_ck)], 'C')):
        mine = c0 - after([steps + (ix(l - 1), ('f', 0), ('f', 0))])
        R.check(rule, fn, len(mine) == l + 1, 'aggregate verification: the first cross term of the %s argument enters %d of its %d challenges' % (tot, len(mine), l + 1), {'argument': tot, 'rounds': l})
        for k in range(l):
            for o in (0, 1):
                for p in parts:
                    path = steps + (ix(k), ('f', o), ('f', p))
                    hit = c0 - after([path] + ([path + (('f', 0),), path + (('f', 0), ix(0))] if p == 2 else []))
                    R.check(rule, fn, len(hit) == k + 2, 'aggregate verification: the %s argument\'s cross term %d/%d of round %d enters %d challenges instead of %d' % (tot, o, p, l - 1 - k, len(hit), k + 2),
                            {'argument': tot, 'round': l - 1 - k, 'part': p})
        for q in keys:
            hit = c0 - after([q])
            R.check(rule, fn, len(hit) == 1, 'aggregate verification: a claimed final key of the %s argument enters %d challenges instead of its KZG challenge' % (tot, len(hit)), {'argument': tot})
    left = keep & after([('a2', ix(0), ix(0))])
    if left:
        R.violate(rule, fn, 'aggregate verification: the aggregation challenge does not depend on the public inputs', {'changed': 'public inputs'}, finding(fn, 'public-inputs'))
    else:
        R.held(rule, fn, {'changed': 'public inputs'})


# ---------------------------------------------------------------------- C10
def C10(R, labs, deep):
    r1 = 'a challenge takes at least 128 bits of the digest'
    r2 = 're-drawing hashes new inputs and stops at the first acceptable candidate'
    r3 = 'challenges are used with their true inverse'
    for cfg, lab in labs.items():
        R.cfg = cfg
        for n in (1, 2, 4, 8):
            for mk_ in protocol_runs(lab, [n], R.seed, 0):
                def width():
                    r = mk_()
                    try:
                        r.prove()
                        f = r.s.fork()
                        r.verify(f)
                    except Stuck as e:
                        R.undecided(r1, e.path, str(e))
                        return
                    for e, side in ((r.s.env, 'prover'), (f.env, 'verifier')):
                        fn = (r.s if side == 'prover' else f).fns[-1]
                        for (kind, k), (v, nb) in e.cands.items():
                            R.check(r1, fn, nb >= 16, '%s: a challenge uses only %d bytes of the digest' % (side, nb), {'bytes': nb, 'protocol': r.name})
                        for k, (ty, v) in e.draws.items():
                            R.check(r1, fn, wide(ty), '%s: a challenge is sampled as %s' % (side, ty), {'type': str(ty)[:60], 'protocol': r.name})
                    # flipping any single byte of the sampled integers changes the challenges, so the verdict
                    if n > 2 and f.env.intview and len(f.env.intview) >= len(f.env.draws):
                        idle = []
                        for j in range(16):
                            g = r.s.fork()
                            g.env.flip = 0xff << (8 * j)
                            k, v = r.verify(g)
                            if k == OK and v is True:
                                idle.append(j)
                        R.check(r1, f.fns[-1], not idle, 'verifier: %d of the 16 sampled bytes have no effect on the challenges' % len(idle), {'idle bytes': len(idle), 'protocol': r.name})
                R.guard(r1, 'challenge derivation', width)
        for s in range(24 if deep else 8):
            for z in (2, 3) if deep else (2,):
                for n in (1, 2, 4):
                    base = list(protocol_runs(lab, [n], R.seed * 31 + s, 0))
                    for mk0, mk1 in zip(base, protocol_runs(lab, [n], R.seed * 31 + s, z)):
                        R.guard(r2, 'challenge derivation', lambda: redraw(R, r2, mk0, mk1))
        for l in (1, 2, 3):
            for z in (0, 2):
                R.guard(r3, GIPA + 'verify', lambda: soundness(R, r3, V.gipa_scene(lab, 1 << l, l, seed=R.seed), z))
                fold_claim(R, lambda: GipaRun(lab, 1 << l, R.seed, z), r3)


def wide(ty):
    """sampled type: at least 128 bits"""
    s = str(ty)
    for w in ('u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'bool', 'usize', 'f64', 'f32'):
        if '"%s"' % w in s or "'%s'" % w in s or s == w:
            return False
    return True


def redraw(R, rule, mk0, mk1):
    r0, r1 = mk0(), mk1()
    if r0.name == 'SIPP':
        return
    for side in ('prover', 'verifier'):
        try:
            if side == 'prover':
                r0.prove()
                r1.prove()
                e0, e1 = r0.s.env, r1.s.env
                fn = r0.s.fns[-1]
            else:
                f0, f1 = r0.s.fork(), r1.s.fork()
                k0, _ = r0.verify(f0)
                k1, _ = r1.verify(f1)
                e0, e1 = f0.env, f1.env
                fn = f0.fns[-1]
                if k0 != OK or k1 != OK:
                    raise Stuck(k1, fn.path)
        except Stuck as e:
            R.violate(rule, e.path, '%s: derivation does not end with an acceptable candidate (%s)' % (side, e.kind), describe(r1))
            return
        acc = [1 for v, _ in e1.cands.values() if v is not None and v.v]
        want = len(e0.cands)
        R.check(rule, fn, len(acc) == want, '%s: %d acceptable candidates were drawn for %d challenges' % (side, len(acc), want),
                dict(describe(r1), challenges=want, candidates=len(e1.cands)))


# ---------------------------------------------------------------------- C11
def fold_claim(R, make, rule):
    def go():
        r = make()
        fd, n, zeros = r.fd, r.n, r.zeros
        try:
            p = r.prove()
        except Stuck as e:
            R.violate(rule, e.path, 'the prover fails (%s) on vectors of length %d' % (e.kind, n), describe(r))
            return
        e = r.s.env
        fn = r.s.fns[-1]
        ev = Ev(e)
        xs = nums(e, proof_field(e, r.aux, fd.aux_tr))
        steps = [plain(e, x) for x in ev.seq(proof_field(e, p, fd.steps))]
        base = [number(e, proof_field(e, p, fd.base, i)) for i in (0, 1)]
        ckb = [number(e, proof_field(e, r.aux, fd.aux_ck, i)) for i in (0, 1)]
        l = lg(n)
        smp = {'length': n, 'rounds': len(steps), 'retries': bool(zeros)}
        if not R.check(rule, fn, len(xs) == l and len(steps) == l, 'the proof records %d rounds and %d challenges for length %d' % (len(steps), len(xs), n), smp):
            return
        com = [modp(e.binds[x]) for x in ('ca', 'cb', 'ct')]
        got = [(com[i] + sum(x * s[0][i] + inv(x) * s[1][i] for x, s in zip(xs, steps))) % P for i in range(3)]
        want = [single(e, 'commit', 'LMC', ckb[0], base[0]), single(e, 'commit', 'RMC', ckb[1], base[1]),
                single(e, 'commit', 'IPC', spec.num(e, ('kt',)), spec.form(e, 'ip', 'IP') * base[0] * base[1])]
        for i in range(3):
            R.check(rule, fn, got[i] == want[i] % P, 'the folded %s commitment is not the commitment of the folded messages' % PART[i], smp)
        ka, kb = r.vec('ka', n), r.vec('kb', n)
        R.check(rule, fn, ckb[0] == spec.fold_keys(ka, [inv(x) for x in xs]), 'the folded left key does not weigh key i by the product of inverse challenges over the set bits of i', smp)
        R.check(rule, fn, ckb[1] == spec.fold_keys(kb, xs), 'the folded right key does not weigh key i by the product of challenges over the set bits of i', smp)
    R.guard(rule, GIPA + 'prove_with_aux', go)


def C11(R, labs, deep):
    rule = 'folded commitments open to folded messages under folded keys'
    for cfg, lab in labs.items():
        R.cfg = cfg
        for s in range(3 if deep else 1):
            for n in [1, 2, 4, 8, 16, 32] + big_sizes(lab, GipaRun.paths, deep) * (not s):
                for z in (0, 2):
                    if n <= 8 and not s:
                        everywhere(R, rule, lambda: GipaRun(lab, n, R.seed * 19 + s, z), lambda m: fold_claim(R, m, rule))
                    elif n <= 64 or not z:
                        fold_claim(R, lambda: GipaRun(lab, n, R.seed * 19 + s, z), rule)
                complete(R, 'verifier folds what the prover folded', lambda: GipaRun(lab, n, R.seed * 19 + s, 0))
                R.guard('verifier closed-form keys', GIPA + 'verify', lambda: soundness(R, 'verifier closed-form keys', V.gipa_scene(lab, n, lg(n), seed=R.seed + s)))


# ---------------------------------------------------------------------- C12
def sipp_fold(R, lab, make, rule):
    def go():
        r = make()
        n = r.n
        try:
            p = r.prove()
        except Stuck as e:
            R.violate(rule, e.path, 'the prover fails (%s) on length %d' % (e.kind, n), describe(r))
            return
        e = r.s.env
        fn = r.s.fns[-1]
        zs = [plain(e, x) for x in Ev(e).seq(proof_field(e, p, fields(lab).sipp))]
        ds = [modp(v) for _, v in e.draws.values()]
        l = lg(n)
        smp = {'length': n, 'rounds': len(zs)}
        if not R.check(rule, fn, len(zs) == l, 'the proof has %d rounds for length %d' % (len(zs), n), smp):
            return
        a, b, rr = [r.vec(x, n) for x in 'abr']
        a = [x * y % P for x, y in zip(a, rr)]
        left = list(ds)
        for j in range(l):
            h = len(a) // 2
            zl, zr = pf(e) * spec.dot(a[h:], b[:h]) % P, pf(e) * spec.dot(a[:h], b[h:]) % P
            ok = zs[j] == (zl, zr)
            if not R.check(rule, fn, ok, 'round %d does not send (prod e(a_right, b_left), prod e(a_left, b_right))' % j, dict(smp, round=j)):
                return
            if j == l - 1:
                break
            # the challenge of this round is the drawn one that explains the next round
            for x in left:
                a2 = [(a[i] + x * a[h + i]) % P for i in range(h)]
                b2 = [(b[i] + inv(x) * b[h + i]) % P for i in range(h)]
                q = h // 2
                if zs[j + 1] == (pf(e) * spec.dot(a2[q:], b2[:q]) % P, pf(e) * spec.dot(a2[:q], b2[q:]) % P):
                    a, b = a2, b2
                    left.remove(x)
                    break
            else:
                R.violate(rule, fn, 'round %d does not fold a and b with its challenge and the inverse' % j, dict(smp, round=j))
                return
    R.guard(rule, SIPP + 'prove', go)


def C12(R, labs, deep):
    for cfg, lab in labs.items():
        R.cfg = cfg
        for s in range(3 if deep else 1):
            for n in [2, 4, 8, 16, 32] + big_sizes(lab, SippRun.paths, deep) * (not s):
                mk_ = lambda: SippRun(lab, n, R.seed * 23 + s)
                one = lambda m: (sipp_fold(R, lab, m, 'rounds send and fold the stated products'), complete(R, 'verifier equation holds for the prover\'s rounds', m))
                if n <= 8 and not s:
                    everywhere(R, 'rounds send and fold the stated products', mk_, one)
                else:
                    one(mk_)


# ---------------------------------------------------------------------- C07
def c07_prove(R, lab, l, seed):
    rule = 'prover opens exactly that polynomial'

    def go():
        n = 2 * (1 << l) - 1
        s = Sess(lab, seed, 0, {('pw',): n, ('tr',): l})
        e = s.env
        be = e.uf('beta') % P
        for j in range(n):
            e.nums[('pw', ix(j))] = F(7 * pow(be, j, P))
        v = s.ok(TM + 'prove_commitment_key_kzg_opening', ['G'], [param('pw'), param('tr'), param('sh'), param('z')], 'run')
        xs = spec.seq(e, ('tr',), l)
        r, z = spec.num(e, ('sh',)), spec.num(e, ('z',))
        c = spec.kzg_coefficients(xs, r)
        want = 7 * spec.poly_eval(spec.quotient(c, z), be) % P
        R.check(rule, s.fns[-1], number(e, v) == want, 'the opening is not the quotient of the product polynomial by (X - z), for %d challenges' % l, {'challenges': l})
        assert spec.poly_eval(c, z) == spec.kzg_value(xs, z, r)
    probe(R, rule, TM + 'prove_commitment_key_kzg_opening', lambda: nostuck(R, rule, go))


def nostuck(R, rule, go):
    try:
        return go()
    except Stuck as e:
        R.violate(rule, e.path, 'fails (%s) on a valid input' % e.kind)


def C07(R, labs, deep):
    for cfg, lab in labs.items():
        R.cfg = cfg
        V.c07_verify(R, lab, deep)
        for s in range(3 if deep else 1):
            for l in range(7 if deep else 6):
                c07_prove(R, lab, l, R.seed * 29 + s)
