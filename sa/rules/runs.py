"""Honest runs: the prover's value graph composed with the verifier's, in one assignment."""
from ..proto import *
from .. import spec
from ..spec import inv
from .verdicts import ssm_of, pf


class Sess:
    """one assignment in which the value graphs of several public functions are evaluated in turn"""

    def __init__(self, lab, seed=1, zeros=0, lens=None, nums=None, ints=None):
        self.lab = lab
        self.env = Env(seed, lens=dict(lens or {}), nums={k: F(v) for k, v in (nums or {}).items()}, ints=dict(ints or {}), zeros=zeros)
        for k, v in Run.over.items():
            if k[0] != 'choice':
                self.env.nums.setdefault(k, F(v))
        self.given = set(nums or {})
        if Sess.trace is not None:
            Sess.trace.enter(self)
        self.fns = []

    def bind(self, **kw):
        self.env.binds.update(kw)

    strict = faults = False
    trace = None

    def fn(self, path, gens, args, key):
        f = self.lab.fn(path, gens, args=args, key=key, strict=self.strict, faults=self.faults)
        if f.unmodelled:
            raise Opaque('no contract for %s in %s' % (sorted(f.unmodelled)[:3], f.path))
        self.fns.append(f)
        return f

    def call(self, path, gens, args, key):
        return outcome(self.fn(path, gens, args, key), self.env)

    def ok(self, path, gens, args, key):
        k, v = self.call(path, gens, args, key)
        if k != OK:
            raise Stuck(k, path)
        return v

    def fork(self):
        """same assignment, nothing evaluated yet"""
        e = self.env
        s = Sess(self.lab, e.seed, e.zeros, {k: v for k, v in e.lens.items()}, None, e.ints)
        s.env.nums = dict(e.nums)
        s.env.binds = dict(e.binds)
        return s


class Stuck(Exception):
    def __init__(self, kind, path):
        self.kind, self.path = kind, path
        Exception.__init__(self, '%s in %s' % (kind, path))


def T(*xs):
    return St('tup', tuple(xs))


def fl(p, *i):
    return p + tuple(('f', j) for j in i)


def srs_nums(fd, name, ng, nh, g, h, al, be):
    n = {}
    for j in range(ng):
        n[(name, ('f', fd.srs[0]), ix(j))] = g * pow(al, j, P) % P
    for j in range(nh):
        n[(name, ('f', fd.srs[1]), ix(j))] = h * pow(be, j, P) % P
    n[(name, ('f', fd.srs[2]))] = g * be % P
    n[(name, ('f', fd.srs[3]))] = h * al % P
    return n


def vs_nums(fd, name, g, h, al, be):
    return {(name, ('f', k)): v % P for k, v in zip(fd.vs, (g, h, g * be, h * al))}


class Run:
    """an honest run: .prove() -> proof value (bound as 'pf'), .verify() -> (kind, verdict)"""
    spec_setup = True
    over = {}           # inputs with a prescribed value, while a run is being set up

    def __init__(self, lab, seed, zeros):
        self.lab, self.seed, self.zeros = lab, seed, zeros
        self.fd = fields(lab)
        e = Env(seed)
        self.asked = {}

        def rnd(*k):
            k = ('choice',) + k
            if k not in self.asked:
                self.asked[k] = Run.over[k] if k in Run.over else e.uf(*k) % P or 1
                if Sess.trace is not None:
                    Sess.trace.asked[k] = self.asked[k]
            return self.asked[k]
        self.rnd = rnd
        self.build()

    def vec(self, name, n):
        return [spec.num(self.s.env, (name, ix(i))) for i in range(n)]


UNITS = {('choice',) + k for k in (('g',), ('h',), ('a',), ('b',), ('r',), ('vk', 3))}     # generators, trapdoors, shift: never zero


class Trace:
    """the assignments one group of obligations evaluates in, with the data-dependent special cases met on the way"""

    def __init__(self, over):
        self.over, self.envs, self.asked, self.frozen = over, [], {}, None

    record = property(lambda self: self.envs)

    def enter(self, sess):
        i = len(self.envs)
        e = sess.env
        e.gates = {}
        e.given = sess.given
        if self.frozen is not None and i < len(self.frozen):
            e.frozen = self.frozen[i].record
        self.envs.append(e)

    @property
    def gates(self):
        return {(x, (i, k)): v for i, e in enumerate(self.envs) for (x, k), v in e.gates.items()}

    def knobs(self):
        """the inputs that may be chosen freely, with their values"""
        k = dict(self.asked)
        for e in self.envs:
            k.update({p: modp(e.nums[p]) for p in e.touched if p not in e.given and p not in e.ints and isinstance(e.nums.get(p), F)})
        return k

    def __enter__(self):
        self.keep = Run.over, Sess.trace
        Run.over, Sess.trace = self.over, self

    def __exit__(self, *_):
        Run.over, Sess.trace = self.keep


def probe(R, rule, what, thunk, lim=4):
    """a group of obligations, on its generic input and on the inputs for which the code it evaluates has a special case"""
    t0 = Trace({})
    with t0:
        R.guard(rule, what, thunk)
    if not any(t0.gates.values()):
        return

    def run(tr):
        with tr, R.muted():
            R.guard(rule, what, thunk)
    found = []
    R.guard(rule, what, lambda: found.extend(special_inputs(Trace, run, lim, Trace.knobs)))
    for y in found:
        if any(not v and k in UNITS for k, v in y.items()):
            continue
        R.note = {str(Opq(k)) if k[0] != 'choice' else 'choice of %s' % (k[1:],): str(v) for k, v in y.items()}
        with Trace(y):
            R.guard(rule, what, thunk)
        R.note = None


# ---------------------------------------------------------------------- GIPA
class GipaRun(Run):
    name = 'GIPA'
    paths = (GIPA + 'prove_with_aux', GIPA + 'verify')
    sizes = [1, 2, 4, 8]

    def __init__(self, lab, n, seed=1, zeros=0, checked=False):
        self.n, self.checked = n, checked
        Run.__init__(self, lab, seed, zeros)

    def build(self):
        n = self.n
        self.s = s = Sess(self.lab, self.seed, self.zeros, {('ma',): n, ('mb',): n, ('ka',): n, ('kb',): n})
        e = s.env
        a, b, ka, kb = [self.vec(x, n) for x in ('ma', 'mb', 'ka', 'kb')]
        self.t = spec.form(e, 'ip', 'IP') * spec.dot(a, b) % P
        s.bind(t=F(self.t), ca=F(spec.form(e, 'commit', 'LMC') * spec.dot(ka, a)), cb=F(spec.form(e, 'commit', 'RMC') * spec.dot(kb, b)),
               ct=F(spec.form(e, 'commit', 'IPC') * spec.num(e, ('kt',)) * self.t))

    coms = t.tup(param('ca'), param('cb'), param('ct'))
    keys = t.tup(param('ka'), param('kb'), param('kt'))

    def prove(self):
        if self.checked:
            pf = self.s.ok(GIPA + 'prove', GENERIC, [t.tup(param('ma'), param('mb'), param('t')), self.keys, self.coms], 'run')
        else:
            v = self.s.ok(GIPA + 'prove_with_aux', GENERIC, [t.tup(param('ma'), param('mb')), t.tup(param('ka'), param('kb'), mk('list', param('kt')))], 'run')
            pf, self.aux = v.a[0], v.a[1]
        self.s.bind(pf=pf)
        return pf

    def verify(self, s=None):
        return (s or self.s).call(GIPA + 'verify', GENERIC, [self.keys, self.coms, param('pf')], 'run')


class TipaRun(Run):
    name = 'TIPA'
    paths = (TIPA + 'prove_with_srs_shift', TIPA + 'verify_with_srs_shift')
    sizes = [1, 2, 4, 8]

    def __init__(self, lab, n, seed=1, zeros=0, shift=True):
        self.n, self.shift = n, shift
        Run.__init__(self, lab, seed, zeros)

    def build(self):
        n, fd = self.n, self.fd
        g, h, al, be, r = [self.rnd(x) for x in 'ghabr']
        if not self.shift:
            r = 1
        nums = srs_nums(fd, 'srs', 2 * n - 1, 2 * n - 1, g, h, al, be)
        nums.update(vs_nums(fd, 'vs', g, h, al, be))
        nums[('r',)] = r
        for i in range(n):
            nums[('ka', ix(i))] = h * pow(be, 2 * i, P) * pow(inv(r), i, P) % P
            nums[('kb', ix(i))] = g * pow(al, 2 * i, P) % P
        self.s = s = Sess(self.lab, self.seed, self.zeros, {('ma',): n, ('mb',): n, ('ka',): n, ('kb',): n,
                                                            fl(('srs',), fd.srs[0]): 2 * n - 1, fl(('srs',), fd.srs[1]): 2 * n - 1}, nums)
        e = s.env
        a, b, ka, kb = [self.vec(x, n) for x in ('ma', 'mb', 'ka', 'kb')]
        self.t = spec.form(e, 'ip', 'IP') * spec.dot(a, b) % P
        s.bind(ca=F(spec.form(e, 'commit', 'LMC') * spec.dot(ka, a)), cb=F(spec.form(e, 'commit', 'RMC') * spec.dot(kb, b)),
               ct=F(spec.form(e, 'commit', 'IPC') * spec.num(e, ('kt',)) * self.t))

    coms = t.tup(param('ca'), param('cb'), param('ct'))

    def prove(self):
        a = [param('srs'), t.tup(param('ma'), param('mb')), t.tup(param('ka'), param('kb'), param('kt'))]
        pf = self.s.ok(TIPA + ('prove_with_srs_shift' if self.shift else 'prove'), GENERIC6, a + ([param('r')] if self.shift else []), 'run')
        self.s.bind(pf=pf)
        return pf

    def verify(self, s=None):
        a = [param('vs'), param('kt'), self.coms, param('pf')]
        return (s or self.s).call(TIPA + ('verify_with_srs_shift' if self.shift else 'verify'), GENERIC6, a + ([param('r')] if self.shift else []), 'run')


class GssmRun(Run):
    name = 'structured-scalar GIPA'
    paths = (GSSM + 'prove_with_structured_scalar_message', GSSM + 'verify_with_structured_scalar_message')
    sizes = [1, 2, 4, 8]
    gens = ['IP', 'LMC', 'IPC', 'D']

    def __init__(self, lab, n, seed=1, zeros=0):
        self.n = n
        Run.__init__(self, lab, seed, zeros)

    def build(self):
        n = self.n
        sb = self.rnd('sb')
        nums = {('sb',): sb}
        for i in range(n):
            nums[('mb', ix(i))] = pow(sb, i, P)
        self.s = s = Sess(self.lab, self.seed, self.zeros, {('ma',): n, ('mb',): n, ('ka',): n}, nums)
        e = s.env
        a, b, ka = [self.vec(x, n) for x in ('ma', 'mb', 'ka')]
        tt = spec.form(e, 'ip', 'IP') * spec.dot(a, b) % P
        s.bind(ca=F(spec.form(e, 'commit', 'LMC') * spec.dot(ka, a)), ct=F(spec.form(e, 'commit', 'IPC') * spec.num(e, ('kt',)) * tt))

    def prove(self):
        pf = self.s.ok(GSSM + 'prove_with_structured_scalar_message', self.gens, [t.tup(param('ma'), param('mb')), t.tup(param('ka'), param('kt'))], 'run')
        self.s.bind(pf=pf)
        return pf

    def verify(self, s=None):
        return (s or self.s).call(GSSM + 'verify_with_structured_scalar_message', self.gens,
                                  [t.tup(param('ka'), param('kt')), t.tup(param('ca'), param('ct')), param('sb'), param('pf')], 'run')


class TssmRun(Run):
    name = 'structured-scalar TIPA'
    paths = (TSSM + 'prove_with_structured_scalar_message', TSSM + 'verify_with_structured_scalar_message')
    sizes = [1, 2, 4, 8]
    gens = ['IP', 'LMC', 'IPC', 'P', 'D']

    def __init__(self, lab, n, seed=1, zeros=0):
        self.n = n
        Run.__init__(self, lab, seed, zeros)

    def build(self):
        n, fd = self.n, self.fd
        g, h, al, be, sb = [self.rnd(x) for x in ('g', 'h', 'a', 'b', 'sb')]
        nums = srs_nums(fd, 'srs', 2 * n - 1, 2 * n - 1, g, h, al, be)
        nums.update(vs_nums(fd, 'vs', g, h, al, be))
        nums[('sb',)] = sb
        for i in range(n):
            nums[('ka', ix(i))] = h * pow(be, 2 * i, P) % P
            nums[('mb', ix(i))] = pow(sb, i, P)
        self.s = s = Sess(self.lab, self.seed, self.zeros, {('ma',): n, ('mb',): n, ('ka',): n,
                                                            fl(('srs',), fd.srs[0]): 2 * n - 1, fl(('srs',), fd.srs[1]): 2 * n - 1}, nums)
        e = s.env
        a, b, ka = [self.vec(x, n) for x in ('ma', 'mb', 'ka')]
        tt = spec.form(e, 'ip', 'IP') * spec.dot(a, b) % P
        s.bind(ca=F(spec.form(e, 'commit', 'LMC') * spec.dot(ka, a)), ct=F(spec.form(e, 'commit', 'IPC') * spec.num(e, ('kt',)) * tt))

    def prove(self):
        pf = self.s.ok(TSSM + 'prove_with_structured_scalar_message', self.gens,
                       [param('srs'), t.tup(param('ma'), param('mb')), t.tup(param('ka'), param('kt'))], 'run')
        self.s.bind(pf=pf)
        return pf

    def verify(self, s=None):
        return (s or self.s).call(TSSM + 'verify_with_structured_scalar_message', self.gens,
                                  [param('vs'), param('kt'), t.tup(param('ca'), param('ct')), param('sb'), param('pf')], 'run')


# ---------------------------------------------------------------------- SIPP
class SippRun(Run):
    name = 'SIPP'
    paths = (SIPP + 'prove', SIPP + 'verify')
    sizes = [2, 4, 8]

    def __init__(self, lab, n, seed=1, zeros=0):
        self.n = n
        Run.__init__(self, lab, seed, zeros)

    def build(self):
        n = self.n
        self.s = s = Sess(self.lab, self.seed, self.zeros, {('a',): n, ('b',): n, ('r',): n})
        a, b, r = [self.vec(x, n) for x in 'abr']
        s.bind(v=F(pf(s.env) * sum(x * y % P * z for x, y, z in zip(a, b, r))))

    def prove(self):
        v = self.s.ok(SIPP + 'prove', ['E', 'D'], [param('a'), param('b'), param('r'), param('v')], 'run')
        self.s.bind(pf=v)
        return v

    def verify(self, s=None):
        return (s or self.s).call(SIPP + 'verify', ['E', 'D'], [param('a'), param('b'), param('r'), param('v'), param('pf')], 'run')


# ---------------------------------------------------------------------- Groth16 aggregation
class G16Run(Run):
    name = 'Groth16 aggregation'
    paths = (G16 + 'aggregate_proofs', G16 + 'verify_aggregate_proof')
    sizes = [1, 2, 4]

    def __init__(self, lab, n, seed=1, zeros=0, k=2):
        self.n, self.k = n, k
        Run.__init__(self, lab, seed, zeros)

    def build(self):
        n, k, fd = self.n, self.k, self.fd
        g, h, al, be = [self.rnd(x) for x in 'ghab']
        nums = srs_nums(fd, 'srs', 2 * n - 1, 2 * n - 1, g, h, al, be)
        nums.update(vs_nums(fd, 'vs', g, h, al, be))
        vk = [self.rnd('vk', i) for i in range(4)]
        for i in range(4):
            nums[('vk', ('f', fd.vk[i]))] = vk[i]
        abc = [self.rnd('abc', i) for i in range(k + 1)]
        for i in range(k + 1):
            nums[('vk', ('f', fd.vk[4]), ix(i))] = abc[i]
        for j in range(n):
            x = [self.rnd('pi', j, i) for i in range(k)]
            a, b = self.rnd('A', j), self.rnd('B', j)
            ic = abc[0] + sum(p * q for p, q in zip(abc[1:], x))
            c = (a * b - vk[0] * vk[1] - ic * vk[2]) * inv(vk[3]) % P
            for i in range(k):
                nums[('pi', ix(j), ix(i))] = x[i]
            for q, w in zip(fd.prf, (a, b, c)):
                nums[('prf', ix(j), ('f', q))] = w
        self.s = Sess(self.lab, self.seed, self.zeros, {('prf',): n, ('pi',): n, ('pi', ('i', '*')): k, ('vk', ('f', fd.vk[4])): k + 1,
                                                        fl(('srs',), fd.srs[0]): 2 * n - 1, fl(('srs',), fd.srs[1]): 2 * n - 1}, nums)

    def prove(self):
        v = self.s.ok(G16 + 'aggregate_proofs', ['P', 'D'], [param('srs'), param('prf')], 'run')
        self.s.bind(pf=v)
        return v

    def verify(self, s=None):
        return (s or self.s).call(G16 + 'verify_aggregate_proof', ['P', 'D'], [param('vs'), param('vk'), param('pi'), param('pf')], 'run')


# ---------------------------------------------------------------------- polynomial commitments
def poly_nums(name, fd, degs, rnd):
    """coefficient vectors of the y polynomials of a bivariate polynomial parameter"""
    nums, lens = {}, {(name, ('f', fd)): len(degs)}
    for i, d in enumerate(degs):
        lens[(name, ('f', fd), ix(i), ('f', 0))] = d
        for j in range(d):
            nums[(name, ('f', fd), ix(i), ('f', 0), ix(j))] = rnd('coef', i, j)
    return nums, lens


def bi_eval(cs, x, y):
    return sum(pow(x, i, P) * spec.poly_eval(c, y) for i, c in enumerate(cs)) % P


class KzgRun(Run):
    name = 'KZG'

    def __init__(self, lab, n, d, seed=1, zeros=0):
        self.n, self.d = n, d       # powers, coefficients
        Run.__init__(self, lab, seed, zeros)

    def build(self):
        g, h, al, be = [self.rnd(x) for x in 'ghab']
        self.cs = [self.rnd('coef', j) for j in range(self.d)]
        nums = vs_nums(self.fd, 'vs', g, h, al, be)
        for j in range(self.n):
            nums[('pw', ix(j))] = g * pow(al, j, P) % P
        for j, c in enumerate(self.cs):
            nums[('poly', ('f', 0), ix(j))] = c
        nums[('z',)] = self.rnd('z')
        self.s = Sess(self.lab, self.seed, self.zeros, {('pw',): self.n, ('poly', ('f', 0)): self.d}, nums)
        self.s.bind(ev=F(spec.poly_eval(self.cs, self.rnd('z'))), com=F(g * spec.poly_eval(self.cs, al)))
        self.want_com = g * spec.poly_eval(self.cs, al) % P
        self.want_open = g * spec.poly_eval(spec.quotient(self.cs, self.rnd('z')), al) % P

    def commit(self):
        return self.s.ok(PC + 'KZG::commit', ['P'], [param('pw'), param('poly')], 'run')

    def prove(self):
        v = self.s.ok(PC + 'KZG::open', ['P'], [param('pw'), param('poly'), param('z')], 'run')
        self.s.bind(pf=v)
        return v

    def verify(self, s=None):
        return (s or self.s).call(PC + 'KZG::verify', ['P'], [param('vs'), param('com'), param('z'), param('ev'), param('pf')], 'run')


class BivRun(Run):
    """nx x-keys, ny KZG powers; degs: number of coefficients of each y polynomial"""
    name = 'bivariate KZG commitment'
    mod, bivf = PC, 'biv'
    paths = tuple(PC + 'BivariatePolynomialCommitment::' + f for f in ('commit', 'open', 'verify'))

    def __init__(self, lab, nx, ny, degs, seed=1, zeros=0):
        self.nx, self.ny, self.degs = nx, ny, degs
        Run.__init__(self, lab, seed, zeros)

    def key(self):
        fd, nx, ny = self.fd, self.nx, self.ny
        g, h, al, be = [self.rnd(x) for x in 'ghab']
        sr = ('srs', ('f', 0))
        nums = {}
        for k, v in srs_nums(fd, 'q', 1, 2 * nx - 1, g, h, al, be).items():
            nums[sr + k[1:]] = v
        nums.update(vs_nums(fd, 'vs', g, h, al, be))
        self.pw = [g * pow(al, j, P) % P for j in range(ny)]
        self.ck = [h * pow(be, 2 * i, P) % P for i in range(nx)]
        for j in range(ny):
            nums[('srs', ('f', 1), ix(j))] = self.pw[j]
        return nums, {sr + (('f', fd.srs[0]),): 1, sr + (('f', fd.srs[1]),): 2 * nx - 1, ('srs', ('f', 1)): ny}

    def build(self):
        nums, lens = self.key()
        bf = self.fd.biv if self.mod == PC else self.fd.tbiv
        pn, pl = poly_nums('poly', bf, self.degs, self.rnd)
        nums.update(pn)
        lens.update(pl)
        self.cs = [[self.rnd('coef', i, j) for j in range(d)] for i, d in enumerate(self.degs)]
        x, y = self.rnd('x'), self.rnd('y')
        nums[('pt', ('f', 0))], nums[('pt', ('f', 1))] = x, y
        self.s = Sess(self.lab, self.seed, self.zeros, lens, nums)
        self.want_ycoms = [spec.dot(c, self.pw) for c in self.cs] + [0] * (self.nx - len(self.cs))
        self.want_com = pf(self.s.env) * spec.dot(self.ck, self.want_ycoms) % P
        rows = [c + [0] * (self.ny - len(c)) for c in self.cs]
        self.want_yeval = spec.dot(self.pw, [sum(pow(x, i, P) * c[j] for i, c in enumerate(rows)) % P for j in range(self.ny)]) if all(len(c) == self.ny for c in rows) else None
        self.s.bind(com=F(self.want_com), yc=tuple(F(v) for v in self.want_ycoms), ev=F(bi_eval(self.cs, x, y)))

    G = ['P', 'D']

    def commit(self):
        return self.s.ok(self.mod + 'BivariatePolynomialCommitment::commit', self.G, [param('srs'), param('poly')], 'run')

    def prove(self):
        v = self.s.ok(self.mod + 'BivariatePolynomialCommitment::open', self.G, [param('srs'), param('poly'), param('yc'), param('pt')], 'run')
        self.s.bind(pf=v)
        return v

    def verify(self, s=None):
        return (s or self.s).call(self.mod + 'BivariatePolynomialCommitment::verify', self.G,
                                  [param('vs' if self.mod == PC else 'srs'), param('com'), param('pt'), param('ev'), param('pf')], 'run')


class TBivRun(BivRun):
    name = 'bivariate transparent commitment'
    mod = TR
    paths = tuple(TR + 'BivariatePolynomialCommitment::' + f for f in ('commit', 'open', 'verify'))

    def key(self):
        nx, ny = self.nx, self.ny
        self.pw = [self.rnd('pw', j) for j in range(ny)]
        self.ck = [self.rnd('ck', i) for i in range(nx)]
        nums = {('srs', ('f', 0), ix(j)): v for j, v in enumerate(self.pw)}
        nums.update({('srs', ('f', 1), ix(j)): v for j, v in enumerate(self.ck)})
        return nums, {('srs', ('f', 0)): ny, ('srs', ('f', 1)): nx}


class UniRun(BivRun):
    """univariate polynomial with d coefficients under a key for max degree D"""
    name = 'univariate KZG commitment'
    paths = tuple(PC + 'UnivariatePolynomialCommitment::' + f for f in ('commit', 'open', 'verify'))

    def __init__(self, lab, deg, d, seed=1, zeros=0):
        self.deg, self.d = deg, d
        self.nx, self.ny = uni_shape(lab, self.mod, deg)
        Run.__init__(self, lab, seed, zeros)

    def build(self):
        nums, lens = self.key()
        self.flat = [self.rnd('coef', j) for j in range(self.d)]
        for j, c in enumerate(self.flat):
            nums[('poly', ('f', 0), ix(j))] = c
        lens[('poly', ('f', 0))] = self.d
        z = self.rnd('z')
        nums[('z',)] = z
        rows = self.flat + [0] * (self.nx * self.ny - self.d)
        self.cs = [rows[i * self.ny:(i + 1) * self.ny] for i in range(self.nx)]
        self.s = Sess(self.lab, self.seed, self.zeros, lens, nums, {('deg',): self.deg})
        self.want_ycoms = [spec.dot(c, self.pw) for c in self.cs]
        self.want_com = pf(self.s.env) * spec.dot(self.ck, self.want_ycoms) % P
        x = pow(z, self.ny, P)
        self.want_yeval = spec.dot(self.pw, [sum(pow(x, i, P) * c[j] for i, c in enumerate(self.cs)) % P for j in range(self.ny)])
        self.s.bind(com=F(self.want_com), yc=tuple(F(v) for v in self.want_ycoms), ev=F(spec.poly_eval(self.flat, z)))

    def commit(self):
        return self.s.ok(self.mod + 'UnivariatePolynomialCommitment::commit', self.G, [param('srs'), param('poly')], 'run')

    def prove(self):
        v = self.s.ok(self.mod + 'UnivariatePolynomialCommitment::open', self.G, [param('srs'), param('poly'), param('yc'), param('z')], 'run')
        self.s.bind(pf=v)
        return v

    def verify(self, s=None):
        a = [param('vs'), param('deg'), param('com')] if self.mod == PC else [param('srs'), param('com')]
        return (s or self.s).call(self.mod + 'UnivariatePolynomialCommitment::verify', self.G, a + [param('z'), param('ev'), param('pf')], 'run')


class TUniRun(UniRun):
    name = 'univariate transparent commitment'
    mod = TR
    paths = tuple(TR + 'UnivariatePolynomialCommitment::' + f for f in ('commit', 'open', 'verify'))
    key = TBivRun.key


def uni_shape(lab, mod, deg):
    """(x keys, y keys) of the key the public setup creates for this degree"""
    s = Sess(lab, 1, 0, ints={('deg',): deg})
    v = s.ok(mod + 'UnivariatePolynomialCommitment::setup', ['P', 'D', 'R'], [param('rng'), param('deg')], 'setup')
    ev = Ev(s.env)
    if mod == PC:
        srs, kz = v.a
        h = srs.a[2 + fields(lab).srs[1]]
        return (len(ev.seq(h)) + 1) // 2, len(ev.seq(kz))
    return len(ev.seq(v.a[1])), len(ev.seq(v.a[0]))
