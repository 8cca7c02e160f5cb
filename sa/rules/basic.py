"""Local contracts: C13-C20, C24, C26-C28."""
import itertools
from ..proto import *
from .. import spec
from ..spec import inv
from . import verdicts as V
from .runs import *
from ..report import Report
from .agree import nostuck, describe, proof_field, big_polys, by_class

IPT = IPP + 'InnerProduct'
DHT = DHC + 'DoublyHomomorphicCommitment'
IPS = [('PairingInnerProduct', 'pairing'), ('MultiexponentiationInnerProduct', 'multiexponentiation'), ('ScalarInnerProduct', 'scalar')]
AF = DHC + 'afgho16::'
G = {'k': 'param', 'n': 'G'}
COMS = [('AFGHO over G1', AF + 'AFGHOCommitmentG1', GC1, True), ('AFGHO over G2', AF + 'AFGHOCommitmentG2', GC2, True),
        ('Pedersen', DHC + 'pedersen::PedersenCommitment', adt(DHC + 'pedersen::PedersenCommitment', G), False)]
IDC = DHC + 'identity::IdentityCommitment'
IDT = adt(IDC, par('T'), par('F'))


def ip_path(n):
    return '<%s%s as %s>::inner_product' % (IPP, n, IPT)


def impl(lab, ty, trait, m, targ):
    """(path, generics) of a trait method: the type's own, or the trait's default instantiated at the type"""
    p = '<%s as %s>::%s' % (ty, trait, m)
    try:
        lab.find(p)
        return p, None
    except Missing:
        return '%s::%s' % (trait, m), [targ]


def com(lab, c, m):
    return impl(lab, c[1], DHT, m, c[2])


def kind_of(k, v):
    """an Option that is None counts as a refusal"""
    if k == OK and isinstance(v, St) and v.tag == 'adt' and str(v.a[0]).endswith('Option'):
        return ('none', None) if v.a[1] == 0 else (OK, v.a[2])
    return k, v


def call(lab, path, gens, lens, args, seed, ints=None, nums=None, key=None):
    s = Sess(lab, seed, 0, lens, nums, ints)
    k, v = s.call(path, gens, [param(a) for a in args], key or ','.join(args))
    k, v = kind_of(k, v)
    return s, k, v


# ---------------------------------------------------------------------- C13
def C13(R, labs, deep):
    N = 9 if deep else 5
    for cfg, lab in labs.items():
        R.cfg = cfg
        every = [ip_path(n) for n, _ in IPS] + [com(lab, c, m)[0] for c in COMS for m in ('commit', 'verify')] + [IPP + 'cfg_multi_pairing', SIPPM + 'product_of_pairings']
        far = {p for c in [16, 33, 64] + near(lab, every, 1100) for p in ((c, c + 1), (c + 1, c), (c, 2 * c), (2 * c, c), (c, 0), (0, c), (c, 1), (1, c))}
        # lengths that agree in their low bits
        far = sorted(far | {p for c in (0, 1, 2, 4) for b in (8, 16) for p in ((c, c + (1 << b)), (c + (1 << b), c))})
        for a, b in list(itertools.product(range(N), range(N))) + far:
            if a == b:
                continue
            smp = {'left': a, 'right': b}

            def two(rule, path, gens, err, what):
                def go():
                    s, k, v = call(lab, path, gens, {('l',): a, ('r',): b}, 'lr', R.seed)
                    good = k == ERR if err else k != OK
                    R.check(rule, s.fns[0], good, '%s of lengths %d and %d does not return an error (%s)' % (what, a, b, k), smp)
                probe(R, rule, path, go)
            for n, w in IPS:
                two('inner product rejects unequal lengths', ip_path(n), None, True, 'the %s inner product' % w)
            two('pairing product rejects unequal lengths', IPP + 'cfg_multi_pairing', None, False, 'the multi-pairing')
            two('pairing product rejects unequal lengths', SIPPM + 'product_of_pairings', None, False, 'the pairing product')

            def idc():
                p, g = impl(lab, IDC, DHT, 'commit', IDT)
                s, k, v = call(lab, p, g, {('l',): a, ('r',): b}, 'lr', R.seed)
                R.check('commitment never drops part of the message', s.fns[0], k != OK or flat(s.env, v) == tuple(spec.seq(s.env, ('r',), b)),
                        'the identity commitment to %d messages under %d keys does not hold every message' % (b, a), smp)
            probe(R, 'commitment never drops part of the message', IDC, idc)
            for c in COMS:
                def commit():
                    p, g = com(lab, c, 'commit')
                    two('commitment rejects unequal lengths', p, g, True, 'the %s commitment' % c[0])

                    def ver():
                        p, g = com(lab, c, 'verify')
                        s, k, v = call(lab, p, g, {('l',): a, ('r',): b}, ['l', 'r', 'com'], R.seed)
                        R.check('commitment check rejects unequal lengths', s.fns[0], not (k == OK and v is True) and k in (ERR, OK),
                                'verification of a %s commitment with %d keys and %d messages does not reject (%s %s)' % (c[0], a, b, k, v), smp)
                    R.guard('commitment check rejects unequal lengths', c[1], ver)
                R.guard('commitment rejects unequal lengths', c[1], commit)
        M = [0, 1, 2, 4] + ([3, 8] if deep else [])
        for a, b, r in itertools.product(M, M, M):
            if a == b == r:
                continue
            smp = {'a': a, 'b': b, 'r': r}

            def three(path, gens, args, lens, what):
                rule = 'SIPP operation rejects unequal lengths'

                def go():
                    l = {('a',): a, ('b',): b, ('r',): r}
                    l.update(lens)
                    s, k, v = call(lab, path, gens, l, args, R.seed)
                    R.check(rule, s.fns[0], k != OK or v is False, '%s with %d, %d elements and %d coefficients returns a result' % (what, a, b, r), smp)
                R.guard(rule, path, go)
            three(SIPPM + 'product_of_pairings_with_coeffs', None, 'abr', {}, 'the pairing product')
            three(SIPP + 'prove', ['E', 'D'], 'abrv', {}, 'SIPP proving')
            rounds = {lg(x) for x in (a, b, r) if x and x & (x - 1) == 0}
            for l in rounds:
                three(SIPP + 'verify', ['E', 'D'], ['a', 'b', 'r', 'v', 'pf'], {pv('pf', fields(lab).sipp): l}, 'SIPP verification')
        # a verifier that computed over a shorter vector could accept: solve for acceptance as well
        for l in (1, 2):
            n = 1 << l
            for la, lb, lr in ((n, n, n - 1), (n, n, n + 1), (n, 2 * n, n), (n, n - 1, n), (n, 2 * n, 2 * n), (2 * n, n, n), (n, n, 2 * n)):
                def sv():
                    st = pv('a4', fields(lab).sipp)
                    sc = Scene(lab.fn(SIPP + 'verify', ['E', 'D']), {('a0',): la, ('a1',): lb, ('a2',): lr, st: l}, [('a3',)], None, {'a': la, 'b': lb, 'r': lr, 'rounds': l}, seed=R.seed)
                    never(R, 'SIPP operation rejects unequal lengths', sc, 'SIPP accepts %d, %d elements with %d coefficients' % (la, lb, lr))
                R.guard('SIPP operation rejects unequal lengths', SIPP + 'verify', sv)


# ---------------------------------------------------------------------- C14
def C14(R, labs, deep):
    rule = 'pairing product covers every pair exactly once'
    lens = list(range(0, 65 if deep else 41)) + [63, 64, 65, 100, 127, 128]
    threads = list(range(1, 65 if deep else 34))
    for cfg, lab in labs.items():
        R.cfg = cfg
        every = [ip_path('PairingInnerProduct'), IPP + 'cfg_multi_pairing', SIPPM + 'product_of_pairings', SIPPM + 'product_of_pairings_with_coeffs']
        far = near(lab, every, 1100)
        grid = list(itertools.product(lens, threads)) + list(itertools.product(far, (1, 2, 3, 4, 7, 8, 64))) + list(itertools.product((1, 5, 8, 64, 100), [x for x in far if x] + [40, 64, 100]))
        for n, th in grid:
            def one(path, args, what):
                def go():
                    s = Sess(lab, R.seed, 0, {(x,): n for x in 'lrc'}, ints={'threads': th})
                    k, v = s.call(path, None, [param(a) for a in args], ','.join(args))
                    k, v = kind_of(k, v)
                    e = s.env
                    c = spec.seq(e, ('c',), n) if len(args) == 3 else [1] * n
                    want = pf(e) * sum(x * y % P * z for x, y, z in zip(spec.seq(e, ('l',), n), spec.seq(e, ('r',), n), c)) % P
                    smp = {'length': n, 'threads': th}
                    if k != OK:
                        R.violate(rule, s.fns[0], '%s of %d pairs on %d threads fails (%s)' % (what, n, th, k), smp)
                    else:
                        R.check(rule, s.fns[0], number(e, v) == want, '%s of %d pairs on %d threads is not the sum of e(left_i, right_i)' % (what, n, th), smp)
                (probe if n <= 6 and th <= 3 else Report.guard)(R, rule, path, go)
            one(ip_path('PairingInnerProduct'), 'lr', 'the pairing inner product')
            one(IPP + 'cfg_multi_pairing', 'lr', 'the multi-pairing')
            one(SIPPM + 'product_of_pairings', 'lr', 'the pairing product')
            one(SIPPM + 'product_of_pairings_with_coeffs', 'lrc', 'the scaled pairing product')


# ---------------------------------------------------------------------- C16
def C16(R, labs, deep):
    N = 17 if deep else 9
    for cfg, lab in labs.items():
        R.cfg = cfg
        every = [ip_path(n) for n, _ in IPS] + [com(lab, c, m)[0] for c in COMS for m in ('commit', 'verify')] + [impl(lab, IDC, DHT, 'commit', IDT)[0]]
        for n in list(range(N)) + sorted({31, 32, 33, 64, 100, 128} | set(near(lab, every, 1100))):
            for s_ in range(3 if deep else 1) if n < N else (0,):
                sd = R.seed * 37 + s_
                lens = {('l',): n, ('r',): n}
                ld = lambda e: spec.dot(spec.seq(e, ('l',), n), spec.seq(e, ('r',), n))
                smp = {'length': n}

                def value_is(rule, path, gens, args, want, what):
                    def go():
                        s, k, v = call(lab, path, gens, lens, args, sd)
                        if k != OK:
                            R.violate(rule, s.fns[0], '%s of length %d fails (%s)' % (what, n, k), smp)
                        else:
                            R.check(rule, s.fns[0], number(s.env, v) == want(s.env) % P, '%s of length %d is not the sum of its products' % (what, n), smp)
                    probe(R, rule, path, go)
                value_is('inner product formula', ip_path('PairingInnerProduct'), None, 'lr', lambda e: pf(e) * ld(e), 'the pairing inner product')
                value_is('inner product formula', ip_path('MultiexponentiationInnerProduct'), None, 'lr', ld, 'the multiexponentiation inner product')
                value_is('inner product formula', ip_path('ScalarInnerProduct'), None, 'lr', ld, 'the scalar inner product')
                for c in COMS:
                    def commit():
                        p, g = com(lab, c, 'commit')
                        value_is('commitment formula', p, g, 'lr', (lambda e: pf(e) * ld(e)) if c[3] else ld, 'the %s commitment' % c[0])
                    R.guard('commitment formula', c[1], commit)
                    R.guard('verify iff recomputed commitment equals', c[1], lambda: verify_exact(R, lab, c, n, sd))
                probe(R, 'identity commitment', IDC, lambda: identity(R, lab, n, sd))
                for m in (0, 1, n - 1, n + 1, 2 * n):
                    if m != n and m >= 0:
                        probe(R, 'identity commitment', IDC, lambda: id_lengths(R, lab, n, m, sd))
                probe(R, 'identity output arithmetic', IDC, lambda: id_arith(R, lab, n, sd))


def verify_exact(R, lab, c, n, sd):
    rule = 'verify iff recomputed commitment equals'
    p, g = com(lab, c, 'verify')
    for delta in (0, 1):
        s = Sess(lab, sd, 0, {('l',): n, ('r',): n})
        e = s.env
        want = spec.dot(spec.seq(e, ('l',), n), spec.seq(e, ('r',), n)) * (pf(e) if c[3] else 1)
        s.bind(com=F((want + delta * (1 + e.uf('delta'))) % P))
        k, v = s.call(p, g, [param('l'), param('r'), param('com')], 'b')
        R.check(rule, s.fns[0], k == OK and v is (delta == 0), 'verification of a %s %s commitment of length %d gives %s' % (['correct', 'wrong'][delta], c[0], n, v if k == OK else k),
                {'length': n, 'claimed': ['the commitment', 'another value'][delta]})


def flat(env, v):
    v = plain(env, v)
    while isinstance(v, tuple) and len(v) == 1 and isinstance(v[0], tuple):
        v = v[0]
    return v


def identity(R, lab, n, sd):
    rule = 'identity commitment'
    p, g = impl(lab, IDC, DHT, 'commit', IDT)
    s, k, v = call(lab, p, g, {('l',): n, ('r',): n}, 'lr', sd)
    want = tuple(spec.seq(s.env, ('r',), n))
    smp = {'length': n}
    if not R.check(rule, s.fns[0], k == OK and flat(s.env, v) == want, 'the identity commitment is not the message vector', smp):
        return
    p, g = impl(lab, IDC, DHT, 'verify', IDT)
    for j in range(-1, n):
        s = Sess(lab, sd, 0, {('l',): n, ('r',): n})
        w = list(want)
        if j >= 0:
            w[j] = (w[j] + 1) % P
        s.bind(com=mkid(s.env, v, w))
        k2, ok = s.call(p, g, [param('l'), param('r'), param('com')], 'b')
        R.check('verify iff recomputed commitment equals', s.fns[0], k2 == OK and ok is (j < 0), 'identity verification gives %s with %s' % (ok if k2 == OK else k2, 'the message' if j < 0 else 'position %d changed' % j), smp)


def id_lengths(R, lab, n, m, sd):
    """an identity output holding another number of elements is not the commitment"""
    p, g = impl(lab, IDC, DHT, 'commit', IDT)
    s, k, v = call(lab, p, g, {('l',): n, ('r',): n}, 'lr', sd)
    if k != OK:
        return
    want = spec.seq(s.env, ('r',), n)
    p, g = impl(lab, IDC, DHT, 'verify', IDT)
    s = Sess(lab, sd, 0, {('l',): n, ('r',): n})
    s.bind(com=mkid(s.env, v, (list(want) + [s.env.uf('more', i) for i in range(m)])[:m]))
    k2, ok = s.call(p, g, [param('l'), param('r'), param('com')], 'b')
    R.check('verify iff recomputed commitment equals', s.fns[0], k2 != OK or ok is not True, 'an identity output of %d elements is accepted for %d messages' % (m, n), {'messages': n, 'claimed': m})


def mkid(env, shape, w):
    """an identity output holding w, in the shape of another one"""
    if isinstance(shape, St) and shape.tag == 'adt':
        return St('adt', shape.a[:2] + (tuple(F(x) for x in w),))
    raise Opaque('shape of an identity output')


def id_arith(R, lab, n, sd):
    rule = 'identity output arithmetic'
    out = IDC.replace('Commitment', 'Output')
    p = '<%s as std::ops::Add>::add' % out
    lens = {('x', ('f', 0)): n, ('y', ('f', 0)): n}
    s, k, v = call(lab, p, None, lens, 'xy', sd)
    e = s.env
    xs, ys = spec.seq(e, ('x', ('f', 0)), n), spec.seq(e, ('y', ('f', 0)), n)
    smp = {'length': n}
    R.check(rule, s.fns[0], k == OK and flat(e, v) == tuple((a + b) % P for a, b in zip(xs, ys)), 'adding identity outputs does not add every component', smp)
    p = '<%s as std::ops::MulAssign>::mul_assign' % out
    s = Sess(lab, sd, 0, lens)
    f = s.fn(p, None, [param('x'), param('c')], 'b')
    k, _ = outcome(f, s.env)
    if k != OK:
        R.violate(rule, f, 'scaling an identity output fails (%s)' % k, smp)
        return
    m = mutval(f, s.env, 0)
    c = spec.num(s.env, ('c',))
    xs = spec.seq(s.env, ('x', ('f', 0)), n)
    R.check(rule, f, flat(s.env, proof_field(s.env, m, 0)) == tuple(a * c % P for a in xs), 'scaling an identity output does not scale every component', smp)


# ---------------------------------------------------------------------- C15
def gipa_prove_scene(lab, na, nb, ka, kb, seed):
    fn = lab.fn(GIPA + 'prove', GENERIC)
    pa, pb = pv('a0', 0), pv('a0', 1)

    def sp(env):
        a, b = spec.seq(env, pa, na), spec.seq(env, pb, nb)
        tt = spec.num(env, pv('a0', 2))
        return [{'claimed inner product is the inner product': tt - spec.form(env, 'ip', 'IP') * spec.dot(a, b),
                 'left commitment opens to the left message': spec.num(env, pv('a2', 0)) - spec.form(env, 'commit', 'LMC') * spec.dot(spec.seq(env, pv('a1', 0), ka), a),
                 'right commitment opens to the right message': spec.num(env, pv('a2', 1)) - spec.form(env, 'commit', 'RMC') * spec.dot(spec.seq(env, pv('a1', 1), kb), b),
                 'inner-product commitment opens to the claimed value': spec.num(env, pv('a2', 2)) - spec.form(env, 'commit', 'IPC') * spec.num(env, pv('a1', 2)) * tt}]
    sc = Scene(fn, {pa: na, pb: nb, pv('a1', 0): ka, pv('a1', 1): kb}, [pv('a0', 2), pv('a2', 0), pv('a2', 1), pv('a2', 2)], sp,
               {'left': na, 'right': nb, 'left keys': ka, 'right keys': kb}, seed=seed)
    sc.succeeds = True
    return sc


def C15(R, labs, deep):
    rule = 'a proof is returned only for a true statement'
    for cfg, lab in labs.items():
        R.cfg = cfg
        for n in [1, 2, 4, 8, 16, 32] + big_sizes(lab, [GIPA + 'prove'], deep):
            for s in range(2 if deep else 1):
                for z in (0, 2) if n <= 16 else (0,):
                    R.guard(rule, GIPA + 'prove', lambda: soundness(R, rule, gipa_prove_scene(lab, n, n, n, n, R.seed * 41 + s), z))
        rule2 = 'message length must be a power of two'
        for n in [0, 3, 5, 6, 7, 9, 12, 15, 48, 96, 192] + [x for x in near(lab, [GIPA + 'prove'], 200) if x & (x - 1)]:
            R.guard(rule2, GIPA + 'prove', lambda: never(R, rule2, gipa_prove_scene(lab, n, n, n, n, R.seed), 'the prover returns a proof for messages of length %d' % n))
        for n, m in ((4, 2), (2, 4), (4, 3), (1, 2), (2, 1), (8, 4)):
            R.guard(rule2, GIPA + 'prove', lambda: never(R, rule2, gipa_prove_scene(lab, n, m, n, m, R.seed), 'the prover returns a proof for messages of lengths %d and %d' % (n, m)))
        rule3 = 'the prover fails with an error, not a panic'
        for n in (0, 1, 2, 3, 4, 5, 6):
            def err():
                sc = gipa_prove_scene(lab, n, n, n, n, R.seed)
                k, v = outcome(sc.fn, sc.env())
                R.check(rule3, sc.fn, k == ERR, 'a false statement of length %d gives %s instead of an error' % (n, k), sc.sample)
            R.guard(rule3, GIPA + 'prove', err)


# ---------------------------------------------------------------------- setups
def run_setup(lab, path, gens, ints, seed, rng=0, draws=None):
    """evaluate a setup function for given sizes; parameters other than the randomness source by position"""
    s = Sess(lab, seed, 0, ints={(k,): v for k, v in ints})
    base = s.env.uf('rng', rng) % P
    s.bind(rng=F(base))
    if draws is not None:
        s.env.frozen = {'be': [], 'frb': [], 'draw': draws}
    k, v = s.call(path, gens, [param('rng')] + [param(n) for n, _ in ints], 'setup')
    return s, k, v


def chain(env, n=400):
    """canonical states of the caller's randomness source after 0, 1, 2.. draws -> index"""
    ev = Ev(env)
    st, out = param('rng'), {}
    for i in range(n):
        v = ev.ev(st)
        out[ev.canon(v)] = i
        st = mk('rngadv', st)
        env.binds['rngst%d' % i] = v
        st = mk('rngadv', param('rngst%d' % i))
    return out


def uses(env):
    """rng state -> what it was used for"""
    u = {}
    for k in env.draws:
        src = env.rngsrc.get(k, k)
        u.setdefault(src, set()).add('draw')
    for name, k in env.keycalls:
        u.setdefault(k, set()).add('keys of ' + name)
    return u


def fresh_source(R, rule, fn, s, smp):
    """every draw uses its own state of the caller's source"""
    e = s.env
    ch = chain(e, 8 + 2 * (len(e.draws) + sum(e.keycalls.values())))
    u = uses(e)
    for st, w in u.items():
        R.check(rule, fn, len(w) == 1, 'two outputs are sampled from the same state of the randomness source (%s)' % ', '.join(sorted(w)), smp)
    return [st for st in u if st not in ch]


def seqs(env, v):
    """the vectors and loose group elements of a setup result"""
    if isinstance(v, St) and v.tag in ('tup', 'adt'):
        out = []
        for x in (v.a if v.tag == 'tup' else v.a[2:]):
            out += seqs(env, x)
        return out
    if isinstance(v, tuple):
        return [list(v)]
    if isinstance(v, St) and v.tag == 'keys':
        return [v]
    return [[v]]


# ---------------------------------------------------------------------- C17
def C17(R, labs, deep):
    rule = 'generators are independent draws of the requested number'
    GM = ['IP', 'LMC', 'RMC', 'IPC', 'D', 'R']
    for cfg, lab in labs.items():
        R.cfg = cfg
        N = sorted({0, 1, 2, 3, 4, 5, 8, 13, 16, 33, 64, 100} | set(near(lab, [DHC + 'random_generators', GIPA + 'setup', GSSM + 'setup'], 2100)))
        for n in N:
            for c in COMS:
                def dh():
                    p, g = impl(lab, c[1], DHT, 'setup', c[2])
                    gens_ok(R, rule, lab, p, g, [('size', n)], [n])
                R.guard(rule, c[1], dh)
            R.guard(rule, 'random_generators', lambda: gens_ok(R, rule, lab, DHC + 'random_generators', None, [('size', n)], [n]))
            R.guard(rule, GIPA + 'setup', lambda: gens_ok(R, rule, lab, GIPA + 'setup', GM, [('size', n)], [n, n, 1]))
            R.guard(rule, GIPA + 'setup', lambda: gens_ok(R, rule, lab, GIPA + 'setup', [PAIRING_IP, GC2, GC1, PED1, 'D', 'R'], [('size', n)], [n, n, 1]))
            R.guard(rule, GSSM + 'setup', lambda: gens_ok(R, rule, lab, GSSM + 'setup', ['IP', 'LMC', 'IPC', 'D', 'R'], [('size', n)], [n, 1]))
            R.guard(rule, GSSM + 'setup', lambda: gens_ok(R, rule, lab, GSSM + 'setup', [MSM_IP, GC1, PED1, 'D', 'R'], [('size', n)], [n, 1]))
        for x in (0, 1, 2, 3, 7):
            for y in (0, 1, 2, 4):
                R.guard(rule, TR + 'BivariatePolynomialCommitment::setup',
                        lambda: gens_ok(R, rule, lab, TR + 'BivariatePolynomialCommitment::setup', ['P', 'D', 'R'], [('x', x), ('y', y)], [y + 1, x + 1]))
        for d in [0, 1, 2, 3, 5, 10, 15, 31, 63, 100, 255] + near(lab, [TR + 'UnivariatePolynomialCommitment::setup'], 1100, True):
            R.guard(rule, TR + 'UnivariatePolynomialCommitment::setup',
                    lambda: gens_ok(R, rule, lab, TR + 'UnivariatePolynomialCommitment::setup', ['P', 'D', 'R'], [('deg', d)], None))


def gens_ok(R, rule, lab, path, gens, ints, want):
    s, k, v = run_setup(lab, path, gens, ints, R.seed)
    fn = s.fns[0]
    smp = dict(ints)
    if k != OK:
        R.violate(rule, fn, 'setup fails (%s) for %s' % (k, smp), smp)
        return
    e = s.env
    vs = seqs(e, v)
    count = [x.a[2] if isinstance(x, St) else len(x) for x in vs]
    if want is not None and not R.check(rule, fn, count == want, 'setup for %s returns %s generators instead of %s' % (smp, count, want), smp):
        return
    elems = [modp(x) for q in vs if not isinstance(q, St) for x in q]
    gen_calls = sum(1 for q in vs if isinstance(q, St))
    bad = fresh_source(R, rule, fn, s, smp)
    # another state of the source: constants stay, derived elements keep their ratio
    s2, k2, v2 = run_setup(lab, path, gens, ints, R.seed, rng=1)
    el2 = [modp(x) for q in seqs(s2.env, v2) if not isinstance(q, St) for x in q] if k2 == OK else None
    ch = chain(e, 8 + 2 * (len(e.draws) + sum(e.keycalls.values())))
    loose = len(e.keycalls) - gen_calls       # single keys handed out as elements
    for (nm, st), c in e.keycalls.items():
        if st not in ch:
            bad.append(st)
    if el2 is not None:
        for i, (a, b) in enumerate(zip(elems, el2)):
            R.check(rule, fn, a != b, 'generator %d does not come from the randomness source' % i, smp)
        same, ratio = {}, {}
        for i, (x, y) in enumerate(zip(elems, el2)):
            j = same.setdefault(x, i)
            R.check(rule, fn, j == i, 'generators %d and %d are the same element' % (j, i), smp)
            # two elements in a ratio that does not depend on the randomness
            j = ratio.setdefault(x * inv(y) % P, i) if x and y else i
            R.check(rule, fn, j == i, 'generator %d is a fixed multiple of generator %d' % (i, j), smp)
    nd = len(e.record['draw'])
    for i, val in itertools.product(range(nd) if nd <= 5 else (), (0, 1)):
        s3, k3, v3 = run_setup(lab, path, gens, ints, R.seed, draws=[F(val) if q == i else F(e.uf('other', q)) for q in range(i + 1)])
        if k3 == OK:
            c3 = [x.a[2] if isinstance(x, St) else len(x) for x in seqs(s3.env, v3)]
            R.check(rule, fn, c3 == count, 'setup for %s returns %s generators instead of %s when draw %d is %d' % (smp, c3, count, i, val), dict(smp, draw=i, value=val))
    R.check(rule, fn, len(e.draws) + loose >= len(elems), '%d generators are computed from %d draws' % (len(elems), len(e.draws) + loose), smp)
    # every element is one draw (or a fixed generator scaled by one draw)
    dv = {modp(v) for _, v in e.draws.values()}
    gv = [1] + [modp(e.uf('gen', x)) for x in gen_names(fn)]
    for i, x in enumerate(elems):
        if not any(x * inv(g) % P in dv for g in gv) and not loose:
            bad.append(i)
    if bad:
        R.undecided(rule, fn, '%s: %d draws or elements of unknown origin' % (smp, len(bad)))


def gen_names(fn):
    out = set()
    seen = set()
    st = [fn.value]
    while st:
        x = st.pop()
        if isinstance(x, t.T):
            if id(x) in seen:
                continue
            seen.add(id(x))
            if x.op == 'gen':
                from ..evalt import tyname
                out.add(tyname(x.args[0]))
            st += list(x.args)
        elif isinstance(x, tuple):
            st += list(x)
    return out


# ---------------------------------------------------------------------- C18
STRUCT = [(TIPA + 'setup', ['IP', 'LMC', 'RMC', 'IPC', 'P', 'D', 'R'], 'tipa'), (TSSM + 'setup', ['IP', 'LMC', 'IPC', 'P', 'D', 'R'], 'tipa'),
          (G16 + 'setup_inner_product', ['P', 'D', 'R'], 'srs'), (PC + 'KZG::setup', ['P', 'R'], 'kzg'),
          (PC + 'BivariatePolynomialCommitment::setup', ['P', 'D', 'R'], 'biv'), (PC + 'UnivariatePolynomialCommitment::setup', ['P', 'D', 'R'], 'uni')]


def structured_grid(lab, deep):
    for path, gens, kind in STRUCT:
        far = near(lab, [path], 1100 if kind not in ('tipa', 'srs', 'biv') else 200, kind not in ('tipa', 'srs', 'kzg', 'biv'))
        if kind in ('tipa', 'srs'):
            for n in [1, 2, 3, 4, 5, 8, 16, 31, 64] + [x for x in far if x]:
                yield path, gens, kind, [('size', n)]
        elif kind == 'kzg':
            for n in [0, 1, 2, 3, 6, 8, 33, 64] + far:
                yield path, gens, kind, [('deg', n)]
        elif kind == 'biv':
            for x in (0, 1, 2, 3, 7):
                for y in (0, 1, 2, 4):
                    yield path, gens, kind, [('x', x), ('y', y)]
        else:
            for d in [0, 1, 2, 3, 5, 10, 15, 31, 63, 100, 255] + far:
                yield path, gens, kind, [('deg', d)]


def srs_parts(fd, kind, ints, v, e):
    """(g powers, h powers, g^beta, h^alpha, expected lengths)"""
    ev = Ev(e)
    I = dict(ints)
    num1 = lambda x: modp(ev.num(x))
    lst = lambda x: [modp(y) for y in ev.seq(x)]
    f = lambda x, i: proof_field(e, x, i)
    if kind in ('tipa', 'srs'):
        q = f(v, 0) if kind == 'tipa' else v
        m = 2 * I['size'] - 1
        return lst(f(q, fd.srs[0])), lst(f(q, fd.srs[1])), num1(f(q, fd.srs[2])), num1(f(q, fd.srs[3])), (m, m)
    if kind == 'kzg':
        q = f(v, 1)
        gp, h = lst(f(v, 0)), num1(f(q, fd.vs[1]))
        if gp and num1(f(q, fd.vs[0])) != gp[0]:
            gp = [num1(f(q, fd.vs[0]))] + gp
        return gp, [h], num1(f(q, fd.vs[2])), num1(f(q, fd.vs[3])), (I['deg'] + 1, 1)
    q = f(v, 0)
    gp, one = lst(f(v, 1)), lst(f(q, fd.srs[0]))
    want = (I['y'] + 1, 2 * I['x'] + 1) if kind == 'biv' else None
    if one[:1] != gp[:1] or len(one) < 1:
        gp = one + gp
    return gp, lst(f(q, fd.srs[1])), num1(f(q, fd.srs[2])), num1(f(q, fd.srs[3])), want


def C18(R, labs, deep):
    rule = 'structured reference string is well formed'
    for cfg, lab in labs.items():
        R.cfg = cfg
        fd = fields(lab)
        for path, gens, kind, ints in structured_grid(lab, deep):
            def go():
                s, k, v = run_setup(lab, path, gens, ints, R.seed)
                fn = s.fns[0]
                smp = dict(ints)
                if k != OK:
                    R.violate(rule, fn, 'setup fails (%s) for %s' % (k, smp), smp)
                    return
                e = s.env
                gp, hp, gb, ha, want = srs_parts(fd, kind, ints, v, e)
                if want is not None and not R.check(rule, fn, (len(gp), len(hp)) == want, 'setup for %s returns %d and %d powers instead of %s' % (smp, len(gp), len(hp), want), smp):
                    return
                if not R.check(rule, fn, bool(gp and hp and gp[0] and hp[0]), 'setup for %s returns no generator' % smp, smp):
                    return
                al, be = ha * inv(hp[0]) % P, gb * inv(gp[0]) % P
                R.check(rule, fn, all(x == gp[0] * pow(al, i, P) % P for i, x in enumerate(gp)), 'the G1 elements are not the powers of the trapdoor alpha of h^alpha', smp)
                R.check(rule, fn, all(x == hp[0] * pow(be, i, P) % P for i, x in enumerate(hp)), 'the G2 elements are not the powers of the trapdoor beta of g^beta', smp)
                dv = {}
                for q, (ty, x) in e.draws.items():
                    dv.setdefault(modp(x), q)
                bad = fresh_source(R, rule, fn, s, smp)
                s2, k2, v2 = run_setup(lab, path, gens, ints, R.seed, rng=1)
                g2, h2, gb2, ha2, _ = srs_parts(fd, kind, ints, v2, s2.env)
                al2, be2 = ha2 * inv(h2[0]) % P, gb2 * inv(g2[0]) % P
                R.check(rule, fn, al != be and al * inv(be) % P != al2 * inv(be2) % P, 'the two trapdoors are related', smp)
                R.check(rule, fn, al != al2 and be != be2, 'a trapdoor does not come from the randomness source', smp)
                R.check(rule, fn, len(e.draws) >= 2, 'the two trapdoors are not separate draws', smp)
                if al not in dv or be not in dv or bad:
                    R.undecided(rule, fn, '%s: trapdoor of unknown origin' % smp)
                if kind == 'tipa':
                    R.check(rule, fn, sum(e.keycalls.values()) == 1, 'the inner-product key is not one generated key', smp)
                # whatever value a draw happens to have, the result has the same shape
                nd = len(e.record['draw'])
                if len(gp) > 9 or nd > 4:
                    return
                for i, val in itertools.product(range(nd), (0, 1, 2, P - 1)):
                    s3, k3, v3 = run_setup(lab, path, gens, ints, R.seed, draws=[F(val) if q == i else F(e.uf('other', q)) for q in range(i + 1)])
                    if k3 != OK:
                        continue
                    g3, h3, gb3, ha3, want = srs_parts(fd, kind, ints, v3, s3.env)
                    say = dict(smp, draw=i, value=val)
                    R.check(rule, fn, want is None or (len(g3), len(h3)) == want, 'setup for %s returns %d and %d powers instead of %s when draw %d is %d' % (smp, len(g3), len(h3), want, i, val), say)
                    if g3 and h3 and g3[0] and h3[0]:
                        al, be = ha3 * inv(h3[0]) % P, gb3 * inv(g3[0]) % P
                        R.check(rule, fn, all(x == g3[0] * pow(al, i, P) % P for i, x in enumerate(g3)) and all(x == h3[0] * pow(be, i, P) % P for i, x in enumerate(h3)),
                                'the elements are not the powers of the trapdoors when draw %d is %d' % (i, val), say)
            R.guard(rule, path, go)
        for n, m in [(1, 1), (3, 3), (7, 7), (15, 15), (1, 5), (9, 1)] + ([(31, 31), (63, 63)] if deep else []):
            R.guard('keys extracted from a reference string', TM + 'SRS', lambda: extraction(R, lab, n, m))


def extraction(R, lab, n, m):
    rule = 'keys extracted from a reference string'
    fd = fields(lab)
    lens = {fl(('srs',), fd.srs[0]): n, fl(('srs',), fd.srs[1]): m}
    s, k, v = call(lab, TM + 'SRS::get_commitment_keys', ['P'], lens, ['srs'], R.seed)
    e = s.env
    gp, hp = spec.seq(e, fl(('srs',), fd.srs[0]), n), spec.seq(e, fl(('srs',), fd.srs[1]), m)
    smp = {'g powers': n, 'h powers': m}
    if k != OK:
        R.violate(rule, s.fns[0], 'key extraction fails (%s)' % k, smp)
    else:
        got = plain(e, v)
        R.check(rule, s.fns[0], got == (tuple(hp[::2]), tuple(gp[::2])), 'the commitment keys are not the even-indexed powers (h side left, g side right)', smp)
    s, k, v = call(lab, TM + 'SRS::get_verifier_key', ['P'], lens, ['srs'], R.seed)
    e = s.env
    if k != OK:
        R.violate(rule, s.fns[0], 'verifier key extraction fails (%s)' % k, smp)
    else:
        want = (gp[0], hp[0], spec.num(e, fl(('srs',), fd.srs[2])), spec.num(e, fl(('srs',), fd.srs[3])))
        got = tuple(number(e, proof_field(e, v, f)) for f in fd.vs)
        R.check(rule, s.fns[0], got == want, 'the verifier key is not (first g power, first h power, g^beta, h^alpha)', smp)


# ---------------------------------------------------------------------- C24
FSR = 'ark_sipp::rng::FiatShamirRng::'
FSRNG = '<ark_sipp::rng::FiatShamirRng as ark_std::rand::RngCore>::'
READS = ['next_u32', 'next_u64', 'fill_bytes', 'try_fill_bytes']


class Fsr:
    """one generator, driven through its public methods"""

    def __init__(self, lab, seed):
        self.s = Sess(lab, seed)
        self.k = 0
        self.last = None

    def step(self, path, args, kw):
        self.k += 1
        names = []
        for a in args:
            n = '%s' % a
            names.append(n)
        f = self.s.fn(path, ['D'], [param(n) for n in names], ','.join(names))
        # each call is evaluated with the generator's current value
        e = self.s.env
        e.memo.clear()
        e.binds.update(kw)
        k, v = outcome(f, e)
        if k != OK:
            raise Stuck(k, path)
        return f, v

    def opq(self, name, n):
        self.s.env.lens[(name,)] = n
        return name

    def seed(self, n):
        f, v = self.step(FSR + 'from_seed', [self.opq('seed', n)], {})
        self.rng = v
        return f

    def absorb(self, name, n):
        f, _ = self.step(FSR + 'absorb', ['rng', self.opq(name, n)], {'rng': self.rng})
        self.rng = mutval(f, self.s.env, 0)
        return f

    def read(self, m, n=3):
        a = ['rng'] + ([self.opq('dst%d' % self.k, n)] if 'fill' in m else [])
        f, v = self.step(FSRNG + m, a, {'rng': self.rng})
        out = mutval(f, self.s.env, 1) if 'fill' in m else v
        self.rng = mutval(f, self.s.env, 0)
        return f, out, a[-1]

    def sources(self, out):
        """stream states an output was drawn from"""
        e = self.s.env
        ev = Ev(e)
        xs = out if isinstance(out, tuple) else (out,)
        src = set()
        for x in xs:
            while isinstance(x, St) and x.tag == 'byte':
                x = x.a[0]
            if isinstance(x, St) and ev.canon(x) in e.rngsrc:
                src.add(e.rngsrc[ev.canon(x)])
            else:
                return None
        return src

    def origin(self):
        """bytes that seed the current output stream, and the digest they come from"""
        f, out, _ = self.peek()
        e = self.s.env
        src = self.sources(out)
        if not src or len(src) != 1 or next(iter(src)) not in e.streams:
            raise Opaque('the output stream is not a freshly seeded one')
        sd = e.streams[next(iter(src))]
        ev = Ev(e)
        d = {}
        for i, x in enumerate(sd):
            if isinstance(x, St) and x.tag == 'byte':
                d.setdefault(ev.canon(x.a[0]), {})[x.a[1]] = i
        return f, sd, d

    def peek(self):
        keep = self.rng
        r = self.read('next_u64')
        self.rng = keep
        return r


def C24(R, labs, deep):
    rule = 'the state is a digest of the whole history'
    rule2 = 'reads do not change the digest state'
    rule3 = 'outputs fill every requested byte from the stream'
    for cfg, lab in labs.items():
        R.cfg = cfg
        lens = (0, 1, 2, 7, 31, 32, 33, 64) + ((100, 129, 200) if deep else ())

        def whole(g, f, want, what, smp):
            fr, sd, d = g.origin()
            e = g.s.env
            full = [k for k, v in d.items() if len(v) == e.hlen]
            if not R.check(rule, f, bool(full), '%s: the stream is seeded with only %d bytes of a digest' % (what, max([len(v) for v in d.values()] or [0])), smp):
                return None
            h = e.hashed.get(full[0])
            ev = Ev(e)
            got = [ev.canon(x) for x in h]
            miss = [w for w in want if ev.canon(w[1]) not in got]
            R.check(rule, f, not miss, '%s: the digest does not cover %s' % (what, ', '.join(w[0] for w in miss[:3])), smp)
            return full[0]
        lit = near(lab, [FSR + 'absorb', FSR + 'from_seed'], 4200)
        for n in lens + tuple(lit):
            for m in lens + tuple(lit) * (n == 7) if n in (0, 7, 32) else (7,):
                def go():
                    g = Fsr(lab, R.seed)
                    f = g.seed(n)
                    smp = {'seed bytes': n, 'absorbed bytes': m}
                    D = whole(g, f, [('seed byte %d' % i, Opq(('seed', ix(i)))) for i in range(n)], 'seeding', smp)
                    for r in range(2):
                        if D is None:
                            return
                        e = g.s.env
                        prev = [('byte %d of the previous digest' % i, St('byte', (hval(D), i))) for i in range(e.hlen)]
                        nm = 'x%d' % r
                        f = g.absorb(nm, m)
                        D = whole(g, f, [('absorbed byte %d' % i, Opq((nm, ix(i)))) for i in range(m)] + prev, 'absorbing', dict(smp, absorb=r))
                R.guard(rule, FSR + 'absorb', lambda: nostuck(R, rule, go))
        for r in READS:
            for n in (0, 1, 3, 32, 33):
                def rd():
                    g = Fsr(lab, R.seed)
                    g.seed(5)
                    f, out, dst = g.read(r, n)
                    e = g.s.env
                    ev = Ev(e)
                    smp = {'method': r, 'bytes': n if 'fill' in r else None}
                    if 'fill' in r and n and isinstance(out, tuple):
                        for i, x in enumerate(out):
                            R.check(rule3, f, ev.canon(x) != ev.canon(Opq((dst, ix(i)))), '%s leaves byte %d of %d unfilled' % (r, i, n), smp)
                    if 'fill' in r and n == 0:
                        return
                    if isinstance(out, Opq) and out.path[0] == dst:
                        R.violate(rule3, f, '%s does not fill its buffer' % r, smp)
                        return
                    src = g.sources(out)
                    if src is None:
                        if fixed_output(lab, r, n, R.seed):
                            R.violate(rule3, f, 'the output of %s does not depend on the seed' % r, smp)
                        else:
                            R.undecided(rule3, f, '%s: output of unknown origin' % r)
                        return
                    R.held(rule3, f, smp)
                    if isinstance(out, St) and out.tag == 'rngbytes' and len(out.a) > 1 and 'fill' not in r:
                        w = 4 if r == 'next_u32' else 8
                        R.check(rule3, f, out.a[1] >= w, '%s has only %d bytes of the stream' % (r, out.a[1]), smp)
                    f2, out2, _ = g.read(r, n)
                    s2 = g.sources(out2)
                    R.check('the stream advances with every read', f2, s2 is None or not (s2 & src), 'two reads by %s return the same bytes' % r, smp)
                    g.absorb('x', 4)
                    o1 = g.origin()[1]
                    h = Fsr(lab, R.seed)
                    h.seed(5)
                    h.absorb('x', 4)
                    o2 = h.origin()[1]
                    c = lambda G, o: [Ev(G.s.env).canon(x) for x in o]
                    R.check(rule2, f, c(g, o1) == c(h, o2), 'the state after an absorb depends on what %s read before' % r, smp)
                R.guard(rule3, FSRNG + r, lambda: nostuck(R, rule3, rd))


def hval(c):
    """digest value back from its canonical form"""
    return St(c[0], tuple(F(x[1]) if isinstance(x, tuple) and x[0] == 'n' else x for x in c[1:]))


def fixed_output(lab, r, n, seed):
    outs = []
    for sd in (5, 6):
        g = Fsr(lab, seed)
        g.seed(sd)
        f, out, _ = g.read(r, n)
        outs.append(Ev(g.s.env).canon(out))
    return outs[0] == outs[1]


# ---------------------------------------------------------------------- C20
def refused(R, rule, make, op, what):
    def go():
        r = make()
        fn = None
        try:
            v = getattr(r, op)()
            fn = r.s.fns[-1]
        except Stuck as e:
            R.held(rule, r.s.fns[-1], describe(r))
            return
        if isinstance(v, St) and v.tag == 'adt' and str(v.a[0]).endswith('Option') and v.a[1] == 0:
            R.held(rule, fn, describe(r))
            return
        R.violate(rule, fn, '%s of %s succeeds' % ({'commit': 'the commitment', 'prove': 'the opening'}[op], what), describe(r))
    probe(R, rule, op, go)


def commits_to(R, rule, make):
    def go():
        r = make()
        try:
            v = r.commit()
        except Stuck as e:
            R.violate(rule, e.path, 'committing to a supported polynomial fails (%s)' % e.kind, describe(r))
            return
        e, fn = r.s.env, r.s.fns[-1]
        if isinstance(r, KzgRun):
            R.check(rule, fn, number(e, v) == r.want_com, 'the commitment is not sum_i coefficient_i * power_i', describe(r))
            return
        R.check(rule, fn, number(e, proof_field(e, v, 0)) == r.want_com, 'the commitment does not hold every coefficient at its place', describe(r))
        ys = nums(e, proof_field(e, v, 1))
        want = r.want_ycoms
        good = ys == want or (ys == want[:len(ys)] and not any(want[len(ys):]))
        R.check(rule, fn, good, 'the commitments of the y-polynomials do not hold every coefficient at its place', describe(r))
    probe(R, rule, 'commit', go)


def C20(R, labs, deep):
    rule = 'unsupported polynomial is refused'
    rule2 = 'supported polynomial is committed in full'
    for cfg, lab in labs.items():
        R.cfg = cfg
        for s in range(2 if deep else 1):
            sd = R.seed * 43 + s
            for n in [1, 2, 3, 4, 8, 16, 33] + near(lab, [PC + 'KZG::commit', PC + 'KZG::open'], 4200):
                if n > 200:
                    refused(R, rule, lambda: KzgRun(lab, n, n + 1, sd), 'commit', 'a polynomial with %d coefficients under a key of %d powers' % (n + 1, n))
                    commits_to(R, rule2, lambda: KzgRun(lab, n, n, sd))
                    continue
                for d in sorted({n + 1, n + 2, 2 * n, 2 * n + 1}):
                    for op in ('commit', 'prove'):
                        refused(R, rule, lambda: KzgRun(lab, n, d, sd), op, 'a polynomial with %d coefficients under a key of %d powers' % (d, n))
                for d in range(0, n + 1) if n < 9 else sorted({0, 1, n // 2, n - 1, n}):
                    commits_to(R, rule2, lambda: KzgRun(lab, n, d, sd))
                    opens_to(R, rule2, lambda: KzgRun(lab, n, d, sd))
            for cls in (BivRun, TBivRun):
                over = [(1, 1, [2]), (1, 1, [1, 1]), (2, 2, [2, 3]), (2, 2, [3, 2]), (2, 2, [1, 1, 1]), (2, 4, [4, 5]), (2, 4, [5]), (2, 4, [8, 1]), (4, 2, [2, 2, 2, 2, 2]), (4, 2, [2, 3, 2, 2]), (2, 1, [1, 1, 1]),
                        (4, 4, [4, 4, 4, 4, 4, 4]), (2, 2, [0, 0, 0]), (4, 2, [0, 4])]
                for nx, ny, ds in over:
                    for op in ('commit', 'prove'):
                        refused(R, rule, lambda: cls(lab, nx, ny, ds, sd), op, 'y-polynomials with %s coefficients under a key for %d polynomials of %d coefficients' % (ds, nx, ny))
                fit = [(1, 1, [1]), (1, 1, [0]), (1, 1, []), (2, 2, [2, 2]), (2, 2, [1, 2]), (2, 2, [2]), (2, 2, []), (2, 3, [3, 1]), (4, 2, [2, 0, 1]), (4, 4, [4, 1, 3]), (3, 4, [4, 2, 1]), (8, 1, [1] * 5)]
                for nx, ny, ds in fit:
                    commits_to(R, rule2, lambda: cls(lab, nx, ny, ds, sd))
            for cls in (UniRun, TUniRun):
                for deg in [0, 1, 2, 3, 4, 7, 10, 15, 31, 40] + ([63, 100] if deep else []) + near(lab, [cls.mod + 'UnivariatePolynomialCommitment::setup', cls.mod + 'UnivariatePolynomialCommitment::commit', cls.mod + 'UnivariatePolynomialCommitment::open'], 130):
                    def shape():
                        nx, ny = uni_shape(lab, cls.mod, deg)
                        for d in (nx * ny + 1, nx * ny + 2, nx * ny + ny, nx * ny + ny + 1, 2 * nx * ny):
                            for op in ('commit', 'prove'):
                                refused(R, rule, lambda: cls(lab, deg, d, sd), op, 'a polynomial with %d coefficients under a key for %d' % (d, nx * ny))
                        for d in sorted({0, 1, deg // 2, deg, deg + 1, nx * ny}):
                            commits_to(R, rule2, lambda: cls(lab, deg, d, sd))
                    R.guard(rule, cls.mod + 'UnivariatePolynomialCommitment::setup', lambda: nostuck(R, rule, shape))


def opens_to(R, rule, make):
    def go():
        r = make()
        try:
            v = r.prove()
        except Stuck as e:
            R.violate(rule, e.path, 'opening a supported polynomial fails (%s)' % e.kind, describe(r))
            return
        R.check(rule, r.s.fns[-1], number(r.s.env, v) == r.want_open, 'the opening is not the commitment of the quotient by (X - point)', describe(r))
    probe(R, rule, 'open', go)


# ---------------------------------------------------------------------- C26
def C26(R, labs, deep):
    r1 = 'one degree split for setup, commit, open and verify'
    r2 = 'coefficients are laid out row by row'
    r3 = 'bivariate evaluation formula'
    for cfg, lab in labs.items():
        R.cfg = cfg
        for cls in (UniRun, TUniRun):
            far = near(lab, [cls.mod + 'UnivariatePolynomialCommitment::' + m for m in ('setup', 'commit', 'open', 'verify')], 4200, True)
            for deg in list(range(0, 34)) + [48, 63, 64, 100, 127, 128, 200, 255, 300, 1000] + far:
                def shape():
                    nx, ny = uni_shape(lab, cls.mod, deg)
                    fn = lab.fn(cls.mod + 'UnivariatePolynomialCommitment::setup', ['P', 'D', 'R'], args=[param('rng'), param('deg')], key='setup')
                    R.check(r1, fn, nx * ny >= deg + 1, 'the key for degree %d holds only %d coefficients' % (deg, nx * ny), {'degree': deg, 'key': (nx, ny)})
                    if deg <= 64 or deep:
                        for d in sorted({1, deg // 2 + 1, deg, deg + 1}):
                            commits_to(R, r2, lambda: cls(lab, deg, d, R.seed))
                R.guard(r1, cls.mod + 'UnivariatePolynomialCommitment', lambda: nostuck(R, r1, shape))
            for deg, d in [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 4), (7, 8), (9, 7), (15, 16)] + ([(30, 31), (31, 32), (63, 64), (100, 90)] if deep else []):
                opened(R, 'the univariate statement opens and verifies', lambda: cls(lab, deg, d, R.seed))
        for mod, fld_ in ((PC, fields(lab).biv), (TR, fields(lab).tbiv)):
            for degs in ([], [1], [3], [2, 2], [1, 4, 0, 2], [5, 1, 1]):
                def evaluate():
                    rnd = lambda *k: Env(R.seed).uf('c', *k) % P
                    pn, pl = poly_nums('poly', fld_, degs, rnd)
                    pn[('pt', ('f', 0))], pn[('pt', ('f', 1))] = rnd('x'), rnd('y')
                    s = Sess(lab, R.seed, 0, pl, pn)
                    k, v = s.call(mod + 'BivariatePolynomial::evaluate', None, [param('poly'), param('pt')], 'ev')
                    cs = [[rnd('coef', i, j) for j in range(d)] for i, d in enumerate(degs)]
                    smp = {'coefficients per y-polynomial': degs}
                    R.check(r3, s.fns[0], k == OK and modp(v) == bi_eval(cs, rnd('x'), rnd('y')), 'the evaluation is not sum_i x^i p_i(y)', smp)
                probe(R, r3, mod + 'BivariatePolynomial::evaluate', evaluate)


def opened(R, rule, make):
    from .agree import complete
    complete(R, rule, make)


# ---------------------------------------------------------------------- C27
def C27(R, labs, deep):
    rule = 'every public input enters with its weight'
    rule2 = 'a public-input vector of the wrong length is refused'
    for cfg, lab in labs.items():
        R.cfg = cfg
        G = [(n, k) for n in (1, 2, 3, 4) for k in (0, 1, 2, 3)] + [(2, 5), (2, 9), (2, 17), (8, 2), (16, 1), (5, 2), (2, 33)] + ([(n, k) for n in (5, 6, 7, 8) for k in (1, 2, 5)] if deep else [])
        far = near(lab, [G16 + 'verify_aggregate_proof'], 130)
        G += [(2, k) for k in far if k > 3] + [(n, 1) for n in far if n > 4]
        for n, k in G:
            R.guard(rule, G16 + 'verify_aggregate_proof', lambda: ppe(R, rule, lab, n, k, R.seed * 47))
        for n, k, bad in [(1, 1, {0: 0}), (1, 1, {0: 2}), (1, 2, {0: 1}), (1, 0, {0: 1}), (2, 2, {0: 1}), (2, 2, {1: 1}), (2, 2, {1: 3}), (2, 2, {0: 3}), (2, 1, {1: 0}), (3, 2, {1: 1}), (3, 2, {2: 3}), (4, 2, {3: 1}),
                          (4, 2, {3: 3}), (4, 3, {1: 2, 2: 4}), (2, 2, {0: 1, 1: 1}), (2, 2, {0: 3, 1: 3}), (4, 0, {3: 1}), (2, 3, {0: 0, 1: 0})]:
            def wrong():
                fn = lab.fn(G16 + 'verify_aggregate_proof', ['P', 'D'])
                sc = V.g16_scene(lab, n, k, lg(n) if n & (n - 1) == 0 else 1, seed=R.seed)
                for j in range(n):
                    sc.lens[('a2', ix(j))] = bad.get(j, k)
                del sc.lens[('a2', ('i', '*'))]
                sc.sample = {'statements': n, 'inputs the key expects': k, 'inputs given': [bad.get(j, k) for j in range(n)]}
                never(R, rule2, sc, 'aggregate verification accepts public-input vectors of lengths %s for a key with %d inputs' % (sc.sample['inputs given'], k))
            R.guard(rule2, G16 + 'verify_aggregate_proof', wrong)


def ppe(R, rule, lab, n, k, seed):
    """the verdict's dependence on ip_ab: solved acceptance must satisfy the pairing product equation"""
    sc = V.g16_scene(lab, n, k, 0 if n == 1 else 1, seed=seed)
    full = sc.spec

    def sp(env):
        return [{'pairing product equation': a.get('pairing product equation', 1)} for a in full(env)]
    sc.spec = sp
    soundness(R, rule, sc)


# ---------------------------------------------------------------------- C28
def C28(R, labs, deep):
    agg, part, opn = 'published aggregates', 'published intermediate commitment', 'the opener proves the statement the verifier reconstructs'
    jobs = []
    for cfg, lab in labs.items():
        def groth(r, lab=lab):
            for s in range(2 if deep else 1):
                sd = r.seed * 53 + s
                for n in (1, 2, 4, 8, 16, 32):
                    for z in (0, 2) if n <= 4 else (0,):
                        (probe if z == 0 and n < 8 else Report.guard)(r, agg, G16 + 'aggregate_proofs', lambda: aggregates(r, lab, n, sd, z))
                        opened(r, 'the aggregator proves the statement the verifier reconstructs', lambda: G16Run(lab, n, sd, z))

        def polys(r, lab=lab):
            for s in range(2 if deep else 1):
                sd = r.seed * 53 + s
                for cls in (BivRun, TBivRun):
                    for nx, ny, ds in [(1, 1, [1]), (1, 2, [2]), (2, 2, [2, 2]), (2, 4, [4, 4]), (4, 2, [2, 2, 2, 2]), (2, 4, [3, 1]), (4, 4, [4, 0, 2])] + ([(8, 2, [2] * 8), (4, 8, [8] * 4)] if deep else []):
                        probe(r, part, cls.mod, lambda: intermediate(r, lambda: cls(lab, nx, ny, ds, sd)))
                        opened(r, opn, lambda: cls(lab, nx, ny, ds, sd))
                for cls in (UniRun, TUniRun):
                    for deg, d in [(0, 1), (1, 2), (3, 4), (5, 5), (8, 9), (15, 12)]:
                        probe(r, part, cls.mod, lambda: intermediate(r, lambda: cls(lab, deg, d, sd)))
                        opened(r, opn, lambda: cls(lab, deg, d, sd))
                for n in (1, 2, 5, 8):
                    for d in range(0, n + 1):
                        opens_to(r, 'KZG opening is the quotient commitment', lambda: KzgRun(lab, n, d, sd))

        def large(r, lab=lab):
            for n in big_sizes(lab, G16Run.paths, deep):
                if n <= 1024:
                    r.guard(agg, G16 + 'aggregate_proofs', lambda: aggregates(r, lab, n, r.seed, 0))
                    opened(r, 'the aggregator proves the statement the verifier reconstructs', lambda: G16Run(lab, n, r.seed, 0))
        jobs += [(cfg, f) for f in (groth, polys, large)]
        for ms in by_class(big_polys(lab, R.seed, deep)):
            jobs.append((cfg, lambda r, ms=ms: [(r.guard(part, 'honest run', lambda: intermediate(r, m)), opened(r, opn, m)) for m in ms]))
    R.spread(jobs)


C28.whole = True


def aggregates(R, lab, n, sd, z):
    rule = 'published aggregates'
    fd = fields(lab)
    r = G16Run(lab, n, sd, z)
    try:
        p = r.prove()
    except Stuck as e:
        R.violate(rule, e.path, 'aggregating %d valid proofs fails (%s)' % (n, e.kind), describe(r))
        return
    e, fn = r.s.env, r.s.fns[-1]
    smp = describe(r)
    get = lambda i: number(e, proof_field(e, p, fd.agg[i]))
    a, b, c = [[spec.num(e, ('prf', ix(j), ('f', q))) for j in range(n)] for q in fd.prf]
    ck1 = [spec.num(e, fl(('srs',), fd.srs[1]) + (ix(2 * j),)) for j in range(n)]
    ck2 = [spec.num(e, fl(('srs',), fd.srs[0]) + (ix(2 * j),)) for j in range(n)]
    R.check(rule, fn, get(0) == pf(e) * spec.dot(a, ck1) % P, 'com_a is not the commitment of the A elements', smp)
    R.check(rule, fn, get(1) == pf(e) * spec.dot(ck2, b) % P, 'com_b is not the commitment of the B elements', smp)
    R.check(rule, fn, get(2) == pf(e) * spec.dot(c, ck1) % P, 'com_c is not the commitment of the C elements', smp)
    good = any(get(3) == pf(e) * sum(pow(x, j, P) * a[j] * b[j] for j in range(n)) % P and get(4) == sum(pow(x, j, P) * c[j] for j in range(n)) % P for x in candidates(e)) or n == 1 and \
        get(3) == pf(e) * a[0] * b[0] % P and get(4) == c[0]
    R.check(rule, fn, good, 'ip_ab and agg_c are not the sums weighted by the powers of the aggregation challenge', smp)


def intermediate(R, make):
    rule = 'published intermediate commitment'
    r = make()
    try:
        p = r.prove()
    except Stuck as e:
        R.violate(rule, e.path, 'opening fails (%s)' % e.kind, describe(r))
        return
    e, fn = r.s.env, r.s.fns[-1]
    fd = r.fd
    i = fd.op[1] if r.mod == PC else fd.top[1]
    x = r.rnd('x') if not isinstance(r, UniRun) else pow(r.rnd('z'), r.ny, P)
    want = spec.dot([pow(x, k, P) for k in range(len(r.want_ycoms))], r.want_ycoms)
    R.check(rule, fn, number(e, proof_field(e, p, i)) == want, 'the intermediate commitment is not the commitment of the partial evaluation at x', describe(r))
