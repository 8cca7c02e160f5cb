"""What an accepted proof implies: C01-C07 (verifier side)."""
from ..proto import *
from .. import spec
from ..spec import inv


# ---------------------------------------------------------------------- building blocks
def transcript(lab, env, gens, com, proof, key):
    """challenges (last round first) the library itself publishes for this commitment triple and proof"""
    fn = lab.fn(GIPA + 'verify_recursive_challenge_transcript', gens, args=[com, proof], key=key)
    v = value(fn, env)
    if v is None:
        raise Opaque('challenge derivation failed')
    p = v.a[1] if isinstance(v, St) else None
    if p is None:
        raise Opaque('shape of the challenge transcript')
    return nums(env, p)


def steps_at(env, proof, l, part, wrap=False):
    """(first, second) cross terms of one commitment, last round first; proof is an access path"""
    w = (('f', 0), ix(0)) if wrap else ()
    f = [spec.num(env, proof + (ix(k), ('f', 0), ('f', part)) + w) for k in range(l)]
    s = [spec.num(env, proof + (ix(k), ('f', 1), ('f', part)) + w) for k in range(l)]
    return f, s


def fold(env, start, steps, l, part, xs, wrap=False):
    f, s = steps_at(env, steps, l, part, wrap)
    return spec.fold_commitment(spec.num(env, start), f, s, xs)


# ---------------------------------------------------------------------- C01
def gipa_scene(lab, n, l, nb=None, seed=1, zeros=0):
    fd = fields(lab)
    fn = lab.fn(GIPA + 'verify', GENERIC)
    st, base = pv('a2', fd.steps), pv('a2', fd.base)
    nb = n if nb is None else nb

    def sp(env):
        xs = transcript(lab, env, GENERIC, A(1), A(2), 'a1a2')
        if len(xs) != l:
            return [{'the proof has one round per challenge': 1}]
        a, b = spec.num(env, base + (('f', 0),)), spec.num(env, base + (('f', 1),))
        cka = spec.fold_keys(spec.seq(env, pv('a0', 0), n), [inv(x) for x in xs])
        ckb = spec.fold_keys(spec.seq(env, pv('a0', 1), nb), xs)
        ckt = spec.num(env, pv('a0', 2))
        c = [fold(env, pv('a1', i), st, l, i, xs) for i in range(3)]
        return [{
            'left opening': c[0] - single(env, 'commit', 'LMC', cka, a),
            'right opening': c[1] - single(env, 'commit', 'RMC', ckb, b),
            'inner-product opening': c[2] - single(env, 'commit', 'IPC', ckt, spec.form(env, 'ip', 'IP') * a * b)}]
    return Scene(fn, {pv('a0', 0): n, pv('a0', 1): nb, st: l},
                 [pv('a1', 0), pv('a1', 1), pv('a1', 2), base + (('f', 0),), base + (('f', 1),), pv('a0', 2)],
                 sp, {'keys': (n, nb), 'rounds': l}, seed=seed)


def C01(R, labs, deep):
    for cfg, lab in labs.items():
        R.cfg = cfg
        for s in range(3 if deep else 1):
            for n in (SIZES_DEEP if deep else [1, 2, 4, 8, 16]) + big_sizes(lab, [GIPA + 'verify'], deep, cap=16384) * (not s):
                for z in (0, 2) if n <= 16 else (0,):
                    R.guard('accepted => three openings', GIPA + 'verify',
                            lambda: soundness(R, 'accepted => three openings', gipa_scene(lab, n, lg(n), seed=R.seed * 7 + s), z))
        for n, nb, l in [(2, 2, 0), (2, 2, 2), (4, 4, 1), (4, 4, 3), (1, 1, 1), (8, 8, 2), (3, 3, 1), (3, 3, 2), (5, 5, 2), (6, 6, 3), (2, 4, 1), (2, 4, 2), (4, 2, 2), (4, 2, 1), (2, 3, 1),
                         (1, 2, 0), (4, 5, 2), (8, 9, 3)]:
            R.guard('malformed shape => rejected', GIPA + 'verify',
                    lambda: never(R, 'malformed shape => rejected', gipa_scene(lab, n, l, nb, seed=R.seed), 'a proof with %d rounds is accepted for keys of %d and %d elements' % (l, n, nb)))


# ---------------------------------------------------------------------- C02
def kzg_ok(env, vs, side, ck, pi, xs, r, z):
    """residual of the opening check of one final key"""
    g, h, gb, ha = [spec.num(env, v) for v in vs]
    v = spec.kzg_value(xs, z, r)
    if side == 'h':
        return (g * (ck - h * v) - (gb - g * z) * pi) % P
    return ((ck - g * v) * h - pi * (ha - h * z)) % P


def vs_paths(lab, p):
    return [p + (('f', k),) for k in fields(lab).vs]


def tipa_scene(lab, l, shift, seed=1):
    fd = fields(lab)
    fn = lab.fn(TIPA + ('verify_with_srs_shift' if shift else 'verify'), GENERIC6)
    st, base = pv('a3', fd.t_gipa, fd.steps), pv('a3', fd.t_gipa, fd.base)
    ck, pi = pv('a3', fd.t_ck), pv('a3', fd.t_pi)
    f = lambda p, i: p + (('f', i),)

    def sp(env):
        xs = transcript(lab, env, GENERIC, A(2), fld(A(3), fd.t_gipa), 'tipa')
        if len(xs) != l:
            return [{'every round of the proof is folded': 1}]
        a, b = spec.num(env, f(base, 0)), spec.num(env, f(base, 1))
        cka, ckb, ckt = spec.num(env, f(ck, 0)), spec.num(env, f(ck, 1)), spec.num(env, ('a1',))
        c = [fold(env, pv('a2', i), st, l, i, xs) for i in range(3)]
        r = spec.num(env, ('a4',)) if shift else 1
        # the commitments' keys are group elements: opening forms are the generic ones
        d = {
            'left opening': c[0] - single(env, 'commit', 'LMC', cka, a),
            'right opening': c[1] - single(env, 'commit', 'RMC', ckb, b),
            'inner-product opening': c[2] - single(env, 'commit', 'IPC', ckt, spec.form(env, 'ip', 'IP') * a * b)}
        out = []
        for z in candidates(env):
            e = dict(d)
            e['left key KZG opening'] = kzg_ok(env, vs_paths(lab, ('a0',)), 'h', cka, spec.num(env, f(pi, 0)), [inv(x) for x in xs], inv(r), z)
            e['right key KZG opening'] = kzg_ok(env, vs_paths(lab, ('a0',)), 'g', ckb, spec.num(env, f(pi, 1)), xs, 1, z)
            out.append(e)
        return out or [dict(d, **{'KZG challenge derived': 1})]
    return Scene(fn, {st: l}, [pv('a2', 0), pv('a2', 1), pv('a2', 2), f(pi, 0), f(pi, 1), f(base, 0), f(base, 1), ('a1',)],
                 sp, {'rounds': l, 'shift': shift}, seed=seed)


def C02(R, labs, deep):
    for cfg, lab in labs.items():
        R.cfg = cfg
        for shift in (True, False):
            for s in range(3 if deep else 1):
                for l in list(range(6)) + big_rounds(lab, [TIPA + 'verify_with_srs_shift'], deep) * (not s):
                    for z in (0, 2) if l <= 4 else (0,):
                        R.guard('accepted => openings and both final keys', TIPA + 'verify',
                                lambda: soundness(R, 'accepted => openings and both final keys', tipa_scene(lab, l, shift, R.seed * 7 + s), z))


# ---------------------------------------------------------------------- C03
def gssm_scene(lab, n, l, seed=1):
    fd = fields(lab)
    fn = lab.fn(GSSM + 'verify_with_structured_scalar_message', ['IP', 'LMC', 'IPC', 'D'])
    st, base = pv('a3', fd.steps), pv('a3', fd.base)
    gens = ['IP', 'LMC', ssm_of('LMC'), 'IPC', 'D']
    f = lambda p, i: p + (('f', i),)
    zero = {}
    for k in range(l):
        zero[st + (ix(k), ('f', 0), ('f', 1))] = 0
        zero[st + (ix(k), ('f', 1), ('f', 1))] = 0

    def sp(env):
        xs = transcript(lab, env, gens, t.tup(fld(A(1), 0), t.ZERO, fld(A(1), 1)), A(3), 'gssm')
        if len(xs) != l:
            return [{'every round of the proof is folded': 1}]
        a = spec.num(env, f(base, 0))
        cka = spec.fold_keys(spec.seq(env, pv('a0', 0), n), [inv(x) for x in xs])
        b = spec.final_scalar(xs, spec.num(env, ('a2',)))
        return [{
            'left opening': fold(env, pv('a1', 0), st, l, 0, xs) - single(env, 'commit', 'LMC', cka, a),
            'inner-product opening with the recomputed scalar': fold(env, pv('a1', 1), st, l, 2, xs) - single(env, 'commit', 'IPC', spec.num(env, pv('a0', 1)), spec.form(env, 'ip', 'IP') * a * b)}]
    return Scene(fn, {pv('a0', 0): n, st: l}, [pv('a1', 0), pv('a1', 1), f(base, 1), f(base, 0), pv('a0', 1)], sp,
                 {'keys': n, 'rounds': l}, nums=zero, seed=seed)


def ssm_of(n):
    return adt('ark_ip_proofs::tipa::structured_scalar_message::SSMPlaceholderCommitment',
               {'k': 'proj', 't': 'ark_dh_commitments::DoublyHomomorphicCommitment', 'n': 'Scalar', 'a': [par(n)]})


def tssm_scene(lab, l, seed=1):
    fd = fields(lab)
    fn = lab.fn(TSSM + 'verify_with_structured_scalar_message', ['IP', 'LMC', 'IPC', 'P', 'D'])
    st, base = pv('a4', fd.s_gipa, fd.steps), pv('a4', fd.s_gipa, fd.base)
    gens = ['IP', 'LMC', ssm_of('LMC'), 'IPC', 'D']
    f = lambda p, i: p + (('f', i),)

    def sp(env):
        xs = transcript(lab, env, gens, t.tup(fld(A(2), 0), A(3), fld(A(2), 1)), fld(A(4), fd.s_gipa), 'tssm')
        if len(xs) != l:
            return [{'every round of the proof is folded': 1}]
        a = spec.num(env, f(base, 0))
        cka = spec.num(env, pv('a4', fd.s_ck))
        b = spec.final_scalar(xs, spec.num(env, ('a3',)))
        d = {
            'left opening': fold(env, pv('a2', 0), st, l, 0, xs) - single(env, 'commit', 'LMC', cka, a),
            'inner-product opening with the recomputed scalar': fold(env, pv('a2', 1), st, l, 2, xs) - single(env, 'commit', 'IPC', spec.num(env, ('a1',)), spec.form(env, 'ip', 'IP') * a * b)}
        out = []
        for z in candidates(env):
            out.append(dict(d, **{'final key KZG opening': kzg_ok(env, vs_paths(lab, ('a0',)), 'h', cka, spec.num(env, pv('a4', fd.s_pi)), [inv(x) for x in xs], 1, z)}))
        return out or [dict(d, **{'KZG challenge derived': 1})]
    return Scene(fn, {st: l}, [pv('a2', 0), pv('a2', 1), pv('a4', fd.s_pi), f(base, 0), ('a1',)], sp, {'rounds': l}, seed=seed)


def C03(R, labs, deep):
    rule = 'accepted => openings with the recomputed final scalar'
    for cfg, lab in labs.items():
        R.cfg = cfg
        for s in range(3 if deep else 1):
            for n in (SIZES_DEEP if deep else [1, 2, 4, 8, 16]) + big_sizes(lab, [GSSM + 'verify_with_structured_scalar_message'], deep) * (not s):
                for z in (0, 2) if n <= 16 else (0,):
                    R.guard(rule, GSSM + 'verify', lambda: soundness(R, rule, gssm_scene(lab, n, lg(n), R.seed * 7 + s), z))
            for l in list(range(6)) + big_rounds(lab, [TSSM + 'verify_with_structured_scalar_message'], deep) * (not s):
                for z in (0, 2) if l <= 4 else (0,):
                    R.guard(rule, TSSM + 'verify', lambda: soundness(R, rule, tssm_scene(lab, l, R.seed * 7 + s), z))
        for n, l in [(2, 0), (2, 2), (4, 1), (4, 3), (1, 1), (3, 1), (3, 2), (8, 2)]:
            R.guard('malformed shape => rejected', GSSM + 'verify',
                    lambda: never(R, 'malformed shape => rejected', gssm_scene(lab, n, l, R.seed), 'a proof with %d rounds is accepted for a key of %d elements' % (l, n)))


# ---------------------------------------------------------------------- C04
IDOUT = DHC + 'identity::IdentityOutput'
G16_AB = [PAIRING_IP, GC1, GC2, ident(POUT), TD]
G16_C = [MSM_IP, GC1, SSMC, ident(G1), TD]


def idout(*xs):
    return mk('adt', IDOUT, 0, mk('list', *xs))


def pf(env):
    return spec.form(env, 'pairing')


def tipa_ab_spec(lab, env, proof, ca, cb, ct, vs, l, r, zs, com, proof_t, key):
    """the five equations of the pairing TIPA for concrete commitments; -> list over candidate points"""
    fd = fields(lab)
    st, base = proof + (('f', fd.t_gipa), ('f', fd.steps)), proof + (('f', fd.t_gipa), ('f', fd.base))
    f = lambda p, i: p + (('f', i),)
    xs = transcript(lab, env, G16_AB, com, fld(proof_t, fd.t_gipa), key)
    if len(xs) != l:
        return [{'every round of the proof is folded': 1}]
    a, b = spec.num(env, f(base, 0)), spec.num(env, f(base, 1))
    ck, pi = proof + (('f', fd.t_ck),), proof + (('f', fd.t_pi),)
    cka, ckb = spec.num(env, f(ck, 0)), spec.num(env, f(ck, 1))
    d = {'AB: left opening': fold(env, ca, st, l, 0, xs) - pf(env) * a * cka,
         'AB: right opening': fold(env, cb, st, l, 1, xs) - pf(env) * ckb * b,
         'AB: inner-product opening': fold(env, ct, st, l, 2, xs, True) - pf(env) * a * b}
    out = []
    for z in zs:
        out.append(dict(d, **{'AB: left key KZG opening': kzg_ok(env, vs, 'h', cka, spec.num(env, f(pi, 0)), [inv(x) for x in xs], inv(r), z),
                              'AB: right key KZG opening': kzg_ok(env, vs, 'g', ckb, spec.num(env, f(pi, 1)), xs, 1, z)}))
    return out


def mipp_spec(lab, env, proof, cc, ct, vs, l, sb, zs, com, proof_t, key, tag='C'):
    fd = fields(lab)
    st, base = proof + (('f', fd.s_gipa), ('f', fd.steps)), proof + (('f', fd.s_gipa), ('f', fd.base))
    xs = transcript(lab, env, G16_C, com, fld(proof_t, fd.s_gipa), key)
    if len(xs) != l:
        return [{'every round of the proof is folded': 1}]
    c = spec.num(env, base + (('f', 0),))
    ck = spec.num(env, proof + (('f', fd.s_ck),))
    d = {tag + ': left opening': fold(env, cc, st, l, 0, xs) - pf(env) * c * ck,
         tag + ': multiexponentiation opening with the recomputed scalar': fold(env, ct, st, l, 2, xs, True) - c * spec.final_scalar(xs, sb)}
    return [dict(d, **{tag + ': final key KZG opening': kzg_ok(env, vs, 'h', ck, spec.num(env, proof + (('f', fd.s_pi),)), [inv(x) for x in xs], 1, z)}) for z in zs]


def g16_scene(lab, n, k, l, seed=1):
    fd = fields(lab)
    fn = lab.fn(G16 + 'verify_aggregate_proof', ['P', 'D'])
    pr = [pv('a3', i) for i in fd.agg]
    com_a, com_b, com_c, ip_ab, agg_c, ab, cc = pr
    vk = [pv('a1', i) for i in fd.vk]
    f = lambda p, *i: p + tuple(('f', j) for j in i)
    lens = {('a2',): n, ('a2', ('i', '*')): k, vk[4]: k + 1,
            f(ab, fd.t_gipa, fd.steps): l, f(cc, fd.s_gipa, fd.steps): l,
            f(ab, fd.t_gipa, fd.steps) + (('i', '*'), ('f', 0), ('f', 2), ('f', 0)): 1,
            f(ab, fd.t_gipa, fd.steps) + (('i', '*'), ('f', 1), ('f', 2), ('f', 0)): 1,
            f(cc, fd.s_gipa, fd.steps) + (('i', '*'), ('f', 0), ('f', 2), ('f', 0)): 1,
            f(cc, fd.s_gipa, fd.steps) + (('i', '*'), ('f', 1), ('f', 2), ('f', 0)): 1}
    vs = vs_paths(lab, ('a0',))

    def sp(env):
        v = spec.num
        out = []
        cs = candidates(env)
        al, be, ga, de = [v(env, x) for x in vk[:4]]
        gabc = spec.seq(env, vk[4], k + 1)
        pi = [[v(env, ('a2', ix(j), ix(i))) for i in range(k)] for j in range(n)]
        ct_ab = fld(A(3), fd.agg[3])
        T = [fld(A(3), i) for i in fd.agg]
        com1 = t.tup(T[0], T[1], idout(T[3]))
        for r in cs:
            rs = [pow(r, j, P) for j in range(n)]
            ic = gabc[0] * sum(rs) + sum(gabc[i + 1] * sum(rs[j] * pi[j][i] for j in range(n)) for i in range(k))
            ppe = {'pairing product equation': v(env, ip_ab) - pf(env) * (al * be * sum(rs) + ic * ga + v(env, agg_c) * de)}
            com2 = t.tup(T[2], param('sb'), idout(T[4]))
            for x in tipa_ab_spec(lab, env, ab, com_a, com_b, ip_ab, vs, l, r, cs, com1, T[5], 'g16ab'):
                for y in mipp_spec(lab, env, cc, com_c, agg_c, vs, l, r, cs, com2, T[6], 'g16c'):
                    out.append(dict(ppe, **x, **y))
        return out or [{'challenges derived': 1}]
    b1, b2 = f(ab, fd.t_gipa, fd.base), f(cc, fd.s_gipa, fd.base)
    atoms = [f(b1, 0), f(b1, 1), ip_ab, f(ab, fd.t_pi, 0), f(ab, fd.t_pi, 1), f(cc, fd.s_pi), com_c, agg_c, vk[3], vk[2], com_a, com_b, f(b2, 0)]
    return Scene(fn, lens, atoms, sp, {'statements': n, 'inputs per statement': k, 'rounds': l}, seed=seed)


def C04(R, labs, deep):
    rule = 'accepted => TIPA, structured-scalar and pairing-product checks'
    for cfg, lab in labs.items():
        R.cfg = cfg
        for s in range(2 if deep else 1):
            for n, k, l in ([(n, k, l) for n in range(1, 6) for k in range(4) for l in range(3)] if deep else [(1, 1, 0), (2, 1, 1), (2, 2, 1), (3, 1, 1), (4, 2, 2), (1, 0, 1), (4, 0, 1)]):
                for z in (0, 3) if (n, k, l) in ((2, 1, 1), (4, 2, 2)) or deep else (0,):
                    R.guard(rule, G16 + 'verify_aggregate_proof', lambda: soundness(R, rule, g16_scene(lab, n, k, l, R.seed * 7 + s), z))


# ---------------------------------------------------------------------- C05
def kzg_scene(lab, seed=1):
    fn = lab.fn(PC + 'KZG::verify', ['P'])

    def sp(env):
        g, h, gb, ha = [spec.num(env, v) for v in vs_paths(lab, ('a0',))]
        com, pt, ev, pr = [spec.num(env, ('a%d' % i,)) for i in (1, 2, 3, 4)]
        return [{'KZG pairing equation': (com - g * ev) * h - pr * (ha - h * pt)}]
    return Scene(fn, {}, [('a1',), ('a4',), ('a3',)], sp, {'function': 'KZG::verify'}, seed=seed)


def mipp_lens(fd, p, l):
    s = p + (('f', fd.s_gipa), ('f', fd.steps))
    return {s: l, s + (('i', '*'), ('f', 0), ('f', 2), ('f', 0)): 1, s + (('i', '*'), ('f', 1), ('f', 2), ('f', 0)): 1}


def bivariate_scene(lab, l, deg=None, seed=1):
    """deg: univariate flavour with this max_degree; y_degree is the one of the key that setup makes for it"""
    fd = fields(lab)
    uni = deg is not None
    fn = lab.fn(PC + ('UnivariatePolynomialCommitment' if uni else 'BivariatePolynomialCommitment') + '::verify', ['P', 'D'])
    if uni:
        VS, COM, PT, EV, PR = 'a0', 'a2', 'a3', 'a4', 'a5'
        yl = kzg_key_len(lab, deg)
    else:
        VS, COM, PT, EV, PR = 'a0', 'a1', 'a2', 'a3', 'a4'
    ipp, ye, kz = [pv(PR, i) for i in fd.op]
    vs = vs_paths(lab, (VS,))

    def sp(env):
        v = spec.num
        if uni:
            y = v(env, (PT,))
            x = pow(y, yl, P)
        else:
            x, y = v(env, pv(PT, 0)), v(env, pv(PT, 1))
        g, h, gb, ha = [v(env, q) for q in vs]
        yc = v(env, ye)
        d = {'inner KZG equation at y with the claimed evaluation': (yc - g * v(env, (EV,))) * h - v(env, kz) * (ha - h * y)}
        T = fld(param(PR), fd.op[1])
        com = t.tup(param(COM), param('sb'), idout(T))
        return [dict(d, **m) for m in mipp_spec(lab, env, ipp, (COM,), ye, vs, l, x, candidates(env), com, fld(param(PR), fd.op[0]), 'pc' + PR, 'outer')] or [dict(d, **{'challenge derived': 1})]
    f = lambda p, *i: p + tuple(('f', j) for j in i)
    atoms = [(COM,), f(ipp, fd.s_pi), kz, (EV,), f(ipp, fd.s_gipa, fd.base, 0), ye]
    return Scene(fn, mipp_lens(fd, ipp, l), atoms, sp, {'rounds': l, 'max degree': deg}, ints={('a1',): deg} if uni else {}, seed=seed)


def kzg_key_len(lab, deg):
    """number of KZG powers of the key that the public setup creates for this degree"""
    fn = lab.fn(PC + 'UnivariatePolynomialCommitment::setup', ['P', 'D', 'R'], args=[param('rng'), param('deg')], key='setup')
    env = Env(1, ints={('deg',): deg})
    v = value(fn, env)
    return len(Ev(env).seq(v.a[1]))


def lens_scene(fd, p, l):
    s = p + (('f', fd.steps),)
    return {s: l, s + (('i', '*'), ('f', 0), ('f', 2), ('f', 0)): 1, s + (('i', '*'), ('f', 1), ('f', 2), ('f', 0)): 1}


TR2 = [MSM_IP, GC1, SSMC, ident(G1), TD]
TR1 = [SCALAR_IP, PED1, SSMC, ident(SF), TD]


def transparent_scene(lab, nx, ny, uni, seed=1):
    fd = fields(lab)
    fn = lab.fn(TR + ('UnivariatePolynomialCommitment' if uni else 'BivariatePolynomialCommitment') + '::verify', ['P', 'D'])
    t2, ye, t1 = [pv('a4', i) for i in fd.top]
    lx, ly = lg(nx), lg(ny)
    zero = {}
    for p, l in ((t2, lx), (t1, ly)):
        for k in range(l):
            for o in (0, 1):
                zero[p + (('f', fd.steps), ix(k), ('f', o), ('f', 1))] = 0

    def tier(env, p, pt, key, n, l, com, ct, b, gens, com_t, pt_t, name, form):
        xs = transcript(lab, env, gens, com_t, pt_t, name)
        if len(xs) != l:
            return {name + ': every round of the proof is folded': 1}
        st, base = p + (('f', fd.steps),), p + (('f', fd.base),)
        a = spec.num(env, base + (('f', 0),))
        ck = spec.fold_keys(spec.seq(env, key, n), [inv(x) for x in xs])
        return {name + ': left opening': fold(env, com, st, l, 0, xs) - form * a * ck,
                name + ': inner-product opening with the recomputed scalar': fold(env, ct, st, l, 2, xs, True) - a * spec.final_scalar(xs, b)}

    def sp(env):
        v = spec.num
        if uni:
            y = v(env, ('a2',))
            x = pow(y, ny, P)
        else:
            x, y = v(env, pv('a2', 0)), v(env, pv('a2', 1))
        T = [fld(A(4), i) for i in fd.top]
        d = tier(env, t2, None, pv('a0', 1), nx, lx, ('a1',), ye, x, TR2, t.tup(A(1), t.ZERO, idout(T[1])), T[0], 'second tier', pf(env))
        e = tier(env, t1, None, pv('a0', 0), ny, ly, ye, ('a3',), y, TR1, t.tup(T[1], t.ZERO, idout(A(3))), T[2], 'first tier', 1)
        return [dict(d, **e)]
    lens = {pv('a0', 0): ny, pv('a0', 1): nx}
    lens.update(lens_scene(fd, t2, lx))
    lens.update(lens_scene(fd, t1, ly))
    b = lambda p, i: p + (('f', fd.base), ('f', i))
    atoms = [('a1',), ('a3',), b(t2, 1), b(t1, 1), b(t2, 0), b(t1, 0), ye]
    return Scene(fn, lens, atoms, sp, {'x key': nx, 'y key': ny, 'univariate': uni}, nums=zero, seed=seed)


def C05(R, labs, deep):
    for cfg, lab in labs.items():
        R.cfg = cfg
        for s in range(3 if deep else 1):
            sd = R.seed * 7 + s
            r1 = 'accepted => KZG equation'
            R.guard(r1, PC + 'KZG::verify', lambda: soundness(R, r1, kzg_scene(lab, sd)))
            r2 = 'accepted => both tiers (KZG scheme)'
            for l in range(4 if deep else 3):
                R.guard(r2, PC + 'BivariatePolynomialCommitment::verify', lambda: soundness(R, r2, bivariate_scene(lab, l, None, sd)))
            for deg, l in ([(d, 1) for d in (0, 1, 2, 3, 4, 7, 8, 15, 16, 30, 63, 64, 255, 256, 300, 1023, 1024)] if deep else [(0, 0), (1, 1), (3, 1), (8, 1), (20, 2), (300, 1), (1100, 0)]) + [(d, 1) for d in near(lab, [PC + 'UnivariatePolynomialCommitment::verify'], 4200, True)]:
                R.guard(r2, PC + 'UnivariatePolynomialCommitment::verify', lambda: soundness(R, r2, bivariate_scene(lab, l, deg, sd)))
            r3 = 'accepted => both tiers (transparent scheme)'
            for uni in (False, True):
                for nx, ny in ([(1, 1), (1, 2), (2, 1), (2, 4), (4, 2), (4, 8)] if deep else [(1, 1), (1, 2), (2, 2), (2, 4), (4, 2)]):
                    R.guard(r3, TR + 'verify', lambda: soundness(R, r3, transparent_scene(lab, nx, ny, uni, sd)))


# ---------------------------------------------------------------------- C07 (verifier side)
def opening_scene(lab, side, l, seed=1):
    fn = lab.fn(TM + 'verify_commitment_key_%s_kzg_opening' % ('g2' if side == 'h' else 'g1'), ['P'])

    def sp(env):
        v = spec.num
        return [{'opening equation': kzg_ok(env, vs_paths(lab, ('a0',)), side, v(env, ('a1',)), v(env, ('a2',)), spec.seq(env, ('a3',), l), v(env, ('a4',)), v(env, ('a5',)))}]
    return Scene(fn, {('a3',): l}, [('a1',), ('a2',)], sp, {'side': side, 'transcript': l}, seed=seed)


def c07_verify(R, lab, deep):
    rule = 'accepted => the stated opening equation'
    for side in 'hg':
        for l in list(range(8)) + big_rounds(lab, [TM + 'verify_commitment_key_g1_kzg_opening', TM + 'verify_commitment_key_g2_kzg_opening'], deep):
            for s in range(3 if deep else 1):
                R.guard(rule, 'kzg opening', lambda: soundness(R, rule, opening_scene(lab, side, l, R.seed * 7 + s)))


def C07v(R, labs, deep):
    for cfg, lab in labs.items():
        R.cfg = cfg
        c07_verify(R, lab, deep)


# ---------------------------------------------------------------------- C06
def sipp_scene(lab, n, seed=1):
    import itertools
    fd = fields(lab)
    fn = lab.fn(SIPP + 'verify', ['E', 'D'])
    l = lg(n)
    st = pv('a4', fd.sipp)

    def sp(env):
        v = spec.num
        a, b, r = [spec.seq(env, ('a%d' % i,), n) for i in range(3)]
        zl = [v(env, st + (ix(j), ('f', 0))) for j in range(l)]
        zr = [v(env, st + (ix(j), ('f', 1))) for j in range(l)]
        ds = [modp(x) for _, x in env.draws.values()]
        out = []
        if l <= 4:
            orders = itertools.permutations(ds, l)
        else:
            # the challenge of round j is the one derived from the messages of the rounds up to j
            by = {}
            for k, (_, x) in env.draws.items():
                m = hashed_numbers(env, k)
                by.setdefault(sum(1 for q in zl if q in m), []).append(modp(x))
            orders = [[by[j + 1][0] for j in range(l)]] if all(len(by.get(j + 1, ())) == 1 for j in range(l)) else []
            if not orders:
                raise Opaque('order of the challenges')
        for xs in orders:
            s = [1] * n
            for j, x in enumerate(xs):
                for i in range(n):
                    if i >> (l - 1 - j) & 1:
                        s[i] = s[i] * x % P
            lhs = pf(env) * sum(s[i] * r[i] * a[i] for i in range(n)) * sum(inv(s[i]) * b[i] for i in range(n))
            rhs = v(env, ('a3',)) + sum(xs[j] * zl[j] + inv(xs[j]) * zr[j] for j in range(l))
            out.append({'folded pairing equation': lhs - rhs})
        return out or [{'one challenge per round': 1}]
    return Scene(fn, {('a0',): n, ('a1',): n, ('a2',): n, st: l}, [('a3',), ('a1', ix(0)), ('a0', ix(0))], sp, {'length': n, 'rounds': l}, seed=seed)


def C06(R, labs, deep):
    rule = 'accepted => folded pairing equation'
    for cfg, lab in labs.items():
        R.cfg = cfg
        for s in range(3 if deep else 1):
            for n in [2, 4, 8, 16, 32] + big_sizes(lab, [SIPP + 'verify'], deep) * (not s):
                R.guard(rule, SIPP + 'verify', lambda: soundness(R, rule, sipp_scene(lab, n, R.seed * 7 + s)))
        for n, l in [(2, 0), (4, 1), (4, 3), (8, 2), (2, 2), (3, 1), (3, 2), (6, 2)]:
            sipp_never(R, lab, n, l)


def sipp_never(R, lab, n, l, rule='malformed shape => rejected'):
    sc = sipp_scene(lab, n, R.seed)
    sc.lens[pv('a4', fields(lab).sipp)] = l
    sc.sample['rounds'] = l
    R.guard(rule, SIPP + 'verify', lambda: never(R, rule, sc, 'a proof with %d rounds is accepted for %d elements' % (l, n)))


def no_mismatch(R, lab, deep):
    """no proof whose number of rounds does not match the keys is accepted"""
    rule = 'no proof with a wrong number of rounds is accepted'
    for n in (1, 2, 4, 8) + ((16,) if deep else ()):
        for l in range(lg(n) + 4):
            if l == lg(n):
                continue
            why = 'a proof with %d rounds is accepted for %d elements' % (l, n)
            R.guard(rule, GIPA + 'verify', lambda: never(R, rule, gipa_scene(lab, n, l, seed=R.seed), why))
            R.guard(rule, GSSM + 'verify', lambda: never(R, rule, gssm_scene(lab, n, l, R.seed), why))
            if n > 1:
                sipp_never(R, lab, n, l, rule)
