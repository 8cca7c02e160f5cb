"""Shared pieces of the rules: types, anchors, scenes and the soundness scheme."""
from . import terms as t, spec
from .terms import mk
from .lab import *
from .evalt import Env, Ev, F, P, Opaque, Undef, St, Opq, modp


def par(n):
    return {'k': 'param', 'n': n}


def adt(p, *a):
    return {'k': 'adt', 'p': p, 'a': list(a)}


TP, TD = par('P'), par('D')


def proj(n):
    return {'k': 'proj', 't': 'ark_ec::pairing::Pairing', 'n': n, 'a': [TP]}


G1, G2, SF = proj('G1'), proj('G2'), proj('ScalarField')
POUT = adt('ark_ec::pairing::PairingOutput', TP)
IPP = 'ark_inner_products::'
DHC = 'ark_dh_commitments::'
PAIRING_IP = adt(IPP + 'PairingInnerProduct', TP)
MSM_IP = adt(IPP + 'MultiexponentiationInnerProduct', G1)
MSM2_IP = adt(IPP + 'MultiexponentiationInnerProduct', G2)
SCALAR_IP = adt(IPP + 'ScalarInnerProduct', SF)
GC1 = adt(DHC + 'afgho16::AFGHOCommitmentG1', TP)
GC2 = adt(DHC + 'afgho16::AFGHOCommitmentG2', TP)
PED1 = adt(DHC + 'pedersen::PedersenCommitment', G1)
PED2 = adt(DHC + 'pedersen::PedersenCommitment', G2)


def ident(x):
    return adt(DHC + 'identity::IdentityCommitment', x, SF)


SSMC = adt('ark_ip_proofs::tipa::structured_scalar_message::SSMPlaceholderCommitment', SF)
GENERIC = ['IP', 'LMC', 'RMC', 'IPC', 'D']
GENERIC6 = ['IP', 'LMC', 'RMC', 'IPC', 'P', 'D']

GIPA = 'ark_ip_proofs::gipa::GIPA::'
TIPA = 'ark_ip_proofs::tipa::TIPA::'
TM = 'ark_ip_proofs::tipa::'
SSMOD = 'ark_ip_proofs::tipa::structured_scalar_message::'
GSSM = SSMOD + 'GIPAWithSSM::'
TSSM = SSMOD + 'TIPAWithSSM::'
G16 = 'ark_ip_proofs::applications::groth16_aggregation::'
PC = 'ark_ip_proofs::applications::poly_commit::'
TR = PC + 'transparent::'
SIPP = 'ark_sipp::SIPP::'
SIPPM = 'ark_sipp::'

SIZES = [1, 2, 4, 8]
SIZES_DEEP = [1, 2, 4, 8, 16, 32]


def lg(n):
    return n.bit_length() - 1


def A(i):
    return mk('param', 'a%d' % i)


def param(n):
    return mk('param', n)


def fld(x, *steps):
    for s in steps:
        x = t.fld(x, s)
    return x


def literals(lab, *paths):
    """integer literals of the code these functions may run (thresholds, window sizes and the like)"""
    from .rules.flow import reachable
    if not hasattr(lab, '_literals'):
        lab._literals = {}
    if paths not in lab._literals:
        out = set()
        roots = []
        for p in paths:
            try:
                roots.append(lab.find(p).id)
            except Missing:
                pass        # the rule itself reports a missing anchor
        ids = reachable(lab.prog, roots)

        def walk(x):
            if isinstance(x, dict):
                k = x.get('k')
                if isinstance(k, dict) and 'bits' in k:
                    if k.get('ty', {}).get('k') == 'prim' and k['ty'].get('n') not in ('bool', 'char'):
                        out.add(int(k['bits']))
                for v in x.values():
                    walk(v)
            elif isinstance(x, (list, tuple)):
                for v in x:
                    walk(v)
        for b in (lab.prog.bodies[i] for i in ids):
            for st, term, cleanup in b.blocks:
                if not cleanup:
                    walk(st)
                    walk(term)
                    if term[0] == 'switch':
                        for v in switch_values(term):
                            out.add(v)
        lab._literals[paths] = out
    return lab._literals[paths]


def switch_values(term):
    for x in term[1:]:
        if isinstance(x, (list, tuple)):
            for y in x:
                if isinstance(y, (list, tuple)) and y and str(y[0]).isdigit():
                    yield int(y[0])


def big_sizes(lab, paths, deep=False, least=64, cap=None):
    """powers of two: 64 and 128, and those around the integer literals that occur in the code (as sizes or as round numbers)"""
    cap = cap or (8192 if deep else 4096)
    out = {64, 128} | ({256, 512, 1024} if deep else set())
    for c in literals(lab, *paths):
        if 20 <= c <= cap:
            p = 1 << (c - 1).bit_length()
            out |= {p // 2, p, 2 * p, 4 * p} if c <= 256 else {p, 2 * p}
        if 6 <= c <= 14:
            out |= {1 << c, 2 << c} if c < 9 else {2 << c}
    return sorted(n for n in out if least <= n <= cap)


def near(lab, paths, cap, squares=False):
    """sizes just below, at and above the integer literals of the code, and twice as large"""
    out = set()
    lits = literals(lab, *paths)
    for c in sorted(lits | {1 << c for c in lits if 7 <= c <= 16}):
        if 3 <= c <= cap:
            out |= {c - 1, c, c + 1, 2 * c, 2 * c + 1} if c <= 200 else {c, c + 1}
            if squares and c * c <= cap:
                out |= {c * c - 2, c * c - 1, c * c, c * c + 1, 4 * c * c}
    return sorted(n for n in out if 0 <= n <= cap)


def big_rounds(lab, paths, deep=False):
    """numbers of rounds beyond the small ones"""
    lits = literals(lab, *paths)
    out = {7, 10} | {lg(n) for n in big_sizes(lab, paths, deep)} | {c + d for c in lits if 4 <= c <= 16 for d in (0, 1)} | ({12, 16, 20} if deep else set())
    return sorted(out - set(range(6)))


def unref(ty):
    while ty.get('k') in ('ref', 'ptr'):
        ty = ty['t']
    return ty


class Fields:
    """declaration positions of the data fields of the structures the rules look into"""

    def __init__(self, lab):
        f = lab.field
        g = 'ark_ip_proofs::gipa::'
        self.steps = f(g + 'GIPAProof', 'r_commitment_steps', 0)
        self.base = f(g + 'GIPAProof', 'r_base', 1)
        self.aux_tr = f(g + 'GIPAAux', 'r_transcript', 0)
        self.aux_ck = f(g + 'GIPAAux', 'ck_base', 1)
        self.t_gipa = f(TM + 'TIPAProof', 'gipa_proof', 0)
        self.t_ck = f(TM + 'TIPAProof', 'final_ck', 1)
        self.t_pi = f(TM + 'TIPAProof', 'final_ck_proof', 2)
        self.s_gipa = f(SSMOD + 'TIPAWithSSMProof', 'gipa_proof', 0)
        self.s_ck = f(SSMOD + 'TIPAWithSSMProof', 'final_ck', 1)
        self.s_pi = f(SSMOD + 'TIPAWithSSMProof', 'final_ck_proof', 2)
        self.agg = [f(G16 + 'AggregateProof', n, i) for i, n in enumerate(
            ['com_a', 'com_b', 'com_c', 'ip_ab', 'agg_c', 'tipa_proof_ab', 'tipa_proof_c'])]
        self.vs = [f(TM + 'VerifierSRS', n, i) for i, n in enumerate(['g', 'h', 'g_beta', 'h_alpha'])]
        self.srs = [f(TM + 'SRS', n, i) for i, n in enumerate(['g_alpha_powers', 'h_beta_powers', 'g_beta', 'h_alpha'])]
        self.op = [f(PC + 'OpeningProof', n, i) for i, n in enumerate(['ip_proof', 'y_eval_comm', 'kzg_proof'])]
        self.top = [f(TR + 'OpeningProof', n, i) for i, n in enumerate(['second_tier_ip_proof', 'y_eval_comm', 'first_tier_ip_proof'])]
        self.biv = f(PC + 'BivariatePolynomial', 'y_polynomials', 0)
        self.tbiv = f(TR + 'BivariatePolynomial', 'y_polynomials', 0)
        self.sipp = f(SIPPM + 'Proof', 'gt_elems', 0)
        self.vk = [f('ark_groth16::VerifyingKey', n, i) for i, n in enumerate(
            ['alpha_g1', 'beta_g2', 'gamma_g2', 'delta_g2', 'gamma_abc_g1'])]
        self.prf = [f('ark_groth16::Proof', n, i) for i, n in enumerate(['a', 'b', 'c'])]


def fields(lab):
    if not hasattr(lab, '_fields'):
        lab._fields = Fields(lab)
    return lab._fields


# ---------------------------------------------------------------------- evaluating inside one assignment
def value(fn, env):
    """value of a total function inside an assignment (its arguments are terms over the assignment's parameters)"""
    k, v = outcome(fn, env)
    if k != OK:
        return None
    return v


def nums(env, v):
    return [modp(Ev(env).num(x)) if not isinstance(x, (bool,)) else x for x in Ev(env).seq(v)]


def number(env, v):
    """the number behind a value; a one-element vector wrapper counts as its element"""
    v = plain(env, v)
    while isinstance(v, tuple) and len(v) == 1:
        v = v[0]
    return v


def candidates(env, kind=None):
    return [r.v for (k, _), (r, _) in env.cands.items() if r is not None and r.v != 0 and (kind is None or k == kind)]


def hashed_numbers(env, k):
    """every number that the value of one draw (its key) is derived from, through hashes and generators"""
    src = {}
    for d in (env.hashed, env.streams, env.rngsrc):
        for key, v in d.items():
            if isinstance(key, tuple) and len(key) == 2 and isinstance(key[1], tuple) and key[1][:1] == ('n',):
                src.setdefault(key[1][1], []).append(v)
    for v, key in env.written.items():
        src.setdefault(v, []).append(key)
    seen, todo = set(), [k]
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, list)):
            todo += list(x)
        elif isinstance(x, St):
            todo += list(x.a)
        elif isinstance(x, Opq):
            todo.append(env.num(x.path))
        elif isinstance(x, (F, int)) and not isinstance(x, bool):
            v = modp(x)
            if v not in seen:
                seen.add(v)
                todo += src.get(v, [])
    return seen


class Scene:
    """one verifier at one size: fn, mkenv(x, zeros) , solvable inputs, spec(env, lab) -> [alternative: {name: residual}]"""

    def __init__(self, fn, lens, atoms, spec, sample, nums=None, ints=None, seed=1):
        self.fn, self.lens, self.atoms, self.spec, self.sample = fn, lens, atoms, spec, sample
        self.nums, self.ints, self.seed = nums or {}, ints or {}, seed

    succeeds = False        # accept = "returns Ok" instead of "returns Ok(true)"

    def cond(self):
        return success_term(self.fn) if self.succeeds else accept_term(self.fn)

    def accepts(self, env):
        return outcome(self.fn, env)[0] == OK if self.succeeds else accepts(self.fn, env)

    def env(self, x=None, zeros=0, seed=None, **kw):
        n = {k: F(v) for k, v in self.nums.items()}
        n.update({k: F(v) for k, v in (x or {}).items()})
        return Env(self.seed if seed is None else seed, lens=dict(self.lens), nums=n, ints=dict(self.ints), zeros=zeros, **kw)


def more_atoms(sc, env0):
    """every number the verdict depends on, as a last resort for solving"""
    return sorted((p for p in env0.touched if p not in sc.atoms and p not in sc.ints and p not in sc.nums), key=repr)


def soundness(R, rule, sc, zeros=0):
    """every accepting assignment found satisfies the stated equations"""
    fn = sc.fn
    if fn.unmodelled:
        R.undecided(rule, fn, 'no contract for %s' % sorted(fn.unmodelled)[:3])
        return 0
    got = soundness_at(R, rule, sc, zeros, {})
    def collecting(y):
        e = sc.env(y, zeros)
        e.gates = {}
        return e
    for x in special_inputs(collecting, lambda env: residuals(Ev(env), sc.cond(), Choice(()))):
        soundness_at(R, rule, sc, zeros, x)
    return got


def soundness_at(R, rule, sc, zeros, fixed):
    fn = sc.fn
    acc = sc.cond()
    mkenv = lambda x: sc.env({**fixed, **x}, zeros)
    got = 0
    e0 = mkenv({})
    try:
        residuals(Ev(e0), acc, Choice(()))
    except Undef:
        pass
    atoms = [a for a in list(sc.atoms) + more_atoms(sc, e0) if a not in fixed]
    why = 'no resolution'
    for ch in alternatives(acc, mkenv):
        try:
            x, info = solve(acc, mkenv, atoms, ch)
        except Undef as e:
            why = 'undefined: %s' % e
            continue
        if x is None:
            why = info
            continue
        env = solved_env(acc, mkenv, x, ch)
        r = sc.accepts(env)
        if r is not True:
            why = 'solution not accepted (%r)' % (r,)
            continue
        got += 1
        alts = sc.spec(env)
        best = min(alts, key=lambda d: sum(1 for v in d.values() if v % P))
        bad = [k for k, v in best.items() if v % P]
        smp = dict(sc.sample, accepted_equations=info, required=sorted(best), zeros=zeros)
        if bad:
            R.violate(rule, fn, 'an input that violates [%s] is accepted' % '; '.join(bad),
                      dict(smp, solved_inputs={str(Opq(k)): str(v) for k, v in {**fixed, **x}.items()}, branch=list(ch),
                           everything_else='random field elements (seed %d)' % sc.seed))
        else:
            R.held(rule, fn, smp)
    if not got and not fixed:
        R.undecided(rule, fn, '%s: %s' % (sc.sample, why))
    return got


def never(R, rule, sc, why):
    """no input of this shape is accepted"""
    fn = sc.fn
    acc = sc.cond()
    mkenv = lambda x: sc.env(x)
    e0 = mkenv({})
    try:
        residuals(Ev(e0), acc, Choice(()))
    except Undef:
        R.held(rule, fn, sc.sample)
        return
    atoms = list(sc.atoms) + more_atoms(sc, e0)
    for ch in alternatives(acc, mkenv):
        try:
            x, info = solve(acc, mkenv, atoms, ch)
        except Undef:
            continue
        if x is None:
            continue
        if sc.accepts(solved_env(acc, mkenv, x, ch)) is True:
            R.violate(rule, fn, why, dict(sc.sample, solved_inputs={str(Opq(k)): str(v) for k, v in x.items()}))
            return
    R.held(rule, fn, sc.sample)


# ---------------------------------------------------------------------- single-element commitments
def single(env, kind, name, k, m):
    return spec.form(env, kind, name) * k % P * m % P
