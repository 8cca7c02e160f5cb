"""Resolving anchors, extracting their value graphs and comparing what the graphs denote."""
import itertools, re
from . import evalt, extract, run, terms as t
from .terms import mk, TRUE, FALSE
from .evalt import Env, Ev, F, St, Opq, Undef, Opaque, P, modp
from .interp import Give_up


class Missing(Exception):
    """a public item a property is anchored on does not exist"""


def strip_generics(p):
    out, d = [], 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == '<' and not (i == 0):
            d += 1
        elif c == '>' and d and p[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out).replace('::::', '::')


def norm_path(p):
    if p.startswith('<') and ' as ' in p:
        m = re.match(r'^<(.*) as (.*)>::(\w+)$', p)
        if m:
            return '<%s as %s>::%s' % (strip_generics(m.group(1)).rstrip(':'), strip_generics(m.group(2)).rstrip(':'), m.group(3))
    return strip_generics(p)


class Lab:
    def __init__(self, cfg):
        self.cfg = cfg
        self.prog = extract.load(cfg == 'par')
        self.index = {}
        for b in self.prog.bodies.values():
            if b.kind == 'Closure' or '{closure' in b.path:
                continue
            self.index.setdefault(norm_path(b.path), []).append(b)
        self.fns = {}
        self.analysed = {}

    # ---------------------------------------------------------------- anchors
    def find(self, path):
        bs = self.index.get(path)
        if bs:
            return bs[0]
        # the item may have moved to another module of the same crate
        if path.startswith('<'):
            m = re.match(r'^<(.*) as (.*)>::(\w+)$', path)
            ty, tr, fn = m.group(1).split('::')[-1], m.group(2).split('::')[-1], m.group(3)
            c = [b for k, l in self.index.items() for b in l if k.startswith('<') and
                 (lambda q: q and (q.group(1).split('::')[-1], q.group(2).split('::')[-1], q.group(3)) == (ty, tr, fn))(re.match(r'^<(.*) as (.*)>::(\w+)$', k))]
        else:
            seg = path.split('::')
            tail = seg[-2:] if seg[-2][:1].isupper() else seg[-1:]
            c = [b for k, l in self.index.items() for b in l if k.split('::')[0] == seg[0] and k.split('::')[-len(tail):] == tail]
        if len(c) == 1:
            return c[0]
        raise Missing(path)

    def fn(self, path, gens=None, args=None, key=None, faults=False, cellargs=(), strict=False):
        """value graph of a function; gens renames its generic parameters by position (or gives their types)"""
        b = self.find(path)
        k = (b.path, tuple(map(str, gens)) if gens else None, key if args else None, faults, strict)
        if k in self.fns:
            r = self.fns[k]
            if isinstance(r, Exception):
                raise r
            return r
        env = {}
        for i, g in enumerate(gens or []):
            if g is None:
                continue
            if i < len(b.gn):
                env[b.gn[i]] = g if isinstance(g, dict) else {'k': 'param', 'n': g}
        I = run.new_interp(self.prog, faults, strict)
        try:
            r = run.analyse(self.prog, b.path, args, env, interp=I, cellargs=cellargs)
        except (Give_up, RecursionError) as e:
            x = Opaque('no value graph for %s: %s' % (b.path, e))
            self.fns[k] = x
            raise x
        r.unmodelled = dict(I.unmodelled)
        rt = b.locals[0]
        r.result = rt.get('k') == 'adt' and rt['p'].endswith('::Result')
        r.option = rt.get('k') == 'adt' and rt['p'].endswith('::Option')
        r.path, r.span = b.path, b.span
        r.work = I.work
        self.fns[k] = r
        self.analysed[b.path] = b.span
        return r

    def fn_of(self, b, args=None, key=None, **kw):
        """value graph of one given body"""
        if self.prog.by_path.get(b.path) is not b:
            raise Opaque('two bodies share the path %s' % b.path)
        self.index.setdefault(b.path, [b])
        return self.fn(b.path, None, args, key, **kw)

    def field(self, adt, name, pos):
        """declaration index of a field: by name, or by position if it was renamed"""
        for p, a in self.prog.adts.items():
            if p == adt or (p.split('::')[-1] == adt.split('::')[-1] and adt not in self.prog.adts and p.split('::')[0] == adt.split('::')[0]):
                fs = [f[0] for f in a['variants'][0][1]]
                if name in fs:
                    return fs.index(name)
        return pos


# -------------------------------------------------------------------- outcomes
PANIC, ERR, OK = 'panic', 'err', 'ok'


def outcome(fn, env):
    """(kind, value): what the value graph denotes under one assignment"""
    if fn.value is None:
        return PANIC, None
    ev = Ev(env)
    try:
        env.ingate += 1
        try:
            if not ev.bool(t.AND(*(tuple(fn.pc) + (fn.inb,))), {}):
                return PANIC, None
        finally:
            env.ingate -= 1
        v = ev.ev(fn.value)
        if fn.result:
            if isinstance(v, St) and v.tag == 'adt':
                return (OK, v.a[2]) if v.a[1] == 0 else (ERR, None)
            if ev.bool(t.isvar(fn.value, 1), {}):
                return ERR, None
            return OK, ev.ev(t.pay(fn.value, 0, 0))
        return OK, v
    except Undef as e:
        return PANIC, None


def mutval(fn, env, i):
    return Ev(env).ev(fn.muts[i])


def tidy(x, known=None):
    """a boolean term without the parts that its own literals decide: within a conjunction the other members may assume
    each literal, within a disjunction its negation"""
    known = known or {}

    def lit(y):
        return (y.args[0], False) if y.op == 'not' else (y, True)

    y, pos = lit(x)
    if y in known:
        return TRUE if known[y] == pos else FALSE
    if x.op == 'not':
        z = tidy(y, known)
        return x if z is y else t.NOT(z)
    if x.op == 'ite':
        c, a, b = x.args
        c2 = tidy(c, known)
        if c2 is TRUE:
            return tidy(a, known)
        if c2 is FALSE:
            return tidy(b, known)
        return x if c2 is c else t.ite(c2, a, b)
    if x.op not in ('and', 'or'):
        return x
    for _ in range(4):
        if x.op not in ('and', 'or'):
            return tidy(x, known)
        conj = x.op == 'and'
        lits = {}
        for z in x.args:
            if lit(z)[0].op not in ('and', 'or', 'ite'):
                v, p = lit(z)
                lits[v] = p == conj
        out = []
        for z in x.args:
            v, p = lit(z)
            k = known if v in lits else {**known, **lits}
            out.append(tidy(z, k))
        y = (t.AND if conj else t.OR)(*out)
        if y is x:
            return x
        x = y
    return x


def accept_term(fn):
    """boolean term: the verifier returns Ok(true)"""
    return tidy(accepted(fn))


def accepted(fn):
    return t.AND(*(tuple(fn.pc) + (fn.inb, t.isvar(fn.value, 0), t.pay(fn.value, 0, 0))))


def success_term(fn):
    """boolean term: the function returns Ok"""
    return tidy(t.AND(*(tuple(fn.pc) + (fn.inb, t.isvar(fn.value, 0)))))


def accepts(fn, env):
    k, v = outcome(fn, env)
    if k != OK:
        return k
    if isinstance(v, bool):
        return v
    raise Opaque('verdict %r' % (v,))


# -------------------------------------------------------------------- plain numbers
def plain(env, v):
    """nested python tuples of integers mod P"""
    if isinstance(v, bool):
        return v
    if isinstance(v, (int, F)) or v.__class__.__name__ == 'Fraction':
        return modp(v)
    if isinstance(v, tuple):
        return tuple(plain(env, x) for x in v)
    if isinstance(v, St):
        if v.tag == 'tup':
            return tuple(plain(env, x) for x in v.a)
        if v.tag == 'adt':
            return tuple(plain(env, x) for x in v.a[2:])
        if v.tag == 'keys':
            return tuple(plain(env, x) for x in Ev(env).seq(v))
        return v
    if isinstance(v, Opq):
        if env.known_len(v.path):
            return tuple(plain(env, Opq(v.path + (('i', i),))) for i in range(env.length(v.path)))
        return modp(env.num(v.path))
    return v


def pv(name, *steps):
    """parameter access path: ints are fields, ('i',k) elements"""
    return (name,) + tuple(('f', s) if isinstance(s, int) else s for s in steps)


def ix(k):
    return ('i', k)


# -------------------------------------------------------------------- equation systems
def is_struct(z, memo={}):
    """does a boolean term only speak about lengths and machine integers?"""
    if z in memo:
        return memo[z]
    r = False
    if z.op in ('pos', 'ispow2', 'bit', 'fault', 'true', 'false'):
        r = True
    elif z.op in ('not', 'and', 'or'):
        r = all(is_struct(y) for y in z.args)
    elif z.op in ('all', 'any'):
        r = is_struct(z.args[2])
    elif z.op == 'eq0':
        r = all(all(a.op in t.NATS or a.op in ('bv', 'mu') for a in m[1]) for m in t.monos(z.args[0]))
    elif z.op == 'ite':
        r = all(is_struct(y) for y in z.args)
    memo[z] = r
    return r


class Choice:
    def __init__(self, pre):
        self.pre, self.taken = list(pre), []

    def pick(self, n):
        k = len(self.taken)
        c = self.pre[k] if k < len(self.pre) else 0
        self.taken.append((c, n))
        return c


def residuals(ev, x, choice):
    """equations (mod P) that make the boolean term x hold, under one resolution of its disjunctions; ok: the rest holds"""
    res = []
    ok = [True]

    def go(y, B):
        if y.op == 'and':
            # what the others presuppose comes first
            for z in evalt.plain_first(y.args) if evalt.FAULTS[0] else y.args:
                go(z, B)
                if not ok[0] and evalt.FAULTS[0]:
                    return
        elif y.op == 'all':
            v = t.bv(y.args[0])
            for i in ev.upto(y.args[1], B):
                B2 = dict(B)
                B2[v] = i
                go(y.args[2], B2)
        elif y.op == 'ite':
            c = y.args[0]
            if is_struct(c):
                go(y.args[1] if ev.bool(c, B) else y.args[2], B)
            elif choice.pick(2) == 0:
                go(c, B)
                go(y.args[1], B)
            else:
                neg(c, B)
                go(y.args[2], B)
        elif y.op == 'eq0':
            v = ev.num(ev.ev(y.args[0], B))
            if isinstance(v, int):
                ok[0] = ok[0] and v == 0
            else:
                res.append(modp(v.a[0]) if isinstance(v, St) else modp(v))
        elif y.op == 'eqv':
            cc(ev.canon(ev.ev(y.args[0], B)), ev.canon(ev.ev(y.args[1], B)))
        elif y.op == 'or':
            alts = []
            for z in y.args:
                if is_struct(z):
                    try:
                        if ev.bool(z, B):
                            return
                    except Undef:
                        pass
                else:
                    alts.append(z)
            if not alts:
                ok[0] = False
            else:
                go(alts[choice.pick(len(alts)) if len(alts) > 1 else 0], B)
        elif y.op == 'not':
            neg(y.args[0], B)
        else:
            ok[0] = ok[0] and ev.bool(y, B)

    def neg(y, B):
        # a disequation holds for generic values
        ok[0] = ok[0] and not ev.bool(y, B)

    def cc(a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == 'n' and b[0] == 'n':
            res.append((a[1] - b[1]) % P)
        elif isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a[:1] == b[:1]:
            for p, q in zip(a[1:], b[1:]):
                cc(p, q)
        elif a != b:
            ok[0] = False
    go(x, {})
    return res, ok[0]


def alternatives(term, mkenv, lim=24):
    """resolutions of the disjunctions met while evaluating the acceptance condition"""
    todo, seen = [()], []
    while todo and len(seen) < lim:
        pre = todo.pop(0)
        c = Choice(pre)
        try:
            residuals(Ev(mkenv({})), term, c)
        except Undef:
            continue
        tk = tuple(x for x, n in c.taken)
        if tk in seen:
            continue
        seen.append(tk)
        for i, (x, n) in enumerate(c.taken):
            if i >= len(pre):
                for j in range(1, n):
                    todo.append(tuple(y for y, _ in c.taken[:i]) + (j,))
    return seen


def program(env, base):
    """the random oracle answers as in the base evaluation, in order of first use"""
    env.frozen = base.record
    return env


def solved_env(term, mkenv, x, choice):
    base = mkenv({})
    residuals(Ev(base), term, Choice(choice))
    env = program(mkenv(x), base)
    residuals(Ev(env), term, Choice(choice))
    return env


def special_inputs(mkenv, run, lim=6, knobs=None, depth=12):
    """assignments under which one data-dependent special case of the value graph applies: every equality that selects
    between two values is collected while evaluating, and made true by solving it for an input that enters it affinely.
    A condition over many elements is made true for the first of them, and for all of them.
    knobs(env): {input: value} when the inputs are not simply the numbers read"""
    base0 = None

    def go(y):
        env = mkenv(y)
        if base0 is not None:
            program(env, base0)
        try:
            run(env)
        except Undef:
            pass
        return env
    base = go({})
    if not any(base.gates.values()):
        return []
    base0 = base
    known = (lambda e: {p: modp(e.num(p)) for p in e.touched if p not in e.ints}) if knobs is None else knobs
    d = 1000003
    out, seen = [], set()

    def step(x, want):
        """solve one unmet condition accepted by want, on top of the assignment x -> (condition, assignment)"""
        e0 = go(x) if x else base
        g0 = {k: v for k, v in e0.gates.items() if v and want(k)}
        if not g0:
            return None, None
        kn = known(e0)
        ps = sorted((p for p in kn if p not in x), key=repr)
        e1 = go({**x, **{p: (kn[p] + d + 17 * i) % P for i, p in enumerate(ps)}})
        live = {k for k, v in g0.items() if e1.gates.get(k, v) != v}
        # one condition at a time, first occurrence first
        for p in ps:
            if not live:
                break
            e = go({**x, p: (kn[p] + d) % P})
            hit = sorted((k for k in live if k in e.gates and e.gates[k] != g0[k]), key=lambda k: k[1])
            if not hit:
                continue
            e2 = go({**x, p: (kn[p] + 2 * d) % P})
            for k in hit:
                s = (e.gates[k] - g0[k]) % P
                if k not in e2.gates or (e2.gates[k] - e.gates[k] - s) % P:
                    continue
                y = {**x, p: (kn[p] - g0[k] * d * pow(s, P - 2, P)) % P}
                if go(y).gates.get(k, 0) == 0:
                    return k, y
            live -= {k for k in hit if k[1] > 0}
        return None, None
    while len(out) < lim:
        k, x = step({}, lambda k: k[0] not in seen)
        if k is None:
            break
        seen.add(k[0])
        out.append(x)
        last = x
        for _ in range(depth):
            k2, y = step(last, lambda q: q[0] == k[0])
            if k2 is None:
                break
            last = y
        if last is not x:
            out.append(last)
    return out


class Basis:
    """incremental elimination over residues: columns are added until the target is spanned"""

    def __init__(self, n):
        self.n, self.rows = n, []          # (pivot index, reduced column, {atom: coefficient})

    def reduce(self, col, comb):
        col, comb = list(col), dict(comb)
        for p, c, cb in self.rows:
            k = col[p]
            if k:
                for i in range(self.n):
                    if c[i]:
                        col[i] = (col[i] - k * c[i]) % P
                for a, v in cb.items():
                    comb[a] = (comb.get(a, 0) - k * v) % P
        return col, comb

    def add(self, a, col):
        col, comb = self.reduce(col, {a: 1})
        p = next((i for i, v in enumerate(col) if v), None)
        if p is None:
            return False
        w = pow(col[p], P - 2, P)
        self.rows.append((p, [v * w % P for v in col], {b: v * w % P for b, v in comb.items()}))
        return True


def solve(term, mkenv, atoms, choice=()):
    """find values of the given access paths (the rest stays random) under which the acceptance condition holds:
    elimination on the equations, whose coefficients are read off by differences, over inputs that enter them affinely
    (repeated while products of two solved inputs leave a rest).  -> (assignment, equation count) or (None, reason)"""
    base = mkenv({})

    def R(y):
        return residuals(Ev(program(mkenv(y), base)), term, Choice(choice))
    x = {}
    R0, ok = residuals(Ev(base), term, Choice(choice))
    if not ok:
        return None, 'never'
    n = len(R0)
    used = None
    stuck = 0
    for rnd in range(8):
        if not any(R0):
            return (x, n) if ok else (None, 'never')
        B = Basis(n)
        target = None
        for a in (atoms if used is None else used):
            v = x[a] if a in x else modp(base.num(a))
            d = 7 + 1000003 * (1 + atoms.index(a)) + rnd
            y = dict(x)
            y[a] = (v + d) % P
            R1, ok1 = R(y)
            if len(R1) != n or R1 == R0:
                continue
            if used is None:
                y[a] = (v + 2 * d) % P
                R2, _ = R(y)
                if len(R2) != n or any((R2[i] - 2 * R1[i] + R0[i]) % P for i in range(n)):
                    continue
            w = pow(d, P - 2, P)
            B.add(a, [(R1[i] - R0[i]) * w % P for i in range(n)])
            rest, comb = B.reduce([-r % P for r in R0], {})
            if not any(rest):
                target = comb
                break
        if target is None:
            stuck += 1
            if used is not None and stuck < 3:
                used = None
                continue
            return None, 'not solvable for the given inputs (%d of %d equations)' % (len(B.rows), n)
        for a, v in target.items():
            if v:
                # reduce() subtracts: target + sum(comb) = 0 on the columns
                x[a] = ((x[a] if a in x else modp(base.num(a))) - v) % P
        used = [a for a in atoms if a in target]
        R0, ok = R(x)
        if len(R0) != n:
            return None, 'the equations change'
    return (x, n) if ok and not any(R0) else (None, 'elimination does not settle')
