"""Hash-consed value-graph terms with smart constructors.

Ring/group/usize arithmetic share one polynomial normal form: a group element times a scalar is a monomial, a sum
of them a polynomial, a pairing a bilinear atom.  Sequences are described by (length, element-at-index) so slices,
zips, maps, reversals and index loops over them all meet in the same `map` form.  Binders are canonical (named by
nesting height), so alpha-equivalent terms are the same object and `is`-comparison decides equality of normal forms.
"""
import sys
from fractions import Fraction
sys.setrecursionlimit(20000)


def _norm_c(c):
    """coefficients are ints whenever they can be"""
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c

class T:
    __slots__ = ('op', 'args', 'id', 'lvl', 'vars', 'bvs', 'key', '__weakref__')
    def __repr__(self):
        return show(self)
    def __lt__(self, o):
        return (self.key, self.id) < (o.key, o.id)

_table = {}
_n = [0]
EMPTY = frozenset()

def _h(x):
    # stable structural hash (python's str hash is randomised; use a fixed fold)
    import zlib
    return zlib.crc32(x.encode())

def mk(op, *args):
    k = (op,) + tuple(a.id if isinstance(a, T) else ('#', a) for a in args)
    t = _table.get(k)
    if t is not None:
        return t
    t = T.__new__(T)
    t.op = op
    t.args = args
    _n[0] += 1
    t.id = _n[0]
    lvl = 0
    vs = EMPTY
    bs = EMPTY
    ks = [op]
    for a in args:
        if isinstance(a, T):
            if a.lvl > lvl:
                lvl = a.lvl
            if a.vars:
                vs = vs | a.vars if vs else a.vars
            if a.bvs:
                bs = bs | a.bvs if bs else a.bvs
            ks.append(str(a.key))
        else:
            ks.append(repr(a))
    if op == 'var':
        vs = frozenset((t,))
        ks = ['var']
    if op == 'bv':
        bs = frozenset((t,))
    if op in BINDERS and args[0] > lvl:
        lvl = args[0]
    t.lvl = lvl
    t.vars = vs
    t.bvs = bs
    t.key = _h('|'.join(ks))
    _table[k] = t
    return t

BINDERS = {'map', 'sum', 'prod', 'all', 'any', 'mu', 'rec', 'flat'}
# binder layout: args[0] = level L; bound variables are bv(L, tag)

_fresh = [0]
def fresh(tag='k'):
    _fresh[0] += 1
    return mk('var', tag, _fresh[0])

def bv(L, tag='k'):
    return mk('bv', L, tag)

TRUE = mk('true')
FALSE = mk('false')
UNIT = mk('tup')

def C(n):
    return mk('poly') if n == 0 else mk('poly', mk('mon', n))
ZERO = C(0)
ONE = C(1)
INF = mk('inf')

def is_const(t):
    return t.op == 'poly' and (not t.args or (len(t.args) == 1 and len(t.args[0].args) == 1))
def const_val(t):
    if t.op != 'poly':
        return None
    if not t.args:
        return 0
    if len(t.args) == 1 and len(t.args[0].args) == 1:
        return t.args[0].args[0]
    return None

# ---------------------------------------------------------------- polynomials
def monos(t):
    """-> list of (coeff, [(base, exp)]) with exp int or T"""
    if t.op == 'poly':
        return [(m.args[0], m.args[1:]) for m in t.args]
    if t.op == 'mon':
        return [(t.args[0], t.args[1:])]
    return [(1, (t,))]

def base_exp(a):
    if a.op == 'pw':
        return a.args[0], a.args[1]
    return a, ONE

def mkpw(b, e):
    if e is ONE:
        return b
    return mk('pw', b, e)

def _from_monos(d):
    ms = []
    for atoms, c in d.items():
        if c != 0:
            ms.append((atoms, _norm_c(c)))
    if len(ms) == 1 and ms[0][1] == 1 and len(ms[0][0]) == 1:
        return ms[0][0][0]
    ns = [mk('mon', c, *atoms) for atoms, c in ms]
    ns.sort()
    return mk('poly', *ns)

def _combine(atomlists, c):
    """product of atoms -> (coeff, atoms tuple) or a T if it expands to a polynomial"""
    exps = {}
    order = []
    for al in atomlists:
        for a in al:
            b, e = base_exp(a)
            if b in exps:
                exps[b] = add(exps[b], e)
            else:
                exps[b] = e
                order.append(b)
    out = []
    expand = []
    # two pw with integer bases etc. are left as they are; constant exponents on the constant base 2 are folded
    for b in order:
        e = exps[b]
        if e is ZERO:
            continue
        cv = const_val(e)
        if b.op == 'int':
            n = b.args[0]
            # split constant part of exponent
            k = 0
            rest = {}
            for cc, aa in monos(e):
                if not aa:
                    k += cc
                else:
                    rest[aa] = cc
            if k:
                c = _norm_c(c * Fraction(n) ** k)
                e = _from_monos(rest)
                if e is ZERO:
                    continue
            out.append(mk('pw', b, e))
            continue
        if b.op == 'poly' and cv is not None and cv > 0:
            expand.append((b, cv))
            continue
        out.append(mkpw(b, e))
    out.sort()
    if expand:
        r = mk('poly', mk('mon', c, *out)) if (out or c != 1) else ONE
        if c == 1 and len(out) == 1:
            r = out[0]
        for b, n in expand:
            for _ in range(n):
                r = mul(r, b)
        return r
    # geometric sums: (r^n - 1)/(r - 1) stays as is (canonical form of sum r^k)
    return (c, tuple(out))

_addc = {}
def add(a, b):
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if a is INF or b is INF:
        return INF
    k = (a.id, b.id) if a.id <= b.id else (b.id, a.id)
    r = _addc.get(k)
    if r is not None:
        return r
    if a.op == 'ite' and a.args[0].op != 'bv' and b.op != 'ite' and _num(a):
        r = ite(a.args[0], add(a.args[1], b), add(a.args[2], b))
    elif b.op == 'ite' and a.op != 'ite' and _num(b):
        r = ite(b.args[0], add(a, b.args[1]), add(a, b.args[2]))
    else:
        d = {}
        for c, at in monos(a):
            d[at] = d.get(at, 0) + c
        for c, at in monos(b):
            d[at] = d.get(at, 0) + c
        r = _from_monos(d)
    _addc[k] = r
    return r

def _num(t):
    return False

def sumt(ts):
    r = ZERO
    for t in ts:
        r = add(r, t)
    return r

_mulc = {}
def mul(a, b):
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a is ZERO or b is ZERO:
        return ZERO
    k = (a.id, b.id) if a.id <= b.id else (b.id, a.id)
    r = _mulc.get(k)
    if r is not None:
        return r
    d = {}
    extra = []
    for c1, a1 in monos(a):
        for c2, a2 in monos(b):
            x = _combine([a1, a2], c1 * c2)
            if isinstance(x, T):
                extra.append(x)
            else:
                c, at = x
                d[at] = d.get(at, 0) + c
    r = _from_monos(d)
    for x in extra:
        r = add(r, x)
    _mulc[k] = r
    return r

def neg(a):
    return mul(C(-1), a)
def sub(a, b):
    return add(a, neg(b))

def power(b, e):
    """b^e"""
    n = const_val(e)
    if n is not None and n >= 0:
        r = ONE
        if n <= 64:
            for _ in range(n):
                r = mul(r, b)
            return r
    if b is ONE:
        return ONE
    cb = const_val(b)
    if cb is not None and cb != 1:
        if cb == -1 or cb == 0:
            return mk('pw', b, e)
        if cb > 0:
            x = _combine([(mk('pw', mk('int', cb), e),)], 1)
            return _from_monos({x[1]: x[0]})
    ms = monos(b)
    if len(ms) == 1:
        c, at = ms[0]
        if c == 1 or (c == -1 and n is not None):
            r = ONE if c == 1 or (n is not None and n % 2 == 0) else C(-1)
            for x in at:
                bb, ee = base_exp(x)
                r = mul(r, _pw_atom(bb, mul(ee, e)))
            return r
    # non-monomial base: normalise sign so that inverse of (a-b) and (b-a) agree
    if b.op == 'poly' and n is not None and n < 0:
        lead = b.args[0].args[0]
        if lead < 0:
            nb = neg(b)
            return mul(C(-1) if n % 2 else ONE, mk('pw', nb, e))
    return mk('pw', b, e)

def _pw_atom(b, e):
    if e is ZERO:
        return ONE
    n = const_val(e)
    if b.op == 'poly' and n is not None and n > 0:
        return power(b, e)
    x = _combine([(mkpw(b, e),)], 1)
    if isinstance(x, T):
        return x
    return _from_monos({x[1]: x[0]})

def inv(a):
    return power(a, C(-1))

# ---------------------------------------------------------------- booleans
def b(x):
    return TRUE if x else FALSE

def NOT(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'and':
        return OR(*[NOT(x) for x in a.args])
    if a.op == 'or':
        return AND(*[NOT(x) for x in a.args])
    if a.op == 'pos' and _isint(a.args[0]):
        return pos(sub(ONE, a.args[0]))
    if a.op == 'all':
        v = fresh()
        return ANY(a.args[1], v, NOT(open1(a, v)))
    if a.op == 'any':
        v = fresh()
        return ALL(a.args[1], v, NOT(open1(a, v)))
    if a.op == 'ite':
        return ite(a.args[0], NOT(a.args[1]), NOT(a.args[2]))
    return mk('not', a)

def _isint(t):
    return True

def AND(*xs):
    return _ac('and', 'or', TRUE, FALSE, xs)
def OR(*xs):
    return _ac('or', 'and', FALSE, TRUE, xs)

def _ac(op, dual, unit, absorb, xs):
    s = {}
    for x in xs:
        if x.op == op:
            for y in x.args:
                s[y] = 1
        elif x is unit:
            continue
        elif x is absorb:
            return absorb
        else:
            s[x] = 1
    for y in list(s):
        if NOT1(y) in s:
            return absorb
    # absorption: a & (a | b) = a ; a & (~a | b) = a & b
    ys = list(s)
    out = []
    changed = False
    for y in ys:
        if y.op == dual:
            parts = set(y.args)
            if any(p in s for p in parts if p is not y):
                changed = True
                continue
            np = [p for p in y.args if NOT1(p) not in s]
            if len(np) != len(y.args):
                changed = True
                out.append(_ac(dual, op, absorb, unit, np))
                continue
        out.append(y)
    if changed:
        return _ac(op, dual, unit, absorb, out)
    if not ys:
        return unit
    if len(ys) == 1:
        return ys[0]
    ys.sort()
    return mk(op, *ys)

def NOT1(a):
    if a.op in ('and', 'or', 'all', 'any', 'ite'):
        return mk('not', a)
    return NOT(a)

def eq(a, c):
    if a is c:
        return TRUE
    if a in (TRUE, FALSE):
        a, c = c, a
    if c is TRUE:
        return a
    if c is FALSE:
        return NOT(a)
    if a.op in ('adt', 'tup', 'list') and c.op == a.op:
        if a.op == 'adt':
            if a.args[0] == c.args[0]:
                if a.args[1] != c.args[1]:
                    return FALSE
                return AND(*[eq(x, y) for x, y in zip(a.args[2:], c.args[2:])])
        elif len(a.args) == len(c.args):
            return AND(*[eq(x, y) for x, y in zip(a.args, c.args)])
        elif a.op == 'list':
            return FALSE
    if a.op == 'ite':
        return ite(a.args[0], eq(a.args[1], c), eq(a.args[2], c))
    if c.op == 'ite':
        return ite(c.args[0], eq(a, c.args[1]), eq(a, c.args[2]))
    if a.op in SEQ or c.op in SEQ or a.op in ('adt', 'tup') or c.op in ('adt', 'tup'):
        x, y = sorted((a, c))
        return mk('eqv', x, y)
    if isbool(a) and isbool(c):
        return ite(a, c, NOT(c))
    d = sub(a, c)
    n = const_val(d)
    if n is not None:
        return b(n == 0)
    ms = monos(d)
    if ms[0][0] < 0:
        d = neg(d)
    # count_ones(x) == 1  <=>  x is a power of two
    ms = monos(d)
    if len(ms) == 2:
        at = [(c_, a_) for c_, a_ in ms if a_]
        ct = [c_ for c_, a_ in ms if not a_]
        if len(at) == 1 and len(ct) == 1 and len(at[0][1]) == 1 and at[0][1][0].op == 'popcnt' and at[0][0] * 1 == -ct[0]:
            return ispow2(at[0][1][0].args[0])
    return eq0(d)


def eq0(d):
    ms = monos(d)
    if len(ms) == 1 and ms[0][1]:
        c, at = ms[0]
        if any(base_exp(a)[0].op == 'form' and base_exp(a)[0].args[0] != 'pairing' for a in at):
            return mk('eq0', d if c == 1 else _from_monos({at: 1}))
        out = []
        for a in at:
            b_, e = base_exp(a)
            if b_.op in ('form', 'int', 'gt', 'gen'):
                continue
            out.append(b_)
        if len(out) == 1 and len(at) == 1 and c == 1:
            return mk('eq0', out[0])
        return OR(*[eq(x, ZERO) if x is not d else mk('eq0', x) for x in out])
    if ms:
        # scale so that the first coefficient is 1
        c = ms[0][0]
        if c != 1:
            d = _from_monos({at: (Fraction(k) / c) for k, at in ms})
    return mk('eq0', d)


BOOLS = {'true', 'false', 'and', 'or', 'not', 'eq0', 'eqv', 'pos', 'all', 'any', 'isvar', 'ispow2', 'bit', 'fbit', 'fault'}


def isbool(v):
    if v.op in BOOLS:
        return True
    if v.op == 'ite':
        return isbool(v.args[1]) and isbool(v.args[2])
    return False


# ---------------------------------------------------------------- machine integers
def two_pow(a):
    """a = c * 2^e with c a positive integer -> (c, e)"""
    ms = monos(a)
    if len(ms) != 1:
        return None
    c, at = ms[0]
    if c <= 0:
        return None
    if not at:
        return c, ZERO
    if len(at) == 1:
        b_, e = base_exp(at[0])
        if b_.op == 'int' and b_.args[0] == 2:
            return c, e
    return None


def _p2(c):
    """c = 2^k (k maybe negative) -> k"""
    f = Fraction(c)
    n, d = f.numerator, f.denominator
    if n > 0 and n & (n - 1) == 0 and d & (d - 1) == 0:
        return n.bit_length() - d.bit_length()
    return None


def ispow2(a):
    n = const_val(a)
    if n is not None:
        return b(n > 0 and n & (n - 1) == 0)
    tp = two_pow(a)
    if tp and _p2(tp[0]) is not None:
        return TRUE
    return mk('ispow2', a)


def popcnt(a):
    n = const_val(a)
    if n is not None:
        return C(bin(n).count('1'))
    tp = two_pow(a)
    if tp and _p2(tp[0]) is not None:
        return ONE
    return mk('popcnt', a)


def npow2(a):
    n = const_val(a)
    if n is not None:
        return C(1 if n <= 1 else 1 << (n - 1).bit_length())
    if ispow2(a) is TRUE:
        return a
    return mk('npow2', a)


def log2(a):
    n = const_val(a)
    if n is not None and n > 0:
        return C(int(n).bit_length() - 1)
    tp = two_pow(a)
    if tp and _p2(tp[0]) is not None:
        return add(tp[1], C(_p2(tp[0])))
    if a.op == 'ite':
        return ite(a.args[0], log2(a.args[1]), log2(a.args[2]))
    return mk('log2', a)


def ctz(a):
    n = const_val(a)
    if n is not None and n > 0:
        return C((n & -n).bit_length() - 1)
    tp = two_pow(a)
    if tp and _p2(tp[0]) is not None:
        return add(tp[1], C(_p2(tp[0])))
    return mk('ctz', a)


def idiv(a, c):
    if c is ONE:
        return a
    n, m = const_val(a), const_val(c)
    if n is not None and m:
        return C(n // m)
    if a is ZERO:
        return ZERO
    if a is c:
        return ONE
    ta, tc = two_pow(a), two_pow(c)
    if ta and tc and _p2(ta[0]) is not None and _p2(tc[0]) is not None and ta[1] is not ZERO:
        # 2^x / 2^y, exact as long as the quotient is at least one (the callers halve non-empty powers of two)
        return mul(C(Fraction(ta[0]) / tc[0]), power(C(2), sub(ta[1], tc[1])))
    if m:
        # exact division of a polynomial whose coefficients are all multiples of m (integer atoms)
        ms = monos(a)
        if all(Fraction(k).denominator == 1 and k % m == 0 for k, at in ms):
            return _from_monos({at: k // m for k, at in ms})
        # (m*q + r) / m with 0 <= r < m constant
        cst = [k for k, at in ms if not at]
        if len(cst) == 1 and 0 < cst[0] < m and all(Fraction(k).denominator == 1 and k % m == 0 for k, at in ms if at):
            return _from_monos({at: k // m for k, at in ms if at})
        if a.op == 'idiv' and const_val(a.args[1]):
            return idiv(a.args[0], C(const_val(a.args[1]) * m))
    return mk('idiv', a, c)


def imod(a, c):
    n, m = const_val(a), const_val(c)
    if n is not None and m:
        return C(n % m)
    if c is ONE or a is ZERO or a is c:
        return ZERO
    if m:
        ms = monos(a)
        if all(Fraction(k).denominator == 1 for k, at in ms):
            r = _from_monos({at: k % m for k, at in ms})
            if r is not a:
                return imod(r, c)
    if nonneg(sub(sub(c, ONE), a)) and nonneg(a):
        return a
    return mk('imod', a, c)


def cdiv(a, c):
    if c is ONE:
        return a
    n, m = const_val(a), const_val(c)
    if n is not None and m:
        return C(-(-n // m))
    ta, tc = two_pow(a), two_pow(c)
    if ta and tc and _p2(ta[0]) is not None and _p2(tc[0]) is not None and ta[1] is not ZERO:
        return idiv(a, c)
    return mk('cdiv', a, c)


def band(a, c):
    n, m = const_val(a), const_val(c)
    if n is not None and m is not None:
        return C(n & m)
    if n is not None:
        a, c, n, m = c, a, m, n
    if m is not None:
        if m == 0:
            return ZERO
        if m == 1:
            return imod(a, C(2))
        if m & (m + 1) == 0:
            return imod(a, C(m + 1))
    for x, y in ((a, c), (c, a)):
        tp = two_pow(x)
        if tp and _p2(tp[0]) is not None:
            return ite(bit(y, add(tp[1], C(_p2(tp[0])))), x, ZERO)
    return mk('band', *sorted((a, c)))


def bit(a, i):
    n, m = const_val(a), const_val(i)
    if n is not None and m is not None:
        return b(bool((n >> m) & 1))
    return mk('bit', a, i)


def fconst(s):
    """a floating point literal as rustc prints it (`1f64`, `2.5f64`)"""
    try:
        v = float(s.replace('const ', '').replace('f64', '').replace('f32', '').replace('_', ''))
    except ValueError:
        return mk('fconst', s)
    if v == v and abs(v) < 2 ** 53 and v == int(v):
        return C(int(v))
    return mk('fconst', repr(v))


_FL = ('fconst', 'fdiv', 'frem', 'fsqrt', 'flog2', 'fceil', 'fround', 'fpow', 'ffloor', 'ext', 'fln', 'fmin', 'fmax')


def _floaty(a, n=0):
    return a.op in _FL or (n < 6 and a.op in ('poly', 'mon', 'ite') and any(_fl2(y, n) for y in a.args))


def _fl2(y, n):
    return _floaty(y, n + 1) if isinstance(y, T) else isinstance(y, tuple) and any(_fl2(z, n) for z in y)


def ffloor(a):
    """float -> integer (truncation of a non-negative value)"""
    if a.op == 'flog2':
        return log2(a.args[0])
    if a.op == 'fsqrt':
        return mk('isqrt', a.args[0])
    if a.op in ('fceil',):
        x = a.args[0]
        if x.op == 'flog2':
            return log2(npow2(x.args[0]))
        return mk('ffloor', a)
    if _floaty(a):
        return mk('ffloor', a)
    return a


def setf(v, i, x):
    """opaque aggregate v with field i replaced"""
    if v.op == 'setf' and v.args[1] == i:
        return setf(v.args[0], i, x)
    if x.op == 'fld' and x.args[0] is v and x.args[1] == i:
        return v
    return mk('setf', v, i, x)

def pos(d):
    """integer d > 0"""
    n = const_val(d)
    if n is not None:
        return b(n > 0)
    if d is INF:
        return TRUE
    if d.op == 'ite':
        return ite(d.args[0], pos(d.args[1]), pos(d.args[2]))
    # strictly positive / nonpositive by shape
    if nonneg(sub(d, ONE)):
        return TRUE
    if nonneg(neg(d)):
        return FALSE
    return mk('pos', d)
def lt(a, c):
    if c is INF:
        return TRUE
    if a is INF:
        return FALSE
    return pos(sub(c, a))
def le(a, c):
    return NOT(lt(c, a))

NATS = {'isqrt', 'cdiv', 'ctz', 'len', 'mu', 'popcnt', 'log2', 'npow2', 'idiv', 'imod', 'min', 'max', 'threads', 'sched', 'sersize', 'nat', 'bv', 'pw', 'int', 'degree'}
def nonneg(p):
    """conservative: is the integer polynomial p >= 0 (all atoms naturals)"""
    if p is INF:
        return True
    for c, at in monos(p):
        for a in at:
            if a.op in NATS:
                continue
            if a.op == 'var' and a.args[0] in ('k', 'n'):
                continue
            return False
        if c < 0:
            return False
    return True

def ite(c, x, y):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if c.op == 'not':
        return ite(c.args[0], y, x)
    x = under(c, True, x)
    y = under(c, False, y)
    if x is y:
        return x
    if x is TRUE:
        return OR(c, y)
    if x is FALSE:
        return AND(NOT(c), y)
    if y is FALSE:
        return AND(c, x)
    if y is TRUE:
        return OR(NOT(c), x)
    # aggregates: push inside when shapes agree
    if x.op == y.op and x.op in ('tup', 'adt') and len(x.args) == len(y.args) and len(x.args) > 0:
        if x.op == 'tup':
            return mk('tup', *[ite(c, p, q) for p, q in zip(x.args, y.args)])
        if x.args[0] == y.args[0] and x.args[1] == y.args[1]:
            return mk('adt', x.args[0], x.args[1], *[ite(c, p, q) for p, q in zip(x.args[2:], y.args[2:])])
    if x.op == 'it' and y.op == 'it' and x.args[0] is y.args[0]:
        return mk('it', x.args[0], ite(c, x.args[1], y.args[1]))
    return mk('ite', c, x, y)

def under(c, v, t):
    """simplify an ite at the root of t knowing condition c has truth value v"""
    if t.op == 'ite':
        if t.args[0] is c:
            return t.args[1] if v else t.args[2]
        if t.args[0] is NOT1(c):
            return t.args[2] if v else t.args[1]
        if c.op == 'and' and v and t.args[0] in c.args:
            return t.args[1]
        if c.op == 'or' and not v and t.args[0] in c.args:
            return t.args[2]
    return t

# ---------------------------------------------------------------- aggregates
def tup(*xs):
    return mk('tup', *xs)
OPT = 'std::option::Option'
RES = 'std::result::Result'
CF = 'std::ops::ControlFlow'
POLYP = 'ark_poly::univariate::DensePolynomial'
def some(x):
    return mk('adt', OPT, 1, x)
NONE = mk('adt', OPT, 0)
def ok(x):
    return mk('adt', RES, 0, x)
def err(x):
    return mk('adt', RES, 1, x)

def opt(c, x):
    return ite(c, some(x), NONE)

def isvar(v, i):
    """is enum value v of variant i"""
    if v.op == 'adt':
        return b(v.args[1] == i)
    if v.op == 'ite':
        return ite(v.args[0], isvar(v.args[1], i), isvar(v.args[2], i))
    if v.op == 'call' and v.args[0] in TWO_VARIANT_SOME1 and i == 0:
        return NOT(mk('isvar', v, 1))
    if i == 1 and v.op in ('call', 'ext', 'fld', 'pay', 'var', 'bv', 'param', 'idx', 'rec'):
        # two-variant enums: canonicalise on variant 0 for results; both forms are complementary
        return NOT(mk('isvar', v, 0))
    return mk('isvar', v, i)
TWO_VARIANT_SOME1 = set()

def pay(v, i, f):
    """field f of v seen as variant i (only evaluated where v is known to be that variant)"""
    if v.op == 'adt':
        if v.args[1] == i and 2 + f < len(v.args):
            return v.args[2 + f]
        return mk('bot')
    if v.op == 'ite':
        x = v.args[1]
        y = v.args[2]
        # prune alternatives that cannot be variant i
        ix, iy = isvar(x, i), isvar(y, i)
        if ix is FALSE:
            return pay(y, i, f)
        if iy is FALSE:
            return pay(x, i, f)
        return ite(v.args[0], pay(x, i, f), pay(y, i, f))
    return mk('pay', v, i, f)

def fld(v, i):
    if v.op == 'tup':
        return v.args[i] if i < len(v.args) else mk('bot')
    if v.op == 'adt':
        return v.args[2 + i] if 2 + i < len(v.args) else mk('bot')
    if v.op == 'ite':
        return ite(v.args[0], fld(v.args[1], i), fld(v.args[2], i))
    if v.op == 'clo':
        return v.args[1 + i]
    if v.op == 'setf':
        return v.args[2] if v.args[1] == i else fld(v.args[0], i)
    return mk('fld', v, i)

# ---------------------------------------------------------------- sequences
SEQ = {'list', 'map', 'cat', 'upd', 'interleave', 'flat', 'resized'}

def lst(*xs):
    return mk('list', *xs)
NIL = mk('list')

def length(s):
    if s.op == 'list':
        return C(len(s.args))
    if s.op == 'map':
        return s.args[1]
    if s.op == 'cat':
        return sumt([length(x) for x in s.args])
    if s.op == 'upd':
        return length(s.args[0])
    if s.op == 'interleave':
        return add(length(s.args[0]), length(s.args[1]))
    if s.op == 'ite':
        return ite(s.args[0], length(s.args[1]), length(s.args[2]))
    if s.op in ('bytes', 'bytesle'):
        return C(s.args[1])
    if s.op == 'keys':
        return s.args[2]
    if s.op == 'flat':
        v = fresh()
        return SUM(s.args[1], v, length(open1(s, v)))
    if s.op == 'rec':
        r = rec_len(s)
        if r is not None:
            return r
    return LENFACTS.get(s) or mk('len', s)

LENFACTS = {}

def idx(s, i):
    n = const_val(i)
    if s.op == 'list':
        if n is not None:
            if 0 <= n < len(s.args):
                return s.args[n]
            return mk('bot')
        if len(s.args) and all(x is s.args[0] for x in s.args):
            return s.args[0]
        return mk('idx', s, i)
    if s.op == 'map':
        return open1(s, i)
    if s.op == 'cat':
        rest = i
        parts = list(s.args)
        while parts:
            L = length(parts[0])
            d = sub(rest, L)
            if nonneg(d):
                rest = d
                parts = parts[1:]
                continue
            if nonneg(sub(sub(L, ONE), rest)):
                return idx(parts[0], rest)
            break
        if parts:
            if len(parts) == 1:
                return idx(parts[0], rest)
            return mk('idx', mk('cat', *parts), rest)
        return mk('bot')
    if s.op == 'upd':
        e = eq(s.args[1], i)
        return ite(e, s.args[2], idx(s.args[0], i))
    if s.op == 'ite':
        return ite(s.args[0], idx(s.args[1], i), idx(s.args[2], i))
    return mk('idx', s, i)

def MAP(n, v, body):
    """map v in 0..n -> body (v a fresh var)"""
    c = const_val(n)
    if c is not None and 0 <= c <= 8:
        return lst(*[subst(body, {v: C(i)}) for i in range(c)])
    if body.op == 'idx' and body.args[1] is v and v not in body.args[0].vars and length(body.args[0]) is n:
        return body.args[0]
    L = body.lvl + 1
    return mk('map', L, n, rename(body, {v: bv(L)}))

def _close(op, n, v, body):
    L = body.lvl + 1
    return mk(op, L, n, rename(body, {v: bv(L)}))

def SUM(n, v, body):
    if body is ZERO or n is ZERO:
        return ZERO
    if v not in body.vars:
        return mul(n, body)
    c = const_val(n)
    if c is not None and 0 <= c <= 8:
        return sumt([subst(body, {v: C(i)}) for i in range(c)])
    r = ZERO
    for c_, at in monos(body):
        dep = [a for a in at if v in a.vars]
        ind = [a for a in at if v not in a.vars]
        ex = []
        dep2 = []
        for a in dep:
            bb, ee = base_exp(a)
            if v not in bb.vars and a.op == 'pw':
                # b^(e0 + e(v)) = b^e0 * b^e(v)
                e0 = ZERO
                e1 = ZERO
                for cc, aa in monos(ee):
                    m = _from_monos({aa: cc})
                    if v in m.vars:
                        e1 = add(e1, m)
                    else:
                        e0 = add(e0, m)
                if e0 is not ZERO:
                    ex.append(power(bb, e0))
                dep2.append(power(bb, e1))
            else:
                dep2.append(a)
        outer = C(c_)
        for a in ind + ex:
            outer = mul(outer, a)
        if not dep2:
            r = add(r, mul(outer, n))
            continue
        inner = ONE
        for a in dep2:
            inner = mul(inner, a)
        # geometric series
        g = None
        bb, ee = base_exp(inner)
        if inner.op == 'pw' and ee is v and v not in bb.vars:
            base = C(bb.args[0]) if bb.op == 'int' else bb
            num = sub(power(base, n), ONE)
            den = sub(base, ONE)
            dv = const_val(den)
            g = num if dv == 1 else mul(num, inv(den))
        elif inner is v:
            g = None
        r = add(r, mul(outer, g if g is not None else _close('sum', n, v, inner)))
    return r

def PROD(n, v, body):
    if v not in body.vars:
        return power(body, n)
    c = const_val(n)
    if c is not None and 0 <= c <= 8:
        r = ONE
        for i in range(c):
            r = mul(r, subst(body, {v: C(i)}))
        return r
    ms = monos(body)
    if len(ms) == 1:
        c_, at = ms[0]
        r = power(C(c_), n) if c_ != 1 else ONE
        if len(at) == 1:
            bb, ee = base_exp(at[0])
            if v in bb.vars and v not in ee.vars and ee is not ONE:
                return mul(r, power(PROD(n, v, bb), ee))
            if v not in bb.vars:
                return mul(r, power(bb, SUM(n, v, ee)))
            return mul(r, _close('prod', n, v, at[0]))
        for a in at:
            r = mul(r, PROD(n, v, a))
        return r
    return _close('prod', n, v, body)

def ALL(n, v, body):
    if body is TRUE or n is ZERO:
        return TRUE
    if v not in body.vars:
        if body is FALSE:
            return eq(n, ZERO)
        return OR(NOT(pos(n)), body)
    c = const_val(n)
    if c is not None and 0 <= c <= 8:
        return AND(*[subst(body, {v: C(i)}) for i in range(c)])
    if body.op == 'and':
        return AND(*[ALL(n, v, x) for x in body.args])
    # all v<n: v < m  with m independent  <=> n <= m (for n>0)
    if body.op == 'pos' and v in body.vars:
        d = body.args[0]
        m = add(d, v)
        if v not in m.vars:
            return OR(NOT(pos(n)), le(n, m)) if not nonneg(m) else le(n, m)
    return _close('all', n, v, body)

def ANY(n, v, body):
    if body is FALSE or n is ZERO:
        return FALSE
    if body is TRUE:
        return pos(n)
    if v not in body.vars:
        return AND(pos(n), body)
    c = const_val(n)
    if c is not None and 0 <= c <= 8:
        return OR(*[subst(body, {v: C(i)}) for i in range(c)])
    if body.op == 'pos':
        d = body.args[0]
        m = add(d, v)
        if v not in m.vars and nonneg(m):
            return NOT(le(n, m))
    return _close('any', n, v, body)

def MU(v, cond):
    """least v with cond(v)"""
    if cond is TRUE:
        return ZERO
    # not (v < n)  =>  n
    if cond.op == 'pos':
        # pos(1 + v - n)
        d = cond.args[0]
        n = sub(add(v, ONE), d)
        if v not in n.vars:
            return n
    if cond.op == 'eq0':
        d = cond.args[0]
        for n in (sub(v, d), add(v, d)):
            if v not in n.vars:
                return n
    L = cond.lvl + 1
    return mk('mu', L, rename(cond, {v: bv(L)}))

def FLAT(n, v, body):
    """concatenation of the sequences body(v) for v<n"""
    if body.op == 'list' and len(body.args) == 1:
        return MAP(n, v, body.args[0])
    c = const_val(n)
    if c is not None and 0 <= c <= 8:
        return cat(*[subst(body, {v: C(i)}) for i in range(c)])
    return _close('flat', n, v, body)

def open1(t, x):
    """instantiate a single-index binder at x"""
    L = t.args[0]
    body = t.args[-1]
    if x.op == 'var' and x not in t.vars:
        return rename(body, {bv(L): x})
    v = fresh()
    return subst(rename(body, {bv(L): v}), {v: x})

def cat(*xs):
    out = []
    for x in xs:
        if x.op == 'cat':
            ys = x.args
        else:
            ys = (x,)
        for y in ys:
            if y is NIL:
                continue
            if y.op == 'list' and out and out[-1].op == 'list':
                out[-1] = lst(*(out[-1].args + y.args))
                continue
            if y.op == 'map' and out and out[-1].op == 'list' and out[-1].args:
                # [.., f(-1)] ++ map(m, f)  ->  [..] ++ map(m+1, i -> f(i-1))
                e = out[-1].args[-1]
                v = fresh()
                body = open1(y, v)
                if v in body.vars and subst(body, {v: C(-1)}) is e:
                    m = MAP(add(y.args[1], ONE), v, subst(body, {v: sub(v, ONE)}))
                    out[-1] = lst(*out[-1].args[:-1])
                    if out[-1] is NIL:
                        out.pop()
                    out.append(m)
                    continue
            out.append(y)
    if not out:
        return NIL
    if len(out) == 1:
        return out[0]
    return mk('cat', *out)

def imin(a, c):
    if a is c:
        return a
    if a is INF:
        return c
    if c is INF:
        return a
    d = sub(a, c)
    if nonneg(d):
        return c
    if nonneg(neg(d)):
        return a
    xs = set()
    for x in (a, c):
        if x.op == 'min':
            xs |= set(x.args)
        else:
            xs.add(x)
    return mk('min', *sorted(xs))

def imax(a, c):
    if a is c:
        return a
    if nonneg(sub(a, c)):
        return a
    if nonneg(sub(c, a)):
        return c
    return mk('max', *sorted((a, c)))

def slc(s, a, e):
    """s[a..e]"""
    n = sub(e, a)
    if a is ZERO and e is length(s):
        return s
    ca, ce = const_val(a), const_val(e)
    if s.op == 'list' and ca is not None and ce is not None and 0 <= ca <= ce <= len(s.args):
        return lst(*s.args[ca:ce])
    if s.op == 'cat' and ca is not None:
        if s.args[0].op == 'list' and len(s.args[0].args) >= ca and e is length(s):
            return cat(lst(*s.args[0].args[ca:]), *s.args[1:])
    v = fresh()
    return MAP(n, v, idx(s, add(a, v)))

def rev(s):
    v = fresh()
    if s.op == 'list':
        return lst(*reversed(s.args))
    return MAP(length(s), v, idx(s, sub(sub(length(s), ONE), v)))

def upd(s, i, x):
    n = const_val(i)
    if s.op == 'list' and n is not None and 0 <= n < len(s.args):
        return lst(*(s.args[:n] + (x,) + s.args[n + 1:]))
    if s.op == 'upd' and s.args[1] is i:
        return mk('upd', s.args[0], i, x)
    if x.op == 'idx' and x.args[0] is s and x.args[1] is i:
        return s
    return mk('upd', s, i, x)

# ---------------------------------------------------------------- recurrences
def mkrec(k, j, kv, vs, inits, nexts):
    """Canonical rec node.  vs: phi vars, inits/nexts parallel, kv: index var.  Keeps only what component j needs."""
    need = []
    def visit(i):
        if i in need:
            return
        need.append(i)
        for d in ordered_vars(nexts[i], pos):
            visit(pos_of[d])
    pos_of = {v: i for i, v in enumerate(vs)}
    pos = frozenset(vs)
    visit(j)
    L = 1 + max([nexts[i].lvl for i in need] + [0])
    m = {kv: bv(L, 'k')}
    for q, i in enumerate(need):
        m[vs[i]] = bv(L, q)
    nx = renames([nexts[i] for i in need], m)
    n = len(need)
    return mk('rec', L, k, n, *([inits[i] for i in need] + nx))

def rec_parts(t):
    """-> (k, inits, nexts opened with fresh vars, kv, vs)"""
    L, k, n = t.args[0], t.args[1], t.args[2]
    inits = t.args[3:3 + n]
    nexts = t.args[3 + n:]
    kv = fresh('k')
    vs = [fresh('x') for _ in range(n)]
    m = {bv(L, 'k'): kv}
    for q in range(n):
        m[bv(L, q)] = vs[q]
    return k, list(inits), renames(nexts, m), kv, vs

def rec_len(t):
    k, inits, nexts, kv, vs = rec_parts(t)
    d = len_delta(nexts[0], vs[0])
    if d is None:
        return None
    if any(v in d.vars for v in vs):
        return None
    return add(length(inits[0]), SUM(k, kv, d))

def len_delta(t, v):
    """if len(t) = len(v) + d for every value of v, return d (t is a sequence expression built on v)"""
    if t is v:
        return ZERO
    if t.op == 'cat':
        tot = ZERO
        seen = False
        for x in t.args:
            if v in x.vars and not seen:
                d = len_delta(x, v)
                if d is None:
                    return None
                seen = True
                tot = add(tot, d)
            else:
                L = length(x)
                if v in L.vars:
                    return None
                tot = add(tot, L)
        return tot if seen else None
    if t.op == 'upd':
        return len_delta(t.args[0], v)
    if t.op == 'map':
        d = sub(t.args[1], mk('len', v))
        return d if v not in d.vars else None
    if t.op == 'rec':
        k, inits, nexts, kv, vs = rec_parts(t)
        d = len_delta(nexts[0], vs[0])
        if d is None or any(x in d.vars for x in vs):
            return None
        d0 = len_delta(inits[0], v)
        if d0 is None:
            return None
        r = add(d0, SUM(k, kv, d))
        return r if v not in r.vars else None
    return None

def ordered_vars(t, of, cache={}):
    """the variables of a set that occur in t, in order of first occurrence"""
    if cache.get('of') is not of and cache.get('of') != of:
        cache.clear()
        cache['of'] = of
    r = cache.get(t)
    if r is None:
        out = []
        seen = set()
        def go(t):
            if t in seen or of.isdisjoint(t.vars):
                return
            seen.add(t)
            if t.op == 'var':
                out.append(t)
                return
            for a in t.args:
                if isinstance(a, T):
                    go(a)
        go(t)
        r = cache[t] = tuple(out)
    return r

def collect_vars(t, out, seen=None):
    if seen is None:
        seen = set()
    if not t.vars or t in seen:
        return
    seen.add(t)
    if t.op == 'var':
        if t not in out:
            out.append(t)
        return
    for a in t.args:
        if isinstance(a, T):
            collect_vars(a, out, seen)

# ---------------------------------------------------------------- substitution / rebuilding
def subst(t, m):
    """capture-free substitution of fresh vars"""
    keys = frozenset(m)
    return _sub(t, m, keys, {})

def _sub(t, m, keys, memo):
    if not (t.vars & keys):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == 'var':
        r = m.get(t, t)
    elif t.op in BINDERS:
        if t.op == 'rec':
            k, inits, nexts, kv, vs = rec_parts(t)
            inits = [_sub(x, m, keys, memo) for x in inits]
            nexts = [_sub(x, m, keys, memo) for x in nexts]
            k = _sub(k, m, keys, memo)
            r = solve_rec(k, 0, kv, vs, inits, nexts)
        elif t.op == 'mu':
            v = fresh()
            r = MU(v, _sub(open1(t, v), m, keys, memo))
        else:
            v = fresh()
            body = _sub(open1(t, v), m, keys, memo)
            n = _sub(t.args[1], m, keys, memo)
            r = {'map': MAP, 'sum': SUM, 'prod': PROD, 'all': ALL, 'any': ANY, 'flat': FLAT}[t.op](n, v, body)
    else:
        r = rebuild(t, [(_sub(a, m, keys, memo) if isinstance(a, T) else a) for a in t.args])
    memo[t] = r
    return r

COMM = {'poly', 'mon', 'and', 'or', 'min', 'max', 'eqv'}

def rename(t, m):
    """replace leaf nodes (fresh vars <-> bound variables) without re-normalising"""
    return renames([t], m)[0]

def renames(ts, m):
    keys = frozenset(m)
    memo = {}
    def go(t):
        if t.op == 'var' or t.op == 'bv':
            return m.get(t, t)
        r = memo.get(t)
        if r is None:
            if keys.isdisjoint(t.vars) and keys.isdisjoint(t.bvs):
                memo[t] = t
                return t
            a = [go(x) if isinstance(x, T) else x for x in t.args]
            if t.op in COMM:
                ts = [x for x in a if isinstance(x, T)]
                ts.sort()
                a = [x for x in a if not isinstance(x, T)] + ts
            r = mk(t.op, *a)
            memo[t] = r
        return r
    return [go(t) for t in ts]

REBUILD = {'ispow2': lambda a: ispow2(a), 'popcnt': lambda a: popcnt(a), 'npow2': lambda a: npow2(a), 'log2': lambda a: log2(a),
           'ctz': lambda a: ctz(a), 'idiv': lambda a, c: idiv(a, c), 'imod': lambda a, c: imod(a, c), 'cdiv': lambda a, c: cdiv(a, c),
           'band': lambda a, c: band(a, c), 'bit': lambda a, i: bit(a, i), 'ffloor': lambda a: ffloor(a), 'setf': lambda v, i, x: setf(v, i, x)}
def rebuild(t, a):
    op = t.op
    if op == 'poly':
        return sumt([mk('poly', x) if x.op == 'mon' else x for x in a])
    if op == 'mon':
        r = C(a[0])
        for x in a[1:]:
            r = mul(r, x)
        return r
    if op == 'pw':
        if a[0].op == 'int':
            return power(C(a[0].args[0]), a[1])
        return power(a[0], a[1])
    if op == 'and':
        return AND(*a)
    if op == 'or':
        return OR(*a)
    if op == 'not':
        return NOT(a[0])
    if op == 'eq0':
        return eq(a[0], ZERO)
    if op == 'eqv':
        return eq(a[0], a[1])
    if op == 'pos':
        return pos(a[0])
    if op == 'ite':
        return ite(*a)
    if op == 'isvar':
        return isvar(*a)
    if op == 'pay':
        return pay(*a)
    if op == 'fld':
        return fld(*a)
    if op == 'len':
        return length(a[0])
    if op == 'idx':
        return idx(*a)
    if op == 'cat':
        return cat(*a)
    if op == 'upd':
        return upd(*a)
    if op == 'min':
        r = a[0]
        for x in a[1:]:
            r = imin(r, x)
        return r
    if op == 'max':
        return imax(*a)
    f = REBUILD.get(op)
    if f:
        return f(*a)
    return mk(op, *a)

def solve_rec(k, j, kv, vs, inits, nexts):
    if len(vs) == 1:
        r = self_push(k, kv, vs[0], inits[0], nexts[0])
        if r is not None:
            return r
    sols = solve_group(kv, list(vs), inits, nexts)
    r = sols[j]
    if r.op == 'rec':
        # avoid re-solving a node that was just built
        k0, i0, n0 = r.args[1], r.args[3:3 + r.args[2]], r.args[3 + r.args[2]:]
        if k0 is kv and not any(kv in x.vars for x in i0 + n0):
            return mk('rec', r.args[0], k, *r.args[2:])
    return subst(r, {kv: k})

def self_push(k, kv, v, init, nx):
    """k steps of v := v ++ [f(v[step], step)] with k <= len(init): every read hits the initial part"""
    if nx.op == 'cat' and len(nx.args) == 2 and nx.args[0] is v and nx.args[1].op == 'list' and len(nx.args[1].args) == 1 \
            and nonneg(sub(length(init), k)):
        hole = fresh('x')
        g = replace(nx.args[1].args[0], {mk('idx', v, kv): hole})
        if v not in g.vars:
            i = fresh('k')
            return cat(init, MAP(k, i, subst(g, {hole: idx(init, i), kv: i})))
    return None

def sccs(nodes, deps):
    """bottom strongly connected components (depending on nothing outside themselves)"""
    reach = {}
    for n in nodes:
        seen = set()
        st = [n]
        while st:
            x = st.pop()
            for y in deps[x]:
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        reach[n] = seen
    out = []
    done = set()
    for n in nodes:
        if n in done:
            continue
        comp = [m for m in nodes if m == n or (m in reach[n] and n in reach[m])]
        done |= set(comp)
        if all(y in comp for m in comp for y in deps[m]):
            out.append(comp)
    return out

def solve_group(kv, vs, inits, nexts):
    """closed forms (as functions of kv) for every component; components without one become rec nodes.
    Returns list of terms over kv."""
    n = len(vs)
    vs = list(vs)
    nexts = list(nexts)
    inits = list(inits)
    sol = {}
    def S(t):
        return subst(t, {vs[i]: sol[i] for i in sol}) if sol else t
    steps = 0
    while len(sol) < len(vs):
        steps += 1
        if steps > 200:
            raise RuntimeError('solve_group does not converge')
        changed = False
        un = [i for i in range(len(vs)) if i not in sol]
        for i in un:
            nexts[i] = S(nexts[i])
        for i in un:
            others = [vs[q] for q in un if q != i and q not in sol]
            r = _closed(kv, vs[i], inits[i], nexts[i], others)
            if r is not None:
                sol[i] = r
                changed = True
                break
        if changed:
            continue
        # lengths of growing vectors
        facts = {}
        uv = {vs[q] for q in un}
        for i in un:
            d = len_delta(nexts[i], vs[i])
            if d is not None and not (d.vars & uv):
                kv2 = fresh()
                facts[vs[i]] = add(length(inits[i]), SUM(kv, kv2, subst(d, {kv: kv2})))
        if facts:
            for i in un:
                new = with_len(nexts[i], facts)
                if new is not nexts[i]:
                    nexts[i] = new
                    changed = True
        if changed:
            continue
        # previous-element components
        for i in un:
            v = vs[i]
            nx = nexts[i]
            if nx.op == 'cat' and nx.args[0] is v and len(nx.args) == 2 and nx.args[1].op == 'list' and len(nx.args[1].args) == 1:
                lasts = find_last(nexts, v, facts.get(v), un)
                dflts = {d for _, d in lasts}
                if lasts and len(dflts) == 1:
                    d = dflts.pop()
                    if length(inits[i]) is not ZERO:
                        d = _last_of(inits[i])
                    if d is not None and not (d.vars & uv):
                        pv = fresh('x')
                        rep = {node: pv for node, _ in lasts}
                        for q in un:
                            nexts[q] = replace(nexts[q], rep)
                        vs.append(pv)
                        inits.append(d)
                        nexts.append(nexts[i].args[1].args[0])
                        changed = True
                        break
        if changed:
            continue
        deps = {i: [q for q in un if vs[q] in nexts[i].vars] for i in un}
        for comp in sccs(un, deps):
            rvs = [vs[i] for i in comp]
            rin = [inits[i] for i in comp]
            rnx = [nexts[i] for i in comp]
            for q, i in enumerate(comp):
                sol[i] = mkrec(kv, q, kv, rvs, rin, rnx)
    return [sol[i] for i in range(n)]

def _last_of(s):
    L = length(s)
    c = const_val(L)
    if c is not None and c > 0:
        return idx(s, C(c - 1))
    return None

def with_len(t, facts):
    """rewrite len(v) by known closed forms"""
    rep = {mk('len', v): x for v, x in facts.items()}
    old = dict(LENFACTS)
    LENFACTS.update(facts)
    try:
        return replace(t, rep, touch=set(facts))
    finally:
        LENFACTS.clear()
        LENFACTS.update(old)

def replace(t, rep, touch=()):
    """replace sub-terms (by identity), rebuilding; nodes mentioning a var in `touch` are always rebuilt"""
    memo = {}
    def go(t):
        if t in rep:
            return rep[t]
        r = memo.get(t)
        if r is not None:
            return r
        if not t.args or t.op in ('var', 'bv'):
            return t
        if t.op in BINDERS:
            if t.op == 'rec':
                k, inits, nexts, kv, vs = rec_parts(t)
                k2, i2, n2 = go(k), [go(x) for x in inits], [go(x) for x in nexts]
                if k2 is k and i2 == inits and n2 == nexts and not (touch and t.vars & touch):
                    r = t
                else:
                    r = solve_rec(k2, 0, kv, vs, i2, n2)
            elif t.op == 'mu':
                v = fresh()
                bd = open1(t, v)
                b2 = go(bd)
                r = t if b2 is bd else MU(v, b2)
            else:
                v = fresh()
                bd = open1(t, v)
                b2 = go(bd)
                n2 = go(t.args[1])
                r = t if (b2 is bd and n2 is t.args[1]) else {'map': MAP, 'sum': SUM, 'prod': PROD, 'all': ALL, 'any': ANY, 'flat': FLAT}[t.op](n2, v, b2)
        else:
            a2 = [go(a) if isinstance(a, T) else a for a in t.args]
            if all(x is y for x, y in zip(a2, t.args)) and not (touch and t.vars & set(touch)):
                r = t
            else:
                r = rebuild(t, a2)
                if r is not t and r in rep:
                    r = rep[r]
        memo[t] = r
        return r
    return go(t)

def find_last(nexts, v, lenv, active):
    """occurrences of `last element of v` in nexts -> [(node, default or None)]"""
    out = {}
    seen = set()
    L = lenv if lenv is not None else mk('len', v)
    def go(t):
        if t in seen or v not in t.vars:
            return
        seen.add(t)
        if t.op == 'ite':
            # last(v).unwrap_or(d)  ==  ite(len>0, v[len-1], d)
            c, x, y = t.args
            if x.op == 'idx' and x.args[0] is v and _is_last(x.args[1], v, L) and v not in y.vars and _is_nonempty(c, v, L):
                out[t] = y
                return
            if y.op == 'idx' and y.args[0] is v and _is_last(y.args[1], v, L) and v not in x.vars and _is_nonempty(NOT(c), v, L):
                out[t] = x
                return
        if t.op == 'idx' and t.args[0] is v and _is_last(t.args[1], v, L):
            out[t] = None
            return
        for a in t.args:
            if isinstance(a, T):
                go(a)
    for q in active:
        go(nexts[q])
    return list(out.items())

def _is_last(i, v, L):
    return i is sub(L, ONE) or i is sub(mk('len', v), ONE)
def _is_nonempty(c, v, L):
    return c in (pos(L), pos(mk('len', v)), NOT(eq(L, ZERO)), NOT(eq(mk('len', v), ZERO)))

def _closed(kv, v, init, nx, others):
    """closed form of v after kv steps if next = nx(v, kv) with no other unsolved component"""
    if nx is v:
        return init
    if any(o is not v and o in nx.vars for o in others):
        dep_other = True
    else:
        dep_other = False
    if v not in nx.vars:
        if dep_other:
            return None
        # value of the previous iteration: v_k = k==0 ? init : nx(k-1); keep as closed form only if independent of k
        if kv not in nx.vars:
            return ite(eq(kv, ZERO), init, nx)
        prev = subst(nx, {kv: sub(kv, ONE)})
        if subst(nx, {kv: C(-1)}) is init:
            return prev
        return ite(eq(kv, ZERO), init, prev)
    if dep_other:
        # pushes of values that depend on other components: v is a pure push accumulator
        return None
    d = sub(nx, v) if nx.op not in SEQ and nx.op not in ('and', 'or', 'ite', 'adt', 'tup') else None
    if d is not None and v not in d.vars:
        i = fresh()
        return add(init, SUM(kv, i, subst(d, {kv: i})))
    ms = monos(nx) if nx.op not in SEQ else []
    if len(ms) == 1 and len(ms[0][1]) >= 1 and nx.op != 'and':
        c, at = ms[0]
        cnt = [a for a in at if base_exp(a)[0] is v]
        rest = [a for a in at if base_exp(a)[0] is not v]
        if len(cnt) == 1 and not any(v in a.vars for a in rest):
            e = base_exp(cnt[0])[1]
            ev = const_val(e)
            f = C(c)
            for a in rest:
                f = mul(f, a)
            if ev == 1:
                i = fresh()
                return mul(init, PROD(kv, i, subst(f, {kv: i})))
            if ev == 2 and f is ONE:
                return power(init, power(C(2), kv))
    if nx.op == 'cat' and nx.args[0] is v:
        rest = cat(*nx.args[1:])
        if v not in rest.vars:
            i = fresh()
            return cat(init, FLAT(kv, i, subst(rest, {kv: i})))
    if nx.op == 'and' and v in nx.args:
        rest = AND(*[x for x in nx.args if x is not v])
        if v not in rest.vars:
            i = fresh()
            return AND(init, ALL(kv, i, subst(rest, {kv: i})))
    if nx.op == 'or' and v in nx.args:
        rest = OR(*[x for x in nx.args if x is not v])
        if v not in rest.vars:
            i = fresh()
            return OR(init, ANY(kv, i, subst(rest, {kv: i})))
    if nx.op == 'upd' and nx.args[0] is v and nx.args[1] is kv:
        # v[kv] = f(v[kv], kv): element-wise update of the first kv entries
        f = nx.args[2]
        node = mk('idx', v, kv)
        g = replace(f, {node: (hole := fresh('x'))})
        if v not in g.vars:
            i = fresh('k')
            new = subst(g, {hole: idx(init, i), kv: i})
            old = idx(init, i)
            return MAP(length(init), i, ite(lt(i, kv), new, old))
    return None

# ---------------------------------------------------------------- display
def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 40:
        return '…'
    op, a = t.op, t.args
    s = lambda x: show(x, d + 1)
    if op == 'var':
        return '%s%d' % (a[0], a[1])
    if op == 'bv':
        return '$%s%s' % (a[0], '' if a[1] == 'k' else '.' + str(a[1]))
    if op == 'poly':
        if not a:
            return '0'
        return '(' + ' + '.join(s(m) for m in a) + ')' if len(a) > 1 else s(a[0])
    if op == 'mon':
        parts = [s(x) for x in a[1:]]
        if a[0] != 1 or not parts:
            parts.insert(0, str(a[0]))
        return '*'.join(parts)
    if op == 'pw':
        return '%s^(%s)' % (s(a[0]), s(a[1]))
    if op == 'int':
        return str(a[0])
    if op == 'tup':
        return '(' + ', '.join(s(x) for x in a) + ')'
    if op == 'list':
        return '[' + ', '.join(s(x) for x in a) + ']'
    if op == 'adt':
        return '%s#%d{%s}' % (a[0].split('::')[-1], a[1], ', '.join(s(x) for x in a[2:]))
    if op == 'fld':
        return '%s.%s' % (s(a[0]), a[1])
    if op == 'pay':
        return '%s!%s.%s' % (s(a[0]), a[1], a[2])
    if op == 'idx':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if op == 'param':
        return str(a[0])
    if op in ('map', 'sum', 'prod', 'all', 'any', 'flat'):
        return '%s{$%d<%s: %s}' % (op, a[0], s(a[1]), s(a[2]))
    if op == 'mu':
        return 'mu{$%d: %s}' % (a[0], s(a[1]))
    if op == 'rec':
        n = a[2]
        return 'rec{$%d, steps=%s; init=[%s]; next=[%s]}' % (a[0], s(a[1]), ', '.join(s(x) for x in a[3:3 + n]), ', '.join(s(x) for x in a[3 + n:]))
    return '%s(%s)' % (op, ', '.join(s(x) for x in a))

