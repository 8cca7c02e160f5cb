"""Random interpretation of value-graph terms (polynomial identity testing).

Terms are expressions, not programs: this module assigns random field elements to the opaque leaves of two *terms*
(parameters, digests, uninterpreted external results) and compares the field elements they denote, the standard
Schwartz-Zippel decision procedure for equality of polynomial expressions.  Group elements, target-group elements and
scalars are all elements of F_p (a group element is its discrete logarithm), digests and encodings are uninterpreted
functions, machine integers are exact.  Two different polynomials agree with probability < 2^-50 per trial.
"""
import hashlib
import re
import json
from fractions import Fraction
from . import terms as t
from .terms import T

P = (1 << 61) - 1


class Undef(Exception):
    """the term has no value here (index out of range, inverse of zero, payload of the wrong variant)"""


class Opaque(Exception):
    """the term contains something without a contract"""


class F:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v % P

    def __eq__(self, o):
        return isinstance(o, F) and o.v == self.v

    def __hash__(self):
        return hash(('F', self.v))

    def __repr__(self):
        return 'F(%d)' % self.v


class St:
    """tagged structure"""
    __slots__ = ('tag', 'a')

    def __init__(self, tag, a):
        self.tag, self.a = tag, a

    def __eq__(self, o):
        return isinstance(o, St) and o.tag == self.tag and o.a == self.a

    def __hash__(self):
        return hash((self.tag, self.a))

    def __repr__(self):
        return '%s%r' % (self.tag, self.a)


_faulty = {}


def faulty(x):
    """does the value depend on whether some operation fails?"""
    todo = [x]
    while todo:
        y = todo[-1]
        if y.id in _faulty:
            todo.pop()
            continue
        if y.op == 'fault':
            _faulty[y.id] = True
            continue
        sub = [z for z in y.args if isinstance(z, T)]
        new = [z for z in sub if z.id not in _faulty]
        if new:
            todo += new
            continue
        _faulty[y.id] = any(_faulty[z.id] for z in sub)
        todo.pop()
    return _faulty[x.id]


_draws = {}


def draws(x):
    """(does the value ask for candidate challenges or random values?, height).  Deciding a condition must not ask for
    more of them than the program does: the literals that need none come first, and a bound comes before what it
    bounds (which contains it)."""
    todo = [x]
    while todo:
        y = todo[-1]
        if y.id in _draws:
            todo.pop()
            continue
        sub = [z for z in y.args if isinstance(z, T)]
        new = [z for z in sub if z.id not in _draws]
        if new:
            todo += new
            continue
        d = y.op in ('frombe', 'fromle', 'rand') or (y.op == 'call' and y.args[0] == 'from_random_bytes')
        _draws[y.id] = (d or any(_draws[z.id][0] for z in sub), 1 + max([_draws[z.id][1] for z in sub] or [0]))
        todo.pop()
    d, h = _draws[x.id]
    return (d, h if d else 0)


def plain_first(a):
    if len(a) < 2:
        return a
    if not FAULTS[0]:
        return sorted(a, key=draws)
    return sorted(a, key=lambda x: (faulty(x), draws(x)))


FAULTS = [False]        # any evaluation of failing operations in this process?


class Opq:
    """opaque input, identified by its access path"""
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Opq) and o.path == self.path

    def __hash__(self):
        return hash(('Opq', self.path))

    def __repr__(self):
        return pshow(self.path)


def pshow(p):
    s = str(p[0])
    for e in p[1:]:
        if e[0] == 'f':
            s += '.%s' % e[1]
        elif e[0] == 'i':
            s += '[%s]' % e[1]
        else:
            s += str(e)
    return s


class Env:
    """one random assignment"""

    def __init__(self, seed=0, lens=None, ints=None, nums=None, zeros=0, hlen=32, binds=None):
        self.seed = seed
        self.lens = lens or {}        # path (or callable) -> length
        self.ints = ints or {}
        self.nums = dict(nums or {})
        self.zeros = zeros            # every `zeros`-th digest-derived candidate is zero
        self.hlen = hlen
        self.binds = binds or {}      # parameter name -> value
        self.memo = {}
        self.touched = set()
        self.bools = {}
        self.cands = {}               # digest input -> (candidate scalar or None, number of digest bytes used)
        self.written = {}             # serialised bytes -> the value
        self.hashed = {}              # digest -> what was hashed
        self.streams = {}             # stream generator -> its seed
        self.rngsrc = {}              # bytes drawn -> rng state they were drawn from
        self.keycalls = {}            # (generic commitment, rng state) -> number of keys
        self.draws = {}               # rng state/bytes -> (type, value)
        self.gates = None             # (condition, occurrence) -> residual of the data-dependent special cases met (when collecting)
        self.ingate = 0
        self.gatecount = {}
        self.toks, self.tokof, self.tokkeep = {}, {}, []
        self.intview = {}             # field element -> the sampled integer it stands for
        self.level = None             # the value of every input not given
        self.flip = 0                 # bits flipped in every sampled integer
        self.frozen = None            # oracle answers by order of first use (a programmed random oracle)
        self.record = {'be': [], 'frb': [], 'draw': []}
        self.steps = 0
        self.faults = {}              # fallible operation -> does it fail (filled while evaluating)
        self.failing = None           # the one operation that fails

    def fault(self, key):
        v = self.failing is not None and key == self.failing
        self.faults[key] = v
        return v

    def answer(self, kind, default):
        l = self.record[kind]
        if self.frozen is not None and len(l) < len(self.frozen[kind]):
            default = self.frozen[kind][len(l)]
        l.append(default)
        return default

    def uf(self, *key):
        h = hashlib.blake2b(repr((self.seed,) + key).encode(), digest_size=16).digest()
        return int.from_bytes(h, 'big')

    def num(self, path):
        self.touched.add(path)
        if path in self.nums:
            return self.nums[path]
        if path in self.ints:
            return self.ints[path]
        v = F(self.uf('num', path) if self.level is None else self.level)
        self.nums[path] = v
        return v

    def length(self, path):
        if path in self.lens:
            return self.lens[path]
        # paths with indices replaced by '*'
        q = tuple((e if (not isinstance(e, tuple) or e[0] != 'i') else ('i', '*')) for e in path)
        if q in self.lens:
            v = self.lens[q]
            return v(path) if callable(v) else v
        d = self.lens.get('default')
        if d is None:
            raise Opaque('length of ' + pshow(path))
        v = d(path) if callable(d) else d
        self.lens[path] = v
        return v

    def known_len(self, path):
        if path in self.lens:
            return True
        q = tuple((e if (not isinstance(e, tuple) or e[0] != 'i') else ('i', '*')) for e in path)
        return q in self.lens


def modp(x):
    if isinstance(x, F):
        return x.v
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x % P
    if isinstance(x, Fraction):
        return x.numerator % P * pow(x.denominator, P - 2, P) % P
    raise Opaque('number expected: %r' % (x,))


def tyname(k):
    try:
        j = json.loads(k)
        if j.get('k') in ('param', 'proj'):
            return j['n']
    except ValueError:
        pass
    return k


class Ev:
    def __init__(self, env):
        self.env = env

    # ---------------------------------------------------------------- numbers
    def num(self, v):
        if isinstance(v, (int, Fraction, F)):
            return v
        if isinstance(v, Opq):
            return self.env.num(v.path)
        if isinstance(v, St) and v.tag in ('gtpow', 'uf'):
            return v
        if isinstance(v, St) and v.tag == 'adt' and len(v.a) == 3 and v.a[0].endswith('Placeholder'):
            return F(0)
        if isinstance(v, St):
            # an aggregate used in arithmetic: treat as an uninterpreted number
            return F(self.env.uf('as-num', self.canon(v)))
        raise Opaque('number expected: %r' % (v,))

    def nadd(self, a, b):
        if isinstance(a, F) or isinstance(b, F):
            return F(modp(a) + modp(b))
        return a + b

    def nmul(self, a, b):
        if isinstance(a, St) or isinstance(b, St):
            if isinstance(a, St) and isinstance(b, St) and a.tag == b.tag == 'gtpow':
                return St('gtpow', (self.nadd(a.a[0], b.a[0]),))
            if isinstance(a, int) and a == 1:
                return b
            if isinstance(b, int) and b == 1:
                return a
            raise Opaque('product of target-group values')
        if isinstance(a, F) or isinstance(b, F):
            return F(modp(a) * modp(b))
        r = a * b
        if isinstance(r, Fraction) and r.denominator == 1:
            return int(r)
        return r

    def npow(self, b, e):
        if isinstance(b, St) and b.tag == 'gtpow':
            return St('gtpow', (self.nmul(b.a[0], e),))
        if isinstance(e, F):
            return F(self.env.uf('pow', modp(b), e.v))
        if isinstance(e, Fraction):
            if e.denominator != 1:
                raise Undef('fractional exponent')
            e = int(e)
        if isinstance(b, F):
            if e < 0:
                if b.v == 0:
                    raise Undef('inverse of zero')
                return F(pow(pow(b.v, P - 2, P), -e, P))
            return F(pow(b.v, e, P))
        if e < 0:
            if b == 0:
                raise Undef('inverse of zero')
            r = Fraction(1) / Fraction(b) ** (-e)
            return int(r) if r.denominator == 1 else r
        if e > 100000:
            raise Opaque('huge exponent')
        return b ** e

    def int_(self, v):
        v = self.num(v)
        if isinstance(v, Fraction):
            if v.denominator == 1:
                return int(v)
            raise Undef('fraction as integer')
        if isinstance(v, F):
            if v.v in self.env.intview:
                return self.env.intview[v.v]
            raise Opaque('field element as integer')
        return int(v)

    def wideint(self, bits, h):
        """a pseudorandom integer of so many bits, usable as an integer and as a field element"""
        n = (h ^ (h << 61) ^ self.env.flip) & ((1 << bits) - 1)
        r = F(n % P)
        self.env.intview[r.v] = n
        return r

    # ---------------------------------------------------------------- canonical values
    def canon(self, v):
        if isinstance(v, bool):
            return ('b', v)
        if isinstance(v, (int, Fraction, F)):
            return ('n', modp(v))
        if isinstance(v, tuple):
            return ('s',) + tuple(self.canon(x) for x in v)
        if isinstance(v, Opq):
            if self.env.known_len(v.path):
                n = self.env.length(v.path)
                return ('s',) + tuple(self.canon(Opq(v.path + (('i', i),))) for i in range(n))
            if v.path in self.env.bools:
                return ('b', self.env.bools[v.path])
            return ('n', modp(self.env.num(v.path)))
        if isinstance(v, St):
            if v.tag == 'it':
                return ('it',)
            return (v.tag,) + tuple(self.canon(x) if not isinstance(x, str) else x for x in v.a)
        if isinstance(v, str):
            return v
        if v is None:
            return None
        raise Opaque('canon %r' % (v,))

    def seq(self, v):
        """as a python tuple"""
        if isinstance(v, tuple):
            return v
        if isinstance(v, Opq):
            n = self.env.length(v.path)
            return tuple(Opq(v.path + (('i', i),)) for i in range(n))
        if isinstance(v, St):
            if v.tag == 'H':
                return tuple(St('byte', (v, i)) for i in range(self.env.hlen))
            if v.tag == 'keys':
                return tuple(F(self.env.uf('key', self.canon(v), i)) for i in range(v.a[2]))
            return (v,)
        raise Opaque('sequence expected: %r' % (v,))

    # ---------------------------------------------------------------- evaluation
    def ev(self, x, bvs=None):
        bvs = bvs or {}
        key = None
        if len(x.args) > 0:
            rel = ()
            if x.bvs:
                rel = []
                for b in x.bvs:
                    if b in bvs:
                        v = bvs[b]
                        c = v.__class__
                        if c is tuple or c is St:
                            # hashed once, then known by its identity
                            q = self.env.toks.get(id(v))
                            if q is None:
                                try:
                                    q = self.env.tokof.setdefault(v, (len(self.env.tokof), 'tok'))
                                except TypeError:
                                    q = (len(self.env.tokof) + len(self.env.toks), 'obj')
                                self.env.toks[id(v)] = q
                                self.env.tokkeep.append(v)
                            v = q
                        rel.append((b.id, v))
                rel = tuple(rel)
            if len(rel) > 1:
                rel = tuple(sorted(rel, key=lambda z: z[0]))
            key = (x.id, rel)
            try:
                if key in self.env.memo:
                    r = self.env.memo[key]
                    if isinstance(r, Exception):
                        raise r
                    return r
            except TypeError:
                key = None
        try:
            r = self._ev(x, bvs)
        except (Undef, Opaque) as e:
            if key is not None:
                self.env.memo[key] = e
            raise
        if isinstance(r, Fraction) and r.denominator == 1:
            r = int(r)
        if key is not None:
            self.env.memo[key] = r
        return r

    def _ev(self, x, B):
        self.env.steps += 1
        op, a = x.op, x.args
        f = getattr(self, 'e_' + op, None)
        if f is None:
            if op in ('konst', 'default', 'str', 'errc', 'uninit', 'clz', 'fbmsm', 'fbtable', 'fbwin', 'schedule', 'bitand',
                      'bitor', 'bitxor', 'gtlog', 'fe', 'polydiv'):
                return self.uninterpreted(x, B)
            if op == 'bot':
                raise Undef('bot')
            raise Opaque('no meaning for ' + op + (':' + str(a[0]) if a and not isinstance(a[0], T) else ''))
        return f(x, a, B)

    def uninterpreted(self, x, B):
        args = tuple(self.canon(self.ev(y, B)) if isinstance(y, T) else y for y in x.args)
        if x.op in ('konst',) and 'BIT_SIZE' in str(x.args[0]):
            return 255
        if x.op in ('str', 'uninit', 'errc'):
            return St(x.op, args)
        return F(self.env.uf(x.op, args))

    def e_true(self, x, a, B):
        return True

    def e_false(self, x, a, B):
        return False

    def e_poly(self, x, a, B):
        if len(a) == 1:
            return self.e_mon(a[0], a[0].args, B)
        r = 0
        for m in a:
            r = self.nadd(r, self.e_mon(m, m.args, B))
        return r

    def e_mon(self, x, a, B):
        r = a[0]
        for y in a[1:]:
            v = self.num(self.ev(y, B))
            r = self.nmul(r, v)
        return r

    def e_pw(self, x, a, B):
        b = a[0]
        if b.op == 'gt':
            e = self.num(self.ev(a[1], B))
            return St('gtpow', (e,))
        e = self.num(self.ev(a[1], B))
        base = b.args[0] if b.op == 'int' else self.num(self.ev(b, B))
        return self.npow(base, e)

    def e_gt(self, x, a, B):
        return St('gtpow', (1,))

    def e_int(self, x, a, B):
        return a[0]

    def e_inf(self, x, a, B):
        raise Opaque('inf')

    def e_param(self, x, a, B):
        if a[0] in self.env.binds:
            return self.env.binds[a[0]]
        return Opq((a[0],))

    def e_var(self, x, a, B):
        raise Opaque('free variable')

    def e_bv(self, x, a, B):
        if x not in B:
            raise Opaque('unbound')
        return B[x]

    def e_tup(self, x, a, B):
        return St('tup', tuple(self.ev(y, B) for y in a))

    def e_adt(self, x, a, B):
        return St('adt', (a[0], a[1]) + tuple(self.ev(y, B) for y in a[2:]))

    def e_fld(self, x, a, B):
        v = self.ev(a[0], B)
        if isinstance(v, St) and v.tag == 'tup':
            if a[1] < len(v.a):
                return v.a[a[1]]
            raise Undef('field')
        if isinstance(v, St) and v.tag == 'adt':
            if a[1] + 2 < len(v.a):
                return v.a[2 + a[1]]
            raise Undef('field')
        if isinstance(v, Opq):
            return Opq(v.path + (('f', a[1]),))
        if isinstance(v, St) and v.tag == 'setf':
            return v.a[2] if v.a[1] == a[1] else self.fldv(v.a[0], a[1])
        return F(self.env.uf('fld', self.canon(v), a[1]))

    def fldv(self, v, i):
        if isinstance(v, Opq):
            return Opq(v.path + (('f', i),))
        if isinstance(v, St) and v.tag == 'setf':
            return v.a[2] if v.a[1] == i else self.fldv(v.a[0], i)
        if isinstance(v, St) and v.tag == 'tup' and i < len(v.a):
            return v.a[i]
        if isinstance(v, St) and v.tag == 'adt' and i + 2 < len(v.a):
            return v.a[2 + i]
        raise Opaque('field')

    def e_setf(self, x, a, B):
        return St('setf', (self.ev(a[0], B), a[1], self.ev(a[2], B)))

    def e_isvar(self, x, a, B):
        v = self.ev(a[0], B)
        if isinstance(v, St) and v.tag == 'adt':
            return v.a[1] == a[1]
        if isinstance(v, Opq):
            return self.env.uf('isvar', v.path) % 2 == a[1]
        return self.env.uf('isvar', self.canon(v)) % 2 == a[1]

    def e_pay(self, x, a, B):
        v = self.ev(a[0], B)
        if isinstance(v, St) and v.tag == 'adt':
            if v.a[1] == a[1] and 2 + a[2] < len(v.a):
                return v.a[2 + a[2]]
            raise Undef('payload of another variant')
        if isinstance(v, Opq):
            return Opq(v.path + (('p', a[1], a[2]),))
        return F(self.env.uf('pay', self.canon(v), a[1], a[2]))

    # booleans
    def e_and(self, x, a, B):
        un = None
        for y in plain_first(a):
            try:
                if not self.bool(y, B):
                    return False
            except (Undef, Opaque) as e:
                if un is None or isinstance(e, Opaque):
                    un = e
        if un:
            raise un
        return True

    def e_or(self, x, a, B):
        un = None
        for y in plain_first(a):
            try:
                if self.bool(y, B):
                    return True
            except (Undef, Opaque) as e:
                if un is None or isinstance(e, Opaque):
                    un = e
        if un:
            raise un
        return False

    def bool(self, y, B):
        v = self.ev(y, B)
        if isinstance(v, bool):
            return v
        if isinstance(v, Opq):
            if v.path in self.env.bools:
                return self.env.bools[v.path]
            return self.env.uf('bool', v.path) % 2 == 0
        if isinstance(v, int):
            return bool(v)
        raise Opaque('boolean expected')

    def e_not(self, x, a, B):
        return not self.bool(a[0], B)

    def gate(self, x, r):
        if self.env.gates is not None and self.env.ingate:
            k = self.env.gatecount.get(x, 0)
            self.env.gatecount[x] = k + 1
            self.env.gates[(x, k)] = r

    def e_eq0(self, x, a, B):
        v = self.num(self.ev(a[0], B))
        if self.env.ingate and not isinstance(v, (int, St)):
            self.gate(x, modp(v))
        if isinstance(v, St):
            return modp(v.a[0]) == 0 if v.tag == 'gtpow' else False
        return modp(v) == 0

    def e_eqv(self, x, a, B):
        p, q = self.canon(self.ev(a[0], B)), self.canon(self.ev(a[1], B))
        if self.env.ingate and self.env.gates is not None:
            self.gates(x, p, q)
        return p == q

    def gates(self, x, p, q):
        if isinstance(p, tuple) and isinstance(q, tuple) and p and q:
            if p[0] == 'n' == q[0] and len(p) == 2 == len(q):
                self.gate(x, (p[1] - q[1]) % P)
            elif len(p) == len(q):
                for y, z in zip(p, q):
                    self.gates(x, y, z)

    def e_pos(self, x, a, B):
        v = self.num(self.ev(a[0], B))
        if isinstance(v, F):
            # an ordering of field elements: some fixed but arbitrary order
            return v.v > P // 2
        return v > 0

    def e_ispow2(self, x, a, B):
        n = self.int_(self.ev(a[0], B))
        return n > 0 and n & (n - 1) == 0

    def e_bit(self, x, a, B):
        n = self.int_(self.ev(a[0], B))
        i = self.int_(self.ev(a[1], B))
        return bool((n >> i) & 1)

    def e_ite(self, x, a, B):
        self.env.ingate += 1
        try:
            c = self.bool(a[0], B)
        finally:
            self.env.ingate -= 1
        return self.ev(a[1] if c else a[2], B)

    # integers
    def e_popcnt(self, x, a, B):
        return bin(self.int_(self.ev(a[0], B))).count('1')

    def e_npow2(self, x, a, B):
        n = self.int_(self.ev(a[0], B))
        return 1 if n <= 1 else 1 << (n - 1).bit_length()

    def e_log2(self, x, a, B):
        n = self.int_(self.ev(a[0], B))
        if n <= 0:
            raise Undef('log2')
        return n.bit_length() - 1

    def e_ctz(self, x, a, B):
        n = self.int_(self.ev(a[0], B))
        return (n & -n).bit_length() - 1 if n else 64

    def part(self, v, n):
        """an integer computed from a sampled one stays usable as a field element"""
        if not isinstance(self.num(v), F):
            return n
        r = F(n % P)
        self.env.intview[r.v] = n
        return r

    def e_idiv(self, x, a, B):
        v = self.ev(a[0], B)
        n, m = self.int_(v), self.int_(self.ev(a[1], B))
        if m == 0:
            raise Undef('division by zero')
        return self.part(v, n // m if n >= 0 else -((-n) // m))

    def e_imod(self, x, a, B):
        v = self.ev(a[0], B)
        n, m = self.int_(v), self.int_(self.ev(a[1], B))
        if m == 0:
            raise Undef('division by zero')
        return self.part(v, n % m)

    def e_cdiv(self, x, a, B):
        n, m = self.int_(self.ev(a[0], B)), self.int_(self.ev(a[1], B))
        if m == 0:
            raise Undef('division by zero')
        return -(-n // m)

    def e_band(self, x, a, B):
        u, v = self.ev(a[0], B), self.ev(a[1], B)
        n = self.int_(u) & self.int_(v)
        return self.part(u if isinstance(u, F) else v, n)

    def e_min(self, x, a, B):
        return min(self.int_(self.ev(y, B)) for y in a)

    def e_max(self, x, a, B):
        return max(self.int_(self.ev(y, B)) for y in a)

    def e_isqrt(self, x, a, B):
        import math
        return math.isqrt(self.int_(self.ev(a[0], B)))

    def e_fsqrt(self, x, a, B):
        import math
        v = self._fl(a[0], B)
        if v < 0:
            raise Opaque('root of a negative number')
        return Fraction(math.sqrt(v))

    def e_fconst(self, x, a, B):
        try:
            return Fraction(float(a[0]))
        except (ValueError, OverflowError):
            raise Opaque('float ' + str(a[0]))

    def _fl(self, x, B):
        v = self.num(self.ev(x, B))
        if isinstance(v, F):
            raise Opaque('field element as float')
        return v

    def e_fdiv(self, x, a, B):
        n, m = self._fl(a[0], B), self._fl(a[1], B)
        if m == 0:
            raise Opaque('float division by zero')
        return Fraction(float(n) / float(m))

    def e_fround(self, x, a, B):
        import math
        v = self._fl(a[0], B)
        return math.floor(abs(v) + Fraction(1, 2)) * (1 if v >= 0 else -1)

    def e_fpow(self, x, a, B):
        n, m = self._fl(a[0], B), self._fl(a[1], B)
        try:
            return Fraction(float(n) ** float(m))
        except (ValueError, OverflowError, ZeroDivisionError, TypeError):
            raise Opaque('float power')

    def e_fln(self, x, a, B):
        import math
        v = self._fl(a[0], B)
        if v <= 0:
            raise Opaque('logarithm')
        return Fraction(math.log(v))

    def e_fceil(self, x, a, B):
        import math
        return math.ceil(self.num(self.ev(a[0], B)))

    def e_flog2(self, x, a, B):
        import math
        v = self._fl(a[0], B)
        if v <= 0:
            raise Opaque('logarithm')
        return Fraction(math.log2(v))

    def e_ffloor(self, x, a, B):
        import math
        v = self.num(self.ev(a[0], B))
        if isinstance(v, F):
            raise Opaque('floor')
        return max(0, math.trunc(v))

    def e_sersize(self, x, a, B):
        return 1 + self.env.uf('sersize', a[0] if isinstance(a[0], str) else 'm', self.canon(self.ev(a[1], B))) % 1000

    def e_de(self, x, a, B):
        n, st = 0, a[0]
        while isinstance(st, T) and st.op == 'rd':
            n, st = n + 1, st.args[0]
        return Opq(('de', repr(self.canon(self.ev(st, B))), n, a[1], a[2]))

    def e_rd(self, x, a, B):
        return Opq(('rd', repr(self.canon(self.ev(a[0], B)))))

    def e_sched(self, x, a, B):
        return self.env.ints.get('sched', 0)

    def e_threads(self, x, a, B):
        return self.env.ints.get('threads', 1 + self.env.uf('threads') % 8)

    # sequences
    def e_list(self, x, a, B):
        return tuple(self.ev(y, B) for y in a)

    def e_cat(self, x, a, B):
        r = ()
        for y in a:
            r += self.seq(self.ev(y, B))
        return r

    def upto(self, x, B, lim=20000):
        n = self.int_(self.ev(x, B))
        if n > lim:
            raise Opaque('too long')
        return range(max(n, 0))

    def e_map(self, x, a, B):
        v = t.bv(a[0])
        out = []
        for i in self.upto(a[1], B):
            B2 = dict(B)
            B2[v] = i
            out.append(self.ev(a[2], B2))
        return tuple(out)

    def e_flat(self, x, a, B):
        v = t.bv(a[0])
        out = ()
        for i in self.upto(a[1], B):
            B2 = dict(B)
            B2[v] = i
            out += self.seq(self.ev(a[2], B2))
        return out

    def e_sum(self, x, a, B):
        v = t.bv(a[0])
        r = 0
        for i in self.upto(a[1], B):
            B2 = dict(B)
            B2[v] = i
            r = self.nadd(r, self.num(self.ev(a[2], B2)))
        return r

    def e_prod(self, x, a, B):
        v = t.bv(a[0])
        r = 1
        for i in self.upto(a[1], B):
            B2 = dict(B)
            B2[v] = i
            r = self.nmul(r, self.num(self.ev(a[2], B2)))
        return r

    def e_all(self, x, a, B):
        v = t.bv(a[0])
        un = None
        for i in self.upto(a[1], B):
            B2 = dict(B)
            B2[v] = i
            try:
                if not self.bool(a[2], B2):
                    return False
            except (Undef, Opaque) as e:
                un = e
        if un:
            raise un
        return True

    def e_any(self, x, a, B):
        v = t.bv(a[0])
        un = None
        for i in self.upto(a[1], B):
            B2 = dict(B)
            B2[v] = i
            try:
                if self.bool(a[2], B2):
                    return True
            except (Undef, Opaque) as e:
                un = e
        if un:
            raise un
        return False

    def e_mu(self, x, a, B):
        v = t.bv(a[0])
        for i in range(400):
            B2 = dict(B)
            B2[v] = i
            if self.bool(a[1], B2):
                return i
        raise Undef('search does not terminate')

    def e_rec(self, x, a, B):
        L, n = a[0], a[2]
        inits = a[3:3 + n]
        nexts = a[3 + n:]
        k = self.int_(self.ev(a[1], B))
        if k > 3000:
            raise Opaque('too many steps')
        # a component is only evaluated where its value is needed: keep failures as values
        cur = [self.lazy(y, B) for y in inits]
        kv = t.bv(L, 'k')
        for i in range(max(k, 0)):
            B2 = dict(B)
            B2[kv] = i
            for q in range(n):
                if not isinstance(cur[q], Exception):
                    B2[t.bv(L, q)] = cur[q]
            cur = [self.lazy(y, B2) for y in nexts]
        r = cur[0]
        if isinstance(r, Exception):
            raise r
        return r

    def lazy(self, y, B):
        try:
            return self.ev(y, B)
        except (Undef, Opaque) as e:
            return e

    def e_len(self, x, a, B):
        v = self.ev(a[0], B)
        if isinstance(v, tuple):
            return len(v)
        if isinstance(v, Opq):
            return self.env.length(v.path)
        if isinstance(v, St) and v.tag in ('H', 'keys'):
            return len(self.seq(v))
        raise Opaque('length of %r' % (v,))

    def e_idx(self, x, a, B):
        v = self.ev(a[0], B)
        i = self.int_(self.ev(a[1], B))
        if i < 0:
            raise Undef('index')
        if isinstance(v, tuple):
            if i >= len(v):
                raise Undef('index out of range')
            return v[i]
        if isinstance(v, Opq):
            if self.env.known_len(v.path) and i >= self.env.length(v.path):
                raise Undef('index out of range')
            return Opq(v.path + (('i', i),))
        s = self.seq(v)
        if i >= len(s):
            raise Undef('index out of range')
        return s[i]

    def e_upd(self, x, a, B):
        s = self.seq(self.ev(a[0], B))
        i = self.int_(self.ev(a[1], B))
        if not 0 <= i < len(s):
            raise Undef('index out of range')
        return s[:i] + (self.ev(a[2], B),) + s[i + 1:]

    # external meanings
    def e_ser(self, x, a, B):
        k = self.canon(self.ev(a[1], B))
        r = F(self.env.uf('c', k))
        self.env.written[r.v] = k
        return (St('ser', (a[0], r)),)

    def e_bytes(self, x, a, B):
        v = self.num(self.ev(a[0], B))
        w = a[1]
        if isinstance(v, int) and not isinstance(v, bool) and v >= 0:
            return tuple(int(z) for z in v.to_bytes(max(w, (v.bit_length() + 7) // 8), 'big')[-w:])
        return tuple(St('b', (modp(v), i)) for i in range(w))

    def e_bytesle(self, x, a, B):
        return tuple(reversed(self.e_bytes(x, a, B)))

    def e_H(self, x, a, B):
        v = self.seq(self.ev(a[1], B))
        k = self.canon(v)
        self.env.digests = getattr(self.env, 'digests', {})
        r = F(self.env.uf('H', k))
        self.env.digests[k] = r
        self.env.hashed[self.canon(St('H', (r,)))] = v
        return St('H', (r,))

    def e_hasher(self, x, a, B):
        return St('hasher', (a[0], self.seq(self.ev(a[1], B))))

    def from_bytes(self, kind, s):
        s = tuple(s)
        if kind == 'le':
            s = tuple(reversed(s))
        k = self.canon(s)
        if ('be', k) in self.env.cands:
            return self.env.cands[('be', k)][0]
        h = self.env.uf('frombe', k)
        z = self.env.zeros and h % self.env.zeros == 0
        r = self.env.answer('be', F(0) if z else self.wideint(8 * len(s), h // 7))
        self.env.cands[('be', k)] = (r, self.digest_bytes(s))
        return r

    def digest_bytes(self, s):
        """how many distinct bytes of one and the same digest the tuple holds"""
        d = {}
        for x in s:
            if isinstance(x, St) and x.tag == 'byte':
                d.setdefault(self.canon(x.a[0]), set()).add(x.a[1])
        return max([len(v) for v in d.values()] or [0])

    def e_call(self, x, a, B):
        if a[0] == 'from_random_bytes':
            s = self.seq(self.ev(a[2], B))
            k = self.canon(s)
            if ('frb', k) in self.env.cands:
                r = self.env.cands[('frb', k)][0]
            else:
                h = self.env.uf('frb', k)
                z = self.env.zeros and h % self.env.zeros == 0
                r = self.env.answer('frb', None if z else F(h // 7))
                self.env.cands[('frb', k)] = (r, self.digest_bytes(s))
            return St('adt', (t.OPT, 0)) if r is None else St('adt', (t.OPT, 1, r))
        raise Opaque('no contract for ' + str(a[0]))

    def e_fault(self, x, a, B):
        return self.env.fault((a[0], self.canon(self.ev(a[1], B))))

    def e_frombe(self, x, a, B):
        return self.from_bytes('be', self.seq(self.ev(a[0], B)))

    def e_fromle(self, x, a, B):
        return self.from_bytes('le', self.seq(self.ev(a[0], B)))

    def e_rand(self, x, a, B):
        k = self.canon(self.ev(a[1], B))
        if k in self.env.draws:
            return self.env.draws[k][1]
        h = self.env.uf('rand', k)
        w = re.search(r'"[iu](8|16|32|64|128)"', str(a[0]))
        r = self.env.answer('draw', self.wideint(int(w.group(1)), h) if w else F(h))
        self.env.draws[k] = (a[0], r)
        return r

    def e_rngbytes(self, x, a, B):
        k = self.canon(self.ev(a[0], B))
        r = St('rngbytes', (F(self.env.uf('rb', k)), a[1]) if a[1] else (F(self.env.uf('rb', k)),))
        self.env.rngsrc[self.canon(r)] = k
        return r

    def e_rngadv(self, x, a, B):
        return St('rngadv', (F(self.env.uf('ra', self.canon(self.ev(a[0], B)))),))

    def e_chacha(self, x, a, B):
        v = self.seq(self.ev(a[1], B))
        r = St('chacha', (F(self.env.uf('cc', self.canon(v))),))
        self.env.streams[self.canon(r)] = v
        return r

    def e_ownrng(self, x, a, B):
        return St('chacha', (F(self.env.uf('own', a[0], *[self.canon(self.ev(v, B)) for v in a[1:]])),))

    def e_keys(self, x, a, B):
        k = self.canon(self.ev(a[1], B))
        r = St('keys', (a[0], F(self.env.uf('ks', a[0], k)), self.int_(self.ev(a[2], B))))
        self.env.keycalls[(a[0], k)] = r.a[2]
        return r

    def e_form(self, x, a, B):
        if a[0] == 'pairing':
            return F(self.env.uf('form', 'pairing') | 1)
        return F(self.env.uf('form', a[0], tyname(a[1])) | 1)

    def e_gen(self, x, a, B):
        return F(self.env.uf('gen', tyname(a[0])))

    def e_clo(self, x, a, B):
        return St('it', ())

    def e_fnv(self, x, a, B):
        return St('it', ())

    def e_it(self, x, a, B):
        return St('it', ())

    def e_discr(self, x, a, B):
        v = self.ev(a[0], B)
        if isinstance(v, St) and v.tag == 'adt':
            return v.a[1]
        raise Opaque('discriminant')

    def e_polydiv(self, x, a, B):
        p, q = self.ev(a[0], B), self.ev(a[1], B)

        def co(v):
            if isinstance(v, St) and v.tag == 'adt':
                v = v.a[2]
            elif isinstance(v, Opq):
                v = Opq(v.path + (('f', 0),))
            c = [F(modp(self.num(y))) for y in self.seq(v)]
            while c and c[-1].v == 0:
                c.pop()
            return c
        A, D = co(p), co(q)
        if not D:
            raise Undef('division by the zero polynomial')
        Q = [F(0)] * max(0, len(A) - len(D) + 1)
        inv = pow(D[-1].v, P - 2, P)
        for i in reversed(range(len(Q))):
            c = A[i + len(D) - 1].v * inv
            Q[i] = F(c)
            for j, d in enumerate(D):
                A[i + j] = F(A[i + j].v - c * d.v)
        return St('adt', (t.POLYP, 0, tuple(Q)))

    # ---------------------------------------------------------------- equations of an acceptance condition
    def residuals(self, x, B=None, sign=True):
        """x a boolean term -> (residuals list, ok): x holds iff every residual is zero and ok is true.
        Equations under a disjunction or a negation count through their truth value only."""
        B = B or {}
        res = []
        ok = [True]

        def go(y, B):
            if y.op == 'and':
                for z in y.args:
                    go(z, B)
            elif y.op == 'all':
                v = t.bv(y.args[0])
                for i in self.upto(y.args[1], B):
                    B2 = dict(B)
                    B2[v] = i
                    go(y.args[2], B2)
            elif y.op == 'ite':
                go(y.args[1] if self.bool(y.args[0], B) else y.args[2], B)
            elif y.op == 'eq0':
                v = self.num(self.ev(y.args[0], B))
                if isinstance(v, int):
                    ok[0] = ok[0] and v == 0
                else:
                    res.append(modp(v.a[0]) if isinstance(v, St) else modp(v))
            elif y.op == 'eqv':
                a, b = self.ev(y.args[0], B), self.ev(y.args[1], B)
                cmp_(a, b)
            elif y.op == 'or':
                # drop alternatives that are false for structural reasons
                alts = []
                for z in y.args:
                    if z.op in ('pos', 'ispow2', 'bit', 'isvar', 'not') or self.struct(z):
                        try:
                            if self.bool(z, B):
                                return
                        except Undef:
                            pass
                    else:
                        alts.append(z)
                if len(alts) == 1:
                    go(alts[0], B)
                else:
                    ok[0] = ok[0] and any(self.bool(z, B) for z in alts)
            else:
                ok[0] = ok[0] and self.bool(y, B)

        def cmp_(a, b):
            ca, cb = self.canon(a), self.canon(b)
            if ca == cb:
                return
            cc(ca, cb)

        def cc(a, b):
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'n' and b[0] == 'n':
                res.append((a[1] - b[1]) % P)
            elif isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a[0] == b[0]:
                for p, q in zip(a[1:], b[1:]):
                    if p != q:
                        cc(p, q)
            else:
                ok[0] = False
        go(x, B)
        return res, ok[0]

    def struct(self, z):
        if z.op == 'eq0':
            d = z.args[0]
            return all(all(a.op in t.NATS for a in m[1]) for m in t.monos(d))
        return False
