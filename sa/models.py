"""Contracts of the external functions ripp calls (std, rayon, ark-*, digest, rand), as term constructors.
Anything not listed is an opaque `ext` term: results that contain one are never reported as violations."""
from . import terms as t
from .terms import T, mk, C, ZERO, ONE, TRUE, FALSE, UNIT, NIL, AND, OR, NOT, eq, lt, le, ite, add, sub, mul, fresh, INF
from .interp import State, add_pc, merge_states, GT, gtlog, PF, PD, PI, PS, Give_up
from .mir import tkey, strip_ref

IDENT = {
    'clone', 'to_owned', 'as_slice', 'as_ref', 'borrow', 'deref', 'into', 'from', 'to_vec', 'into_vec', 'as_mut_slice',
    'into_affine', 'into_group', 'must_use', 'into_boxed_slice', 'box_assume_init_into_vec_unsafe', 'as_mut', 'borrow_mut',
    'deref_mut', 'into_inner', 'cloned_ref', 'into_repr', 'black_box', 'identity', 'as_bytes', 'to_bytes',
}


def tail(p):
    return p.split('::')[-1]


def is_adt(ty, *suffix):
    return ty.get('k') == 'adt' and any(ty['p'].endswith(s) for s in suffix)


def isit(v):
    return v.op == 'it'


class Models:
    strict = False      # unsigned subtraction below zero panics (as in a checked build)
    faults = False      # let every fallible external operation fail under a `fault` condition

    def __init__(self):
        self.used = {}

    # ------------------------------------------------------------ primitive operators
    def binop(self, op, a, c):
        ov = op.endswith('WithOverflow')
        op = op.replace('WithOverflow', '').replace('Unchecked', '')
        r = None
        if op == 'Add':
            r = add(a, c)
        elif op == 'Sub':
            r = sub(a, c)
        elif op == 'Mul':
            r = mul(a, c)
        elif op == 'Div':
            r = t.idiv(a, c)
        elif op == 'Rem':
            r = t.imod(a, c)
        elif op == 'Eq':
            r = eq(a, c)
        elif op == 'Ne':
            r = NOT(eq(a, c))
        elif op == 'Lt':
            r = lt(a, c)
        elif op == 'Le':
            r = le(a, c)
        elif op == 'Gt':
            r = lt(c, a)
        elif op == 'Ge':
            r = le(c, a)
        elif op == 'Shl':
            r = mul(a, t.power(C(2), c))
        elif op == 'Shr':
            r = t.idiv(a, t.power(C(2), c))
        elif op in ('BitAnd', 'BitOr', 'BitXor'):
            if t.isbool(a) and t.isbool(c):
                r = {'BitAnd': AND(a, c), 'BitOr': OR(a, c), 'BitXor': AND(OR(a, c), NOT(AND(a, c)))}[op]
            elif op == 'BitAnd':
                r = t.band(a, c)
            else:
                r = mk(op.lower(), *sorted((a, c)))
        else:
            r = mk('ext', 'bin:' + op, a, c)
        return t.tup(r, FALSE) if ov else r

    def unop(self, op, a):
        if op == 'Not':
            return NOT(a)
        if op == 'Neg':
            return t.neg(a)
        if op == 'PtrMetadata':
            return t.length(a)
        return mk('ext', 'un:' + op, a)

    def cast(self, k, a, ty):
        if k.startswith('FloatToInt'):
            return t.ffloor(a)
        if k == 'IntToInt' and a in (TRUE, FALSE):
            return ONE if a is TRUE else ZERO
        if k == 'IntToInt' and t.isbool(a):
            return ite(a, ONE, ZERO)
        if k == 'IntToInt' and ty.get('n') in ('u8', 'u16') and a.op != 'byte':
            return t.imod(a, C(256 if ty['n'] == 'u8' else 65536))
        return a

    # ------------------------------------------------------------ iterator descriptors
    def dlen(self, I, d):
        o = d.op
        if o == 'dseq':
            return t.length(d.args[0])
        if o == 'dmut':
            return d.args[1]
        if o == 'drange':
            if d.args[1] is INF:
                return INF
            if d.args[0] is ZERO:
                return d.args[1]
            return t.imax(ZERO, sub(d.args[1], d.args[0]))
        if o in ('dmap', 'denum', 'drev', 'dfilter', 'dscan', 'dfmap'):
            return self.dlen(I, d.args[0])
        if o in ('dzip',):
            return t.imin(self.dlen(I, d.args[0]), self.dlen(I, d.args[1]))
        if o == 'dchain' or o == 'dinter':
            return add(self.dlen(I, d.args[0]), self.dlen(I, d.args[1]))
        if o in ('dcycle', 'drepeat', 'dsucc'):
            return INF
        if o == 'duser':
            return INF if d.args[2] is TRUE else mk('ext', 'length of an iterator defined by code', d)
        if o == 'dtake':
            return t.imin(d.args[1], self.dlen(I, d.args[0]))
        if o == 'dskip':
            n = self.dlen(I, d.args[0])
            return INF if n is INF else t.imax(ZERO, sub(n, d.args[1]))
        if o == 'dstep':
            n = self.dlen(I, d.args[0])
            return INF if n is INF else t.cdiv(n, d.args[1])
        if o == 'dchunks':
            return t.cdiv(t.length(d.args[0]), d.args[1])
        if o == 'dchunksx':
            return t.idiv(t.length(d.args[0]), d.args[1])
        if o == 'dmchunks':
            return t.cdiv(d.args[1], d.args[2])
        if o == 'dmchunksx':
            return t.idiv(d.args[1], d.args[2])
        if o == 'dwin':
            return t.imax(ZERO, sub(add(t.length(d.args[0]), ONE), d.args[1]))
        return mk('ext', 'dlen:' + o, d)

    def delem(self, I, st, d, p):
        """-> [(element, state, keep condition)]"""
        o = d.op
        E = lambda dd, q, s=None: self.delem(I, s or st, dd, q)
        if o == 'dseq':
            return [(t.idx(d.args[0], p), st, TRUE)]
        if o == 'dmut':
            r = d.args[0]
            return [(mk('mref', *(r.args + (mk(PI, p),))), st, TRUE)]
        if o == 'drange':
            return [(add(d.args[0], p), st, TRUE)]
        if o == 'dmap':
            out = []
            for x, s, k in E(d.args[0], p):
                r = I.call(s, d.args[1], [x], {'k': 'other', 's': '?'}) if d.args[1].op == 'fnv' else self.clocall(I, s, d.args[1], [x])
                if r is None:
                    continue
                out.append((r[0], r[1], k))
            return out
        if o == 'dzip':
            out = []
            for x, s, k in E(d.args[0], p):
                for y, s2, k2 in E(d.args[1], p, s):
                    out.append((t.tup(x, y), s2, AND(k, k2)))
            return out
        if o == 'denum':
            return [(t.tup(p, x), s, k) for x, s, k in E(d.args[0], p)]
        if o == 'drev':
            n = self.dlen(I, d.args[0])
            return E(d.args[0], sub(sub(n, ONE), p))
        if o in ('dchain', 'dinter'):
            n = self.dlen(I, d.args[0])
            if o == 'dchain':
                a, = E(d.args[0], p)
                if n is INF:
                    return [a]
                c, = E(d.args[1], sub(p, n))
                return [(ite(lt(p, n), a[0], c[0]), st, TRUE)]
            m = self.dlen(I, d.args[1])
            h = t.idiv(p, C(2))
            a, = E(d.args[0], h)
            c, = E(d.args[1], h)
            alt = ite(eq(t.imod(p, C(2)), ZERO), a[0], c[0])
            if m is INF or n is INF or sub(n, m) in (ZERO, ONE):
                return [(alt, st, TRUE)]
            mn = t.imin(n, m)
            a2, = E(d.args[0], sub(p, m))
            c2, = E(d.args[1], sub(p, n))
            return [(ite(lt(p, mul(C(2), mn)), alt, ite(lt(m, n), a2[0], c2[0])), st, TRUE)]
        if o == 'dcycle':
            n = self.dlen(I, d.args[0])
            return E(d.args[0], t.imod(p, n))
        if o == 'dtake':
            return E(d.args[0], p)
        if o == 'dskip':
            return E(d.args[0], add(p, d.args[1]))
        if o == 'dstep':
            return E(d.args[0], mul(p, d.args[1]))
        if o in ('dchunks', 'dchunksx'):
            s, c = d.args
            a = mul(p, c)
            e = add(a, c) if o == 'dchunksx' else t.imin(add(a, c), t.length(s))
            return [(t.slc(s, a, e), st, TRUE)]
        if o in ('dmchunks', 'dmchunksx'):
            r, n, c = d.args
            a = mul(p, c)
            e = add(a, c) if o == 'dmchunksx' else t.imin(add(a, c), n)
            return [(mk('mref', *(r.args + (mk(PS, a, e),))), st, TRUE)]
        if o == 'dwin':
            return [(t.slc(d.args[0], p, add(p, d.args[1])), st, TRUE)]
        if o == 'drepeat':
            return [(d.args[0], st, TRUE)]
        if o == 'dfilter':
            out = []
            for x, s, k in E(d.args[0], p):
                r = self.clocall(I, s, d.args[1], [x])
                if r is not None:
                    out.append((x, r[1], AND(k, r[0])))
            return out
        if o == 'dfmap':
            out = []
            for x, s, k in E(d.args[0], p):
                r = self.clocall(I, s, d.args[1], [x])
                if r is not None:
                    out.append((t.pay(r[0], 1, 0), r[1], AND(k, t.isvar(r[0], 1))))
            return out
        if o == 'dscan':
            out = []
            for x, s, k in E(d.args[0], p):
                r = self.clocall(I, s, d.args[1], [mk('mref', d.args[2], 0), x])
                if r is not None:
                    out.append((t.pay(r[0], 1, 0), r[1], k))
            return out
        if o == 'duser':
            r = self.ustep(I, st, d.args[0], d.args[1])
            return [] if r is None else [(t.pay(r[0], 1, 0), r[1], t.isvar(r[0], 1))]
        if o == 'dsucc':
            cell = (d.args[1], 0)
            s = st.copy()
            cur = s.store[cell]
            x = t.pay(cur, 1, 0)
            r = self.clocall(I, s, d.args[0], [x])
            if r is None:
                return []
            s2 = r[1].copy()
            s2.store[cell] = r[0]
            return [(x, s2, TRUE)]
        return [(mk('ext', 'delem:' + o, d, p), st, TRUE)]

    def clocall(self, I, st, f, args):
        return I.call(st, f, args, {'k': 'other', 's': '?'})

    def ustep(self, I, st, what, ref):
        """one step of an iterator that is defined by code: `Iterator::next` of a type, or a closure given to `from_fn`"""
        if what.op != 'impl':
            return self.clocall(I, st, ref, [])
        for im in I.prog.trait_impls.get('std::iter::Iterator', ()):
            if im['id'] == what.args[0]:
                b = I.prog.bodies.get(dict((a, c) for a, c in im['items']).get('next'))
                return I.call_body(b, {g: {'k': 'param', 'n': g} for g in b.gn}, [ref], st)

    def uiter(self, I, st, v, what):
        """iterator over the steps of `v` (a value, which is given a cell of its own, or a reference)"""
        ref = v
        if v.op != 'mref':
            I.nframe += 1
            ref = mk('mref', I.nframe, 0)
            st.store[(I.nframe, 0)] = v
        r = self.ustep(I, st.copy(), what, ref)
        ever = TRUE if r is not None and I.simp(t.isvar(r[0], 1), st.pc) is TRUE else FALSE
        return mk('it', mk('duser', what, ref, ever), ZERO)

    def user_impl(self, I, v):
        if v.op == 'adt':
            for im in I.prog.trait_impls.get('std::iter::Iterator', ()):
                if im['self'].get('p') == v.args[0] and any(a == 'next' for a, _ in im['items']):
                    return mk('impl', im['id'])

    def toiter(self, I, st, v):
        """IntoIterator"""
        if isit(v):
            return v
        w = I.deref(st, v) if v.op == 'mref' else v
        u = self.user_impl(I, w)
        if u is not None:
            return self.uiter(I, st, v, u)
        if v.op == 'mref':
            w = I.deref(st, v)
            if isit(w):
                # `by_ref`-style iteration: elements are taken through the reference
                return mk('itref', v)
            if w.op == 'adt' and w.args[0].endswith(('::Range', '::RangeFrom', '::RangeInclusive')):
                return self.toiter(I, st, w)
            return mk('it', mk('dmut', v, t.length(w)), ZERO)
        if v.op == 'adt' and v.args[0].endswith('::Range'):
            return mk('it', mk('drange', v.args[2], v.args[3]), ZERO)
        if v.op == 'adt' and v.args[0].endswith('::RangeFrom'):
            return mk('it', mk('drange', v.args[2], INF), ZERO)
        if v.op == 'adt' and v.args[0].endswith('::RangeInclusive'):
            return mk('it', mk('drange', v.args[2], add(v.args[3], ONE)), ZERO)
        if v.op == 'adt' and v.args[0] == t.OPT:
            return mk('it', mk('dseq', t.lst(*v.args[2:])), ZERO)
        return mk('it', mk('dseq', v), ZERO)

    def desc(self, I, st, v):
        it = self.toiter(I, st, v)
        if it.op == 'itref':
            it = I.deref(st, it.args[0])
            if not isit(it):
                return mk('dseq', it)
        d, p = it.args
        if p is not ZERO:
            d = mk('dskip', d, p)
        return d

    # ------------------------------------------------------------ results
    def sized(self, cx, n):
        """note work proportional to n at this call"""
        if n.op != 'int':
            cx.I.work.append(([], n, cx.st.pc, cx.p))

    def many(self, outs):
        """[(value, state)] -> gated (value, state)"""
        key = ('ret', 0)
        ss = []
        for v, s in outs:
            s = s.copy()
            s.store[key] = v
            ss.append(s)
        m = merge_states(ss)
        if m is None:
            return None
        v = m.store.pop(key)
        return v, m

    def guard(self, I, st, c):
        c = I.simp(c, st.pc)
        if c is FALSE:
            return None
        s = st.copy()
        s.pc = add_pc(s.pc, c)
        return s

    # ------------------------------------------------------------ dispatch
    def call(self, I, st, callee, ga, args, dty, env, span):
        p = callee['p']
        n = callee['n']
        tr = callee.get('trait') or ''
        selfty = ga[0] if ga else {'k': 'other'}
        self.used[p] = self.used.get(p, 0) + 1
        D = [I.deref(st, a) for a in args]
        for i, a in enumerate(args):
            if a.op == 'clo' and I.owns_state(a):
                I.nframe += 1
                st = st.copy()
                st.store[(I.nframe, 0)] = a
                args = args[:i] + [mk('mref', I.nframe, 0)] + args[i + 1:]
                D[i] = args[i]
        f = getattr(self, 'm_' + n, None)
        cx = Ctx(I, st, callee, ga, args, D, dty, env, p, tr, selfty, span)
        if f is not None:
            r = f(cx)
            if r is not NotImplemented:
                if self.faults and n in FALLIBLE and r is not None and is_adt(dty, '::Result'):
                    q = mk('fault', n, t.tup(*[x for x in D]))
                    I.work.append(([], q, st.pc, ('fault', n)))
                    r = ite(q, t.err(mk('errc', 'fault')), r[0]), r[1]
                return r
        if n in IDENT:
            return (args[0] if n in ('as_mut', 'deref_mut', 'borrow_mut', 'as_mut_slice') else D[0]), st
        return self.unknown(cx)

    def unknown(self, cx):
        I, st = cx.I, cx.st
        I.unmodelled[cx.p] = I.unmodelled.get(cx.p, 0) + 1
        r = mk('ext', cx.p, *cx.D)
        s = st.copy()
        for i, a in enumerate(cx.args):
            if a.op == 'mref':
                I.assign(s, a, mk('ext', cx.p + '!%d' % i, *cx.D))
            elif a.op == 'clo':
                for q, x in enumerate(a.args[1:]):
                    if x.op == 'mref':
                        I.assign(s, x, mk('ext', cx.p + '!c%d' % q, I.deref(s, x)))
        return r, s

    # ---- arithmetic traits
    def num2(self, cx, f):
        if any(is_adt(strip_ref(x), 'DensePolynomial') for x in cx.ga[:1]):
            return NotImplemented
        return f(cx.D[0], cx.D[1]), cx.st

    def m_add(self, cx):
        if is_adt(strip_ref(cx.selfty), 'DensePolynomial'):
            return self.poly2(cx, lambda x, y: add(x, y))
        return add(cx.D[0], cx.D[1]), cx.st

    def m_sub(self, cx):
        if is_adt(strip_ref(cx.selfty), 'DensePolynomial'):
            return self.poly2(cx, lambda x, y: sub(x, y))
        return sub(cx.D[0], cx.D[1]), cx.st

    def poly2(self, cx, f):
        a, c = coeffs(cx.D[0]), coeffs(cx.D[1])
        n = t.imax(t.length(a), t.length(c))
        v = fresh()
        g = lambda s: ite(lt(v, t.length(s)), t.idx(s, v), ZERO) if t.length(s) is not n else t.idx(s, v)
        return mkpoly(t.MAP(n, v, f(g(a), g(c)))), cx.st

    def m_mul(self, cx):
        if is_adt(strip_ref(cx.selfty), 'DensePolynomial'):
            if len(cx.ga) > 1 and is_adt(strip_ref(cx.ga[1]), 'DensePolynomial'):
                return NotImplemented
            a = coeffs(cx.D[0])
            v = fresh()
            return mkpoly(t.MAP(t.length(a), v, mul(t.idx(a, v), cx.D[1]))), cx.st
        return mul(cx.D[0], cx.D[1]), cx.st

    def m_div(self, cx):
        if is_adt(strip_ref(cx.selfty), 'DensePolynomial'):
            return self.polydiv(cx)
        if self.isint(cx.selfty):
            return t.idiv(cx.D[0], cx.D[1]), cx.st
        s = self.guard(cx.I, cx.st, NOT(eq(cx.D[1], ZERO)))
        if s is None:
            return None
        return mul(cx.D[0], t.inv(cx.D[1])), s

    def isint(self, ty):
        ty = strip_ref(ty)
        return ty.get('k') == 'prim'

    def polydiv(self, cx):
        a, c = coeffs(cx.D[0]), coeffs(cx.D[1])
        if t.const_val(t.length(c)) == 2 and t.idx(c, ONE) is ONE:
            z = t.neg(t.idx(c, ZERO))
            n = t.length(a)
            v, u = fresh(), fresh()
            # synthetic division: q_i = sum_{j>i} a_j z^(j-i-1)
            body = t.SUM(sub(sub(n, ONE), v), u, mul(t.idx(a, add(add(v, u), ONE)), t.power(z, u)))
            return mkpoly(t.MAP(t.imax(ZERO, sub(n, ONE)), v, body)), cx.st
        return mk('polydiv', cx.D[0], cx.D[1]), cx.st

    def m_rem(self, cx):
        return t.imod(cx.D[0], cx.D[1]), cx.st

    def m_neg(self, cx):
        return t.neg(cx.D[0]), cx.st

    def assign_op(self, cx, f):
        s = cx.st.copy()
        if not cx.I.assign(s, cx.args[0], f(cx.D[0], cx.D[1])):
            return self.unknown(cx)
        return UNIT, s

    def m_add_assign(self, cx):
        return self.assign_op(cx, add)

    def m_sub_assign(self, cx):
        return self.assign_op(cx, sub)

    def m_mul_assign(self, cx):
        return self.assign_op(cx, mul)

    def m_div_assign(self, cx):
        if self.isint(cx.selfty):
            return self.assign_op(cx, t.idiv)
        s = self.guard(cx.I, cx.st, NOT(eq(cx.D[1], ZERO)))
        if s is None:
            return None
        cx.st = s
        return self.assign_op(cx, lambda a, c: mul(a, t.inv(c)))

    def m_square(self, cx):
        return mul(cx.D[0], cx.D[0]), cx.st

    def m_double(self, cx):
        return mul(C(2), cx.D[0]), cx.st

    def inplace(self, cx, f):
        s = cx.st.copy()
        cx.I.assign(s, cx.args[0], f(cx.D[0]))
        return cx.args[0], s

    def m_square_in_place(self, cx):
        return self.inplace(cx, lambda a: mul(a, a))

    def m_double_in_place(self, cx):
        return self.inplace(cx, lambda a: mul(C(2), a))

    def m_neg_in_place(self, cx):
        return self.inplace(cx, t.neg)

    def m_mul_bigint(self, cx):
        return mul(cx.D[0], cx.D[1]), cx.st

    def m_into_bigint(self, cx):
        return cx.D[0], cx.st

    def m_zero(self, cx):
        if is_adt(cx.selfty, 'DensePolynomial'):
            return mkpoly(NIL), cx.st
        return ZERO, cx.st

    def m_one(self, cx):
        return ONE, cx.st

    def m_is_zero(self, cx):
        if is_adt(strip_ref(cx.selfty), 'DensePolynomial'):
            return eq(t.length(coeffs(cx.D[0])), ZERO), cx.st
        return eq(cx.D[0], ZERO), cx.st

    def m_is_one(self, cx):
        return eq(cx.D[0], ONE), cx.st

    def m_inverse(self, cx):
        x = cx.D[0]
        return t.opt(NOT(eq(x, ZERO)), t.inv(x)), cx.st

    def m_inverse_in_place(self, cx):
        x = cx.D[0]
        s = cx.st.copy()
        c = NOT(eq(x, ZERO))
        cx.I.assign(s, cx.args[0], ite(c, t.inv(x), x))
        return t.opt(c, cx.args[0]), s

    def m_batch_inversion(self, cx):
        v = fresh()
        a = cx.D[0]
        x = t.idx(a, v)
        s = cx.st.copy()
        cx.I.assign(s, cx.args[0], t.MAP(t.length(a), v, mk('inv0', x) if False else inv0(x)))
        return UNIT, s

    def m_pow(self, cx):
        e = cx.D[1]
        if e.op == 'list' and len(e.args) == 1:
            e = e.args[0]
        elif cx.tr.endswith('Field') or e.op in ('list', 'map', 'cat'):
            if e.op in ('list', 'map', 'cat'):
                return NotImplemented
        return t.power(cx.D[0], e), cx.st

    def m_pow_with_table(self, cx):
        return NotImplemented

    def m_from_random_bytes(self, cx):
        return mk('call', 'from_random_bytes', tkey(cx.selfty), cx.D[0]), cx.st

    def m_from_be_bytes(self, cx):
        return mk('frombe', cx.D[0]), cx.st

    def m_from_le_bytes(self, cx):
        return mk('fromle', cx.D[0]), cx.st

    def m_from_be_bytes_mod_order(self, cx):
        return mk('frombe', cx.D[0]), cx.st

    def m_from_le_bytes_mod_order(self, cx):
        return mk('fromle', cx.D[0]), cx.st

    def m_to_be_bytes(self, cx):
        return mk('bytes', cx.D[0], self.width(cx)), cx.st

    def m_to_le_bytes(self, cx):
        return mk('bytesle', cx.D[0], self.width(cx)), cx.st

    def m_to_ne_bytes(self, cx):
        return mk('bytesle', cx.D[0], self.width(cx)), cx.st

    def width(self, cx):
        for w, s in ((16, 'u128'), (8, 'u64'), (4, 'u32'), (2, 'u16'), (1, 'u8'), (8, 'usize')):
            if '<impl %s>' % s in cx.p:
                return w
        return 8

    # ---- comparison
    def m_eq(self, cx):
        return eq(cx.D[0], cx.D[1]), cx.st

    def m_ne(self, cx):
        return NOT(eq(cx.D[0], cx.D[1])), cx.st

    def m_lt(self, cx):
        return lt(cx.D[0], cx.D[1]), cx.st

    def m_le(self, cx):
        return le(cx.D[0], cx.D[1]), cx.st

    def m_gt(self, cx):
        return lt(cx.D[1], cx.D[0]), cx.st

    def m_ge(self, cx):
        return le(cx.D[1], cx.D[0]), cx.st

    def m_not(self, cx):
        return NOT(cx.D[0]), cx.st

    # ---- integers
    def m_count_ones(self, cx):
        return t.popcnt(cx.D[0]), cx.st

    def m_is_power_of_two(self, cx):
        return t.ispow2(cx.D[0]), cx.st

    def m_next_power_of_two(self, cx):
        return t.npow2(cx.D[0]), cx.st

    def m_trailing_zeros(self, cx):
        return t.ctz(cx.D[0]), cx.st

    def m_leading_zeros(self, cx):
        return mk('clz', cx.D[0]), cx.st

    def m_ilog2(self, cx):
        return t.log2(cx.D[0]), cx.st

    def m_log2(self, cx):
        x = cx.D[0]
        if 'ark_std' in cx.p:
            return t.log2(t.npow2(x)), cx.st
        return mk('flog2', x), cx.st

    def m_sqrt(self, cx):
        return mk('fsqrt', cx.D[0]), cx.st

    def m_ceil(self, cx):
        return mk('fceil', cx.D[0]), cx.st

    def m_round(self, cx):
        return mk('fround', cx.D[0]), cx.st

    def m_powi(self, cx):
        return mk('fpow', cx.D[0], cx.D[1]), cx.st

    m_powf = m_powi

    def m_ln(self, cx):
        return mk('fln', cx.D[0]), cx.st

    def m_trunc(self, cx):
        return t.ffloor(cx.D[0]), cx.st

    def m_floor(self, cx):
        return t.ffloor(cx.D[0]), cx.st

    def m_min(self, cx):
        if len(cx.D) == 2:
            return t.imin(cx.D[0], cx.D[1]), cx.st
        return NotImplemented

    def m_max(self, cx):
        if len(cx.D) == 2:
            return t.imax(cx.D[0], cx.D[1]), cx.st
        return NotImplemented

    def m_div_ceil(self, cx):
        return t.cdiv(cx.D[0], cx.D[1]), cx.st

    def m_saturating_sub(self, cx):
        return t.imax(ZERO, sub(cx.D[0], cx.D[1])), cx.st

    def m_wrapping_add(self, cx):
        return add(cx.D[0], cx.D[1]), cx.st

    def m_wrapping_sub(self, cx):
        return sub(cx.D[0], cx.D[1]), cx.st

    def m_wrapping_mul(self, cx):
        return mul(cx.D[0], cx.D[1]), cx.st

    def m_div_euclid(self, cx):
        return t.idiv(cx.D[0], cx.D[1]), cx.st

    def m_rem_euclid(self, cx):
        return t.imod(cx.D[0], cx.D[1]), cx.st

    def m_is_multiple_of(self, cx):
        return eq(t.imod(cx.D[0], cx.D[1]), ZERO), cx.st

    m_saturating_add = m_wrapping_add
    m_saturating_mul = m_wrapping_mul

    def m_checked_sub(self, cx):
        return t.opt(le(cx.D[1], cx.D[0]), sub(cx.D[0], cx.D[1])), cx.st

    def m_checked_add(self, cx):
        return t.some(add(cx.D[0], cx.D[1])), cx.st

    def m_checked_mul(self, cx):
        return t.some(mul(cx.D[0], cx.D[1])), cx.st

    def m_checked_div(self, cx):
        return t.opt(NOT(eq(cx.D[1], ZERO)), t.idiv(cx.D[0], cx.D[1])), cx.st

    def m_checked_next_power_of_two(self, cx):
        return t.some(t.npow2(cx.D[0])), cx.st

    def m_abs_diff(self, cx):
        return ite(lt(cx.D[0], cx.D[1]), sub(cx.D[1], cx.D[0]), sub(cx.D[0], cx.D[1])), cx.st

    def m_current_num_threads(self, cx):
        return mk('threads'), cx.st

    # ---- option / result
    def m_unwrap(self, cx):
        v = cx.D[0]
        k = self.okvar(cx)
        s = self.guard(cx.I, cx.st, t.isvar(v, k))
        if s is None:
            return None
        return t.pay(v, k, 0), s

    m_expect = m_unwrap

    def okvar(self, cx):
        return 0 if 'Result' in cx.p.split('<')[0] or '::Result' in cx.p else 1

    def m_unwrap_or(self, cx):
        k = self.okvar(cx)
        return ite(t.isvar(cx.D[0], k), t.pay(cx.D[0], k, 0), cx.D[1]), cx.st

    def m_unwrap_or_default(self, cx):
        k = self.okvar(cx)
        return ite(t.isvar(cx.D[0], k), t.pay(cx.D[0], k, 0), self.default(cx.dty)), cx.st

    def alt(self, cx, k, fyes, fno):
        """two-way evaluation on variant k of the receiver"""
        v = cx.D[0]
        c = cx.I.simp(t.isvar(v, k), cx.st.pc)
        outs = []
        if c is not FALSE:
            s = cx.st.copy()
            s.pc = add_pc(s.pc, c)
            r = fyes(s)
            if r is not None:
                outs.append(r)
        if c is not TRUE:
            s = cx.st.copy()
            s.pc = add_pc(s.pc, NOT(c))
            r = fno(s)
            if r is not None:
                outs.append(r)
        return self.many(outs) if outs else None

    def m_unwrap_or_else(self, cx):
        k = self.okvar(cx)
        a = [] if k == 1 else [t.pay(cx.D[0], 1, 0)]
        return self.alt(cx, k, lambda s: (t.pay(cx.D[0], k, 0), s), lambda s: self.clocall(cx.I, s, cx.args[1], a))

    def m_map(self, cx):
        if isit(cx.D[0]) or 'Iterator' in cx.tr or 'iter' in cx.p.split('<')[0]:
            return self.wrap(cx, 'dmap', cx.args[1])
        k = self.okvar(cx)

        def yes(s):
            r = self.clocall(cx.I, s, cx.args[1], [t.pay(cx.D[0], k, 0)])
            if r is None:
                return None
            return (t.some(r[0]) if k == 1 else t.ok(r[0])), r[1]
        return self.alt(cx, k, yes, lambda s: ((t.NONE if k == 1 else t.err(t.pay(cx.D[0], 1, 0))), s))

    def m_map_or(self, cx):
        k = self.okvar(cx)
        return self.alt(cx, k, lambda s: self.clocall(cx.I, s, cx.args[2], [t.pay(cx.D[0], k, 0)]), lambda s: (cx.D[1], s))

    def m_map_or_else(self, cx):
        k = self.okvar(cx)
        a = [] if k == 1 else [t.pay(cx.D[0], 1, 0)]
        return self.alt(cx, k, lambda s: self.clocall(cx.I, s, cx.args[2], [t.pay(cx.D[0], k, 0)]),
                        lambda s: self.clocall(cx.I, s, cx.args[1], a))

    def m_is_some_and(self, cx):
        k = self.okvar(cx)
        return self.alt(cx, k, lambda s: self.clocall(cx.I, s, cx.args[1], [t.pay(cx.D[0], k, 0)]), lambda s: (FALSE, s))

    m_is_ok_and = m_is_some_and

    def m_is_none_or(self, cx):
        return self.alt(cx, 1, lambda s: self.clocall(cx.I, s, cx.args[1], [t.pay(cx.D[0], 1, 0)]), lambda s: (TRUE, s))

    def m_or(self, cx):
        if 'Option' not in cx.p and 'Result' not in cx.p:
            return NotImplemented
        return ite(t.isvar(cx.D[0], self.okvar(cx)), cx.D[0], cx.D[1]), cx.st

    def m_and(self, cx):
        if 'Option' not in cx.p:
            return NotImplemented
        return ite(t.isvar(cx.D[0], 1), cx.D[1], t.NONE), cx.st

    def m_xor(self, cx):
        if 'Option' not in cx.p:
            return NotImplemented
        a, b = (t.isvar(x, 1) for x in cx.D)
        return ite(AND(a, NOT(b)), cx.D[0], ite(AND(b, NOT(a)), cx.D[1], t.NONE)), cx.st

    def m_unwrap_err(self, cx):
        v = cx.D[0]
        c = t.isvar(v, 1)
        s = cx.st.copy()
        s.pc = add_pc(s.pc, c)
        return None if FALSE in s.pc else (t.pay(v, 1, 0), s)

    m_expect_err = m_unwrap_err

    def m_transpose(self, cx):
        v = cx.D[0]
        if 'Option' in cx.p.split('<')[0]:
            x = t.pay(v, 1, 0)
            return ite(t.isvar(v, 1), ite(t.isvar(x, 0), t.ok(t.some(t.pay(x, 0, 0))), t.err(t.pay(x, 1, 0))), t.ok(t.NONE)), cx.st
        x = t.pay(v, 0, 0)
        return ite(t.isvar(v, 0), ite(t.isvar(x, 1), t.some(t.ok(t.pay(x, 1, 0))), t.NONE), t.some(t.err(t.pay(v, 1, 0)))), cx.st

    def m_map_err(self, cx):
        v = cx.D[0]

        def no(s):
            r = self.clocall(cx.I, s, cx.args[1], [t.pay(v, 1, 0)])
            return None if r is None else (t.err(r[0]), r[1])
        return self.alt(cx, 0, lambda s: (t.ok(t.pay(v, 0, 0)), s), no)

    def m_and_then(self, cx):
        k = self.okvar(cx)
        v = cx.D[0]
        return self.alt(cx, k, lambda s: self.clocall(cx.I, s, cx.args[1], [t.pay(v, k, 0)]),
                        lambda s: ((t.NONE if k == 1 else t.err(t.pay(v, 1, 0))), s))

    def m_or_else(self, cx):
        k = self.okvar(cx)
        v = cx.D[0]
        return self.alt(cx, k, lambda s: (v, s), lambda s: self.clocall(cx.I, s, cx.args[1], [] if k == 1 else [t.pay(v, 1, 0)]))

    def m_ok_or(self, cx):
        v = cx.D[0]
        return ite(t.isvar(v, 1), t.ok(t.pay(v, 1, 0)), t.err(cx.D[1])), cx.st

    def m_ok_or_else(self, cx):
        v = cx.D[0]

        def no(s):
            r = self.clocall(cx.I, s, cx.args[1], [])
            return None if r is None else (t.err(r[0]), r[1])
        return self.alt(cx, 1, lambda s: (t.ok(t.pay(v, 1, 0)), s), no)

    def m_ok(self, cx):
        v = cx.D[0]
        return ite(t.isvar(v, 0), t.some(t.pay(v, 0, 0)), t.NONE), cx.st

    def m_is_some(self, cx):
        return t.isvar(cx.D[0], 1), cx.st

    def m_is_none(self, cx):
        return NOT(t.isvar(cx.D[0], 1)), cx.st

    def m_is_ok(self, cx):
        return t.isvar(cx.D[0], 0), cx.st

    def m_is_err(self, cx):
        return NOT(t.isvar(cx.D[0], 0)), cx.st

    def m_copied(self, cx):
        return cx.D[0], cx.st

    m_cloned = m_copied

    def m_branch(self, cx):
        v = cx.D[0]
        ty = strip_ref(cx.selfty)
        if is_adt(ty, 'option::Option'):
            r = ite(t.isvar(v, 1), mk('adt', t.CF, 0, t.pay(v, 1, 0)), mk('adt', t.CF, 1, t.NONE))
        else:
            r = ite(t.isvar(v, 0), mk('adt', t.CF, 0, t.pay(v, 0, 0)), mk('adt', t.CF, 1, t.err(t.pay(v, 1, 0))))
        return r, cx.st

    def m_from_residual(self, cx):
        v = cx.D[0]
        if v is t.NONE:
            return t.NONE, cx.st
        if v.op == 'adt' and v.args[0] == t.RES:
            return v, cx.st
        if is_adt(strip_ref(cx.selfty), 'option::Option'):
            return t.NONE, cx.st
        return t.err(t.pay(v, 1, 0)), cx.st

    def m_from_output(self, cx):
        return (t.some(cx.D[0]) if is_adt(cx.selfty, 'option::Option') else t.ok(cx.D[0])), cx.st

    def m_try_into(self, cx):
        return t.ok(cx.D[0]), cx.st

    m_try_from = m_try_into

    # ---- construction
    def m_new(self, cx):
        p = cx.p
        if 'Box' in p or 'Rc' in p or 'Arc' in p:
            return cx.D[0], cx.st
        if 'vec::Vec' in p or 'string::String' in p:
            return NIL, cx.st
        if p.endswith('Digest::new'):
            return mk('hasher', tkey(cx.selfty), NIL), cx.st
        if 'RangeInclusive' in p:
            return mk('adt', 'std::ops::RangeInclusive', 0, *cx.D[:2]), cx.st
        return NotImplemented

    def m_new_uninit(self, cx):
        return mk('uninit'), cx.st

    def m_with_capacity(self, cx):
        self.sized(cx, cx.D[0])
        return NIL, cx.st

    def m_from_elem(self, cx):
        self.sized(cx, cx.D[1])
        return t.MAP(cx.D[1], fresh(), cx.D[0]), cx.st

    def default(self, ty):
        k = ty.get('k')
        if k == 'adt':
            if ty['p'] in ('std::vec::Vec', 'std::string::String'):
                return NIL
            if ty['p'] == t.OPT:
                return t.NONE
            if ty['p'].endswith('PairingOutput'):
                return ZERO
            a = self.prog.adts.get(ty['p']) if hasattr(self, 'prog') else None
            if a and len(a['variants']) == 1:
                m = dict()
                vals = []
                for fn, fty, _ in a['variants'][0][1]:
                    vals.append(self.default(fty))
                return mk('adt', ty['p'], 0, *vals)
            return mk('default', tkey(ty))
        if k == 'prim':
            return FALSE if ty['n'] == 'bool' else ZERO
        if k == 'tuple':
            return t.tup(*[self.default(x) for x in ty['a']])
        if k == 'proj' and ty['n'] in ('Scalar', 'ScalarField', 'BaseField', 'G1', 'G2', 'G1Affine', 'G2Affine', 'BasePrimeField'):
            return ZERO
        return mk('default', tkey(ty))

    def m_default(self, cx):
        return self.default(cx.selfty), cx.st

    # ---- vectors and slices
    def m_len(self, cx):
        v = cx.D[0]
        if isit(v):
            n = self.dlen(cx.I, v.args[0])
            return sub(n, v.args[1]), cx.st
        return t.length(v), cx.st

    def m_is_empty(self, cx):
        return eq(t.length(cx.D[0]), ZERO), cx.st

    def setv(self, cx, x, ret=UNIT):
        s = cx.st.copy()
        if not cx.I.assign(s, cx.args[0], x):
            return self.unknown(cx)
        return ret, s

    def m_push(self, cx):
        return self.setv(cx, t.cat(cx.D[0], t.lst(cx.D[1] if cx.args[1].op != 'mref' else cx.args[1])))

    def m_pop(self, cx):
        v = cx.D[0]
        n = t.length(v)
        return self.setv(cx, t.slc(v, ZERO, sub(n, ONE)), t.opt(NOT(eq(n, ZERO)), t.idx(v, sub(n, ONE))))

    def m_extend_from_slice(self, cx):
        self.sized(cx, t.length(cx.D[1]))
        return self.setv(cx, t.cat(cx.D[0], cx.D[1]))

    def m_extend(self, cx):
        d = self.desc(cx.I, cx.st, cx.args[1] if cx.args[1].op == 'mref' else cx.D[1])
        r = self.collect(cx.I, cx.st, d)
        if r is None:
            return None
        s = r[1].copy()
        cx.I.assign(s, cx.args[0], t.cat(cx.I.deref(s, cx.args[0]), r[0]))
        return UNIT, s

    def m_append(self, cx):
        self.sized(cx, t.length(cx.D[1]))
        s = cx.st.copy()
        cx.I.assign(s, cx.args[0], t.cat(cx.D[0], cx.D[1]))
        cx.I.assign(s, cx.args[1], NIL)
        return UNIT, s

    def m_resize(self, cx):
        a, n, x = cx.D
        self.sized(cx, n)
        v = fresh()
        L = t.length(a)
        if L is n:
            return self.setv(cx, a)
        return self.setv(cx, t.MAP(n, v, ite(lt(v, L), t.idx(a, v), x)))

    def m_truncate(self, cx):
        a, n = cx.D
        return self.setv(cx, t.slc(a, ZERO, t.imin(n, t.length(a))))

    def m_clear(self, cx):
        return self.setv(cx, NIL)

    def m_reverse(self, cx):
        return self.setv(cx, t.rev(cx.D[0]))

    def m_insert(self, cx):
        if 'Vec' not in cx.p:
            return NotImplemented
        a, i, x = cx.D
        return self.setv(cx, t.cat(t.slc(a, ZERO, i), t.lst(x), t.slc(a, i, t.length(a))))

    def m_remove(self, cx):
        if 'Vec' not in cx.p:
            return NotImplemented
        a, i = cx.D
        return self.setv(cx, t.cat(t.slc(a, ZERO, i), t.slc(a, add(i, ONE), t.length(a))), t.idx(a, i))

    def m_swap_remove(self, cx):
        if 'Vec' not in cx.p:
            return NotImplemented
        a, i = cx.D
        n = sub(t.length(a), ONE)
        last = t.idx(a, n)
        return self.setv(cx, t.slc(a, ZERO, n) if i is n else t.slc(t.upd(a, i, last), ZERO, n), t.idx(a, i))

    def m_rotate_left(self, cx, right=False):
        if len(cx.args) != 2 or cx.args[0].op != 'mref':
            return NotImplemented
        a, k = cx.D
        n = t.length(a)
        if right:
            k = sub(n, k)
        return self.setv(cx, t.cat(t.slc(a, k, n), t.slc(a, ZERO, k)))

    def m_rotate_right(self, cx):
        return self.m_rotate_left(cx, True)

    def m_retain(self, cx):
        if 'Vec' not in cx.p:
            return NotImplemented
        r = self.collect(cx.I, cx.st, mk('dfilter', mk('dseq', cx.D[0]), cx.args[1]))
        if r is None:
            return None
        cx.st = r[1]
        return self.setv(cx, r[0])

    def m_resize_with(self, cx):
        a, n = cx.D[0], cx.D[1]
        more = sub(n, t.length(a))
        if not t.nonneg(more):
            more = t.imax(ZERO, more)
            a = t.slc(a, ZERO, t.imin(n, t.length(a)))
        acc = cx.I.drive(cx.st, mk('drange', ZERO, more), lambda s, x, ac: (lambda r: [] if r is None else [('cont', r[1], [t.cat(ac[0], t.lst(r[0]))])])(
            self.clocall(cx.I, s, cx.args[2], [])), [a])
        r = self.many([(ac[0], s) for tag, s, ac in acc])
        if r is None:
            return None
        cx.st = r[1]
        return self.setv(cx, r[0])

    def m_swap(self, cx):
        if len(cx.args) == 3:
            a, i, j = cx.D
            return self.setv(cx, t.upd(t.upd(a, i, t.idx(a, j)), j, t.idx(a, i)))
        if len(cx.args) == 2 and cx.args[1].op == 'mref':
            s = cx.st.copy()
            cx.I.assign(s, cx.args[0], cx.D[1])
            cx.I.assign(s, cx.args[1], cx.D[0])
            return UNIT, s
        return NotImplemented

    def m_replace(self, cx):
        if cx.args[0].op == 'mref' and len(cx.args) == 2:
            return self.setv(cx, cx.D[1], cx.D[0])
        return NotImplemented

    def m_take(self, cx):
        if 'mem::take' in cx.p or 'Option' in cx.p:
            return self.setv(cx, self.default(cx.ga[0]) if 'mem' in cx.p else t.NONE, cx.D[0])
        return self.wrap(cx, 'dtake', cx.D[1])

    def m_drain(self, cx):
        a, r = cx.D
        lo, hi = self.bounds(r, a)
        if lo is None:
            return NotImplemented
        ret = mk('it', mk('dseq', t.slc(a, lo, hi)), ZERO)
        return self.setv(cx, t.cat(t.slc(a, ZERO, lo), t.slc(a, hi, t.length(a))), ret)

    def m_split_off(self, cx):
        a, i = cx.D
        return self.setv(cx, t.slc(a, ZERO, i), t.slc(a, i, t.length(a)))

    def m_split_at(self, cx):
        a, i = cx.D
        return t.tup(t.slc(a, ZERO, i), t.slc(a, i, t.length(a))), self.inb(cx.st, le(i, t.length(a)))

    def m_split_at_mut(self, cx):
        r = cx.args[0]
        if r.op != 'mref':
            return NotImplemented
        a, i = cx.D
        n = t.length(a)
        return t.tup(mk('mref', *(r.args + (mk(PS, ZERO, i),))), mk('mref', *(r.args + (mk(PS, i, n),)))), self.inb(cx.st, le(i, n))

    def m_first(self, cx):
        a = cx.D[0]
        return t.opt(NOT(eq(t.length(a), ZERO)), t.idx(a, ZERO)), cx.st

    def m_split_first(self, cx):
        a = cx.D[0]
        return t.opt(NOT(eq(t.length(a), ZERO)), t.tup(t.idx(a, ZERO), t.slc(a, ONE, t.length(a)))), cx.st

    def m_split_last(self, cx):
        a = cx.D[0]
        n = t.length(a)
        return t.opt(NOT(eq(n, ZERO)), t.tup(t.idx(a, sub(n, ONE)), t.slc(a, ZERO, sub(n, ONE)))), cx.st

    def m_last(self, cx):
        if isit(cx.D[0]):
            return NotImplemented
        a = cx.D[0]
        n = t.length(a)
        return t.opt(NOT(eq(n, ZERO)), t.idx(a, sub(n, ONE))), cx.st

    def m_get(self, cx):
        a, i = cx.D
        lo, hi = self.bounds(i, a)
        if lo is not None:
            return t.opt(AND(le(lo, hi), le(hi, t.length(a))), t.slc(a, lo, hi)), cx.st
        return t.opt(lt(i, t.length(a)), t.idx(a, i)), cx.st

    def m_concat(self, cx):
        a = cx.D[0]
        if a.op == 'list':
            return t.cat(*a.args), cx.st
        v = fresh()
        return t.FLAT(t.length(a), v, t.idx(a, v)), cx.st

    def bounds(self, r, a):
        if r.op == 'adt':
            nm = tail(r.args[0])
            if nm == 'Range':
                return r.args[2], r.args[3]
            if nm == 'RangeFrom':
                return r.args[2], t.length(a)
            if nm == 'RangeTo':
                return ZERO, r.args[2]
            if nm == 'RangeFull':
                return ZERO, t.length(a)
            if nm == 'RangeInclusive':
                return r.args[2], add(r.args[3], ONE)
            if nm == 'RangeToInclusive':
                return ZERO, add(r.args[2], ONE)
        return None, None

    def inb(self, st, c):
        if c is TRUE:
            return st
        s = st.copy()
        s.store[('inb',)] = AND(s.store.get(('inb',), TRUE), c)
        return s

    def m_index(self, cx):
        a, i = cx.D
        lo, hi = self.bounds(i, a)
        if lo is not None:
            return t.slc(a, lo, hi), self.inb(cx.st, AND(le(lo, hi), le(hi, t.length(a))))
        return t.idx(a, i), self.inb(cx.st, lt(i, t.length(a)))

    def m_index_mut(self, cx):
        r = cx.args[0]
        if r.op != 'mref':
            return NotImplemented
        a, i = cx.D
        lo, hi = self.bounds(i, a)
        if lo is not None:
            if lo is ZERO and hi is t.length(a):
                return r, cx.st
            return mk('mref', *(r.args + (mk(PS, lo, hi),))), self.inb(cx.st, le(hi, t.length(a)))
        return mk('mref', *(r.args + (mk(PI, i),))), self.inb(cx.st, lt(i, t.length(a)))

    def m_get_mut(self, cx):
        r = cx.args[0]
        if r.op != 'mref':
            return NotImplemented
        return t.opt(lt(cx.D[1], t.length(cx.D[0])), mk('mref', *(r.args + (mk(PI, cx.D[1]),)))), cx.st

    def m_last_mut(self, cx):
        r = cx.args[0]
        n = t.length(cx.D[0])
        return t.opt(NOT(eq(n, ZERO)), mk('mref', *(r.args + (mk(PI, sub(n, ONE)),)))), cx.st

    def m_first_mut(self, cx):
        r = cx.args[0]
        n = t.length(cx.D[0])
        return t.opt(NOT(eq(n, ZERO)), mk('mref', *(r.args + (mk(PI, ZERO),)))), cx.st

    def m_copy_from_slice(self, cx):
        return self.setv(cx, cx.D[1])

    m_clone_from_slice = m_copy_from_slice
    m_clone_from = m_copy_from_slice

    def m_fill(self, cx):
        return self.setv(cx, t.MAP(t.length(cx.D[0]), fresh(), cx.D[1]))

    # ---- iterators
    def m_iter(self, cx):
        return self.toiter(cx.I, cx.st, cx.D[0]), cx.st

    m_par_iter = m_iter
    m_into_par_iter = None

    def m_into_iter(self, cx):
        a = cx.args[0]
        ty = strip_ref_once(cx.selfty)
        if a.op == 'mref' and cx.selfty.get('k') == 'ref' and cx.selfty.get('m'):
            return self.toiter(cx.I, cx.st, a), cx.st
        it = self.toiter(cx.I, cx.st, cx.D[0])
        if isit(it) and selective(it.args[0]):
            d, st = self.positional(cx.I, cx.st, self.desc(cx.I, cx.st, it))
            return mk('it', d, ZERO), st
        return it, cx.st

    m_into_par_iter = m_into_iter

    def m_iter_mut(self, cx):
        return self.toiter(cx.I, cx.st, cx.args[0]), cx.st

    m_par_iter_mut = m_iter_mut

    def wrap(self, cx, op, *extra):
        d = self.desc(cx.I, cx.st, cx.args[0] if cx.args[0].op == 'mref' else cx.D[0])
        st = cx.st
        if op in ('denum', 'dskip', 'dstep', 'dtake', 'dcycle'):
            d, st = self.positional(cx.I, st, d)
        return mk('it', mk(op, d, *extra), ZERO), st

    def positional(self, I, st, d):
        """what counts positions after a filter counts the kept elements: put them into a sequence first"""
        if not selective(d):
            return d, st
        r = self.collect(I, st, d, 'vec')
        if r is None:
            raise Give_up('filter never ends')
        return mk('dseq', r[0]), r[1]

    def m_zip(self, cx):
        if cx.p.split('<')[0].endswith('Option::'):
            a, b = cx.D
            return t.opt(AND(t.isvar(a, 1), t.isvar(b, 1)), t.tup(t.pay(a, 1, 0), t.pay(b, 1, 0))), cx.st
        a = self.desc(cx.I, cx.st, cx.D[0])
        arg = cx.args[1]
        c = self.desc(cx.I, cx.st, arg if arg.op == 'mref' else cx.D[1])
        a, st = self.positional(cx.I, cx.st, a)
        c, st = self.positional(cx.I, st, c)
        return mk('it', mk('dzip', a, c), ZERO), st

    m_zip_eq = m_zip

    def m_izip(self, cx):
        return NotImplemented

    def m_chain(self, cx):
        if cx.D[0].op == 'hasher':
            return self.m_chain_update(cx)
        return self.two(cx, 'dchain')

    def two(self, cx, op):
        a, st = self.positional(cx.I, cx.st, self.desc(cx.I, cx.st, cx.D[0]))
        c, st = self.positional(cx.I, st, self.desc(cx.I, st, cx.D[1]))
        return mk('it', mk(op, a, c), ZERO), st

    def m_interleave(self, cx):
        return self.two(cx, 'dinter')

    def m_enumerate(self, cx):
        return self.wrap(cx, 'denum')

    def m_rev(self, cx):
        return self.wrap(cx, 'drev')

    def m_cycle(self, cx):
        return self.wrap(cx, 'dcycle')

    def m_skip(self, cx):
        return self.wrap(cx, 'dskip', cx.D[1])

    def m_step_by(self, cx):
        return self.wrap(cx, 'dstep', cx.D[1])

    def m_filter(self, cx):
        if not isit(cx.D[0]):
            if 'Option' not in cx.p.split('<')[0]:
                return NotImplemented

            def yes(s):
                r = self.clocall(cx.I, s, cx.args[1], [t.pay(cx.D[0], 1, 0)])
                return None if r is None else (t.opt(r[0], t.pay(cx.D[0], 1, 0)), r[1])
            return self.alt(cx, 1, yes, lambda s: (t.NONE, s))
        return self.wrap(cx, 'dfilter', cx.args[1])

    def m_filter_map(self, cx):
        return self.wrap(cx, 'dfmap', cx.args[1])

    def m_inspect(self, cx):
        """the closure only looks at the elements (one that changes captured state is not modelled)"""
        f = cx.args[1]
        if not isit(cx.D[0]) or cx.I.has_mref(f):
            return NotImplemented
        return cx.D[0], cx.st

    def m_take_while(self, cx, some=False):
        if not isit(cx.D[0]) or cx.args[0].op == 'mref':
            return NotImplemented

        def f(s, x, acc):
            r = self.clocall(cx.I, s, cx.args[1], [x])
            if r is None:
                return []
            c = t.isvar(r[0], 1) if some else r[0]
            y = t.pay(r[0], 1, 0) if some else x
            return [('cont' if k == 'stop' else 'stop', a, acc2)
                    for k, a, acc2 in self.when(cx, r[1], c, [t.cat(acc[0], t.lst(y))], acc)]
        r = cx.I.drive(cx.st, self.desc(cx.I, cx.st, cx.D[0]), f, [NIL])
        return self.many([(mk('it', mk('dseq', acc[0]), ZERO), s) for tag, s, acc in r])

    def m_map_while(self, cx):
        return self.m_take_while(cx, True)

    def m_skip_while(self, cx):
        if not isit(cx.D[0]) or cx.args[0].op == 'mref':
            return NotImplemented
        d = self.desc(cx.I, cx.st, cx.D[0])
        d, st = self.positional(cx.I, cx.st, d)
        cx.st = st

        def f(s, x, acc):
            r = self.clocall(cx.I, s, cx.args[1], [x])
            return [] if r is None else [(k, a, [acc2[0]] if k == 'stop' else [add(acc2[0], ONE)])
                                         for k, a, acc2 in self.when(cx, r[1], NOT(r[0]), acc, acc)]
        r = cx.I.drive(cx.st, d, f, [ZERO])
        return self.many([(mk('it', mk('dskip', d, acc[0]), ZERO), s) for tag, s, acc in r])

    def m_flat_map(self, cx, plain=False):
        """concatenation of what the closure yields for every element"""
        if not isit(cx.D[0]) or cx.args[0].op == 'mref':
            if plain and len(cx.args) == 1:
                return self.flat_option(cx)
            return NotImplemented

        def f(s, x, acc):
            if plain:
                r = x, s
            else:
                r = self.clocall(cx.I, s, cx.args[1], [x])
                if r is None:
                    return []
            q = self.parts(cx, r[1], r[0])
            if q is None:
                raise Unmodelled()
            return [('cont', q[1], [t.cat(acc[0], q[0])])]
        try:
            r = cx.I.drive(cx.st, self.desc(cx.I, cx.st, cx.D[0]), f, [NIL])
        except Unmodelled:
            return NotImplemented
        return self.many([(mk('it', mk('dseq', acc[0]), ZERO), s) for tag, s, acc in r])

    m_flat_map_iter = m_flat_map

    def m_flatten(self, cx):
        return self.m_flat_map(cx, True)

    m_flatten_iter = m_flatten

    def parts(self, cx, s, v):
        """the sequence an iterable yields: (sequence, state)"""
        v = cx.I.deref(s, v)
        if v.op == 'adt' and v.args[0] == t.OPT or v.op == 'adt' and v.args[0] == t.RES:
            k = 1 if v.args[0] == t.OPT else 0
            return (t.lst(t.pay(v, k, 0)) if v.args[1] == k else NIL), s
        if v.op == 'ite':
            a = self.parts(cx, s, v.args[1])
            b = self.parts(cx, s, v.args[2])
            if a is None or b is None:
                return None
            return ite(v.args[0], a[0], b[0]), s
        if isit(v):
            return self.collect(cx.I, s, self.desc(cx.I, s, v))
        if v.op in ('list', 'map', 'cat', 'slc', 'upd', 'bytes'):
            return v, s
        return None

    def flat_option(self, cx):
        k = self.okvar(cx)
        return self.alt(cx, k, lambda s: (t.pay(cx.D[0], k, 0), s), lambda s: ((t.NONE if k == 1 else t.err(t.pay(cx.D[0], 1, 0))), s))

    def m_partition(self, cx):
        if not isit(cx.D[0]):
            return NotImplemented

        def f(s, x, acc):
            r = self.clocall(cx.I, s, cx.args[1], [x])
            if r is None:
                return []
            return [('cont', a, acc2) for k, a, acc2 in
                    self.when(cx, r[1], r[0], [t.cat(acc[0], t.lst(x)), acc[1]], [acc[0], t.cat(acc[1], t.lst(x))])]
        r = cx.I.drive(cx.st, self.desc(cx.I, cx.st, cx.D[0]), f, [NIL, NIL])
        return self.many([(t.tup(acc[0], acc[1]), s) for tag, s, acc in r])

    def m_scan(self, cx):
        cx.I.nframe += 1
        fr = cx.I.nframe
        s = cx.st.copy()
        s.store[(fr, 0)] = cx.D[1]
        d = self.desc(cx.I, s, cx.D[0])
        return mk('it', mk('dscan', d, cx.args[2], fr), ZERO), s

    def m_successors(self, cx):
        cx.I.nframe += 1
        fr = cx.I.nframe
        s = cx.st.copy()
        s.store[(fr, 0)] = cx.D[0]
        return mk('it', mk('dsucc', cx.args[1], fr), ZERO), s

    def m_repeat(self, cx):
        if 'iter' in cx.p:
            return mk('it', mk('drepeat', cx.D[0]), ZERO), cx.st
        return NotImplemented

    def m_repeat_with(self, cx):
        return mk('it', mk('dmap', mk('drange', ZERO, INF), mk('noarg', cx.args[0])), ZERO), cx.st

    def m_from_fn(self, cx):
        if 'iter' not in cx.p:
            return NotImplemented
        return self.uiter(cx.I, cx.st, cx.args[0], mk('fnmut')), cx.st

    def m_repeat_n(self, cx):
        return mk('it', mk('dtake', mk('drepeat', cx.D[0]), cx.D[1]), ZERO), cx.st

    def m_once(self, cx):
        return mk('it', mk('dseq', t.lst(cx.D[0])), ZERO), cx.st

    def m_empty(self, cx):
        return mk('it', mk('dseq', NIL), ZERO), cx.st

    def m_by_ref(self, cx):
        return cx.args[0], cx.st

    def m_peekable(self, cx):
        return cx.D[0], cx.st

    def m_with_min_len(self, cx):
        return cx.D[0], cx.st

    m_with_max_len = m_with_min_len
    m_fuse = m_peekable

    def mchunks(self, cx, op):
        r, c = cx.args[0], cx.D[1]
        if r.op != 'mref':
            return NotImplemented
        s = self.guard(cx.I, cx.st, t.pos(c))
        if s is None:
            return None
        return mk('it', mk(op, r, t.length(cx.D[0]), c), ZERO), s

    def m_chunks_mut(self, cx):
        return self.mchunks(cx, 'dmchunks')

    def m_chunks_exact_mut(self, cx):
        return self.mchunks(cx, 'dmchunksx')

    m_par_chunks_mut = m_chunks_mut
    m_par_chunks_exact_mut = m_chunks_exact_mut

    def chunks(self, cx, op, exact=False):
        a, c = cx.D[:2]
        s = self.guard(cx.I, cx.st, t.pos(c))
        if s is None:
            return None
        return mk('it', mk(op, a, c), ZERO), s

    def m_chunks(self, cx):
        return self.chunks(cx, 'dchunks')

    m_par_chunks = m_chunks

    def m_chunks_exact(self, cx):
        return self.chunks(cx, 'dchunksx')

    m_par_chunks_exact = m_chunks_exact

    def m_windows(self, cx):
        return self.chunks(cx, 'dwin')

    m_par_windows = m_windows

    def m_next(self, cx):
        it = cx.D[0]
        if not isit(it):
            return NotImplemented
        d, p = it.args
        n = self.dlen(cx.I, d)
        c = cx.I.simp(lt(p, n), cx.st.pc)
        if c is FALSE:
            return t.NONE, cx.st
        outs = []
        s = cx.st.copy()
        s.pc = add_pc(s.pc, c)
        for x, s2, k in self.delem(cx.I, s, d, p):
            if k is not TRUE:
                return NotImplemented
            s3 = s2.copy()
            cx.I.assign(s3, cx.args[0], mk('it', d, add(p, ONE)))
            outs.append((t.some(x), s3))
        if c is not TRUE:
            s = cx.st.copy()
            s.pc = add_pc(s.pc, NOT(c))
            cx.I.assign(s, cx.args[0], mk('it', d, add(p, ONE)))
            outs.append((t.NONE, s))
        return self.many(outs)

    def m_nth(self, cx):
        it = cx.D[0]
        if not isit(it):
            return NotImplemented
        d, p = it.args
        q = add(p, cx.D[1])
        n = self.dlen(cx.I, d)
        r = self.delem(cx.I, cx.st, d, q)
        if len(r) != 1:
            return NotImplemented
        s = r[0][1].copy()
        cx.I.assign(s, cx.args[0], mk('it', d, add(q, ONE)))
        return t.opt(lt(q, n), r[0][0]), s

    def collect(self, I, st, d, kind='vec'):
        def f(s, x, acc):
            if kind == 'vec':
                return [('cont', s, [t.cat(acc[0], t.lst(x))])]
            k = 0 if kind == 'res' else 1
            c = I.simp(t.isvar(x, k), s.pc)
            out = []
            if c is not FALSE:
                a = s.copy()
                a.pc = add_pc(s.pc, c)
                out.append(('cont', a, [t.cat(acc[0], t.lst(t.pay(x, k, 0)))] + acc[1:]))
            if c is not TRUE:
                a = s.copy()
                a.pc = add_pc(s.pc, NOT(c))
                out.append(('err', a, [acc[0], t.pay(x, 1, 0) if k == 0 else UNIT]))
            return out
        accs = [NIL] if kind == 'vec' else [NIL, UNIT]
        r = I.drive(st, d, f, accs)
        outs = []
        for tag, s, acc in r:
            if tag == 'end':
                outs.append(((acc[0] if kind == 'vec' else t.ok(acc[0]) if kind == 'res' else t.some(acc[0])), s))
            else:
                outs.append(((t.err(acc[1]) if kind == 'res' else t.NONE), s))
        return self.many(outs)

    def m_collect(self, cx):
        d = self.desc(cx.I, cx.st, cx.D[0])
        ty = cx.dty
        if ty.get('k') == 'other' and len(cx.ga) > 1:
            ty = cx.ga[-1]
        kind = 'vec'
        if is_adt(ty, 'result::Result'):
            kind = 'res'
        elif is_adt(ty, 'option::Option'):
            kind = 'opt'
        return self.collect(cx.I, cx.st, d, kind)

    def m_collect_vec(self, cx):
        return self.collect(cx.I, cx.st, self.desc(cx.I, cx.st, cx.D[0]))

    def m_collect_into_vec(self, cx):
        r = self.collect(cx.I, cx.st, self.desc(cx.I, cx.st, cx.D[0]))
        if r is None:
            return None
        s = r[1].copy()
        cx.I.assign(s, cx.args[1], r[0])
        return UNIT, s

    def m_unzip(self, cx):
        r = self.collect(cx.I, cx.st, self.desc(cx.I, cx.st, cx.D[0]))
        if r is None:
            return None
        v = fresh()
        n = t.length(r[0])
        return t.tup(t.MAP(n, v, t.fld(t.idx(r[0], v), 0)), t.MAP(n, v, t.fld(t.idx(r[0], v), 1))), r[1]

    def m_to_vec(self, cx):
        return cx.D[0], cx.st

    def accum(self, cx, init, f):
        d = self.desc(cx.I, cx.st, cx.args[0] if cx.args[0].op == 'mref' else cx.D[0])
        r = cx.I.drive(cx.st, d, f, [init])
        return self.many([(acc[0], s) for tag, s, acc in r])

    def m_sum(self, cx):
        return self.accum(cx, ZERO, lambda s, x, acc: [('cont', s, [add(acc[0], cx.I.deref(s, x))])])

    def m_product(self, cx):
        return self.accum(cx, ONE, lambda s, x, acc: [('cont', s, [mul(acc[0], cx.I.deref(s, x))])])

    def m_count(self, cx):
        return self.accum(cx, ZERO, lambda s, x, acc: [('cont', s, [add(acc[0], ONE)])])

    def m_fold(self, cx):
        if 'rayon' in cx.p:
            return self.parfold(cx)
        def f(s, x, acc):
            r = self.clocall(cx.I, s, cx.args[2], [acc[0], x])
            return [] if r is None else [('cont', r[1], [r[0]])]
        return self.accum(cx, cx.D[1], f)

    def seqfold(self, I, st, d, init, op):
        def f(s, x, acc):
            r = self.clocall(I, s, op, [acc[0], x])
            return [] if r is None else [('cont', r[1], [r[0]])]
        r = I.drive(st, d, f, [init])
        return self.many([(acc[0], s) for tag, s, acc in r])

    def halves(self, cx, init, op):
        """(sequential result, result of the first half, result of the second half, state) of a parallel fold"""
        I = cx.I
        r = self.collect(I, cx.st, self.desc(I, cx.st, cx.D[0]))
        if r is None:
            return None
        l, st = r
        h = t.idiv(t.length(l), C(2))
        full = self.seqfold(I, st, mk('dseq', l), init, op)
        if full is None:
            return None
        one = self.seqfold(I, full[1], mk('dseq', t.slc(l, ZERO, h)), init, op)
        two = one and self.seqfold(I, one[1], mk('dseq', t.slc(l, h, t.length(l))), init, op)
        return two and (full[0], one[0], two[0], two[1])

    def parfold(self, cx):
        """rayon fold: one partial result per job; the schedule decides whether there are one or two jobs"""
        r0 = self.clocall(cx.I, cx.st, cx.args[1], [])
        if r0 is None:
            return None
        r = self.halves(cx, r0[0], cx.args[2])
        if r is None:
            return None
        return mk('it', mk('dseq', ite(eq(SCHED, ZERO), t.lst(r[0]), t.lst(r[1], r[2]))), ZERO), r[3]

    def m_par_bridge(self, cx):
        """the order of a bridged sequence is decided by the schedule"""
        r = self.collect(cx.I, cx.st, self.desc(cx.I, cx.st, cx.D[0]))
        if r is None:
            return None
        return mk('it', mk('dseq', shuffled(r[0])), ZERO), r[1]

    def m_reduce(self, cx):
        I = cx.I
        if 'rayon' in cx.p:
            r0 = self.clocall(I, cx.st, cx.args[1], [])
            if r0 is None:
                return None
            op = cx.args[2]
            x = fresh('x')
            n = self.clocall(I, cx.st, op, [r0[0], x])
            n2 = self.clocall(I, cx.st, op, [x, r0[0]])
            if n is None or n2 is None:
                return None
            neutral = n[0] is x and n2[0] is x
            a, c, e = fresh('x'), fresh('x'), fresh('x')
            l = self.clocall(I, cx.st, op, [self.clocall(I, cx.st, op, [a, c])[0], e])[0]
            rr = self.clocall(I, cx.st, op, [a, self.clocall(I, cx.st, op, [c, e])[0]])[0]
            if neutral and l is rr:
                return self.seqfold(I, cx.st, self.desc(I, cx.st, cx.D[0]), r0[0], op)
            # the result may depend on how the work is split between threads
            r = self.halves(cx, r0[0], op)
            if r is None:
                return None
            w = self.clocall(I, r[3], op, [r[1], r[2]])
            return w and (ite(eq(SCHED, ZERO), r[0], w[0]), w[1])
        return self.fold1(cx, self.desc(I, cx.st, cx.D[0]), cx.args[1])

    def fold1(self, cx, d, op):
        """Option of the fold of the first element over the rest"""
        I = cx.I
        n = self.dlen(I, d)
        first = self.delem(I, cx.st, d, ZERO)
        if len(first) != 1 or selective(d):
            return NotImplemented
        m = self.seqfold(I, first[0][1], mk('dskip', d, ONE), first[0][0], op)
        return (t.opt(NOT(eq(n, ZERO)), m[0]), m[1]) if m else None

    def m_reduce_with(self, cx):
        """rayon: associativity is the caller's business, so two ways of splitting are kept apart"""
        I, op = cx.I, cx.args[1]
        r = self.collect(I, cx.st, self.desc(I, cx.st, cx.D[0]))
        if r is None:
            return None
        l, st = r
        n = t.length(l)
        A = self.seqfold(I, st, mk('dseq', t.slc(l, ONE, n)), t.idx(l, ZERO), op)
        # right-nested: x0 + (x1 + ...)
        B = A and self.seqfold(I, A[1], mk('dseq', t.slc(l, C(2), n)), t.idx(l, ONE), op)
        w = B and self.clocall(I, B[1], op, [t.idx(l, ZERO), B[0]])
        if not w:
            return None
        return t.opt(NOT(eq(n, ZERO)), ite(AND(NOT(eq(SCHED, ZERO)), lt(ONE, n)), w[0], A[0])), w[1]

    def m_for_each(self, cx):
        def f(s, x, acc):
            r = self.clocall(cx.I, s, cx.args[1], [x])
            return [] if r is None else [('cont', r[1], [])]
        d = self.desc(cx.I, cx.st, cx.args[0] if cx.args[0].op == 'mref' else cx.D[0])
        r = cx.I.drive(cx.st, d, f, [])
        return self.many([(UNIT, s) for tag, s, acc in r])

    def m_try_for_each(self, cx):
        def f(s, x, acc):
            r = self.clocall(cx.I, s, cx.args[1], [x])
            if r is None:
                return []
            return self.split(cx.I, r[1], r[0], lambda a, v: ('cont', a, acc), lambda a, v: ('err', a, [v]))
        d = self.desc(cx.I, cx.st, cx.D[0])
        r = cx.I.drive(cx.st, d, f, [UNIT])
        return self.many([((t.ok(UNIT) if tag == 'end' else t.err(acc[0])), s) for tag, s, acc in r])

    def split(self, I, s, v, fo, fe):
        c = I.simp(t.isvar(v, 0), s.pc)
        out = []
        if c is not FALSE:
            a = s.copy()
            a.pc = add_pc(s.pc, c)
            out.append(fo(a, t.pay(v, 0, 0)))
        if c is not TRUE:
            a = s.copy()
            a.pc = add_pc(s.pc, NOT(c))
            out.append(fe(a, t.pay(v, 1, 0)))
        return out

    def m_try_fold(self, cx):
        if 'rayon' in cx.p:
            return NotImplemented
        def f(s, x, acc):
            r = self.clocall(cx.I, s, cx.args[2], [acc[0], x])
            if r is None:
                return []
            return self.split(cx.I, r[1], r[0], lambda a, v: ('cont', a, [v]), lambda a, v: ('err', a, [v]))
        d = self.desc(cx.I, cx.st, cx.args[0] if cx.args[0].op == 'mref' else cx.D[0])
        r = cx.I.drive(cx.st, d, f, [cx.D[1]])
        return self.many([((t.ok(acc[0]) if tag == 'end' else t.err(acc[0])), s) for tag, s, acc in r])

    def quant(self, cx, want):
        def f(s, x, acc):
            r = self.clocall(cx.I, s, cx.args[1], [x])
            if r is None:
                return []
            v, s = r
            c = v if want else NOT(v)
            c = cx.I.simp(c, s.pc)
            out = []
            if c is not FALSE:
                a = s.copy(); a.pc = add_pc(s.pc, c); out.append(('cont', a, acc))
            if c is not TRUE:
                a = s.copy(); a.pc = add_pc(s.pc, NOT(c)); out.append(('stop', a, acc))
            return out
        d = self.desc(cx.I, cx.st, cx.args[0] if cx.args[0].op == 'mref' else cx.D[0])
        r = cx.I.drive(cx.st, d, f, [])
        return self.many([((TRUE if want else FALSE) if tag == 'end' else (FALSE if want else TRUE), s) for tag, s, acc in r])

    def seek(self, cx, f, d=None, init=()):
        """first element for which f(state, x, acc) stops; f returns [(kind, state, acc)]; acc[0] is the result when stopped"""
        if d is None:
            d = self.desc(cx.I, cx.st, cx.args[0] if cx.args[0].op == 'mref' else cx.D[0])
        r = cx.I.drive(cx.st, d, f, [UNIT] + list(init))
        outs = []
        for tag, s, acc in r:
            if cx.args[0].op == 'mref':
                s = s.copy()
                cx.I.assign(s, cx.args[0], mk('ext', 'iterator after search', cx.D[0]))
            outs.append((t.NONE if tag == 'end' else t.some(acc[0]), s))
        return self.many(outs)

    def when(self, cx, s, c, hit, miss):
        c = cx.I.simp(c, s.pc)
        out = []
        if c is not FALSE:
            a = s.copy(); a.pc = add_pc(s.pc, c); out.append(('stop', a, hit))
        if c is not TRUE:
            a = s.copy(); a.pc = add_pc(s.pc, NOT(c)); out.append(('cont', a, miss))
        return out

    def unordered(self, cx):
        """the elements of a parallel iterator in the order the schedule happens to process them"""
        r = self.collect(cx.I, cx.st, self.desc(cx.I, cx.st, cx.D[0]))
        if r is None:
            return None
        cx.st = r[1]
        return mk('dseq', shuffled(r[0]))

    def m_find(self, cx, d=None):
        def f(s, x, acc):
            r = self.clocall(cx.I, s, cx.args[1], [x])
            return [] if r is None else self.when(cx, r[1], r[0], [x] + acc[1:], acc)
        return self.seek(cx, f, d)

    m_find_first = m_find

    def m_find_any(self, cx):
        d = self.unordered(cx)
        return None if d is None else self.m_find(cx, d)

    def m_find_map(self, cx, d=None):
        def f(s, x, acc):
            r = self.clocall(cx.I, s, cx.args[1], [x])
            return [] if r is None else self.when(cx, r[1], t.isvar(r[0], 1), [t.pay(r[0], 1, 0)] + acc[1:], acc)
        return self.seek(cx, f, d)

    m_find_map_first = m_find_map

    def m_find_map_any(self, cx):
        d = self.unordered(cx)
        return None if d is None else self.m_find_map(cx, d)

    def m_position(self, cx):
        def f(s, x, acc):
            r = self.clocall(cx.I, s, cx.args[1], [x])
            return [] if r is None else self.when(cx, r[1], r[0], [acc[1], acc[1]], [acc[0], add(acc[1], ONE)])
        return self.seek(cx, f, None, [ZERO])

    m_position_first = m_position

    def m_contains(self, cx):
        if cx.D[0].op == 'adt':
            return NotImplemented
        y = cx.D[1]
        def f(s, x, acc):
            return self.when(cx, s, eq(cx.I.deref(s, x), y), acc, acc)
        r = cx.I.drive(cx.st, mk('dseq', cx.D[0]), f, [])
        return self.many([(FALSE if tag == 'end' else TRUE, s) for tag, s, acc in r])

    def m_all(self, cx):
        return self.quant(cx, True)

    def m_any(self, cx):
        return self.quant(cx, False)

    # ---- closures passed around
    def m_call(self, cx):
        a = cx.D[1]
        return cx.I.call(cx.st, cx.args[0] if cx.args[0].op == 'mref' else cx.D[0], list(a.args) if a.op == 'tup' else [a], cx.dty)

    m_call_once = m_call
    m_call_mut = m_call

    # ---- ark
    def m_normalize_batch(self, cx):
        return cx.D[0], cx.st

    m_batch_convert_to_mul_base = m_normalize_batch

    def m_generator(self, cx):
        return mk('gen', tkey(cx.selfty)), cx.st

    def m_msm(self, cx):
        if 'FixedBase' in cx.p:
            bits, w, tab, v = cx.D
            if tab.op == 'fbtable' and tab.args[0] is bits and tab.args[1] is w and bits.op == 'konst' and bits.args[0] == 'MODULUS_BIT_SIZE':
                q = fresh()
                return t.MAP(t.length(v), q, mul(tab.args[2], t.idx(v, q))), cx.st
            return mk('fbmsm', bits, w, tab, v), cx.st
        a, c = cx.D
        q = fresh()
        n, m = t.length(a), t.length(c)
        s = t.SUM(n, q, mul(t.idx(a, q), t.idx(c, q)))
        return ite(eq(n, m), t.ok(s), t.err(t.imin(n, m))), cx.st

    def m_msm_unchecked(self, cx):
        a, c = cx.D
        q = fresh()
        return t.SUM(t.imin(t.length(a), t.length(c)), q, mul(t.idx(a, q), t.idx(c, q))), cx.st

    m_msm_bigint = m_msm_unchecked

    def m_get_mul_window_size(self, cx):
        return mk('fbwin', cx.D[0]), cx.st

    def m_get_window_table(self, cx):
        return mk('fbtable', *cx.D), cx.st

    def E(self, cx):
        return mk('form', 'pairing', tkey(cx.selfty))

    def m_pairing(self, cx):
        return mul(self.E(cx), mul(cx.D[0], cx.D[1])), cx.st

    def pairsum(self, cx):
        I = cx.I
        a = self.collect(I, cx.st, self.desc(I, cx.st, cx.D[0]))
        if a is None:
            return None
        c = self.collect(I, a[1], self.desc(I, a[1], cx.D[1]))
        if c is None:
            return None
        n = t.imin(t.length(a[0]), t.length(c[0]))
        q = fresh()
        return t.SUM(n, q, mul(self.E(cx), mul(t.idx(a[0], q), t.idx(c[0], q)))), c[1], t.length(a[0]), t.length(c[0])

    def m_multi_pairing(self, cx):
        r = self.pairsum(cx)
        return None if r is None else (r[0], r[1])

    def m_multi_miller_loop(self, cx):
        r = self.pairsum(cx)
        if r is None:
            return None
        return mk('adt', MLO, 0, t.power(GT, r[0])), r[1]

    def m_miller_loop(self, cx):
        return mk('adt', MLO, 0, t.power(GT, mul(self.E(cx), mul(cx.D[0], cx.D[1])))), cx.st

    def m_final_exponentiation(self, cx):
        x = t.fld(cx.D[0], 0)
        if x.op == 'pw' and x.args[0] is GT:
            return t.some(x.args[1]), cx.st
        if x is GT:
            return t.some(ONE), cx.st
        if x is ONE:
            return t.some(ZERO), cx.st
        return t.some(mk('fe', x)), cx.st

    # polynomials
    def m_from_coefficients_slice(self, cx):
        return mkpoly(cx.D[0]), cx.st

    m_from_coefficients_vec = m_from_coefficients_slice

    def m_coeffs(self, cx):
        return coeffs(cx.D[0]), cx.st

    def m_degree(self, cx):
        a = coeffs(cx.D[0])
        return t.imax(ZERO, sub(t.length(a), ONE)), cx.st

    def m_evaluate(self, cx):
        if not is_adt(strip_ref(cx.selfty), 'DensePolynomial'):
            return NotImplemented
        a = coeffs(cx.D[0])
        q = fresh()
        return t.SUM(t.length(a), q, mul(t.idx(a, q), t.power(cx.D[1], q))), cx.st

    # serialisation, hashing, randomness
    def mode(self, v):
        if v.op == 'adt' and v.args[0].endswith('::Compress'):
            return 'c' if v.args[1] == 0 else 'u'
        return 'u' if v.op != 'param' else v

    def ser(self, cx, mode):
        s = cx.st.copy()
        w = cx.args[1]
        if w.op != 'mref':
            return self.unknown(cx)
        if is_adt(strip_ref(cx.selfty), 'PhantomData'):
            return t.ok(UNIT), s
        old = cx.I.deref(s, w)
        cx.I.assign(s, w, t.cat(old, ser(mode, cx.D[0])))
        return t.ok(UNIT), s

    def deser(self, cx, mode, validate):
        """the next value of a reader: `de` remembers the state it was read from, its type and the modes"""
        if is_adt(strip_ref(cx.selfty), 'PhantomData'):
            return t.ok(mk('adt', 'std::marker::PhantomData', 0)), cx.st
        s = cx.st.copy()
        w = cx.args[0]
        if w.op != 'mref':
            return self.unknown(cx)
        old = cx.I.deref(s, w)
        cx.I.assign(s, w, mk('rd', old))
        return t.ok(mk('de', old, mode, validate, tkey(cx.selfty))), s

    def m_deserialize_with_mode(self, cx):
        v = cx.D[2]
        if v.op != 'adt' or not v.args[0].endswith('::Validate'):
            return NotImplemented
        return self.deser(cx, self.mode(cx.D[1]), v.args[1] == 0)

    def m_deserialize_compressed(self, cx):
        return self.deser(cx, 'c', True)

    def m_deserialize_uncompressed(self, cx):
        return self.deser(cx, 'u', True)

    def m_deserialize_compressed_unchecked(self, cx):
        return self.deser(cx, 'c', False)

    def m_deserialize_uncompressed_unchecked(self, cx):
        return self.deser(cx, 'u', False)

    def m_serialized_size(self, cx):
        if is_adt(strip_ref(cx.selfty), 'PhantomData'):
            return ZERO, cx.st
        return mk('sersize', self.mode(cx.D[1]), cx.D[0]), cx.st

    def m_compressed_size(self, cx):
        return ZERO if is_adt(strip_ref(cx.selfty), 'PhantomData') else mk('sersize', 'c', cx.D[0]), cx.st

    def m_uncompressed_size(self, cx):
        return ZERO if is_adt(strip_ref(cx.selfty), 'PhantomData') else mk('sersize', 'u', cx.D[0]), cx.st

    def m_check(self, cx):
        if cx.tr.endswith('::Valid'):
            return t.ok(UNIT), cx.st
        return NotImplemented

    def m_batch_check(self, cx):
        if not cx.tr.endswith('::Valid'):
            return NotImplemented
        r = self.collect(cx.I, cx.st, self.desc(cx.I, cx.st, cx.D[0]))
        if r is None:
            return None
        if self.faults:
            q = fresh()
            return ite(t.ANY(t.length(r[0]), q, mk('fault', 'check', t.tup(t.idx(r[0], q)))), t.err(mk('errc', 'invalid')), t.ok(UNIT)), r[1]
        return t.ok(UNIT), r[1]

    def m_serialize_uncompressed(self, cx):
        return self.ser(cx, 'u')

    def m_serialize_compressed(self, cx):
        return self.ser(cx, 'c')

    def m_serialize_with_mode(self, cx):
        return self.ser(cx, self.mode(cx.D[2]))

    def m_write_all(self, cx):
        s = cx.st.copy()
        if cx.args[0].op != 'mref':
            return self.unknown(cx)
        cx.I.assign(s, cx.args[0], t.cat(cx.D[0], cx.D[1]))
        return t.ok(UNIT), s

    m_write = None

    def m_digest(self, cx):
        return mk('H', tkey(cx.selfty), cx.D[0]), cx.st

    def m_update(self, cx):
        h = cx.D[0]
        if h.op != 'hasher':
            return NotImplemented
        return self.setv(cx, mk('hasher', h.args[0], t.cat(h.args[1], cx.D[1])))

    def m_chain_update(self, cx):
        h = cx.D[0]
        if h.op != 'hasher':
            return NotImplemented
        return mk('hasher', h.args[0], t.cat(h.args[1], cx.D[1])), cx.st

    def m_finalize(self, cx):
        h = cx.D[0]
        if h.op != 'hasher':
            return NotImplemented
        return mk('H', h.args[0], h.args[1]), cx.st

    def m_from_seed(self, cx):
        return mk('chacha', tkey(cx.selfty), cx.D[0]), cx.st

    def m_seed_from_u64(self, cx):
        return mk('ownrng', 'seed_from_u64', cx.D[0]), cx.st

    def m_from_entropy(self, cx):
        # a source that is not the caller's: whatever it gives does not depend on the arguments
        return mk('ownrng', cx.p), cx.st

    m_thread_rng = m_test_rng = m_from_os_rng = m_from_entropy

    def rngstep(self, cx, w):
        return self.rng(cx.I, cx.st, cx.args[0], w, cx.selfty)

    def m_next_u32(self, cx):
        return self.rngstep(cx, 4)

    def m_next_u64(self, cx):
        return self.rngstep(cx, 8)

    def m_fill_bytes(self, cx):
        r = self.rng(cx.I, cx.st, cx.args[0], 0, cx.selfty)
        if r is None:
            return None
        s = r[1].copy()
        cx.I.assign(s, cx.args[1], r[0])
        return UNIT, s

    def m_try_fill_bytes(self, cx):
        r = self.m_fill_bytes(cx)
        return None if r is None else (t.ok(UNIT), r[1])

    def rng(self, I, st, ref, w, ty):
        """bytes drawn from an rng, advancing it"""
        v = I.deref(st, ref)
        s = st.copy()
        out = mk('rngbytes', v, w)
        I.assign(s, ref, mk('rngadv', v))
        return out, s

    def m_rand(self, cx):
        # T::rand(rng) / rng.gen()
        I, st = cx.I, cx.st
        ref = cx.args[0]
        rty = cx.ga[1] if len(cx.ga) > 1 else None
        ty = cx.selfty
        v = cx.D[0]
        if v.op == 'adt' and rty is not None:
            # workspace rng: run its own RngCore::fill_bytes
            rt = strip_ref(rty)
            im = I.prog.find_impl('ark_std::rand::RngCore', [rt]) or find_rng(I.prog, rt)
            if im is not None:
                d = dict((a, c) for a, c in im[0]['items'])
                b = I.prog.bodies.get(d.get('fill_bytes'))
                if b is not None:
                    I.nframe += 1
                    fr = I.nframe
                    s = st.copy()
                    s.store[(fr, 0)] = mk('uninit')
                    r = I.call_body(b, im[1], [ref, mk('mref', fr, 0)], s)
                    if r is not None:
                        s = r[1].copy()
                        out = s.store.pop((fr, 0))
                        return mk('rand', tkey(ty), out), s
        out, s = self.rng(I, st, ref, 0, rty)
        return mk('rand', tkey(ty), out), s

    def m_gen(self, cx):
        out, s = self.rng(cx.I, cx.st, cx.args[0], 0, cx.selfty)
        return mk('rand', tkey(cx.dty), out), s

    # contracts of the repository's own abstract traits (only reached for a type parameter)
    def m_commit(self, cx):
        k, m = cx.D
        q = fresh()
        f = mk('form', 'commit', tkey(cx.selfty))
        n = t.length(k)
        return ite(eq(n, t.length(m)), t.ok(t.SUM(n, q, mul(f, mul(t.idx(k, q), t.idx(m, q))))), t.err(mk('errc', tkey(cx.selfty)))), cx.st

    def m_inner_product(self, cx):
        k, m = cx.D
        q = fresh()
        f = mk('form', 'ip', tkey(cx.selfty))
        n = t.length(k)
        return ite(eq(n, t.length(m)), t.ok(t.SUM(n, q, mul(f, mul(t.idx(k, q), t.idx(m, q))))), t.err(mk('errc', tkey(cx.selfty)))), cx.st

    def m_setup(self, cx):
        v = cx.D[0]
        s = cx.st.copy()
        cx.I.assign(s, cx.args[0], mk('rngadv', v))
        return t.ok(mk('keys', tkey(cx.selfty), v, cx.D[1])), s

    # formatting and misc
    def m_format(self, cx):
        return mk('str', 'fmt'), cx.st

    def m_new_display(self, cx):
        return mk('str', 'arg'), cx.st

    m_new_debug = m_new_display

    def m_to_string(self, cx):
        return mk('str', 'fmt'), cx.st

    def m_write_fmt(self, cx):
        return t.ok(UNIT), cx.st

    def m__print(self, cx):
        return UNIT, cx.st

    m__eprint = m__print

    def m_drop(self, cx):
        return UNIT, cx.st

    def m_panic(self, cx):
        return None

    m_panic_fmt = m_panic
    m_assert_failed = m_panic
    m_unreachable = m_panic
    m_panic_display = m_panic
    m_unwrap_failed = m_panic
    m_expect_failed = m_panic

    def m_join(self, cx):
        if 'rayon' not in cx.p:
            return NotImplemented
        r = self.clocall(cx.I, cx.st, cx.args[0], [])
        if r is None:
            return None
        q = self.clocall(cx.I, r[1], cx.args[1], [])
        return None if q is None else (t.tup(r[0], q[0]), q[1])

    def m_then(self, cx):
        c = cx.D[0]
        outs = []
        s = cx.st.copy(); s.pc = add_pc(s.pc, c)
        r = self.clocall(cx.I, s, cx.args[1], []) if FALSE not in s.pc else None
        if r is not None:
            outs.append((t.some(r[0]), r[1]))
        s = cx.st.copy(); s.pc = add_pc(s.pc, NOT(c))
        if FALSE not in s.pc:
            outs.append((t.NONE, s))
        return self.many(outs)

    def m_then_some(self, cx):
        return t.opt(cx.D[0], cx.D[1]), cx.st


MLO = 'ark_ec::pairing::MillerLoopOutput'
POLY = 'ark_poly::univariate::DensePolynomial'


def find_rng(prog, rt):
    for tr, ims in prog.trait_impls.items():
        if tr.endswith('RngCore'):
            r = prog.find_impl(tr, [rt])
            if r:
                return r
    return None


def mkpoly(c):
    return mk('adt', POLY, 0, c)


def coeffs(v):
    if v.op == 'adt' and v.args[0] == POLY:
        return v.args[2]
    return t.fld(v, 0)


def inv0(x):
    return t.ite(eq(x, ZERO), ZERO, t.inv(x))


def ser(mode, v):
    if v.op == 'tup':
        return t.cat(*[ser(mode, x) for x in v.args])
    return mk('ser', mode, v)


def strip_ref_once(ty):
    return ty['t'] if ty.get('k') == 'ref' else ty


SCHED = mk('sched')
FALLIBLE = {'msm', 'inner_product', 'commit', 'setup', 'serialize_with_mode', 'serialize_compressed', 'serialize_uncompressed', 'check',
            'batch_check', 'deserialize_with_mode', 'deserialize_compressed', 'deserialize_uncompressed', 'deserialize_compressed_unchecked',
            'deserialize_uncompressed_unchecked', 'write_all', 'try_fill_bytes'}


def shuffled(l):
    """a sequence in the order the schedule processes it: forwards or backwards"""
    n, v = t.length(l), fresh()
    return ite(eq(SCHED, ZERO), l, t.MAP(n, v, t.idx(l, sub(sub(n, ONE), v))))


def selective(d):
    """does the iterator skip elements depending on their value?"""
    return d.op in ('dfilter', 'dfmap') or any(selective(x) for x in d.args if hasattr(x, 'op') and x.op.startswith('d') and x.op not in ('dseq', 'discr'))


class Unmodelled(Exception):
    pass


class Ctx:
    def __init__(self, I, st, callee, ga, args, D, dty, env, p, tr, selfty, span):
        self.I, self.st, self.callee, self.ga, self.args, self.D = I, st, callee, ga, args, D
        self.dty, self.env, self.p, self.tr, self.selfty, self.span = dty, env, p, tr, selfty, span
