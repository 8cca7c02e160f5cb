"""Value-graph construction: one forward pass over the control-flow graph of a body, joining states with gated
values at merge points, solving loops through recurrences of the variables they change, and inlining workspace
callees.  Nothing is executed and no solver is consulted: the result of a function is a term over its parameters.
"""
from . import terms as t
from .terms import T, mk, C, ZERO, ONE, TRUE, FALSE, UNIT, NIL, AND, OR, NOT, eq, lt, le, ite, add, sub, mul, fresh
from .mir import tkey, strip_ref, tshow
import itertools


class Give_up(Exception):
    pass


class State:
    __slots__ = ('store', 'pc')

    def __init__(self, store, pc):
        self.store = store
        self.pc = pc

    def copy(self):
        return State(dict(self.store), self.pc)


INB = ('inb',)        # conjunction of bounds conditions met so far
PF, PD, PI, PS = 'pf', 'pd', 'pi', 'ps'


def add_pc(pc, c):
    if c is TRUE:
        return pc
    out = list(pc)
    for x in (c.args if c.op == 'and' else (c,)):
        if x not in out:
            out.append(x)
    return tuple(out)


def pcterm(pc):
    return AND(*pc)


def assume(term, facts):
    """simplify boolean `term` knowing the literals `facts`"""
    rep = {}
    for f in facts:
        rep[f] = TRUE
        rep[t.NOT1(f)] = FALSE
        if f.op not in ('and', 'or'):
            rep[NOT(f)] = FALSE
    rep.pop(TRUE, None)
    rep.pop(FALSE, None)
    return t.replace(term, rep) if rep else term


def merge_states(states, keep=None):
    """gated join"""
    states = [s for s in states if FALSE not in s.pc]
    if not states:
        return None
    states = list(states)
    while len(states) > 1:
        best = None
        for i in range(len(states)):
            for j in range(i + 1, len(states)):
                a, c = states[i].pc, states[j].pc
                n = 0
                while n < len(a) and n < len(c) and a[n] is c[n]:
                    n += 1
                if best is None or n > best[0]:
                    best = (n, i, j)
        n, i, j = best
        A, B = states[i], states[j]
        ra, rb = A.pc[n:], B.pc[n:]
        ta, tb = AND(*ra), AND(*rb)
        if ra and rb and (ra[0] is t.NOT1(rb[0]) or ra[0] is NOT(rb[0])):
            g = ra[0]
        else:
            g = ta
        st = {}
        for c, va in A.store.items():
            vb = B.store.get(c)
            if vb is None:
                continue
            if keep is not None and not keep(c):
                continue
            st[c] = va if va is vb else ite(g, va, vb)
        extra = OR(ta, tb)
        M = State(st, add_pc(A.pc[:n], extra))
        states = [s for q, s in enumerate(states) if q not in (i, j)] + [M]
    s = states[0]
    if keep is not None:
        s = State({c: v for c, v in s.store.items() if keep(c)}, s.pc)
    return s


def get_at(v, path):
    for p in path:
        if p == 'pos':
            v = v.args[1]
        else:
            v = v.args[p]
    return v


def set_at(v, path, x):
    if not path:
        return x
    p = path[0]
    i = 1 if p == 'pos' else p
    a = list(v.args)
    a[i] = set_at(a[i], path[1:], x)
    return mk(v.op, *a)


def diff(a, c, path, out, known):
    if a is c:
        return
    if path in known:
        return
    if a.op == c.op:
        if a.op == 'tup' and len(a.args) == len(c.args):
            for i, (x, y) in enumerate(zip(a.args, c.args)):
                diff(x, y, path + (i,), out, known)
            return
        if a.op == 'adt' and a.args[:2] == c.args[:2] and len(a.args) == len(c.args):
            for i in range(2, len(a.args)):
                diff(a.args[i], c.args[i], path + (i,), out, known)
            return
        if a.op == 'it' and a.args[0] is c.args[0]:
            diff(a.args[1], c.args[1], path + ('pos',), out, known)
            return
        if a.op == 'clo' and a.args[:1] == c.args[:1] and len(a.args) == len(c.args):
            for i in range(1, len(a.args)):
                diff(a.args[i], c.args[i], path + (i,), out, known)
            return
    out.add(path)


class Interp:
    def __init__(self, prog, models):
        self.prog = prog
        self.models = models
        self.nframe = 0
        self.envs = {}
        self.envids = {}
        self.memo = {}
        self.owning = {}
        self.depth = 0
        self.unmodelled = {}     # external callee -> count
        self.inlined = {}
        self.calls = 0
        self.trace = []
        self.work = []           # (enclosing loops, path condition, loop variable, continuation condition, where)
        self.noinline = {}       # path -> callable(interp, st, args, env) overriding inlining

    # ------------------------------------------------------------ environments / callables
    def envid(self, env):
        k = tkey(env)
        if k not in self.envids:
            self.envids[k] = 'E%d' % len(self.envids)
            self.envs[self.envids[k]] = env
        return self.envids[k]

    def fnv(self, callee, env):
        k = 'F' + tkey(callee) + self.envid(env)
        self.envs[k] = (callee, env)
        return mk('fnv', k)

    # ------------------------------------------------------------ places
    def loc_of(self, st, body, f, place, env):
        """-> ('loc', frame, local, path) or ('val', term)"""
        l, proj = place
        cur = ('loc', f, l, ())
        ty = body.locals[l]
        i = 0
        for e in proj:
            k = e[0]
            if k == 'deref':
                if cur[0] == 'loc':
                    v = self.read(st, cur)
                else:
                    v = cur[1]
                if v.op == 'mref':
                    cur = ('loc', v.args[0], v.args[1], v.args[2:])
                if ty is not None:
                    ty = ty.get('t') if ty.get('k') in ('ref', 'ptr') else (ty['a'][0] if ty.get('k') == 'adt' and ty['p'] == 'std::boxed::Box' else None)
                continue
            if k == 'f':
                if ty is not None and ty.get('k') == 'adt' and ty['p'].endswith('pairing::PairingOutput'):
                    v = self.read(st, cur) if cur[0] == 'loc' else cur[1]
                    cur = ('val', t.power(GT, v))
                    ty = None
                    continue
                el = mk(PF, e[1])
            elif k == 'dc':
                el = mk(PD, e[1])
            elif k == 'idx':
                el = mk(PI, st.store[(f, e[1])])
            elif k == 'cidx':
                v = self.read(st, cur) if cur[0] == 'loc' else cur[1]
                el = mk(PI, C(e[1]) if not e[2] else sub(t.length(v), C(e[1])))
            elif k == 'sub':
                v = self.read(st, cur) if cur[0] == 'loc' else cur[1]
                n = t.length(v)
                el = mk(PS, C(e[1]), C(e[2]) if not e[3] else sub(n, C(e[2])))
            else:
                return ('val', mk('ext', 'proj:' + k))
            # type tracking only through references
            if k == 'f' and ty is not None and ty.get('k') == 'tuple':
                ty = ty['a'][e[1]]
            elif k == 'f' and ty is not None and ty.get('k') == 'adt':
                ty = self.field_ty(ty, e[1])
            elif k == 'idx' and ty is not None and ty.get('k') in ('slice', 'array'):
                ty = ty['t']
            else:
                ty = None
            if cur[0] == 'loc':
                cur = cur[:3] + (cur[3] + (el,),)
            else:
                cur = ('val', self.project(cur[1], (el,)))
        return cur

    def field_ty(self, ty, i):
        a = self.prog.adts.get(ty['p'])
        if not a or len(a['variants']) != 1:
            return None
        fs = a['variants'][0][1]
        return fs[i][1] if i < len(fs) else None

    def project(self, v, path):
        i = 0
        while i < len(path):
            p = path[i]
            if p.op == PD:
                if i + 1 < len(path) and path[i + 1].op == PF:
                    v = t.pay(v, p.args[0], path[i + 1].args[0])
                    i += 2
                    continue
                i += 1
                continue
            if p.op == PF:
                v = t.fld(v, p.args[0])
            elif p.op == PI:
                v = t.idx(v, p.args[0])
            elif p.op == PS:
                v = t.slc(v, p.args[0], p.args[1])
            i += 1
        return v

    def read(self, st, loc):
        if loc[0] == 'val':
            return loc[1]
        base = st.store.get((loc[1], loc[2]))
        if base is None:
            return mk('uninit')
        return self.project(base, loc[3])

    def write_in(self, v, path, x):
        if not path:
            return x
        p = path[0]
        if p.op == PF:
            i = p.args[0]
            old = t.fld(v, i)
            new = self.write_in(old, path[1:], x)
            if v.op == 'tup':
                a = list(v.args)
                if i >= len(a):
                    return mk('ext', 'write')
                a[i] = new
                return mk('tup', *a)
            if v.op == 'adt':
                a = list(v.args)
                a[2 + i] = new
                return mk('adt', *a)
            if v.op == 'clo':
                a = list(v.args)
                a[1 + i] = new
                return mk('clo', *a)
            if v.op == 'ite':
                return ite(v.args[0], self.write_in(v.args[1], path, x), self.write_in(v.args[2], path, x))
            return t.setf(v, i, new)
        if p.op == PD:
            if v.op == 'adt' and v.args[1] == p.args[0]:
                return self.write_in(v, path[1:], x)
            if len(path) > 1 and path[1].op == PF:
                if v.op == 'ite':
                    return ite(v.args[0], self.write_in(v.args[1], path, x), self.write_in(v.args[2], path, x))
                new = self.write_in(t.pay(v, p.args[0], path[1].args[0]), path[2:], x)
                return mk('ext', 'setpay', v, p.args[0], path[1].args[0], new)
            return mk('ext', 'setpay', v, x)
        if p.op == PI:
            i = p.args[0]
            return t.upd(v, i, self.write_in(t.idx(v, i), path[1:], x))
        if p.op == PS:
            a, e = p.args
            new = self.write_in(t.slc(v, a, e), path[1:], x)
            q = fresh()
            return t.MAP(t.length(v), q, ite(AND(le(a, q), lt(q, e)), t.idx(new, sub(q, a)), t.idx(v, q)))
        raise Give_up('write')

    def write(self, st, loc, x):
        if loc[0] == 'val':
            return
        c = (loc[1], loc[2])
        if not loc[3]:
            st.store[c] = x
            return
        base = st.store.get(c)
        if base is None or base.op == 'uninit':
            base = mk('uninit')
        st.store[c] = self.write_in(base, loc[3], x)

    # references passed to callees
    def deref(self, st, v):
        """value behind a (possibly mutable) reference"""
        n = 0
        while v.op == 'mref' and n < 8:
            v = self.read(st, ('loc', v.args[0], v.args[1], v.args[2:]))
            n += 1
        if v.op == 'ite' and (v.args[1].op == 'mref' or v.args[2].op == 'mref'):
            return ite(v.args[0], self.deref(st, v.args[1]), self.deref(st, v.args[2]))
        return v

    def assign(self, st, ref, x):
        """*ref = x"""
        if ref.op == 'mref':
            inner = self.read(st, ('loc', ref.args[0], ref.args[1], ref.args[2:]))
            if inner.op == 'mref':
                return self.assign(st, inner, x)
            self.write(st, ('loc', ref.args[0], ref.args[1], ref.args[2:]), x)
            return True
        if ref.op == 'ite':
            a, c = ref.args[1], ref.args[2]
            ok = True
            for r, g in ((a, ref.args[0]), (c, NOT(ref.args[0]))):
                if r.op == 'mref':
                    old = self.deref(st, r)
                    self.assign(st, r, ite(g, x, old))
                else:
                    ok = False
            return ok
        return False

    # ------------------------------------------------------------ operands / rvalues
    def operand(self, st, body, f, o, env):
        if 'c' in o:
            return self.read(st, self.loc_of(st, body, f, o['c'], env))
        if 'm' in o:
            return self.read(st, self.loc_of(st, body, f, o['m'], env))
        k = o['k']
        return self.const(k, env)

    def const(self, k, env):
        ty = k.get('ty', {})
        if 'fn' in k:
            return self.fnv(k['fn'], env)
        if 'bits' in k:
            n = int(k['bits'])
            if ty.get('n') == 'bool':
                return TRUE if n else FALSE
            pn = ty.get('n', '')
            if pn.startswith('i'):
                w = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}.get(pn, 64)
                if n >= 1 << (w - 1):
                    n -= 1 << w
            return C(n)
        if 'uneval' in k:
            b = self.prog.by_path.get(k['uneval'])
            if b is not None and b.nargs == 0:
                r = self.call_body(b, self.bind(b, k.get('ua', []), env), [], State({}, ()))
                if r is not None:
                    return r[0]
            return mk('konst', k['uneval'].split('::')[-1], tkey([self.prog.norm_ty(a, env) for a in k.get('ua', [])]))
        if ty.get('k') == 'tuple' and not ty['a']:
            return UNIT
        if ty.get('k') == 'adt':
            return mk('adt', ty['p'], 0)
        if ty.get('k') == 'ref' and ty['t'].get('n') == 'str':
            return mk('str', k.get('s', ''))
        if ty.get('k') == 'prim' and ty['n'].startswith('f'):
            return t.fconst(k.get('s', ''))
        return mk('konst', k.get('s', '?'), tkey(ty))

    def bind(self, body, gargs, env):
        a = [self.prog.norm_ty(x, env) for x in gargs]
        return dict(zip(body.gn, a))

    def rvalue(self, st, body, f, r, env):
        k = r[0]
        O = lambda o: self.operand(st, body, f, o, env)
        if k == 'use':
            return O(r[1])
        if k == 'ref':
            loc = self.loc_of(st, body, f, r[2], env)
            if r[1] == 'mut' and loc[0] == 'loc':
                return mk('mref', loc[1], loc[2], *loc[3])
            return self.read(st, loc)
        if k == 'rawptr':
            loc = self.loc_of(st, body, f, r[1], env)
            if loc[0] == 'loc':
                return mk('mref', loc[1], loc[2], *loc[3])
            return loc[1]
        if k == 'agg':
            ops = [O(o) for o in r[2]]
            ak = r[1]
            if ak[0] == 'array':
                return t.lst(*ops)
            if ak[0] == 'tuple':
                return t.tup(*ops)
            if ak[0] == 'adt':
                p = ak[1]
                if p.endswith('pairing::PairingOutput'):
                    return gtlog(ops[0])
                return mk('adt', p, ak[2], *ops)
            if ak[0] == 'closure':
                self.envs.setdefault('clo', {})
                return mk('clo', ak[1] + '#' + self.envid(env), *ops)
            return mk('ext', 'agg:' + ak[0], *ops)
        if k == 'discr':
            loc = self.loc_of(st, body, f, r[1], env)
            return mk('discr', self.read(st, loc))
        if k == 'bin':
            if self.models.strict and r[1] == 'SubWithOverflow' and self.op_ty(body, r[2]).get('n', '').startswith('u'):
                a, c = O(r[2]), O(r[3])
                return t.tup(t.sub(a, c), lt(a, c))
            if r[1] in ('Div', 'Rem') and self.op_ty(body, r[2]).get('n', '').startswith('f'):
                return mk('fdiv' if r[1] == 'Div' else 'frem', O(r[2]), O(r[3]))
            return self.models.binop(r[1], O(r[2]), O(r[3]))
        if k == 'un':
            return self.models.unop(r[1], O(r[2]))
        if k == 'cast':
            return self.models.cast(r[1], O(r[2]), self.prog.norm_ty(r[3], env))
        if k == 'repeat':
            try:
                n = int(str(r[2]).split('_')[0])
            except ValueError:
                return mk('ext', 'repeat', O(r[1]))
            x = O(r[1])
            return t.MAP(C(n), fresh(), x)
        return mk('ext', 'rvalue:' + str(k))

    # ------------------------------------------------------------ bodies
    def has_mref(self, v, seen=None):
        if v.op == 'mref':
            return True
        if seen is None:
            seen = set()
        if v in seen:
            return False
        seen.add(v)
        for a in v.args:
            if isinstance(a, T) and self.has_mref(a, seen):
                return True
        return False

    def call_body(self, body, env, args, st):
        """inline: -> (value, state) or None when the callee never returns"""
        ov = self.noinline.get(body.path)
        if ov is not None:
            return ov(self, st, args, env)
        self.calls += 1
        self.inlined[body.path] = self.inlined.get(body.path, 0) + 1
        pure = not any(self.has_mref(a) for a in args)
        key = None
        if pure:
            key = (body.id, self.envid(env), tuple(a.id for a in args), tuple(sorted((v.id, x.id) for v, x in t.LENFACTS.items())))
            m = self.memo.get(key)
            if m is not None:
                if m == 'div':
                    return None
                v, pcs, inb, did = m
                self.work += self.under(st.pc, did)
                s2 = st.copy()
                for c in pcs:
                    s2.pc = add_pc(s2.pc, c)
                s2.store[INB] = AND(s2.store.get(INB, TRUE), inb)
                return v, s2
        if self.depth > 60:
            raise Give_up('inline depth')
        self.depth += 1
        try:
            self.nframe += 1
            f = self.nframe
            mark = len(self.work)
            s = State(dict(st.store), st.pc) if not pure else State({}, ())
            for i, a in enumerate(args):
                s.store[(f, i + 1)] = a
            cfg = body.cfg()
            if cfg.irreducible:
                raise Give_up('irreducible CFG in ' + body.path)
            back, exits = self.run_region(body, f, env, set(cfg.rpo), 0, s, False)
            rets = [x for tag, x in exits if tag == 'ret']
            m = merge_states(rets)
            if m is None:
                if key is not None:
                    self.memo[key] = 'div'
                return None
            v = m.store.get((f, 0), UNIT)
            if v.op == 'uninit':
                v = UNIT
            inb = m.store.get(INB, TRUE)
            st2 = {c: x for c, x in m.store.items() if c[0] != f}
            if pure:
                did = self.work[mark:]
                self.memo[key] = (v, m.pc, inb, did)
                self.work[mark:] = self.under(st.pc, did)
                s2 = st.copy()
                for c in m.pc:
                    s2.pc = add_pc(s2.pc, c)
                s2.store[INB] = AND(s2.store.get(INB, TRUE), inb)
                return v, s2
            return v, State(st2, m.pc)
        finally:
            self.depth -= 1

    def under(self, pc, did):
        """operations performed by a call that was analysed on its own, seen from a path with condition pc"""
        if not pc or not did:
            return did
        return [(lv, f, tuple(pc) + tuple(g), w) if not lv else ([(lv[0][0], lv[0][1], tuple(pc) + tuple(lv[0][2]))] + list(lv[1:]), f, g, w)
                for lv, f, g, w in did]

    def keepfn(self, body, f, b):
        live = body.cfg().liveness(body)[b]
        mb = getattr(body, '_mb', None)
        if mb is None:
            mb = set()
            for st, tm, _ in body.blocks:
                for s in st:
                    if s[0] == '=' and s[2][0] == 'ref' and s[2][1] == 'mut' and not any(e[0] == 'deref' for e in s[2][2][1]):
                        mb.add(s[2][2][0])
                    if s[0] == '=' and s[2][0] == 'rawptr':
                        mb.add(s[2][1][0])
            body._mb = mb
        return lambda c: c[0] != f or c[1] in live or c[1] in mb or c[1] == 0

    def run_region(self, body, f, env, blocks, entry, st, is_loop):
        """execute the acyclic skeleton of `blocks` from `entry`.
        -> (back states merged | None, exits [(target block or 'ret', State)])"""
        cfg = body.cfg()
        pending = {entry: [st]}
        backs = []
        exits = []
        done = set()

        def edge(src, dst, s):
            if FALSE in s.pc:
                return
            if dst not in cfg.canret:
                return
            if is_loop and dst == entry:
                backs.append(s)
            elif dst not in blocks:
                exits.append((dst, s))
            else:
                pending.setdefault(dst, []).append(s)
        for b in cfg.rpo:
            if b not in blocks or b not in pending:
                continue
            if b in done:
                continue
            ss = pending.pop(b)
            s = merge_states(ss, self.keepfn(body, f, b))
            if s is None:
                continue
            if b in cfg.loops and not (is_loop and b == entry):
                lb = cfg.loops[b]
                keep = self.keepfn(body, f, b)
                s = State({c: v for c, v in s.store.items() if keep(c)}, s.pc)
                r = self.loop_fix(s, lambda s0: self.run_region(body, f, env, lb, b, s0, True), body.path)
                done |= lb
                for tag, x in r:
                    if tag == 'ret':
                        exits.append((tag, x))
                    else:
                        edge(b, tag, x)
                continue
            self.run_block(body, f, env, b, s, edge, exits)
        back = merge_states(backs) if backs else None
        return back, exits

    def run_block(self, body, f, env, b, s, edge, exits):
        st, term, _ = body.blocks[b]
        s = s.copy()
        for x in st:
            if x[0] == '=':
                pl = x[1]
                v = self.rvalue(s, body, f, x[2], env)
                ty = body.locals[pl[0]]
                if pl[1] and ty.get('k') == 'adt' and ty['p'] == 'std::boxed::Box' and ty['a'] and ty['a'][0].get('k') == 'adt' \
                        and ty['a'][0]['p'].endswith('MaybeUninit'):
                    s.store[(f, pl[0])] = v
                    continue
                self.write(s, self.loc_of(s, body, f, pl, env), v)
            elif x[0] == 'dead':
                s.store.pop((f, x[1]), None)
        k = term[0]
        if k == 'return':
            exits.append(('ret', s))
        elif k == 'goto':
            edge(b, term[1], s)
        elif k == 'drop':
            edge(b, term[1], s)
        elif k == 'switch':
            v = self.operand(s, body, f, term[1], env)
            rest = TRUE
            arms = term[2]
            ot = term[3]
            ot_unreach = ot is None or body.blocks[ot][1][0] == 'unreachable'
            isb = self.op_ty(body, term[1]).get('n') == 'bool'
            for i, (val, dst) in enumerate(arms):
                c = (v if int(val) else NOT(v)) if isb else self.switch_cond(v, int(val))
                c2 = AND(rest, c)
                if i == len(arms) - 1 and ot_unreach:
                    c2 = rest if c is not FALSE else FALSE
                rest = AND(rest, NOT(c))
                n = s.copy()
                n.pc = add_pc(s.pc, self.simp(c2, s.pc))
                edge(b, dst, n)
            if not ot_unreach:
                n = s.copy()
                n.pc = add_pc(s.pc, self.simp(rest, s.pc))
                edge(b, ot, n)
        elif k == 'assert':
            v = self.operand(s, body, f, term[1], env)
            c = v if term[2] else NOT(v)
            c = self.simp(c, s.pc)
            if term[3] in ('bounds',):
                s.store[INB] = AND(s.store.get(INB, TRUE), c)
            else:
                s.pc = add_pc(s.pc, c)
            edge(b, term[4], s)
        elif k == 'call':
            fn = self.operand(s, body, f, term[1], env)
            args = [self.operand(s, body, f, a, env) for a in term[2]]
            dty = self.prog.norm_ty(self.place_ty(body, term[3]), env)
            r = self.call(s, fn, args, dty, span=term[5])
            if r is None or term[4] is None:
                return
            v, s2 = r
            s2 = s2.copy()
            self.write(s2, self.loc_of(s2, body, f, term[3], env), v)
            edge(b, term[4], s2)
        # unreachable etc.: no edge

    def op_ty(self, body, o):
        if 'k' in o:
            return o['k'].get('ty', {})
        return self.place_ty(body, o.get('c') or o.get('m'))

    def place_ty(self, body, pl):
        ty = body.locals[pl[0]]
        for e in pl[1]:
            if ty is None:
                break
            if e[0] == 'deref':
                ty = ty.get('t') if ty.get('k') in ('ref', 'ptr') else None
            elif e[0] == 'f' and ty.get('k') == 'tuple':
                ty = ty['a'][e[1]]
            elif e[0] == 'f' and ty.get('k') == 'adt':
                ty = self.field_ty(ty, e[1])
            else:
                ty = None
        return ty or {'k': 'other', 's': '?'}

    def simp(self, c, pc):
        if c is TRUE or c is FALSE:
            return c
        if c in pc:
            return TRUE
        if t.NOT1(c) in pc or NOT(c) in pc:
            return FALSE
        return c

    def switch_cond(self, v, val):
        if v.op == 'discr':
            return t.isvar(v.args[0], val)
        if v is TRUE or v is FALSE:
            return TRUE if (v is TRUE) == (val == 1) else FALSE
        if t.isbool(v):
            return v if val == 1 else NOT(v)
        return eq(v, C(val))

    # ------------------------------------------------------------ loops
    def loop_fix(self, st, bodyfn, where=''):
        base_pc = st.pc
        phis = {}
        store0 = dict(st.store)
        rounds = 0
        mark = len(self.work)
        while True:
            del self.work[mark:]
            rounds += 1
            if rounds > 25:
                raise Give_up('loop does not stabilise in ' + where)
            s0 = dict(store0)
            for (c, path), v in phis.items():
                s0[c] = set_at(s0[c], path, v)
            back, exits = bodyfn(State(s0, ()))
            if back is None:
                # the body never comes back: straight-line code
                if phis:
                    raise Give_up('inconsistent loop in ' + where)
                out = []
                for tag, x in exits:
                    y = x.copy()
                    pc = base_pc
                    for l in x.pc:
                        pc = add_pc(pc, l)
                    y.pc = pc
                    out.append((tag, y))
                return out
            new = set()
            dead = []
            for c, v in s0.items():
                nb = back.store.get(c)
                if nb is None:
                    dead.append(c)
                    continue
                known = {p for (cc, p) in phis if cc == c}
                out = set()
                diff(v, nb, (), out, known)
                for p in out:
                    new.add((c, p))
            for c in dead:
                store0.pop(c, None)
                for q in [q for q in phis if q[0] == c]:
                    del phis[q]
            if not new and not dead:
                break
            for (c, p) in new:
                for q in [q for q in phis if q[0] == c and q[1][:len(p)] == p]:
                    del phis[q]
                phis[(c, p)] = fresh('x')
        keys = list(phis)
        vs = [phis[q] for q in keys]
        inits = [get_at(store0[c], p) for c, p in keys]
        nexts = []
        for c, p in keys:
            v = back.store[c]
            try:
                nexts.append(get_at(v, p))
            except Exception:
                raise Give_up('loop-carried value changes shape in ' + where)
        kv = fresh('k')
        lits = []
        for x in back.pc:
            lits += list(x.args) if x.op == 'and' else [x]
        nexts = [assume(x, lits) for x in nexts]
        sols = t.solve_group(kv, vs, inits, nexts)
        sigma = dict(zip(vs, sols))
        S = lambda x: t.subst(x, sigma)
        B = [S(x) for x in back.pc]
        self.work[mark:] = [([(kv, AND(*B), base_pc)] + [(q, S(c), tuple(S(y) for y in g)) for q, c, g in lv], S(sz) if sz is not None else None,
                             tuple(S(y) for y in g), w) for lv, sz, g, w in self.work[mark:]]
        self.work.append(([(kv, AND(*B), base_pc)], None, (), where))
        Bl = []
        for x in B:
            Bl += list(x.args) if x.op == 'and' else [x]
        EX = []
        for tag, x in exits:
            E = []
            for y in x.pc:
                y = S(y)
                E += list(y.args) if y.op == 'and' else [y]
            if FALSE in E:
                continue
            EX.append((tag, x, E))
        if FALSE in Bl:
            # one pass only
            Bl = [FALSE]
        if not EX:
            return []
        # decision literal of every exit: first one whose negation the continuing path has (or is missing from it)
        dec = []
        Bset = set(Bl)
        for tag, x, E in EX:
            d = None
            for i, y in enumerate(E):
                if y in Bset:
                    continue
                if t.NOT1(y) in Bset or NOT(y) in Bset:
                    d = i
                    break
            if d is None:
                # no single literal is refuted by the continuing path: the whole condition decides
                w = [y for y in E if y not in Bset]
                if w:
                    E[:] = [y for y in E if y in Bset] + [AND(*w)]
                    d = len(E) - 1
            dec.append(d)
        res = []
        # common guards: literals of B that are not negations of any decision literal
        decl = [E[d] if d is not None else TRUE for (tag, x, E), d in zip(EX, dec)]
        negs = set()
        for y in decl:
            negs.add(t.NOT1(y))
            negs.add(NOT(y))
        guards = [y for y in Bl if y not in negs]
        # main exit: decision literal with a closed trip count
        mains = []
        for i, y in enumerate(decl):
            if y is TRUE:
                mains.append((0, i, ZERO))
                continue
            n = t.MU(kv, y)
            if n.op != 'mu':
                mains.append((dec[i], i, n))
        mains.sort(key=lambda z: (z[0], z[1]))

        def emit(i, n, extra_pc):
            tag, x, E = EX[i]
            pc = base_pc
            for l in extra_pc:
                pc = add_pc(pc, l)
            if kv is not n:
                fin = lambda v: t.subst(S(v), {kv: n})
            for y in E:
                if y is decl[i] or y in negs:
                    continue
                z = t.subst(y, {kv: n})
                pc = add_pc(pc, z)
            stn = {}
            for c, v in x.store.items():
                stn[c] = fin(v)
            if FALSE in pc:
                return
            res.append((tag, State(stn, pc)))

        def all_before(n, lits, knows):
            out = []
            for g in lits:
                g2 = assume(g, knows)
                out.append(t.ALL(n, kv, g2))
            return out
        if mains:
            _, mi, n = mains[0]
            others = [i for i in range(len(EX)) if i != mi]
            know = [NOT(decl[mi])]
            Dl = []
            oc = FALSE
            same_dec = [i for i in others if decl[i] is decl[mi]]
            others = [i for i in others if i not in same_dec]
            for i in others:
                e = AND(*[y for y in EX[i][2] if y not in Bset])
                e = assume(e, know)
                oc = OR(oc, e)
            if others:
                D = t.ALL(n, kv, NOT(oc))
            else:
                D = TRUE
            g = all_before(n, guards, know)
            for i in [mi] + same_dec:
                ex = [EX[i][2][q] for q in range(len(EX[i][2])) if EX[i][2][q] not in Bset and EX[i][2][q] is not decl[mi]]
                emit(i, n, [D] + g)
            if others and D is not TRUE:
                n2 = t.MU(kv, oc)
                for i in others:
                    e = AND(*[y for y in EX[i][2] if y not in Bset or y in negs])
                    e = assume(e, know)
                    sel = [] if len(others) == 1 else [t.subst(e, {kv: n2})]
                    gg = all_before(n2, guards, know)
                    emit(i, n2, [NOT(D)] + sel + gg)
        else:
            oc = OR(*decl)
            n = t.MU(kv, oc)
            prev = TRUE
            gg = all_before(n, guards, [NOT(y) for y in decl])
            for i in range(len(EX)):
                if len(EX) == 1:
                    emit(i, n, gg)
                else:
                    e = t.subst(AND(*[y for y in EX[i][2] if y not in Bset or y in negs]), {kv: n})
                    emit(i, n, [e] + gg)
        return res

    # ------------------------------------------------------------ iteration over descriptors
    def drive(self, st, desc, f, accs=()):
        """consume iterator `desc`: f(state, elem, accs) -> [(kind, state, accs)], kind 'cont' or a break tag.
        Hidden accumulators live in private cells.  -> [(tag, state, accs)] with tag 'end' or the break tags"""
        self.nframe += 1
        fr = ('acc', self.nframe)
        s = st.copy()
        s.store[(fr, 'p')] = ZERO
        for i, a in enumerate(accs):
            s.store[(fr, i)] = a
        n = self.models.dlen(self, desc)

        def bodyfn(s0):
            p = s0.store[(fr, 'p')]
            c = lt(p, n)
            end = s0.copy()
            end.pc = add_pc(s0.pc, NOT(c))
            exits = [('end', end)]
            s1 = s0.copy()
            s1.pc = add_pc(s0.pc, c)
            backs = []
            if FALSE not in s1.pc:
                for x, s2, keepc in self.models.delem(self, s1, desc, p):
                    if keepc is FALSE:
                        continue
                    cur = [s2.store[(fr, i)] for i in range(len(accs))]
                    if keepc is not TRUE:
                        skip = s2.copy()
                        skip.pc = add_pc(s2.pc, NOT(keepc))
                        skip.store[(fr, 'p')] = add(p, ONE)
                        backs.append(skip)
                        s2 = s2.copy()
                        s2.pc = add_pc(s2.pc, keepc)
                    for kind, s3, acc2 in f(s2, x, cur):
                        s4 = s3.copy()
                        for i, a in enumerate(acc2):
                            s4.store[(fr, i)] = a
                        if kind == 'cont':
                            s4.store[(fr, 'p')] = add(p, ONE)
                            backs.append(s4)
                        else:
                            exits.append((kind, s4))
            return merge_states(backs) if backs else None, exits
        out = []
        for tag, x in self.loop_fix(s, bodyfn, 'iterator'):
            a = [x.store[(fr, i)] for i in range(len(accs))]
            stn = {c: v for c, v in x.store.items() if c[0] != fr}
            out.append((tag, State(stn, x.pc), a))
        return out

    # ------------------------------------------------------------ calls
    def call(self, st, fn, args, dty, span=''):
        ref = None
        if fn.op == 'mref':
            ref = fn
            for _ in range(8):
                q = self.read(st, ('loc', ref.args[0], ref.args[1], ref.args[2:]))
                if q.op != 'mref':
                    break
                ref = q
            fn = self.deref(st, fn)
        if fn.op == 'clo':
            return self.call_clo(st, fn, args, dty, ref)
        if fn.op == 'fnv':
            callee, env = self.envs[fn.args[0]]
            return self.call_fn(st, callee, env, args, dty, span)
        self.unmodelled['indirect call'] = self.unmodelled.get('indirect call', 0) + 1
        return mk('ext', 'indirect', fn, *[self.deref(st, a) for a in args]), st

    def owns_state(self, fn):
        """a closure that changes variables it has captured by value"""
        if fn.op != 'clo' or all(x.op == 'mref' for x in fn.args[1:]):
            return False
        b = self.prog.bodies.get(fn.args[0].split('#E')[0])
        if b is None:
            return False
        if b.id not in self.owning:
            ty = b.locals[1]

            def own(pl):
                return pl[0] == 1 and len(pl[1]) > 1 and pl[1][0][0] == 'deref' and all(e[0] != 'deref' for e in pl[1][1:])
            r = False
            if ty.get('k') == 'ref' and ty.get('m'):
                for blk in b.blocks:
                    for q in blk[0]:
                        if q[0] == '=' and (own(q[1]) or (q[2][0] == 'ref' and q[2][1] == 'mut' and own(q[2][2]))):
                            r = True
                    if blk[1][0] == 'call' and own(blk[1][3]):
                        r = True
            self.owning[b.id] = r
        return self.owning[b.id]

    def call_clo(self, st, fn, args, dty, ref=None):
        cid, eid = fn.args[0].split('#E')
        b = self.prog.bodies[cid]
        env = self.envs['E' + eid]
        a = [ref if ref is not None and self.owns_state(fn) else fn] + list(args)
        return self.call_body(b, env, a, st)

    def call_fn(self, st, callee, env, args, dty, span=''):
        p = callee['p']
        ga = [self.prog.norm_ty(x, env) for x in callee['a']]
        # trait method: resolve through workspace impls
        tr = callee.get('trait')
        name = callee['n']
        if tr:
            for spec in (1,):
                nt = self.ntargs(tr, ga, callee)
            im = self.prog.find_impl(tr, nt)
            if im is not None:
                impl, m = im
                d = dict((a, c) for a, c in impl['items'])
                if name in d:
                    b = self.prog.bodies.get(d[name])
                    if b is not None and not (b.expn and (name in DERIVED_OK or tr in DERIVED_TRAITS)):
                        env2 = dict(m)
                        # method generics follow the impl's
                        own = [g for g in b.gn if g not in m]
                        rest = ga[len(nt):]
                        for g, x in zip(own, rest):
                            env2[g] = x
                        return self.call_body(b, env2, args, st)
                    if b is not None and b.expn:
                        return self.models.call(self, st, callee, ga, args, dty, env, span)
                dflt = self.prog.trait_defaults.get((tr, name))
                if dflt is not None:
                    env2 = {'Self': nt[0]}
                    for g, x in zip(dflt.gn, ga):
                        env2[g] = x
                    return self.call_body(dflt, env2, args, st)
            dflt = self.prog.trait_defaults.get((tr, name))
            if dflt is not None and not callee.get('r'):
                env2 = {'Self': ga[0]}
                for g, x in zip(dflt.gn, ga):
                    env2[g] = x
                return self.call_body(dflt, env2, args, st)
            return self.models.call(self, st, callee, ga, args, dty, env, span)
        b = self.prog.bodies.get(callee['d'])
        if b is None:
            b = self.prog.by_path.get(p)
        if b is not None:
            return self.call_body(b, dict(zip(b.gn, ga)), args, st)
        return self.models.call(self, st, callee, ga, args, dty, env, span)

    def ntargs(self, tr, ga, callee):
        # generic args of the trait itself come first: names tell method generics apart only by count
        imps = self.prog.trait_impls.get(tr)
        if imps:
            n = len(imps[0]['targs'])
            return ga[:n]
        return ga[:1]


DERIVED_OK = {'clone', 'eq', 'ne', 'default', 'fmt', 'assert_receiver_is_total_eq'}
DERIVED_TRAITS = {'std::clone::Clone', 'std::cmp::PartialEq', 'std::default::Default'}

GT = mk('gt')


def gtlog(x):
    """PairingOutput from a target-field element"""
    if x.op == 'pw' and x.args[0] is GT:
        return x.args[1]
    if x is GT:
        return ONE
    if x is ONE:
        return ZERO
    return mk('gtlog', x)
