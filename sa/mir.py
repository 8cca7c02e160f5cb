"""The extracted program: bodies, impls, types, CFG structure."""
import json, os, glob


def tkey(t):
    return json.dumps(t, sort_keys=True)


def subst_ty(t, env):
    if not env:
        return t
    k = t.get('k')
    if k == 'param':
        return env.get(t['n'], t)
    if k in ('adt', 'proj', 'tuple', 'closure', 'fndef'):
        r = dict(t)
        r['a'] = [subst_ty(x, env) for x in t.get('a', [])]
        return r
    if k in ('ref', 'ptr', 'slice', 'array'):
        r = dict(t)
        r['t'] = subst_ty(t['t'], env)
        return r
    return t


def unify(pat, t, m):
    """match impl-side type pattern against a concrete type; params in pat bind"""
    k = pat.get('k')
    if k == 'param':
        n = pat['n']
        if n in m:
            return tkey(m[n]) == tkey(t)
        m[n] = t
        return True
    if k != t.get('k'):
        return False
    if k == 'adt':
        if pat['p'] != t['p'] or len(pat['a']) != len(t['a']):
            return False
        return all(unify(a, b, m) for a, b in zip(pat['a'], t['a']))
    if k in ('ref', 'ptr', 'slice', 'array'):
        return unify(pat['t'], t['t'], m)
    if k == 'tuple':
        return len(pat['a']) == len(t['a']) and all(unify(a, b, m) for a, b in zip(pat['a'], t['a']))
    if k == 'proj':
        return True   # projections in impl headers: not decidable here, accept
    return tkey(pat) == tkey(t)


def strip_ref(t):
    while t.get('k') in ('ref', 'ptr') or (t.get('k') == 'adt' and t['p'] == 'std::boxed::Box'):
        t = t['t'] if t['k'] != 'adt' else t['a'][0]
    return t


class Body:
    def __init__(self, j, crate):
        self.id = j['id']
        self.path = j['path']
        self.kind = j['kind']
        self.name = j['name']
        self.span = j['span']
        self.expn = j['expn']
        self.gn = j['gn']
        self.pub = j['pub']
        self.impl = j.get('impl')
        self.trait_default = j.get('trait_default_of')
        self.unsafe = j.get('unsafe', False)
        self.crate = crate
        b = j['body']
        self.nargs = b['args']
        self.locals = b['locals']
        self.names = b['names']
        self.blocks = b['blocks']
        self._cfg = None

    # ---- CFG
    def succs(self, i):
        t = self.blocks[i][1]
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            r = [x[1] for x in t[2]]
            if t[3] is not None:
                r.append(t[3])
            out = []
            for x in r:
                if x not in out:
                    out.append(x)
            return out
        if k == 'drop':
            return [t[1]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[4]]
        return []

    def cfg(self):
        if self._cfg is None:
            self._cfg = CFG(self)
        return self._cfg


class CFG:
    def __init__(self, body):
        n = len(body.blocks)
        self.succ = [body.succs(i) for i in range(n)]
        # blocks from which a return is reachable
        pred = [[] for _ in range(n)]
        for i in range(n):
            for s in self.succ[i]:
                pred[s].append(i)
        live = set()
        st = [i for i in range(n) if body.blocks[i][1][0] == 'return']
        while st:
            x = st.pop()
            if x in live:
                continue
            live.add(x)
            st.extend(pred[x])
        self.canret = live
        self.succ = [[s for s in ss if s in live] for ss in self.succ]
        order = []
        seen = set()
        # iterative DFS for reverse postorder
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            x, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(x)
                stack.pop()
        order.reverse()
        self.rpo = order
        self.num = {b: i for i, b in enumerate(order)}
        self.pred = [[p for p in pred[i] if p in seen and i in self.succ[p]] for i in range(n)]
        self._dom()
        self._loops()

    def _dom(self):
        idom = {self.rpo[0]: self.rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while self.num[x] > self.num[y]:
                                    x = idom[x]
                                while self.num[y] > self.num[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == self.rpo[0]:
                return False
            b = self.idom[b]

    def _loops(self):
        self.loops = {}
        self.irreducible = False
        for b in self.rpo:
            for s in self.succ[b]:
                if self.num[s] <= self.num[b]:
                    if not self.dominates(s, b):
                        self.irreducible = True
                        continue
                    L = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in L:
                            continue
                        L.add(x)
                        st.extend(self.pred[x])

    def liveness(self, body):
        """block -> locals that may be read (or are borrowed) later; conservative"""
        if hasattr(self, '_live'):
            return self._live
        n = len(body.blocks)
        gen = [set() for _ in range(n)]
        kill = [set() for _ in range(n)]

        def use(i, l):
            if l not in kill[i]:
                gen[i].add(l)

        def upl(i, p):
            use(i, p[0])
            for e in p[1]:
                if e[0] == 'idx':
                    use(i, e[1])

        def uop(i, o):
            if 'c' in o:
                upl(i, o['c'])
            elif 'm' in o:
                upl(i, o['m'])

        def urv(i, r):
            k = r[0]
            if k in ('use', 'repeat'):
                uop(i, r[1])
            elif k == 'ref':
                upl(i, r[2])
            elif k == 'rawptr':
                upl(i, r[1])
            elif k == 'cast':
                uop(i, r[2])
            elif k == 'bin':
                uop(i, r[2]); uop(i, r[3])
            elif k == 'un':
                uop(i, r[2])
            elif k == 'discr':
                upl(i, r[1])
            elif k == 'agg':
                for o in r[2]:
                    uop(i, o)

        def dst(i, p):
            if p[1]:
                upl(i, p)
            else:
                kill[i].add(p[0])
        for i in self.rpo:
            st, t, _ = body.blocks[i]
            for s in st:
                if s[0] == '=':
                    urv(i, s[2])
                    dst(i, s[1])
                elif s[0] == 'dead':
                    kill[i].add(s[1])
            if t[0] == 'switch':
                uop(i, t[1])
            elif t[0] == 'call':
                uop(i, t[1])
                for a in t[2]:
                    uop(i, a)
                dst(i, t[3])
            elif t[0] == 'assert':
                uop(i, t[1])
            elif t[0] == 'return':
                use(i, 0)
        # a borrowed local stays live until its storage dies: treat `ref` of a local as making it live throughout
        live = [set(g) for g in gen]
        ch = True
        while ch:
            ch = False
            for i in reversed(self.rpo):
                o = set()
                for s in self.succ[i]:
                    o |= live[s]
                o -= kill[i]
                o |= gen[i]
                if o != live[i]:
                    live[i] = o
                    ch = True
        self._live = live
        return live


class Program:
    def __init__(self, outdir):
        self.crates = {}
        self.bodies = {}
        self.by_path = {}
        self.impls = []
        self.adts = {}
        self.statics = []
        self.unsafe_blocks = []
        self.unsafe_items = []
        self.files = []
        self.errors = []
        for f in sorted(glob.glob(os.path.join(outdir, '*.json'))):
            j = json.load(open(f))
            self.crates[j['crate']] = j
            self.errors += j['errors']
            for b in j['bodies']:
                bo = Body(b, j['crate'])
                self.bodies[bo.id] = bo
                self.by_path.setdefault(bo.path, bo)
            self.impls += [dict(i, crate=j['crate']) for i in j['impls']]
            for a in j['adts']:
                self.adts[a['path']] = a
            self.statics += j['statics']
            self.unsafe_blocks += j['unsafe_blocks']
            self.unsafe_items += j.get('unsafe_items', [])
            self.files += j['files']
        self.trait_impls = {}
        self.body_impl = {}
        for i in self.impls:
            if i.get('trait'):
                self.trait_impls.setdefault(i['trait'], []).append(i)
            for n, d in i['items']:
                self.body_impl[d] = i
        self.trait_defaults = {}
        for b in self.bodies.values():
            if b.trait_default:
                self.trait_defaults[(b.trait_default, b.name)] = b

    def find_impl(self, trait, targs):
        """impl of `trait` (generic args targs, self first) among workspace impls -> (impl, binding)"""
        for i in self.trait_impls.get(trait, []):
            m = {}
            ta = i['targs']
            if len(ta) and unify(ta[0], targs[0], m) and all(unify(a, b, m) for a, b in zip(ta[1:], targs[1:])):
                return i, m
        return None

    def norm_ty(self, t, env=None, depth=0):
        """substitute generics and resolve projections through workspace impls"""
        if env:
            t = subst_ty(t, env)
        return self._norm(t, depth)

    def _norm(self, t, depth=0):
        k = t.get('k')
        if depth > 20:
            return t
        if k in ('adt', 'tuple', 'closure', 'fndef'):
            r = dict(t)
            r['a'] = [self._norm(x, depth + 1) for x in t.get('a', [])]
            return r
        if k in ('ref', 'ptr', 'slice', 'array'):
            r = dict(t)
            r['t'] = self._norm(t['t'], depth + 1)
            return r
        if k == 'proj':
            a = [self._norm(x, depth + 1) for x in t['a']]
            if a:
                im = self.find_impl(t['t'], a) if a[0].get('k') != 'param' and a[0].get('k') != 'proj' else None
                if im:
                    for n, ty in im[0]['types']:
                        if n == t['n']:
                            return self._norm(subst_ty(ty, im[1]), depth + 1)
            r = dict(t)
            r['a'] = a
            return r
        return t


def tshow(t):
    k = t.get('k')
    if k == 'adt':
        return t['p'].split('::')[-1] + ('<' + ','.join(tshow(x) for x in t['a']) + '>' if t['a'] else '')
    if k == 'param':
        return t['n']
    if k == 'ref':
        return '&' + ('mut ' if t.get('m') else '') + tshow(t['t'])
    if k == 'slice':
        return '[' + tshow(t['t']) + ']'
    if k == 'array':
        return '[' + tshow(t['t']) + ';' + str(t['n']) + ']'
    if k == 'tuple':
        return '(' + ','.join(tshow(x) for x in t['a']) + ')'
    if k == 'proj':
        return '<%s>::%s' % (tshow(t['a'][0]) if t['a'] else '?', t['n'])
    if k == 'prim':
        return t['n']
    if k == 'closure':
        return 'closure'
    if k == 'fndef':
        return 'fn ' + t['p']
    return str(t)


# ---------------------------------------------------------------- text dump (debugging)
def pplace(p):
    s = '_%d' % p[0]
    for e in p[1]:
        if e[0] == 'deref':
            s = '(*%s)' % s
        elif e[0] == 'f':
            s += '.%d' % e[1]
        elif e[0] == 'idx':
            s += '[_%d]' % e[1]
        elif e[0] == 'dc':
            s = '(%s as %s)' % (s, e[2])
        else:
            s += str(e)
    return s


def pop(o):
    if 'c' in o:
        return pplace(o['c'])
    if 'm' in o:
        return 'move ' + pplace(o['m'])
    k = o['k']
    if 'fn' in k:
        return k['fn']['p']
    return 'const ' + str(k.get('bits', k.get('s')))


def prv(r):
    k = r[0]
    if k == 'use':
        return pop(r[1])
    if k == 'ref':
        return '&%s %s' % (r[1], pplace(r[2]))
    if k == 'agg':
        return 'agg %s(%s)' % (r[1][:2], ', '.join(pop(o) for o in r[2]))
    if k == 'bin':
        return '%s(%s, %s)' % (r[1], pop(r[2]), pop(r[3]))
    if k == 'un':
        return '%s(%s)' % (r[1], pop(r[2]))
    if k == 'cast':
        return 'cast %s %s as %s' % (r[1], pop(r[2]), tshow(r[3]))
    if k == 'discr':
        return 'discr ' + pplace(r[1])
    if k == 'rawptr':
        return '&raw ' + pplace(r[1])
    return str(r)


def dump(b):
    out = ['fn %s  [%s] args=%d' % (b.path, b.span, b.nargs)]
    for i, l in enumerate(b.locals):
        nm = [n for n, p in b.names if p[0] == i and not p[1]]
        out.append('  let _%d: %s %s' % (i, tshow(l), nm or ''))
    c = b.cfg()
    for i in c.rpo:
        st, t, cl = b.blocks[i]
        out.append(' bb%d:%s' % (i, ' LOOP' if i in c.loops else ''))
        for s in st:
            if s[0] == '=':
                out.append('    %s = %s' % (pplace(s[1]), prv(s[2])))
        if t[0] == 'call':
            out.append('    %s = %s(%s) -> %s   // %s' % (pplace(t[3]), pop(t[1]), ', '.join(pop(a) for a in t[2]), t[4], t[5]))
        elif t[0] == 'switch':
            out.append('    switch %s %s else %s' % (pop(t[1]), t[2], t[3]))
        else:
            out.append('    ' + str(t))
    return '\n'.join(out)
