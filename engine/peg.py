"""Language decisions for extracted grammars.

A grammar term (ordered choice with commit, greedy repetition, conversions as filters) denotes, at every position, one of
success-with-length / committed failure / uncommitted failure.  Positions are read left to right; the pending obligations at a
position are a boolean function (reduced ordered BDD) over atoms "next element in class c, then node n".  Reference languages
are regular expressions in the same node space.  Equality is decided by exploring the reachable functions of the exclusive or."""
from terms import Budget, check_deadline

# ------------------------------------------------------------------ BDD
class BDD:
    def __init__(self):
        self.nodes = [None, None]      # 0 = false, 1 = true
        self.uniq = {}
        self.memo = {}

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            n = self.uniq[k] = len(self.nodes)
            self.nodes.append(k)
            if len(self.nodes) > 3000000:
                raise Budget('decision diagram too large')
        return n

    def var(self, v):
        return self.mk(v, 0, 1)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        N = self.nodes
        v = N[f][0]
        if g > 1 and N[g][0] < v:
            v = N[g][0]
        if h > 1 and N[h][0] < v:
            v = N[h][0]
        def co(x):
            if x > 1 and N[x][0] == v:
                return N[x][1], N[x][2]
            return x, x
        f0, f1 = co(f); g0, g1 = co(g); h0, h1 = co(h)
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.memo[k] = r
        return r

    def AND(self, a, b):
        return self.ite(a, b, 0)

    def OR(self, a, b):
        return self.ite(a, 1, b)

    def NOT(self, a):
        return self.ite(a, 0, 1)

    def XOR(self, a, b):
        return self.ite(a, self.NOT(b), b)

    def subst(self, f, fn):
        """replace variable v by function fn(v)"""
        memo = {0: 0, 1: 1}
        def go(x):
            r = memo.get(x)
            if r is None:
                v, lo, hi = self.nodes[x]
                r = memo[x] = self.ite(fn(v), go(hi), go(lo))
            return r
        return go(f)


# ------------------------------------------------------------------ sets of elements
def norm_iv(ivs):
    out = []
    for a, b in sorted(x for x in ivs if x[0] <= x[1]):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return tuple(out)


def chars(s):
    return norm_iv([(ord(c), ord(c)) for c in s])


class Left(Exception):
    """a rule reaches itself without consuming input"""


class Lang:
    """expressions are tuples:
      ('c', ivs)            one element
      ('t', ivs)            terminator: ivs list literal text, committing after its first element   (seq/tag)
      ('and', a, b) ('or', a, b) ('opt', a) ('att', a) ('not', a) ('peek', a) ('rep', a, sep, lo, hi) ('end',) ('eps',) ('fail', committed)
      ('filt', a, regex)    succeed only if the consumed text is in regex
      ('ref', key)          grammar rule, bodies in self.rules
      ('chain', p, op)      p (op p)* with commit after a consumed operator
      ('fmap', a, b)        flat_map whose continuation is b for every value
    regular expressions: ('c', ivs) ('cat', a, b) ('alt', a, b) ('star', a) ('eps',) ('none',)"""

    def __init__(self, top):
        self.top = top          # largest element
        self.B = BDD()
        self.vars = {}
        self.varl = []
        self.varE = {}
        self.exp = {}
        self.active = set()
        self.rules = {}
        self.nodes = 0

    # -------------------------------------------------- nodes
    def atom(self, ivs, node):
        if not ivs:
            return 0
        k = (ivs, node)
        v = self.vars.get(k)
        if v is None:
            v = self.vars[k] = len(self.varl)
            self.varl.append(k)
        return self.B.var(v)

    def END(self):
        return self.atom(((-1, -1),), ('T',))

    def E(self, node):
        """boolean function of a node at the current position"""
        r = self.exp.get(node)
        if r is not None:
            return r
        if node in self.active:
            raise Left(node)
        self.nodes += 1
        if self.nodes % 64 == 0:
            check_deadline()
        if self.nodes > 400000:
            raise Budget('too many grammar positions')
        self.active.add(node)
        try:
            r = self.expand(node)
        finally:
            self.active.discard(node)
        self.exp[node] = r
        return r

    def expand(self, n):
        B = self.B
        k = n[0]
        if k == 'T':
            return 1
        if k == 'END':
            return self.END()
        if k == 'S':
            return self.S(n[1], n[2])
        if k == 'FC':
            return self.FC(n[1])
        if k == 'F':
            return B.NOT(self.E(('S', n[1], ('T',))))
        if k == 'FU':
            return B.AND(self.E(('F', n[1])), B.NOT(self.E(('FC', n[1]))))
        if k == 'N':
            return self.N(n[1], n[2])
        if k == 'AND':
            return B.AND(self.E(n[1]), self.E(n[2]))
        if k == 'ORN':
            return B.OR(self.E(n[1]), self.E(n[2]))
        if k == 'R':          # repetition after cnt items
            return self.R(n[1], n[2], n[3])
        if k == 'RI':         # an item follows a separator
            return self.RI(n[1], n[2], n[3])
        if k == 'X':          # node n[1] while the filter regex n[2] reads along, n[3] = what follows the filtered part
            return self.X(n[1], n[2], n[3])
        if k == 'MARK':
            return self.atom(((-2, -2),), n)
        if k == 'CH':         # chain: after an operand
            return self.CH(n[1], n[2], n[3])
        raise ValueError(n)

    def done(self, e, cnt, k):
        return self.E(k) if cnt >= e[3] else 0

    def S(self, e, k):
        B, E = self.B, self.E
        o = e[0]
        T = ('T',)
        if o == 'c':
            return self.atom(e[1], k)
        if o == 't':
            n = k
            for iv in reversed(e[1]):
                n = ('S', ('c', iv), n)
            return E(n)
        if o == 'eps':
            return E(k)
        if o == 'fail':
            return 0
        if o == 'end':
            return B.AND(self.END(), E(k))
        if o == 'and':
            return E(('S', e[1], ('S', e[2], k)))
        if o == 'fmap':
            return E(('S', e[1], ('S', e[2], k)))
        if o == 'or':
            return B.OR(E(('S', e[1], k)), B.AND(E(('FU', e[1])), E(('S', e[2], k))))
        if o == 'opt':
            return B.OR(E(('S', e[1], k)), B.AND(E(('F', e[1])), E(k)))
        if o == 'att':
            return E(('S', e[1], k))
        if o == 'not':
            return B.AND(E(('F', e[1])), E(k))
        if o == 'peek':
            return B.AND(E(('S', e[1], T)), E(k))
        if o == 'rep':
            return E(('R', e, 0, k))
        if o == 'filt':
            return E(('X', ('S', e[1], ('MARK', e)), e[2], (e, k)))
        if o == 'ref':
            return E(('S', self.rules[e[1]], k))
        if o == 'chain':
            return E(('S', e[1], ('CH', e, 'S', k)))
        raise Budget('expression ' + str(o))

    def FC(self, e):
        B, E = self.B, self.E
        o = e[0]
        if o == 't':
            r = 0
            lits = e[1]
            for i in range(1, len(lits)):
                n = self.other(lits[i])
                for iv in reversed(lits[:i]):
                    n = ('S', ('c', iv), n)
                r = B.OR(r, E(n))
            return r
        if o in ('c', 'eps', 'end', 'opt', 'att', 'not', 'rep'):
            return 0
        if o == 'fail':
            return 1 if e[1] else 0
        if o == 'and':
            return B.OR(E(('FC', e[1])), E(('S', e[1], ('FC', e[2]))))
        if o == 'fmap':
            # committed if the first part consumed anything; zero-length first parts keep the status of the second
            if self.nullable(e[1]):
                raise Budget('flat_map over a part that may be empty')
            return B.OR(E(('FC', e[1])), E(('S', e[1], ('F', e[2]))))
        if o == 'or':
            return B.OR(E(('FC', e[1])), B.AND(E(('FU', e[1])), E(('FC', e[2]))))
        if o in ('peek', 'filt'):
            return E(('FC', e[1]))
        if o == 'ref':
            return E(('FC', self.rules[e[1]]))
        if o == 'chain':
            return B.OR(E(('FC', e[1])), E(('S', e[1], ('CH', e, 'C', ('T',)))))
        raise Budget('expression ' + str(o))

    def other(self, iv):
        return ('S', ('c', self.compl(iv)), ('T',))

    def compl(self, ivs):
        out, at = [], 0
        for a, b in ivs:
            if a > at:
                out.append((at, a - 1))
            at = b + 1
        if at <= self.top:
            out.append((at, self.top))
        return tuple(out)

    def CH(self, e, what, k):
        """after an operand of a chain"""
        B, E = self.B, self.E
        p, op = e[1], e[2]
        if self.nullable(op):
            raise Budget('chain over an operator that may be empty')
        go = ('S', p, ('CH', e, what, k))
        if what == 'S':
            return B.OR(E(('S', op, go)), B.AND(E(('FU', op)), E(k)))
        return B.OR(E(('FC', op)), E(('S', op, ('ORN', ('F', p), go))))

    def R(self, e, cnt, k):
        B, E = self.B, self.E
        p, sep, lo, hi = e[1:5]
        if hi is not None and cnt >= hi:
            return self.done(e, cnt, k)
        c1 = cnt + 1
        if hi is None and c1 > lo + 1:
            c1 = lo + 1 if lo >= 1 else 1
        nxt = ('R', e, c1, k)
        if sep is not None and cnt >= 1:
            return B.OR(E(('S', sep, ('RI', e, cnt, k))), B.AND(E(('F', sep)), self.done(e, cnt, k)))
        return B.OR(E(('S', p, nxt)), B.AND(E(('F', p)), self.done(e, cnt, k)))

    def RI(self, e, cnt, k):
        B, E = self.B, self.E
        p, sep, lo, hi = e[1:5]
        c1 = cnt + 1
        if hi is None and c1 > lo + 1:
            c1 = lo + 1 if lo >= 1 else 1
        return B.OR(E(('S', p, ('R', e, c1, k))), B.AND(E(('F', p)), self.done(e, cnt, k)))

    # -------------------------------------------------- filters
    def X(self, node, r, ek):
        e, k = ek
        f = self.E(node)
        mark = ('MARK', e)
        def fn(v):
            ivs, nx = self.varl[v]
            if ivs == ((-2, -2),) and nx == mark:
                return self.E(k) if self.rnull(r) else 0
            if ivs[0][0] < 0 or not self.has_mark(nx, mark):
                return self.B.var(v)
            out = 0
            for cls, r2 in self.rsplit(r):
                both = inter(ivs, cls)
                if both and r2 != ('none',):
                    out = self.B.OR(out, self.atom(both, ('X', nx, r2, ek)))
            return out
        return self.B.subst(f, fn)

    _hm = {}

    def has_mark(self, node, mark):
        key = (node, mark)
        r = self._hm.get(key)
        if r is None:
            r = False
            st = [node]
            seen = set()
            while st:
                x = st.pop()
                if x == mark:
                    r = True
                    break
                if isinstance(x, tuple) and x and x not in seen:
                    seen.add(x)
                    if x[0] in ('S', 'N'):
                        st.append(x[2])
                    elif x[0] in ('R', 'RI', 'CH'):
                        st.append(x[3])
                    elif x[0] in ('AND', 'ORN'):
                        st += [x[1], x[2]]
                    elif x[0] == 'X':
                        st += [x[1], x[3][1]]
            self._hm[key] = r
        return r

    def rnull(self, r):
        o = r[0]
        if o in ('eps', 'star'):
            return True
        if o == 'cat':
            return self.rnull(r[1]) and self.rnull(r[2])
        if o == 'alt':
            return self.rnull(r[1]) or self.rnull(r[2])
        return False

    def rclasses(self, r, acc):
        if r[0] == 'c':
            acc.add(r[1])
        for x in r[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                self.rclasses(x, acc)
        return acc

    _rs = {}

    def rsplit(self, r):
        v = self._rs.get((r, self.top))
        if v is None:
            parts = partition(self.rclasses(r, set()), self.top)
            v = self._rs[(r, self.top)] = [(p, self.rderiv(r, p[0][0])) for p in parts]
        return v

    def rderiv(self, r, c):
        o = r[0]
        if o == 'c':
            return ('eps',) if any(a <= c <= b for a, b in r[1]) else ('none',)
        if o in ('eps', 'none'):
            return ('none',)
        if o == 'alt':
            return ralt(self.rderiv(r[1], c), self.rderiv(r[2], c))
        if o == 'star':
            return rcat(self.rderiv(r[1], c), r)
        d = rcat(self.rderiv(r[1], c), r[2])
        return ralt(d, self.rderiv(r[2], c)) if self.rnull(r[1]) else d

    # -------------------------------------------------- reference regular expressions
    def N(self, r, k):
        B, E = self.B, self.E
        o = r[0]
        if o == 'c':
            return self.atom(r[1], k)
        if o == 'eps':
            return E(k)
        if o == 'none':
            return 0
        if o == 'cat':
            return E(('N', r[1], ('N', r[2], k)))
        if o == 'alt':
            return B.OR(E(('N', r[1], k)), E(('N', r[2], k)))
        if o == 'star':
            return B.OR(E(k), E(('N', r[1], ('N', r, k))))
        raise ValueError(o)

    # -------------------------------------------------- nullability / termination
    def nullable(self, e, seen=frozenset()):
        o = e[0]
        if o == 'c' or o == 'fail':
            return False
        if o == 't':
            return not e[1]
        if o in ('eps', 'end', 'opt', 'not', 'peek'):
            return True
        if o in ('and', 'fmap'):
            return self.nullable(e[1], seen) and self.nullable(e[2], seen)
        if o == 'or':
            return self.nullable(e[1], seen) or self.nullable(e[2], seen)
        if o in ('att',):
            return self.nullable(e[1], seen)
        if o == 'filt':
            return self.nullable(e[1], seen) and self.rnull(e[2])
        if o == 'rep':
            return e[3] == 0 or self.nullable(e[1], seen)
        if o == 'ref':
            if e[1] in seen:
                return False
            return self.nullable(self.rules[e[1]], seen | {e[1]})
        if o == 'chain':
            return self.nullable(e[1], seen)
        return True

    # -------------------------------------------------- equality
    def deriv(self, f, c):
        varE, varl = self.varE, self.varl
        def fn(v):
            for a, b in varl[v][0]:
                if a <= c <= b:
                    r = varE.get(v)
                    if r is None:
                        r = varE[v] = self.E(varl[v][1])
                    return r
            return 0
        return self.B.subst(f, fn)

    def at_end(self, f):
        N = self.B.nodes
        while f > 1:
            v, lo, hi = N[f]
            f = hi if self.varl[v][0] == ((-1, -1),) else lo
        return f == 1

    def classes(self):
        return {k[0] for k in self.varl if k[0][0][0] >= 0}

    def witness(self, f, prefer=None, limit=60000):
        """shortest text on which f holds, None if there is none"""
        seen = {f: None}
        q = [f]
        i = 0
        ncls = -1
        while i < len(q):
            s = q[i]
            i += 1
            if self.at_end(s):
                w = []
                x = s
                while seen[x] is not None:
                    x, c = seen[x]
                    w.append(c)
                return w[::-1]
            if s == 0:
                continue
            check_deadline()
            loc = set()
            st, vis = [s], set()
            while st:
                x = st.pop()
                if x > 1 and x not in vis:
                    vis.add(x)
                    v, lo, hi = self.B.nodes[x]
                    if self.varl[v][0][0][0] >= 0:
                        loc.add(self.varl[v][0])
                    st += [lo, hi]
            for p in partition(loc, self.top):
                c = pick(p, prefer)
                d = self.deriv(s, c)
                if d not in seen:
                    seen[d] = (s, c)
                    q.append(d)
            if len(q) > limit:
                raise Budget('state limit of the language comparison')
        self.states = len(q)
        return None


def inter(a, b):
    out = []
    for x, y in a:
        for u, v in b:
            lo, hi = max(x, u), min(y, v)
            if lo <= hi:
                out.append((lo, hi))
    return norm_iv(out)


def partition(sets, top):
    """minterms of a family of element sets"""
    cuts = {0, top + 1}
    for ivs in sets:
        for a, b in ivs:
            cuts.add(a)
            cuts.add(b + 1)
    cuts = sorted(c for c in cuts if 0 <= c <= top + 1)
    groups = {}
    sl = list(sets)
    for a, b in zip(cuts, cuts[1:]):
        sig = tuple(any(x <= a <= y for x, y in ivs) for ivs in sl)
        groups.setdefault(sig, []).append((a, b - 1))
    return [norm_iv(g) for g in groups.values()]


def pick(ivs, prefer):
    for c in prefer or (ord('a'), ord('1'), ord('A'), ord('Z'), ord('z'), ord('0'), ord('x'), ord('g')):
        if any(a <= c <= b for a, b in ivs):
            return c
    for a, b in ivs:
        for c in range(a, min(b, a + 128) + 1):
            if 33 <= c < 127:
                return c
    return ivs[0][0]


def ralt(a, b):
    if a == ('none',):
        return b
    if b == ('none',) or a == b:
        return a
    xs = set()
    def coll(x):
        if x[0] == 'alt':
            coll(x[1]); coll(x[2])
        else:
            xs.add(x)
    coll(a); coll(b)
    l = sorted(xs, key=repr)
    r = l[-1]
    for x in reversed(l[:-1]):
        r = ('alt', x, r)
    return r


def rcat(a, b):
    if a == ('none',) or b == ('none',):
        return ('none',)
    if a == ('eps',):
        return b
    if b == ('eps',):
        return a
    if a[0] == 'cat':
        return ('cat', a[1], rcat(a[2], b))
    return ('cat', a, b)


# ------------------------------------------------------------------ notation for reference languages
def seq(*xs):
    r = ('eps',)
    for x in reversed(xs):
        r = rcat(lit(x) if isinstance(x, str) else x, r)
    return r


def lit(s):
    r = ('eps',)
    for c in reversed(s):
        r = rcat(('c', chars(c)), r)
    return r


def alt(*xs):
    r = ('none',)
    for x in reversed(xs):
        r = ralt(lit(x) if isinstance(x, str) else x, r)
    return r


def star(x):
    return ('star', x)


def plus(x):
    return seq(x, ('star', x))


def opt(x):
    return alt(('eps',), x if not isinstance(x, str) else lit(x))


def cls(*parts):
    ivs = []
    for p in parts:
        if isinstance(p, tuple):
            ivs += list(p)
        elif len(p) == 3 and p[1] == '-':
            ivs.append((ord(p[0]), ord(p[2])))
        else:
            ivs += [(ord(c), ord(c)) for c in p]
    return ('c', norm_iv(ivs))


def times(x, lo, hi=None):
    hi = lo if hi is None else hi
    r = ('eps',)
    for _ in range(hi - lo):
        r = opt(seq(x, r))
    for _ in range(lo):
        r = seq(x, r)
    return r
