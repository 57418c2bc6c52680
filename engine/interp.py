"""Path-partitioned abstract interpreter over the MIR control-flow graphs.

Domain: terms over uninterpreted inputs (callbacks, child parsers, elements), a conjunction of affine constraints and
finite case facts per trace partition.  Calls are followed through the crate's own functions, closures and trait impls; the
standard library is given by models/models.rs (itself MIR) and the transfer functions in natives.py.
"""
import re, sys
from terms import *
import mir as M

sys.setrecursionlimit(100000)


class Unsupported(Exception):
    pass


UNS_MAX = {'u8': 255, 'u16': 65535, 'u32': 2 ** 32 - 1}
INTS = {'usize', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128'}
NUMTY = INTS | {'char'}
SIG = {'i8': (-128, 127), 'i16': (-32768, 32767), 'i32': (-2 ** 31, 2 ** 31 - 1), 'i64': (-2 ** 63, 2 ** 63 - 1)}

OPTION_NONE = ('adt', 'Option', 0, 'None', ())


def Some(v):
    return ('adt', 'Option', 1, 'Some', (v,))


def Ok(v):
    return ('adt', 'Result', 0, 'Ok', (v,))


def Err(v):
    return ('adt', 'Result', 1, 'Err', (v,))


class St:
    __slots__ = ('env', 'heap', 'ge', 'neq', 'facts', 'var', 'sub', 'trace', 'notes', 'hc', 'memo', 'depth', 'visits', 'stack')

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.ge = ()
        self.neq = ()
        self.facts = {}     # boolean atoms
        self.var = {}       # opaque enum term -> variant index
        self.sub = {}       # atom -> term (solved equalities)
        self.trace = ()
        self.notes = ()     # reasons why the partition is not exact
        self.hc = 0
        self.memo = {}
        self.depth = 0
        self.visits = {}
        self.stack = ()

    def copy(self):
        s = St()
        s.env = {f: dict(d) for f, d in self.env.items()}
        s.heap = dict(self.heap)
        s.ge, s.neq = self.ge, self.neq
        s.facts = dict(self.facts)
        s.var = dict(self.var)
        s.sub = dict(self.sub)
        s.trace = self.trace
        s.notes = self.notes
        s.hc = self.hc
        s.memo = dict(self.memo)
        s.depth = self.depth
        s.visits = dict(self.visits)
        s.stack = self.stack
        return s

    def note(self, n):
        if n not in self.notes:
            self.notes = self.notes + (n,)

    def norm(self, t):
        if not self.sub:
            return t
        for _ in range(20):
            n = subst(t, self.sub)
            if n == t:
                return t
            t = n
        return t

    def event(self, *e):
        self.trace = self.trace + (e,)

    def alloc(self, v):
        self.hc += 1
        h = ('cell', self.hc)
        self.heap[h] = v
        return h

    # ---------------------------------------------------------------- constraints
    def add_ge(self, t):
        """assume t >= 0; False if infeasible"""
        t = self.norm(t)
        c, d = lin_parts(t)
        if not d:
            return c >= 0
        if entails(self.ge, t):
            return True
        m = mulk(t, -1)
        if entails(self.ge, m):          # t <= 0 known: t == 0
            return self.add_eq(t)
        if entails(self.ge, add(m, I(-1))):
            return False
        # t != 0 known -> t >= 1
        for q in self.neq:
            if q == t or q == m:
                t = add(t, I(-1))
                break
        self.ge = self.ge + (t,)
        if not feasible(self.ge):
            return False
        return self.tighten()

    def tighten(self):
        for q in self.neq:
            q = self.norm(q)
            c, d = lin_parts(q)
            if not d:
                if c == 0:
                    return False
                continue
            up, lo = entails(self.ge, q), entails(self.ge, mulk(q, -1))
            if up and lo:
                return False
            if up and not entails(self.ge, add(q, I(-1))):
                self.ge = self.ge + (add(q, I(-1)),)
                if not feasible(self.ge):
                    return False
            elif lo and not entails(self.ge, add(mulk(q, -1), I(-1))):
                self.ge = self.ge + (add(mulk(q, -1), I(-1)),)
                if not feasible(self.ge):
                    return False
        return True

    def add_eq(self, t):
        t = self.norm(t)
        c, d = lin_parts(t)
        if not d:
            return c == 0
        if entails(self.ge, add(t, I(-1))) or entails(self.ge, add(mulk(t, -1), I(-1))):
            return False
        # solve for an atom
        best = None
        for a, k in d.items():
            if abs(k) != 1:
                continue
            rest = mk_lin(c * -k, {x: y * -k for x, y in d.items() if x != a})
            if mentions(rest, {a}):
                continue
            rank = (a[0] == 'sym' and a[1].startswith('in:'), -len(repr(a)) if a[0] != 'sym' else 0)
            pr = self.elim_rank(a)
            if best is None or pr > best[0]:
                best = (pr, a, rest)
        if best is None:
            self.ge = self.ge + (t, mulk(t, -1))
            return feasible(self.ge) and self.tighten()
        _, a, rest = best
        return self.apply_sub({a: rest})

    @staticmethod
    def elim_rank(a):
        if a[0] == 'sym':
            return 3 if a[1].startswith('w') else 1
        return 2

    def apply_sub(self, m):
        S = lambda x: subst(x, m)
        self.env = {f: {l: S(v) for l, v in d.items()} for f, d in self.env.items()}
        self.heap = {h: S(v) for h, v in self.heap.items()}
        nge = []
        for g in self.ge:
            g = S(g)
            c, d = lin_parts(g)
            if not d:
                if c < 0:
                    return False
                continue
            nge.append(g)
        self.ge = tuple(nge)
        self.neq = tuple(S(x) for x in self.neq)
        nf = {}
        for k, v in self.facts.items():
            k2 = S(k)
            if k2[0] == 'bool':
                if k2[1] != v:
                    return False
                continue
            if k2 in nf and nf[k2] != v:
                return False
            nf[k2] = v
        self.facts = nf
        nv = {}
        for k, v in self.var.items():
            k2 = S(k)
            if k2 in nv and nv[k2] != v:
                return False
            nv[k2] = v
        self.var = nv
        self.sub = {k: S(v) for k, v in self.sub.items()}
        self.sub.update(m)
        self.trace = S(self.trace)
        nm = {}
        merge = []
        for k, v in self.memo.items():
            k2 = S(k)
            if k2 in nm:
                if nm[k2][0] != v[0]:
                    return False
                if nm[k2][1] != v[1]:
                    merge.append((nm[k2][1], v[1]))
                continue
            nm[k2] = v
        self.memo = nm
        for a, b in merge:      # the same sub-parser at what is now known to be the same position
            nmx = {}
            for t in self.syms_of(b):
                nmx[t] = ('sym', t[1].rsplit('#', 1)[0] + '#%d' % a)
            ln = [(t, u) for t, u in nmx.items() if '.len#' in t[1]]
            for t, u in ln:
                nmx.pop(t)
            if nmx and not self.apply_sub(nmx):
                return False
            for t, u in ln:
                if not self.add_eq(sub(t, u)):
                    return False
        return feasible(self.ge) and self.tighten()

    def syms_of(self, i):
        suf = '#%d' % i
        names = set()
        for pool in (self.env, self.heap, self.ge, self.facts, self.var, self.trace, self.neq):
            if isinstance(pool, dict):
                it = list(pool.keys()) + list(pool.values())
            else:
                it = list(pool)
            for x in it:
                if isinstance(x, dict):
                    for y in x.values():
                        self._syms(y, suf, names)
                elif isinstance(x, tuple):
                    self._syms(x, suf, names)
        return names

    @staticmethod
    def _syms(t, suf, acc):
        stack = [t]
        while stack:
            x = stack.pop()
            if len(x) == 2 and x[0] == 'sym':
                if x[1].endswith(suf):
                    acc.add(x)
                continue
            stack.extend(y for y in x if isinstance(y, tuple))

    def add_neq(self, t):
        t = self.norm(t)
        c, d = lin_parts(t)
        if not d:
            return c != 0
        if c > 0 and all(self.is_mag(a, k) for a, k in d.items()):
            return True
        up, lo = entails(self.ge, t), entails(self.ge, mulk(t, -1))
        if up and lo:
            return False
        if up:
            return self.add_ge(add(t, I(-1)))
        if lo:
            return self.add_ge(add(mulk(t, -1), I(-1)))
        self.neq = self.neq + (t,)
        return True

    def is_mag(self, a, k):
        return False

    def proves(self, t):
        return entails(self.ge, self.norm(t))

    def proves_eq(self, t):
        t = self.norm(t)
        c, d = lin_parts(t)
        if not d:
            return c == 0
        return entails(self.ge, t) and entails(self.ge, mulk(t, -1))

    def refutes_eq(self, t):
        t = self.norm(t)
        c, d = lin_parts(t)
        if not d:
            return c != 0
        if entails(self.ge, add(t, I(-1))) or entails(self.ge, add(mulk(t, -1), I(-1))):
            return True
        m = mulk(t, -1)
        return any(self.norm(q) in (t, m) for q in self.neq)


def nt(b):
    if b[0] == 'bool':
        return ('bool', not b[1])
    if b[0] == 'not':
        return b[1]
    if b[0] == 'ge0':
        return ('ge0', add(mulk(b[1], -1), I(-1)))
    return ('not', b)


def mk_ge0(t):
    c, d = lin_parts(t)
    if not d:
        return ('bool', c >= 0)
    return ('ge0', t)


def mk_eq0(t):
    c, d = lin_parts(t)
    if not d:
        return ('bool', c == 0)
    # canonical sign
    k = min(d, key=lambda a: _oidx(a))
    if d[k] < 0:
        t = mulk(t, -1)
    return ('eq0', t)


def _oidx(a):
    import terms
    return terms._oid(a)


class Frame:
    __slots__ = ('fn', 'fid', 'selfty')

    def __init__(self, fn, fid, selfty):
        self.fn, self.fid, self.selfty = fn, fid, selfty


def inner_places(a):
    """the mutable places a value gives access to"""
    out, stack = [], [a]
    while stack:
        x = stack.pop()
        if not isinstance(x, tuple) or not x:
            continue
        if x[0] == 'mref':
            out.append(x)
        elif x[0] in ('adt', 'tup', 'clo', 'seq', 'slice') or not isinstance(x[0], str):
            stack.extend(y for y in x if isinstance(y, tuple))
        elif x[0] == 'e':
            stack.append(x[1])
    return out


class Interp:
    def __init__(self, prog, unroll=3, budget=400000, natives=None, hooks=None, models=None):
        self.p = prog
        self.unroll = unroll
        self.budget = budget
        self.steps = 0
        self.panics = []          # (state, kind, function, message)
        self.cuts = []            # states dropped at the unrolling bound
        self.used = set()         # functions analysed
        self.callsites = 0
        self.unmodelled = {}
        import natives as N
        self.nat = N
        self.hooks = hooks or {}
        self._loops = {}
        self.fresh = 0
        self.child_ids = {}
        self.rec_limit = 3
        self.max_depth = 120

    # ---------------------------------------------------------------- branching
    def branch(self, st, b):
        """-> list of (state, bool)"""
        if b[0] == 'bool':
            return [(st, b[1])]
        if b[0] == 'not':
            return [(s, not v) for s, v in self.branch(st, b[1])]
        if b[0] == 'and':
            out = []
            for s, v in self.branch(st, b[1]):
                out += self.branch(s, b[2]) if v else [(s, False)]
            return out
        if b[0] == 'or':
            out = []
            for s, v in self.branch(st, b[1]):
                out += self.branch(s, b[2]) if not v else [(s, True)]
            return out
        b = st.norm(b)
        if b[0] == 'bool':
            return [(st, b[1])]
        if b[0] == 'ge0':
            t = b[1]
            if st.proves(t):
                return [(st, True)]
            if st.proves(add(mulk(t, -1), I(-1))):
                return [(st, False)]
            out = []
            s2 = st.copy()
            if st.add_ge(t):
                out.append((st, True))
            if s2.add_ge(add(mulk(t, -1), I(-1))):
                out.append((s2, False))
            return out
        if b[0] == 'eq0':
            t = b[1]
            if st.proves_eq(t):
                return [(st, True)]
            if st.refutes_eq(t):
                return [(st, False)]
            s2 = st.copy()
            out = []
            if st.add_eq(t):
                out.append((st, True))
            if s2.add_neq(t):
                out.append((s2, False))
            return out
        if b[0] == 'isv':        # X is variant idx
            x, k, n = b[1], b[2], b[3]
            return [(s, i == k) for s, i in self.variant(st, x, n, only=k)]
        f = st.facts.get(b)
        if f is not None:
            return [(st, f)]
        s2 = st.copy()
        st.facts[b] = True
        s2.facts[b] = False
        out = []
        for s, v in ((st, True), (s2, False)):
            if self.assume_hook(s, b, v):
                out.append((s, v))
        return out

    def assume_hook(self, s, b, v):
        h = self.hooks.get('assume')
        return True if h is None else h(self, s, b, v)

    def variant(self, st, x, nvar, only=None):
        """split on the variant of an enum value -> [(state, idx)]"""
        x = st.norm(x)
        if x[0] == 'adt':
            return [(st, x[2])]
        k = st.var.get(x)
        if isinstance(k, int):
            return [(st, k)]
        excl = k or frozenset()
        out = []
        for i in range(nvar):
            if i in excl:
                continue
            s = st.copy()
            s.var[x] = i
            out.append((s, i))
        return out

    # ---------------------------------------------------------------- places
    def strip_ref(self, ty):
        ty = ty.strip()
        if ty.startswith('&'):
            t = ty[1:].strip()
            m = re.match(r"'\w+\s+", t)
            if m:
                t = t[m.end():]
            if t.startswith('mut '):
                return 'mut', t[4:].strip()
            return 'shared', t
        if ty.startswith('*const '):
            return 'shared', ty[7:]
        if ty.startswith('*mut '):
            return 'mut', ty[5:]
        h = M.type_head(ty)
        if h in ('Box', 'Rc', 'Arc', 'NonNull', 'Unique'):
            i = ty.find('<')
            return 'shared', (M.split_top(ty[i + 1:-1])[0] if i >= 0 else '?')
        return 'unknown', '?'

    def locate(self, st, fr, place):
        local, projs = place
        root, path = ('loc', fr.fid, local), []
        ty = fr.fn.locals.get(local, '?')
        variant = None
        for p in projs:
            if p[0] == 'deref':
                kind, nty = self.strip_ref(ty)
                if kind != 'shared' or ty.startswith('*const '):
                    cur = self.read(st, root, path)
                    if cur[0] == 'mref':
                        root, path = cur[1], list(cur[2])
                ty = nty
            elif p[0] == 'f':
                if self.erased_field(p[2], ty):
                    ty = p[2]
                    continue
                path.append(('f', p[1], variant, p[2]))
                variant = None
                ty = p[2]
            elif p[0] == 'as':
                variant = p[1]
            elif p[0] == 'idx':
                path.append(('at', st.env[fr.fid][p[1]]))
                ty = self.elem_ty(ty)
            elif p[0] == 'cidx':
                path.append(('cat', p[1], p[2]))
                ty = self.elem_ty(ty)
            elif p[0] == 'sub':
                path.append(p)
        return root, path, ty

    def erased_field(self, fty, cty):
        h = M.type_head(fty)
        if fty.startswith(('std::ptr::Unique', 'std::ptr::NonNull', 'std::mem::MaybeUninit', 'std::mem::ManuallyDrop', 'std::mem::MaybeDangling',
                           'core::mem::maybe_dangling', 'std::mem::maybe_dangling')):
            return True
        if fty.startswith(('*const ', '*mut ')) and M.type_head(cty) in ('NonNull', 'Unique'):
            return True
        ch = M.type_head(cty)
        if ch in ('MaybeUninit', 'ManuallyDrop', 'MaybeDangling'):
            return True
        return False

    def elem_ty(self, ty):
        m = re.match(r'^\[(.*?)(;.*)?\]$', ty)
        return m.group(1) if m else '?'

    def read(self, st, root, path):
        if root[0] == 'loc':
            try:
                v = st.env[root[1]][root[2]]
            except KeyError:
                v = ('sym', 'uninit')
        else:
            v = st.heap.get(root, ('sym', 'uninit'))
        for p in path:
            v = self.proj(st, v, p)
        return v

    def proj(self, st, v, p):
        k = v[0]
        if k == 'mref':
            v = self.read(st, v[1], v[2])
            k = v[0]
        if p[0] == 'f':
            n, variant, ty = p[1], p[2], p[3]
            if k == 'adt':
                if variant is not None and v[3] is not None and v[3] != variant:
                    return ('sym', 'dead')
                return v[4][n]
            if k == 'tup':
                return v[1][n]
            if k == 'clo':
                return v[2][n]
            if k == 'seq' or k == 'cat':
                return v
            r = ('app', 'proj', v, ('str', variant or ''), ('int', n))
            r = st.norm(r)
            self.type_facts(st, r, ty)
            return r
        if p[0] == 'at':
            return self.index(st, v, p[1])
        if p[0] == 'cat':
            if p[2]:
                return self.index(st, v, sub(self.seqlen(st, v), I(p[1])))
            return self.index(st, v, I(p[1]))
        if p[0] == 'sub':
            ln = self.seqlen(st, v)
            return self.mkslice(st, v, I(p[1]), sub(sub(ln, I(p[2])), I(p[1])))
        if p[0] == 'mapk':
            return self.nat.map_lookup_known(self, st, v, p[1])
        raise Unsupported('proj %r' % (p,))

    def type_facts(self, st, r, ty):
        ty = ty.strip()
        while ty.startswith('&'):
            ty = re.sub(r"^&\s*('\w+\s+)?(mut\s+)?", '', ty)
        if r[0] in ('int', 'lin'):
            return
        if ty in UNS_MAX or ty in ('usize', 'u64', 'u128', 'char'):
            if not st.proves(r):
                st.ge = st.ge + (r,)
            if ty in UNS_MAX or ty == 'char':
                t = sub(I(UNS_MAX.get(ty, 0x10ffff)), r)
                if not st.proves(t):
                    st.ge = st.ge + (t,)
        elif ty in SIG and ty != 'i64':
            lo, hi = SIG[ty]
            for t in (sub(r, I(lo)), sub(I(hi), r)):
                if not st.proves(t):
                    st.ge = st.ge + (t,)

    def write(self, st, root, path, val):
        if root[0] == 'loc':
            cur = st.env.setdefault(root[1], {}).get(root[2], ('sym', 'uninit'))
            st.env[root[1]][root[2]] = self.update(st, cur, path, val)
        else:
            st.heap[root] = self.update(st, st.heap.get(root, ('sym', 'uninit')), path, val)

    def update(self, st, cur, path, val):
        if not path:
            return val
        p, rest = path[0], path[1:]
        if cur[0] == 'mref':
            self.write(st, cur[1], list(cur[2]) + list(path), val)
            return cur
        if p[0] == 'f':
            n = p[1]
            if cur[0] == 'adt':
                fs = list(cur[4])
                while len(fs) <= n:
                    fs.append(('sym', 'uninit'))
                fs[n] = self.update(st, fs[n], rest, val)
                return cur[:4] + (tuple(fs),)
            if cur[0] == 'tup':
                fs = list(cur[1])
                while len(fs) <= n:
                    fs.append(('sym', 'uninit'))
                fs[n] = self.update(st, fs[n], rest, val)
                return ('tup', tuple(fs))
            if cur[0] == 'clo':
                fs = list(cur[2])
                fs[n] = self.update(st, fs[n], rest, val)
                return cur[:2] + (tuple(fs),) + cur[3:]
            if cur == ('sym', 'uninit'):
                return self.update(st, ('tup', ()), path, val)
            # opaque struct: remember the update
            old = self.proj(st, cur, p)
            return ('app', 'upd', cur, ('int', n), self.update(st, old, rest, val))
        if p[0] == 'at' or p[0] == 'cat':
            i = p[1] if p[0] == 'at' else I(p[1])
            i = st.norm(i)
            if cur[0] == 'seq' and i[0] == 'int' and all(q[0] == 'e' for q in cur[1]) and i[1] < len(cur[1]):
                ps = list(cur[1])
                ps[i[1]] = ('e', self.update(st, ps[i[1]][1], rest, val))
                return ('seq', tuple(ps))
            st.note('write at unknown index')
            return ('app', 'upd_at', cur, i, val)
        if p[0] == 'mapk':
            old = self.nat.map_lookup_known(self, st, cur, p[1])
            return self.nat.map_put(self, st, cur, p[1], self.update(st, old, rest, val))
        raise Unsupported('update %r' % (p,))

    # ---------------------------------------------------------------- sequences
    def seqlen(self, st, v):
        if v[0] == 'mref':
            v = self.read(st, v[1], v[2])
        if v[0] == 'slice':
            return v[3]
        if v[0] == 'seq':
            n = I(0)
            for p in v[1]:
                n = add(n, I(1) if p[0] == 'e' else self.seqlen(st, p[1]))
            return n
        if v[0] == 'app' and v[1] == 'chars' and v[2][0] == 'str':
            return I(len(v[2][1]))
        if v[0] == 'str':
            return I(len(v[1].encode()))
        r = st.norm(('app', 'len', v))
        if r[0] == 'app' and not st.proves(r):
            st.ge = st.ge + (r,)
        return r

    def elem(self, base, i):
        return ('app', 'elem', base, i)

    def index(self, st, v, i):
        if v[0] == 'mref':
            v = self.read(st, v[1], v[2])
        i = st.norm(i)
        if v[0] == 'slice':
            return self.index(st, v[1], add(v[2], i))
        if v[0] == 'app' and v[1] == 'chars' and v[2][0] == 'str' and i[0] == 'int' and 0 <= i[1] < len(v[2][1]):
            return I(ord(v[2][1][i[1]]))
        if v[0] == 'str' and i[0] == 'int':
            b = v[1].encode()
            if 0 <= i[1] < len(b):
                return I(b[i[1]])
        if v[0] == 'seq':
            pos = I(0)
            for p in v[1]:
                n = I(1) if p[0] == 'e' else self.seqlen(st, p[1])
                d = sub(i, pos)
                if st.proves(d) and st.proves(add(sub(n, d), I(-1))):
                    if p[0] == 'e':
                        return p[1]
                    return self.index(st, p[1], d)
                pos = add(pos, n)
        r = st.norm(self.elem(v, i))
        et = self.elemty_of(v)
        if et:
            self.type_facts(st, r, et)
        return r

    def elemty_of(self, v):
        if v[0] == 'sym':
            return self.hooks.get('elemty', {}).get(v[1])
        if v[0] == 'app' and v[1] == 'chars':
            return 'char'
        if v[0] == 'app' and v[1] == 'bytes':
            return 'u8'
        return None

    def mkslice(self, st, v, start, n):
        if v[0] == 'mref':
            v = self.read(st, v[1], v[2])
        start, n = st.norm(start), st.norm(n)
        if start == I(0) and st.proves_eq(sub(n, self.seqlen(st, v))):
            return v
        if v[0] == 'slice':
            return ('slice', v[1], add(v[2], start), n)
        if v[0] == 'seq' and start[0] == 'int' and n[0] == 'int' and all(p[0] == 'e' for p in v[1]):
            return ('seq', v[1][start[1]:start[1] + n[1]])
        if v[0] == 'app' and v[1] == 'chars' and v[2][0] == 'str' and start[0] == 'int' and n[0] == 'int':
            return ('app', 'chars', ('str', v[2][1][start[1]:start[1] + n[1]]))
        return ('slice', v, start, n)

    # ---------------------------------------------------------------- operands and rvalues
    def operand(self, st, fr, op):
        if op[0] in ('copy', 'move'):
            root, path, ty = self.locate(st, fr, op[1])
            return self.read(st, root, path)
        return self.const(st, fr, op[1])

    def const(self, st, fr, s):
        s = s.strip()
        if s == '()':
            return UNIT
        if s in ('true', 'false'):
            return ('bool', s == 'true')
        m = re.match(r'^(-?\d+)_?(usize|isize|[ui]\d+)$', s)
        if m:
            return I(int(m.group(1)))
        if s.startswith('"'):
            return ('str', rust_unescape(s[1:s.rindex('"')]))
        if s.startswith("'"):
            return I(ord(rust_unescape(s[1:-1])))
        if s.startswith('b"'):
            b = rust_unescape_bytes(s[2:s.rindex('"')])
            return ('seq', tuple(('e', I(x)) for x in b))
        if re.match(r'^-?[\d.]+(e[-+]?\d+)?_?f(32|64)$', s) or s.endswith(('f64', 'f32')) and re.match(r'^-?[\d.]', s):
            return ('app', 'float', ('str', re.sub(r'_?f(32|64)$', '', s)))
        m = re.match(r'^\(\)$', s)
        key = M.strip_generics(s)
        f = self.find_const(s, fr)
        if f is not None:
            r = self.exec_fn(st.copy(), f, [], fr.selfty if fr else None)
            if len(r) == 1:
                return r[0][1]
            raise Unsupported('const ' + s)
        ls = [x for x in self.p.litconsts.get(key.rsplit('::', 1)[-1], []) if key == x[1] or key.endswith('::' + x[1])]
        if fr is not None and len(ls) > 1:
            ls = [x for x in ls if x[0] == fr.fn.crate] or ls
        if len({x[2] for x in ls}) == 1:
            return self.const(st, fr, ls[0][2])
        m = re.match(r'^(?:\w+::)*(usize|isize|[ui]\d+)::(MAX|MIN|BITS)$', key)
        if m:
            t, w = m.groups()
            bits = 64 if t in ('usize', 'isize') else int(t[1:])
            if w == 'BITS':
                return I(bits)
            if t[0] == 'u':
                return I(2 ** bits - 1 if w == 'MAX' else 0)
            return I(2 ** (bits - 1) - 1 if w == 'MAX' else -2 ** (bits - 1))
        if key.endswith('REPLACEMENT_CHARACTER'):
            return I(0xfffd)
        if s.startswith('{alloc'):
            n = self.p.statics.get((fr.fn.crate, s[1:].split(':')[0].split('<')[0].strip())) if fr else None
            if n is not None and not re.search(r'Cell|Mutex|Lock|Atomic|Lazy|\*mut', s):
                f = self.find_const(n, fr)
                if f is not None:
                    r = self.exec_fn(st.copy(), f, [], None)
                    if len(r) == 1 and r[0][1][0] in ('seq', 'str', 'int', 'bool', 'tup', 'adt'):
                        return r[0][1]
            return ('app', 'const', ('str', s))
        if s.startswith('{'):
            m = re.match(r'^\{(closure@[^}]*)\}', s)
        if s.startswith('{closure@') or s.startswith('ZeroSized: {closure@'):
            return ('clo', s[s.index('{'):], (), fr.selfty if fr else None)
        seg = key.split('::')
        # unit struct / unit variant / function item
        v = self.unit_value(s, key, seg)
        if v is not None:
            return v
        return ('fn', s, fr.selfty if fr else None)

    def unit_value(self, s, key, seg):
        last = seg[-1]
        if len(seg) >= 2 and last in (self.p.enums.get(seg[-2]) or []):
            if not self.p.fields.get(seg[-2] + '::' + last):
                if seg[-2] in ('Option',) and last != 'None':
                    return None
                if seg[-2] == 'Result':
                    return None
                return ('adt', seg[-2], self.p.enums[seg[-2]].index(last), last, ())
            return None
        if last in self.p.fields and self.p.fields[last] == [] and last not in self.p.enums:
            return ('adt', last, 0, None, ())
        if last == 'PhantomData':
            return UNIT
        return None

    def find_const(self, s, fr):
        c = self.p.consts.get(s)
        if c is not None:
            return c
        m = re.search(r'::promoted\[\d+\]$', s)
        if m and fr is not None and fr.fn.name + m.group(0) in self.p.consts:      # a function's own promoted constant
            return self.p.consts[fr.fn.name + m.group(0)]
        k = re.sub(r"::<'_>", '', s)
        c = self.p.consts.get(k)
        if c is not None:
            return c
        key = M.strip_generics(s)
        if '::' in key or key.isidentifier():
            cs = [f for n, f in self.p.consts.items() if (M.strip_generics(n) == key or M.strip_generics(n).endswith('::' + key) or key.endswith('::' + M.strip_generics(n)))
                  and (n.rsplit('::', 1)[-1] == key.rsplit('::', 1)[-1])]
            if fr is not None and len(cs) > 1:
                cs = [f for f in cs if f.crate == fr.fn.crate] or cs
            if len(cs) == 1:
                return cs[0]
            if '<impl at' in s:
                cs = [f for n, f in self.p.consts.items() if n.split('::', 1)[-1] in s or s.endswith(n)]
                if len(cs) == 1:
                    return cs[0]
        m = re.match(r'^<(.*) as (.*)>::(\w+)$', s)
        if m:
            t = m.group(1)
            if t == 'Self' and fr is not None and fr.selfty:
                t = fr.selfty
            for n, f in self.p.consts.items():
                if n.rsplit('::', 1)[-1] == m.group(3):
                    info = M.impl_info(n)
                    if info and info[1] and M.type_head(info[1]) == M.type_head(t):
                        return f
        return None

    def rvalue(self, st, fr, rv, dty):
        """-> value, or list of (state, value) when it forks"""
        k = rv[0]
        if k == 'use':
            return self.operand(st, fr, rv[1])
        if k == 'ref':
            root, path, ty = self.locate(st, fr, rv[1])
            return self.read(st, root, path)
        if k == 'mutref':
            root, path, ty = self.locate(st, fr, rv[1])
            v = self.read(st, root, path)
            if v[0] == 'cell' or (v[0] == 'mref' and self.strip_ref(dty)[0] == 'mut' and False):
                return v
            return ('mref', root, tuple(path))
        if k == 'rawref':
            root, path, ty = self.locate(st, fr, rv[1])
            v = self.read(st, root, path)
            if dty.startswith('*mut'):
                return ('mref', root, tuple(path))
            return ('app', 'rawaddr', ('str', '%s:%s' % (fr.fn.name.rsplit('::', 1)[-1], _place_text(rv[1]))), v)
        if k == 'cast':
            v = self.operand(st, fr, rv[1])
            ty, how = rv[2], rv[3]
            if how == 'IntToInt':
                return self.int_cast(st, v, ty, self.opty(fr, rv[1]))
            if how in ('IntToFloat', 'FloatToInt', 'FloatToFloat'):
                r = ('app', 'cast:' + how + ':' + ty, v)
                self.type_facts(st, r, ty)
                return r
            if how.startswith('PointerExpose'):
                return ('app', 'addr', v)
            return v
        if k == 'bin':
            a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
            ty = self.opty(fr, rv[2]) or self.opty(fr, rv[3])
            return self.binop(st, rv[1], a, b, ty)
        if k == 'un':
            a = self.operand(st, fr, rv[2])
            if rv[1] == 'Not':
                if dty == 'bool':
                    return nt(self.as_bool(a))
                return ('app', 'bitnot', a)
            if a[0] == 'app' and a[1] == 'float':
                return ('app', 'float', ('str', '-' + a[2][1]))
            return mulk(a, -1) if dty in INTS else ('app', 'neg', a)
        if k == 'discr':
            root, path, ty = self.locate(st, fr, rv[1])
            v = self.read(st, root, path)
            if v[0] == 'adt':
                return I(v[2])
            v = st.norm(v)
            if v[0] == 'adt':
                return I(v[2])
            kk = st.var.get(v)
            if isinstance(kk, int):
                return I(kk)
            return ('discr', v, M.type_head(self.resolve_ty(ty)))
        if k == 'array':
            return ('seq', tuple(('e', self.operand(st, fr, x)) for x in rv[1]))
        if k == 'tuple':
            return ('tup', tuple(self.operand(st, fr, x) for x in rv[1]))
        if k == 'repeat':
            v = self.operand(st, fr, rv[1])
            m = re.match(r'^(?:const )?(\d+)(_usize)?$', rv[2])
            if m and int(m.group(1)) <= 64:
                return ('seq', (('e', v),) * int(m.group(1)))
            return ('app', 'repeat', v, ('str', rv[2]))
        if k == 'closure':
            return ('clo', rv[1], tuple(self.operand(st, fr, x) for _, x in rv[2]), fr.selfty)
        if k == 'adt':
            if rv[3] == 'unit' and re.match(r'(for<[^>]*> )?(unsafe )?(extern "[^"]*" )?fn\(', (dty or '').strip()):      # a function item
                return ('fn', rv[1], fr.selfty)
            vs = self.p.enums.get(M.type_head(dty or '')) if rv[3] == 'unit' and '::' not in rv[1] else None
            if vs and rv[1] in vs and rv[1] not in self.p.fields:       # a variant of a library enum is printed without its enum
                return ('adt', M.type_head(dty), vs.index(rv[1]), rv[1], ())
            return self.mk_adt(st, rv[1], rv[2], rv[3], fr)
        if k == 'len':
            v = self.operand(st, fr, rv[1])
            return self.seqlen(st, v)
        if k == 'lenp':
            root, path, ty = self.locate(st, fr, rv[1])
            return self.seqlen(st, self.read(st, root, path))
        return ('app', 'opaque', ('str', str(rv[1])))

    def resolve_ty(self, ty):
        ty = ty.strip()
        while ty.startswith('&'):
            ty = re.sub(r"^&\s*('\w+\s+)?(mut\s+)?", '', ty)
        return ty

    def opty(self, fr, op):
        if op[0] in ('copy', 'move'):
            l, pr = op[1]
            ty = fr.fn.locals.get(l, '?')
            for p in pr:
                if p[0] == 'f':
                    ty = p[2]
                elif p[0] == 'deref':
                    ty = self.strip_ref(ty)[1]
                elif p[0] in ('idx', 'cidx'):
                    ty = self.elem_ty(ty)
            return ty
        m = re.search(r'_(usize|isize|[ui]\d+)$', op[1])
        if m:
            return m.group(1)
        if op[1].startswith("'"):
            return 'char'
        if op[1] in ('true', 'false'):
            return 'bool'
        return None

    def as_bool(self, v):
        return v

    def int_cast(self, st, v, ty, src=None):
        if v[0] == 'bool':
            return I(1 if v[1] else 0)
        if v[0] == 'discr':
            return v
        if v[0] not in ('int', 'lin', 'sym', 'app'):
            return ('app', 'cast:' + ty, v)
        if v[0] == 'app' and v[1] == 'addr':
            return v
        if v[0] == 'int' and ty in INTS:
            n = int(re.sub(r'\D', '', ty) or 64)
            x = v[1] % 2 ** n
            return I(x - 2 ** n if ty[0] == 'i' and x >= 2 ** (n - 1) else x)
        if src in ('u128', 'i128') and ty in ('u64', 'i64', 'usize', 'isize'):
            lo, hi = (-2 ** 63, 2 ** 63 - 1) if ty[0] == 'i' else (0, 2 ** 64 - 1)
            if st.proves(sub(v, I(lo))) and st.proves(sub(I(hi), v)):
                return v
            r = ('app', 'cast:' + ty, v)
            self.type_facts(st, r, ty)
            return r
        if ty in ('usize', 'u64', 'u128', 'u32', 'char'):
            hi = {'u32': 2 ** 32 - 1, 'char': 0x10ffff}.get(ty)
            if st.proves(v) and (hi is None or ty == 'u64' or st.proves(sub(I(hi), v))):
                return v
        elif ty in UNS_MAX:
            if v[0] == 'int':
                return I(v[1] % (UNS_MAX[ty] + 1))
            if st.proves(v) and st.proves(sub(I(UNS_MAX[ty]), v)):
                return v
        elif ty in ('i64', 'i128', 'isize'):
            return v
        elif ty in SIG:
            lo, hi = SIG[ty]
            if st.proves(sub(v, I(lo))) and st.proves(sub(I(hi), v)):
                return v
        r = ('app', 'cast:' + ty, v)
        self.type_facts(st, r, ty)
        return r

    def disjoint(self, st, a, b):
        """two numbers without common bits"""
        for x, y in ((a, b), (b, a)):
            c, d = lin_parts(x)
            vs = [c] + list(d.values())
            k = 0
            while k < 64 and all(v % 2 ** (k + 1) == 0 for v in vs):
                k += 1
            if k and st.proves(x) and st.proves(y) and st.proves(sub(I(2 ** k - 1), y)):
                return True
        return False

    def binop(self, st, op, a, b, ty):
        ovf = op.endswith('WithOverflow')
        o = op[:-12] if ovf else op.replace('Unchecked', '')
        if o in ('Eq', 'Ne'):
            r = self.eq_term(st, a, b)
            return r if o == 'Eq' else nt(r)
        if o in ('Lt', 'Le', 'Gt', 'Ge'):
            if ty in ('f32', 'f64') or (a[0] == 'app' and a[1] == 'float') or (b[0] == 'app' and b[1] == 'float'):
                if o in ('Gt', 'Ge'):
                    a, b, o = b, a, {'Gt': 'Lt', 'Ge': 'Le'}[o]
                return ('app', 'f' + o, a, b)
            if o == 'Lt':
                return mk_ge0(add(sub(b, a), I(-1)))
            if o == 'Le':
                return mk_ge0(sub(b, a))
            if o == 'Gt':
                return mk_ge0(add(sub(a, b), I(-1)))
            return mk_ge0(sub(a, b))
        if ty == 'bool' or a[0] == 'bool' or b[0] == 'bool' or a[0] in ('ge0', 'eq0', 'not', 'and', 'or'):
            if o == 'BitAnd':
                return mk_and(a, b)
            if o == 'BitOr':
                return mk_or(a, b)
            if o == 'BitXor':
                if b[0] == 'bool':
                    return nt(a) if b[1] else a
                if a[0] == 'bool':
                    return nt(b) if a[1] else b
        if ty in ('f32', 'f64'):
            return ('app', 'f' + o, a, b)
        if a[0] == 'discr' or b[0] == 'discr':
            return ('app', o, a, b)
        if o == 'Add':
            r = add(a, b)
        elif o == 'Sub':
            r = sub(a, b)
        elif o == 'Mul':
            if a[0] == 'int':
                r = mulk(b, a[1])
            elif b[0] == 'int':
                r = mulk(a, b[1])
            else:
                r = ('app', 'mul') + tuple(sorted((a, b), key=_oidx))
                if st.proves(a) and st.proves(b) and not st.proves(r):
                    st.ge = st.ge + (r,)
        elif o in ('Div', 'Rem'):
            if a[0] == 'int' and b[0] == 'int' and b[1] != 0:
                q = abs(a[1]) // abs(b[1])
                if (a[1] < 0) != (b[1] < 0):
                    q = -q
                r = I(q if o == 'Div' else a[1] - q * b[1])
            elif b == I(1):
                r = a if o == 'Div' else I(0)
            else:
                r = st.norm(('app', o.lower(), a, b))
                if st.proves(a) and st.proves(add(b, I(-1))) and r[0] == 'app':
                    fs = [r]
                    if o == 'Rem':
                        fs += [add(sub(b, r), I(-1)), sub(a, r)]
                    else:
                        fs += [sub(a, r)]
                        if b[0] == 'int':
                            fs += [sub(a, mulk(r, b[1])), add(sub(add(mulk(r, b[1]), b), a), I(-1))]
                    for t in fs:
                        if not st.proves(t):
                            st.ge = st.ge + (t,)
        elif o == 'Offset':
            r = add(a, b)
        elif o in ('Shl',) and b[0] == 'int':
            r = mulk(a, 2 ** b[1])
            if ty in UNS_MAX and not st.proves(sub(I(UNS_MAX[ty]), r)):
                r = self.binop(st, 'Rem', r, I(UNS_MAX[ty] + 1), ty) if st.proves(a) else ('app', 'Shl', a, b)
        elif o in ('BitOr', 'BitXor', 'Add') and self.disjoint(st, a, b):
            r = add(a, b)
        elif o == 'Shr' and b[0] == 'int':
            return self.binop(st, 'Div', a, I(2 ** b[1]), ty)
        elif o == 'Cmp':
            return ('app', 'cmp', a, b)
        elif o == 'BitAnd' and (a[0] == 'int') != (b[0] == 'int') and st.proves(a if b[0] == 'int' else b):
            x, m = (a, b[1]) if b[0] == 'int' else (b, a[1])
            if m >= 0 and (m + 1) & m == 0:                     # low bits
                return self.binop(st, 'Rem', x, I(m + 1), ty)
            low = (m & -m) if m > 0 else 0
            if m > 0 and ty in UNS_MAX and m + low == UNS_MAX[ty] + 1 or m > 0 and m == low and st.proves(sub(I(2 * m - 1), x)):    # high bits
                return mulk(self.binop(st, 'Div', x, I(low), ty), low)
            r = ('app', o, a, b)
            if st.proves(a) and st.proves(b):
                self.type_facts(st, r, 'usize')
        else:
            r = ('app', o, a, b)
            if st.proves(a) and st.proves(b):
                self.type_facts(st, r, 'usize')
        if ovf:
            flag = FALSE
            uns = ty in UNS_MAX or ty in ('usize', 'u64', 'u128')
            if o == 'Sub' and uns:
                flag = mk_ge0(add(sub(b, a), I(-1)))
            elif ty in UNS_MAX:
                flag = mk_ge0(add(r, I(-UNS_MAX[ty] - 1)))
            elif ty in SIG and ty != 'i64':
                lo, hi = SIG[ty]
                flag = mk_or(mk_ge0(add(r, I(-hi - 1))), mk_ge0(sub(I(lo - 1), r)))
            elif o == 'Mul' and r[0] not in ('int',) and self.hooks.get('mulovf'):
                hi = 2 ** 63 - 1 if ty == 'i64' else 2 ** 64 - 1
                flag = mk_ge0(add(r, I(-hi - 1)))
            return ('tup', (r, flag))
        return r

    def eq_term(self, st, a, b):
        """boolean term for structural equality"""
        a, b = st.norm(a), st.norm(b)
        if a[0] == 'mref':
            a = self.read(st, a[1], a[2])
        if b[0] == 'mref':
            b = self.read(st, b[1], b[2])
        if a == b:
            return TRUE
        if a[0] == 'bool' and a[1] is True:
            return b
        if b[0] == 'bool' and b[1] is True:
            return a
        if a[0] == 'bool':
            return nt(b)
        if b[0] == 'bool':
            return nt(a)
        if a[0] in ('int', 'lin') or b[0] in ('int', 'lin'):
            if a[0] == 'discr' or b[0] == 'discr':
                d, c = (a, b) if a[0] == 'discr' else (b, a)
                if c[0] == 'int':
                    nv = self.p.enums.get(d[2])
                    return ('isv', d[1], c[1], len(nv) if nv else c[1] + 2)
            return mk_eq0(sub(a, b))
        if a[0] == 'adt' and b[0] == 'adt':
            if a[2] != b[2] or a[1] != b[1]:
                return FALSE
            r = TRUE
            for x, y in zip(a[4], b[4]):
                r = mk_and(r, self.eq_term(st, x, y))
            return r
        if a[0] == 'adt' or b[0] == 'adt':
            d, o = (a, b) if a[0] == 'adt' else (b, a)
            vs = self.p.enums.get(d[1])
            if vs and d[3] in vs:
                r = ('isv', o, d[2], len(vs))
                k = st.var.get(o)
                if isinstance(k, int):
                    r = ('bool', k == d[2])
                for i, x in enumerate(d[4]):
                    r = mk_and(r, self.eq_term(st, x, ('app', 'proj', o, ('str', d[3]), I(i))))
                return r
        if a[0] == 'tup' and b[0] == 'tup':
            r = TRUE
            for x, y in zip(a[1], b[1]):
                r = mk_and(r, self.eq_term(st, x, y))
            return r
        if a[0] == 'str' and b[0] == 'str':
            return ('bool', a[1] == b[1])
        if self.numeric(a) and self.numeric(b):
            return mk_eq0(sub(a, b))
        if a[0] == 'app' and b[0] == 'app' and a[1] == b[1] == 'upper':
            a, b = ('app', 'lower', a[2]), ('app', 'lower', b[2])
        if _oidx(a) > _oidx(b):
            a, b = b, a
        return ('app', 'eq', a, b)

    def numeric(self, a):
        if a[0] in ('int', 'lin'):
            return True
        if a[0] == 'app':
            if a[1] in ('len', 'rem', 'div', 'mul'):
                return True
            if a[1] == 'elem':
                return self.elemty_of(self.base_of(a[2])) is not None
        return a[0] == 'sym' and a[1] in self.hooks.get('nums', ())

    def base_of(self, v):
        return v

    # ---------------------------------------------------------------- aggregates
    def mk_adt(self, st, path, fields, kind, fr):
        key = M.strip_generics(path)
        seg = key.split('::')
        last = seg[-1]
        vals = [(n, self.operand(st, fr, o)) for n, o in fields]
        if last in ('Box', 'Rc', 'Arc', 'NonNull', 'Unique', 'ManuallyDrop', 'MaybeUninit', 'Pin') and len(vals) >= 1:
            return vals[0][1]
        if len(seg) >= 2 and last in (self.p.enums.get(seg[-2]) or []):
            en = seg[-2]
            return self.build(en, last, vals, self.p.enums[en].index(last))
        for en, vs in self.p.enums.items():
            if last in vs and last not in self.p.fields and (en + '::' + last) in self.p.fields and len(seg) == 1 and vals:
                return self.build(en, last, vals, vs.index(last))
        if last == 'PhantomData':
            return UNIT
        fs = self.p.fields.get(last)
        if fs and kind == 'named':
            d = dict(vals)
            return ('adt', last, 0, None, tuple(d.get(f, UNIT) for f in fs))
        return ('adt', last, 0, None, tuple(v for _, v in vals))

    def build(self, en, v, vals, idx):
        fs = self.p.fields.get(en + '::' + v)
        if fs and vals and not vals[0][0].isdigit():
            d = dict(vals)
            return ('adt', en, idx, v, tuple(d[f] for f in fs))
        return ('adt', en, idx, v, tuple(x for _, x in vals))

    # ---------------------------------------------------------------- execution
    def loop_heads(self, fn):
        r = self._loops.get(id(fn))
        if r is not None:
            return r
        heads = set()
        color = {}
        stack = [(0, iter(self.succ(fn, 0)))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color.get(s) == 1:
                    heads.add(s)
                elif s not in color:
                    color[s] = 1
                    stack.append((s, iter(self.succ(fn, s))))
                    break
            else:
                color[b] = 2
                stack.pop()
        self._loops[id(fn)] = heads
        return heads

    def succ(self, fn, b):
        t = fn.blocks[b][1]
        if t[0] == 'goto':
            return [t[1]]
        if t[0] == 'switch':
            return [x for _, x in t[2]] + ([t[3]] if t[3] is not None else [])
        if t[0] == 'drop':
            return [t[2]]
        if t[0] == 'assert':
            return [t[5]]
        if t[0] == 'call':
            return [t[4]] if t[4] is not None else []
        return []

    def exec_fn(self, st, fn, args, selfty=None):
        fn.parse()
        key = fn.name
        if args and args[0][0] == 'adt' and args[0][1] == 'Parser' and args[0][4][0][0] in ('clo', 'fn'):
            key += '|' + str(args[0][4][0][1])      # running different parsers is not recursion
        cnt = st.stack.count(key)
        if cnt >= self.rec_limit or st.depth > self.max_depth:
            self.cuts.append((st, 'recursion ' + fn.name))
            return []
        self.used.add(fn)
        st.depth += 1
        fid = st.depth
        saved_stack = st.stack
        st.stack = st.stack + (key,)
        st.env[fid] = {}
        for a, v in zip(fn.args, args):
            st.env[fid][a] = v
        fr = Frame(fn, fid, selfty)
        out = []
        for s, v in self.run(st, fr):
            s.env.pop(fid, None)
            s.depth = fid - 1
            s.stack = saved_stack
            for k in [k for k in s.visits if k[0] == fid]:
                del s.visits[k]
            out.append((s, v))
        return out

    def run(self, st, fr):
        out = []
        heads = self.loop_heads(fr.fn)
        work = [(st, 0)]
        while work:
            st, b = work.pop()
            while True:
                self.steps += 1
                if self.steps % 256 == 0:
                    check_deadline()
                if self.steps > self.budget:
                    raise Budget('step budget in ' + fr.fn.name)
                if b in heads:
                    k = (fr.fid, b)
                    n = st.visits.get(k, 0) + 1
                    st.visits[k] = n
                    if n > self.unroll + 1:
                        self.cuts.append((st, 'loop in ' + fr.fn.name))
                        break
                stmts, term = fr.fn.blocks[b]
                forks = self.stmts(st, fr, stmts)
                if forks is not None:
                    st = forks
                nxt = self.term(st, fr, term)
                if nxt is None:
                    break
                if isinstance(nxt, tuple) and nxt[0] == 'ret':
                    out.append((st, nxt[1]))
                    break
                if not nxt:
                    break
                for s, bb in nxt[1:]:
                    work.append((s, bb))
                st, b = nxt[0]
        return out

    def stmts(self, st, fr, stmts):
        for x in stmts:
            if x[0] == 'assign':
                root, path, ty = self.locate(st, fr, x[1])
                v = self.rvalue(st, fr, x[2], ty)
                if st.sub:
                    v = st.norm(v)
                self.write(st, root, path, v)
            elif x[0] == 'setdiscr':
                st.note('set_discriminant')
            elif x[0] == 'unknown':
                st.note('unknown statement ' + x[1][:60])
        return None

    def term(self, st, fr, t):
        k = t[0]
        if k == 'goto':
            return [(st, t[1])]
        if k == 'return':
            return ('ret', st.env[fr.fid].get(0, UNIT))
        if k in ('unreachable', 'unwind'):
            return None
        if k == 'drop':
            try:
                root, path, ty = self.locate(st, fr, t[1])
                v = self.read(st, root, path)
                if v[0] == 'refmut':
                    st.event('release', v[1])
            except (Unsupported, KeyError, IndexError, TypeError):
                pass
            return [(st, t[2])]
        if k == 'switch':
            return self.switch(st, fr, t)
        if k == 'assert':
            v = self.operand(st, fr, t[1])
            if t[2] is False:
                v = nt(v)
            out = []
            for s, ok in self.branch(st, v):
                if ok:
                    out.append((s, t[5]))
                else:
                    self.panic(s, 'assert', fr.fn, t[3])
            return out or None
        if k == 'call':
            return self.call_term(st, fr, t)
        raise Unsupported('term ' + k)

    def panic(self, st, kind, fn, msg):
        self.panics.append((st, kind, fn, msg))

    def switch(self, st, fr, t):
        v = st.norm(self.operand(st, fr, t[1]))
        arms, other = t[2], t[3]
        if v[0] == 'int':
            for k, b in arms:
                if k == v[1] or (k >= 2 ** 31 and k - 2 ** 32 == v[1]) or (k > 2 ** 63 and k - 2 ** 64 == v[1]):
                    return [(st, b)]
            return [(st, other)] if other is not None else None
        if v[0] == 'bool':
            return self.switch_int(st, 1 if v[1] else 0, arms, other)
        if v[0] == 'discr':
            x, en = v[1], v[2]
            vs = self.p.enums.get(en)
            idxs = None
            if vs:
                idxs = range(len(vs))
                nv = len(vs)
            elif en == 'Ordering':
                out = []
                for kk in (-1, 0, 1):
                    s = st.copy()
                    s.var[x] = kk
                    for s2, b in self.switch_int(s, kk, arms, other) or []:
                        out.append((s2, b))
                return out
            else:
                st.note('discriminant of unknown enum ' + en)
                nv = max([a for a, _ in arms] + [0]) + (2 if other is not None else 1)
            out = []
            for s, i in self.variant(st, x, nv):
                r = self.switch_int(s, i, arms, other)
                out += r or []
            return out
        ty = self.opty(fr, t[1])
        if ty == 'bool' or v[0] in ('ge0', 'eq0', 'not', 'and', 'or', 'isv') or (v[0] == 'app' and ty not in NUMTY and all(a in (0, 1) for a, _ in arms) and ty not in INTS):
            out = []
            for s, val in self.branch(st, v):
                out += self.switch_int(s, 1 if val else 0, arms, other) or []
            return out
        # numeric
        out = []
        cur = st
        for k, b in arms:
            s2 = cur.copy()
            if s2.add_eq(sub(v, I(k))):
                out.append((s2, b))
            if not cur.add_neq(sub(v, I(k))):
                cur = None
                break
        if cur is not None and other is not None:
            out.append((cur, other))
        return out

    def switch_int(self, st, n, arms, other):
        for k, b in arms:
            if k == n or (n < 0 and k in (n % 2 ** 8, n % 2 ** 32, n % 2 ** 64)):
                return [(st, b)]
        return [(st, other)] if other is not None else []

    def call_term(self, st, fr, t):
        _, dest, callee, argops, ret = t
        args = [self.operand(st, fr, a) for a in argops]
        self.callsites += 1
        res = self.call(st, fr, callee, args, dest)
        if ret is None:
            for s, v in res:
                self.panic(s, 'diverges', fr.fn, callee)
            return None
        out = []
        for s, v in res:
            root, path, ty = self.locate(s, fr, dest)
            v = s.norm(v)
            if v[0] in ('app', 'sym'):
                self.type_facts(s, v, ty)
            self.write(s, root, path, v)
            out.append((s, ret))
        return out

    # ---------------------------------------------------------------- calls
    def call(self, st, fr, callee, args, dest=None):
        m = parse_callee(callee)
        r = self.dispatch(st, fr, m, args, callee)
        return r

    def dispatch(self, st, fr, c, args, callee):
        h = self.hooks.get('call')
        if h is not None:
            r = h(self, st, fr, c, args)
            if r is not None:
                return r
        # locals shadowing: a callee that is a local operand (fn pointers)
        if c['kind'] == 'value':
            f = self.operand(st, fr, M.parse_operand(c['path']))
            return self.apply(st, f, args)
        if c['kind'] == 'trait' and c['trait'] in ('Fn', 'FnMut', 'FnOnce') or (c['method'] in ('call', 'call_mut', 'call_once') and c.get('trait')):
            f = args[0]
            a = args[1]
            al = list(a[1]) if a[0] == 'tup' else [a]
            return self.apply(st, f, al)
        r = self.nat.lookup(self, st, fr, c, args)
        if r is not None:
            return r
        f, selfty = self.resolve(st, fr, c, args)
        if f is not None:
            return self.exec_fn(st, f, args, selfty)
        # constructor used as function
        r = self.ctor(c, args)
        if r is not None:
            return [(st, r)]
        r = self.nat.fallback(self, st, fr, c, args)
        if r is not None:
            return r
        return self.opaque_call(st, fr, c, args)

    def opaque_call(self, st, fr, c, args):
        key = c['key']
        self.unmodelled[key] = self.unmodelled.get(key, 0) + 1
        vals = []
        for a in args:
            if a[0] == 'mref':
                vals.append(self.read(st, a[1], a[2]))
            else:
                vals.append(a)
        r = ('app', 'ext:' + key) + tuple(vals)
        for i, a in enumerate(args):
            for q in inner_places(a):
                self.write(st, q[1], list(q[2]), ('app', 'havoc:' + key, ('int', i)) + tuple(vals))
                st.note('havoc by ' + key)
        return [(st, r)]

    def ctor(self, c, args):
        seg = c['key'].split('::')
        last = seg[-1]
        if len(seg) >= 2 and last in (self.p.enums.get(seg[-2]) or []):
            return ('adt', seg[-2], self.p.enums[seg[-2]].index(last), last, tuple(args))
        if c['kind'] == 'path' and last in self.p.fields and last[:1].isupper():
            return ('adt', last, 0, None, tuple(args))
        return None

    def apply(self, st, f, args):
        """call a callable value"""
        f0 = f
        if f[0] == 'mref':
            f = self.read(st, f[1], f[2])
        if f[0] == 'clo':
            fn = self.p.closures.get(f[1])
            if fn is None:
                return self.opaque_apply(st, f, args)
            fn.parse()
            a0 = f
            if f0[0] == 'mref':
                a0 = f0
            elif fn.argtys and fn.argtys[0].startswith('&mut'):
                h = st.alloc(f)
                a0 = ('mref', h, ())
            return self.exec_fn(st, fn, [a0] + list(args), f[3] if len(f) > 3 else None)
        if f[0] == 'fn':
            c = parse_callee(f[1])
            dummy = Frame(None, -1, f[2] if len(f) > 2 else None)
            return self.dispatch(st, dummy, c, list(args), f[1])
        h = self.hooks.get('apply')
        if h is not None:
            r = h(self, st, f, args)
            if r is not None:
                return r
        return self.opaque_apply(st, f, args)

    def opaque_apply(self, st, f, args):
        vals = tuple(self.read(st, a[1], a[2]) if a[0] == 'mref' else a for a in args)
        # a callable applied to a ParseState is a child parser
        if len(vals) == 1 and vals[0][0] == 'adt' and vals[0][1] == 'ParseState':
            return self.child(st, f, vals[0])
        r = st.norm(('app', 'call', f) + vals)
        st.event('call', f, vals)
        return [(st, r)]

    def child(self, st, f, ps):
        """an opaque parser run at a position: success (value, length) or failure (error, commit status), functional in its arguments"""
        inp, off = ps[4][0], st.norm(ps[4][1])
        key = st.norm(('child', f, inp, off))
        st.event('child', f, inp, off)
        m = st.memo.get(key)
        if m is None:
            i = self.child_ids.setdefault(key, len(self.child_ids) + 1)
        else:
            i = m[1]
        nm = show(f) if f[0] == 'sym' else 'sub'
        val, ln, err, cs = [('sym', '%s.%s#%d' % (nm, w, i)) for w in ('val', 'len', 'err', 'status')]
        succ = ('adt', 'ParseResult', 0, 'Success', (st.norm(val), st.norm(ln)))
        fail = ('adt', 'ParseResult', 1, 'Failure', (err, cs))
        if m is not None:
            return [(st, succ if m[0] == 'S' else fail)]
        s2 = st.copy()
        out = []
        st.memo[key] = ('S', i)
        ok = True
        n = self.seqlen(st, inp)
        for tt in (ln, sub(sub(n, off), ln)):
            if not st.add_ge(tt):
                ok = False
                break
        if ok:
            out.append((st, st.norm(succ)))
        s2.memo[key] = ('F', i)
        out.append((s2, fail))
        h = self.hooks.get('child')
        if h is not None:
            out = h(self, f, inp, off, out)
        return out

    def resolve(self, st, fr, c, args):
        """-> (Fn, selfty) or (None, None)"""
        if c['kind'] == 'trait':
            method = c['method']
            tr = c['trait']
            ty = c['self']
            if ty == 'Self' and fr is not None and fr.selfty:
                ty = fr.selfty
            head = M.type_head(ty)
            cands = [f for f in self.p.methods.get(method, []) if f.trait == tr or (tr == 'Iterator' and f.trait in ('MIter', 'MBack'))
                     or (tr == 'MIter' and f.trait == 'Iterator')]
            dyn = self.value_head(st, args[0]) if args else None
            best = None
            pick = [f for f in cands if M.type_head(f.selfty) == head and not is_param(head)]
            if not pick and dyn:
                pick = [f for f in cands if M.type_head(f.selfty) == dyn]
                if pick:
                    ty = dyn
            if not pick and args and not dyn and is_param(head):
                a0 = args[0] if args[0][0] != 'mref' else self.read(st, args[0][1], args[0][2])
                if is_num(a0):
                    pick = [f for f in cands if M.type_head(f.selfty) in UNS_MAX or M.type_head(f.selfty) in SIG or M.type_head(f.selfty) in ('usize', 'u64')]
                    if len(pick) == 1:
                        ty = M.type_head(pick[0].selfty)
                    else:
                        pick = []
            if len(pick) > 1:
                ex = [f for f in pick if norm_ty(f.selfty) == norm_ty(ty)]
                if ex:
                    pick = ex
                if len(pick) > 1:
                    # same head, several impls (e.g. From<A>/From<B>): match by trait text / arg types
                    pick = self.by_args(st, pick, args, c)
            if pick:
                return pick[0], ty
            # trait default method
            dm = [f for f in self.p.free.get(method, []) if f.name.split('::')[-2:-1] == [tr]]
            if dm:
                st_ = ty if not is_param(head) else (dyn or ty)
                return dm[0], st_
            # blanket impl for a type parameter
            bl = [f for f in cands if is_param(M.type_head(f.selfty)) and len(M.type_head(f.selfty)) <= 2]
            if bl:
                return bl[0], ty
            return None, None
        seg = c['key'].split('::')
        method = seg[-1]
        if len(seg) >= 2:
            owner = seg[-2]
            cands = [f for f in self.p.methods.get(method, []) if f.trait is None and M.type_head(f.selfty) == owner]
            if not cands and owner == 'Self' and fr is not None and fr.selfty:
                o2 = M.type_head(fr.selfty)
                cands = [f for f in self.p.methods.get(method, []) if M.type_head(f.selfty) == o2]
            if cands:
                if len(cands) > 1 and fr is not None and fr.fn is not None:
                    same = [f for f in cands if f.crate == fr.fn.crate]
                    cands = same or cands
                if len(cands) > 1:
                    cands = self.by_args(st, cands, args, c)
                return cands[0], owner
        cands = [f for f in self.p.free.get(method, []) if f.crate != 'models']
        if len(seg) > 1:
            def score(f):
                fs = M.strip_generics(f.name).split('::')
                k = 0
                while k < min(len(fs), len(seg)) and fs[-1 - k] == seg[-1 - k]:
                    k += 1
                return k
            cr = {v[3]: k for k, v in M.CRATES.items()}
            if seg[0] in cr:
                cands = [f for f in cands if f.crate == cr[seg[0]]]
            elif fr is not None and fr.fn is not None:
                cands = [f for f in cands if f.crate == fr.fn.crate] or cands
            if seg[-2][:1].isupper() or seg[-2] in ('mem', 'str', 'char', 'ptr', 'slice', 'cmp', 'fmt', 'iter', 'num', 'panicking', 'vec', 'env', 'fs', 'thread', 'process'):
                cands = [f for f in cands if score(f) >= 2]
            cands.sort(key=score, reverse=True)
        else:
            if fr is not None and fr.fn is not None:
                cands = [f for f in cands if f.crate == fr.fn.crate] or cands
            cands = [f for f in cands if M.strip_generics(f.name) == seg[0]] or cands
        if cands:
            return cands[0], None
        return None, None

    def by_args(self, st, cands, args, c):
        """choose between several impls with the same head"""
        res = []
        raw = c.get('traitfull') or ''
        i = raw.find('<')
        targs = norm_ty(raw[i + 1:-1]) if i >= 0 else None
        if targs is not None:
            ex = []
            for f in cands:
                full = trait_full(f.name)
                j = full.find('<') if full else -1
                if j >= 0 and norm_ty(full[j + 1:full.rindex('>')]) == targs:
                    ex.append(f)
            if len(ex) >= 1:
                return ex
        for f in cands:
            ok = True
            for a, t in zip(args, f.argtys):
                h = self.value_head(st, a)
                th = M.type_head(t)
                if h and not is_param(th) and th != h and th not in ('dyn',):
                    ok = False
            if ok:
                res.append(f)
        return res or cands

    def value_head(self, st, v):
        if v[0] == 'mref':
            v = self.read(st, v[1], v[2])
        if v[0] == 'adt':
            return v[1]
        if v[0] == 'seq' or v[0] == 'slice':
            return None
        if v[0] in ('str', 'cat'):
            return 'str'
        if v[0] == 'app' and v[1] == 'elem':
            b = v[2]
            if b[0] == 'sym':
                return self.hooks.get('elem_head', {}).get(b[1]) or self.elemty_of(b)
            return self.elemty_of(b)
        return self.hooks.get('heads', {}).get(v)


_pc = {}


def parse_callee(s):
    r = _pc.get(s)
    if r is not None:
        return r
    r = _parse_callee(s)
    _pc[s] = r
    return r


def _parse_callee(s):
    s0 = s
    if s.startswith(('move ', 'copy ')):
        return {'kind': 'value', 'path': s, 'method': None, 'key': s, 'full': s0}
    if s.startswith('const '):
        s = s[6:]
    if s.startswith('<') and not s.startswith('<impl'):
        q = M.match_close(s, 0)
        inner = s[1:q]
        rest = s[q + 1:]
        assert rest.startswith('::'), s
        method_full = rest[2:]
        method = M.strip_generics(method_full)
        k = M.find_top(inner, ' as ')
        if k >= 0:
            T, tr = inner[:k].strip(), inner[k + 4:].strip()
            trn = M.last_seg(tr)
            return {'kind': 'trait', 'self': T, 'trait': trn, 'method': method, 'traitfull': tr,
                    'key': trn + '::' + method, 'full': s0, 'gen': method_full[len(method):] if '<' in method_full else ''}
        # <[T]>::len style
        h = M.type_head(inner)
        return {'kind': 'path', 'method': method, 'key': ('slice' if h == '[]' else h) + '::' + method, 'full': s0,
                'self': inner, 'gen': method_full}
    key = re.sub(r"::<impl [^:]*?>::|::<impl .*?>::", '::', s) if '::<impl ' in s else s
    im = re.search(r'::<impl (.*?)>::(\w+)', s)
    if im and ' at ' not in im.group(0)[:10]:
        # core::slice::<impl [T]>::first::<..>
        j = s.index('::<impl ')
        q = M.match_close(s, j + 2)
        ty = s[j + 8:q]
        rest = s[q + 3:]
        method = M.strip_generics(rest)
        h = M.type_head(ty)
        return {'kind': 'path', 'method': method, 'key': ('slice' if h == '[]' else h) + '::' + method, 'full': s0, 'self': ty, 'gen': rest}
    key = M.strip_generics(key)
    seg = key.split('::')
    return {'kind': 'path', 'method': seg[-1], 'key': key, 'full': s0, 'gen': s}


def trait_full(name):
    m = M.IMPL_AT.search(name)
    if not m:
        return None
    t = M.span_text(m.group(1), int(m.group(2)), int(m.group(3)), int(m.group(4)), int(m.group(5)))
    t = ' '.join(re.sub(r'//[^\n]*', '', t).split())
    if not t.startswith('impl'):
        return None
    t = t[4:].strip()
    if t.startswith('<'):
        t = t[M.match_close(t, 0) + 1:].strip()
    k = M.find_top(t, ' for ')
    return t[:k] if k >= 0 else None


def is_param(h):
    return bool(re.match(r'^[A-Z][A-Z0-9]?$', h)) or h in ('Self', '?', 'dyn', 'BOP', 'impl')


def norm_ty(t):
    t = re.sub(r"'\w+", '', t)
    t = re.sub(r'\b\w+::', '', t)
    t = re.sub(r'[\s,]+', ' ', t).replace('< ', '<').replace(' >', '>').strip()
    return t.replace(' ', '')


def mk_and(a, b):
    if a == TRUE:
        return b
    if b == TRUE:
        return a
    if a == FALSE or b == FALSE:
        return FALSE
    return ('and', a, b)


def mk_or(a, b):
    if a == FALSE:
        return b
    if b == FALSE:
        return a
    if a == TRUE or b == TRUE:
        return TRUE
    return ('or', a, b)


def _place_text(p):
    return '_%d%s' % (p[0], ''.join('.' + str(x[1]) if x[0] == 'f' else '*' for x in p[1]))


ESC = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0', '\\': '\\', "'": "'", '"': '"'}


def rust_unescape(s):
    out = []
    i = 0
    while i < len(s):
        if s[i] == '\\':
            c = s[i + 1]
            if c == 'x':
                out.append(chr(int(s[i + 2:i + 4], 16)))
                i += 4
                continue
            if c == 'u':
                j = s.index('}', i)
                out.append(chr(int(s[i + 3:j], 16)))
                i = j + 1
                continue
            out.append(ESC.get(c, c))
            i += 2
            continue
        out.append(s[i])
        i += 1
    return ''.join(out)


def rust_unescape_bytes(s):
    out = []
    i = 0
    while i < len(s):
        if s[i] == '\\':
            c = s[i + 1]
            if c == 'x':
                out.append(int(s[i + 2:i + 4], 16))
                i += 4
                continue
            out.append(ord(ESC.get(c, c)))
            i += 2
            continue
        out += list(s[i].encode())
        i += 1
    return bytes(out)
