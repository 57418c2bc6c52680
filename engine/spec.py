"""Reference evaluation: a property is a small reference definition over the outcomes of the opaque parts (child parsers,
callbacks); it is evaluated abstractly under the facts of each leaf of the analysed function and compared with the leaf."""
import interp as IN
import mir as M
from terms import *

ANY = ('any',)
COMMITTED = ('adt', 'CommittedStatus', 0, 'Committed', ())
UNCOMMITTED = ('adt', 'CommittedStatus', 1, 'Uncommitted', ())


class OutOfFuel(Exception):
    pass


class Infeasible(Exception):
    pass


class X:
    """abstract evaluation context of a reference definition (one resolution of its case splits)"""

    def __init__(self, it, st, script, fuel):
        self.it, self.st, self.script, self.pos = it, st, script, 0
        self.widths = []
        self.fuel = fuel
        self.nkids = 0
        self.kids = []
        self.calls = []

    def pick(self, outs):
        if not outs:
            raise Infeasible()
        if len(outs) == 1:
            return outs[0]
        i = 0
        if self.pos < len(self.script):
            i = self.script[self.pos]
        else:
            self.script.append(0)
        if self.pos >= self.fuel:
            raise OutOfFuel()
        self.widths.append(len(outs))
        self.pos += 1
        return outs[min(i, len(outs) - 1)]

    def child(self, p, off):
        st, it = self.st, self.it
        self.nkids += 1
        if self.nkids > 40:      # the definition repeats a run that consumes nothing
            raise OutOfFuel()
        f = it.proj(st, p, ('f', 0, None, '')) if p[0] != 'adt' else p[4][0]
        if f[0] in ('clo', 'fn'):
            ps = ('adt', 'ParseState', 0, None, (IN_P, off))
            outs = it.apply(st, f, [ps])
            self.st, v = self.pick(outs)
            v = self.st.norm(v)
            return ('S', v[4][0], v[4][1]) if v[2] == 0 else ('F', v[4][0], v[4][1])
        outs = it.child(st, f, ('adt', 'ParseState', 0, None, (IN_P, self.st.norm(off))))
        # failure first: keeps reference loops short
        outs = sorted(outs, key=lambda o: -o[1][2])
        self.st, v = self.pick(outs)
        self.kids.append((f, off))
        v = self.st.norm(v)
        return ('S', v[4][0], v[4][1]) if v[2] == 0 else ('F', v[4][0], v[4][1])

    def is_(self, b):
        if b[0] not in ('bool', 'not', 'and', 'or', 'ge0', 'eq0', 'isv', 'app'):
            raise ValueError(b)
        self.st, v = self.pick(self.it.branch(self.st, b))
        return v

    def le(self, a, b):
        return self.is_(IN.mk_ge0(sub(b, a)))

    def lt(self, a, b):
        return self.is_(IN.mk_ge0(add(sub(b, a), I(-1))))

    def eq(self, a, b):
        return self.is_(self.it.eq_term(self.st, a, b))

    def variant(self, x, n):
        self.st, k = self.pick(self.it.variant(self.st, x, n))
        return k

    def call(self, f, *args):
        self.nkids += 1
        if self.nkids > 400:
            raise OutOfFuel()
        if f[0] in ('clo', 'fn'):
            self.st, v = self.pick(self.it.apply(self.st, f, list(args)))
            return v
        self.calls.append((f, args))
        return self.st.norm(('app', 'call', f) + tuple(args))

    def committed(self, status):
        if status[0] == 'adt':
            return status[2] == 0
        return self.variant(status, 2) == 0

    def elem(self, off):
        return self.it.index(self.st, IN_P, off)

    def lenP(self):
        return self.it.seqlen(self.st, IN_P)

    def avail(self, off, n=I(1)):
        """n more elements at off?"""
        return self.le(add(off, n), self.lenP())

    def sl(self, off, n):
        return self.it.mkslice(self.st, IN_P, off, n)


IN_P = ('sym', 'in:P')
IN_OFF = ('sym', 'in:off')


def S(value, length):
    return ('S', value, length)


def Fl(err=ANY, status=ANY):
    return ('F', err, status)


def run_reference(it, st, ref, limit=64, fuel=24):
    """evaluate the reference under the facts of st; yields (state, expected, kids)"""
    script = []
    n = 0
    while True:
        x = X(it, st.copy(), script, fuel)
        try:
            e = ref(x)
            yield x.st, e, x
        except Infeasible:
            pass
        except OutOfFuel:
            yield None, None, x
        # next script
        script = script[:x.pos]
        while script and script[-1] >= x.widths[len(script) - 1] - 1:
            script.pop()
        if not script:
            return
        script[-1] += 1
        n += 1
        if n > limit:
            yield None, None, None
            return


# ---------------------------------------------------------------------------------------- term comparison under facts
def same(it, st, a, b):
    """True = equal under the facts; False = differ; None = cannot tell"""
    if b == ANY or a == ANY:
        return True
    if a[0] == 'mref':
        a = it.read(st, a[1], a[2])
    if b[0] == 'mref':
        b = it.read(st, b[1], b[2])
    a, b = st.norm(a), st.norm(b)
    if b[0] == 'pred':
        return b[1](it, st, a)
    if a == b:
        return True
    if is_num(a) or is_num(b):
        if a[0] in ('adt', 'seq', 'tup') or b[0] in ('adt', 'seq', 'tup'):
            return False
        d = sub(a, b)
        if st.proves_eq(d):
            return True
        if inexact(a) or inexact(b):
            return None
        return False
    if a[0] == 'adt' and b[0] == 'adt':
        if a[1] != b[1]:
            return False
        if a[2] != b[2]:
            return False
        return allsame(it, st, a[4], b[4])
    if a[0] == 'adt' or b[0] == 'adt':
        d, o = (a, b) if a[0] == 'adt' else (b, a)
        k = st.var.get(o)
        vs = it.p.enums.get(d[1])
        if d[3] is None and not vs:      # struct
            return allsame(it, st, d[4], [('app', 'proj', o, ('str', ''), I(i)) for i in range(len(d[4]))])
        if isinstance(k, int):
            if k != d[2]:
                return False
            return allsame(it, st, d[4], [('app', 'proj', o, ('str', d[3] or ''), I(i)) for i in range(len(d[4]))])
        return None if inexact(o) else False
    if a[0] == 'tup' and b[0] == 'tup' and len(a[1]) == len(b[1]):
        return allsame(it, st, a[1], b[1])
    if a[0] in ('seq', 'slice') or b[0] in ('seq', 'slice'):
        return same_seq(it, st, a, b)
    if is_boolish(a) or is_boolish(b):
        if is_boolish(a) and is_boolish(b) or a[0] == 'app' or b[0] == 'app':
            return same_bool(it, st, a, b)
    if a[0] in ('str', 'cat') or b[0] in ('str', 'cat'):
        pa, pb = cat_parts(a), cat_parts(b)
        if pa is not None and pb is not None:
            if len(pa) == len(pb):
                return allsame(it, st, pa, pb)
            return None if inexact(a) or inexact(b) else False
    if inexact(a) or inexact(b):
        return None
    if a[0] == 'app' and b[0] == 'app' and a[1] == b[1] and len(a) == len(b):
        r = True
        for x, y in zip(a[2:], b[2:]):
            if isinstance(x, tuple) and isinstance(y, tuple):
                q = same(it, st, x, y)
                if q is not True:
                    r = q if r is True else r
            elif x != y:
                return False
        if r is True:
            return True
    if st.proves_eq(sub(a, b)):
        return True
    return False


def cat_parts(v):
    if v[0] == 'str':
        return [v] if v[1] else []
    if v[0] == 'cat':
        out = []
        for p in v[1:]:
            if isinstance(p, tuple) and p and isinstance(p[0], tuple):
                out += list(p)
            else:
                out.append(p)
        return out
    return None


def is_boolish(v):
    return v[0] in ('bool', 'ge0', 'eq0', 'not', 'and', 'or', 'isv')


def same_bool(it, st, a, b):
    s = st.copy()
    for s1, va in it.branch(s, a):
        for s2, vb in it.branch(s1, b):
            if va != vb:
                return None if inexact(a) or inexact(b) else False
    return True


def allsame(it, st, xs, ys):
    if len(xs) != len(ys):
        return False
    r = True
    for x, y in zip(xs, ys):
        q = same(it, st, x, y)
        if q is False:
            return False
        if q is None:
            r = None
    return r


def segs(it, st, v):
    if v[0] == 'seq':
        out = []
        for p in v[1]:
            if p[0] == 'e':
                out.append(p)
            else:
                out += segs(it, st, p[1])
        return out
    return [('s', v)]


def same_seq(it, st, a, b):
    if a[0] == 'slice' and b[0] == 'slice' and a[1] == b[1]:
        q = same(it, st, a[3], b[3])
        if q is True and st.proves_eq(a[3]):
            return True
        r = same(it, st, a[2], b[2])
        if q is True and r is True:
            return True
        return False if (q is False or r is False) else None
    # concrete lengths
    la, lb = st.norm(it.seqlen(st, a)), st.norm(it.seqlen(st, b))
    if st.proves_eq(sub(la, lb)) and la[0] == 'int' and la[1] <= 40:
        return allsame(it, st, [it.index(st, a, I(i)) for i in range(la[1])], [it.index(st, b, I(i)) for i in range(la[1])])
    if la[0] == 'int' and lb[0] == 'int' and la != lb:
        return False
    sa, sb = segs(it, st, a), segs(it, st, b)
    sa = [x for x in sa if not (x[0] == 's' and st.proves_eq(it.seqlen(st, x[1])))]
    sb = [x for x in sb if not (x[0] == 's' and st.proves_eq(it.seqlen(st, x[1])))]
    if len(sa) == len(sb):
        r = True
        for x, y in zip(sa, sb):
            if x[0] != y[0]:
                r = None
                break
            if x[0] == 's' and x[1] != y[1] and x[1][0] not in ('seq', 'slice') and y[1][0] not in ('seq', 'slice'):
                q = False if not (inexact(x[1]) or inexact(y[1])) else None
            else:
                q = same(it, st, x[1], y[1])
            if q is not True:
                r = q if r is True else r
        if r is not None:
            return r
    if st.refutes_eq(sub(la, lb)):
        return False
    if inexact(a) or inexact(b):
        return None
    return False


_INEX = ('ext:', 'havoc:', 'opaque', 'upd_at', 'upd')


def inexact(t):
    """mentions a value the transfer functions do not define"""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if len(x) > 1 and x[0] == 'app' and isinstance(x[1], str) and x[1].startswith(_INEX):
                if not x[1].startswith(('ext:RangeArgument', 'ext:Set::', 'ext:Element::')):
                    return True
            if len(x) > 1 and x[0] == 'sym' and x[1] in ('uninit', 'dead'):
                return True
            stack.extend(y for y in x if isinstance(y, tuple))
    return False


def state_inexact(st):
    if st.notes:
        return True
    for k in st.facts:
        if inexact(k):
            return True
    for k in st.var:
        if inexact(k):
            return True
    return any(inexact(g) for g in st.ge)


def show_state(st, n=14):
    out = []
    for k, v in st.memo.items():
        if k[0] == 'child':
            out.append('%s at %s %s' % (show(k[1]), show(k[3]), {'S': 'succeeds', 'F': 'fails'}[v[0]]))
    for k, v in st.facts.items():
        out.append(('' if v else 'not ') + show(k))
    for k, v in st.var.items():
        out.append('%s is variant %s' % (show(k), v))
    for g in st.ge:
        if len(lin_parts(g)[1]) > 1 or lin_parts(g)[0] < 0:
            out.append(show(g) + ' >= 0')
    for g in st.neq:
        out.append(show(g) + ' != 0')
    return out[:n]
