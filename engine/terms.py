"""Terms (immutable tuples), affine forms, and the convex-constraint domain used by the flow analysis."""
from fractions import Fraction
from math import gcd

import time


class Budget(Exception):
    pass


TOTAL = [time.monotonic() + 450]      # whole run
DEADLINE = [time.monotonic() + 450]   # current obligation


def start_obligation(seconds=60):
    DEADLINE[0] = min(time.monotonic() + seconds, TOTAL[0])


def check_deadline():
    if time.monotonic() > DEADLINE[0]:
        raise Budget('time limit of the obligation')


_ids = {}


def _oid(t):
    i = _ids.get(t)
    if i is None:
        i = _ids[t] = len(_ids)
    return i


UNIT = ('tup', ())
TRUE = ('bool', True)
FALSE = ('bool', False)


def I(n):
    return ('int', n)


def sym(n):
    return ('sym', n)


def app(f, *args):
    return ('app', f) + args


def is_num(t):
    return t[0] in ('int', 'lin')


def lin_parts(t):
    """-> (const, {atom: coef})"""
    if t[0] == 'int':
        return t[1], {}
    if t[0] == 'lin':
        return t[1], dict(t[2])
    return 0, {t: 1}


def mk_lin(c, d):
    d = {a: k for a, k in d.items() if k != 0}
    if not d:
        return ('int', c)
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1:
            return a
    return ('lin', c, tuple(sorted(d.items(), key=lambda x: _oid(x[0]))))


def add(a, b, k=1):
    if b == ('int', 0):
        return a
    c1, d1 = lin_parts(a)
    c2, d2 = lin_parts(b)
    d = dict(d1)
    for x, y in d2.items():
        d[x] = d.get(x, 0) + k * y
    return mk_lin(c1 + k * c2, d)


def sub(a, b):
    return add(a, b, -1)


def mulk(a, k):
    c, d = lin_parts(a)
    return mk_lin(c * k, {x: y * k for x, y in d.items()})


def atoms_of(t, acc=None):
    """every sub-term (used to find mentions)"""
    if acc is None:
        acc = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and x not in acc:
                acc.add(x)
            for y in x:
                if isinstance(y, tuple):
                    stack.append(y)
    return acc


def mentions(t, syms):
    stack = [t]
    while stack:
        x = stack.pop()
        if x in syms:
            return True
        for y in x:
            if isinstance(y, tuple):
                stack.append(y)
    return False


_nsub = 0


def subst(t, m):
    """replace sub-terms by map m (terms -> terms), rebuilding affine forms"""
    global _nsub
    _nsub += 1
    if not _nsub & 0xffff:
        check_deadline()
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    if not t:
        return t
    if t[0] == 'lin':
        r = ('int', t[1])
        for a, k in t[2]:
            r = add(r, subst(a, m), k)
        return r
    new = tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    return new if new != t else t


# ------------------------------------------------------------------ constraints (convex polyhedra, FM elimination)
def _norm(c, d):
    """normalise c + sum d >= 0 over integers"""
    if not d:
        return c, d
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if g > 1:
        return c // g, {a: v // g for a, v in d.items()}
    return c, d


def infeasible(cons, limit=600):
    """cons: list of (c, {atom:int}) meaning c + sum >= 0. True only if proven empty."""
    cur = {}
    for c, d in cons:
        c, d = _norm(c, d)
        if not d:
            if c < 0:
                return True
            continue
        k = tuple(sorted(((_oid(a), v) for a, v in d.items())))
        if k not in cur or cur[k][0] > c:
            cur[k] = (c, d)
    cur = list(cur.values())
    while cur:
        pos, neg = {}, {}
        for c, d in cur:
            for a, v in d.items():
                if v > 0:
                    pos[a] = pos.get(a, 0) + 1
                else:
                    neg[a] = neg.get(a, 0) + 1
        best, bc = None, None
        for a in set(pos) | set(neg):
            cost = pos.get(a, 0) * neg.get(a, 0) - pos.get(a, 0) - neg.get(a, 0)
            if bc is None or cost < bc or (cost == bc and _oid(a) < _oid(best)):
                best, bc = a, cost
        if best is None:
            return False
        P = [x for x in cur if x[1].get(best, 0) > 0]
        N = [x for x in cur if x[1].get(best, 0) < 0]
        R = [x for x in cur if best not in x[1]]
        new = {}
        for c, d in R:
            k = tuple(sorted(((_oid(a), v) for a, v in d.items())))
            if k not in new or new[k][0] > c:
                new[k] = (c, d)
        for c1, d1 in P:
            for c2, d2 in N:
                k1, k2 = -d2[best], d1[best]
                c = c1 * k1 + c2 * k2
                d = {}
                for a, v in d1.items():
                    d[a] = d.get(a, 0) + v * k1
                for a, v in d2.items():
                    d[a] = d.get(a, 0) + v * k2
                d = {a: v for a, v in d.items() if v}
                c, d = _norm(c, d)
                if not d:
                    if c < 0:
                        return True
                    continue
                k = tuple(sorted(((_oid(a), v) for a, v in d.items())))
                if k not in new or new[k][0] > c:
                    new[k] = (c, d)
        if len(new) > limit:
            return False
        cur = list(new.values())
    return False


_cache = {}


def entails(ge, t):
    """constraints ge (iterable of terms, each >= 0) entail t >= 0"""
    c, d = lin_parts(t)
    if not d:
        return c >= 0
    # relevance filter: connected component
    key = (ge, t)
    r = _cache.get(key)
    if r is not None:
        return r
    check_deadline()
    rel = set(d)
    todo = [lin_parts(g) for g in ge]
    used = []
    changed = True
    while changed:
        changed = False
        rest = []
        for cc, dd in todo:
            if any(a in rel for a in dd):
                used.append((cc, dd))
                for a in dd:
                    if a not in rel:
                        rel.add(a)
                changed = True
            else:
                rest.append((cc, dd))
        todo = rest
    used.append((-c - 1, {a: -v for a, v in d.items()}))
    r = infeasible(used)
    if len(_cache) > 200000:
        _cache.clear()
    _cache[key] = r
    return r


def feasible(ge):
    key = (ge, None)
    r = _cache.get(key)
    if r is None:
        r = not infeasible([lin_parts(g) for g in ge])
        _cache[key] = r
    return r


def show(t, depth=0):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    k = t[0]
    if k == 'int':
        return str(t[1])
    if k == 'bool':
        return str(t[1]).lower()
    if k == 'sym':
        return t[1]
    if k == 'str':
        return repr(t[1])
    if k == 'lin':
        s = ''
        for a, v in t[2]:
            s += ('+' if v > 0 else '-') + ('' if abs(v) == 1 else str(abs(v)) + '*') + show(a)
        if t[1]:
            s += '%+d' % t[1]
        return s.lstrip('+')
    if k == 'app':
        return '%s(%s)' % (t[1], ', '.join(show(x) for x in t[2:]))
    if k == 'adt':
        return '%s{%s}' % (t[3] if t[3] else t[1], ', '.join(show(x) for x in t[4]))
    if k == 'tup':
        return '(%s)' % ', '.join(show(x) for x in t[1])
    if k == 'seq':
        return '[%s]' % ', '.join((show(p[1]) if p[0] == 'e' else '..' + show(p[1])) for p in t[1])
    if k == 'slice':
        return '%s[%s; +%s]' % (show(t[1]), show(t[2]), show(t[3]))
    if k == 'clo':
        return 'closure' + t[1][8:].split('/')[-1]
    if k == 'not':
        return '!' + show(t[1])
    if k == 'ge0':
        return show(t[1]) + '>=0'
    if k == 'eq0':
        return show(t[1]) + '==0'
    return '%s(%s)' % (k, ', '.join(show(x) for x in t[1:]))
