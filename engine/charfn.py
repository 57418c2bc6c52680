"""Feasibility of path facts about characters: facts over case-mapping and bit operations on characters are evaluated for every pair of
ASCII characters and a set of non-ASCII characters with special case mappings (finite evaluation of the terms on the path)."""
from terms import *

SAMPLE = list(range(128)) + [ord(c) for c in 'ÀàßẞİıſKÅåΩωΣςσǅᾳéÉ×÷、あａＡ'] + [0x10FFFF]
ASCII_LOW = lambda n: n + 32 if 65 <= n <= 90 else n
ASCII_UP = lambda n: n - 32 if 97 <= n <= 122 else n
FUNS = ('lower', 'upper', 'str_lower', 'BitXor', 'BitAnd', 'BitOr', 'ext:char::', 'ext:Iterator::')


class Unknown(Exception):
    pass


def is_atom(t):
    return t[0] == 'app' and t[1] == 'elem' and len(t) == 4


def concerns(st):
    """does a fact of the state involve functions of characters?"""
    for k in list(st.facts) + list(st.ge) + list(st.neq):
        for x in atoms_of(k):
            if x[0] == 'app' and isinstance(x[1], str) and x[1].startswith(FUNS):
                return True
    return False


def ev(t, env):
    k = t[0]
    if t in env:
        return env[t]
    if k in ('int', 'bool', 'str'):
        return t[1]
    if k == 'char':
        return t[1] if isinstance(t[1], int) else ord(t[1])
    if k == 'lin':
        return t[1] + sum(c * ev(a, env) for a, c in t[2])
    if k in ('and', 'or'):
        return (ev(t[1], env) and ev(t[2], env)) if k == 'and' else (ev(t[1], env) or ev(t[2], env))
    if k == 'not':
        return not ev(t[1], env)
    if k == 'adt' and t[1] == 'Option':
        return ('None',) if t[3] == 'None' else ('Some', ev(t[4][0], env))
    if k == 'tup':
        return tuple(ev(x, env) for x in t[1])
    if k == 'cat':
        return ''.join(ev(x, env) for x in t[1])
    if k != 'app':
        raise Unknown(show(t))
    f = t[1]
    if is_atom(t):
        raise Unknown(show(t))
    a = [ev(x, env) for x in t[2:]]
    if f == 'lower':
        return ASCII_LOW(a[0])
    if f == 'upper':
        return ASCII_UP(a[0])
    if f == 'eq':
        return a[0] == a[1]
    if f in ('lt', 'le', 'gt', 'ge'):
        return {'lt': a[0] < a[1], 'le': a[0] <= a[1], 'gt': a[0] > a[1], 'ge': a[0] >= a[1]}[f]
    if f == 'char':
        return a[0]
    if f == 'disp':
        return chr(a[0]) if isinstance(a[0], int) else ''.join(map(chr, a[0])) if isinstance(a[0], tuple) else a[0]
    if f == 'str_lower':
        return ''.join(chr(ASCII_LOW(ord(c))) for c in a[0])
    if f == 'BitXor':
        return a[0] ^ a[1]
    if f == 'BitAnd':
        return a[0] & a[1]
    if f == 'BitOr':
        return a[0] | a[1]
    if f == 'rem' and a[1]:
        return a[0] % a[1]
    if f == 'div' and a[1]:
        return a[0] // a[1]
    if f == 'mul':
        return a[0] * a[1]
    if f == 'ext:char::to_lowercase':
        return tuple(map(ord, chr(a[0]).lower()))
    if f == 'ext:char::to_uppercase':
        u = chr(a[0]).upper()
        return tuple(map(ord, u))
    if f == 'ext:Iterator::next':
        return ('Some', a[0][0])
    if f == 'ext:Iterator::eq':
        return a[0] == a[1]
    if f == 'ext:char::is_alphabetic':
        return chr(a[0]).isalpha()
    if f == 'ext:char::is_lowercase':
        return chr(a[0]).islower()
    if f == 'ext:char::is_uppercase':
        return chr(a[0]).isupper()
    raise Unknown(show(t))


def conditions(st):
    """[(predicate on env, atoms, term)] of the facts about characters"""
    out = []

    def put(term, test):
        at = {x for x in atoms_of(term) if is_atom(x)}
        if at:
            out.append((test, at, term))
    for k, b in st.facts.items():
        put(k, lambda v, b=b: bool(v) == b)
    for g in st.ge:
        put(g, lambda v: v >= 0)
    for g in st.neq:
        put(g, lambda v: v != 0)
    for k, v in st.sub.items():
        if isinstance(k, tuple) and isinstance(v, tuple):
            put(('app', 'eq', k, v), lambda v: bool(v))
    return out


def feasible(st):
    """False: no characters satisfy the facts; True: some do, and every fact about characters was evaluated; None: unknown"""
    conds = conditions(st)
    comps = []
    for c in conds:
        at, cs = set(c[1]), [c]
        rest = []
        for a2, c2 in comps:
            if a2 & at:
                at |= a2
                cs += c2
            else:
                rest.append((a2, c2))
        comps = rest + [(at, cs)]
    res = True
    for at, cs in comps:
        at = sorted(at, key=repr)
        if len(at) > 2:
            res = None
            continue
        found = False
        unknown = [False]

        def ok(env):
            for test, _, t in cs:
                try:
                    if not test(ev(t, env)):
                        return False
                except (Unknown, TypeError, ValueError, IndexError):
                    unknown[0] = True
            return True
        for x in SAMPLE:
            if len(at) == 1:
                found = ok({at[0]: x})
            else:
                for y in SAMPLE:
                    if ok({at[0]: x, at[1]: y}):
                        found = True
                        break
            if found:
                break
        if not found:
            return False
        if unknown[0]:
            res = None
    return res
