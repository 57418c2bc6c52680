"""T01-T05: toy-language programs. A program template is parsed by the grammar extracted from the MIR of parsers::program and run by the MIR of the interpreter;
result and printed lines are compared with a reference evaluation of the same program."""
import re
from terms import *
import grammar as GR
import interp as IN
import lang as LG
import mir as M
import peval as PE
import spec as SP
import values as V
import core_checks as K
import apps
from values import E, num

ERRS = apps.ERRS
MULT, MOD, ADD, CMP = ('*', '/'), ('%',), ('+', '-'), ('<', '<=', '>', '>=', '==', '!=', '&&', '||')


class Wrong(Exception):
    """the reference program itself is ill-typed"""


# ------------------------------------------------------------------ programs: text
class N:
    """an integer literal: fixed digits and symbolic digits"""
    def __init__(self, *parts):
        self.parts = parts

    def text(self):
        return [p if isinstance(p, str) else (p[0], p[1], p[2]) for p in self.parts]

    def term(self):
        s = ''.join(p if isinstance(p, str) else '\0' for p in self.parts)
        if '\0' not in s:
            return I(int(s))
        sign = 1
        ps = list(self.parts)
        if ps[0] == '-':
            sign, ps = -1, ps[1:]
        return mulk(num(*[p if isinstance(p, str) else p[0] for p in ps]), sign)


def d(n, lo='0', hi='9'):
    return N((n, lo, hi))


def i(k):
    return N(str(k))


SP_STYLES = (dict(o=' ', n='\n  '), dict(o='', n=''), dict(o=' \n\t', n=' \r\n '))


def render(prog, style=0):
    o, n = SP_STYLES[style]['o'], SP_STYLES[style]['n']
    out = []

    def put(*xs):
        for x in xs:
            out.append(x)

    def commas(xs, f):
        for k, x in enumerate(xs):
            if k:
                put(o + ',' + o)
            f(x)

    def ex(e):
        if isinstance(e, N):
            out.extend(e.text())
        elif e is True or e is False:
            put('true' if e else 'false')
        elif isinstance(e, str):
            put(e)
        elif isinstance(e, list):       # operators without parentheses
            for k, x in enumerate(e):
                if k % 2:
                    put(o + x + o)
                else:
                    ex(x)
        elif e[0] == 's':
            put('"')
            out.extend(e[1])
            put('"')
        elif e[0] == 'a':
            put('[' + o)
            commas(e[1], ex)
            put(o + ']')
        elif e[0] == '(':
            put('(' + o)
            ex(e[1])
            put(o + ')')
        elif e[0] == 'call':
            put(e[1] + '(')
            commas(e[2], ex)
            put(')')
        elif e[0] == 'lcall':
            put(e[1] + '[')
            def lab(p):
                put(p[0] + '=')
                ex(p[1])
            commas(e[2], lab)
            put(']')
        else:
            raise ValueError(e)

    def stmt(s):
        k = s[0]
        if k == '=':
            put(s[1] + o + '=' + o)
            ex(s[2])
            put(o + ';' + n)
        elif k == 'e':
            ex(s[1])
            put(o + ';' + n)
        elif k == 'print':
            put('println(')
            ex(s[1])
            put(')' + o + ';' + n)
        elif k == '{':
            put('{' + n)
            for x in s[1]:
                stmt(x)
            put('}' + n)
        elif k == 'if':
            put('if' + o + '(' + o)
            ex(s[1])
            put(o + ')' + o)
            stmt(s[2])
            if len(s) > 3:
                put('else ')
                stmt(s[3])
        elif k == 'while':
            put('while' + o + '(' + o)
            ex(s[1])
            put(o + ')' + o)
            stmt(s[2])
        elif k == 'for':
            put('for' + o + '(' + o + s[1] + ' in ')
            ex(s[2])
            put(' to ')
            ex(s[3])
            put(o + ')' + o)
            stmt(s[4])
        else:
            raise ValueError(s)
    for t in prog:
        put(n)
        if t[0] == 'global':
            put('global ' + t[1] + o + '=' + o)
            ex(t[2])
            put(o + ';')
        else:
            put('fn ' + t[1] + o + '(' + o)
            commas(t[2], put)
            put(o + ')' + o)
            stmt(('{', t[3]))
    res = []
    for x in out:
        if isinstance(x, str) and res and isinstance(res[-1], str):
            res[-1] += x
        elif x != '':
            res.append(x)
    return res


# ------------------------------------------------------------------ programs: meaning
class Ref:
    """reference evaluation; conditions split the analysis state"""

    def __init__(self, it):
        self.it = it

    def cond(self, st, b):
        return [(st, b)] if isinstance(b, bool) else self.it.branch(st, b)

    def binop(self, st, op, a, b):
        """[(state, value)]"""
        if op in ('&&', '||'):
            if a[0] != 'Bool' or b[0] != 'Bool':
                raise Wrong('%s of %s and %s' % (op, a[0], b[0]))
            out = []
            for s, x in self.cond(st, a[1]):
                for s2, y in self.cond(s, b[1]):
                    out.append((s2, ('Bool', (x and y) if op == '&&' else (x or y))))
            return out
        if a[0] != 'Int' or b[0] != 'Int':
            raise Wrong('%s of %s and %s' % (op, a[0], b[0]))
        x, y = a[1], b[1]
        if op == '+':
            return [(st, ('Int', add(x, y)))]
        if op == '-':
            return [(st, ('Int', sub(x, y)))]
        if op == '*':
            if x[0] != 'int' and y[0] != 'int':
                raise Wrong('product of two unknown numbers')
            return [(st, ('Int', mulk(x, y[1]) if y[0] == 'int' else mulk(y, x[1])))]
        if op in ('/', '%'):
            if x[0] != 'int' or y[0] != 'int' or y[1] == 0:
                raise Wrong('division of unknown numbers')
            q = abs(x[1]) // abs(y[1]) * (1 if (x[1] < 0) == (y[1] < 0) else -1)
            return [(st, ('Int', I(q if op == '/' else x[1] - q * y[1])))]
        b = {'<': IN.mk_ge0(sub(sub(y, x), I(1))), '<=': IN.mk_ge0(sub(y, x)), '>': IN.mk_ge0(sub(sub(x, y), I(1))), '>=': IN.mk_ge0(sub(x, y)),
             '==': IN.mk_eq0(sub(x, y)), '!=': IN.nt(IN.mk_eq0(sub(x, y)))}[op]
        return [(s, ('Bool', v)) for s, v in self.it.branch(st, b)]

    def ex(self, w, e):
        """w: (state, frames, printed) -> [(w, value)]"""
        if isinstance(e, N):
            return [(w, ('Int', e.term()))]
        if e is True or e is False:
            return [(w, ('Bool', e))]
        if isinstance(e, str):
            for f in reversed(w[1]):
                if e in f:
                    return [(w, f[e])]
            raise Wrong('no variable ' + e)
        if isinstance(e, list):
            return self.infix(w, e)
        if e[0] == 's':
            es = []
            for p in e[1]:
                es += [I(ord(c)) for c in p] if isinstance(p, str) else [E(p[0])]
            if len(e) > 2:
                es = [I(ord(c)) for c in e[2]]
            return [(w, ('String', es))]
        if e[0] == 'a':
            return [(w2, ('Array', vs)) for w2, vs in self.all(w, e[1])]
        if e[0] == '(':
            return self.ex(w, e[1])
        if e[0] in ('call', 'lcall'):
            fn = self.fns[e[1]]
            out = []
            for w2, vs in self.all(w, e[2] if e[0] == 'call' else [x[1] for x in e[2]]):
                names = fn[2] if e[0] == 'call' else [x[0] for x in e[2]]
                frame = dict(zip(names, vs))
                for w3, v in self.block((w2[0], w2[1] + (frame,), w2[2]), fn[3]):
                    out.append(((w3[0], w2[1], w3[2]), v))
            return out
        raise ValueError(e)

    def all(self, w, xs):
        cur = [(w, [])]
        for x in xs:
            cur = [(w3, vs + [v]) for w2, vs in cur for w3, v in self.ex(w2, x)]
        return cur

    def infix(self, w, e):
        """values first, left to right, then the operators by level"""
        out = []
        for w2, vs in self.all(w, e[::2]):
            cur = [(w2[0], vs, list(e[1::2]))]
            for level in (MULT, MOD, ADD, CMP):
                while True:
                    nxt = []
                    for st, xs, ops in cur:
                        k = next((k for k, op in enumerate(ops) if op in level), None)
                        if k is None:
                            nxt.append((st, xs, ops))
                            continue
                        for s, v in self.binop(st, ops[k], xs[k], xs[k + 1]):
                            nxt.append((s, xs[:k] + [v] + xs[k + 2:], ops[:k] + ops[k + 1:]))
                    if all(not any(o in level for o in ops) for _, _, ops in nxt):
                        cur = nxt
                        break
                    cur = nxt
            out += [((st, w2[1], w2[2]), xs[0]) for st, xs, ops in cur]
        return out

    def block(self, w, stmts):
        cur = [(w, None)]
        for s in stmts:
            cur = [r for w2, _ in cur for r in self.stmt(w2, s)]
        return cur

    def stmt(self, w, s):
        k = s[0]
        if k == '=':
            out = []
            for w2, v in self.ex(w, s[2]):
                fr = dict(w2[1][-1])
                fr[s[1]] = v
                out.append(((w2[0], w2[1][:-1] + (fr,), w2[2]), v))
            return out
        if k == 'e':
            return self.ex(w, s[1])
        if k == 'print':
            return [((w2[0], w2[1], w2[2] + (v,)), v) for w2, v in self.ex(w, s[1])]
        if k == '{':
            return self.block(w, s[1])
        if k in ('if', 'while'):
            out, work, n = [], [w], 0
            while work:
                w = work.pop()
                n += 1
                if n > 200:
                    raise Wrong('too many rounds')
                for w2, c in self.ex(w, s[1]):
                    if c[0] != 'Bool':
                        raise Wrong('condition is ' + c[0])
                    for st, b in self.cond(w2[0], c[1]):
                        w3 = (st, w2[1], w2[2])
                        if k == 'if':
                            out += self.stmt(w3, s[2]) if b else self.stmt(w3, s[3]) if len(s) > 3 else [(w3, None)]
                        elif b:
                            work += [w4 for w4, _ in self.stmt(w3, s[2])]
                        else:
                            out.append((w3, None))
            return out
        if k == 'for':
            return self.block(w, [('=', s[1], s[2]), ('while', [s[1], '<', s[3]], ('{', [s[4], ('=', s[1], [s[1], '+', i(1)])]))])
        raise ValueError(s)

    def program(self, st, prog):
        """[(state, value or None when unspecified, printed values)]"""
        self.fns = {t[1]: t for t in prog if t[0] == 'fn'}
        cur = [(st, ({},), ())]
        for t in prog:
            if t[0] == 'global':
                cur = [w2 for w in cur for w2, _ in self.stmt(w, ('=', t[1], t[2]))]
        return [(w2[0], v, w2[2]) for w in cur for w2, v in self.block(w, self.fns['main'][3])]


# ------------------------------------------------------------------ the toy language as implemented
class TSuite(V.Suite):
    accepts = True

    def __init__(self, P, res, prop):
        self.P, self.res, self.prop = P, res, prop
        self.crate, self.top = 'toys', LG.CHAR
        fns = [f for f in P.fns if f.crate == 'toys' and f.kind == 'fn' and f.name.split('::')[-1] == 'program']
        self.fn = fns[0] if len(fns) == 1 else None
        self.pv = PE.PV(P, LG.CHAR, 'toys')
        self.pv.it.rec_limit = 80
        self.pv.it.max_depth = 900
        self.jobs = []
        self.ntempl = 0
        self.cmp = V.Cmp
        if self.fn is not None:
            _, _, self.g = GR.build(P, self.fn)
            self.new = self.method('Interpreter', 'new')
            self.main = self.method('Interpreter', 'call_main')

    def enter(self, *parts):
        st = self.pv.template(*parts)
        it = self.pv.it
        out = []
        for s, v in self.pv.run_grammar(st, self.g, self.pv.mktext(self.pv.elems), 'parse_as_result'):
            if v[3] != 'Ok':
                out.append((s, v))
                continue
            for s, iv in it.exec_fn(s, self.new, [], None):
                h = s.alloc(iv)
                s.trace = ()
                for s2, r in it.exec_fn(s, self.main, [('mref', h, ()), v[4][0]], None):
                    out.append((s2, IN.Ok(s2.norm(r))))
        return out

    def decide(self, lab, prog_style, check):
        prog, style = prog_style
        parts = render(prog, style)
        it = self.pv.it
        np = len(it.panics)
        nd = len(self.res.undecided)
        V.Suite.decide(self, lab, parts, self.against(prog))
        bounds = {E(p[0]): tuple(ord(x) if isinstance(x, str) else x for x in p[1:]) for p in parts if not isinstance(p, str)}
        for st, kind, fn, msg in it.panics[np:]:
            if SP.state_inexact(st):
                self.res.undecided.append((lab, 'panic on an inexact path: %s' % (msg,)))
                continue
            env = self.cmp(self.pv, st, bounds).env()
            if env is None:
                continue
            self.res.decided[:] = [x for x in self.res.decided if x != lab]
            self.res.undecided[nd:] = []
            self.res.viol.append((self.prop, '%s|%s' % (lab, kind), {'construct': getattr(fn, 'name', str(fn)),
                                                                     'what': 'running %s aborts: %s %s' % (self.describe(parts, env), kind, msg), 'template': repr(parts)}))
        del it.panics[np:]

    def describe(self, parts, env):
        return 'the program %r' % V.concrete(parts, env)

    def load(self, st, v):
        while v[0] == 'mref':
            v = self.pv.it.read(st, v[1], v[2])
        return st.norm(v)

    def against(self, prog):
        def check(S, st, v):
            for st2, want, printed in Ref(S.pv.it).program(st.copy(), prog):
                got = [e for e in st.trace if e[0] == 'print' and e[1] == ('str', '_print')]
                yield st2, 'the number of printed lines', I(len(got)), I(len(printed))
                for k, (g, w) in enumerate(zip(got, printed)):
                    yield st2, 'printed line %d' % (k + 1), g[2], ('cat', (self.text(w), ('str', '\n')))
                if want is not None:
                    yield from self.value(st2, v, want, 'the result')
        return check

    def text(self, w):
        if w[0] == 'Int':
            return ('str', str(w[1][1])) if w[1][0] == 'int' else ('app', 'disp', w[1])
        if w[0] == 'Bool':
            return ('str', 'true' if w[1] else 'false')
        if w[0] == 'String':
            return self.pv.mktext(w[1])
        return ('cat', (('str', '['),) + tuple(x for k, y in enumerate(w[1]) for x in ((('str', ','),) if k else ()) + (self.text(y),)) + (('str', ']'),))

    def value(self, st, got, want, where):
        got = self.load(st, got)
        if got[0] != 'adt':
            yield st, where, got, ('str', want[0])
            return
        if got[3] != want[0]:
            yield st, 'the kind of ' + where, ('str', got[3]), ('str', want[0])
            return
        x = self.load(st, got[4][0])
        if want[0] == 'Int':
            yield st, where, x, want[1]
        elif want[0] == 'Bool':
            for s, b in self.pv.it.branch(st.copy(), x if x[0] != 'sym' else x):
                yield s, where, ('bool', b), ('bool', want[1])
        elif want[0] == 'String':
            yield st, where, x, self.pv.mktext(want[1])
        else:
            xs = [p[1] for p in x[1]] if x[0] == 'seq' and all(p[0] == 'e' for p in x[1]) else None
            if xs is None:
                yield st, where, x, ('str', 'a sequence')
                return
            yield st, 'the number of elements of ' + where, I(len(xs)), I(len(want[1]))
            for k, (a, b) in enumerate(zip(xs, want[1])):
                yield from self.value(st, a, b, 'element %d of %s' % (k, where))

    def prog(self, lab, *tops, style=0):
        self.run(lab, (list(tops), style), None)

    def body(self, lab, *stmts, style=0):
        self.prog(lab, ('fn', 'main', [], list(stmts)), style=style)


# ------------------------------------------------------------------ generated programs
class Gen:
    """well-typed programs of all statement kinds, from a fixed seed; numbers are symbolic digits"""
    def __init__(self, seed):
        import random
        self.r = random.Random(seed)
        self.nd = self.nf = self.nc = 0

    def digit(self):
        self.nd += 1
        return d('d%d' % self.nd) if self.r.random() < .5 and self.nd < 6 else i(self.r.randint(0, 9))

    def atom(self, sc, depth):
        r = self.r
        k = r.random()
        if sc and k < .55:
            return r.choice(sorted(sc))
        if k < .8 or depth <= 0:
            return self.digit()
        if self.fns and k < .93:
            f, n = r.choice(self.fns)
            args = [self.expr(sc, depth - 1) for _ in range(n)]
            if n and r.random() < .4:
                named = list(zip(PARAMS[f][:n], args))
                r.shuffle(named)
                return ('lcall', f, named)
            return ('call', f, args)
        return ('(', self.expr(sc, depth - 1))

    def expr(self, sc, depth=2):
        r = self.r
        out = [self.atom(sc, depth)]
        for _ in range(r.choice((0, 0, 1, 1, 2))):
            op = r.choice('+-+-*')
            out += [op, i(r.randint(1, 3))] if op == '*' else [op, self.atom(sc, depth)]
        return out[0] if len(out) == 1 else out

    def cond(self, sc):
        r = self.r
        c = [self.atom(sc, 0), r.choice(('<', '<=', '>', '>=', '==', '!=')), self.digit() if r.random() < .3 else i(r.randint(0, 9))]
        return [('(', c), r.choice(('&&', '||')), r.choice((True, False))] if r.random() < .25 else c

    def stmts(self, sc, n, depth):
        out = []
        for _ in range(n):
            s, sc = self.stmt(sc, depth)
            out.append(s)
        return out, sc

    def body(self, sc, depth):
        b, _ = self.stmts(sc, self.r.randint(0, 2), depth - 1)
        return ('{', b)

    def stmt(self, sc, depth):
        r = self.r
        k = r.random()
        if k < .38 or depth <= 0:
            n = r.choice('xyzw')
            return ('=', n, self.expr(sc)), sc | {n}
        if k < .58:
            return ('print', self.expr(sc)), sc
        if k < .66:
            return ('e', self.expr(sc)), sc
        if k < .72:
            b, sc2 = self.stmts(sc, r.randint(0, 2), depth - 1)
            return ('{', b), sc2
        if k < .88:
            self.nc += 1
            c = self.cond(sc) if self.nc < 5 else r.choice((True, False))
            t = ('if', c, self.body(sc, depth))
            return (t if r.random() < .4 else t + (self.body(sc, depth) if r.random() < .7 else ('if', r.choice((True, False)), self.body(sc, depth), self.body(sc, depth)),)), sc
        self.nf += 1
        v = 'k%d' % self.nf
        if k < .95:
            lo = r.randint(0, 3)
            return ('for', v, i(lo), i(lo + r.randint(0, 3)), self.body(sc | {v}, depth)), sc
        b, _ = self.stmts(sc | {v}, r.randint(0, 1), depth - 1)
        return ('{', [('=', v, i(r.randint(0, 2))), ('while', [v, '<', i(r.randint(1, 3))], ('{', b + [('=', v, [v, '+', i(1)])]))]), sc | {v}

    def program(self):
        r = self.r
        self.fns = []
        tops, gl = [], frozenset()
        for g in ('g', 'h')[:r.randint(0, 2)]:
            tops.append(('global', g, self.expr(gl, 0)))
            gl |= {g}
        for f, n in (('f1', r.randint(0, 2)), ('f2', r.randint(1, 3)))[:r.randint(0, 2)]:
            sc = gl | set(PARAMS[f][:n])
            b, sc2 = self.stmts(sc, r.randint(0, 2), 1)
            tops.append(('fn', f, PARAMS[f][:n], b + [('e', self.expr(sc2))]))
            self.fns.append((f, n))
        b, sc = self.stmts(gl, r.randint(2, 4), 3)
        tops.append(('fn', 'main', [], b + [('e', self.expr(sc))]))
        if r.random() < .5:
            r.shuffle(tops[len(gl):])
        return tops


PARAMS = {'f1': ['x', 'q'], 'f2': ['p', 'y', 'x']}


def generated(S, prop, lo, hi):
    for k in range(lo, hi):
        S.prog('generated program %d' % k, *Gen(k).program(), style=k % 3)


# ------------------------------------------------------------------ T01
def check_operators(P, res, tier):
    S = TSuite(P, res, 'T01')
    styles = (0, 1) if tier == 'quick' else (0, 1, 2)
    a, b, c = d('a'), d('b'), d('c')
    for st in styles:
        for op in ('+', '-', '<', '<=', '>', '>=', '==', '!='):
            S.body('a %s b (layout %d)' % (op, st), ('e', [a, op, b]), style=st)
            S.body('aa %s -b (layout %d)' % (op, st), ('e', [N(('a', '1', '9'), ('a2', '0', '9')), op, N('-', ('b', '1', '9'))]), style=st)
        for x in (7, 8, 17, -17, 100):
            S.body('%d * b (layout %d)' % (x, st), ('e', [i(x), '*', b]), style=st)
            S.body('b * %d (layout %d)' % (x, st), ('e', [b, '*', i(x)]), style=st)
            for y in (1, 3, -3, 5, 17):
                for op in '/%':
                    S.body('%d %s %d (layout %d)' % (x, op, y, st), ('e', [i(x), op, i(y)]), style=st)
    T, F = ('(', [a, '<', i(5)]), ('(', [b, '>=', i(5)])
    for op in ('&&', '||'):
        S.body('a < 5 %s b >= 5' % op, ('e', [T, op, F]))
        for x in (True, False):
            for y in (True, False):
                S.body('%s %s %s' % (x, op, y), ('e', [x, op, y]))
        S.body('three operands of ' + op, ('e', [T, op, F, op, ('(', [c, '==', i(5)])]))
    ar = ('*', '/', '%', '+', '-')
    vals = (20, 6, 4, 3)
    for o1 in ar:
        for o2 in ar:
            S.body('20 %s 6 %s 4' % (o1, o2), ('e', [i(20), o1, i(6), o2, i(4)]))
            S.body('20 %s (6 %s 4)' % (o1, o2), ('e', [i(20), o1, ('(', [i(6), o2, i(4)])]))
            for o3 in ar if tier != 'quick' else ('*', '%', '-'):
                S.body('90 %s 7 %s 4 %s 3' % (o1, o2, o3), ('e', [i(90), o1, i(7), o2, i(4), o3, i(3)]))
        for cm in ('<', '<=', '>', '>=', '==', '!='):
            S.body('20 %s 6 %s c' % (o1, cm), ('e', [i(20), o1, i(6), cm, N(('c', '0', '9'), ('c2', '0', '9'))]))
            S.body('c %s 20 %s 6' % (cm, o1), ('e', [N(('c', '0', '9'), ('c2', '0', '9')), cm, i(20), o1, i(6)]))
    for o1 in ('+', '-'):
        for o2 in ('+', '-'):
            for o3 in ('+', '-'):
                S.body('a %s b %s c %s d' % (o1, o2, o3), ('e', [a, o1, b, o2, c, o3, d('d')]))
    S.body('a + 3 * b', ('e', [a, '+', i(3), '*', b]))
    S.body('a - 3 * b + c', ('e', [a, '-', i(3), '*', b, '+', c]))
    S.body('(a - b) * 3', ('e', [('(', [a, '-', b]), '*', i(3)]))
    for op in ('+', '-', '<', '<=', '>', '>=', '==', '!='):
        S.body('variables %s' % op, ('=', 'x', a), ('=', 'y', b), ('e', ['x', op, 'y']))
        S.prog('calls %s' % op, ('fn', 'f', [], [('e', a)]), ('fn', 'main', [], [('e', [('call', 'f', []), op, b])]))
    S.note()


# ------------------------------------------------------------------ T02
def check_bindings(P, res, tier):
    S = TSuite(P, res, 'T02')
    a, b, c = d('a'), d('b'), d('c')
    for st in (0, 1, 2):
        S.body('assign and read (layout %d)' % st, ('=', 'x', a), ('e', 'x'), style=st)
        S.body('assign twice (layout %d)' % st, ('=', 'x', a), ('=', 'x', b), ('e', 'x'), style=st)
        S.body('update (layout %d)' % st, ('=', 'x', a), ('=', 'x', ['x', '+', b]), ('e', 'x'), style=st)
        S.prog('global (layout %d)' % st, ('global', 'g', a), ('fn', 'main', [], [('e', 'g')]), style=st)
        S.prog('two arguments (layout %d)' % st, ('fn', 'f', ['x', 'y'], [('e', ['x', '-', 'y'])]), ('fn', 'main', [], [('e', ('call', 'f', [a, b]))]), style=st)
        S.prog('labelled arguments (layout %d)' % st, ('fn', 'f', ['x', 'y'], [('e', ['x', '-', 'y'])]), ('fn', 'main', [], [('e', ('lcall', 'f', [('x', a), ('y', b)]))]), style=st)
    S.body('assignment is a value', ('=', 'x', a))
    S.body('two variables', ('=', 'x', a), ('=', 'y', b), ('=', 'x', ['y', '+', i(1)]), ('e', ['x', '*', i(100), '+', 'y']))
    S.body('three variables', ('=', 'x', a), ('=', 'y', 'x'), ('=', 'z', 'y'), ('=', 'y', b), ('e', ['x', '*', i(100), '+', 'y', '*', i(10), '+', 'z']))
    S.body('names that share a prefix', ('=', 'x', a), ('=', 'xx', b), ('=', 'x1', c), ('e', ['x', '*', i(100), '+', 'xx', '*', i(10), '+', 'x1']))
    S.body('assignment in a block', ('=', 'x', a), ('{', [('=', 'x', b), ('=', 'y', c)]), ('e', ['x', '*', i(10), '+', 'y']))
    S.body('assignment in a branch', ('=', 'x', a), ('if', [b, '<', i(5)], ('{', [('=', 'x', c)])), ('e', 'x'))
    S.body('assignment in both branches', ('if', [b, '<', i(5)], ('{', [('=', 'x', c)]), ('{', [('=', 'x', a)])), ('e', 'x'))
    S.body('assignment in a loop', ('=', 'x', a), ('=', 'n', i(0)), ('while', ['n', '<', i(3)], ('{', [('=', 'n', ['n', '+', i(1)]), ('=', 'x', ['x', '*', i(2)])])), ('e', 'x'))
    for n, sq in (('string', ('s', ['ab'])), ('boolean', True), ('array', ('a', [i(1), a]))):
        S.body('a variable holding a ' + n, ('=', 'x', sq), ('e', 'x'))
        S.prog('a global holding a ' + n, ('global', 'g', sq), ('fn', 'main', [], [('e', 'g')]))
        S.prog('an argument that is a ' + n, ('fn', 'f', ['x'], [('e', 'x')]), ('fn', 'main', [], [('e', ('call', 'f', [sq]))]))
    f2 = ('fn', 'f', ['x', 'y'], [('e', ['x', '*', i(10), '+', 'y'])])
    f3 = ('fn', 'f', ['x', 'y', 'z'], [('e', ['x', '*', i(100), '+', 'y', '*', i(10), '+', 'z'])])
    main = lambda *s: ('fn', 'main', [], list(s))
    S.prog('one argument', ('fn', 'f', ['x'], [('e', 'x')]), main(('e', ('call', 'f', [a]))))
    S.prog('three arguments', f3, main(('e', ('call', 'f', [a, b, c]))))
    S.prog('three labelled arguments', f3, main(('e', ('lcall', 'f', [('z', a), ('x', b), ('y', c)]))))
    S.prog('labelled arguments in another order', f2, main(('e', ('lcall', 'f', [('y', a), ('x', b)]))))
    S.prog('arguments are expressions', f2, main(('=', 'k', a), ('e', ('call', 'f', [['k', '+', i(1)], ('(', ['k', '-', b])]))))
    S.prog('labelled arguments are expressions', f2, main(('=', 'k', a), ('e', ('lcall', 'f', [('x', ['k', '+', i(1)]), ('y', ('(', ['k', '-', b]))]))))
    S.prog('arguments named as the caller\'s variables', f2, main(('=', 'x', a), ('=', 'y', b), ('e', ('call', 'f', ['y', 'x']))))
    S.prog('labelled arguments named as the caller\'s variables', f2, main(('=', 'x', a), ('=', 'y', b), ('e', ('lcall', 'f', [('x', 'y'), ('y', 'x')]))))
    S.prog('the caller\'s variables after a call', f2, main(('=', 'x', a), ('=', 'y', b), ('=', 'r', ('call', 'f', [c, c])), ('e', ['x', '*', i(10), '+', 'y'])))
    S.prog('the caller\'s variables after a labelled call', f2, main(('=', 'x', a), ('=', 'y', b), ('=', 'r', ('lcall', 'f', [('x', c), ('y', c)])), ('e', ['x', '*', i(10), '+', 'y'])))
    g = ('fn', 'f', ['x'], [('=', 'x', ['x', '+', i(1)]), ('=', 'y', i(9)), ('e', 'x')])
    S.prog('a callee assigns its parameter', g, main(('=', 'x', a), ('=', 'r', ('call', 'f', [b])), ('e', ['x', '*', i(100), '+', 'r'])))
    S.prog('a callee assigns the caller\'s variable', g, main(('=', 'y', a), ('=', 'r', ('call', 'f', [b])), ('e', ['y', '*', i(100), '+', 'r'])))
    S.prog('a callee assigns the caller\'s variable and reads it', ('fn', 'f', ['x'], [('=', 'y', ['y', '+', 'x']), ('e', 'y')]), main(('=', 'y', a), ('e', ('call', 'f', [b]))))
    S.prog('a labelled callee assigns the caller\'s variable', g, main(('=', 'y', a), ('=', 'r', ('lcall', 'f', [('x', b)])), ('e', ['y', '*', i(100), '+', 'r'])))
    S.prog('nested calls', ('fn', 'inc', ['x'], [('e', ['x', '+', i(1)])]), ('fn', 'twice', ['x'], [('e', ('call', 'inc', [('call', 'inc', ['x'])]))]), main(('e', ('call', 'twice', [a]))))
    S.prog('a callee calls with the same names', f2, ('fn', 'g', ['x', 'y'], [('=', 'r', ('call', 'f', ['y', 'x'])), ('e', ['r', '*', i(100), '+', 'x', '*', i(10), '+', 'y'])]), main(('e', ('call', 'g', [a, b]))))
    S.prog('calls as operands', f2, main(('e', [('call', 'f', [a, b]), '-', ('call', 'f', [b, a])])))
    S.prog('a call in a loop', ('fn', 'f', ['x'], [('e', ['x', '*', i(2)])]), main(('=', 'r', a), ('=', 'n', i(0)), ('while', ['n', '<', i(3)], ('{', [('=', 'r', ('call', 'f', ['r'])), ('=', 'n', ['n', '+', i(1)])])), ('e', 'r')))
    fact = ('fn', 'fact', ['n'], [('if', ['n', '<', i(2)], ('{', [('e', i(1))]), ('{', [('e', ['n', '*', ('call', 'fact', [['n', '-', i(1)]])])]))])
    for k in (0, 1, 3, 5):
        S.prog('factorial of %d' % k, fact, main(('e', ('call', 'fact', [i(k)]))))
    fib = ('fn', 'fib', ['n'], [('if', ['n', '<', i(2)], ('{', [('e', 'n')]), ('{', [('e', [('call', 'fib', [['n', '-', i(1)]]), '+', ('call', 'fib', [['n', '-', i(2)]])])]))])
    S.prog('fibonacci', fib, main(('e', ('call', 'fib', [i(4)]))))
    S.prog('a global read by a function', ('global', 'g', a), ('fn', 'f', ['x'], [('e', ['x', '-', 'g'])]), main(('e', ('call', 'f', [b]))))
    S.prog('a global reads an earlier global', ('global', 'g', a), ('global', 'h', ['g', '+', b]), main(('e', ['h', '*', i(10), '+', 'g'])))
    S.prog('a global after the functions', main(('e', 'g')), ('global', 'g', a))
    S.prog('a global reassigned', ('global', 'g', a), main(('=', 'g', ['g', '+', b]), ('e', 'g')))
    S.prog('a global hidden by a parameter', ('global', 'g', a), ('fn', 'f', ['g'], [('e', 'g')]), main(('=', 'r', ('call', 'f', [b])), ('e', ['r', '*', i(10), '+', 'g'])))
    S.prog('two globals', ('global', 'g', a), ('global', 'h', b), main(('e', ['g', '*', i(10), '+', 'h'])))
    S.prog('a function defined after its use', main(('e', ('call', 'f', [a, b]))), f2)
    S.prog('the last definition of a function', ('fn', 'f', [], [('e', a)]), ('fn', 'f', [], [('e', b)]), main(('e', ('call', 'f', []))))
    depth = ('fn', 'f3', ['x'], [('e', ['x', '*', i(10), '+', 'y'])])
    S.prog('a variable of the caller\'s caller', depth, ('fn', 'f2', ['z'], [('e', ('call', 'f3', ['z']))]), main(('=', 'y', a), ('e', ('call', 'f2', [b]))))
    S.prog('a variable three calls up', depth, ('fn', 'f2', ['z'], [('e', ('call', 'f3', ['z']))]), ('fn', 'f1', ['z'], [('e', ('call', 'f2', [['z', '+', i(1)]]))]),
           main(('=', 'y', a), ('e', ('call', 'f1', [b]))))
    S.prog('a global three calls up', depth, ('fn', 'f2', ['z'], [('e', ('lcall', 'f3', [('x', 'z')]))]), ('fn', 'f1', ['z'], [('e', ('call', 'f2', ['z']))]), ('global', 'y', a), main(('e', ('call', 'f1', [b]))))
    S.prog('the nearest of three bindings', depth, ('fn', 'f2', ['y'], [('e', ('call', 'f3', ['y']))]), ('fn', 'f1', ['y'], [('e', [('call', 'f2', [['y', '+', i(1)]]), '*', i(10), '+', 'y'])]),
           ('global', 'y', a), main(('e', [('call', 'f1', [b]), '*', i(10), '+', 'y'])))
    S.prog('a parameter after a recursive call', ('fn', 'f', ['n'], [('if', ['n', '<', i(1)], ('{', [('e', i(0))]), ('{', [('=', 'r', ('call', 'f', [['n', '-', i(1)]])), ('e', ['r', '*', i(10), '+', 'n'])]))]),
           main(('e', ('call', 'f', [i(3)]))))
    S.prog('a local after a recursive call', ('fn', 'f', ['n'], [('=', 'm', ['n', '*', i(2)]), ('if', ['n', '>', i(0)], ('{', [('e', ('call', 'f', [['n', '-', i(1)]]))])), ('e', 'm')]), main(('e', ('call', 'f', [i(3)]))))
    S.prog('a local of a callee is gone', ('fn', 'f', [], [('=', 'y', b), ('e', 'y')]), ('global', 'y', a), main(('e', ('call', 'f', [])), ('e', ('call', 'f', [])), ('e', 'y')))
    S.prog('a labelled call inside a call', f2, ('fn', 'g', ['y', 'x'], [('e', ('lcall', 'f', [('x', 'y'), ('y', 'x')]))]), main(('e', ('call', 'g', [a, b]))))
    generated(S, 'T02', 0, 300 if tier == 'quick' else 1500)
    S.note()


# ------------------------------------------------------------------ T03
def check_coverage(P, res, tier):
    S = TSuite(P, res, 'T03')
    a, b = d('a'), d('b')
    main = lambda *s: ('fn', 'main', [], list(s))
    A = lambda n: (n, '#', '[')
    exprs = [('an integer', a), ('a negative integer', N('-', ('a', '1', '9'))), ('a long integer', N('9223372036854775807')), ('true', True), ('false', False),
             ('a string', ('s', ['x', ('c', '#', '['), 'y'])), ('an empty string', ('s', [])), ('a string of blanks', ('s', ['  '])),
             ('an array', ('a', [a, b])), ('an empty array', ('a', [])), ('an array of arrays', ('a', [('a', [a]), True, ('s', ['q'])])), ('an array of sums', ('a', [[a, '+', b], ('(', [a, '-', b])])),
             ('a parenthesised integer', ('(', a)), ('nested parentheses', ('(', ('(', [a, '+', b]))), ('a sum', [a, '+', b]), ('a comparison', [a, '<', b]), ('a conjunction', [True, '&&', False])]
    for n, e in exprs:
        for st in (0, 1, 2):
            S.body('%s as a line (layout %d)' % (n, st), ('e', e), style=st)
        S.body('%s assigned' % n, ('=', 'v', e), ('e', 'v'))
        S.body('%s printed' % n, ('print', e))
        S.prog('%s as an argument' % n, ('fn', 'f', ['x'], [('e', 'x')]), main(('e', ('call', 'f', [e]))))
        S.prog('%s as a labelled argument' % n, ('fn', 'f', ['x'], [('e', 'x')]), main(('e', ('lcall', 'f', [('x', e)]))))
        S.prog('%s as a global' % n, ('global', 'g', e), main(('e', 'g')))
        S.body('%s in an array' % n, ('e', ('a', [e, i(1)])))
        S.body('%s in parentheses' % n, ('e', ('(', e)))
    for esc, ch in (('\\n', '\n'), ('\\t', '\t'), ('\\r', '\r'), ('\\b', '\b'), ('\\f', '\f'), ('\\\\', '\\'), ('\\"', '"'), ('\\/', '/'), ('\\u0041', 'A'), ('a\\u0041\\u0042c', 'aABc')):
        S.body('a string with the escape %s' % esc, ('e', ('s', [esc], ch)))
    for c in (True, False):
        S.body('if %s without else' % c, ('if', c, ('{', [('e', a)])), ('e', b))
        S.body('if %s last without else' % c, ('print', a), ('if', c, ('{', [('e', a)])))
        S.body('if %s with empty blocks' % c, ('if', c, ('{', []), ('{', [])), ('e', b))
        S.body('if %s with a single line' % c, ('if', c, ('=', 'x', a), ('=', 'x', b)), ('e', 'x'))
        S.body('if %s on a variable' % c, ('=', 'c', c), ('if', 'c', ('{', [('e', a)]), ('{', [('e', b)])))
    for lab, s in (('an empty block', ('{', [])), ('a loop that never runs', ('while', False, ('{', [('e', a)]))), ('a loop over nothing', ('while', [a, '>', i(9)], ('{', []))),
                   ('a counted loop over nothing', ('for', 'k', i(3), i(3), ('{', [('e', a)]))), ('a counted loop of empty blocks', ('for', 'k', i(0), i(3), ('{', []))),
                   ('nested empty blocks', ('{', [('{', []), ('{', [('{', [])])])), ('a block', ('{', [('e', a)]))):
        S.body(lab, s, ('e', b))
        S.body(lab + ' last', ('print', b), s)
        S.body(lab + ' alone', s)
    S.prog('a function without statements', ('fn', 'f', [], []), main(('e', ('call', 'f', [])), ('e', a)))
    S.prog('main without statements', main())
    S.prog('a function without parameters', ('fn', 'f', [], [('e', a)]), main(('e', ('call', 'f', []))))
    S.prog('a block as last statement', ('fn', 'f', [], [('{', [('e', a)])]), main(('e', ('call', 'f', []))))
    for nm in ('f', 't', 'fa', 'true1', 'truex', 'falsey', 'false_', 'tr', 'println1', 'iff', 'form', 'whiley', 'globalx', 'fnx', 'elsex', 'to', 'in', 'i_n', '_x', 'X9', 'else1', 'n', 'u'):
        S.body('the variable %s' % nm, ('=', nm, a), ('=', 'r', [nm, '+', b]), ('e', ['r', '-', nm]))
        S.prog('the global %s' % nm, ('global', nm, a), main(('e', [nm, '+', b])))
        S.prog('the parameter %s' % nm, ('fn', 'g', [nm], [('e', [nm, '+', b])]), main(('e', ('call', 'g', [a]))))
        S.prog('the function %s' % nm, ('fn', nm, ['x'], [('e', ['x', '+', b])]), main(('e', ('call', nm, [a])), ('e', ('lcall', nm, [('x', a)]))))
    S.note()


# ------------------------------------------------------------------ T04
def check_control(P, res, tier):
    S = TSuite(P, res, 'T04')
    a, b, c = d('a'), d('b'), d('c')
    main = lambda *s: ('fn', 'main', [], list(s))
    P1, P2, P3 = ('print', i(1)), ('print', i(2)), ('print', i(3))
    for st in (0, 1, 2):
        S.body('if (layout %d)' % st, ('if', [a, '<', b], ('{', [P1]), ('{', [P2])), P3, style=st)
        S.body('if without else (layout %d)' % st, ('if', [a, '<', b], ('{', [P1])), P3, style=st)
        S.body('else if (layout %d)' % st, ('if', [a, '<', i(3)], ('{', [P1]), ('if', [a, '<', i(6)], ('{', [P2]), ('{', [P3]))), style=st)
        S.body('while (layout %d)' % st, ('=', 'n', i(0)), ('while', ['n', '<', i(3)], ('{', [('print', 'n'), ('=', 'n', ['n', '+', i(1)])])), ('print', ['n', '*', i(10)]), style=st)
        S.body('for (layout %d)' % st, ('for', 'k', i(2), i(5), ('{', [('print', 'k')])), P3, style=st)
        S.body('block (layout %d)' % st, ('{', [P1, P2, ('{', [P3])]), ('e', a), style=st)
    S.body('the value of if', ('if', [a, '<', b], ('{', [('e', a)]), ('{', [('e', b)])))
    S.body('the value of else if', ('if', [a, '<', i(3)], ('{', [('e', i(1))]), ('if', [a, '<', i(6)], ('{', [('e', i(2))]), ('{', [('e', i(3))]))))
    S.body('single lines', ('if', [a, '<', b], P1, P2), P3)
    S.body('a nested if without else belongs to the outer block', ('if', [a, '<', b], ('{', [('if', [a, '<', i(3)], ('{', [P1]))]), ('{', [P2])), P3)
    S.body('nested ifs', ('if', [a, '<', b], ('{', [('if', [a, '<', i(3)], ('{', [P1]), ('{', [P2]))]), ('{', [('if', [a, '<', i(7)], ('{', [P3]), ('{', [('print', i(4))]))])))
    S.body('the condition is evaluated once', ('=', 'n', i(0)), ('if', ['n', '==', i(0)], ('{', [('=', 'n', i(1)), P1]), ('{', [P2])), ('e', 'n'))
    S.prog('the condition is a call', ('fn', 'f', ['x'], [('print', 'x'), ('e', ['x', '<', i(5)])]), main(('if', ('call', 'f', [a]), ('{', [P1]), ('{', [P2])), P3))
    S.body('the value of a block', ('{', [('e', a), ('e', b)]))
    S.body('the value of a nested block', ('{', [('e', a), ('{', [('e', b), ('e', c)])]))
    S.body('lines in order', ('print', a), ('print', b), ('print', c), ('e', [a, '+', b]))
    S.body('order of assignments', ('=', 'x', a), ('=', 'y', 'x'), ('=', 'x', b), ('print', 'x'), ('print', 'y'))
    S.prog('arguments are evaluated in order', ('fn', 'p', ['x'], [('print', 'x'), ('e', 'x')]), ('fn', 'f', ['x', 'y'], [('e', ['x', '-', 'y'])]),
           main(('e', ('call', 'f', [('call', 'p', [a]), ('call', 'p', [b])]))))
    S.prog('labelled arguments are evaluated in order', ('fn', 'p', ['x'], [('print', 'x'), ('e', 'x')]), ('fn', 'f', ['x', 'y'], [('e', ['x', '-', 'y'])]),
           main(('e', ('lcall', 'f', [('y', ('call', 'p', [a])), ('x', ('call', 'p', [b]))]))))
    S.prog('operands are evaluated in order', ('fn', 'p', ['x'], [('print', 'x'), ('e', 'x')]), main(('e', [('call', 'p', [a]), '-', ('call', 'p', [b])])))
    S.prog('elements are evaluated in order', ('fn', 'p', ['x'], [('print', 'x'), ('e', 'x')]), main(('e', ('a', [('call', 'p', [a]), ('call', 'p', [b])]))))
    S.body('a loop up to a digit', ('=', 'n', i(0)), ('=', 's', i(0)), ('while', ['n', '<', a], ('{', [('=', 's', ['s', '+', 'n']), ('=', 'n', ['n', '+', i(1)])])), ('e', ['s', '*', i(100), '+', 'n']))
    S.body('a loop down from a digit', ('=', 'n', a), ('=', 's', i(0)), ('while', ['n', '>', i(0)], ('{', [('=', 's', ['s', '+', 'n']), ('=', 'n', ['n', '-', i(1)])])), ('e', ['s', '*', i(100), '+', 'n']))
    S.body('a loop with a single line', ('=', 'n', a), ('while', ['n', '<', i(7)], ('=', 'n', ['n', '+', i(2)])), ('e', 'n'))
    S.body('nested loops', ('=', 'n', i(0)), ('while', ['n', '<', i(3)], ('{', [('=', 'm', i(0)), ('while', ['m', '<', 'n'], ('{', [('print', ['n', '*', i(10), '+', 'm']), ('=', 'm', ['m', '+', i(1)])])),
                                                                                  ('=', 'n', ['n', '+', i(1)])])), ('e', 'n'))
    S.prog('the condition of a loop is evaluated every round', ('fn', 'f', ['x'], [('print', 'x'), ('e', ['x', '<', i(2)])]), main(('=', 'n', i(0)), ('while', ('call', 'f', ['n']), ('{', [('=', 'n', ['n', '+', i(1)])])), P3))
    S.body('a conditional in a loop', ('for', 'k', i(0), i(6), ('{', [('if', ['k', '%', i(3), '==', i(0)], ('{', [('print', 'k')]), ('if', ['k', '%', i(3), '==', i(1)], ('{', [P1]), ('{', [P2])))])), P3)
    for lo in (0, 1, 3, -2):
        for hi in (0, 1, 3, 5):
            S.body('for %d to %d' % (lo, hi), ('=', 's', i(0)), ('for', 'k', i(lo), i(hi), ('{', [('print', 'k'), ('=', 's', ['s', '*', i(10), '+', 'k'])])), ('e', 's'))
    S.body('for up to a digit', ('=', 's', i(0)), ('for', 'k', i(0), a, ('{', [('=', 's', ['s', '+', 'k', '+', i(100)])])), ('e', 's'))
    S.body('for from a digit', ('=', 's', i(0)), ('for', 'k', a, i(7), ('{', [('=', 's', ['s', '+', 'k', '+', i(100)])])), ('e', 's'))
    S.body('the counter after a counted loop', ('for', 'k', i(1), i(4), ('{', [])), ('e', 'k'))
    S.body('bounds are expressions', ('=', 'x', i(2)), ('for', 'k', ['x', '-', i(1)], ['x', '*', i(2)], ('{', [('print', 'k')])), P3)
    S.body('a counted loop with a single line', ('for', 'k', i(1), i(4), ('print', 'k')), P3)
    S.body('nested counted loops', ('for', 'j', i(0), i(3), ('{', [('for', 'k', 'j', i(3), ('{', [('print', ['j', '*', i(10), '+', 'k'])]))])), P3)
    S.prog('a call in a counted loop', ('fn', 'f', ['x'], [('print', ['x', '*', 'x'] if False else ['x', '+', 'x'])]), main(('for', 'k', i(0), i(3), ('{', [('e', ('call', 'f', ['k']))])), P3))
    S.prog('a loop in a function', ('fn', 'sum', ['n'], [('=', 's', i(0)), ('for', 'k', i(0), 'n', ('{', [('=', 's', ['s', '+', 'k'])])), ('e', 's')]), main(('e', ('call', 'sum', [i(4)])), ('e', ('call', 'sum', [i(5)]))))
    fb = ('fn', 'fizz_buzz', ['n'], [('if', [('(', ['n', '%', i(3), '==', i(0)]), '&&', ('(', ['n', '%', i(5), '==', i(0)])], ('{', [('print', ('s', ['FizzBuzz']))]),
                                      ('if', ['n', '%', i(3), '==', i(0)], ('{', [('print', ('s', ['Fizz']))]), ('if', ['n', '%', i(5), '==', i(0)], ('{', [('print', ('s', ['Buzz']))]), ('{', [('print', 'n')]))))])
    S.prog('fizz buzz', fb, main(('print', ('s', ['----'])), ('for', 'k', i(1), i(17), ('{', [('e', ('call', 'fizz_buzz', ['k']))])), ('print', ('s', ['----']))))
    generated(S, 'T04', 10000, 10300 if tier == 'quick' else 11500)
    S.note()


# ------------------------------------------------------------------ T05: which texts are programs
LAYOUT = {
    'empty program': '',
    'empty function': 'fn main(){}',
    'parameters': 'fn f(a,b){a+b;}fn main(){f(1,2);}',
    'globals': 'global g=1;global h=g+1;fn main(){g;}',
    'assignment': 'fn main(){a=1;b=a;}',
    'operators': 'fn main(){a=1+2*3-4/5%6;a<1;a>=2;a==3&&a!=4;}',
    'parentheses': 'fn main(){a=2*(1+2)*(3-(4));b=1+((1));}',
    'print': 'fn main(){println(1);println("x y");}',
    'string': 'fn main(){a="x";b=a+"y";}',
    'array': 'fn main(){a=[1,"b",[2]];b=[];}',
    'booleans': 'fn main(){a=true;b=false||a;}',
    'conditional': 'fn main(){if(a<1){b=1;}else if(c){d=2;}else{e=3;}}',
    'conditional with single lines': 'fn main(){if(a)b=1;else c=2;}',
    'while': 'fn main(){while(a<10){a=a+1;}}',
    'for': 'fn main(){for(i in 1 to 10){println(i);}}',
    'blocks': 'fn main(){{a=1;}{{b=2;}}}',
    'call': 'fn main(){f();g(1);h(a,"b");}',
    'labelled call': 'fn main(){f[x=1];g[x=1,y="b"];}',
}
TOKEN = re.compile(r'"(?:\\.|[^"\\])*"|[A-Za-z_]\w*|\d+|[<>=!]=|&&|\|\||\s+|.')
BLANK = [(9, 10), (13, 13), (32, 32)]
# characters of no token and no white space; those that no definition starts with
FOREIGN = [(0, 8), (14, 31), (35, 36), (39, 39), (46, 46), (58, 58), (63, 64), (94, 94), (96, 96), (126, 127), (0xa1, 0x2ff), (0x4e00, 0x9fff), (0x1f300, 0x1f5ff)]
LATER = [(33, 34), (37, 38), (40, 45), (47, 47), (48, 57), (59, 62), (65, 90), (91, 91), (92, 93), (95, 95), (97, 101), (102, 102), (103, 103), (104, 122), (123, 125)]
NEEDED = {'(', ')', '{', '}', '[', ']', ';', '=', 'fn', 'global', 'in', 'to', ','}


class LSuite(TSuite):
    """obligations on the texts the program parser accepts and the trees it builds"""

    def __init__(self, P, res):
        super().__init__(P, res, 'T05')
        self.base = {}

    def enter(self, *parts):
        st = self.pv.template(*parts)
        return self.pv.run_grammar(st, self.g, self.pv.mktext(self.pv.elems), 'parse_as_result')

    def describe(self, parts, env):
        return 'the text %r' % V.concrete(parts, env)

    def decide(self, lab, parts, check):
        V.Suite.decide(self, lab, parts, check)

    def tree(self, st, v):
        v = self.load(st, v)
        if v[0] == 'adt':
            return '%s(%s)' % (v[3] or v[1], ', '.join(self.tree(st, x) for x in v[4]))
        if v[0] == 'seq' and all(p[0] == 'e' for p in v[1]):
            return '[%s]' % ', '.join(self.tree(st, p[1]) for p in v[1])
        if v[0] in ('int', 'bool'):
            return str(v[1])
        es = self.pv.flat(st, v)
        if es is None or not all(e[0] == 'int' for e in es):
            raise GR.NotGrammar('a tree with ' + show(v)[:60])
        return repr(''.join(chr(e[1]) for e in es))

    def outcome(self, text):
        """the tree of a concrete text, None if rejected"""
        if text not in self.base:
            outs = self.enter(text)
            if len(outs) != 1 or SP.state_inexact(outs[0][0]):
                raise GR.NotGrammar('%d outcomes for a plain text' % len(outs))
            st, v = outs[0]
            self.base[text] = self.tree(st, v[4][0]) if v[3] == 'Ok' else None
        return self.base[text]

    def put(self, lab, left, right, text, last):
        """any one character between left and right"""
        for name, ivs in (('blank', BLANK), ('foreign character', FOREIGN + (LATER if last else []))):
            for lo, hi in ivs:
                def check(S, st, v, blank=name == 'blank'):
                    yield st, 'acceptance', ('str', 'accepted' if v[3] == 'Ok' else 'rejected'), ('str', 'accepted' if blank else 'rejected')
                    if blank and v[3] == 'Ok':
                        yield st, 'the expression', ('str', S.tree(st, v[4][0])), ('str', S.outcome(text))
                check.raw = True
                self.run('%s: %s U+%04X-U+%04X before %s' % (lab, name, lo, hi, right[:12] or 'the end'), (left, ('x', lo, hi), right) if lo < hi else (left + chr(lo) + right,), check)

    def reject(self, lab, text):
        def check(S, st, v):
            yield st, 'acceptance', ('str', 'accepted' if v[3] == 'Ok' else 'rejected'), ('str', 'rejected')
        check.raw = True
        self.run(lab, (text,), check)

    def accept(self, lab, text):
        def check(S, st, v):
            yield st, 'acceptance', ('str', 'accepted' if v[3] == 'Ok' else 'rejected'), ('str', 'accepted')
        check.raw = True
        self.run(lab, (text,), check)


def check_layout(P, res, tier):
    S = LSuite(P, res)
    if S.fn is None:
        res.undecided.append(('the program parser', 'not found'))
        return
    texts = dict(LAYOUT)
    for k in range(40 if tier == 'thorough' else 0):
        texts['generated program %d' % k] = ''.join(p if isinstance(p, str) else '5' for p in render(Gen(4000 + k).program(), 1))
    for name, text in texts.items():
        toks = TOKEN.findall(text)
        S.accept('%s' % name, text)
        for k in range(len(toks) + 1):
            left, right = ''.join(toks[:k]), ''.join(toks[k:])
            S.put('%s: token %d' % (name, k), left, right, text, k == len(toks))
        for k, t in enumerate(toks):
            if t in NEEDED and not (t in ('=', ';', ',') and (toks + [''])[k + 1][:1] in ('(', '[', '-')):
                S.reject('%s: without token %d (%s)' % (name, k, t), ''.join(toks[:k] + [' '] + toks[k + 1:]))
            if text[:len(''.join(toks[:k]))].count('{') > text[:len(''.join(toks[:k]))].count('}'):
                S.reject('%s: cut before token %d (%s)' % (name, k, t), ''.join(toks[:k]))
    S.note()
