"""Values computed by the application grammars on text templates, compared with the components the texts denote."""
import itertools
import multiprocessing
import os
import random
import re
from terms import *
import mir as M
import interp as IN
import grammar as GR
import lang as LG
import peval as PE
import spec as SP
import core_checks as K
import apps
from interp import Some, OPTION_NONE as NONE

ERRS = apps.ERRS


def el(name, lo, hi):
    return (name, lo, hi)


def E(name):
    return ('sym', 'el:' + name)


def num(*parts):
    """decimal value of parts: digit element names or digit characters"""
    v = I(0)
    for p in parts:
        v = add(mulk(v, 10), I(int(p)) if p.isdigit() else sub(E(p), I(48)))
    return v


def text(*parts):
    es = []
    for p in parts:
        es += [E(p[0])] if isinstance(p, tuple) else [I(ord(c)) for c in p]
    return ('app', 'text', ('seq', tuple(('e', e) for e in es)))


# ------------------------------------------------------------------ comparison with a concrete witness
def value_of(t, env):
    c, d = lin_parts(t)
    for a, k in d.items():
        if a in env:
            x = env[a]
        elif a[0] == 'app' and a[1].startswith('cast:') and len(a) == 3 and re.match(r'[iu](8|16|32|64|128|size)$', a[1][5:]):
            x = value_of(a[2], env)
            if x is None:
                return None
            ty = a[1][5:]
            n = int(re.sub(r'\D', '', ty) or 64)
            x %= 2 ** n
            if ty[0] == 'i' and x >= 2 ** (n - 1):
                x -= 2 ** n
        elif a[0] == 'app' and a[1] == 'fdiv' and a[3][0] == 'int':
            x = value_of(a[2], env)
            if x is None:
                return None
            x //= a[3][1]
        else:
            return None
        c += k * x
    return c


def numeric(t):
    return t[0] in ('int', 'lin', 'sym') or t[0] == 'app' and (t[1] == 'fdiv' or t[1].startswith('cast:'))


class Cmp:
    def __init__(self, pv, st, bounds):
        self.pv = pv
        self.st = st
        self.bounds = bounds
        self.rnd = random.Random(7)

    def envs(self):
        """assignments of the template elements that satisfy the path facts"""
        names = list(self.bounds)
        known = {x: self.st.norm(x) for x in names}
        known = {x: t for x, t in known.items() if t != x}
        for n in range(400):
            env = {}
            for x in names:
                lo, hi = self.bounds[x]
                env[x] = lo if n == 0 else hi if n == 1 else self.rnd.randint(lo, hi)
            for x, t in known.items():      # elements the path has fixed
                v = value_of(t, env)
                if v is not None:
                    env[x] = v
            if any(not self.bounds[x][0] <= env[x] <= self.bounds[x][1] for x in known):
                continue
            if all((value_of(g, env) or 0) >= 0 if value_of(g, env) is not None else True for g in self.st.ge) and \
                    all(value_of(g, env) != 0 for g in self.st.neq):
                yield env

    def differ(self, a, b):
        """a witness for a != b, or None"""
        for env in self.envs():
            x, y = value_of(a, env), value_of(b, env)
            if x is None or y is None:
                return None
            if x != y:
                return env
        return None

    def eq(self, got, want):
        """True / (False, env, got, want) / None"""
        st = self.st
        if got[0] == 'mref':
            got = self.pv.it.read(st, got[1], got[2])
        got, want = st.norm(got), st.norm(want)
        if got == want:
            return True
        fg, fw = self.flat(got), self.flat(want)
        if fw is not None and (want[0] in ('str', 'cat') or want[0] == 'app'):
            if fg is None:
                return None
            if SP.inexact(got):
                return None
            if any(self.shown(x) for x in fg + fw):
                if len(fg) == len(fw) and all(self.eq1(x, y) is True for x, y in zip(fg, fw)):
                    return True
                for env in self.envs():         # printed numbers have no fixed length: compare under an assignment
                    x, y = self.spelled(fg, env), self.spelled(fw, env)
                    if x is None or y is None:
                        break
                    if x != y:
                        return (False, env, got, want)
                else:
                    env = self.env()
                    if env is not None and all(z[0] == 'int' for z in self.fixed(fg, env) + self.fixed(fw, env)):
                        return True
                    return None
            if len(fg) != len(fw):
                return (False, self.env(), got, want)
            for x, y in zip(fg, fw):
                r = self.eq1(x, y)
                if r is not True:
                    return r if r is None else (False, r[1], got, want)
            return True
        return self.eq1(got, want)

    def eq1(self, got, want):
        st = self.st
        if got == want:
            return True
        if SP.inexact(got):
            return None
        if numeric(got) and numeric(want):
            if st.proves_eq(sub(got, want)):
                return True
            env = self.differ(got, want)
            return (False, env, got, want) if env is not None else None
        if got[0] == want[0] == 'adt':
            if got[1] != want[1]:
                return None
            if got[3] != want[3] or len(got[4]) != len(want[4]):
                return (False, self.env(), got, want)
            return self.all(got[4], want[4], got, want)
        if got[0] == want[0] == 'tup' and len(got[1]) == len(want[1]):
            return self.all(got[1], want[1], got, want)
        if got[0] == want[0] == 'seq' and all(p[0] == 'e' for p in got[1] + want[1]):
            if len(got[1]) != len(want[1]):
                return (False, self.env(), got, want)
            return self.all([p[1] for p in got[1]], [p[1] for p in want[1]], got, want)
        if got[0] == want[0] == 'app' and got[1] == want[1] and len(got) == len(want):
            return self.all(got[2:], want[2:], got, want)
        if got[0] == want[0] == 'bool':
            return (False, self.env(), got, want)
        if want[0] == 'adt' and got[0] in ('int', 'str', 'seq', 'tup') or got[0] == 'adt' and want[0] in ('int', 'str', 'tup'):
            return (False, self.env(), got, want)
        return None

    @staticmethod
    def shown(x):
        return x[0] == 'app' and x[1] == 'disp' and numeric(x[2])

    def fixed(self, xs, env):
        """printed numbers the path has fixed, as constants"""
        return [I(0) if (self.shown(x) or numeric(x)) and value_of(x[2] if self.shown(x) else x, env) is not None and
                self.st.proves_eq(sub(x[2] if self.shown(x) else x, I(value_of(x[2] if self.shown(x) else x, env)))) else x for x in xs]

    def spelled(self, xs, env):
        """element codes under an assignment, with printed numbers spelled out"""
        out = []
        for x in xs:
            if self.shown(x):
                n = value_of(x[2], env)
                if n is None:
                    return None
                out += [ord(c) for c in str(n)]
            elif numeric(x) and value_of(x, env) is not None:
                out.append(value_of(x, env))
            else:
                out.append(x)
        return out

    def all(self, xs, ys, got, want):
        r = True
        for x, y in zip(xs, ys):
            q = self.eq(x, y)
            if q is None:
                r = None
            elif q is not True:
                return q
        return r

    def env(self):
        for e in self.envs():
            return e
        return None

    def flat(self, v):
        """elements of a text; numbers and addresses printed by the standard library stay as one token"""
        if v[0] == 'mref':
            v = self.pv.it.read(self.st, v[1], v[2])
        if v[0] == 'app' and v[1] == 'disp' and not (v[2][0] == 'app' and v[2][1] == 'char'):
            w = v[2]
            if w[0] in ('str', 'cat') or w[0] == 'app' and w[1] == 'text':
                return self.flat(w)
            return [v]
        if v[0] in ('cat', 'app') and (v[0] == 'cat' or v[1] in ('fmtargs', 'text', 'utf8', 'bytes', 'fromchars')):
            out = []
            for p in (v[1] if v[0] == 'cat' and isinstance(v[1], tuple) and (not v[1] or isinstance(v[1][0], tuple)) else v[1:] if v[0] == 'cat' else v[2:]):
                q = self.flat(p)
                if q is None:
                    return None
                out += q
            return out
        if v[0] == 'sym' and v[1].startswith('txt:'):
            return [v]
        return self.pv.flat(self.st, v)


def concrete(parts, env):
    s = ''
    for p in parts:
        s += p if isinstance(p, str) else chr(env[E(p[0])]) if env else '?'
    return s


def pretty(pv, st, t, env):
    """a term under an assignment"""
    def go(t):
        if not isinstance(t, tuple):
            return str(t)
        if t[0] == 'mref':
            return go(pv.it.read(st, t[1], t[2]))
        v = value_of(t, env) if t[0] in ('int', 'lin', 'sym') else None
        if v is not None:
            return str(v)
        f = pv.flat(st, t) if t[0] in ('str', 'cat') or t[0] == 'app' and t[1] == 'text' else None
        if f is not None:
            vs = [value_of(x, env) for x in f]
            if None not in vs:
                return repr(''.join(map(chr, vs)))
        if t[0] == 'adt':
            return '%s(%s)' % (t[3] or t[1], ', '.join(go(x) for x in t[4])) if t[4] else (t[3] or t[1])
        if t[0] == 'tup':
            return '(%s)' % ', '.join(go(x) for x in t[1])
        if t[0] == 'seq':
            return '[%s]' % ', '.join(go(p[1]) for p in t[1])
        if t[0] == 'cat':
            return ' ++ '.join(go(p) for p in t[1:])
        if t[0] == 'app':
            return '%s(%s)' % (t[1], ', '.join(go(x) for x in t[2:]))
        return show(t)[:60]
    return go(t)[:200]


_WORK = None


def _worker(k):
    S, jobs, n = _WORK
    S.res = K.Result()
    for j in jobs[k::n]:
        S.decide(*j)
    return S.summary()


class Suite:
    """runs templates through an entry function and compares the outcome with expected components"""

    def __init__(self, P, res, prop, crate, ty, name, top):
        self.P, self.res, self.prop = P, res, prop
        self.crate, self.top = crate, top
        self.fn = apps.entry_fn(P, crate, ty, name)
        self.pv = PE.PV(P, top, crate)
        self.jobs = []
        self.ntempl = 0
        self.cmp = Cmp

    def describe(self, parts, env):
        return repr(concrete(parts, env))

    def enter(self, *parts):
        return self.pv.call(self.fn, *parts)

    def note(self):
        """decide the queued templates, in parallel processes"""
        jobs, self.jobs = self.jobs, []
        n = min(8, os.cpu_count() or 1, len(jobs) // 4)
        if n > 1:
            global _WORK
            _WORK = (self, jobs, n)
            with multiprocessing.get_context('fork').Pool(n) as pool:
                outs = pool.map(_worker, range(n), chunksize=1)
        else:
            for j in jobs:
                self.decide(*j)
            outs = [self.summary()] if jobs else []
        res = self.res
        x = res.extra = getattr(res, 'extra', {})
        for o in outs:
            if n > 1:
                res.viol += o['viol']
                res.undecided += o['undecided']
                res.decided += o['decided']
            for k, v in o['stats'].items():
                if n > 1 or k in ('callsites', 'cuts'):
                    res.stats[k] = res.stats.get(k, 0) + v
            for k, v in o['extra'].items():
                x[k] = x.get(k, 0) + v
            for i in o['used']:
                f = self.P.fns[i]
                res.used[f.name] = f
        order = {j[0]: i for i, j in enumerate(jobs)}
        res.viol.sort(key=lambda v: order.get(v[1].rsplit('|', 1)[0], -1))

    accepts = False     # a rejected template is a violation, not only no answer

    def summary(self):
        it = self.pv.it
        idx = {id(f): i for i, f in enumerate(self.P.fns)}
        return {'viol': self.res.viol, 'undecided': self.res.undecided, 'decided': self.res.decided,
                'stats': dict(self.res.stats, callsites=it.callsites, cuts=len(it.cuts)),
                'extra': {'templates': self.ntempl, 'grammar_steps': self.pv.steps, 'semantic_actions_interpreted': self.pv.actions},
                'used': [idx[id(f)] for f in it.used if f.crate != 'models' and id(f) in idx]}

    def run(self, lab, parts, check):
        self.jobs.append((lab, parts, check))

    def decide(self, lab, parts, check):
        """check(suite, state, value) -> [(component, got, want)] lists"""
        res = self.res
        if self.fn is None:
            res.undecided.append((lab, 'entry point not found'))
            return
        start_obligation(120)
        self.pv.it.steps = 0
        res.stats['obligations'] += 1
        self.ntempl += 1
        bounds = {E(p[0]): tuple(ord(x) if isinstance(x, str) else x for x in p[1:]) for p in parts if not isinstance(p, str)}
        und = None
        bad = False
        try:
            outs = self.enter(*parts)
            for st, v in outs:
                res.stats['leaves'] += 1
                if SP.state_inexact(st):
                    und = 'inexact path'
                    continue
                raw = getattr(check, 'raw', False)
                if not raw and v[0] == 'adt' and v[3] == 'Err' and self.accepts:
                    env = self.cmp(self.pv, st, bounds).env()
                    if env is not None:
                        bad = True
                        res.viol.append((self.prop, '%s|rejected' % lab, {'construct': self.fn.name, 'what': '%s is rejected' % self.describe(parts, env), 'template': repr(parts)}))
                        continue
                if not raw and (v[0] != 'adt' or v[3] != 'Ok'):
                    und = 'outcome %s' % show(v)[:60]
                    continue
                for st2, comp, got, want in check(self, st, v if raw else v[4][0]):
                    res.stats['compared'] += 1
                    if SP.state_inexact(st2):
                        und = 'inexact path while reading %s' % comp
                        continue
                    r = self.cmp(self.pv, st2, bounds).eq(got, want)
                    if r is None:
                        und = '%s is %s' % (comp, show(got)[:120])
                    elif r is not True:
                        env = r[1]
                        if env is None:
                            und = '%s differs on no sampled text' % comp
                            continue
                        bad = True
                        res.viol.append((self.prop, '%s|%s' % (lab, comp), {
                            'construct': self.fn.name,
                            'what': 'for %s %s is %s, expected %s' % (self.describe(parts, env), comp, pretty(self.pv, st2, got, env), pretty(self.pv, st2, want, env)),
                            'template': repr(parts)}))
        except ERRS as e:
            und = 'analysis stopped: %s %s' % (type(e).__name__, str(e)[:160])
        if und:
            res.undecided.append((lab, und))
        elif not bad:
            res.decided.append(lab)

    def method(self, ty, name):
        for f in self.P.methods.get(name, []):
            if f.crate == self.crate and f.trait is None and M.type_head(f.selfty) == ty:
                return f
        raise GR.NotGrammar('no method %s::%s' % (ty, name))

    def call(self, st, ty, name, v, *args):
        f = self.method(ty, name)
        return [(s, s.norm(r)) for s, r in self.pv.it.exec_fn(st.copy(), f, [v] + list(args), None)]

    def display(self, st, v, ty):
        import natives as N
        return [(s, s.norm(r)) for s, r in N.fmt_one(self.pv.it, st.copy(), 'display', v, ty)]

    def variants(self, st, v):
        """(state, Some payload or None) of an Option value"""
        out = []
        for s, k in self.pv.it.variant(st.copy(), v, 2):
            w = s.norm(v)
            if k == 0:
                out.append((s, None))
            else:
                out.append((s, w[4][0] if w[0] == 'adt' else ('app', 'proj', w, ('str', 'Some'), I(0))))
        return out


# ------------------------------------------------------------------ cron
def cron_shapes():
    d = lambda n, lo='0', hi='9': (n, lo, hi)
    def two(lo, hi):
        return lambda n: ([d(n + 't', lo, hi), d(n + 'u')], num(n + 't', n + 'u'))
    def one(lo='0'):
        return lambda n: ([d(n, lo, '9')], num(n))
    def zero(lo='0'):
        return lambda n: (['0', d(n, lo, '9')], num(n))
    def tens(c, lo, hi):
        return lambda n: ([c, d(n, lo, hi)], num(c, n))
    V = lambda f: (lambda n: (f(n)[0], ('V', f(n)[1])))
    dow = [V(lambda n: ([d(n, '1', '7')], num(n)))]
    for i, w in enumerate(('SUN', 'MON', 'TUE', 'WED', 'THU', 'FRI', 'SAT')):
        dow.append((lambda w, i: lambda n: ([w], ('V', I(i + 1))))(w, i))
    last = lambda n: (['L'], ('L',))
    return [
        ('mins', [V(one()), V(zero()), V(two('1', '5'))], []),
        ('hours', [V(one()), V(zero()), V(tens('1', '0', '9')), V(tens('2', '0', '3'))], []),
        ('days', [V(one('1')), V(zero('1')), V(two('1', '2')), V(tens('3', '0', '1'))], []),
        ('months', [V(one('1')), V(zero('1')), V(tens('1', '0', '2'))], []),
        ('day_of_weeks', dow, [last]),
    ]


def cron_term(P, t):
    vs = P.enums['CronExpr']
    def mk(variant, **kw):
        fs = P.fields.get('CronExpr::' + variant, [])
        if set(fs) != set(kw):
            raise GR.NotGrammar('fields of %s are %s' % (variant, fs))
        return ('adt', 'CronExpr', vs.index(variant), variant, tuple(kw[f] for f in fs))
    k = t[0]
    if k == 'V':
        return mk('ValueExpr', **{'0': t[1]})
    if k == 'L':
        return mk('LastValueExpr')
    if k == '*':
        return mk('AnyValueExpr')
    if k == 'no':
        return mk('NoOp')
    if k == '*/':
        return mk('PerExpr', digit=mk('AnyValueExpr'), option=cron_term(P, t[1]))
    if k == '-':
        return mk('RangeExpr', **{'from': cron_term(P, t[1]), 'to': cron_term(P, t[2]), 'per_option': cron_term(P, t[3])})
    if k == ',':
        return mk('ListExpr', **{'0': ('seq', tuple(('e', cron_term(P, x)) for x in t[1]))})
    if k == 'cron':
        return mk('CronExpr', **{n: cron_term(P, x) for n, x in t[1].items()})
    raise ValueError(k)


def cron_items(shapes, last, tier):
    """(label, pieces, tree) for every way to write one field"""
    out = [('star', ['*'], ('*',))]
    allv = shapes + last
    n = len(shapes)
    for i, s in enumerate(allv):
        p, v = s('a')
        out.append(('value %d' % i, p, v))
        out.append(('step %d' % i, ['*/'] + p, ('*/', v)))
    pairs = [(i, (i + 1) % n) for i in range(n)]
    if tier == 'thorough':
        pairs = list(itertools.product(range(n), range(n)))
    for i, j in pairs:
        p, v = shapes[i]('a')
        q, w = shapes[j]('b')
        r, x = shapes[(j + 1) % n]('c')
        out.append(('range %d-%d' % (i, j), p + ['-'] + q, ('-', v, w, ('no',))))
        out.append(('range %d-%d/%d' % (i, j, (j + 1) % n), p + ['-'] + q + ['/'] + r, ('-', v, w, x)))
        out.append(('list %d,%d' % (i, j), p + [','] + q, (',', [v, w])))
        out.append(('list %d,%d,%d' % (i, j, (j + 1) % n), p + [','] + q + [','] + r, (',', [v, w, x])))
        out.append(('list with ranges %d %d' % (i, j), p + ['-'] + q + [','] + r + [','] + shapes[i]('e')[0] + ['-'] + shapes[j]('f')[0] + ['/'] + shapes[i]('g')[0],
                    (',', [('-', v, w, ('no',)), x, ('-', shapes[i]('e')[1], shapes[j]('f')[1], shapes[i]('g')[1])])))
    for k in ((4, 5) if tier != 'thorough' else (4, 5, 6, 7)):
        ps, vs = [], []
        for m in range(k):
            p, v = shapes[m % n]('l%d' % m)
            ps += ([','] if m else []) + p
            vs.append(v)
        out.append(('list of %d' % k, ps, (',', vs)))
    return out


def check_cron_values(P, res, tier):
    S = Suite(P, res, 'D02', 'crond', 'CronParser', 'parse', LG.CHAR)
    fields = cron_shapes()
    fixed = {'mins': ('11', 11), 'hours': ('12', 12), 'days': ('13', 13), 'months': ('10', 10), 'day_of_weeks': ('4', 4)}
    for f, shapes, last in fields:
        for lab, pieces, tree in cron_items(shapes, last, tier):
            parts, fs = [], {}
            for g, _, _ in fields:
                if parts:
                    parts.append(' ')
                if g == f:
                    parts += pieces
                    fs[g] = tree
                else:
                    parts.append(fixed[g][0])
                    fs[g] = ('V', I(fixed[g][1]))
            def check(S, st, v, fs=fs):
                want = cron_term(P, ('cron', fs))
                if v[0] != 'adt' or v[3] != 'CronExpr':
                    return [(st, 'the schedule', v, want)]
                names = P.fields['CronExpr::CronExpr']
                return [(st, 'field ' + n, v[4][i], cron_term(P, fs[n])) for i, n in enumerate(names)]
            S.run('%s: %s' % (f, lab), parts, check)
    S.note()


# ------------------------------------------------------------------ URI
AZ = ('a', 'z')


def uri_components():
    e = lambda n, lo='a', hi='z': (n, lo, hi)
    scheme = [None, [e('s'), e('s1', '0', '9'), '+.-', e('s2', 'A', 'Z')], [e('s')]]
    u, p = [e('u'), '%4', e('u1', '0', '9'), e('u2', 'A', 'Z'), "!~"], [e('p'), e('p1', '0', '9')]
    user = [None, (u, None), (u, p), (u, []), ([], p), ([], None), (u, p + [':'] + [e('p2')] + [':'])]
    host = [('reg', [e('h', 'h', 'z'), e('h1', '0', '9'), '.-_', e('h2', 'A', 'Z'), "%2", e('h3', 'A', 'F'), '$']),
            ('v4', [num('o1'), num('o2a', 'o2b'), num('1', 'o3a', 'o3b'), num('2', 'o4a', 'o4b')],
             [e('o1', '0', '9'), '.', e('o2a', '1', '9'), e('o2b', '0', '9'), '.1', e('o3a', '0', '9'), e('o3b', '0', '9'), '.2', e('o4a', '0', '4'), e('o4b', '0', '9')]),
            ('v6', [I(0x2001), I(0xdb8), I(0), I(0), I(0), I(0), I(0), num('x')], ['[2001:db8::', e('x', '0', '9'), ']']),
            ('future', ['v', e('f', 'a', 'f'), '.', e('g'), ':1']),
            ('reg', []),
            ('reg', ['1.2.3.4', e('h')]),
            ('reg', ['1.2.3.', e('h', '3', '9'), '0', e('h1', '0', '9'), e('h2', '0', '9')])]
    port = [None, [e('q', '1', '9')], [e('q', '1', '9'), e('q1', '0', '9'), e('q2', '0', '9')], [e('q', '1', '5'), e('q1', '0', '9'), e('q2', '0', '9'), e('q3', '0', '9'), e('q4', '0', '9')],
            ['6553', e('q', '0', '5')]]
    path = [[], ['/'], ['/', e('a'), e('a1', '0', '9'), ':@'], ['/', e('a'), '/', e('b', 'A', 'Z'), '%20'], ['/', e('a'), '/'], ['/', e('a'), '//', e('b')], ['/', e('a'), '/', e('b'), '/', e('c'), '/', e('d')]]
    rootless = [[e('a'), e('a1', '0', '9')], [e('a'), '/', e('b'), '/'], [e('a'), '//', e('b'), ':']]
    V = lambda *t: list(t)
    query = [None,
             [(['k'], V(e('v')))],
             [(['k'], V(e('v'), e('v1', '0', '9'))), (['m'], None), (['k'], V(e('w')))],
             [(['m'], None)],
             [(['m'], V())],
             [(['k'], V(e('v'), '=', e('w'), '/?'))],
             [(['a', '%20'], V('%4', e('v', '0', '9'))), (['b'], V(e('w'))), (['c'], V(e('x'))), (['b'], V(e('y')))],
             [(['k'], V(e('v'))), (['k'], V(e('v2'))), (['k'], V(e('v3')))],
             [([], None)],
             [(['k/?:@'], V(e('v'))), (['m'], V(e('w', 'A', 'Z')))]]
    fragment = [None, [e('z'), e('z1', '0', '9'), '/?'], []]
    return dict(scheme=scheme, user=user, host=host, port=port, path=path, rootless=rootless, query=query, fragment=fragment)


def uri_templates(tier):
    """every combination of present and absent components, and every variant of each component beside all and beside no others"""
    C = uri_components()
    names = ['scheme', 'user', 'host', 'port', 'path', 'query', 'fragment']
    out = []
    seen = set()
    def put(d):
        k = tuple(d.get(n) for n in names + ['rootless', 'authority'])
        if k not in seen:
            seen.add(k)
            out.append(d)
    full = dict(scheme=1, user=2, host=0, port=2, path=3, query=2, fragment=1, authority=True)
    for bits in itertools.product((0, 1), repeat=7):
        sc, ui, au, po, pa, qu, fr = bits
        if not au and (ui or po):
            continue
        put(dict(scheme=sc, user=2 * ui, host=0, port=2 * po, path=3 * pa, query=2 * qu, fragment=fr, authority=bool(au)))
    bare = dict(scheme=1, user=0, host=0, port=0, path=0, query=0, fragment=0, authority=True)
    for base in (full, bare):
        for n in names:
            for i in range(len(C[n])):
                put(dict(base, **{n: i}))
    for i in range(len(C['rootless'])):
        for q in (0, 2):
            put(dict(scheme=1, user=0, host=0, port=0, path=None, rootless=i, query=q, fragment=1 if q else 0, authority=False))
    for i in range(len(C['path'])):
        if C['path'][i][:1] != ['//']:
            put(dict(scheme=1, user=0, host=0, port=0, path=i, query=0, fragment=0, authority=False))
    if tier == 'thorough':
        for a, b in itertools.combinations(names, 2):
            for i in range(len(C[a])):
                for j in range(len(C[b])):
                    put(dict(full, **{a: i, b: j}))
    return C, names, out


def query_parts(q):
    ps = []
    for n, (k, v) in enumerate(q):
        ps += (['&'] if n else []) + k + ([] if v is None else ['='] + v)
    return ps


def uri_parts(C, d):
    """(label, template pieces, description of the components)"""
    w = {}
    ps = []
    s = C['scheme'][d['scheme']]
    w['scheme'] = s
    ps += (s or []) + [':']
    w['user'] = w['host'] = w['port'] = None
    if d['authority']:
        ps.append('//')
        u = C['user'][d['user']]
        w['user'] = u
        if u:
            ps += u[0] + ([] if u[1] is None else [':'] + u[1]) + ['@']
        h = C['host'][d['host']]
        w['host'] = h
        ps += ['['] + h[1] + [']'] if h[0] == 'future' else h[-1]
        p = C['port'][d['port']]
        w['port'] = p
        ps += [] if p is None else [':'] + p
    pa = C['rootless'][d['rootless']] if d.get('rootless') is not None else C['path'][d['path']]
    w['path'] = pa
    ps += pa
    q = C['query'][d['query']]
    w['query'] = q
    ps += [] if q is None else ['?'] + query_parts(q)
    f = C['fragment'][d['fragment']]
    w['fragment'] = f
    ps += [] if f is None else ['#'] + f
    lab = ' '.join('%s%s' % (n, d[n]) for n in ('scheme', 'user', 'host', 'port', 'path', 'rootless', 'query', 'fragment') if d.get(n) is not None and (d['authority'] or n not in ('user', 'host', 'port')))
    return lab, ps, w


def host_term(S, h):
    P = S.P
    if h is None:
        return NONE
    mk = lambda ty, v, x: ('adt', ty, P.enums[ty].index(v), v, (x,))
    if h[0] == 'reg':
        t = mk('HostName', 'RegName', text(*h[1]))
    elif h[0] == 'v4':
        t = mk('HostName', 'Ipv4Address', ('app', 'Ipv4Addr') + tuple(h[1]))
    elif h[0] == 'v6':
        t = mk('HostName', 'IpLiteral', mk('IpLiteral', 'Ipv6Address', ('app', 'Ipv6Addr') + tuple(h[1])))
    else:
        t = mk('HostName', 'IpLiteral', mk('IpLiteral', 'IpvFuture', text(*h[1])))
    return Some(t)


def portnum(p):
    return num(*[x[0] if isinstance(x, tuple) else c for x in p for c in ([x] if isinstance(x, tuple) else x)])


def check_uri_values(P, res, tier):
    S = Suite(P, res, 'U02', 'uri', 'Uri', 'parse', LG.BYTE)
    C, names, ds = uri_templates(tier)

    def opt_disp(S, st, o, ty, want, name, empty=False):
        """displayed payload of an optional component"""
        out = []
        for s, x in S.variants(st, o):
            if x is None:
                if want is not None and not (empty and want == []):
                    out.append((s, name, NONE, Some(text(*want))))
                continue
            for s2, t in S.display(s, x, ty):
                if want is None:
                    out.append((s2, name, Some(t), NONE))
                else:
                    out.append((s2, name, t, text(*want)))
        return out

    def check(S, st, v, w):
        out = []
        for s, r in S.call(st, 'Uri', 'schema', v):
            out += opt_disp(S, s, r, 'Scheme', w['scheme'], 'scheme')
        for s, r in S.call(st, 'Uri', 'host_name', v):
            out.append((s, 'host', r, host_term(S, w['host'])))
        for s, r in S.call(st, 'Uri', 'port', v):
            out.append((s, 'port', r, NONE if w['port'] is None else Some(portnum(w['port']))))
        for s, r in S.call(st, 'Uri', 'user_info', v):
            for s2, x in S.variants(s, r):
                if x is None or w['user'] is None:
                    if x is not None or w['user'] is not None:
                        out.append((s2, 'user info', NONE if x is None else Some(x), NONE if w['user'] is None else Some(text(*w['user'][0]))))
                    continue
                for s3, n in S.call(s2, 'UserInfo', 'user_name', x):
                    out.append((s3, 'user name', n, text(*w['user'][0])))
                for s3, n in S.call(s2, 'UserInfo', 'password', x):
                    pw = w['user'][1]
                    out.append((s3, 'password', n, NONE if pw is None else Some(text(*pw))))
        for s, r in S.call(st, 'Uri', 'path', v):
            out += opt_disp(S, s, r, 'Path', w['path'], 'path', empty=True)
        for s, r in S.call(st, 'Uri', 'fragment', v):
            out.append((s, 'fragment', r, NONE if w['fragment'] is None else Some(text(*w['fragment']))))
        for s, r in S.call(st, 'Uri', 'query', v):
            for s2, x in S.variants(s, r):
                if x is None or w['query'] is None:
                    if x is not None or w['query'] is not None:
                        out.append((s2, 'query', NONE if x is None else Some(x), NONE if w['query'] is None else Some(text())))
                    continue
                for s3, t in S.display(s2, x, 'Query'):
                    out.append((s3, 'displayed query', t, text(*query_parts(w['query']))))
                keys = []
                for k, _ in w['query']:
                    if k not in keys and all(isinstance(z, str) for z in k):
                        keys.append(k)
                for k in keys + [['absent']]:
                    vals = [val for kk, val in w['query'] if kk == k and val is not None]
                    want = Some(('seq', tuple(('e', text(*x)) for x in vals))) if k in keys else NONE
                    for s3, g in S.call(s2, 'Query', 'get_param', x, ('str', ''.join(k))):
                        out.append((s3, 'query parameter %r' % ''.join(k), g, want))
        return out

    for d in ds:
        lab, ps, w = uri_parts(C, d)
        S.run(lab, ps, lambda S, st, v, w=w: check(S, st, v, w))
    S.note()


def check_uri_display(P, res, tier):
    """parsed URIs display as their text; constructed values display every present component once with its delimiter"""
    S = Suite(P, res, 'U03', 'uri', 'Uri', 'parse', LG.BYTE)
    C, names, ds = uri_templates(tier)
    disp = lambda x: ('app', 'disp', x)

    def expected(d, w):
        ps = [text(*(w['scheme'] or []), ':')]
        if d['authority']:
            ps.append(text('//'))
            if w['user']:
                u = w['user']
                ps.append(text(*(u[0] + ([] if u[1] is None else [':'] + u[1]) + ['@'])))
            h = w['host']
            ps += [text(*h[1])] if h[0] == 'reg' else [disp(('app', 'Ipv4Addr') + tuple(h[1]))] if h[0] == 'v4' else \
                [text('['), disp(('app', 'Ipv6Addr') + tuple(h[1])), text(']')] if h[0] == 'v6' else [text('[', *h[1], ']')]
            if w['port'] is not None:
                ps += [text(':'), disp(portnum(w['port']))]
        ps.append(text(*w['path']))
        if w['query'] is not None:
            ps.append(text('?', *query_parts(w['query'])))
        if w['fragment'] is not None:
            ps.append(text('#', *w['fragment']))
        return ('cat',) + (tuple(ps),)

    for d in ds:
        lab, ps, w = uri_parts(C, d)
        S.run('round trip ' + lab, ps, lambda S, st, v, d=d, w=w: [(s, 'the displayed text', t, expected(d, w)) for s, t in S.display(st, v, 'Uri')])
    S.note()
    constructed_display(S, P, res, tier)
    S.note()


def constructed_display(S, P, res, tier):
    t = lambda n: ('sym', 'txt:' + n)
    pv = S.pv
    disp = lambda x: ('app', 'disp', x)

    def new(st, ty, name, *args):
        r = S.pv.it.exec_fn(st, S.method(ty, name), list(args), None)
        if len(r) != 1:
            raise GR.NotGrammar('%s::%s has %d outcomes' % (ty, name, len(r)))
        return r[0][0], r[0][0].norm(r[0][1])

    def one(lab, ty, build, want):
        start_obligation(60)
        res.stats['obligations'] += 1
        und, bad = None, False
        try:
            st, v = build(IN.St())
            for s, got in S.display(st, v, ty):
                res.stats['leaves'] += 1
                res.stats['compared'] += 1
                if SP.state_inexact(s):
                    und = 'inexact path'
                    continue
                r = Cmp(pv, s, {}).eq(got, ('cat', tuple(want)))
                if r is None:
                    und = 'displays %s' % show(got)[:120]
                elif r is not True:
                    bad = True
                    res.viol.append(('U03', '%s|text' % lab, {'construct': 'Display for ' + ty, 'what': '%s displays as %s, expected %s' % (
                        lab, show(got)[:200], ' ++ '.join(show(x) for x in want)[:200])}))
        except ERRS as e:
            und = 'analysis stopped: %s %s' % (type(e).__name__, str(e)[:160])
        if und:
            res.undecided.append((lab, und))
        elif not bad:
            res.decided.append(lab)

    S_ = lambda x: ('str', x)
    vi = lambda ty, v, x: ('adt', ty, P.enums[ty].index(v), v, (x,))
    hosts = [('registered name', lambda: vi('HostName', 'RegName', t('host')), [t('host')]),
             ('IPv4 address', lambda: vi('HostName', 'Ipv4Address', ('app', 'Ipv4Addr', *[sym('o%d' % i) for i in range(4)])), [disp(('app', 'Ipv4Addr', *[sym('o%d' % i) for i in range(4)]))]),
             ('IPv6 address', lambda: vi('HostName', 'IpLiteral', vi('IpLiteral', 'Ipv6Address', ('app', 'Ipv6Addr', *[sym('g%d' % i) for i in range(8)]))),
              [S_('['), disp(('app', 'Ipv6Addr', *[sym('g%d' % i) for i in range(8)])), S_(']')]),
             ('future address', lambda: vi('HostName', 'IpLiteral', vi('IpLiteral', 'IpvFuture', t('host'))), [S_('['), t('host'), S_(']')])]
    users = [('', None, []), ('user', False, [t('user'), S_('@')]), ('user and password', True, [t('user'), S_(':'), t('pass'), S_('@')])]
    ports = [('', NONE, []), ('port', Some(sym('port')), [S_(':'), disp(sym('port'))])]
    ctors = [('of_abempty_from_strings', 'ab-empty'), ('of_absolute_from_strings', 'absolute'), ('of_rootless_from_strings', 'rootless'), ('of_no_scheme_from_strings', 'no-scheme')]
    paths = [('empty path', lambda st: new(st, 'Path', 'of_empty'), [])]
    for c, n in ctors:
        for k in (0, 1, 2, 3) if n == 'ab-empty' else (1, 2):
            parts = [t('part%d' % i) for i in range(k)]
            paths.append(('%s path of %d' % (n, k), (lambda c, parts: lambda st: new(st, 'Path', c, ('seq', tuple(('e', x) for x in parts))))(c, parts), parts))
    queries = [('', None, [])]
    for shape in itertools.product((0, 1), repeat=1), itertools.product((0, 1), repeat=2), itertools.product((0, 1), repeat=3):
        for bits in shape:
            vs, out = [], []
            for i, b in enumerate(bits):
                vs.append(('e', ('tup', (t('key%d' % i), Some(t('val%d' % i)) if b else NONE))))
                out += ([S_('&')] if i else []) + [t('key%d' % i)] + ([S_('='), t('val%d' % i)] if b else [])
            queries.append(('query ' + ''.join('kv'[b] for b in bits), ('seq', tuple(vs)), out))

    def user(st, u):
        if u is None:
            return st, NONE
        st, v = new(st, 'UserInfo', 'new', t('user'), Some(t('pass')) if u else NONE)
        return st, Some(v)

    def authority(st, h, p, u):
        st, uv = user(st, u)
        return new(st, 'Authority', 'new', h(), p, uv)

    for hn, h, ht in hosts:
        one('host: ' + hn, 'HostName', lambda st, h=h: (st, h()), ht)
        for pn, p, pt in ports:
            for un, u, ut in users:
                one('authority: ' + ' '.join(x for x in (hn, pn, un) if x), 'Authority', lambda st, h=h, p=p, u=u: authority(st, h, p, u), ut + ht + pt)
    for un, u, ut in users[1:]:
        one('user info: ' + un, 'UserInfo', lambda st, u=u: (lambda r: (r[0], r[1][4][0]))(user(st, u)), ut[:-1])
    for n, b, w in paths:
        one('path: ' + n, 'Path', b, w)
    for n, q, w in queries[1:]:
        one('query: ' + n, 'Query', lambda st, q=q: new(st, 'Query', 'new', q), w)
    hn, h, ht = hosts[0]
    for sc in (0, 1):
        for au in (None, (0, 0), (1, 0), (0, 2), (1, 1)):
            for pn, pb, pt in (paths[0], paths[3]):
                for qn, q, qt in (queries[0], queries[1], queries[2], queries[5]):
                    for fr in (0, 1):
                        def build(st, sc=sc, au=au, pb=pb, q=q, fr=fr):
                            sv = NONE
                            if sc:
                                st, x = new(st, 'Scheme', 'new', t('scheme'))
                                sv = Some(x)
                            st, pv_ = pb(st)
                            av = NONE
                            if au is not None:
                                st, x = authority(st, h, ports[au[0]][1], users[au[1]][1])
                                av = Some(x)
                            st, hp = new(st, 'HierPart', 'new', av, pv_)
                            qv = NONE
                            if q is not None:
                                st, x = new(st, 'Query', 'new', q)
                                qv = Some(x)
                            return new(st, 'Uri', 'new', sv, Some(hp), qv, Some(t('fragment')) if fr else NONE)
                        want = ([t('scheme')] if sc else []) + [S_(':')]
                        if au is not None:
                            want += [S_('//')] + users[au[1]][2] + ht + ports[au[0]][2]
                        want += pt + ([S_('?')] + qt if q is not None else []) + ([S_('#'), t('fragment')] if fr else [])
                        lab = 'uri: ' + ' '.join(x for x in ('scheme' if sc else '', 'authority %s%s' % au if au else '', pn, qn, 'fragment' if fr else '') if x)
                        one(lab, 'Uri', build, want)


# ------------------------------------------------------------------ IP addresses
def check_ip_values(P, res, tier):
    S = Suite(P, res, 'U05', 'uri', 'Uri', 'parse', LG.BYTE)
    d = lambda n, lo='0', hi='9': (n, lo, hi)

    def host(S, st, v, want, what):
        return [(s, what, r, Some(want)) for s, r in S.call(st, 'Uri', 'host_name', v)]

    octets = [lambda n: ([d(n)], num(n)), lambda n: ([d(n + 'a', '1'), d(n)], num(n + 'a', n)), lambda n: (['1', d(n + 'a'), d(n)], num('1', n + 'a', n)),
              lambda n: (['2', d(n + 'a', '0', '4'), d(n)], num('2', n + 'a', n)), lambda n: (['25', d(n, '0', '5')], num('2', '5', n))]
    mk = lambda ty, v, x: ('adt', ty, P.enums[ty].index(v), v, (x,))

    def v4(shapes, pre='o'):
        ps, vs = [], []
        for i, k in enumerate(shapes):
            p, v = octets[k]('%s%d' % (pre, i))
            ps += (['.'] if i else []) + p
            vs.append(v)
        return ps, vs

    combos = set()
    for i in range(4):
        for k in range(5):
            for other in (0, 2):
                combos.add(tuple(k if j == i else other for j in range(4)))
    for k in range(5):
        combos.add((k,) * 4)
        combos.add(tuple((k + j) % 5 for j in range(4)))
    if tier == 'thorough':
        combos = set(itertools.product(range(5), repeat=4))
    for c in sorted(combos):
        ps, vs = v4(c)
        S.run('IPv4 octets of widths %s' % (c,), ['s://'] + ps, lambda S, st, v, vs=vs: host(S, st, v, mk('HostName', 'Ipv4Address', ('app', 'Ipv4Addr') + tuple(vs)), 'the host'))

    hexd = [('0', '9', 48), ('a', 'f', 87), ('A', 'F', 55)]

    def h16(n, width, k):
        """a 16-bit group: first digit of class k, the following ones of the next classes"""
        ps, v = [], I(0)
        for i in range(width):
            lo, hi, off = hexd[(k + i) % 3]
            ps.append((n + str(i), lo, hi))
            v = add(mulk(v, 16), sub(E(n + str(i)), I(off)))
        return ps, v

    def groups(n, pre, k0, widths):
        ps, vs = [], []
        for i in range(n):
            p, v = h16('%s%d' % (pre, i), widths[(i + k0) % len(widths)], (i + k0) % 3)
            ps += ([':'] if i else []) + p
            vs.append(v)
        return ps, vs

    forms = [(8, None, False), (6, None, True)]
    for a in range(0, 8):
        for b in range(0, 8 - a):
            forms.append((a, b, False))
    for a in range(0, 6):
        for b in range(0, 6 - a):
            forms.append((a, b, True))
    rots = ((1, (1, 2, 3, 4)),) if tier != 'thorough' else ((0, (4,)), (1, (1, 2, 3, 4)), (2, (3, 1)), (0, (1,)), (2, (2,)))
    for a, b, tail in forms:
        for k0, widths in rots:
            ps, vs = groups(a, 'a', k0, widths)
            if b is not None:
                p2, v2 = groups(b, 'b', k0 + 1, widths)
                tl = 2 if tail else 0
                vs = vs + [I(0)] * (8 - a - b - tl) + v2
                ps = ps + ['::'] + p2
            if tail:
                p4, v4s = v4((0, 1, 2, 3), 'o')
                ps = ps + ([':'] if (b is None or b > 0) else []) + p4
                vs = vs + [add(mulk(v4s[0], 256), v4s[1]), add(mulk(v4s[2], 256), v4s[3])]
            if len(vs) != 8:
                raise ValueError(vs)
            lab = 'IPv6 %d groups%s%s%s' % (a, '' if b is None else ' :: %d groups' % b, ' and an IPv4 tail' if tail else '', '' if len(rots) == 1 else ' widths %s from %d' % (widths, k0))
            S.run(lab, ['s://['] + ps + [']'], lambda S, st, v, vs=vs: host(S, st, v, mk('HostName', 'IpLiteral', mk('IpLiteral', 'Ipv6Address', ('app', 'Ipv6Addr') + tuple(vs))), 'the host'))
    S.note()
