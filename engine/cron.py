"""Meaning of cron schedules: evaluation at a symbolic date and time, and iteration over an interval."""
import itertools
import multiprocessing
import os
import random
from terms import *
import mir as M
import interp as IN
import natives as NA
import spec as SP
import apps
from terms import *
from interp import Some, FALSE, OPTION_NONE as NONE

ERRS = apps.ERRS
INT = ('sym', 'instant')
MINY, MAXY = -262143, 262142
FIELDS = {'minute': (0, 59), 'hour': (0, 23), 'day': (1, 31), 'month': (1, 12), 'year': (MINY, MAXY), 'second': (0, 59), 'nanosecond': (0, 1999999999), 'ordinal': (1, 366)}
WD = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
DIM = ('sym', 'days in month')
LIMITV = ['Limit', 'Limitless']


def limit(v):
    return ('adt', 'LimitValue', 1, 'Limitless', ()) if v is None else ('adt', 'LimitValue', 0, 'Limit', (v,))


def bool_term(it, st, b):
    return it.branch(st, b)


def days_in_month(it, st, y, m):
    """[(state, days)]: the Gregorian calendar"""
    if st.norm(y) == st.norm(('sym', 'year')) and st.norm(m) == st.norm(('sym', 'month')) and st.norm(m)[0] != 'int':
        return [(st, DIM)]
    out = []
    for s, i in split(it, st, m, 1, 12):
        if i != 2:
            out.append((s, I(30 if i in (4, 6, 9, 11) else 31)))
            continue
        for s2, lp in leap(it, s, y):
            out.append((s2, I(29 if lp else 28)))
    return out


def leap(it, st, y):
    out = []
    def zero(s, k):
        return it.branch(s, IN.mk_eq0(s.norm(it.binop(s, 'Rem', s.norm(y), I(k), 'i32'))))
    for s, a in zero(st, 4):
        if not a:
            out.append((s, False))
            continue
        for s2, b in zero(s, 100):
            if not b:
                out.append((s2, True))
                continue
            out += zero(s2, 400)
    return out


def split(it, st, t, lo, hi):
    """branch on the value of a bounded number"""
    out, cur = [], [st]
    for k in range(lo, hi + 1):
        nxt = []
        for s in cur:
            for s2, b in it.branch(s, IN.mk_eq0(sub(s.norm(t), I(k)))):
                (out if b else nxt).append((s2, k) if b else s2)
        cur = nxt
    return out


class Numbers:
    """every symbol here stands for a number, except the dates"""
    def __contains__(self, n):
        return n not in NONNUM


NONNUM = {'instant', 'timezone', 'specification'}


class Chrono:
    """calls into chrono and intervals-rs on abstract dates, and step ranges with symbolic bounds"""

    def __init__(self, P, extra=None):
        self.P = P
        P.enums.setdefault('LimitValue', LIMITV)
        P.enums.setdefault('Weekday', WD)
        self.extra = extra
        self.it = IN.Interp(P, unroll=6, hooks={'call': self.hook, 'nums': Numbers(), 'mulovf': False}, budget=4000000)
        self.used = set()

    def deref(self, st, v):
        while v[0] == 'mref':
            v = self.it.read(st, v[1], v[2])
        return st.norm(v)

    def hook(self, it, st, fr, c, args):
        m = c['method'] or c['key'].split('::')[-1]
        if self.extra is not None:
            r = self.extra(it, st, fr, c, args)
            if r is not None:
                return r
        a = [self.deref(st, x) for x in args[:3]]
        if not a:
            if m in ('max_value',):
                return None
        r = self.dates(it, st, fr, c, m, a) if a else None
        if r is None:
            r = self.steps(it, st, fr, c, m, args, a)
        if r is not None:
            self.used.add(c['key'])
        return r

    # ------------------------------------------------------------ dates
    def base(self, v):
        """(instant, view) of a date value; local and utc views differ"""
        view = 'local'
        while v[0] == 'app' and v[1] in ('local', 'utc', 'date', 'time'):
            if v[1] == 'utc':
                view = 'utc'
            v = v[2]
        return (v, view)

    def isdate(self, v):
        b, _ = self.base(v)
        return b == INT

    def fieldsym(self, v, f):
        b, view = self.base(v)
        return ('sym', ('' if view == 'local' else view + ' ') + f)

    def bounded(self, st, t, lo, hi):
        for x in (sub(t, I(lo)), sub(I(hi), t)):
            if not st.proves(x):
                st.add_ge(x)
        return t

    def dates(self, it, st, fr, c, m, a):
        x = a[0]
        # views of the instant
        if self.isdate(x):
            if m in ('date', 'date_naive'):
                return [(st, ('app', 'date', x))]
            if m == 'time':
                return [(st, ('app', 'time', x))]
            if m == 'naive_local':
                return [(st, ('app', 'local', x))]
            if m in ('naive_utc', 'to_utc'):
                return [(st, ('app', 'utc', x))]
            if m in ('clone', 'to_owned', 'borrow', 'as_ref', 'fixed_offset'):
                return [(st, x)]
            if m in FIELDS:
                lo, hi = FIELDS[m]
                return [(st, self.bounded(st, self.fieldsym(x, m), lo, hi))]
            if m in ('month0', 'day0', 'ordinal0'):
                lo, hi = FIELDS[m[:-1]]
                return [(st, sub(self.bounded(st, self.fieldsym(x, m[:-1]), lo, hi), I(1)))]
            if m == 'weekday':
                return [(st, ('app', 'weekday', self.fieldsym(x, 'weekday')))]
            if m == 'leap_year':
                return [(s, ('bool', b)) for s, b in leap(it, st, self.bounded(st, self.fieldsym(x, 'year'), MINY, MAXY))]
        if x[0] == 'app' and x[1] == 'weekday':
            w = self.bounded(st, x[2], 1, 7)            # Sunday is 1
            if m == 'number_from_sunday':
                return [(st, w)]
            if m == 'num_days_from_sunday':
                return [(st, sub(w, I(1)))]
            if m in ('number_from_monday', 'num_days_from_monday'):
                k = 0 if m == 'number_from_monday' else 1
                return [(s, I(7 - k) if b else sub(sub(w, I(1)), I(k))) for s, b in it.branch(st, IN.mk_eq0(sub(w, I(1))))]
            if m in ('succ', 'pred', 'days_since'):
                return [(st, ('app', 'weekday', ('app', 'weekday.' + m, x[2])))]
        # naive dates
        if m in ('from_ymd', 'from_ymd_opt') and len(a) == 3:
            return self.ymd(it, st, fr, a, m == 'from_ymd_opt')
        if x[0] == 'app' and x[1] == 'ymd':
            if m in ('signed_duration_since', 'sub') and len(a) == 2 and a[1][0] == 'app' and a[1][1] == 'ymd':
                return [(st, ('app', 'datediff', x, a[1]))]
            if m == 'pred_opt' or m == 'pred':
                return [(st, Some(('app', 'predday', x)) if m == 'pred_opt' else ('app', 'predday', x))]
            if m in ('year', 'month', 'day'):
                return [(st, x[2 + ('year', 'month', 'day').index(m)])]
            if m == 'leap_year':
                return [(s, ('bool', b)) for s, b in leap(it, st, x[2])]
        if x[0] == 'app' and x[1] == 'predday' and m == 'day':
            y = x[2]
            if y[4] == I(1):
                return self.len_before(it, st, y)
        if x[0] == 'app' and x[1] == 'datediff' and m == 'num_days':
            hi, lo = x[2], x[3]
            if hi[4] == lo[4]:
                return [(s, r) for s, r in self.month_diff(it, st, hi, lo)]
        if m == 'is_leap_year':
            return None
        return None

    def ymd(self, it, st, fr, a, opt):
        y, mo, d = a
        out = []
        good = []
        for s, b in it.branch(st, IN.mk_and(IN.mk_ge0(sub(y, I(MINY))), IN.mk_ge0(sub(I(MAXY), y)))):
            if not b:
                good.append((s, False))
                continue
            for s2, b2 in it.branch(s, IN.mk_and(IN.mk_ge0(sub(s.norm(mo), I(1))), IN.mk_ge0(sub(I(12), s.norm(mo))))):
                if not b2:
                    good.append((s2, False))
                    continue
                if self_le28(s2, d):
                    good.append((s2, True))
                    continue
                for s3, n in days_in_month(it, s2, y, mo):
                    good += it.branch(s3, IN.mk_and(IN.mk_ge0(sub(s3.norm(d), I(1))), IN.mk_ge0(sub(n, s3.norm(d)))))
        for s, b in good:
            v = ('app', 'ymd', s.norm(y), s.norm(mo), s.norm(d))
            if opt:
                out.append((s, Some(v) if b else NONE))
            elif b:
                out.append((s, v))
            else:
                it.panic(s, 'from_ymd', fr.fn if fr is not None else None, 'invalid or out-of-range date')
        return out

    def month_diff(self, it, st, hi, lo):
        """days from the d-th of one month to the d-th of the next"""
        out = []
        for s, nxt in it.branch(st, IN.mk_eq0(sub(hi[2], lo[2]))):
            if nxt:
                for s2, b in it.branch(s, IN.mk_eq0(sub(sub(s.norm(hi[3]), s.norm(lo[3])), I(1)))):
                    if not b:
                        s2.note('day difference')
                        out.append((s2, ('app', 'num_days', hi, lo)))
                    else:
                        out += days_in_month(it, s2, s2.norm(lo[2]), s2.norm(lo[3]))
            else:
                for s2, b in it.branch(s, IN.mk_and(IN.mk_eq0(sub(sub(s.norm(hi[2]), s.norm(lo[2])), I(1))),
                                                    IN.mk_and(IN.mk_eq0(sub(s.norm(hi[3]), I(1))), IN.mk_eq0(sub(s.norm(lo[3]), I(12)))))):
                    if b:
                        out.append((s2, I(31)))
                    else:
                        s2.note('day difference')
                        out.append((s2, ('app', 'num_days', hi, lo)))
        return out

    def len_before(self, it, st, y):
        out = []
        for s, b in it.branch(st, IN.mk_eq0(sub(y[3], I(1)))):
            if b:
                out.append((s, I(31)))
            else:
                out += days_in_month(it, s, s.norm(y[2]), sub(s.norm(y[3]), I(1)))
        return out

    # ------------------------------------------------------------ ranges with symbolic bounds
    def rng(self, v):
        """(lo, hi inclusive, step)"""
        if v[0] == 'adt' and v[1] == 'RangeInclusive' and v[4][2] == ('bool', False):
            return v[4][0], v[4][1], I(1)
        if v[0] == 'adt' and v[1] == 'Range':
            return v[4][0], sub(v[4][1], I(1)), I(1)
        if v[0] == 'adt' and v[1] == 'StepRange':
            return v[4]
        return None

    def steps(self, it, st, fr, c, m, args, a):
        r = self.rng(a[0]) if a and a[0][0] == 'adt' else None
        if r is None:
            return None
        lo, hi, k = r
        if lo[0] == hi[0] == k[0] == 'int' and not (m == 'step_by' and a[1][0] != 'int'):
            return None
        if m == 'step_by':
            out = []
            n = a[1]
            for s, z in it.branch(st, IN.mk_eq0(n)):
                if z:
                    it.panic(s, 'step_by', fr.fn if fr is not None else None, 'step_by(0)')
                else:
                    out.append((s, ('adt', 'StepRange', 0, None, (lo, hi, s.norm(n)))))
            return out
        if m in ('into_iter', 'by_ref', 'clone') and a[0][1] == 'StepRange':
            return [(st, args[0])]
        if m in ('any', 'all', 'position', 'find') and len(a) == 2:
            if m == 'position':
                return None
            return self.exists(it, st, lo, hi, k, args[1], m == 'all', m == 'find')
        if m == 'contains' and a[0][1] == 'StepRange':
            return None
        return None

    def exists(self, it, st, lo, hi, k, f, neg, find=False):
        """any(f) over lo, lo+k, .. hi, for a predicate that holds at exactly one value"""
        e = ('sym', 'element of range')
        s0 = st.copy()
        np = len(it.panics)
        outs = []
        for s, v in it.apply(s0, f, [e]):
            outs += it.branch(s, v if not neg else IN.nt(v))
        if len(it.panics) != np:
            del it.panics[np:]
            st.note('range search')
            return None
        vals = set()
        for s, b in outs:
            if b:
                t = s.norm(e)
                if e in atoms_of(t):
                    t2 = None
                    for x in self.solved(s, e):
                        t2 = x
                    t = t2
                if t is None:
                    st.note('range search')
                    return None
                vals.add(t)
        if find and vals and len(vals) == 1:
            t = next(iter(vals))
            return [(s, v if v[0] != 'bool' else Some(t) if v[1] else NONE) for s, v in self.within(it, st, lo, hi, k, t, False)]
        if not vals:
            return [(st, NONE if find else ('bool', neg))]
        if len(vals) != 1:
            st.note('range search')
            return None
        return self.within(it, st, lo, hi, k, vals.pop(), neg)

    def within(self, it, st, lo, hi, k, t, neg):
        c = IN.mk_and(IN.mk_ge0(sub(t, lo)), IN.mk_ge0(sub(hi, t)))
        out = []
        for s, b in it.branch(st, c):
            if not b:
                out.append((s, ('bool', neg)))
                continue
            if k == I(1):
                out.append((s, ('bool', not neg)))
                continue
            q = it.binop(s, 'Rem', s.norm(sub(t, lo)), s.norm(k), 'usize')
            for s2, b2 in it.branch(s, IN.mk_eq0(s.norm(q))):
                out.append((s2, ('bool', b2 != neg)))
        return out

    def solved(self, s, e):
        """e was eliminated in favour of another symbol"""
        for a, b in getattr(s, 'sub', {}).items():
            c, d = lin_parts(b)
            if e in d and abs(d[e]) == 1 and len(d) == 1:
                # a = d*e + c  ->  e = (a - c)/d
                yield mulk(sub(a, I(c)), d[e])


def self_le28(st, d):
    return st.proves(sub(d, I(1))) and st.proves(sub(I(28), d))


# ------------------------------------------------------------------ concrete witnesses
def ev(t, env):
    if t[0] == 'int':
        return t[1]
    if t[0] == 'lin':
        c, d = lin_parts(t)
        r = c
        for a, k in d.items():
            x = ev(a, env)
            if x is None:
                return None
            r += k * x
        return r
    if t[0] == 'sym':
        return env.get(t)
    if t[0] == 'app' and t[1] in ('rem', 'div', 'mul') and len(t) == 4:
        x, y = ev(t[2], env), ev(t[3], env)
        if x is None or y is None or t[1] != 'mul' and y == 0:
            return None
        if t[1] == 'mul':
            return x * y
        q = abs(x) // abs(y)
        q = q if (x < 0) == (y < 0) else -q
        return q if t[1] == 'div' else x - q * y
    return None


def month_days(y, m):
    return 29 if m == 2 and (y % 4 == 0 and y % 100 != 0 or y % 400 == 0) else 28 if m == 2 else 30 if m in (4, 6, 9, 11) else 31


def weekday(y, m, d):
    """Sunday is 1"""
    a = (14 - m) // 12
    y2, m2 = y + 4800 - a, m + 12 * a - 3
    jdn = d + (153 * m2 + 2) // 5 + 365 * y2 + y2 // 4 - y2 // 100 + y2 // 400 - 32045
    return (jdn + 1) % 7 + 1


def witness(st, bounds, tries=6000, seed=5):
    """values of the free symbols that satisfy the path facts, or None; days of the month and the weekday follow from the date"""
    rnd = random.Random(seed)
    if [b for b in st.facts if b[0] not in ('ge0', 'eq0')]:
        return None
    free = [x for x in bounds if st.norm(x) == x]
    Y, MO, D, W = [('sym', n) for n in ('year', 'month', 'day', 'weekday')]
    fixed = {x: st.norm(x)[1] for x in bounds if st.norm(x)[0] == 'int'}
    for n in range(tries):
        env = dict(fixed)
        for x in free:
            lo, hi = bounds[x]
            if x == Y:
                lo, hi = 1970, 2100
            if n > 1 and rnd.random() < .5:
                hi = min(hi, lo + 12)
            env[x] = lo if n == 0 else hi if n == 1 else rnd.randint(lo, hi)
        if Y in env and MO in env:
            if DIM in free:
                env[DIM] = month_days(env[Y], env[MO])
            if D in free:
                env[D] = min(env[D], month_days(env[Y], env[MO]))
            if D in env and W in free:
                env[W] = weekday(env[Y], env[MO], env[D])
        shift_utc(env, rnd.choice((0, 0, 9, -9, 14, -12, 5, -3)) * 60 + rnd.choice((0, 0, 30)), free)
        ok = True
        for x in bounds:
            if x in env and env[x] is None:
                ok = False
                break
            if x not in env:
                v = ev(st.norm(x), env)
                if v is None or not bounds[x][0] <= v <= bounds[x][1]:
                    ok = False
                    break
                env[x] = v
        ok = ok and (Y not in env or env[DIM] == month_days(env[Y], env[MO]) and env[D] <= env[DIM] and env[W] == weekday(env[Y], env[MO], env[D]))
        if not ok:
            continue
        for g in st.ge:
            v = ev(g, env)
            if v is None or v < 0:
                ok = False
                break
        if ok and all(ev(g, env) not in (0, None) for g in st.neq) and all(same_number(a, b, env) for a, b in st.sub.items()):
            return env
    return None


def shift_utc(env, off, free):
    """the UTC components of the local time in env, for an offset in minutes; only free symbols are set"""
    g = [env.get(('sym', n)) for n in ('year', 'month', 'day', 'hour', 'minute')]
    if None in g:
        return
    y, mo, d, h, mi = g
    t = h * 60 + mi - off
    dd, t = divmod(t, 1440)
    d += dd
    if d < 1:
        y, mo = (y - 1, 12) if mo == 1 else (y, mo - 1)
        d = month_days(y, mo)
    elif d > month_days(y, mo):
        d = 1
        y, mo = (y + 1, 1) if mo == 12 else (y, mo + 1)
    for n, v in (('year', y), ('month', mo), ('day', d), ('hour', t // 60), ('minute', t % 60), ('weekday', weekday(y, mo, d))):
        x = ('sym', 'utc ' + n)
        if x in free:
            env[x] = v
        elif x in env and env[x] != v:
            env[x] = None


def same_number(a, b, env):
    x, y = ev(a, env), ev(b, env)
    return x is not None and x == y


# ------------------------------------------------------------------ matching (D03)
MATCH = [('mins', 'minute', 0, 59), ('hours', 'hour', 0, 23), ('days', 'day', 1, None), ('months', 'month', 1, 12), ('day_of_weeks', 'weekday', 1, 7)]


def cron_values_bounds():
    return {('sym', f): FIELDS[f] for f in ('minute', 'hour', 'day', 'month', 'year')} | {('sym', 'weekday'): (1, 7), DIM: (28, 31), ('sym', 'utc weekday'): (1, 7)} | {
        ('sym', 'utc ' + f): FIELDS[f] for f in ('minute', 'hour', 'day', 'month', 'year')}


class Match:
    def __init__(self, P, res):
        self.P, self.res = P, res
        self.fn = None
        for f in P.methods.get('is_satisfied_by', []):
            if f.crate == 'crond' and M.type_head(f.selfty) == 'CronSpecification':
                self.fn = f
        self.ch = Chrono(P)

    def on(self, res):
        self.res = res
        return self

    def adt(self, v, *fs):
        return ('adt', 'CronExpr', self.P.enums['CronExpr'].index(v), v, tuple(fs))

    def named(self, v, **kw):
        return self.adt(v, *[kw[n] for n in self.P.fields['CronExpr::' + v]])

    def term(self, x):
        k = x[0]
        if k == '*':
            return self.adt('AnyValueExpr')
        if k == 'L':
            return self.adt('LastValueExpr')
        if k == 'V':
            return self.adt('ValueExpr', x[1])
        if k == 'R':
            return self.named('RangeExpr', **{'from': self.term(('V', x[1])), 'to': self.term(('V', x[2])), 'per_option': self.adt('NoOp') if x[3] is None else self.term(('V', x[3]))})
        if k == 'P':
            return self.named('PerExpr', digit=self.adt('AnyValueExpr'), option=self.term(('V', x[1])))
        if k == 'list':
            return self.adt('ListExpr', ('seq', tuple(('e', self.term(y)) for y in x[1])))
        raise ValueError(k)

    def ref(self, it, st, x, now, top):
        """[(state, bool)]; top: function state -> [(state, greatest value)]"""
        k = x[0]
        if k == '*':
            return [(st, True)]
        if k == 'V':
            return it.branch(st, IN.mk_eq0(sub(st.norm(now), st.norm(x[1]))))
        if k == 'L':
            return [q for s, m in top(st) for q in it.branch(s, IN.mk_eq0(sub(s.norm(now), m)))]
        if k == 'R':
            out = []
            for s, b in it.branch(st, IN.mk_and(IN.mk_ge0(sub(st.norm(now), st.norm(x[1]))), IN.mk_ge0(sub(st.norm(x[2]), st.norm(now))))):
                if not b or x[3] is None:
                    out.append((s, b))
                else:
                    out += self.multiple(it, s, sub(now, x[1]), x[3])
            return out
        if k == 'P':
            return self.multiple(it, st, now, x[1])
        if k == 'list':
            out, cur = [], [st]
            for y in x[1]:
                nxt = []
                for s in cur:
                    for s2, b in self.ref(it, s, y, now, top):
                        (out if b else nxt).append((s2, True) if b else s2)
                cur = nxt
            return out + [(s, False) for s in cur]
        raise ValueError(k)

    def multiple(self, it, st, t, k):
        out = []
        for s, z in it.branch(st, IN.mk_eq0(st.norm(k))):
            if z:
                out.append((s, None))           # a step of zero: no meaning is specified
                continue
            q = it.binop(s, 'Rem', s.norm(t), s.norm(k), 'usize')
            out += it.branch(s, IN.mk_eq0(s.norm(q)))
        return out

    def schedule(self, lab, fields, prop='D03'):
        """fields: {field name: shape}; compare evaluation with the meaning"""
        res, it = self.res, self.ch.it
        start_obligation(100)
        res.stats['obligations'] += 1
        syms = {}
        def collect(x):
            for y in x[1:]:
                if isinstance(y, tuple) and y and y[0] == 'sym':
                    syms[y] = (0, 255)
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, tuple):
                            collect(z)
        for x in fields.values():
            collect(x)
        st = IN.St()
        for y, (lo, hi) in syms.items():
            self.ch.bounded(st, y, lo, hi)
        for f, _, lo, hi in MATCH:
            pass
        bounds = cron_values_bounds()
        for y, (lo, hi) in bounds.items():
            self.ch.bounded(st, y, lo, hi)
        st.add_ge(sub(DIM, ('sym', 'day')))
        bounds.update(syms)
        expr = self.named('CronExpr', **{f: self.term(fields.get(f, ('*',))) for f, _, _, _ in MATCH})
        spec = ('adt', 'CronSpecification', 0, None, (expr,))
        und, bad = None, False
        np = len(it.panics)
        it.unroll = 16 if 'twelve' in lab else 6
        cuts = len(it.cuts)
        try:
            outs = it.exec_fn(st, self.fn, [spec, INT], None)
            if len(it.cuts) > cuts:
                und = 'a loop goes on past %d rounds' % it.unroll
            for s0, v in outs:
                for s, got in it.branch(s0, s0.norm(v)):
                    res.stats['leaves'] += 1
                    if SP.state_inexact(s):
                        und = 'inexact path'
                        continue
                    for s2, want in self.meaning(it, s.copy(), fields):
                        res.stats['compared'] += 1
                        if want is None or want == got:
                            continue
                        env = witness(s2, bounds)
                        if env is None:
                            und = 'the evaluation and the meaning differ on no sampled time'
                            continue
                        if prop == 'D03' and not bad:
                            bad = True
                            res.viol.append(('D03', lab + '|matches', {'construct': self.fn.name, 'what': '%s at %s: evaluation says %s, the schedule %s' % (
                                self.describe(fields, env), self.when(env), 'match' if got else 'no match', 'matches' if want else 'does not match')}))
            if prop == 'D05':
                for s, kind, fn, msg in it.panics[np:]:
                    env = None if SP.state_inexact(s) else witness(s, bounds)
                    if env is None:
                        und = 'panic %s on an undecided path' % kind
                        continue
                    if not bad:
                        bad = True
                        res.viol.append(('D05', lab + '|panics', {'construct': getattr(fn, 'name', str(fn)), 'what': '%s at %s panics: %s %s' % (self.describe(fields, env), self.when(env), kind, msg)}))
        except ERRS as e:
            und = 'analysis stopped: %s %s' % (type(e).__name__, str(e)[:160])
        del it.panics[np:]
        if und:
            res.undecided.append((lab, und))
        elif not bad:
            res.decided.append(lab)

    def meaning(self, it, st, fields):
        cur = [(st, True)]
        for f, comp, lo, hi in MATCH:
            x = fields.get(f, ('*',))
            nxt = []
            for s, w in cur:
                if w is False:
                    nxt.append((s, w))
                    continue
                top = (lambda hi: lambda s: [(s, I(hi))])(hi) if hi is not None else (lambda s: days_in_month(it, s, s.norm(('sym', 'year')), s.norm(('sym', 'month'))))
                for s2, b in self.ref(it, s, x, ('sym', comp), top):
                    nxt.append((s2, False if b is False else None if w is None or b is None else True))
            cur = nxt
        return cur

    def when(self, env):
        g = lambda n: env[('sym', n)]
        return 'year %d month %d day %d %02d:%02d weekday %d' % (g('year'), g('month'), g('day'), g('hour'), g('minute'), g('weekday'))

    def describe(self, fields, env):
        def go(x):
            if x[0] == '*':
                return '*'
            if x[0] == 'L':
                return 'L'
            n = lambda y: str(ev(y, env))
            if x[0] == 'V':
                return n(x[1])
            if x[0] == 'R':
                return n(x[1]) + '-' + n(x[2]) + ('' if x[3] is None else '/' + n(x[3]))
            if x[0] == 'P':
                return '*/' + n(x[1])
            return ','.join(map(go, x[1]))
        return repr(' '.join(go(fields.get(f, ('*',))) for f, _, _, _ in MATCH))


def shapes(tag=''):
    v = lambda n: ('sym', n + tag)
    return {'star': ('*',), 'last': ('L',), 'value': ('V', v('n')), 'range': ('R', v('a'), v('b'), None), 'stepped range': ('R', v('a'), v('b'), v('k')), 'stepped star': ('P', v('k'))}


def schedules(tier):
    out = []
    for f, _, _, _ in MATCH:
        for n, x in shapes().items():
            out.append(('%s: %s' % (f, n), {f: x}))
        s1, s2, s3 = shapes('1'), shapes('2'), shapes('3')
        items = ['last', 'value', 'range', 'stepped range']
        for a in items:
            out.append(('%s: list of %s' % (f, a), {f: ('list', (s1[a],))}))
            for b in items:
                out.append(('%s: list of %s and %s' % (f, a, b), {f: ('list', (s1[a], s2[b]))}))
        out.append(('%s: empty list' % f, {f: ('list', ())}))
        out.append(('%s: list of three values' % f, {f: ('list', (s1['value'], s2['value'], s3['value']))}))
        out.append(('%s: list of twelve values' % f, {f: ('list', tuple(shapes('abcdefghijkl'[i])['value'] for i in range(12)))}))
        if tier == 'thorough':
            for a, b, c in itertools.product(items, repeat=3):
                out.append(('%s: list of %s, %s and %s' % (f, a, b, c), {f: ('list', (s1[a], s2[b], s3[c]))}))
    names = [f for f, _, _, _ in MATCH]
    out.append(('all five values', {f: ('V', ('sym', f[0:2] + ' value')) for f in names}))
    for f, g in itertools.combinations(names, 2):
        for x, y in (('value', 'value'), ('range', 'stepped star'), ('last', 'value'), ('value', 'last')):
            out.append(('%s %s with %s %s' % (f, x, g, y), {f: shapes(' of ' + f)[x], g: shapes(' of ' + g)[y]}))
    return out


def check_cron_match(P, res, tier, prop='D03'):
    m = Match(P, res)
    if m.fn is None:
        res.undecided.append(('matching', 'CronSpecification::is_satisfied_by not found'))
        return
    parallel(P, res, schedules(tier), lambda job, r: m.on(r).schedule(job[0], job[1], prop), lambda: m.ch.it)


# ------------------------------------------------------------------ iteration (D04)
MIN60 = 60000
START, END, MAX, SPEC, TZ = sym('start'), sym('end'), sym('latest time'), ('sym', 'specification'), ('sym', 'timezone')


class Iterate:
    """dates are milliseconds; whether a date satisfies the schedule is an unknown predicate"""

    def __init__(self, P, res):
        self.P, self.res = P, res
        self.ch = Chrono(P, self.hook)
        self.it = self.ch.it
        P.enums.setdefault('LocalResult', ['Single', 'Ambiguous', 'None'])
        self.asked = set()

    def isnum(self, v):
        return v[0] in ('int', 'lin') or v[0] == 'sym' and v not in (SPEC, TZ)

    def hook(self, it, st, fr, c, args):
        m = c['method'] or c['key'].split('::')[-1]
        a = [self.ch.deref(st, x) for x in args[:3]]
        if not a:
            return None
        x = a[0]
        where = fr.fn if fr is not None else None
        if m == 'is_satisfied_by' and len(a) == 2:
            self.asked.add(x)
            return [(s, ('bool', b)) for s, b in it.branch(st, ('app', 'sat', a[1]))]
        head = M.type_head(str(c.get('self') or '')) or c['key'].split('::')[0]
        if m in ('minutes', 'seconds', 'hours', 'days', 'milliseconds', 'weeks', 'try_minutes', 'try_seconds') and ('Duration' in c['full'] or 'TimeDelta' in c['full']):
            k = {'minutes': 60000, 'seconds': 1000, 'hours': 3600000, 'days': 86400000, 'milliseconds': 1, 'weeks': 7 * 86400000}[m.replace('try_', '')]
            d = ('app', 'dur', mulk(x, k))
            return [(st, Some(d) if m.startswith('try_') else d)]
        if x == TZ and m in ('timestamp_millis_opt', 'timestamp_millis', 'timestamp_opt'):
            t = a[1] if m != 'timestamp_opt' else add(mulk(a[1], 1000), it.binop(st, 'Div', a[2], I(1000000), 'u32'))
            out = []
            for s, b in it.branch(st, IN.mk_ge0(sub(MAX, t))):
                v = ('adt', 'LocalResult', 0, 'Single', (t,)) if b else ('adt', 'LocalResult', 2, 'None', ())
                out.append((s, v if m != 'timestamp_millis' else t))
            return out
        if x[0] == 'adt' and x[1] == 'LocalResult':
            if m in ('unwrap', 'expect'):
                if x[3] == 'Single':
                    return [(st, x[4][0])]
                it.panic(st, m, where, 'no such local time')
                return []
            if m in ('single', 'earliest', 'latest'):
                return [(st, Some(x[4][0]) if x[3] == 'Single' else NONE)]
        if self.isnum(x) and len(a) == 2 and a[1][0] == 'app' and a[1][1] == 'dur':
            if m in ('checked_add_signed', 'checked_sub_signed', 'add', 'sub'):
                t = add(x, a[1][2]) if 'add' in m else sub(x, a[1][2])
                out = []
                for s, b in it.branch(st, IN.mk_ge0(sub(MAX, t))):
                    if m.startswith('checked'):
                        out.append((s, Some(t) if b else NONE))
                    elif b:
                        out.append((s, t))
                    else:
                        it.panic(s, m, where, 'the time overflows')
                return out
        if self.isnum(x):
            if m == 'timestamp_millis':
                return [(st, x)]
            if m == 'timestamp':
                return [(st, it.binop(st, 'Div', x, I(1000), 'i64'))]
            if m == 'timezone':
                return [(st, TZ)]
            if m == 'with_timezone':
                return [(st, x)]
        # intervals
        if c['key'].split('::')[0] == 'Interval' or c['key'].startswith('Interval'):
            lim = lambda v: v
            if m in ('closed', 'open') and len(a) == 2:
                return [(st, ('app', 'Interval', a[0], ('bool', m == 'closed'), a[1], ('bool', m == 'closed')))]
            if m == 'over' and len(args) == 4:
                a = [self.ch.deref(st, x) for x in args]
                return [(st, ('app', 'Interval', a[0], a[1], a[2], a[3]))]
            if m == 'and_more':
                return [(st, ('app', 'Interval', a[0], ('bool', True), limit(None), ('bool', True)))]
            if m == 'more_than':
                return [(st, ('app', 'Interval', a[0], ('bool', False), limit(None), ('bool', False)))]
            if m == 'up_to':
                return [(st, ('app', 'Interval', limit(None), ('bool', True), a[0], ('bool', True)))]
            if m == 'under':
                return [(st, ('app', 'Interval', limit(None), ('bool', False), a[0], ('bool', False)))]
        if x[0] == 'app' and x[1] == 'Interval':
            lo, lc, hi, hc = x[2:]
            if m == 'clone':
                return [(st, x)]
            if m in ('has_upper_limit', 'has_lower_limit'):
                return [(st, ('bool', (hi if 'upper' in m else lo)[3] == 'Limit'))]
            if m in ('includes_upper_limit', 'includes_lower_limit'):
                return [(st, hc if 'upper' in m else lc)]
            if m in ('as_upper_limit', 'as_lower_limit'):
                return [(st, hi if 'upper' in m else lo)]
            if m in ('includes', 'is_below', 'is_above') and len(a) == 2 and a[1][3] == 'Limit':
                t = a[1][4][0]
                below = FALSE if lo[3] != 'Limit' else IN.mk_ge0(sub(lo[4][0], add(t, I(1)))) if lc == ('bool', True) else IN.mk_ge0(sub(lo[4][0], t))
                above = FALSE if hi[3] != 'Limit' else IN.mk_ge0(sub(t, add(hi[4][0], I(1)))) if hc == ('bool', True) else IN.mk_ge0(sub(t, hi[4][0]))
                b = above if m == 'is_below' else below if m == 'is_above' else IN.mk_and(IN.nt(below), IN.nt(above))
                return [(s, ('bool', r)) for s, r in it.branch(st, b)]
        if x[0] == 'adt' and x[1] == 'LimitValue':
            if m == 'as_value':
                return [(st, IN.Ok(x[4][0]) if x[3] == 'Limit' else IN.Err(('sym', 'NotFoundError')))]
            if m in ('is_limit', 'is_limitless'):
                return [(st, ('bool', (x[3] == 'Limit') == (m == 'is_limit')))]
            if m == 'clone':
                return [(st, x)]
        return None

    def method(self, ty, name, trait=None):
        for f in self.P.methods.get(name, []):
            if f.crate == 'crond' and M.type_head(f.selfty) == ty and (f.trait is None) == (trait is None):
                return f
        raise apps.GR.NotGrammar('no method %s::%s' % (ty, name))

    def one(self, st, fn, args):
        r = self.it.exec_fn(st, fn, args, None)
        return r

    def begin(self, end, how):
        """states with a fresh iterator"""
        st = IN.St()
        for g in (START, sub(MAX, START)) + (() if end is None else (sub(END, START), sub(MAX, END))):
            st.add_ge(g)
        out = []
        if how == 'interval':
            for s, iv in self.one(st, self.method('CronInterval', 'new'), [limit(START), limit(end), SPEC]):
                out += self.one(s, self.method('CronInterval', 'iter'), [iv, TZ])
            return SPEC, out
        expr = ('adt', 'CronExpr', self.P.enums['CronExpr'].index('AnyValueExpr'), 'AnyValueExpr', ())
        fs = self.P.fields.get('CronSchedule') or ['expr', 'phantom']
        sch = ('adt', 'CronSchedule', 0, None, tuple(expr if f == 'expr' else ('unit',) for f in fs))
        spec = self.one(IN.St(), self.method('CronSpecification', 'new'), [expr])[0][1]
        if how == 'upcoming':
            return spec, self.one(st, self.method('CronSchedule', 'upcoming'), [sch, START])
        for s, iv in self.one(st, self.method('CronSchedule', 'cron_interval'), [sch, START]):
            out += self.one(s, self.method('CronInterval', 'iter'), [iv, TZ])
        return spec, out

    def advance(self, st, p, end):
        """[(state, yielded time or None, next candidate)] by definition; p None: exhausted"""
        out, cur = [], [(st, p, 0)]
        while cur:
            s, p, n = cur.pop()
            if p is None or n > 8:
                out.append((s, None if p is None else 'far', p))
                continue
            if end is not None:
                late = []
                for s2, b in self.it.branch(s, IN.mk_ge0(sub(sub(p, end), I(1)))):
                    if b:
                        out.append((s2, None, None))
                    else:
                        late.append(s2)
            else:
                late = [s]
            for s2 in late:
                nxt = add(p, I(MIN60))
                for s3, over in self.it.branch(s2, IN.mk_ge0(sub(sub(nxt, MAX), I(1)))):
                    if over:
                        out.append((s3, ('any', p), None))  # the last representable minute may or may not be yielded
                        continue
                    for s4, b in self.it.branch(s3, ('app', 'sat', s3.norm(p))):
                        if b:
                            out.append((s4, p, nxt))
                        else:
                            cur.append((s4, nxt, n + 1))
        return out

    def witness(self, st, end):
        for start in (0, 30000, 30500):
            ends = [start + MIN60 * j + d for j in range(0, 12) for d in (0, 1, MIN60 // 2, MIN60 // 2 + 400, MIN60 - 1)] if end is not None else [None]
            for e in ends:
                for mx in [10 ** 9] + [start + MIN60 * j + d for j in range(0, 14) for d in (0, 1, MIN60 - 1)]:
                    env = {START: start, MAX: mx}
                    if e is not None:
                        env[END] = e
                    if mx < (e if e is not None else start):
                        continue
                    if not all((lambda v: v is not None and v >= 0)(ev(g, env)) for g in st.ge):
                        continue
                    if not all(ev(g, env) not in (0, None) for g in st.neq) or not all(same_number(a, b, env) for a, b in st.sub.items()):
                        continue
                    sat = {}
                    ok = True
                    for k, b in st.facts.items():
                        if k[0] == 'app' and k[1] == 'sat':
                            v = ev(st.norm(k[2]), env)
                            ok = ok and v is not None and sat.setdefault(v, b) == b
                        elif k[0] not in ('ge0', 'eq0'):
                            ok = False
                    if ok:
                        return env, sat
        return None

    def sequence(self, lab, end, how, calls, prop):
        res, it = self.res, self.it
        start_obligation(150)
        res.stats['obligations'] += 1
        it.unroll = 5
        und, bad = None, False
        np = len(it.panics)
        fn = None
        try:
            fn = self.method('CronIntervalIterator', 'next', 'Iterator')
            spec, states = self.begin(end, how)
            work = []
            for s, v in states:
                h = s.alloc(v)
                work.append((s, ('mref', h, ()), START, 0, ()))
            while work:
                s, ref, p, n, hist = work.pop()
                if n == calls:
                    continue
                for s1, got in it.exec_fn(s, fn, [ref], None):
                    got = s1.norm(got)
                    res.stats['leaves'] += 1
                    if SP.state_inexact(s1) or got[0] != 'adt' or got[1] != 'Option':
                        und = 'inexact path' if SP.state_inexact(s1) else 'next returns ' + show(got)[:60]
                        continue
                    for s2, want, p2 in self.advance(s1.copy(), p, end):
                        res.stats['compared'] += 1
                        g = s2.norm(got[4][0]) if got[3] == 'Some' else None
                        if isinstance(want, tuple) and want[0] == 'any':
                            hit = [(s2, None)] if g is None else [(s3, want[1]) for s3, b in it.branch(s2, ('app', 'sat', s2.norm(want[1]))) if b]
                            want = hit[0][1] if hit else None
                            s2 = hit[0][0] if hit else s2
                        w = s2.norm(want) if isinstance(want, tuple) else want
                        if g == w or g is not None and isinstance(w, tuple) and s2.proves_eq(sub(g, w)):
                            work.append((s2, ref, p2, n + 1, hist + (g,)))
                            continue
                        if w == 'far' and g is None:
                            pass
                        elif w == 'far' and g is not None and s2.proves(sub(g, add(p2, I(-1)))):
                            continue
                        x = self.witness(s2, end)
                        if x is None:
                            und = 'the iteration and the definition differ on no sampled interval'
                            continue
                        if bad or prop != 'D04':
                            continue
                        bad = True
                        env, sat = x
                        at = lambda t: 'none' if t is None else str(t) if isinstance(t, str) else '%s min' % (((ev(t, env) or 0) - env[START]) / 60000)
                        res.viol.append(('D04', lab + '|times', {'construct': fn.name, 'what': 'interval of %s from its start, matching minutes %s: call %d of next yields %s, expected %s' % (
                            'no end' if end is None else '%.3f min' % ((env[END] - env[START]) / 60000), [round((k - env[START]) / 60000, 3) for k, b in sorted(sat.items()) if b], n + 1, at(g), at(w))}))
            if self.asked - {spec} and prop == 'D04':
                und = 'the predicate asked is %s' % [show(x)[:60] for x in self.asked]
            if prop == 'D05':
                for s, kind, f, msg in it.panics[np:]:
                    x = None if SP.state_inexact(s) else self.witness(s, end)
                    if x is None:
                        und = 'panic %s on an undecided path' % kind
                    elif not bad:
                        bad = True
                        res.viol.append(('D05', lab + '|panics', {'construct': getattr(f, 'name', str(f)), 'what': 'iterating panics: %s %s (%s)' % (kind, msg, {show(k): v for k, v in x[0].items()})}))
        except ERRS as e:
            und = 'analysis stopped: %s %s' % (type(e).__name__, str(e)[:160])
        del it.panics[np:]
        self.asked = set()
        if und:
            res.undecided.append((lab, und))
        elif not bad:
            res.decided.append(lab)


def check_cron_iteration(P, res, tier, prop='D04'):
    m = Iterate(P, res)
    calls = 3 if tier != 'thorough' else 4
    m.sequence('iterating an interval with an end', END, 'interval', calls, prop)
    m.sequence('iterating an interval without an end', None, 'interval', calls, prop)
    m.sequence('CronSchedule::cron_interval', None, 'cron_interval', calls, prop)
    m.sequence('CronSchedule::upcoming', None, 'upcoming', calls, prop)
    finish(m.it, res)


def check_cron_panics(P, res, tier):
    check_cron_match(P, res, tier, 'D05')
    check_cron_iteration(P, res, tier, 'D05')


_JOB = None


def _run(k):
    import core_checks as K
    P, jobs, n, f, it = _JOB
    r = K.Result()
    for j in jobs[k::n]:
        f(j, r)
    finish(it(), r)
    idx = {id(x): i for i, x in enumerate(P.fns)}
    return r.viol, r.undecided, r.decided, r.stats, [idx[id(x)] for x in r.used.values() if id(x) in idx]


def parallel(P, res, jobs, f, it):
    """run f(job, result) over the jobs in forked processes and merge the results in job order"""
    global _JOB
    n = max(1, min(8, os.cpu_count() or 1, len(jobs) // 2))
    _JOB = (P, jobs, n, f, it)
    with multiprocessing.get_context('fork').Pool(n) as pool:
        outs = pool.map(_run, range(n), chunksize=1)
    order = {j[0]: i for i, j in enumerate(jobs)}
    for viol, und, dec, stats, used in outs:
        res.viol += viol
        res.undecided += und
        res.decided += dec
        for k, v in stats.items():
            res.stats[k] = res.stats.get(k, 0) + v
        for i in used:
            res.used[P.fns[i].name] = P.fns[i]
    res.viol.sort(key=lambda v: order.get(v[1].rsplit('|', 1)[0], -1))


def finish(it, res):
    for f in it.used:
        if f.crate != 'models':
            res.used[f.name] = f
    res.stats['callsites'] = res.stats.get('callsites', 0) + it.callsites
