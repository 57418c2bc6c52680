"""Obligations C01-C05, C07-C13 over the combinator library (crate parser)."""
import re
import interp as IN
import mir as M
import charfn
from terms import *
from spec import *
from interp import Some, OPTION_NONE

p_ = ('adt', 'Parser', 0, None, (sym('p'), UNIT))
q_ = ('adt', 'Parser', 0, None, (sym('q'), UNIT))
r_ = ('adt', 'Parser', 0, None, (sym('r'), UNIT))
F_ = sym('F')
OFF = IN_OFF


# ------------------------------------------------------------------ locating constructs
def find_impl(P, name, selfty='ParsersImpl', trait=None):
    c = [f for f in P.methods.get(name, []) if M.type_head(f.selfty) == selfty and f.crate == 'parser' and (trait is None or f.trait == trait)]
    if c:
        return c[0]
    d = [f for f in P.free.get(name, []) if f.crate == 'parser' and re.search(r'(Parsers|::Parser\w+|^Parser\w+|[a-z]+_parsers?::\w+Parsers?)::' + name + '$', M.strip_generics(f.name))]
    if trait:
        d = [f for f in d if M.strip_generics(f.name).split('::')[-2] == trait] or d
    return d[0] if len(d) >= 1 else None


def impl(name, *args, trait=None, selfty='ParsersImpl'):
    def build(it, st):
        f = find_impl(it.p, name, selfty, trait)
        if f is None:
            return None
        return it.exec_fn(st, f, list(args), selfty)
    build.label = selfty + '::' + name
    return build


def defaultm(trait, name, *args, selfty='ParsersImpl'):
    """the default body of a trait method"""
    def build(it, st):
        f = find_impl(it.p, name, selfty, None)
        if f is None:
            return None
        return it.exec_fn(st, f, list(args), selfty)
    build.label = trait + '::' + name
    return build


def method(name, *args, trait=None):
    def build(it, st):
        c = [f for f in it.p.methods.get(name, []) if M.type_head(f.selfty) == 'Parser' and f.crate == 'parser' and (trait is None or f.trait == trait)]
        f = c[0] if c else None
        if f is None:
            d = [x for x in it.p.free.get(name, []) if x.crate == 'parser' and re.search(r'Parser\w*::' + name + '$', M.strip_generics(x.name))
                 and not re.search(r'Parsers::' + name + '$', M.strip_generics(x.name))]
            f = d[0] if d else None
        if f is None:
            return None
        return it.exec_fn(st, f, list(args), 'Parser<I, A>')
    build.label = 'Parser::' + name + ('(%s)' % trait if trait else '')
    return build


def prelude(name, *args):
    def build(it, st):
        c = [f for f in it.p.free.get(name, []) if f.crate == 'parser' and M.strip_generics(f.name) in (name, 'prelude::' + name)]
        if not c:
            return None
        return it.exec_fn(st, c[0], list(args), None)
    build.label = 'prelude::' + name
    return build


# ------------------------------------------------------------------ obligations
class Ob:
    def __init__(self, build, ref, ok=None, fail=None, runs=None, hooks=None, unroll=3, label=None, want=None):
        self.build, self.ref = build, ref
        self.props = {'success': ok, 'failure': fail or ok, 'runs': runs}
        self.hooks = hooks
        self.unroll = unroll
        self.rec = 5
        self.label = label or build.label
        self.want = want

    def properties(self):
        return {x for x in self.props.values() if x}


def base_state(it):
    st = IN.St()
    n = it.seqlen(st, IN_P)
    st.ge = st.ge + (OFF, sub(n, OFF)) + tuple(sym(x) for x in it.hooks.get('nums', ()))
    return st


def leaves_of(P, ob, stats):
    """-> (interp, [(state, value)]) or (interp, None) when the construct is missing/unsupported"""
    start_obligation()
    it = IN.Interp(P, unroll=ob.unroll, hooks=ob.hooks or {})
    it.rec_limit = ob.rec
    st = base_state(it)
    b = ob.build(it, st)
    if b is None:
        return it, None
    out = []
    for s0, par in b:
        par = s0.norm(par)
        if par[0] != 'adt' or par[1] != 'Parser':
            return it, None
        out += it.apply(s0, par[4][0], [('adt', 'ParseState', 0, None, (IN_P, OFF))])
    stats['leaves'] += len(out)
    return it, out


class Result:
    def __init__(self):
        self.viol = []        # (property, key, detail)
        self.undecided = []   # (label, reason)
        self.decided = []     # labels
        self.stats = {'leaves': 0, 'compared': 0, 'obligations': 0, 'panic_paths': 0, 'cuts': 0, 'callsites': 0}
        self.used = {}
        self.panics = []

    def note_used(self, it):
        for f in it.used:
            if f.crate != 'models':
                self.used[f.name] = f
        self.stats['callsites'] += it.callsites
        self.stats['cuts'] += len(it.cuts)


def where(f):
    m = re.search(r'(\S+\.rs):(\d+)', f.name)
    return f.name


def run_ob(P, ob, res, want=None):
    """decide one obligation; `want` restricts the reported properties"""
    try:
        it, leaves = leaves_of(P, ob, res.stats)
    except ANALYSIS_ERRORS as e:
        res.undecided.append((ob.label, 'analysis stopped: %s %s' % (type(e).__name__, str(e)[:120])))
        return
    res.stats['obligations'] += 1
    if leaves is None:
        res.undecided.append((ob.label, 'construct not found'))
        return
    res.note_used(it)
    und = None
    bad = []
    for st, v in leaves:
        v = st.norm(v)
        if v[0] == 'adt' and v[1] == 'ParseResult':
            pass
        else:
            und = 'result not resolved: ' + show(v)[:80]
            continue
        ok = True
        try:
            for s2, exp, x in run_reference(it, st, ob.ref):
                if s2 is None:
                    und = 'reference did not settle'
                    continue
                res.stats['compared'] += 1
                r = compare(it, s2, v, exp, x, st)
                if r is None:
                    und = und or 'comparison inexact: ' + show(v)[:100]
                elif r is not True:
                    cf = charfn.feasible(s2) if charfn.concerns(s2) else None
                    if cf is False:
                        continue
                    if cf is None and state_inexact(st):
                        und = und or 'mismatch on an inexact path'
                    else:
                        bad.append((r, s2, v, exp))
        except ANALYSIS_ERRORS as e:
            und = 'reference: %s' % e
    if bad:
        seen = set()
        for (asp, msg, extra), s2, v, exp in bad:
            prop = ob.props.get(asp)
            if prop is None or (want and prop != want):
                continue
            k = '%s|%s|%s' % (ob.label, asp, msg)
            if k in seen:
                continue
            seen.add(k)
            res.viol.append((prop, k, {
                'construct': ob.label, 'aspect': asp, 'what': msg + (': ' + extra if extra else ''), 'found': show(v)[:600], 'expected': show_exp(exp)[:600],
                'path': show_state(s2, 30), 'functions': sorted(where(f) for f in it.used if f.crate != 'models')[:12]}))
    elif und:
        res.undecided.append((ob.label, und))
    else:
        res.decided.append(ob.label)


def show_exp(e):
    if e[0] == 'alt':
        return ' or '.join(show_exp(x) for x in e[1:])
    if e[0] == 'S':
        return 'Success{%s, %s}' % (show_any(e[1]), show_any(e[2]))
    return 'Failure{%s, %s}' % (show_any(e[1]), show_any(e[2]))


def show_any(t):
    if t == ANY:
        return '*'
    if t[0] == 'pred':
        return t[2]
    return show(t)


def compare(it, st, v, exp, x, leaf):
    """True, None (inexact) or (aspect, message, exactness)"""
    if exp == ('skip',):
        return True
    if exp[0] == 'alt':
        rs = [compare(it, st, v, e, x, leaf) for e in exp[1:]]
        for r in rs:
            if r is True:
                return True
        for r in rs:
            if r is None:
                return None
        return rs[0]
    v = st.norm(v)
    val, ln = v[4]
    if exp[0] == 'S':
        if v[2] != 0:
            return ('success', 'fails where it must succeed', False)
        r1 = same(it, st, val, exp[1])
        r2 = same(it, st, ln, exp[2])
        if r1 is False:
            return ('success', 'wrong value', False)
        if r2 is False:
            return ('success', 'wrong length', False)
        if r1 is None or r2 is None:
            return None
    else:
        if v[2] == 0:
            return ('success', 'succeeds where it must fail', False)
        r1 = same(it, st, val, exp[1])
        r2 = same(it, st, ln, exp[2])
        if r1 is False:
            return ('failure', 'wrong error', False)
        if r2 is False:
            return ('failure', 'wrong commit status', False)
        if r1 is None or r2 is None:
            return None
    # which parts ran, in order
    got = [st.norm(e) for e in leaf.trace if e[0] == 'child']
    got = [(g[1], g[3]) for g in got]
    want = [(f, st.norm(o)) for f, o in x.kids]
    if [g[0] for g in got] != [w[0] for w in want] or any(not st.proves_eq(sub(g[1], w[1])) for g, w in zip(got, want)):
        return ('runs', 'the parts that run differ', 'ran [%s], expected [%s]' % (
            ', '.join(show(a) for a, b in got)[:80], ', '.join(show(a) for a, b in want)[:80]))
    return True


# ------------------------------------------------------------------ reference definitions
def ref_seq(a, b, mk):
    def ref(x):
        r = x.child(a, OFF)
        if r[0] == 'F':
            return r
        q = x.child(b, add(OFF, r[2]))
        if q[0] == 'F':
            return q
        return S(mk(r[1], q[1]), add(r[2], q[2]))
    return ref


def tup(*v):
    return ('tup', tuple(v))


def ref_surround(l, p, r):
    def ref(x):
        a = x.child(l, OFF)
        if a[0] == 'F':
            return a
        b = x.child(p, add(OFF, a[2]))
        if b[0] == 'F':
            return b
        c = x.child(r, add(add(OFF, a[2]), b[2]))
        if c[0] == 'F':
            return c
        return S(b[1], add(add(a[2], b[2]), c[2]))
    return ref


def ref_flat_map(p, f):
    def ref(x):
        a = x.child(p, OFF)
        if a[0] == 'F':
            return a
        nx = x.call(f, a[1])
        b = x.child(nx, add(OFF, a[2]))
        if b[0] == 'S':
            return S(b[1], add(a[2], b[2]))
        if x.committed(b[2]) or not x.eq(a[2], I(0)):
            return Fl(b[1], COMMITTED)
        return Fl(b[1], UNCOMMITTED)
    return ref


def ref_or(a, b):
    def ref(x):
        r = x.child(a, OFF)
        if r[0] == 'S' or x.committed(r[2]):
            return r
        return x.child(b, OFF)
    return ref


def ref_attempt(p):
    def ref(x):
        r = x.child(p, OFF)
        return r if r[0] == 'S' else Fl(r[1], UNCOMMITTED)
    return ref


def ref_opt(p):
    def ref(x):
        r = x.child(p, OFF)
        return S(Some(r[1]), r[2]) if r[0] == 'S' else S(OPTION_NONE, I(0))
    return ref


def ref_map(p, g, keep_err=True):
    """g(x, value, length) -> expected result"""
    def ref(x):
        r = x.child(p, OFF)
        if r[0] == 'F':
            return r if keep_err else Fl(ANY, r[2])
        return g(x, r[1], r[2])
    return ref


class FnOb:
    """a plain function: every abstract outcome equals the reference value"""
    def __init__(self, build, ref, prop, label, hooks=None, unroll=3, need=()):
        self.build, self.ref, self.prop, self.label, self.hooks, self.unroll = build, ref, prop, label, hooks or {}, unroll

    def run(self, P, res, want=None):
        start_obligation()
        try:
            it = IN.Interp(P, unroll=self.unroll, hooks=self.hooks)
            st = IN.St()
            st.ge = tuple(sym(x) for x in self.hooks.get('nums', ()))
            leaves = self.build(it, st)
        except ANALYSIS_ERRORS as e:
            res.undecided.append((self.label, 'analysis stopped: %s %s' % (type(e).__name__, str(e)[:120])))
            return
        if leaves is None:
            res.undecided.append((self.label, 'construct not found'))
            return
        res.stats['obligations'] += 1
        res.stats['leaves'] += len(leaves)
        res.note_used(it)
        und, bad = None, None
        for st, v in leaves:
            try:
                for s2, exp, x in run_reference(it, st, self.ref):
                    if s2 is None:
                        und = 'reference did not settle'
                        continue
                    res.stats['compared'] += 1
                    r = same(it, s2, v, exp) if exp != ('skip',) else True
                    if r is None or (r is False and state_inexact(s2)):
                        und = und or 'comparison inexact: ' + show(s2.norm(v))[:100]
                    elif r is False and bad is None:
                        bad = (s2, s2.norm(v), exp)
            except ANALYSIS_ERRORS as e:
                und = 'reference: %s' % e
        if bad:
            s2, v, exp = bad
            res.viol.append((self.prop, self.label + '|value', {
                'construct': self.label, 'what': 'wrong value', 'found': show(v)[:600], 'expected': show_any(exp)[:600], 'path': show_state(s2, 30),
                'functions': sorted(f.name for f in it.used if f.crate != 'models')[:12]}))
        elif und:
            res.undecided.append((self.label, und))
        else:
            res.decided.append(self.label)


ANALYSIS_ERRORS = (IN.Unsupported, IN.Budget, KeyError, IndexError, TypeError, AssertionError, RecursionError, ValueError, AttributeError)


def last_off(x, o):
    return sub(o, I(1)) if x.le(I(1), o) else I(0)


def ref_elem(pred, value=None):
    def ref(x):
        if not x.avail(OFF):
            return Fl(ANY, UNCOMMITTED)
        e = x.elem(OFF)
        if pred(x, e):
            return S(e, I(1))
        return Fl(ANY, UNCOMMITTED)
    return ref


def ref_repeat(p, sep, lo, hi):
    """lo: term; hi: inclusive maximum or None"""
    def ref(x):
        vals, end, tail = [], OFF, OFF
        while True:
            if hi is not None and x.le(hi, I(len(vals))):
                break
            at = end
            tail = end
            if vals and sep is not None:
                r = x.child(sep, end)
                if r[0] == 'F':
                    break
                at = add(end, r[2])
                tail = at
            r = x.child(p, at)
            if r[0] == 'F':
                break
            vals.append(r[1])
            end = tail = add(at, r[2])
        if not x.le(lo, I(len(vals))):
            return Fl()
        v = ('seq', tuple(('e', t) for t in vals))
        return ('alt', S(v, sub(tail, OFF)), S(v, sub(end, OFF)))
    return ref


def ref_literal(n, at, eq, value):
    def ref(x):
        k = 0
        while x.lt(I(k), n(x)):
            if not x.avail(add(OFF, I(k))):
                return Fl(ANY, UNCOMMITTED)
            if not eq(x, at(x, k), x.elem(add(OFF, I(k)))):
                return Fl(ANY, COMMITTED if k else UNCOMMITTED)
            k += 1
        return S(value, I(k))
    return ref


def ref_while(f, lo, hi):
    """lo: minimum, hi: maximum or None; an empty run is allowed when lo is 0"""
    def ref(x):
        s = OFF
        while x.avail(s) and not x.is_(x.call(f, x.elem(s))):
            s = add(s, I(1))
        e = s
        while x.avail(e) and x.is_(x.call(f, x.elem(e))):
            e = add(e, I(1))
        n = sub(e, s)
        if n == I(0):
            if lo == I(0) and hi is None:
                return S(x.sl(OFF, I(0)), I(0))
            return Fl(ANY, UNCOMMITTED) if lo != I(0) and lo[0] == 'int' else ('alt', Fl(ANY, UNCOMMITTED), S(x.sl(OFF, I(0)), I(0)))
        if not x.le(lo, n) or (hi is not None and not x.le(n, hi)):
            return Fl(ANY, UNCOMMITTED)
        v = x.sl(s, n)
        return ('alt', S(v, n), S(v, sub(e, OFF)))
    return ref


def ref_till(f, need):
    def ref(x):
        e = OFF
        while x.avail(e):
            if x.is_(x.call(f, x.elem(e))):
                n = add(sub(e, OFF), I(1))
                return S(x.sl(OFF, n), n)
            e = add(e, I(1))
        if need:
            return Fl(ANY, UNCOMMITTED)
        n = sub(x.lenP(), OFF)
        return S(x.sl(OFF, n), n)
    return ref


def ref_take(n, val):
    def ref(x):
        if x.avail(OFF, n):
            return S(val(x), n)
        return Fl(ANY, UNCOMMITTED)
    return ref


def ref_regex(PAT):
    """success iff the pattern, tied to the current position, matches; the length is the number of characters of the match"""
    def ref(x):
        st = x.st
        m = [k for k in st.var if k[0] == 'app' and k[1] == 're_match' and regex_of(st, k[2], PAT)]
        if not m:
            raise ValueError('regex not consulted')
        k = m[0]
        text = k[3]
        src = x.sl(OFF, sub(x.lenP(), OFF))
        if st.norm(text) != st.norm(('app', 'fromchars', src)):
            raise ValueError('regex runs on another text')
        if st.var[k] == 0:
            return Fl(ANY, UNCOMMITTED)
        if not regex_of(st, k[2], PAT) == 'tied' and not x.eq(('app', 're_start', k[2], text), I(0)):
            return Fl(ANY, UNCOMMITTED)
        t = ('app', 're_text', k[2], text)
        return S(t, ('app', 'len', ('app', 'chars', t)))
    return ref


def regex_of(st, r, PAT):
    """is r a regex for the pattern; 'tied' when every match starts at 0 by construction"""
    r = st.norm(r)
    if r[0] != 'app' or r[1] != 'regex':
        return None
    ps = cat_parts(r[2])
    ps = [r[2]] if ps is None else list(ps)
    if ps == [PAT]:
        return 'pattern'
    if len(ps) == 2 and ps[1] == PAT and ps[0] in (('str', '^'), ('str', '\\A')):
        return 'pattern'
    if len(ps) == 3 and ps[1] == PAT and ps[0] in (('str', '^(?:'), ('str', '\\A(?:'), ('str', '^('), ('str', '\\A(')) and ps[2] == ('str', ')'):
        return 'tied'
    return None


def ref_chain_left(p, op, first=None, default=None):
    def ref(x):
        if first is None:
            r = x.child(p, OFF)
            if r[0] == 'F':
                if default is not None:
                    return r if x.committed(r[2]) else S(default, I(0))
                return r
            acc, pos = r[1], add(OFF, r[2])
        else:
            acc, pos = first, OFF
        while True:
            o = x.child(op, pos)
            if o[0] == 'F':
                if x.committed(o[2]):
                    return Fl(o[1], COMMITTED)
                return S(acc, sub(pos, OFF))
            r = x.child(p, add(pos, o[2]))
            if r[0] == 'F':
                if x.committed(r[2]) or not x.eq(o[2], I(0)):
                    return Fl(r[1], COMMITTED)
                return ('skip',)
            acc = x.call(o[1], acc, r[1])
            pos = add(add(pos, o[2]), r[2])
    return ref


def ref_chain_right(p, op, first=None, default=None):
    def ref(x):
        if first is None:
            r = x.child(p, OFF)
            if r[0] == 'F':
                if default is not None:
                    return r if x.committed(r[2]) else S(default, I(0))
                return r
            vals, pos = [r[1]], add(OFF, r[2])
        else:
            vals, pos = [first], OFF
        ops = []
        while True:
            o = x.child(op, pos)
            if o[0] == 'F':
                if x.committed(o[2]):
                    return Fl(o[1], COMMITTED)
                break
            r = x.child(p, add(pos, o[2]))
            if r[0] == 'F':
                if x.committed(r[2]) or not x.eq(o[2], I(0)):
                    return Fl(r[1], COMMITTED)
                return ('skip',)
            ops.append(o[1])
            vals.append(r[1])
            pos = add(add(pos, o[2]), r[2])
        acc = vals.pop()
        while ops:
            acc = x.call(ops.pop(), vals.pop(), acc)
        return S(acc, sub(pos, OFF))
    return ref


def ref_const(e):
    return lambda x: e


# ------------------------------------------------------------------ the table
def obligations():
    obs = []

    def o(*a, **k):
        obs.append(Ob(*a, **k))
    # C01 / C03 sequencing
    for b in (impl('and_then', p_, q_), method('and_then', p_, q_), method('add', p_, q_)):
        o(b, ref_seq(p_, q_, lambda a, b: tup(a, b)), 'C01', 'C03', 'C01')
    for b in (impl('skip_left', p_, q_), method('skip_left', p_, q_), method('mul', p_, q_)):
        o(b, ref_seq(p_, q_, lambda a, b: b), 'C01', 'C03', 'C01')
    for b in (impl('skip_right', p_, q_), method('skip_right', p_, q_), method('sub', p_, q_)):
        o(b, ref_seq(p_, q_, lambda a, b: a), 'C01', 'C03', 'C01')
    o(impl('surround', p_, q_, r_), ref_surround(p_, q_, r_), 'C01', 'C03', 'C01')
    o(method('surround', q_, p_, r_), ref_surround(p_, q_, r_), 'C01', 'C03', 'C01')
    o(prelude('surround', p_, q_, r_), ref_surround(p_, q_, r_), 'C01', 'C03', 'C01')
    for b in (impl('flat_map', p_, F_), method('flat_map', p_, F_), impl('flat_map', p_, F_, selfty='ParserParsers')):
        o(b, ref_flat_map(p_, F_), 'C01', 'C03', 'C01')
    # C02 choice
    for b in (impl('or', p_, q_), method('or', p_, q_), method('bitor', p_, q_)):
        o(b, ref_or(p_, q_), 'C02', 'C02', 'C02')
    for b in (impl('attempt', p_), method('attempt', p_)):
        o(b, ref_attempt(p_), 'C02', 'C02', 'C02')
    for b in (impl('opt', p_), method('opt', p_)):
        o(b, ref_opt(p_), 'C02', 'C02', 'C02')
    # C04 / C03 wrappers
    for b in (impl('map', p_, F_), method('map', p_, F_), impl('map', p_, F_, selfty='ParserParsers')):
        o(b, ref_map(p_, lambda x, v, n: S(x.call(F_, v), n)), 'C04', 'C03')

    def filt(neg):
        def g(x, v, n):
            ok = x.is_(x.call(F_, v))
            return S(v, n) if ok != neg else Fl(ANY, UNCOMMITTED)
        return g
    for b in (impl('filter', p_, F_), method('with_filter', p_, F_)):
        o(b, ref_map(p_, filt(False)), 'C04', 'C03')
    o(method('with_filter_not', p_, F_), ref_map(p_, filt(True)), 'C04', 'C03')

    def pfilt(x, v, n):
        return S(v, n) if x.is_(x.call(F_, v)) else Fl(ANY, ANY)
    o(impl('filter', p_, F_, selfty='ParserParsers'), ref_map(p_, pfilt), 'C04', 'C03')

    def mres(x, v, n):
        c = x.call(F_, v)
        if x.variant(c, 2) == 0:
            return S(('app', 'proj', c, ('str', 'Ok'), I(0)), n)
        return Fl(ANY, UNCOMMITTED)
    for b in (impl('map_res', p_, F_), method('map_res', p_, F_)):
        o(b, ref_map(p_, mres), 'C04', 'C03')

    def mopt(x, v, n):
        c = x.call(F_, v)
        if x.variant(c, 2) == 1:
            return S(('app', 'proj', c, ('str', 'Some'), I(0)), n)
        return Fl(ANY, UNCOMMITTED)
    o(impl('map_opt', p_, F_), ref_map(p_, mopt), 'C04', 'C03')
    o(impl('convert_from_bytes_to_str', p_), ref_map(p_, lambda x, v, n: S(('app', 'utf8', v), n) if x.is_(('app', 'utf8_ok', v)) else Fl(ANY, UNCOMMITTED)), 'C04', 'C03')
    o(impl('convert_from_str_to_f64', p_), ref_map(p_, lambda x, v, n: S(('app', 'parse', ('str', 'f64'), v, I(10)), n)
                                                  if x.is_(('app', 'parse_ok', ('str', 'f64'), v, I(10))) else Fl(ANY, UNCOMMITTED)), 'C04', 'C03')
    for b in (impl('discard', p_), method('discard', p_)):
        o(b, ref_map(p_, lambda x, v, n: S(UNIT, n)), 'C04', 'C03')
    for b in (impl('collect', p_), method('collect', p_)):
        o(b, ref_map(p_, lambda x, v, n: S(x.sl(OFF, n), n)), 'C04', 'C03')
    for b in (impl('last_offset', p_), method('last_offset', p_)):
        o(b, ref_map(p_, lambda x, v, n: S(last_off(x, add(OFF, n)), n)), 'C04', 'C03')
    for b in (impl('next_offset', p_), method('next_offset', p_)):
        o(b, ref_map(p_, lambda x, v, n: S(add(OFF, n), n)), 'C04', 'C03')
    keep = ref_map(p_, lambda x, v, n: S(v, n))
    wrap = ref_map(p_, lambda x, v, n: S(v, n), keep_err=False)
    LV = lambda i, n: ('adt', 'LogLevel', i, n, ())
    NM = sym('NAME')
    for b in (impl('log_map', p_, NM, LV(0, 'Debug'), F_), impl('log', p_, NM, LV(1, 'Info')), method('log', p_, NM, LV(2, 'Warn')),
              method('debug', p_, NM), method('info', p_, NM), method('warn', p_, NM), method('error', p_, NM)):
        o(b, keep, 'C04', 'C03')
    for b in (impl('name', p_, NM), method('name', p_, NM), impl('expect', p_, NM)):
        o(b, wrap, 'C04', 'C03')

    def ref_lazy(x):
        return x.child(x.call(F_), OFF)
    for b in (impl('lazy', F_), prelude('lazy', F_)):
        o(b, ref_lazy, 'C04', 'C03')

    def ref_peek(x):
        r = x.child(p_, OFF)
        return r if r[0] == 'F' else S(r[1], I(0))
    for b in (impl('peek', p_), method('peek', p_)):
        o(b, ref_peek, 'C04', 'C03')

    def ref_exists(x):
        r = x.child(p_, OFF)
        return S(('bool', r[0] == 'S'), I(0))
    for b in (impl('exists', p_), method('exists', p_)):
        o(b, ref_exists, 'C04', 'C03')

    def ref_not(x):
        r = x.child(p_, OFF)
        return S(UNIT, I(0)) if r[0] == 'F' else Fl(ANY, UNCOMMITTED)
    for b in (impl('not', p_), method('not', p_, trait='OperatorParser'), method('not', p_, trait='Not')):
        o(b, ref_not, 'C04', 'C03')
    # sources
    V = sym('V')
    o(impl('successful', V), ref_const(S(V, I(0))), 'C04')
    o(impl('successful', V, selfty='ParserParsers'), ref_const(S(V, I(0))), 'C04')
    o(prelude('successful', V), ref_const(S(V, I(0))), 'C04')
    for b in (impl('successful_lazy', F_), prelude('successful_lazy', F_), impl('successful_lazy', F_, selfty='ParserParsers')):
        o(b, lambda x: S(x.call(F_), I(0)), 'C04')
    o(method('pure', F_), lambda x: S(x.call(F_), I(0)), 'C04')
    E_, ST_ = sym('E'), sym('STATUS')
    for b in (impl('failed', E_, ST_), prelude('failed', E_, ST_), impl('failed', E_, ST_, selfty='ParserParsers')):
        o(b, ref_const(Fl(E_, ST_)), 'C03')
    o(prelude('failed_with_commit', E_), ref_const(Fl(E_, COMMITTED)), 'C03')
    o(prelude('failed_with_uncommit', E_), ref_const(Fl(E_, UNCOMMITTED)), 'C03')

    def ref_fl(x):
        c = x.call(F_)
        return Fl(('app', 'proj', c, ('str', ''), I(0)), ('app', 'proj', c, ('str', ''), I(1)))
    for b in (impl('failed_lazy', F_), prelude('failed_lazy', F_), impl('failed_lazy', F_, selfty='ParserParsers')):
        o(b, ref_fl, 'C03')
    for b in (impl('unit'), prelude('unit'), impl('empty'), prelude('empty'), impl('begin'), prelude('begin')):
        o(b, ref_const(S(UNIT, I(0))), 'C04')

    def ref_end(x):
        return Fl(ANY, UNCOMMITTED) if x.avail(OFF) else S(UNIT, I(0))
    for b in (impl('end'), prelude('end')):
        o(b, ref_end, 'C04', 'C03')
    # C05
    n_, m_ = sym('n'), sym('m')
    H = {'nums': ('n', 'm'), 'heads': {n_: 'usize', m_: 'usize'}}
    rng = lambda t, *f: ('adt', t, 0, None, tuple(f))
    for sep in (None, q_):
        so = OPTION_NONE if sep is None else Some(sep)
        for R, lo, hi in ((rng('RangeFull'), I(0), None), (rng('RangeFrom', n_), n_, None),
                          (rng('Range', n_, m_), n_, sub(m_, I(1))), (rng('RangeTo', m_), I(0), sub(m_, I(1))), (n_, n_, n_)):
            lab = R[1] if R[0] == 'adt' else 'usize'
            o(impl('repeat_sep', p_, R, so), ref_repeat(p_, sep, lo, hi), 'C05', 'C05', 'C05', hooks=H, unroll=2,
              label='ParsersImpl::repeat_sep(%s%s)' % (lab, ', sep' if sep else ''))
        o(impl_ri('repeat_sep', lambda R, so=so: [p_, R, so], n_, m_), ref_repeat(p_, sep, n_, m_), 'C05', 'C05', 'C05', hooks=H, unroll=2,
          label='ParsersImpl::repeat_sep(RangeInclusive%s)' % (', sep' if sep else ''))
    o(impl_ri('repeat', lambda R: [p_, R], n_, m_), ref_repeat(p_, None, n_, m_), 'C05', 'C05', 'C05', hooks=H, unroll=2)
    for R, lo, hi in ((rng('RangeFull'), I(0), None), (rng('RangeFrom', n_), n_, None), (rng('Range', n_, m_), n_, sub(m_, I(1))),
                      (rng('RangeTo', m_), I(0), sub(m_, I(1))), (rng('RangeToInclusive', m_), I(0), m_), (n_, n_, n_)):
        lab = R[1] if R[0] == 'adt' else 'usize'
        if lab in ('RangeToInclusive', 'Range'):
            o(impl('repeat', p_, R), ref_repeat(p_, None, lo, hi), 'C05', 'C05', 'C05', hooks=H, unroll=2, label='ParsersImpl::repeat(%s)' % lab)
        o(method('repeat', p_, R), ref_repeat(p_, None, lo, hi), 'C05', 'C05', 'C05', hooks=H, unroll=2, label='Parser::repeat(%s)' % lab)
        if lab in ('RangeToInclusive', 'RangeFrom', 'usize'):
            o(method('of_rep_sep', p_, R, Some(q_)), ref_repeat(p_, q_, lo, hi), 'C05', 'C05', 'C05', hooks=H, unroll=2, label='Parser::of_rep_sep(%s)' % lab)
    o(impl('many0', p_), ref_repeat(p_, None, I(0), None), 'C05', 'C05', 'C05')
    o(impl('many1', p_), ref_repeat(p_, None, I(1), None), 'C05', 'C05', 'C05')
    o(impl('count', p_, n_), ref_repeat(p_, None, n_, n_), 'C05', 'C05', 'C05', hooks=H)
    o(impl('many0_sep', p_, q_), ref_repeat(p_, q_, I(0), None), 'C05', 'C05', 'C05')
    o(impl('many1_sep', p_, q_), ref_repeat(p_, q_, I(1), None), 'C05', 'C05', 'C05')
    o(method('of_many0', p_), ref_repeat(p_, None, I(0), None), 'C05', 'C05', 'C05')
    o(method('of_many1', p_), ref_repeat(p_, None, I(1), None), 'C05', 'C05', 'C05')
    o(method('of_many_n_m', p_, n_, m_), ref_repeat(p_, None, n_, m_), 'C05', 'C05', 'C05', hooks=H, unroll=2)
    o(method('of_count', p_, n_), ref_repeat(p_, None, n_, n_), 'C05', 'C05', 'C05', hooks=H)
    o(method('of_many0_sep', p_, q_), ref_repeat(p_, q_, I(0), None), 'C05', 'C05', 'C05')
    o(method('of_many1_sep', p_, q_), ref_repeat(p_, q_, I(1), None), 'C05', 'C05', 'C05')
    o(method('of_many_n_m_sep', p_, n_, m_, q_), ref_repeat(p_, q_, n_, m_), 'C05', 'C05', 'C05', hooks=H, unroll=2)
    o(method('of_count_sep', p_, n_, q_), ref_repeat(p_, q_, n_, n_), 'C05', 'C05', 'C05', hooks=H, unroll=2)
    # C08 element sets
    SET = sym('SET')
    a_, b_ = sym('a'), sym('b')
    HE = {'elemty': {'in:P': 'char'}, 'nums': ('a', 'b')}
    inset = lambda x, e: x.is_(('app', 'ext:Set::contains', SET, e))
    for b in (impl('elm_ref_of', SET), impl('elm_of', SET), prelude('elm_ref_of', SET), prelude('elm_of', SET)):
        o(b, ref_elem(inset), 'C08', 'C08')
    for b in (impl('none_ref_of', SET), impl('none_of', SET), prelude('none_ref_of', SET), prelude('none_of', SET)):
        o(b, ref_elem(lambda x, e: not inset(x, e)), 'C08', 'C08')
    for b in (impl('elm_ref_in', a_, b_), impl('elm_in', a_, b_), prelude('elm_in_ref', a_, b_), prelude('elm_in', a_, b_)):
        o(b, ref_elem(lambda x, e: x.le(a_, e) and x.le(e, b_)), 'C08', 'C08', hooks=HE)
    for b in (impl('elm_ref_from_until', a_, b_), impl('elm_from_until', a_, b_), prelude('elm_from_until_ref', a_, b_), prelude('elm_from_until', a_, b_)):
        o(b, ref_elem(lambda x, e: x.le(a_, e) and x.lt(e, b_)), 'C08', 'C08', hooks=HE)
    # C07 single-element parsers
    pr = lambda x, e: x.is_(x.call(F_, e))
    for b in (impl('elm_pred_ref', F_), impl('elm_pred', F_), prelude('elm_pred_ref', F_), prelude('elm_pred', F_)):
        o(b, ref_elem(pr), 'C07', 'C07')
    for b in (impl('elm_any_ref'), impl('elm_any'), prelude('elm_any_ref'), prelude('elm_any')):
        o(b, ref_elem(lambda x, e: True), 'C07', 'C07')
    for b in (impl('elm_ref', a_), impl('elm', a_), prelude('elm_ref', a_), prelude('elm', a_)):
        o(b, ref_elem(lambda x, e: x.eq(e, a_)), 'C07', 'C07')
    for ty in ('char', 'u8'):
        for cls, names in CLASS_PARSERS.items():
            for nme in names:
                for mk in ((prelude,) if cls == 'digit_1_9' else (impl, prelude)):
                    o(mk(nme), ref_elem(lambda x, e, cls=cls: in_class(x, e, CLASSES[cls])), 'C07', 'C07',
                      hooks={'elemty': {'in:P': ty}, 'elem_head': {'in:P': ty}}, label='%s<%s>' % (mk(nme).label, ty))
    # C09
    SQ, TG = sym('SEQ'), sym('TAG')
    chars = ('app', 'chars', TG)
    for b in (impl('seq', SQ), prelude('seq', SQ)):
        o(b, ref_literal(lambda x: x.it.seqlen(x.st, SQ), lambda x, k: x.it.index(x.st, SQ, I(k)), lambda x, a, b: x.eq(a, b), SQ), 'C09', 'C09')
    HT = {'elemty': {'in:P': 'char'}}
    for b in (impl('tag', TG), prelude('tag', TG)):
        o(b, ref_literal(lambda x: x.it.seqlen(x.st, chars), lambda x, k: x.it.index(x.st, chars, I(k)), lambda x, a, b: x.eq(a, b), TG), 'C09', 'C09', hooks=HT)
    for b in (impl('tag_no_case', TG), prelude('tag_no_case', TG)):
        o(b, ref_literal(lambda x: x.it.seqlen(x.st, chars), lambda x, k: x.it.index(x.st, chars, I(k)), eq_nocase, TG), 'C09', 'C09', hooks=HT, unroll=1)
    PAT = sym('PAT')
    for b in (impl('regex', PAT), prelude('regex', PAT)):
        o(b, ref_regex(PAT), 'C09', 'C09', hooks=HT)
    # C10
    for b in (impl('take', n_), prelude('take', n_)):
        o(b, ref_take(n_, lambda x: x.sl(OFF, n_)), 'C10', 'C10', hooks=H)
    for b in (impl('skip', n_), prelude('skip', n_)):
        o(b, ref_take(n_, lambda x: UNIT), 'C10', 'C10', hooks=H)
    for b in (impl('take_while0', F_), prelude('take_while0', F_)):
        o(b, ref_while(F_, I(0), None), 'C10', 'C10')
    for b in (impl('take_while1', F_), prelude('take_while1', F_)):
        o(b, ref_while(F_, I(1), None), 'C10', 'C10')
    for b in (impl('take_while_n_m', n_, m_, F_), prelude('take_while_n_m', n_, m_, F_)):
        o(b, ref_while(F_, n_, m_), 'C10', 'C10', hooks=H)
    for b in (impl('take_till0', F_), prelude('take_till0', F_)):
        o(b, ref_till(F_, False), 'C10', 'C10')
    for b in (impl('take_till1', F_), prelude('take_till1', F_)):
        o(b, ref_till(F_, True), 'C10', 'C10')
    # C12
    for b in (impl('chain_left1', p_, q_), method('chain_left1', p_, q_)):
        o(b, ref_chain_left(p_, q_), 'C12', 'C12', 'C12')
    for b in (impl('rest_left1', p_, q_, V), method('rest_left1', p_, q_, V)):
        o(b, ref_chain_left(p_, q_, first=V), 'C12', 'C12', 'C12')
    for b in (impl('chain_left0', p_, q_, V), method('chain_left0', p_, q_, V)):
        o(b, ref_chain_left(p_, q_, default=V), 'C12', 'C12', 'C12')
    for b in (impl('chain_right1', p_, q_), method('chain_right1', p_, q_), method('scan_right1', p_, q_)):
        o(b, ref_chain_right(p_, q_), 'C12', 'C12', 'C12')
    for b in (impl('rest_right1', p_, q_, V), method('rest_right1', p_, q_, V)):
        o(b, ref_chain_right(p_, q_, first=V), 'C12', 'C12', 'C12')
    for b in (impl('chain_right0', p_, q_, V), method('chain_right0', p_, q_, V)):
        o(b, ref_chain_right(p_, q_, default=V), 'C12', 'C12', 'C12')
    return obs


def impl_ri(name, mk, n, m):
    """RangeInclusive argument: built by the standard constructor"""
    def build(it, st):
        f = find_impl(it.p, name)
        if f is None:
            return None
        out = []
        for s, R in it.nat.T['RangeInclusive::new'](it, st, None, {'method': 'new', 'key': 'RangeInclusive::new', 'kind': 'path'}, [n, m]):
            out += it.exec_fn(s, f, mk(R), 'ParsersImpl')
        return out
    build.label = 'ParsersImpl::%s(RangeInclusive)' % name
    return build


CLASSES = {
    'is_ascii_space': [(9, 9), (32, 32)],
    'is_ascii_multi_space': [(9, 10), (13, 13), (32, 32)],
    'is_ascii_whitespace': [(9, 10), (12, 13), (32, 32)],
    'is_ascii': [(0, 127)],
    'is_ascii_alpha_uppercase': [(65, 90)],
    'is_ascii_alpha_lowercase': [(97, 122)],
    'is_ascii_alpha': [(65, 90), (97, 122)],
    'is_ascii_digit': [(48, 57)],
    'is_ascii_digit_zero': [(48, 48)],
    'is_ascii_alpha_digit': [(48, 57), (65, 90), (97, 122)],
    'is_ascii_hex_digit': [(48, 57), (65, 70), (97, 102)],
    'is_ascii_oct_digit': [(48, 56)],
    'is_ascii_punctuation': [(33, 47), (58, 64), (91, 96), (123, 126)],
    'is_ascii_graphic': [(33, 126)],
    'is_ascii_control': [(0, 31), (127, 127)],
    'digit_1_9': [(49, 57)],
    'is_ascii_digit_non_zero': [(49, 57)],
}
CLASS_PARSERS = {
    'is_ascii_space': ['elm_space_ref', 'elm_space'],
    'is_ascii_multi_space': ['elm_multi_space_ref', 'elm_multi_space'],
    'is_ascii_alpha': ['elm_alpha_ref', 'elm_alpha'],
    'is_ascii_alpha_digit': ['elm_alpha_digit_ref', 'elm_alpha_digit'],
    'is_ascii_digit': ['elm_digit_ref', 'elm_digit'],
    'is_ascii_hex_digit': ['elm_hex_digit_ref', 'elm_hex_digit'],
    'is_ascii_oct_digit': ['elm_oct_digit_ref', 'elm_oct_digit'],
    'digit_1_9': ['elm_digit_1_9_ref', 'elm_digit_1_9'],
}


def in_class(x, e, ivs):
    for lo, hi in ivs:
        if x.le(I(lo), e) and x.le(e, I(hi)):
            return True
    return False


def eq_nocase(x, a, b):
    r = x.eq(('app', 'lower', a), ('app', 'lower', b))
    if charfn.feasible(x.st) is False:
        raise Infeasible()
    return r
