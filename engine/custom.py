"""Property rules that are not a single input/output obligation: C06 caching, C08 membership, C07 class sets, C09 regex, C11 spellings, C13 panics."""
import re
import interp as IN
import mir as M
from terms import *
from spec import *
from core_checks import *

Q_P = ('sym', 'in:Q')
O1, O2 = ('sym', 'in:off'), ('sym', 'in:off2')


# ------------------------------------------------------------------ C06
def check_cache(P, res, tier):
    for build in (impl('cache', p_), method('cache', p_)):
        for other in (IN_P, Q_P):
            lab = '%s, second run on %s' % (build.label, 'the same input' if other == IN_P else 'another input')
            start_obligation()
            try:
                cache_pair(P, res, build, other, lab)
            except ANALYSIS_ERRORS as e:
                res.undecided.append((lab, 'analysis stopped: %s %s' % (type(e).__name__, str(e)[:100])))


def cache_pair(P, res, build, other, lab):
    it = IN.Interp(P, unroll=3, hooks={'nums': ('in:off', 'in:off2')})
    st = IN.St()
    st.ge = st.ge + (O1, O2, sub(it.seqlen(st, IN_P), O1), sub(it.seqlen(st, other), O2))
    b = build(it, st)
    if b is None:
        res.undecided.append((lab, 'construct not found'))
        return
    res.stats['obligations'] += 1
    bad, und = {}, None
    for s0, par in b:
        par = s0.norm(par)
        f = par[4][0]
        for s1, v1 in it.apply(s0, f, [('adt', 'ParseState', 0, None, (IN_P, O1))]):
            held = held_across(s1)
            if held:
                bad.setdefault('borrow', (s1, v1, None))
            n1 = len(s1.trace)
            for s2, v2 in it.apply(s1, f, [('adt', 'ParseState', 0, None, (other, O2))]):
                res.stats['leaves'] += 1
                s2 = merge_inputs(it, s2, other)
                if s2 is None:
                    continue
                for (o, off, v, tag) in ((IN_P, O1, v1, 'first'), (other, O2, v2, 'second')):
                    v = s2.norm(v)
                    outs = it.child(s2.copy(), p_[4][0], s2.norm(('adt', 'ParseState', 0, None, (o, off))))
                    res.stats['compared'] += 1
                    for s3, e in outs:
                        r = same(it, s3, v, e)
                        if r is None or (r is False and state_inexact(s3)):
                            und = und or 'comparison inexact'
                        elif r is False:
                            bad.setdefault(tag, (s3, v, e))
    res.note_used(it)
    msg = {'borrow': 'the cache cell stays borrowed while the wrapped parser runs, so a re-entrant parse panics',
           'first': 'a first run does not return the wrapped parser\'s result',
           'second': 'a later run returns a result that belongs to a different input or position'}
    for k, (s, v, e) in bad.items():
        res.viol.append(('C06', '%s|%s' % (build.label, k), {
            'construct': build.label, 'what': msg[k], 'scenario': lab, 'found': show(v)[:300], 'expected': show(e)[:300] if e else None,
            'path': show_state(s, 30), 'functions': sorted(f.name for f in it.used if f.crate != 'models')}))
    if not bad:
        (res.undecided.append((lab, und)) if und else res.decided.append(lab))


def held_across(st):
    held = set()
    for e in st.trace:
        if e[0] == 'borrow':
            held.add(e[1])
        elif e[0] == 'release':
            held.discard(e[1])
        elif e[0] == 'child' and held:
            return True
    return False


def merge_inputs(it, st, other):
    """two slices with the same address and length are the same input (both are live for the parser's lifetime)"""
    if other == IN_P:
        return st
    for k, v in list(st.facts.items()):
        if v is True and k[0] == 'app' and k[1] == 'eq':
            a, b = k[2], k[3]
            while a[0] == 'app' and b[0] == 'app' and a[1] == b[1] and (a[1] == 'addr' or a[1].startswith('cast:')):
                a, b = a[2], b[2]
            if a[0] == b[0] == 'app' and a[1] == b[1] == 'ptr':
                (xa, oa), (xb, ob) = ptr_base(a[2]), ptr_base(b[2])
                if {xa, xb} == {IN_P, other} and st.proves_eq(sub(oa, ob)):
                    la, lb = it.seqlen(st, IN_P), it.seqlen(st, other)
                    if st.proves_eq(sub(la, lb)):
                        return rename_input(st, other)
    return st


def ptr_base(v):
    if v[0] == 'slice':
        return v[1], v[2]
    return v, I(0)


def rename_input(st, other):
    m = {other: IN_P}
    st = st.copy()
    # a second run of the wrapped parser on the merged input is the first one
    keep = {}
    for k, v in st.memo.items():
        k2 = subst(k, m)
        if k2 in keep and keep[k2] != v:
            a, b = keep[k2], v
            if a[0] != b[0]:
                return None
        keep.setdefault(k2, v)
    st.memo = keep
    st.sub = dict(st.sub)
    st.sub[other] = IN_P
    return st


# ------------------------------------------------------------------ C07 element classes
def trait_method(P, name, selfty, trait, crate='parser'):
    c = [f for f in P.methods.get(name, []) if f.crate == crate and f.trait == trait and norm_self(f.selfty) == selfty]
    if c:
        return c[0]
    d = [f for f in P.free.get(name, []) if f.crate == crate and M.strip_generics(f.name).split('::')[-2:-1] == [trait]]
    return d[0] if d else None


def norm_self(t):
    return re.sub(r"'\w+ ", '', t or '').replace(' ', '')


def check_classes(P, res, tier):
    E = sym('e')
    for ty in ('char', 'u8'):
        for cls, ivs in CLASSES.items():
            if cls == 'digit_1_9':
                continue

            def build(it, st, cls=cls, ty=ty):
                f = trait_method(it.p, cls, ty, 'Element')
                if f is None:
                    return None
                it.type_facts(st, E, ty)
                return it.exec_fn(st, f, [E], ty)
            FnOb(build, lambda x, ivs=ivs: ('bool', in_class(x, E, ivs)), 'C07', 'Element for %s::%s' % (ty, cls),
                 hooks={'nums': ('e',), 'heads': {E: ty}}).run(P, res)

        def build(it, st, ty=ty):
            f = trait_method(it.p, 'to_char', ty, 'Element')
            if f is None:
                return None
            it.type_facts(st, E, ty)
            return it.exec_fn(st, f, [E], ty)
        FnOb(build, lambda x: E, 'C07', 'Element for %s::to_char' % ty, hooks={'nums': ('e',), 'heads': {E: ty}}).run(P, res)


# ------------------------------------------------------------------ C08 membership
def mkrange(it, st, kind, a, b):
    if kind == 'RangeInclusive':
        return it.nat.T['RangeInclusive::new'](it, st, None, {'method': 'new', 'key': 'RangeInclusive::new', 'kind': 'path'}, [a, b])[0][1]
    fs = {'RangeFull': (), 'Range': (a, b), 'RangeFrom': (a,), 'RangeTo': (b,), 'RangeToInclusive': (b,)}[kind]
    return ('adt', kind, 0, None, fs)


RANGES = {
    'RangeFull': (None, None), 'Range': ('a', 'b<'), 'RangeInclusive': ('a', 'b'), 'RangeFrom': ('a', None), 'RangeTo': (None, 'b<'), 'RangeToInclusive': (None, 'b'),
}


def check_membership(P, res, tier):
    A, B, E = sym('a'), sym('b'), sym('e')
    for kind, (lo, hi) in RANGES.items():
        def build(it, st, kind=kind):
            c = [f for f in it.p.methods.get('contains', []) if f.trait == 'Set' and f.crate == 'parser' and M.type_head(f.selfty) == kind]
            return it.exec_fn(st, c[0], [mkrange(it, st, kind, A, B), E], kind) if c else None

        def ref(x, lo=lo, hi=hi):
            if lo and not x.le(A, E):
                return FALSE
            if hi == 'b' and not x.le(E, B) or hi == 'b<' and not x.lt(E, B):
                return FALSE
            return TRUE
        FnOb(build, ref, 'C08', 'Set for %s::contains' % kind, hooks={'nums': ('a', 'b', 'e')}).run(P, res)
        for end in ('start', 'end'):
            def build(it, st, kind=kind, end=end):
                c = [f for f in it.p.methods.get(end, []) if f.trait == 'RangeArgument' and f.crate == 'parser' and M.type_head(f.selfty) == kind]
                return it.exec_fn(st, c[0], [mkrange(it, st, kind, A, B)], kind) if c else None
            w = lo if end == 'start' else hi
            exp = bound(w)
            FnOb(build, lambda x, exp=exp: exp, 'C08', 'RangeArgument for %s::%s' % (kind, end), hooks={'nums': ('a', 'b')}).run(P, res)
    for end in ('start', 'end'):
        def build(it, st, end=end):
            c = [f for f in it.p.methods.get(end, []) if f.trait == 'RangeArgument' and f.crate == 'parser' and M.type_head(f.selfty) == 'usize']
            return it.exec_fn(st, c[0], [A], 'usize') if c else None
        FnOb(build, lambda x: bound('a'), 'C08', 'RangeArgument for usize::' + end, hooks={'nums': ('a',)}).run(P, res)
    SQ = sym('SET')
    arrays = [f for f in P.methods.get('contains', []) if f.trait == 'Set' and f.crate == 'parser' and norm_self(f.selfty).startswith('[u8;')]
    for f in arrays:
        lab = 'Set<u8> for %s::contains' % f.argtys[0].replace('&', '')
        FnOb(lambda it, st, f=f: it.exec_fn(st, f, [SQ, E], f.argtys[0].replace('&', '')),
             lambda x: ('pred', lambda it, s, v: contains_term(it, s, v, SQ, E), 'contains(SET, e)'), 'C08', lab, hooks={'nums': ('e',)}).run(P, res)
    for st_, exp in (('[T]', 'slice'), ('str', 'str')):
        def build(it, st, st_=st_):
            c = [f for f in it.p.methods.get('contains', []) if f.trait == 'Set' and f.crate == 'parser' and norm_self(f.selfty) == st_]
            if not c:
                return None
            return it.exec_fn(st, c[0], [SQ, E], st_)
        def ref(x, st_=st_):
            seqv = SQ if st_ == '[T]' else ('app', 'chars', SQ)
            return ('pred', lambda it, s, v: contains_term(it, s, v, seqv, E), 'contains(%s, e)' % show(seqv))
        FnOb(build, ref, 'C08', 'Set for %s::contains' % st_, hooks={'nums': ('e',)}).run(P, res)


def contains_term(it, st, v, seqv, e):
    v = st.norm(v)
    if v[0] == 'app' and v[1] in ('contains', 'contains_seq', 'contains_char', 'str_contains'):
        return True if set(v[2:4]) == {seqv, e} or (v[2], v[3]) == (seqv[2] if seqv[0] == 'app' else None, e) else False
    if v[0] in ('bool', 'not', 'eq0', 'ge0') or v[0] == 'app' and v[1].startswith('str_'):
        return False
    return None


def bound(w):
    A, B = sym('a'), sym('b')
    if w is None:
        return ('adt', 'Bound', 2, 'Unbounded', ())
    if w == 'b<':
        return ('adt', 'Bound', 0, 'Excluded', (B,))
    return ('adt', 'Bound', 1, 'Included', (A if w == 'a' else B,))


# ------------------------------------------------------------------ results and runners (C03, C11)
def check_results(P, res, tier):
    V, L, E, C, N = sym('V'), sym('L'), sym('E'), sym('STATUS'), sym('n')
    G = sym('G')
    succ = ('adt', 'ParseResult', 0, 'Success', (V, L))
    fail = ('adt', 'ParseResult', 1, 'Failure', (E, C))
    none = OPTION_NONE
    ok = lambda v: ('adt', 'Result', 0, 'Ok', (v,))
    err = lambda v: ('adt', 'Result', 1, 'Err', (v,))
    call = lambda *a: ('app', 'call', G) + a
    T = [
        ('to_result', [succ], ok(V)), ('to_result', [fail], err(E)),
        ('is_success', [succ], TRUE), ('is_success', [fail], FALSE),
        ('is_failure', [succ], FALSE), ('is_failure', [fail], TRUE),
        ('success', [succ], Some(V)), ('success', [fail], none),
        ('failure', [succ], none), ('failure', [fail], Some(E)),
        ('committed_status', [succ], none), ('committed_status', [fail], Some(C)),
        ('flat_map', [succ, G], call(V, L)), ('flat_map', [fail, G], fail),
        ('map', [fail, G], fail),
        ('map', [succ, G], ('adt', 'ParseResult', 0, 'Success', (('app', 'proj', call(V, L), ('str', ''), I(0)), ('app', 'proj', call(V, L), ('str', ''), I(1))))),
        ('map_err', [succ, G], succ), ('map_err', [fail, G], ('adt', 'ParseResult', 1, 'Failure', (call(E), C))),
        ('advance_success', [succ, N], ('adt', 'ParseResult', 0, 'Success', (V, add(L, N)))), ('advance_success', [fail, N], fail),
        ('with_uncommitted', [succ], succ), ('with_uncommitted', [fail], ('adt', 'ParseResult', 1, 'Failure', (E, UNCOMMITTED))),
        ('add_commit', [succ, TRUE], succ), ('add_commit', [fail, TRUE], ('adt', 'ParseResult', 1, 'Failure', (E, COMMITTED))), ('add_commit', [fail, FALSE], fail),
        ('failed_with_commit', [E], ('adt', 'ParseResult', 1, 'Failure', (E, COMMITTED))),
        ('failed_with_uncommitted', [E], ('adt', 'ParseResult', 1, 'Failure', (E, UNCOMMITTED))),
    ]
    for name, args, exp in T:
        def build(it, st, name=name, args=args):
            c = [f for f in it.p.methods.get(name, []) if f.crate == 'parser' and M.type_head(f.selfty) == 'ParseResult']
            return it.exec_fn(st, c[0], list(args), 'ParseResult') if c else None
        lab = 'ParseResult::%s(%s)' % (name, ', '.join(a[3] if a[0] == 'adt' and a[3] else show(a) for a in args))
        FnOb(build, lambda x, exp=exp: exp, 'C03', lab, hooks={'nums': ('n', 'L')}).run(P, res)
    c = ('adt', 'CommittedStatus')
    for a in (COMMITTED, UNCOMMITTED):
        for b in (COMMITTED, UNCOMMITTED):
            def build(it, st, a=a, b=b):
                f = [f for f in it.p.methods.get('or', []) if f.crate == 'parser' and M.type_head(f.selfty) == 'CommittedStatus']
                return it.exec_fn(st, f[0], [a, b], 'CommittedStatus') if f else None
            FnOb(build, lambda x, a=a, b=b: COMMITTED if COMMITTED in (a, b) else UNCOMMITTED, 'C03', 'CommittedStatus::or(%s, %s)' % (a[3], b[3])).run(P, res)
        for nm, w in (('is_committed', a == COMMITTED), ('is_uncommitted', a != COMMITTED)):
            def build(it, st, a=a, nm=nm):
                f = [f for f in it.p.methods.get(nm, []) if f.crate == 'parser' and M.type_head(f.selfty) == 'CommittedStatus']
                return it.exec_fn(st, f[0], [a], 'CommittedStatus') if f else None
            FnOb(build, lambda x, w=w: ('bool', w), 'C03', 'CommittedStatus::%s(%s)' % (nm, a[3])).run(P, res)


def check_runners(P, res, tier):
    """parse starts the parser at offset 0 of the given input"""
    def child0(x):
        return x.child(p_, I(0))

    def value(r):
        return ('adt', 'ParseResult', 0 if r[0] == 'S' else 1, 'Success' if r[0] == 'S' else 'Failure', (r[1], r[2]))

    def result(r):
        return ('adt', 'Result', 0 if r[0] == 'S' else 1, 'Ok' if r[0] == 'S' else 'Err', (r[1],))
    T = [('Parser', 'parse', [p_, IN_P], lambda x: value(child0(x))), ('Parser', 'parse_as_result', [p_, IN_P], lambda x: result(child0(x))),
         ('ParsersImpl', 'parse', [p_, IN_P], lambda x: result(child0(x)))]
    for ty, name, args, ref in T:
        def build(it, st, ty=ty, name=name, args=args):
            f = [f for f in it.p.methods.get(name, []) if f.crate == 'parser' and M.type_head(f.selfty) == ty]
            if not f and ty == 'Parser':
                f = [f for f in it.p.free.get(name, []) if f.crate == 'parser' and M.strip_generics(f.name).endswith('ParserRunner::' + name)]
            return it.exec_fn(st, f[0], list(args), ty + ('<I, A>' if ty == 'Parser' else '')) if f else None
        FnOb(build, ref, 'C11', '%s::%s' % (ty, name)).run(P, res)


# ------------------------------------------------------------------ C11 spellings
ALIAS = {'of_many0': 'many0', 'of_many1': 'many1', 'of_many_n_m': 'repeat(RangeInclusive)', 'of_count': 'count', 'of_many0_sep': 'many0_sep', 'of_many1_sep': 'many1_sep',
         'of_many_n_m_sep': 'repeat_sep(RangeInclusive, sep)', 'of_count_sep': 'repeat_sep(usize, sep)', 'bitor': 'or', 'add': 'and_then', 'sub': 'skip_right', 'mul': 'skip_left',
         'with_filter': 'filter', 'debug': 'log', 'info': 'log', 'warn': 'log', 'error': 'log', 'elm_in_ref': 'elm_ref_in', 'elm_from_until_ref': 'elm_ref_from_until',
         'not(OperatorParser)': 'not', 'not(Not)': 'not', 'scan_right1': 'chain_right1', 'with_filter_not': 'filter'}


def check_spellings(P, res, tier):
    sub_ = Result()
    obs = obligations()
    for ob in obs:
        run_ob(P, ob, sub_)
    core = {}
    for prop, key, d in sub_.viol:
        lab, asp, msg = key.split('|')
        if lab.startswith('ParsersImpl::'):
            core.setdefault(lab[13:], set()).add((asp, msg))
    res.used.update(sub_.used)
    for k in ('leaves', 'compared', 'callsites', 'cuts'):
        res.stats[k] += sub_.stats[k]
    bad = set()
    for prop, key, d in sub_.viol:
        lab, asp, msg = key.split('|')
        if lab.startswith(('ParsersImpl::', 'ParserParsers::')):
            continue
        nm = lab.split('::', 1)[1]
        nm = ALIAS.get(nm, nm)
        if (asp, msg) in core.get(nm, ()):
            continue
        bad.add(lab)
        d = dict(d)
        d['what'] = '%s does not denote ParsersImpl::%s: %s' % (lab, nm, d['what'])
        res.viol.append(('C11', '%s|%s|%s' % (lab, asp, msg), d))
    und = {l for l, r in sub_.undecided}
    for l, r in sub_.undecided:
        if not l.startswith(('ParsersImpl::', 'ParserParsers::')):
            res.undecided.append((l, r))
    for ob in obs:
        if not ob.label.startswith(('ParsersImpl::', 'ParserParsers::')) and ob.label not in bad and ob.label not in und:
            res.decided.append(ob.label)
    check_runners(P, res, tier)


# ------------------------------------------------------------------ C13 panics
def check_panics(P, res, tier):
    for ob in obligations():
        st = {'leaves': 0}
        try:
            it, leaves = leaves_of(P, ob, st)
        except ANALYSIS_ERRORS as e:
            res.undecided.append((ob.label, 'analysis stopped: %s %s' % (type(e).__name__, str(e)[:100])))
            continue
        res.stats['leaves'] += st['leaves']
        if leaves is None:
            res.undecided.append((ob.label, 'construct not found'))
            continue
        res.note_used(it)
        panic_verdict(it, res, 'C13', ob.label)
    errs = {
        'Mismatch': (IN_P, sym('o'), sym('n'), sym('msg')), 'Conversion': (IN_P, sym('o'), sym('n'), sym('msg')), 'Incomplete': (),
        'Expect': (sym('o'), sym('inner'), sym('msg')), 'Custom': (sym('o'), sym('inner?'), sym('msg'))}
    vs = P.enums.get('ParseError') or []
    for name, sty in (('input', "ParseError<'a, I>"), ('input_string', "ParseError<'a, char>"), ('input_string', "ParseError<'a, u8>"), ('fmt', "ParseError<'a, I>")):
        for vn, fields in errs.items():
            lab = 'ParseError::%s on %s%s' % (name, vn, ' (bytes)' if 'u8' in sty else '')
            if vn not in vs:
                res.undecided.append((lab, 'variant not found'))
                continue
            cand = [f for f in P.methods.get(name, []) if f.crate == 'parser' and M.type_head(f.selfty) == 'ParseError' and (name != 'fmt' or f.trait == 'Display')
                    and norm_self(f.selfty) == norm_self(sty)]
            if not cand:
                cand = [f for f in P.methods.get(name, []) if f.crate == 'parser' and M.type_head(f.selfty) == 'ParseError' and (name != 'fmt' or f.trait == 'Display')]
            if not cand:
                res.undecided.append((lab, 'construct not found'))
                continue
            it = IN.Interp(P, unroll=2, hooks={'nums': ('o', 'n')})
            st = IN.St()
            it.seqlen(st, IN_P)
            st.ge = st.ge + (sym('o'), sym('n'))
            v = ('adt', 'ParseError', vs.index(vn), vn, fields)
            try:
                out = it.exec_fn(st, cand[0], [v] + ([sym('fmt')] if name == 'fmt' else []), sty)
            except ANALYSIS_ERRORS as e:
                res.undecided.append((lab, 'analysis stopped: %s %s' % (type(e).__name__, str(e)[:100])))
                continue
            res.stats['leaves'] += len(out)
            res.note_used(it)
            n = len(res.viol)
            panic_verdict(it, res, 'C13', lab)
            if name == 'input' and vn in ('Mismatch', 'Conversion') and len(res.viol) == n:
                for s, r in out:
                    r = s.norm(r)
                    if r == OPTION_NONE and not state_inexact(s):
                        res.viol.append(('C13', lab + '|lost', {'construct': lab, 'what': 'the input recorded in the error cannot be retrieved', 'path': show_state(s)}))


    nested_inputs(P, res, vs)


def nested_inputs(P, res, vs):
    """the input recorded in an error can be retrieved through the errors wrapped around it"""
    cand = [f for f in P.methods.get('input', []) if f.crate == 'parser' and M.type_head(f.selfty) == 'ParseError']
    if not cand or any(x not in vs for x in ('Mismatch', 'Conversion', 'Incomplete', 'Expect', 'Custom')):
        return

    def err(vn, *fields):
        return ('adt', 'ParseError', vs.index(vn), vn, fields)

    def run(v):
        it = IN.Interp(P, unroll=6, hooks={'nums': ('o', 'n')})
        st = IN.St()
        it.seqlen(st, IN_P)
        st.ge = st.ge + (sym('o'), sym('n'))
        out = [(s, s.norm(r)) for s, r in it.exec_fn(st, cand[0], [v], "ParseError<'a, I>")]
        res.stats['leaves'] += len(out)
        res.note_used(it)
        if any(state_inexact(s) for s, _ in out):
            return None
        return {r[3] if r[0] == 'adt' and r[1] == 'Option' else None for _, r in out}, {show(r) for _, r in out}

    def wrap(k, v):
        return err('Expect', sym('o2'), v, sym('msg2')) if k == 'Expect' else err('Custom', sym('o2'), Some(v), sym('msg2'))
    leafs = [('Mismatch', err('Mismatch', IN_P, sym('o'), sym('n'), sym('msg'))), ('Conversion', err('Conversion', IN_P, sym('o'), sym('n'), sym('msg'))),
             ('Incomplete', err('Incomplete')), ('Custom without inner', err('Custom', sym('o'), OPTION_NONE, sym('msg')))]
    for ln, lv in leafs:
        for ks in (('Expect',), ('Custom',), ('Expect', 'Expect'), ('Expect', 'Custom'), ('Custom', 'Expect'), ('Custom', 'Custom')):
            lab = 'ParseError::input on %s in %s' % (ln, ' in '.join(ks))
            res.stats['obligations'] += 1
            v = lv
            for k in ks:
                v = wrap(k, v)
            try:
                a, b = run(lv), run(v)
            except ANALYSIS_ERRORS as e:
                res.undecided.append((lab, 'analysis stopped: %s %s' % (type(e).__name__, str(e)[:100])))
                continue
            if a is None or b is None or None in a[0] | b[0]:
                res.undecided.append((lab, 'inexact path'))
            elif a[0] != b[0]:
                res.viol.append(('C13', lab + '|lost', {'construct': 'ParseError::input', 'what': 'the input recorded in the error is %s of the error itself but %s of the errors around it' % (
                    '/'.join(sorted(a[0])), '/'.join(sorted(b[0])))}))
            elif a[1] != b[1]:
                res.undecided.append((lab, 'values %s and %s' % (sorted(a[1])[0][:60], sorted(b[1])[0][:60])))
            else:
                res.decided.append(lab)


def panic_verdict(it, res, prop, lab):
    res.stats['obligations'] += 1
    bad, und = {}, None
    for s, kind, fn, msg in it.panics:
        if state_inexact(s):
            und = 'possible panic on an inexact path in %s' % fn.name
        else:
            bad.setdefault((M.strip_generics(fn.name).split('>::')[-1], kind), (s, fn, msg))
    for (f, kind), (s, fn, msg) in bad.items():
        res.viol.append((prop, '%s|panic|%s|%s' % (lab, f, kind), {
            'construct': lab, 'what': 'a panic is reachable: %s in %s' % (str(msg)[:160], fn.name), 'path': show_state(s, 30)}))
    if not bad:
        (res.undecided.append((lab, und)) if und else res.decided.append(lab))
