"""Properties of the application crates: acceptance languages."""
import peg as PG
from peg import seq, lit, alt, star, plus, opt, times
import lang as LG


def C(s='', *rs):
    return ('c', PG.norm_iv([(ord(c), ord(c)) for c in s] + [(ord(r[0]), ord(r[-1])) for r in rs]))


DIGIT = C('', '09')
ALPHA = C('', 'az', 'AZ')
HEX = C('', '09', 'af', 'AF')
UNRES = C('-._~', 'az', 'AZ', '09')
SUB = C("!$&'()*+,;=")
PCT = seq('%', HEX, HEX)


def uri_refs():
    pchar = alt(UNRES, PCT, SUB, C(':@'))
    segment = star(pchar)
    segment_nz = plus(pchar)
    abempty = star(seq('/', segment))
    reg = star(alt(UNRES, PCT, SUB))
    userinfo = star(alt(UNRES, PCT, SUB, C(':')))
    future = seq(C('vV'), plus(HEX), '.', plus(alt(UNRES, SUB, C(':'))))
    iplit = seq('[', alt(LG.ipv6_regex(), future), ']')
    host = alt(iplit, reg)
    port = seq(LG.digits_upto(65535))
    authority = seq(opt(seq(userinfo, '@')), host, opt(seq(':', port)))
    absolute = seq('/', opt(seq(segment_nz, abempty)))
    rootless = seq(segment_nz, abempty)
    hier = alt(seq('//', authority, abempty), absolute, rootless, ('eps',))
    query = star(alt(pchar, C('/?')))
    fragment = query
    scheme = seq(ALPHA, star(C('+-.', 'az', 'AZ', '09')))
    uri = seq(opt(scheme), ':', hier, opt(seq('?', query)), opt(seq('#', fragment)))
    return locals()


def cron_ref(last_in_ranges=False):
    d = DIGIT
    n19 = C('', '19')
    lead = seq('0', d)
    minute = alt(d, seq('0', d), seq(C('', '15'), d))
    hour = alt(d, seq('0', d), seq('1', d), seq('2', C('', '03')))
    day = alt(n19, seq('0', n19), seq(C('12'), d), seq('3', C('01')))
    month = alt(n19, seq('0', n19), seq('1', C('012')))
    dow = alt(C('', '17'), 'SUN', 'MON', 'TUE', 'WED', 'THU', 'FRI', 'SAT')
    def field(v, last=False):
        w = alt(v, 'L') if last else v
        r = w if last_in_ranges else v
        item = alt(w, seq(r, '-', r, opt(seq('/', r))))
        return alt('*', seq('*/', r), seq(item, star(seq(',', item))))
    return seq(field(minute), ' ', field(hour), ' ', field(day), ' ', field(month), ' ', field(dow, True))


# ------------------------------------------------------------------ entry points
import mir as M
import interp as IN
import grammar as GR
from terms import *

TEXT = ('sym', 'text')
RUNS = ('parse', 'parse_as_result', 'run')


class Entry:
    """interprets a function up to the point where it runs a parser built by combinators"""

    def __init__(self, P, fn, args, selfty=None):
        self.runs = []
        def hook(it, st, fr, c, a):
            m = c['method'] or c['key'].split('::')[-1]
            v = [st.norm(it.read(st, x[1], x[2]) if x[0] == 'mref' else x) for x in a]
            if v and GR.isg(v[0]) and m in RUNS and len(v) == 2:
                self.runs.append((v[0], v[1], m))
                i = len(self.runs)
                s2 = st.copy()
                st.facts[('app', 'accepted', I(i))] = True
                s2.facts[('app', 'accepted', I(i))] = False
                ok, er = ('sym', 'value#%d' % i), ('sym', 'error#%d' % i)
                if m == 'parse_as_result':
                    return [(st, IN.Ok(ok)), (s2, IN.Err(er))]
                return [(st, ('adt', 'ParseResult', 0, 'Success', (ok, ('sym', 'length#%d' % i)))),
                        (s2, ('adt', 'ParseResult', 1, 'Failure', (er, ('sym', 'status#%d' % i))))]
            return GR.hook(it, st, fr, c, a)
        self.it = IN.Interp(P, unroll=40, hooks={'call': hook, 'nums': ()})
        st = IN.St()
        self.out = [(s, s.norm(v)) for s, v in self.it.exec_fn(st, fn, list(args), selfty)]

    def single(self):
        """the one parser run on the whole text"""
        gs = {(g, i) for g, i, _ in self.runs}
        if len(gs) != 1:
            raise GR.NotGrammar('%d parser runs' % len(gs))
        return self.runs[0]


def entry_fn(P, crate, ty, name):
    for f in P.methods.get(name, []):
        if f.crate == crate and M.type_head(f.selfty) == ty:
            return f
    return None


import sys
sys.setrecursionlimit(200000)

import core_checks as K
import spec as SP
ERRS = K.ANALYSIS_ERRORS + (PG.Left, RecursionError)


def entry_grammar(P, res, crate, ty, name, lab, prop, want_input):
    """grammar run by an entry point on its whole text; checks that acceptance decides the outcome"""
    fn = entry_fn(P, crate, ty, name)
    if fn is None:
        res.undecided.append((lab, 'entry point not found'))
        return None
    E = Entry(P, fn, [TEXT])
    res.note_used(E.it)
    res.stats['leaves'] += len(E.out)
    if len(E.runs) == 0:
        res.undecided.append((lab, 'no parser run found'))
        return None
    g, inp, m = E.single()
    if inp != ('app', want_input, TEXT):
        res.undecided.append((lab, 'the parser runs on %s' % show(inp)[:80]))
        return None
    for s, v in E.out:
        acc = s.facts.get(('app', 'accepted', I(1)))
        res.stats['compared'] += 1
        if v[0] != 'adt' or v[3] not in ('Ok', 'Err') or acc is None or SP.state_inexact(s):
            res.undecided.append((lab, 'outcome %s' % show(v)[:80]))
            return None
        if (v[3] == 'Ok') != acc:
            res.viol.append((prop, lab + '|outcome|%s' % v[3], {'construct': fn.name, 'what': '%s although the parser %s' % (
                'returns Ok' if v[3] == 'Ok' else 'returns Err', 'accepts' if acc else 'rejects')}))
            return None
        if acc and v[4][0] != ('sym', 'value#1') and prop:
            res.undecided.append((lab, 'the parsed value is changed to %s' % show(v[4][0])[:60]))
    return g, fn


def language(P, res, prop, lab, g, fn, top, crate, ref, parts):
    start_obligation(400)
    T = LG.Tr(P, top, crate)
    e = T.lang(g)
    diffs = LG.compare(T.L, e, ref, entry=True)
    res.stats['obligations'] += 1
    res.extra = getattr(res, 'extra', {})
    res.extra.update({'grammar_positions': T.L.nodes, 'decision_diagram_nodes': len(T.L.B.nodes), 'conversions_as_filters': T.nconv, 'element_tests': len(T.L.varl)})
    if not diffs:
        res.decided.append(lab)
        return
    for w, acc in diffs:
        where = ''
        for name, r in parts:
            f = GR.find_fn(P, crate, name)
            if f is None:
                continue
            try:
                start_obligation(60)
                it, st, t = GR.build(P, f)
                T2 = LG.Tr(P, top, crate)
                d = LG.compare(T2.L, T2.lang(t), r)
            except ERRS:
                continue
            if d:
                where = '; %s %s %r' % (f.name, 'accepts' if d[0][1] else 'rejects', d[0][0])
                break
        res.viol.append((prop, '%s|%s' % (lab, 'accepts' if acc else 'rejects'), {'construct': fn.name, 'what': '%s %r, which the specified language %s%s' % (
            'accepts' if acc else 'rejects', w, 'excludes' if acc else 'contains', where)}))


def guarded(lab, res, f):
    try:
        f()
    except ERRS as e:
        res.undecided.append((lab, 'analysis stopped: %s %s' % (type(e).__name__, str(e)[:160])))


def check_uri_language(P, res, tier):
    lab = 'language of Uri::parse'
    def go():
        r = entry_grammar(P, res, 'uri', 'Uri', 'parse', lab, 'U01', 'bytes')
        if r:
            R = uri_refs()
            parts = [('scheme', R['scheme']), ('user_info', R['userinfo']), ('dec_octet', LG.octet_regex()), ('h16', LG.h16_regex()), ('port', R['port']), ('ip_v_future', R['future']),
                     ('ip_v4_address', LG.ipv4_regex()), ('ip_v6_address', LG.ipv6_regex()), ('reg_name', R['reg']), ('host', R['host']), ('authority', R['authority']), ('query', R['query']), ('fragment', R['fragment']), ('hier_part', R['hier'])]
            language(P, res, 'U01', lab, r[0], r[1], LG.BYTE, 'uri', R['uri'], parts)
    guarded(lab, res, go)


def check_cron_language(P, res, tier):
    lab = 'language of CronParser::parse'
    def go():
        r = entry_grammar(P, res, 'crond', 'CronParser', 'parse', lab, 'D01', 'chars')
        if r:
            language(P, res, 'D01', lab, r[0], r[1], LG.CHAR, 'crond', cron_ref(True), [])
    guarded(lab, res, go)
