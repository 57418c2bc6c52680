"""U04: no text makes the parsing entry points panic (panic obligations on text templates)."""
import itertools
from terms import *
import core_checks as K
import interp as IN
import lang as LG
import spec as SP
import values as V
import hocon as H
import apps

ANY = (0, 127)


class Panics:
    """mixin: an obligation is a template; every panic on a path of it must be infeasible"""

    def decide(self, lab, parts, check):
        res = self.res
        start_obligation(30)
        it = self.pv.it
        it.steps = 0
        res.stats['obligations'] += 1
        self.ntempl += 1
        bounds = {V.E(p[0]): tuple(ord(x) if isinstance(x, str) else x for x in p[1:]) for p in parts if not isinstance(p, str)}
        np, nu, und, bad = len(it.panics), len(it.unmodelled), None, False
        try:
            outs = self.enter(*parts)
            res.stats['leaves'] += len(outs)
            for st, v in outs:
                if SP.state_inexact(st):
                    und = 'inexact path'
        except apps.ERRS as e:
            und = 'analysis stopped: %s %s' % (type(e).__name__, str(e)[:160])
        for st, kind, fn, msg in it.panics[np:]:
            if SP.state_inexact(st):
                und = und or 'panic on an inexact path: %s' % msg
                continue
            res.stats['panic_paths'] += 1
            if any(not isinstance(k, tuple) or k[0] not in ('app',) or k[1] not in ('env_set', 'file_exists', 'file_readable') for k in getattr(st, 'facts', {})):
                und = und or 'panic under unknown conditions: %s %s' % (msg, list(st.facts)[:2])
                continue
            env = self.cmp(self.pv, st, bounds).env()
            if env is None:
                und = und or 'panic on no sampled text: %s' % msg
                continue
            bad = True
            res.viol.append((self.prop, '%s|%s' % (kind, getattr(fn, 'name', fn)), {
                'construct': getattr(fn, 'name', str(fn)), 'what': 'parsing %s panics: %s %s' % (self.describe(parts, env), kind, msg), 'template': repr(parts)}))
        del it.panics[np:]
        if und and not bad:
            res.undecided.append((lab, und))
        elif not bad:
            res.decided.append(lab)


class USuite(Panics, V.Suite):
    pass


class CSuite(Panics, H.HSuite):
    pass


def holes(text, wide):
    """a valid text with one character replaced by, or preceded by, any ASCII character"""
    for i in range(len(text) + 1):
        if i < len(text):
            yield [x for x in (text[:i], ('c',) + ANY, text[i + 1:]) if x]
        if wide or i == len(text):
            yield [x for x in (text[:i], ('c',) + ANY, text[i:]) if x]


URIS = ['http://u:p@h.x:80/a/b?k=v&w#f', 'a://1.2.3.4/', 'a://[1::2:3]:1/x', 'a://[::1.2.3.4]', 'a://[1:2:3:4:5:6:7:8]', 'a://[v1.a:b]', 'a:b/c', '/a', 'a?x=%41&&y==', 'a:', '//h:', 's:/%7F/..', 'a://[1:2:3:4:5:6:1.2.3.4]', 'a://[1:2::]']
CRONS = ['* * * * *', '*/5 1-5 1,15 * 2', '0-59/3 0 1-31/2 1,2-3 1-7', '59 23 31 12 7', '1,2,3 */2 * */3 *']
CONFS = ['a = 1\\nb.c = -2.5e3', 'a { b = "x", c = [1, 2] }', "a = 'x\\\\n'", 'a = "\\\\u0041"', 'a = 5s', 'a = ${b}\\nb = ${?c}', 'include file("x.y")', '{ a = null }', 'a = 10 days # x', 'a = foo bar\\nc : [x]', 'a = ${?a}\\na = 1', '// x\\na = true', 'a { b = ${c.d} }\\nc.d = 2',
         'a = "\\\\ud83d\\\\ude00"', '[1, {a = 2}]', 'a=1\\na=2\\na{b=3}\\na=${?a.b}']
CONFS = [c.encode().decode('unicode_escape') for c in CONFS]


def digits(n, nm='d'):
    return [(nm + '1', '1', '9')] + [('%s%d' % (nm, k), '0', '9') for k in range(2, n + 1)]


def check_parsing_panics(P, res, tier):
    wide = tier == 'thorough'
    U = USuite(P, res, 'U04', 'uri', 'Uri', 'parse', LG.BYTE)
    D = USuite(P, res, 'U04', 'crond', 'CronParser', 'parse', LG.CHAR)
    C = CSuite(P, res, 'U04')
    for S, bases, nm in ((U, URIS, 'URI'), (D, CRONS, 'cron'), (C, CONFS, 'configuration')):
        for b in bases:
            for n, parts in enumerate(holes(b, wide)):
                S.run('%s %r with any character %d' % (nm, b, n), parts, None)
        for n in range(0, 3 if wide or S is not C else 2):
            S.run('%s of %d characters' % (nm, n), [('c%d' % k,) + ANY for k in range(n)] or [''], None)
    longs = (1, 2, 3, 4, 5, 6, 10, 20, 30, 40)
    for n in longs:
        U.run('port of %d digits' % n, ['a://h:'] + digits(n), None)
        U.run('octet of %d digits' % n, ['a://1.2.'] + digits(n) + ['.3'], None)
        U.run('bracketed octet of %d digits' % n, ['a://[::1.2.'] + digits(n) + ['.3]'], None)
        U.run('IPv6 group of %d digits' % n, ['a://[1::'] + [('d%d' % k, '0', '9') for k in range(n)] + [':2]'] if n <= 6 else ['a://[1::' + 'f' * n + ':2]'], None)
        for f in range(5):
            fs = [['*'] for _ in range(5)]
            for shape in ('n', '*/n', '1-n', 'n-5', '1-5/n', '1,n'):
                if n > 4 and (f or shape not in ('n', '*/n')):
                    continue
                fs[f] = [x for x in (shape.split('n')[0],) if x] + digits(n) + [x for x in (shape.split('n')[1],) if x]
                parts = []
                for k, x in enumerate(fs):
                    parts += ([' '] if k else []) + x
                D.run('cron field %d: %s with %d digits' % (f, shape, n), parts, None)
        for lab, pre, post in (('number', 'a=', ''), ('negative', 'a=-', ''), ('fraction', 'a=0.', ''), ('duration', 'a=', 's'), ('days', 'a=', ' days'), ('array', 'a=[', ']')):
            C.run('%s of %d digits' % (lab, n), [pre] + digits(n) + ([post] if post else []), None)
    for e in ('1e0', '1e1', '7.25E+3', '1e28', '8e28', '1e29', '1e-28', '1e-29', '1e99999', '1e-99999', '1e9999999999', '1e-9999999999', '1e99999999999999999999', '0e5', '-3E-4'):
        C.run('number %s' % e, ['a=' + e], None)
        C.run('duration %s' % e, ['a=' + e + ' days'], None)
    C.run('utf16 escape', ['a="\\u'] + [('x%d' % k, '0', '9') for k in range(4)] + ['"'], None)
    for hi in 'dD':
        for h in '89abcdef':
            C.run('surrogate %s%s' % (hi, h), ['a="\\u' + hi + h, ('x1', '0', '9'), ('x2', '0', '9'), '"'], None)
    for S in (U, D, C):
        S.note()
