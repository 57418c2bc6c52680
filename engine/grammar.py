"""Grammar extraction: interprets the functions that build parsers, with the combinators of the parser crate kept as
constructors, and yields the grammar as a term ('G', op, args...)."""
import re
from terms import *
import mir as M
import interp as IN

G0 = {'elm_any': 'any', 'elm_any_ref': 'any', 'elm_space': 'is_ascii_space', 'elm_space_ref': 'is_ascii_space', 'elm_multi_space': 'is_ascii_multi_space',
      'elm_multi_space_ref': 'is_ascii_multi_space', 'elm_alpha': 'is_ascii_alpha', 'elm_alpha_ref': 'is_ascii_alpha', 'elm_alpha_digit': 'is_ascii_alpha_digit',
      'elm_alpha_digit_ref': 'is_ascii_alpha_digit', 'elm_digit': 'is_ascii_digit', 'elm_digit_ref': 'is_ascii_digit', 'elm_digit_1_9': 'digit_1_9', 'elm_digit_1_9_ref': 'digit_1_9',
      'elm_hex_digit': 'is_ascii_hex_digit', 'elm_hex_digit_ref': 'is_ascii_hex_digit', 'elm_oct_digit': 'is_ascii_oct_digit', 'elm_oct_digit_ref': 'is_ascii_oct_digit'}
SETS = {'elm_of': 'of', 'elm_ref_of': 'of', 'none_of': 'none', 'none_ref_of': 'none'}
RANGES = {'elm_in': 'in', 'elm_in_ref': 'in', 'elm_ref_in': 'in', 'elm_from_until': 'until', 'elm_ref_from_until': 'until', 'elm_from_until_ref': 'until'}
PRIM = {'unit', 'empty', 'begin', 'end', 'successful', 'successful_lazy', 'failed', 'failed_lazy', 'failed_with_commit', 'failed_with_uncommit', 'elm', 'elm_ref', 'elm_pred', 'elm_pred_ref', 'seq', 'tag', 'tag_no_case', 'regex',
        'take', 'take_while0', 'take_while1', 'take_while_n_m', 'take_till0', 'take_till1', 'skip', 'lazy', 'surround'}
UNARY = {'opt', 'attempt', 'exists', 'not', 'peek', 'discard', 'collect', 'cache', 'last_offset', 'next_offset'}
ID = {'cache', 'debug', 'info', 'warn', 'error', 'name', 'expect', 'log', 'log_map'}
BIN = {'and_then': 'and', 'or': 'or', 'skip_left': 'skipl', 'skip_right': 'skipr', 'add': 'and', 'sub': 'skipr', 'mul': 'skipl', 'bitor': 'or'}
FUN = {'map', 'map_res', 'map_opt', 'flat_map', 'filter', 'with_filter', 'with_filter_not'}
REP = {'of_many0': (0, None, 0), 'of_many1': (1, None, 0), 'many0': (0, None, 0), 'many1': (1, None, 0), 'of_many0_sep': (0, None, 1), 'of_many1_sep': (1, None, 1), 'many0_sep': (0, None, 1),
       'many1_sep': (1, None, 1)}
CHAIN = {'chain_left1', 'chain_left0', 'chain_right1', 'chain_right0', 'rest_left1', 'rest_right1', 'scan_right1'}


def g(op, *a):
    return ('app', 'G', ('str', op)) + a


def isg(t):
    return t[0] == 'app' and t[1] == 'G'


class NotGrammar(IN.Unsupported):
    pass


def hook(it, st, fr, c, args):
    m = c['method'] or c['key'].split('::')[-1]
    a = [it.read(st, x[1], x[2]) if x[0] == 'mref' else x for x in args]
    a = [st.norm(x) for x in a]
    if a and isg(a[0]):
        r = method(it, st, m, a, c)
        if r is not None:
            return [(st, r)]
        if m in ('clone', 'to_owned', 'borrow', 'deref'):
            return [(st, a[0])]
        return None
    if m in G0 or m in SETS or m in RANGES or m in PRIM or m in UNARY or m in FUN or m in BIN or m in REP:
        if c['kind'] == 'trait' and c['trait'] in ('Iterator', 'Clone', 'Add', 'Sub', 'Mul', 'BitOr', 'Not', 'IntoIterator', 'DoubleEndedIterator'):
            return None
        f, _ = it.resolve(st, fr, c, args)
        if f is None or f.crate != 'parser':
            return None
        r = prim(it, st, m, a)
        return [(st, r)] if r is not None else None
    return None


def prim(it, st, m, a):
    if m in G0:
        return g('class', ('str', G0[m]))
    if m in SETS:
        return g('set', ('str', SETS[m]), a[0])
    if m in RANGES:
        return g('range', ('str', RANGES[m]), a[0], a[1])
    if m in ('elm', 'elm_ref'):
        return g('elm', a[0])
    if m in ('elm_pred', 'elm_pred_ref'):
        return g('pred', a[0])
    if m in ('unit', 'empty', 'begin'):
        return g('succ', UNIT)
    if m == 'end':
        return g('end')
    if m in ('successful', 'successful_lazy'):
        return g('succ', a[0]) if m == 'successful' else g('succl', a[0])
    if m in ('failed', 'failed_lazy', 'failed_with_commit', 'failed_with_uncommit'):
        return g('fail', ('str', m), *a)
    if m == 'surround':
        return g('skipl', a[0], g('skipr', a[1], a[2]))
    if m == 'lazy':
        return g('lazy', a[0])
    if m in PRIM:
        return g(m, *a)
    if a and isg(a[0]):
        return method(it, st, m, a, None)
    return None


def rangeof(r):
    if r[0] == 'int':
        return r[1], r[1]
    if r[0] == 'adt':
        n = r[1].split('::')[-1]
        f = r[4]
        iv = lambda t: t[1] if t[0] == 'int' else None
        if n == 'RangeFull':
            return 0, None
        if n == 'RangeFrom' and iv(f[0]) is not None:
            return f[0][1], None
        if n == 'Range' and iv(f[0]) is not None and iv(f[1]) is not None:
            return f[0][1], f[1][1] - 1
        if n == 'RangeTo' and iv(f[0]) is not None:
            return 0, f[0][1] - 1
        if n == 'RangeToInclusive' and iv(f[0]) is not None:
            return 0, f[0][1]
        if n == 'RangeInclusive' and iv(f[0]) is not None and iv(f[1]) is not None:
            return f[0][1], f[1][1]
    raise NotGrammar('repetition range ' + show(r))


def rep(p, lo, hi, sep):
    return g('rep', p, sep if sep is not None else UNIT, I(lo), I(-1 if hi is None else hi))


def method(it, st, m, a, c):
    p = a[0]
    if m in ID:
        return p
    if m in BIN and len(a) == 2:
        b = a[1]
        if not isg(b):
            raise NotGrammar('operand of %s is not a parser term' % m)
        return g(BIN[m], p, b)
    if m in UNARY:
        return g(m, p)
    if m in FUN:
        return g(m, p, a[1])
    if m in REP:
        lo, hi, s = REP[m]
        return rep(p, lo, hi, a[1] if s else None)
    if m in ('of_count', 'count'):
        n = rangeof(a[1])[0]
        return rep(p, n, n, None)
    if m in ('of_many_n_m', 'of_many_n_m_sep'):
        return rep(p, rangeof(a[1])[0], rangeof(a[2])[0], a[3] if m.endswith('sep') else None)
    if m == 'of_count_sep':
        n = rangeof(a[1])[0]
        return rep(p, n, n, a[2])
    if m == 'repeat':
        return rep(p, *rangeof(a[1]), None)
    if m in ('of_rep_sep', 'repeat_sep'):
        s = a[2]
        sep = s[4][0] if s[0] == 'adt' and s[3] == 'Some' else None
        return rep(p, *rangeof(a[1]), sep)
    if m in ('surround',):
        if c is not None and c.get('kind') == 'trait':          # p.surround(l, r); the free function is surround(l, p, r)
            return g('skipl', a[1], g('skipr', p, a[2]))
        return g('skipl', p, g('skipr', a[1], a[2]))
    if m in CHAIN:
        return g(m, *a)
    return None


def build(P, fn, args=(), selfty=None, hooks=None):
    """grammar term returned by function `fn`; None if it has several outcomes"""
    h = {'call': hook, 'nums': ()}
    h.update(hooks or {})
    it = IN.Interp(P, unroll=40, hooks=h)
    st = IN.St()
    out = it.exec_fn(st, fn, list(args), selfty)
    out = [(s, s.norm(v)) for s, v in out]
    if len(out) != 1:
        raise NotGrammar('%d outcomes while building %s' % (len(out), fn.name))
    return it, out[0][0], out[0][1]


def find_fn(P, crate, name):
    c = [f for f in P.free.get(name, []) if f.crate == crate]
    return c[0] if c else None
