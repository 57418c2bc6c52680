"""Translation of extracted grammar terms into language expressions (peg.Lang), conversions becoming filters on the consumed text."""
from terms import *
import interp as IN
import grammar as GR
import peg as PG
from core_checks import CLASSES

CHAR = 0x10FFFF
BYTE = 255
V = ('sym', 'V')


class NoLang(Budget):
    pass


def digits_upto(n, base=10):
    """regular expression of the digit strings (leading zeros allowed) whose value is at most n"""
    ds = []
    while True:
        ds.append(n % base)
        n //= base
        if n == 0:
            break
    ds = ds[::-1]
    def dg(lo, hi):
        ivs = []
        for d in range(lo, hi + 1):
            for ch in {'%x' % d, '%X' % d}:
                ivs.append((ord(ch), ord(ch)))
        return ('c', PG.norm_iv(ivs))
    def le(l):
        if not l:
            return ('eps',)
        lo = PG.seq(dg(0, l[0] - 1), PG.times(dg(0, base - 1), len(l) - 1)) if l[0] > 0 else ('none',)
        return PG.alt(lo, PG.seq(dg(l[0], l[0]), le(l[1:])))
    shorter = [PG.times(dg(0, base - 1), k) for k in range(1, len(ds))]
    return PG.seq(PG.star(dg(0, 0)), PG.alt(*(shorter + [le(ds)])))


LIM = {'u8': 255, 'u16': 65535, 'u32': 2**32 - 1, 'u64': 2**64 - 1, 'usize': 2**64 - 1, 'i64': 2**63 - 1, 'i32': 2**31 - 1, 'i16': 2**15 - 1, 'i8': 127}


def parse_regex(ty, radix):
    """the texts Rust's from_str / from_str_radix accept"""
    if ty in LIM:
        pos = PG.seq(PG.opt('+'), digits_upto(LIM[ty], radix))
        if ty[0] == 'i':
            return PG.alt(pos, PG.seq('-', digits_upto(LIM[ty] + 1, radix)))
        return pos
    if ty == 'Ipv6Addr':
        return ipv6_regex()
    if ty == 'Ipv4Addr':
        return ipv4_regex()
    if ty in ('f64', 'f32'):
        d = PG.cls('0-9')
        num = PG.alt(PG.plus(d), PG.seq(PG.plus(d), '.', PG.star(d)), PG.seq('.', PG.plus(d)))
        return PG.seq(PG.opt(PG.cls('+-')), num, PG.opt(PG.seq(PG.cls('eE'), PG.opt(PG.cls('+-')), PG.plus(d))))
    raise NoLang('texts accepted by parsing a ' + ty)


def octet_regex():
    d = PG.cls('0-9')
    return PG.alt(d, PG.seq(PG.cls('1-9'), d), PG.seq('1', d, d), PG.seq('2', PG.cls('0-4'), d), PG.seq('25', PG.cls('0-5')))


def ipv4_regex():
    o = octet_regex()
    return PG.seq(o, '.', o, '.', o, '.', o)


def h16_regex():
    return PG.times(PG.cls('0-9', 'a-f', 'A-F'), 1, 4)


def ipv6_regex():
    h = h16_regex()
    hc = PG.seq(h, ':')
    ls = PG.alt(PG.seq(h, ':', h), ipv4_regex())
    def pre(n):
        return PG.opt(PG.seq(PG.times(hc, 0, n), h))
    alts = [PG.seq(PG.times(hc, 6), ls), PG.seq('::', PG.times(hc, 5), ls)]
    alts += [PG.seq(pre(k), '::', PG.times(hc, 4 - k), ls) for k in range(0, 5)]
    alts += [PG.seq(pre(5), '::', h), PG.seq(pre(6), '::')]
    return PG.alt(*alts)


class Tr:
    def __init__(self, P, top, crate):
        self.P = P
        self.top = top
        self.crate = crate
        self.L = PG.Lang(top)
        self.memo = {}
        self.keys = {}
        self.terms = {}
        self.nconv = 0
        self.conts = {}

    # ---------------------------------------------------------------- closures
    def outcomes(self, clo, arg):
        it = IN.Interp(self.P, unroll=6, hooks={'call': GR.hook, 'nums': ()})
        st = IN.St()
        f = clo
        n = None
        out = it.apply(st, f, [arg])
        return it, [(s, s.norm(v)) for s, v in out]

    def text_of(self, v, shape):
        """is v the consumed text?"""
        while v[0] == 'app' and v[1] in ('utf8', 'bytes', 'to_vec', 'str_of'):
            v = v[2]
        return v == V and shape == 'text'

    def conv(self, clo, shape, inner):
        """filter regular expression of a fallible conversion; (regex or None, shape of the result)"""
        it, outs = self.outcomes(clo, V)
        self.nconv += 1
        res = []
        for s, v in outs:
            v = v if v[0] == 'adt' else v
            if v[0] != 'adt' or v[3] not in ('Ok', 'Err', 'Some', 'None'):
                raise NoLang('result of a conversion: ' + show(v))
            fs = dict(s.facts)
            always = [k for k in fs if k[0] == 'app' and k[1] == 'utf8_ok' and self.text_of(k[2], shape)]
            if always and self.ascii(inner):        # the consumed text is ASCII: it always is valid text
                if any(not fs[k] for k in always):
                    continue
                for k in always:
                    del fs[k]
            res.append((v[3] in ('Ok', 'Some'), fs, v[4][0] if v[4] else None))
        if all(r[0] for r in res):
            return None, 'text' if all(self.text_of(r[2], shape) for r in res) else 'other'
        # exactly one fact decides
        reg = None
        okv = [r for r in res if r[0]]
        nshape = 'text' if okv and all(self.text_of(r[2], shape) for r in okv) else 'other'
        facts = {}
        for ok, fs, _ in res:
            for k, b in fs.items():
                if k[0] == 'app' and k[1] in ('utf8_ok', 'parse_ok'):
                    facts.setdefault(k, []).append((b, ok))
        if len(facts) != 1 or not res:
            raise NoLang('a conversion depends on more than one condition')
        (k, bs), = facts.items()
        if any(b != ok for b, ok in bs):
            raise NoLang('a conversion rejects what can be converted')
        if k[1] == 'utf8_ok':
            if not self.text_of(k[2], shape):
                raise NoLang('text conversion of something else than the consumed text')
            if not self.ascii(inner):
                raise NoLang('text conversion of bytes above 127')
            return None, nshape
        if k[1] == 'parse_ok':
            if not self.text_of(k[3], shape):
                raise NoLang('number conversion of something else than the consumed text')
            if k[4][0] != 'int':
                raise NoLang('radix')
            return parse_regex(k[2][1], k[4][1]), 'other'
        raise NoLang('conversion ' + show(k))

    def ascii(self, e, seen=frozenset()):
        o = e[0]
        if o == 'c':
            return all(b < 128 for a, b in e[1])
        if o == 't':
            return all(b < 128 for iv in e[1] for a, b in iv)
        if o == 'ref':
            return e[1] in seen or self.ascii(self.L.rules[e[1]], seen | {e[1]})
        if o in ('not', 'peek'):
            return True
        return all(self.ascii(x, seen) for x in e[1:] if isinstance(x, tuple) and x and isinstance(x[0], str))

    # ---------------------------------------------------------------- element sets
    def elems(self, t):
        """code points of a sequence value"""
        if t[0] == 'str':
            return [ord(c) for c in t[1]]
        if t[0] == 'bytes':
            return list(t[1])
        if t[0] == 'seq' and all(p[0] == 'e' and p[1][0] == 'int' for p in t[1]):
            return [p[1][1] for p in t[1]]
        if t[0] == 'arr':
            return [x[1] for x in t[1]]
        if t[0] == 'adt' and len(t[4]) >= 1:
            return self.elems(t[4][0])
        if t[0] == 'app' and t[1] in ('bytes', 'chars', 'ref'):
            return self.elems(t[2])
        raise NoLang('element set ' + show(t))

    def one(self, t):
        if t[0] == 'int':
            return t[1]
        if t[0] == 'char':
            return t[1] if isinstance(t[1], int) else ord(t[1])
        raise NoLang('element ' + show(t))

    def pred_set(self, clo):
        it, outs = self.outcomes(clo, V)
        ivs = []
        for s, v in outs:
            parts = self.truth(it, s, v)
            for s2, b in parts:
                if b:
                    ivs += self.range_of(s2)
        return PG.norm_iv(ivs)

    def truth(self, it, s, v):
        return it.branch(s, v)

    def range_of(self, s):
        """interval the element is confined to by the constraints of a state"""
        lo, hi = 0, self.top
        v = s.norm(V)
        if v[0] == 'int':
            return [(v[1], v[1])]
        ok = []
        for k, b in s.facts.items():
            raise NoLang('element predicate depends on ' + show(k))
        # bisect with the entailment test
        def ent_ge(n):
            return s.proves(sub(V, I(n)))
        def ent_le(n):
            return s.proves(sub(I(n), V))
        a, b = 0, self.top
        while a < b:
            m = (a + b + 1) // 2
            if ent_ge(m):
                a = m
            else:
                b = m - 1
        lo = a
        a, b = 0, self.top
        while a < b:
            m = (a + b) // 2
            if ent_le(m):
                b = m
            else:
                a = m + 1
        hi = a
        out = [(lo, hi)]
        for n in getattr(s, 'neq', ()):
            c, d = lin_parts(n)
            if set(d) == {V} and abs(d[V]) == 1:
                x = -c * d[V]
                out = [p for q in out for p in ((q[0], min(q[1], x - 1)), (max(q[0], x + 1), q[1])) if p[0] <= p[1]] if any(q[0] <= x <= q[1] for q in out) else out
        return out

    # ---------------------------------------------------------------- terms
    def rule(self, key, make):
        if key not in self.keys:
            self.keys[key] = True
            e = make()
            self.L.rules[key] = e[0]
            self.keys[key] = e[1]
        return ('ref', key), 'other'

    def tr(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.tr0(t)
        return r

    def lang(self, t):
        return self.tr(t)[0]

    def tr0(self, t):
        check_deadline()
        if not GR.isg(t):
            raise NoLang('not a parser: ' + show(t)[:80])
        op = t[2][1]
        a = t[3:]
        L = self.L
        if op == 'class':
            if a[0][1] == 'any':
                return ('c', ((0, self.top),)), 'elem'
            return ('c', PG.norm_iv(CLASSES[a[0][1]])), 'elem'
        if op == 'set':
            ivs = PG.norm_iv([(c, c) for c in self.elems(a[1])])
            return ('c', ivs if a[0][1] == 'of' else L.compl(ivs)), 'elem'
        if op == 'range':
            lo, hi = self.one(a[1]), self.one(a[2])
            return ('c', PG.norm_iv([(lo, hi if a[0][1] == 'in' else hi - 1)])), 'elem'
        if op == 'elm':
            c = self.one(a[0])
            return ('c', ((c, c),)), 'elem'
        if op == 'pred':
            return ('c', self.pred_set(a[0])), 'elem'
        if op in ('succ', 'succl'):
            return ('eps',), 'other'
        if op == 'fail':
            return ('fail', a[0][1] == 'failed_with_commit'), 'other'
        if op == 'end':
            return ('end',), 'other'
        if op in ('seq', 'tag'):
            return ('t', tuple(((c, c),) for c in self.elems(a[0]))), 'text'
        if op == 'lazy':
            return self.rule(self.lazy_key(a[0]), lambda: self.tr(self.force(a[0])))
        if op in ('and', 'skipl', 'skipr'):
            (x, sx), (y, sy) = self.tr(a[0]), self.tr(a[1])
            return ('and', x, y), 'other'
        if op == 'or':
            (x, sx), (y, sy) = self.tr(a[0]), self.tr(a[1])
            return ('or', x, y), sx if sx == sy else 'other'
        if op in ('opt', 'exists', 'not', 'peek'):
            x = self.lang(a[0])
            return ({'opt': 'opt', 'exists': 'opt', 'not': 'not', 'peek': 'peek'}[op], x) if op != 'exists' else ('opt', ('peek', x)), 'other'
        if op == 'attempt':
            x, s = self.tr(a[0])
            return ('att', x), s
        if op == 'collect':
            return self.lang(a[0]), 'text'
        if op in ('discard', 'last_offset', 'next_offset'):
            return self.lang(a[0]), 'other'
        if op == 'map':
            x, s = self.tr(a[0])
            shape = 'other'
            if s in ('text', 'elem'):
                try:
                    it, outs = self.outcomes(a[1], V)
                    if outs and all(self.text_of(v, s) for _, v in outs):
                        shape = 'text'
                except (IN.Unsupported, Budget):
                    pass
            return x, shape
        if op in ('map_res', 'map_opt'):
            x, s = self.tr(a[0])
            r, s2 = self.conv(a[1], s, x)
            return (x if r is None else ('filt', x, r)), s2
        if op == 'flat_map':
            return ('fmap', self.lang(a[0]), self.lang(self.continuation(a[1]))), 'other'
        if op == 'rep':
            x, s = self.tr(a[0])
            sep = None if a[1] == UNIT else self.lang(a[1])
            lo, hi = a[2][1], a[3][1]
            return ('rep', x, sep, lo, None if hi < 0 else hi), 'text' if sep is None and s == 'elem' else 'other'
        if op in ('chain_left1', 'chain_right1'):
            return ('chain', self.lang(a[0]), self.lang(a[1])), 'other'
        if op in ('take_while0', 'take_while1', 'take_till0', 'take_till1'):
            ivs = self.pred_set(a[0])
            if op.startswith('take_while'):
                return ('rep', ('c', ivs), None, int(op[-1]), None), 'text'
        raise NoLang('grammar operator ' + op)

    def continuation(self, clo):
        """the parser a flat_map goes on with, when what it accepts does not depend on the value"""
        if clo in self.conts:
            return self.conts[clo]
        it = IN.Interp(self.P, unroll=40, hooks={'call': GR.hook, 'nums': ()})
        x = ('sym', 'flat_map value %d' % len(self.conts))
        out = it.apply(IN.St(), clo, [x])
        if len(out) != 1 or not GR.isg(out[0][0].norm(out[0][1])):
            raise NoLang('the continuation of a flat_map depends on the value')
        g = out[0][0].norm(out[0][1])

        def walk(g):
            op = g[2][1]
            for i, y in enumerate(g[3:]):
                if GR.isg(y):
                    walk(y)
                elif mentions(y, {x}) and not (op in ('succ', 'succl') or op == 'map' and i == 1):
                    raise NoLang('the continuation of a flat_map depends on the value')
        walk(g)
        self.conts[clo] = g
        return g

    def lazy_key(self, f):
        return show(f)

    def force(self, f):
        it = IN.Interp(self.P, unroll=40, hooks={'call': GR.hook, 'nums': ()})
        out = it.apply(IN.St(), f, [])
        if len(out) != 1:
            raise NoLang('recursive rule with several outcomes')
        return out[0][0].norm(out[0][1])


def compare(L, e, ref, prefer=None, entry=False):
    """-> list of (text, accepted by the code, accepted by the reference) differences (at most one per direction)"""
    B = L.B
    f = L.E(('S', e, ('T',) if entry else ('END',)))      # an entry point does not ask what its parser leaves behind
    g = L.E(('N', ref, ('END',)))
    out = []
    n = 0
    for d, inc in ((B.AND(f, B.NOT(g)), True), (B.AND(g, B.NOT(f)), False)):
        w = L.witness(d, prefer)
        n += getattr(L, 'states', 0)
        if w is not None:
            out.append((''.join(map(chr, w)), inc))
    return out
