"""Abstract evaluation of an extracted grammar on a text template (a list of elements, each fixed or confined to a range of code points):
the parsed value as a term over the template's elements, with every semantic action interpreted on its MIR."""
import re
from terms import *
import interp as IN
import grammar as GR
import lang as LG
import peg as PG
from core_checks import CLASSES
import mir as M
import texts

LIM = LG.LIM


def IN_NUM(e):
    return e[0] in ('int', 'lin', 'sym')


class PV(texts.Texts):
    def __init__(self, P, top, crate, hooks=None):
        self.P = P
        self.top = top
        self.crate = crate
        h = {'call': self.hook, 'nums': ()}
        self.tr = LG.Tr(P, top, crate)
        self.forced = {}
        self.classes = {}
        self.actions = 0
        self.steps = 0
        self.elems = []
        self.grammars = set()
        h.update(hooks or {})
        self.it = IN.Interp(P, unroll=40, hooks=h, budget=4000000)
        self.bld = IN.Interp(P, unroll=40, hooks={'call': GR.hook, 'nums': ()})     # builds parsers

    # ------------------------------------------------------------ library calls on template texts
    def flat(self, st, v):
        """element list of a text value, None if unknown"""
        if v[0] == 'mref':
            v = self.it.read(st, v[1], v[2])
        if v[0] == 'str':
            return [I(ord(ch)) for ch in v[1]]
        if v[0] == 'seq':
            out = []
            for p in v[1]:
                if p[0] == 'e':
                    out.append(p[1])
                else:
                    q = self.flat(st, p[1])
                    if q is None:
                        return None
                    out += q
            return out
        if v[0] == 'app' and v[1] in ('utf8', 'bytes') and len(v) == 3:
            es = self.flat(st, v[2])
            return es and (self.to_utf8 if v[1] == 'bytes' else self.from_utf8)(st, es)
        if v[0] == 'app' and v[1] in ('chars', 'text', 'char') and len(v) == 3:
            return self.flat(st, v[2]) if v[1] != 'char' else [v[2]]
        if v[0] == 'app' and v[1] == 'fromchars' and len(v) == 3:
            es = self.flat(st, v[2])
            return es if es is not None and (self.top > 255 or all(self.within(st, e, 0, 127) for e in es)) else None
        if v[0] == 'app' and v[1] == 'disp' and v[2][0] == 'app' and v[2][1] == 'char':
            return [v[2][2]]
        if v[0] == 'cat':
            out = []
            for p in v[1]:
                q = self.flat(st, p)
                if q is None:
                    return None
                out += q
            return out
        return None

    def to_utf8(self, st, es):
        """the bytes of a text; None when a character that is not fixed may need more than one"""
        out = []
        for e in es:
            if e[0] == 'int' and 127 < e[1] < 0x110000 and not 0xd800 <= e[1] < 0xe000:
                out += [I(b) for b in chr(e[1]).encode()]
            elif IN_NUM(e) and self.within(st, e, 0, 127):
                out.append(e)
            else:
                return None
        return out

    def from_utf8(self, st, es):
        """the characters of bytes; None when they are not known to be one valid text"""
        out, run = [], []
        for e in list(es) + [I(0)]:
            if e[0] == 'int' and 127 < e[1] < 256:
                run.append(e[1])
                continue
            if run:
                try:
                    out += [I(ord(ch)) for ch in bytes(run).decode()]
                except UnicodeDecodeError:
                    return None
                run = []
            if not IN_NUM(e) or not self.within(st, e, 0, 127):
                return None
            out.append(e)
        return out[:-1]

    def within(self, st, e, lo, hi):
        return st.proves(sub(e, I(lo))) and st.proves(sub(I(hi), e))

    def hook(self, it, st, fr, c, args):
        m = c['method'] or c['key'].split('::')[-1]
        if m in ('parse', 'parse_as_result', 'run') and len(args) == 2:
            g = st.norm(it.read(st, args[0][1], args[0][2]) if args[0][0] == 'mref' else args[0])
            if GR.isg(g):
                return self.run_grammar(st, g, args[1], m)
        if m in ('from_utf8', 'from_utf8_lossy', 'from_utf8_unchecked') and len(args) == 1:
            es = self.flat(st, args[0])
            es = self.from_utf8(st, es) if es is not None else None
            if es is not None:
                v = self.mktext(es)
                return [(st, IN.Ok(v) if m == 'from_utf8' else v)]
        if m in ('as_bytes', 'into_bytes') and len(args) == 1 and c['key'].split('::')[-2:-1] in (['str'], ['String']):
            es = self.flat(st, args[0])
            es = self.to_utf8(st, es) if es is not None else None
            if es is not None:
                return [(st, ('seq', tuple(('e', e) for e in es)))]
        if m in ('from_iter', 'from') and args and c['kind'] == 'trait' and M.type_head(c.get('self', '')) == 'String':
            es = self.flat(st, args[0])
            if es is not None and args[0][0] == 'seq' and all(IN_NUM(e) for e in es):
                return [(st, self.mktext(es))]
        if m in ('parse', 'from_str', 'from_str_radix') and args:
            ty, radix = self.parse_target(c, args)
            es = self.flat(st, args[0])
            if ty and es is not None:
                r = self.parse(st, es, ty, radix)
                if r is not None:
                    return r
        if c['key'] in ('Ipv4Addr::new', 'Ipv6Addr::new'):
            return [(st, ('app', m and c['key'].split('::')[0]) + tuple(args))]
        if m == 'octets' and args:
            v = self.it.read(st, args[0][1], args[0][2]) if args[0][0] == 'mref' else args[0]
            if v[0] == 'app' and v[1] == 'Ipv4Addr':
                return [(st, ('seq', tuple(('e', x) for x in v[2:])))]
        if m == 'decode_utf16' and len(args) == 1:
            v = it.read(st, args[0][1], args[0][2]) if args[0][0] == 'mref' else args[0]
            v = st.norm(v)
            if v[0] == 'seq' and all(p[0] == 'e' for p in v[1]):
                return [(s, ('adt', 'SliceIter', 0, None, (('seq', tuple(('e', x) for x in xs)), I(0), I(len(xs)))))
                        for s, xs in self.utf16(it, st, [p[1] for p in v[1]])]
        self.cur = fr.fn if fr is not None else None
        r = self.text_call(it, st, c, args)
        if r is not None:
            return r
        return GR.hook(it, st, fr, c, args)

    def utf16(self, it, st, us):
        """the items decode_utf16 yields for the code units us, on every path"""
        out, work = [], [(st, 0, [])]
        while work:
            st, i, got = work.pop()
            if i == len(us):
                out.append((st, got))
                continue
            u = us[i]
            for s, lo in it.branch(st, IN.mk_ge0(sub(I(0xd7ff), u))):
                if lo:
                    work.append((s, i + 1, got + [IN.Ok(u)]))
                    continue
                for s, hi in it.branch(s, IN.mk_ge0(sub(u, I(0xe000)))):
                    if hi:
                        work.append((s, i + 1, got + [IN.Ok(u)]))
                        continue
                    bad = got + [IN.Err(('sym', 'DecodeUtf16Error'))]
                    for s, lead in it.branch(s, IN.mk_ge0(sub(I(0xdbff), u))):
                        if not lead or i + 1 == len(us):
                            work.append((s, i + 1, bad))
                            continue
                        w = us[i + 1]
                        for s, a in it.branch(s, IN.mk_ge0(sub(I(0xdbff), w))):
                            for s, b in [(s, True)] if a else it.branch(s, IN.mk_ge0(sub(w, I(0xe000)))):
                                if b:
                                    work.append((s, i + 1, bad))
                                else:
                                    c = add(add(I(0x10000 - 0xd800 * 0x400 - 0xdc00), mulk(u, 0x400)), w)
                                    work.append((s, i + 2, got + [IN.Ok(c)]))
        return out

    def run_grammar(self, st, g, inp, m):
        inp = st.norm(self.it.read(st, inp[1], inp[2]) if inp[0] == 'mref' else inp)
        es = self.flat(st, inp)
        if es is None:
            raise GR.NotGrammar('parser run on %s' % show(inp)[:80])
        saved, self.elems = self.elems, es
        self.grammars.add(g)
        out = []
        try:
            for s, r in self.ev(st, g, 0):
                if r[0] == 'S':
                    ok = IN.Ok(r[1]) if m == 'parse_as_result' else ('adt', 'ParseResult', 0, 'Success', (r[1], I(r[2])))
                else:
                    e = ('sym', 'parse_error')
                    ok = IN.Err(e) if m == 'parse_as_result' else ('adt', 'ParseResult', 1, 'Failure', (
                        e, ('adt', 'CommittedStatus', 0 if r[1] else 1, 'Committed' if r[1] else 'Uncommitted', ())))
                out.append((s, ok))
        finally:
            self.elems = saved
        return out

    def call(self, fn, *parts):
        """outcomes of `fn` applied to the template text"""
        st = self.template(*parts)
        text = self.mktext(self.elems)
        return [(s, s.norm(v)) for s, v in self.it.exec_fn(st, fn, [text], None)]

    def mktext(self, es):
        if all(e[0] == 'int' for e in es):
            return ('str', ''.join(chr(e[1]) for e in es))
        return ('app', 'text', ('seq', tuple(('e', e) for e in es)))

    def parse_target(self, c, args):
        full = c['full']
        if c['method'] == 'parse':
            m = re.search(r'parse::<(.*)>$', full)
            return (M.type_head(m.group(1)) if m else None), 10
        m = re.search(r'\b(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize|f64|Ipv6Addr|Ipv4Addr)\b', str(c.get('self', '')) + ' ' + full)
        r = args[1] if len(args) > 1 else I(10)
        return (m.group(1) if m else None), (r[1] if r[0] == 'int' else None)

    def digit(self, st, e, radix):
        if self.within(st, e, 48, min(57, 47 + radix)):
            return sub(e, I(48))
        if radix == 16:
            if self.within(st, e, 97, 102):
                return sub(e, I(87))
            if self.within(st, e, 65, 70):
                return sub(e, I(55))
        return None

    def number(self, st, es, radix):
        if not es:
            return None
        v = I(0)
        for e in es:
            d = self.digit(st, e, radix)
            if d is None:
                return None
            v = add(mulk(v, radix), d)
        return v

    def parse(self, st, es, ty, radix):
        if ty in LIM and radix:
            neg = False
            ds = es
            if es and es[0] == I(45) and ty[0] == 'i':
                neg, ds = True, es[1:]
            elif es and es[0] == I(43):
                ds = es[1:]
            v = self.number(st, ds, radix)
            if v is None:
                return None
            if neg:
                v = mulk(v, -1)
            hi = LIM[ty] + (1 if neg else 0)
            ok = []
            for s, b in self.it.branch(st, IN.mk_ge0(sub(I(hi), mulk(v, -1) if neg else v))):
                ok.append((s, IN.Ok(v) if b else IN.Err(('app', 'parse_err', ('str', ty)))))
            return ok
        if ty in ('f64', 'f32'):
            q = self.decimal(st, es)
            return None if q is None else [(st, IN.Ok(q))]
        if ty == 'Ipv6Addr':
            g = self.ipv6(st, es)
            return [(st, IN.Ok(('app', 'Ipv6Addr') + tuple(g)))] if g else None
        return None

    def decimal(self, st, es):
        """('app', 'dec', mantissa, scale): mantissa * 10^scale"""
        i = 0
        sg = 1
        if es and es[0] in (I(45), I(43)):
            sg = -1 if es[0] == I(45) else 1
            i = 1
        m, n, sc, dot = I(0), 0, 0, False
        while i < len(es):
            if es[i] == I(46) and not dot:
                dot = True
            else:
                d = self.digit(st, es[i], 10)
                if d is None:
                    break
                m = add(mulk(m, 10), d)
                n += 1
                if dot:
                    sc -= 1
            i += 1
        if n == 0:
            return None
        e = I(0)
        if i < len(es):
            if es[i] not in (I(101), I(69)):
                return None
            i += 1
            es2 = es[i:]
            neg = es2[:1] == [I(45)]
            if es2[:1] in ([I(45)], [I(43)]):
                es2 = es2[1:]
            e = self.number(st, es2, 10)
            if e is None:
                return None
            if neg:
                e = mulk(e, -1)
        return ('app', 'dec', mulk(m, sg), add(e, I(sc)))

    def ipv6(self, st, es):
        def groups(part):
            out = []
            cur = []
            toks = []
            for e in part:
                if e == I(58):
                    toks.append(cur)
                    cur = []
                else:
                    cur.append(e)
            if part:
                toks.append(cur)
            for k, t in enumerate(toks):
                if I(46) in t:
                    if k != len(toks) - 1:
                        return None
                    o, c2 = [], []
                    for e in t + [I(46)]:
                        if e == I(46):
                            o.append(self.number(st, c2, 10))
                            c2 = []
                        else:
                            c2.append(e)
                    if len(o) != 4 or None in o:
                        return None
                    out += [add(mulk(o[0], 256), o[1]), add(mulk(o[2], 256), o[3])]
                else:
                    n = self.number(st, t, 16) if 1 <= len(t) <= 4 else None
                    if n is None:
                        return None
                    out.append(n)
            return out
        at = [i for i in range(len(es) - 1) if es[i] == I(58) and es[i + 1] == I(58)]
        if not at:
            g = groups(es)
            return g if g and len(g) == 8 else None
        a, b = groups(es[:at[0]]), groups(es[at[0] + 2:])
        if a is None or b is None or len(a) + len(b) > 7:
            return None
        return a + [I(0)] * (8 - len(a) - len(b)) + b

    # ------------------------------------------------------------ evaluation
    def test(self, st, e, ivs):
        if e[0] == 'int':
            return [(st, any(lo <= e[1] <= hi for lo, hi in ivs))]
        out, cur = [], [st]
        for lo, hi in ivs:
            nxt = []
            for s in cur:
                for s1, b in self.it.branch(s, IN.mk_ge0(sub(s.norm(e), I(lo)))):
                    if not b:
                        out.append((s1, False))
                        continue
                    for s2, b2 in self.it.branch(s1, IN.mk_ge0(sub(I(hi), s1.norm(e)))):
                        if b2:
                            out.append((s2, True))
                        else:
                            nxt.append(s2)
            cur = nxt
        return out + [(s, False) for s in cur]

    def seq(self, vs):
        return ('seq', tuple(('e', v) for v in vs))

    def ivs(self, g):
        r = self.classes.get(g)
        if r is None:
            r = self.classes[g] = self.tr.lang(g)[1]
        return r

    def ev(self, st, g, i):
        """-> [(state, ('S', value, end) or ('F', committed))]"""
        self.steps += 1
        if self.steps % 256 == 0:
            check_deadline()
        if not GR.isg(g):
            raise GR.NotGrammar('not a parser: ' + show(g)[:80])
        op = g[2][1]
        a = g[3:]
        n = len(self.elems)
        if op in ('class', 'set', 'range', 'elm', 'pred'):
            if i >= n:
                return [(st, ('F', False))]
            e = self.elems[i]
            return [(s, ('S', e, i + 1) if b else ('F', False)) for s, b in self.test(st, e, self.ivs(g))]
        if op in ('seq', 'tag'):
            lits = self.tr.elems(a[0])
            cur = [(st, 0)]
            out = []
            while cur:
                s, k = cur.pop()
                if k == len(lits):
                    v = ('str', ''.join(map(chr, lits))) if op == 'tag' else self.seq([I(x) for x in lits])
                    out.append((s, ('S', v, i + k)))
                elif i + k >= n:
                    out.append((s, ('F', False)))
                else:
                    for s2, b in self.test(s, self.elems[i + k], ((lits[k], lits[k]),)):
                        if b:
                            cur.append((s2, k + 1))
                        else:
                            out.append((s2, ('F', k > 0)))
            return out
        if op == 'succ':
            return [(st, ('S', a[0], i))]
        if op == 'succl':
            return [(s, ('S', v, i)) for s, v in self.it.apply(st, a[0], [])]
        if op == 'end':
            return [(st, ('S', UNIT, i) if i >= n else ('F', False))]
        if op == 'fail':
            return [(st, ('F', a[0][1] == 'failed_with_commit'))]
        if op == 'lazy':
            k = show(a[0])
            if k not in self.forced:
                self.forced[k] = self.tr.force(a[0])
            return self.ev(st, self.forced[k], i)
        if op in ('and', 'skipl', 'skipr'):
            out = []
            for s, r in self.ev(st, a[0], i):
                if r[0] == 'F':
                    out.append((s, r))
                    continue
                for s2, r2 in self.ev(s, a[1], r[2]):
                    if r2[0] == 'F':
                        out.append((s2, r2))
                    else:
                        v = ('tup', (r[1], r2[1])) if op == 'and' else r[1] if op == 'skipr' else r2[1]
                        out.append((s2, ('S', v, r2[2])))
            return out
        if op == 'or':
            out = []
            for s, r in self.ev(st, a[0], i):
                if r[0] == 'F' and not r[1]:
                    out += self.ev(s, a[1], i)
                else:
                    out.append((s, r))
            return out
        if op in ('opt', 'exists', 'not', 'peek', 'attempt', 'discard', 'collect'):
            out = []
            for s, r in self.ev(st, a[0], i):
                ok = r[0] == 'S'
                if op == 'opt':
                    r = ('S', IN.Some(r[1]), r[2]) if ok else ('S', IN.OPTION_NONE, i)
                elif op == 'exists':
                    r = ('S', ('bool', ok), i)
                elif op == 'not':
                    r = ('F', False) if ok else ('S', UNIT, i)
                elif op == 'peek':
                    r = ('S', r[1], i) if ok else r
                elif op == 'attempt':
                    r = r if ok else ('F', False)
                elif op == 'discard':
                    r = ('S', UNIT, r[2]) if ok else r
                elif op == 'collect':
                    r = ('S', self.seq(self.elems[i:r[2]]), r[2]) if ok else r
                out.append((s, r))
            return out
        if op == 'flat_map':
            out = []
            for s, r in self.ev(st, a[0], i):
                if r[0] == 'F':
                    out.append((s, r))
                    continue
                self.actions += 1
                for s2, g2 in self.bld.apply(s, a[1], [r[1]]):
                    for s3, r3 in self.ev(s2, s2.norm(g2), r[2]):
                        out.append((s3, ('F', r3[1] or r[2] > i) if r3[0] == 'F' else r3))
            return out
        if op in ('map', 'map_res', 'map_opt', 'filter'):
            out = []
            for s, r in self.ev(st, a[0], i):
                if r[0] == 'F':
                    out.append((s, r))
                    continue
                self.actions += 1
                for s2, v in self.it.apply(s, a[1], [r[1]]):
                    v = s2.norm(v)
                    if op == 'map':
                        out.append((s2, ('S', v, r[2])))
                    elif op == 'filter':
                        for s3, b in self.it.branch(s2, v):
                            out.append((s3, ('S', r[1], r[2]) if b else ('F', False)))
                    else:
                        for s3, k in self.it.variant(s2, v, 2):
                            v3 = s3.norm(v)
                            good = 0 if op == 'map_res' else 1
                            if k == good:
                                x = v3[4][0] if v3[0] == 'adt' else ('app', 'proj', v3, ('str', 'Ok' if op == 'map_res' else 'Some'), I(0))
                                out.append((s3, ('S', x, r[2])))
                            else:
                                out.append((s3, ('F', False)))
            return out
        if op == 'rep':
            lo, hi = a[2][1], a[3][1]
            sep = None if a[1] == UNIT else a[1]
            out = []
            work = [(st, [], i, True)]        # state, items, position, an item may come next
            while work:
                s, vs, j, first = work.pop()
                def done(s, j):
                    out.append((s, ('S', self.seq(vs), j) if len(vs) >= lo else ('F', False)))
                if hi >= 0 and len(vs) >= hi:
                    done(s, j)
                    continue
                if vs and sep is not None:
                    starts = []
                    for s1, r1 in self.ev(s, sep, j):
                        if r1[0] == 'F':
                            done(s1, j)
                        else:
                            starts.append((s1, r1[2]))
                else:
                    starts = [(s, j)]
                for s1, j1 in starts:
                    for s2, r2 in self.ev(s1, a[0], j1):
                        if r2[0] == 'F':
                            done(s2, j1)
                        else:
                            if r2[2] == j and sep is None:
                                raise GR.NotGrammar('repetition of nothing')
                            work.append((s2, vs + [r2[1]], r2[2], False))
            return out
        if op in ('chain_left1', 'chain_right1'):
            out = []
            work = [(s, r, []) for s, r in self.ev(st, a[0], i)]
            # items: x (f y)*
            todo = []
            for s, r, _ in work:
                if r[0] == 'F':
                    out.append((s, r))
                else:
                    todo.append((s, [r[1]], r[2]))
            while todo:
                s, items, j = todo.pop()
                for s1, r1 in self.ev(s, a[1], j):
                    if r1[0] == 'F':
                        if r1[1]:
                            out.append((s1, ('F', True)))
                        else:
                            out += [(s2, ('S', v, j)) for s2, v in self.fold(s1, items, op == 'chain_left1')]
                        continue
                    for s2, r2 in self.ev(s1, a[0], r1[2]):
                        if r2[0] == 'F':
                            out.append((s2, ('F', True) if r1[2] > j or j > i else r2))
                        else:
                            todo.append((s2, items + [r1[1], r2[1]], r2[2]))
            return out
        if op == 'regex':
            return self.regex(st, a[0], i)
        if op in ('take_while0', 'take_while1', 'take_till0', 'take_till1'):
            ivs = self.ivs_pred(a[0])
            want = op.startswith('take_while')
            out, work = [], [(st, i)]
            while work:
                s, j = work.pop()
                if j >= n:
                    ok = op == 'take_till0' or want and (j > i or op[-1] == '0')
                    out.append((s, ('S', self.seq(self.elems[i:j]), j) if ok else ('F', False)))
                    continue
                for s2, b in self.test(s, self.elems[j], ivs):
                    if want:
                        if b:
                            work.append((s2, j + 1))
                        else:
                            out.append((s2, ('S', self.seq(self.elems[i:j]), j) if j > i or op[-1] == '0' else ('F', False)))
                    elif b:
                        out.append((s2, ('S', self.seq(self.elems[i:j + 1]), j + 1)))
                    else:
                        work.append((s2, j + 1))
            return out
        raise GR.NotGrammar('grammar operator ' + op)

    def ivs_pred(self, f):
        return self.ivs(GR.g('pred', f))

    def fold(self, st, items, left):
        if len(items) == 1:
            return [(st, items[0])]
        out = []
        if left:
            for s, v in self.it.apply(st, items[1], [items[0], items[2]]):
                out += self.fold(s, [s.norm(v)] + items[3:], left)
        else:
            for s, y in self.fold(st, items[2:], left):
                out += self.it.apply(s, items[1], [items[0], y])
        return out

    def regex(self, st, pat, i):
        if pat[0] == 'app' and len(pat) == 3:
            pat = pat[2]
        if pat[0] != 'str':
            raise GR.NotGrammar('regular expression ' + show(pat))
        p = pat[1]
        res = set()
        for pick in (0, 1):
            txt = ''
            for e in self.elems[i:]:
                if e[0] == 'int':
                    txt += chr(e[1])
                else:
                    lo, hi = self.bounds(st, e)
                    txt += chr(hi if pick else lo)
            m = re.match(p, txt)
            res.add(m.end() if m else -1)
        if len(res) != 1:
            raise GR.NotGrammar('regular expression on a varying element')
        n = res.pop()
        if n < 0:
            return [(st, ('F', False))]
        return [(st, ('S', self.mktext(self.elems[i:i + n]), i + n))]

    def bounds(self, st, e):
        lo, hi = 0, self.top
        a, b = 0, self.top
        while a < b:
            m = (a + b + 1) // 2
            if st.proves(sub(e, I(m))):
                a = m
            else:
                b = m - 1
        lo = a
        a, b = 0, self.top
        while a < b:
            m = (a + b) // 2
            if st.proves(sub(I(m), e)):
                b = m
            else:
                a = m + 1
        return lo, a

    def template(self, *parts):
        """parts: str literals and ('name', lo, hi) elements -> state with the constraints"""
        st = IN.St()
        es = []
        for p in parts:
            if isinstance(p, str):
                es += [I(ord(ch)) for ch in p]
            else:
                nm, lo, hi = p
                v = ('sym', 'el:' + nm)
                lo, hi = (ord(x) if isinstance(x, str) else x for x in (lo, hi))
                st.ge = st.ge + (sub(v, I(lo)), sub(I(hi), v))
                es.append(v)
        self.elems = es
        return st
