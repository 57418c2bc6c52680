"""Standard-library text functions on texts of known length (elements fixed or symbolic)."""
from terms import *
import interp as IN
from interp import OPTION_NONE as NONE, Some


class Texts:
    """mixed into the template evaluator: `flat` gives the elements of a text, `mktext` makes one"""

    def text_call(self, it, st, c, args):
        key = c['key']
        seg = key.split('::')
        if len(seg) < 2 or seg[-2] not in ('str', 'String', 'slice') or not args:
            if c['kind'] == 'trait' and key in ('Index::index',) and M_head(c.get('self', '')) in ('str', 'String'):
                seg = ['str', 'index']
            else:
                return None
        m = seg[-1]
        if seg[-2] == 'slice' and m not in ('starts_with', 'ends_with'):
            return None
        h = getattr(self, 't_' + m, None)
        if h is None:
            return None
        v = args[0]
        if m in ('push', 'push_str', 'clear', 'retain'):
            return None
        if m in ('insert', 'insert_str', 'pop', 'truncate', 'remove') and v[0] != 'mref':
            return None
        es = self.flat(st, v)
        if es is None or not all(e[0] in ('int', 'lin', 'sym') for e in es):
            return None
        if not all(self.within(st, e, 0, 127) for e in es):
            # wider characters: only what does not speak of byte positions, and only fixed ones
            if m not in ('trim', 'trim_start', 'trim_end', 'chars', 'is_empty', 'to_string') or not all(e[0] == 'int' or self.within(st, e, 0, 127) for e in es):
                return None
            if m.startswith('trim') and any(e[0] == 'int' and e[1] > 127 and chr(e[1]).isspace() for e in es):
                return None
        self.place = v
        return h(st, es, args[1:], c)

    # ---------------------------------------------------------------- patterns
    def pat(self, st, p):
        """list of alternatives, each a list of elements; None when the pattern is not fixed"""
        if p[0] == 'mref':
            p = self.it.read(st, p[1], p[2])
        if p[0] == 'int':
            return [[p]]
        if p[0] == 'str':
            return [[I(ord(ch)) for ch in p[1]]]
        if p[0] == 'seq' and all(q[0] == 'e' and q[1][0] == 'int' for q in p[1]):
            return [[q[1]] for q in p[1]]
        es = self.flat(st, p)
        if es is not None and all(e[0] == 'int' for e in es):
            return [es]
        return None

    def at(self, st, es, i, pats):
        """-> [(state, matched length or None)]"""
        out = []
        work = [(st, 0, 0)]
        while work:
            s, k, j = work.pop()
            if k == len(pats):
                out.append((s, None))
                continue
            p = pats[k]
            if j == len(p):
                out.append((s, len(p)))
                continue
            if i + j >= len(es):
                work.append((s, k + 1, 0))
                continue
            for s2, b in self.it.branch(s, IN.mk_eq0(sub(s.norm(es[i + j]), p[j]))):
                work.append((s2, k, j + 1) if b else (s2, k + 1, 0))
        return out

    def scan(self, st, es, pats, limit=None, back=False):
        """-> [(state, [(start, length)])]: non-overlapping matches from one end"""
        out = []
        work = [(st, [], 0 if not back else len(es))]
        while work:
            s, hits, i = work.pop()
            if limit is not None and len(hits) >= limit or (not back and i > len(es)) or (back and i < 0):
                out.append((s, hits))
                continue
            for s2, n in self.at(s, es, i, pats):
                if n is not None and n > 0:
                    work.append((s2, hits + [(i, n)], i + n if not back else i - 1))
                else:
                    work.append((s2, hits, i + 1 if not back else i - 1))
        return out

    def pieces(self, es, hits):
        out, j = [], 0
        for i, n in sorted(hits):
            out.append(es[j:i])
            j = i + n
        return out + [es[j:]]

    def iter_of(self, texts):
        seq = ('seq', tuple(('e', self.mktext(t)) for t in texts))
        return ('adt', 'SliceIter', 0, None, (seq, I(0), I(len(texts))))

    # ---------------------------------------------------------------- functions
    def put(self, st, es, r):
        self.it.write(st, self.place[1], list(self.place[2]), self.mktext(es))
        return [(st, r)]

    def t_insert(self, st, es, a, c):
        w = [a[1]] if a[1][0] in ('int', 'lin', 'sym') else self.flat(st, a[1])
        if w is None or a[0][0] != 'int' or not 0 <= a[0][1] <= len(es):
            return None
        return self.put(st, es[:a[0][1]] + w + es[a[0][1]:], UNIT)

    t_insert_str = t_insert

    def t_pop(self, st, es, a, c):
        return self.put(st, es[:-1], Some(es[-1])) if es else [(st, NONE)]

    def t_truncate(self, st, es, a, c):
        return self.put(st, es[:a[0][1]], UNIT) if a[0][0] == 'int' and a[0][1] >= 0 else None

    def t_remove(self, st, es, a, c):
        if a[0][0] != 'int' or not 0 <= a[0][1] < len(es):
            return None
        return self.put(st, es[:a[0][1]] + es[a[0][1] + 1:], es[a[0][1]])

    def t_split(self, st, es, a, c):
        p = self.pat(st, a[0])
        return None if p is None else [(s, self.iter_of(self.pieces(es, h))) for s, h in self.scan(st, es, p)]

    def t_splitn(self, st, es, a, c):
        p = self.pat(st, a[1])
        if p is None or a[0][0] != 'int' or a[0][1] < 1:
            return None
        return [(s, self.iter_of(self.pieces(es, h))) for s, h in self.scan(st, es, p, a[0][1] - 1)]

    def t_rsplit(self, st, es, a, c):
        p = self.pat(st, a[0])
        return None if p is None or any(len(x) != 1 for x in p) else [(s, self.iter_of(self.pieces(es, h)[::-1])) for s, h in self.scan(st, es, p)]

    def t_rsplitn(self, st, es, a, c):
        p = self.pat(st, a[1])
        if p is None or any(len(x) != 1 for x in p) or a[0][0] != 'int' or a[0][1] < 1:
            return None
        return [(s, self.iter_of(self.pieces(es, h)[::-1])) for s, h in self.scan(st, es, p, a[0][1] - 1, back=True)]

    def t_split_once(self, st, es, a, c):
        return self.once(st, es, a, False)

    def t_rsplit_once(self, st, es, a, c):
        return self.once(st, es, a, True)

    def once(self, st, es, a, back):
        p = self.pat(st, a[0])
        if p is None:
            return None
        out = []
        for s, h in self.scan(st, es, p, 1, back=back):
            if h:
                i, n = h[0]
                out.append((s, Some(('tup', (self.mktext(es[:i]), self.mktext(es[i + n:]))))))
            else:
                out.append((s, NONE))
        return out

    def t_find(self, st, es, a, c):
        p = self.pat(st, a[0])
        return None if p is None else [(s, Some(I(h[0][0])) if h else NONE) for s, h in self.scan(st, es, p, 1)]

    def t_rfind(self, st, es, a, c):
        p = self.pat(st, a[0])
        return None if p is None else [(s, Some(I(h[0][0])) if h else NONE) for s, h in self.scan(st, es, p, 1, back=True)]

    def t_contains(self, st, es, a, c):
        p = self.pat(st, a[0])
        return None if p is None else [(s, ('bool', bool(h) or [] in p)) for s, h in self.scan(st, es, p, 1)]

    def t_starts_with(self, st, es, a, c):
        p = self.pat(st, a[0])
        return None if p is None else [(s, ('bool', n is not None)) for s, n in self.at(st, es, 0, p)]

    def t_ends_with(self, st, es, a, c):
        p = self.pat(st, a[0])
        if p is None or len({len(x) for x in p}) != 1:
            return None
        i = len(es) - len(p[0])
        return [(st, FALSE)] if i < 0 else [(s, ('bool', n is not None)) for s, n in self.at(st, es, i, p)]

    def t_strip_prefix(self, st, es, a, c):
        p = self.pat(st, a[0])
        return None if p is None else [(s, NONE if n is None else Some(self.mktext(es[n:]))) for s, n in self.at(st, es, 0, p)]

    def t_strip_suffix(self, st, es, a, c):
        r = self.t_ends_with(st, es, a, c)
        if r is None:
            return None
        n = len(self.pat(st, a[0])[0])
        return [(s, Some(self.mktext(es[:len(es) - n])) if b == TRUE else NONE) for s, b in r]

    def t_len(self, st, es, a, c):
        return [(st, I(len(es)))]

    def t_is_empty(self, st, es, a, c):
        return [(st, ('bool', not es))]

    def t_as_bytes(self, st, es, a, c):
        return [(st, ('seq', tuple(('e', e) for e in es)))]

    t_into_bytes = t_as_bytes

    def t_bytes(self, st, es, a, c):
        v = ('seq', tuple(('e', e) for e in es))
        return [(st, ('adt', 'SliceIter', 0, None, (v, I(0), I(len(es)))))]

    t_chars = t_bytes

    def t_char_indices(self, st, es, a, c):
        v = ('seq', tuple(('e', ('tup', (I(i), e))) for i, e in enumerate(es)))
        return [(st, ('adt', 'SliceIter', 0, None, (v, I(0), I(len(es)))))]

    def span(self, st, es, r):
        lo, hi, _ = self.it.nat.range_bounds(self.it, st, ('seq', tuple(('e', e) for e in es)), r)
        lo, hi = st.norm(lo), st.norm(hi)
        return (lo[1], hi[1]) if lo[0] == hi[0] == 'int' else None

    def t_index(self, st, es, a, c):
        if a[0][0] != 'adt' or not a[0][1].startswith('Range'):
            return None
        q = self.span(st, es, a[0])
        if q is None:
            return None
        if 0 <= q[0] <= q[1] <= len(es):
            return [(st, self.mktext(es[q[0]:q[1]]))]
        self.it.panic(st, 'slice', self.cur, 'text slice %s..%s of length %s' % (q[0], q[1], len(es)))
        return []

    def t_get(self, st, es, a, c):
        if a[0][0] != 'adt' or not a[0][1].startswith('Range'):
            return None
        q = self.span(st, es, a[0])
        if q is None:
            return None
        return [(st, Some(self.mktext(es[q[0]:q[1]])) if 0 <= q[0] <= q[1] <= len(es) else NONE)]

    def t_split_at(self, st, es, a, c):
        if a[0][0] != 'int' or not 0 <= a[0][1] <= len(es):
            return None
        return [(st, ('tup', (self.mktext(es[:a[0][1]]), self.mktext(es[a[0][1]:]))))]

    def t_replace(self, st, es, a, c):
        p, w = self.pat(st, a[0]), self.flat(st, a[1])
        if p is None or w is None:
            return None
        out = []
        for s, h in self.scan(st, es, p):
            ps = self.pieces(es, h)
            r = list(ps[0])
            for q in ps[1:]:
                r += w + q
            out.append((s, self.mktext(r)))
        return out

    def blank(self, st, e):
        """-> [(state, is whitespace)]"""
        out = []
        ivs = ((9, 13), (32, 32))
        return self.test(st, e, ivs)

    def trim(self, st, es, front, back):
        out = []
        work = [(st, 0, len(es), front)]
        while work:
            s, i, j, f = work.pop()
            if i >= j:
                out.append((s, self.mktext([])))
            elif f:
                for s2, b in self.blank(s, es[i]):
                    work.append((s2, i + 1, j, True) if b else (s2, i, j, False))
            elif back:
                for s2, b in self.blank(s, es[j - 1]):
                    if b:
                        work.append((s2, i, j - 1, False))
                    else:
                        out.append((s2, self.mktext(es[i:j])))
            else:
                out.append((s, self.mktext(es[i:j])))
        return out

    def t_trim(self, st, es, a, c):
        return self.trim(st, es, True, True)

    def t_trim_start(self, st, es, a, c):
        return self.trim(st, es, True, False)

    def t_trim_end(self, st, es, a, c):
        return self.trim(st, es, False, True)

    def case(self, st, es, lo, hi, d):
        cur = [(st, [])]
        for e in es:
            nxt = []
            for s, acc in cur:
                for s2, b in self.test(s, e, ((lo, hi),)):
                    nxt.append((s2, acc + [add(e, I(d)) if b else e]))
            cur = nxt
        return [(s, self.mktext([s.norm(x) for x in acc])) for s, acc in cur]

    def t_to_lowercase(self, st, es, a, c):
        return self.case(st, es, 65, 90, 32)

    t_to_ascii_lowercase = t_to_lowercase

    def t_to_uppercase(self, st, es, a, c):
        return self.case(st, es, 97, 122, -32)

    t_to_ascii_uppercase = t_to_uppercase

    def t_repeat(self, st, es, a, c):
        return [(st, self.mktext(es * a[0][1]))] if a[0][0] == 'int' and 0 <= a[0][1] < 200 else None


def M_head(t):
    import mir as M
    return M.type_head(t)
