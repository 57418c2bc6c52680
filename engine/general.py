"""Whole-crate rules: standard-stream effects, termination of the shipped grammars."""
import os
import re
from terms import *
import mir as M
import interp as IN
import grammar as GR
import lang as LG
import core_checks as K
import apps

LIBS = ('parser', 'uri', 'crond', 'hocon')

# ------------------------------------------------------------------ H06: effects on the standard streams
SINK = re.compile(r'\b(?:std::)?(?:io::)?(?:stdio::)?(_print|_eprint)\(|\bio::(?:stdio::)?(stdout|stderr)\(|\b(?:stdout|stderr)\(\) -> |<(?:std::io::)?(?:Stdout|Stderr)(?:Lock<[^>]*>)? as ')
FD = re.compile(r'from_raw_fd\(const ([12])_i32\)')


def strip_strings(l):
    return re.sub(r'"(?:[^"\\]|\\.)*"', '""', l)


def owner(f):
    """the item a closure belongs to"""
    return f.name.split('::{closure#')[0]


def check_prints(P, res, tier):
    fns = [f for f in P.fns if f.crate in LIBS]
    names = {}
    for f in fns:
        names.setdefault(owner(f).rsplit('::', 1)[-1], []).append(f)
    sinks = []
    calls = 0
    for f in fns:
        res.used[f.name] = f
        for l in f.raw:
            t = strip_strings(l.strip())
            if ' -> [' in t or ' -> unwind' in t:
                calls += 1
                m = SINK.search(t) or FD.search(t)
                if m:
                    sinks.append((f, next((g for g in m.groups() if g), 'a standard stream')))
    live = live_functions(P, fns)
    crates = {}
    for f in fns:
        crates.setdefault(f.crate, 0)
        crates[f.crate] += 1
    bad = {}
    for f, what in sinks:
        if owner(f) in live:
            bad.setdefault((f.crate, owner(f)), []).append(what)
    for (cr, nm), ws in sorted(bad.items()):
        msg = '%s in crate %s calls std::io::%s (%d call site%s), reachable from %s' % (nm, cr, ws[0], len(ws), 's' if len(ws) > 1 else '', live[nm])
        res.viol.append(('H06', '%s|%s|standard stream' % (cr, re.sub(r'<impl at [^>]*>', 'impl', nm)), {'construct': nm, 'what': msg}))
    for cr in sorted(crates):
        if not any(c == cr for c, _ in bad):
            res.decided.append('crate %s: no reachable call writes to a standard stream (%d functions)' % (cr, crates[cr]))
    res.stats['callsites'] = res.stats.get('callsites', 0) + calls
    res.extra = {'call_sites_inspected': calls}


def public_names(crate):
    """names declared pub, or in a trait or trait impl, in the crate's sources"""
    out = set()
    root = os.path.join(M.REPO, M.CRATES[crate][2], 'src')
    for d, _, fs in os.walk(root):
        for fn in fs:
            if fn.endswith('.rs'):
                t = M.strip_comments(open(os.path.join(d, fn), encoding='utf-8').read())
                out |= set(re.findall(r'\bpub\s+(?:const\s+|async\s+|unsafe\s+)*fn\s+(?:r#)?(\w+)', t))
    return out


def live_functions(P, fns):
    """owner name -> a public root that reaches it; calls are matched by the last segment of the name (over-approximation)"""
    by = {}
    for f in fns:
        by.setdefault(owner(f).rsplit('::', 1)[-1], set()).add(owner(f))
    body = {}
    for f in fns:
        s = body.setdefault(owner(f), set())
        for l in f.raw:
            t = strip_strings(l)
            if l.lstrip().startswith(('let ', 'debug ')) and '{' not in t:
                continue
            for m in re.finditer(r'(\w+)(?:::<|\(| as |\}|$|>|,|;)', t):
                if m.group(1) in by:
                    s.add(m.group(1))
    live = {}
    work = []
    pub = {c: public_names(c) for c in LIBS if any(f.crate == c for f in fns)}
    for f in fns:
        o = owner(f)
        last = o.rsplit('::', 1)[-1]
        if o not in live and (last in pub.get(f.crate, ()) or f.trait or '<impl' in o and M.impl_info(o) and M.impl_info(o)[0]):
            live[o] = o
            work.append(o)
    while work:
        o = work.pop()
        for n in body.get(o, ()):
            for q in by[n]:
                if q not in live:
                    live[q] = live[o]
                    work.append(q)
    return live


# ------------------------------------------------------------------ G01: termination of the grammars
class Term:
    """nullability and same-position reachability of rules over an extracted grammar"""

    def __init__(self, P, crate):
        self.tr = LG.Tr(P, LG.BYTE if crate in ('uri', 'hocon') else LG.CHAR, crate)
        self.body = {}       # rule key -> grammar term
        self.name = {}
        self.null = {}       # rule key -> bool (least fixpoint)
        self.changed = False
        self.steps = 0

    def key(self, g):
        k = show(g[3])
        if k not in self.body:
            self.body[k] = None
            m = re.search(r'fn\((\w+)', k) or re.search(r'\b(\w+)::<', k) or re.search(r'(\w+)', k)
            self.name[k] = m.group(1) if m else k[:40]
            self.body[k] = self.tr.force(g[3])
            self.null[k] = False
            self.changed = True
        return k

    def nullable(self, g):
        self.steps += 1
        if not GR.isg(g):
            raise GR.NotGrammar('not a parser: ' + show(g)[:80])
        op, a = g[2][1], g[3:]
        if op in ('class', 'set', 'range', 'elm', 'pred', 'take_while1', 'take_till1', 'fail'):
            return False
        if op in ('seq', 'tag', 'tag_no_case'):
            return len(self.tr.elems(a[0])) == 0
        if op in ('succ', 'succl', 'end', 'opt', 'not', 'peek', 'exists', 'take_while0', 'take_till0', 'last_offset', 'next_offset'):
            return True
        if op in ('take', 'skip'):
            return not (a[0][0] == 'int' and a[0][1] > 0)
        if op == 'take_while_n_m':
            return not (a[0][0] == 'int' and a[0][1] > 0)
        if op == 'regex':
            p = a[0]
            if p[0] == 'app' and len(p) == 3:
                p = p[2]
            return p[0] != 'str' or re.match(p[1], '') is not None
        if op == 'lazy':
            return self.null[self.key(g)]
        if op in ('and', 'skipl', 'skipr'):
            x, y = self.nullable(a[0]), self.nullable(a[1])
            return x and y
        if op == 'or':
            x, y = self.nullable(a[0]), self.nullable(a[1])
            return x or y
        if op == 'rep':
            x = self.nullable(a[0])
            if a[1] != UNIT:
                self.nullable(a[1])
            return a[2][1] == 0 or x
        if op.startswith(('chain_', 'rest_', 'scan_')):
            x = self.nullable(a[0])
            if len(a) > 1 and GR.isg(a[1]):
                self.nullable(a[1])
            return x or op.endswith('0')
        if op == 'flat_map':
            return self.nullable(a[0]) and self.nullable(self.tr.continuation(a[1]))
        if op in ('map', 'map_res', 'map_opt', 'filter', 'with_filter', 'with_filter_not', 'attempt', 'discard', 'collect'):
            return self.nullable(a[0])
        raise GR.NotGrammar('operator ' + op)

    def solve(self, g):
        while True:
            self.changed = False
            self.nullable(g)
            for k in list(self.body):
                v = self.nullable(self.body[k])
                if v != self.null[k]:
                    self.null[k] = v
                    self.changed = True
            if not self.changed:
                return

    def heads(self, g):
        """rules reachable at the position where g starts"""
        op, a = g[2][1], g[3:]
        if op == 'lazy':
            return {self.key(g)}
        if op in ('and', 'skipl', 'skipr'):
            return self.heads(a[0]) | (self.heads(a[1]) if self.nullable(a[0]) else set())
        if op == 'or':
            return self.heads(a[0]) | self.heads(a[1])
        if op == 'rep' or op.startswith(('chain_', 'rest_', 'scan_')):
            out = self.heads(a[0])
            if len(a) > 1 and GR.isg(a[1]) and self.nullable(a[0]):
                out |= self.heads(a[1])
            return out
        out = set()
        for x in a:
            if GR.isg(x):
                out |= self.heads(x)
        return out

    def loops(self, g, where, out, seen):
        """unbounded repetitions whose round may consume nothing"""
        op, a = g[2][1], g[3:]
        k = (where, g)
        if k in seen:
            return
        seen.add(k)
        if op == 'rep' and a[3][1] < 0:
            self.reps = getattr(self, 'reps', 0) + 1
            if self.nullable(a[0]) and (a[1] == UNIT or self.nullable(a[1])):
                out.append((where, g))
        if op.startswith(('chain_', 'rest_', 'scan_')):
            self.reps = getattr(self, 'reps', 0) + 1
            if self.nullable(a[0]) and (len(a) < 2 or not GR.isg(a[1]) or self.nullable(a[1])):
                out.append((where, g))
        for x in a:
            if GR.isg(x):
                self.loops(x, where, out, seen)

    def left_cycle(self, g):
        succ = {k: self.heads(b) for k, b in self.body.items()}
        state = {}
        path = []
        def dfs(k):
            state[k] = 1
            path.append(k)
            for n in sorted(succ[k]):
                if state.get(n) == 1:
                    return path[path.index(n):] + [n]
                if n not in state:
                    c = dfs(n)
                    if c:
                        return c
            path.pop()
            state[k] = 2
            return None
        for k in sorted(succ):
            if k not in state:
                c = dfs(k)
                if c:
                    return [self.name[x] for x in c]
        return None


def parser_functions(P, crate):
    """functions without parameters that build a parser"""
    out = []
    for f in P.fns:
        if f.crate == crate and f.kind == 'fn' and not f.args and re.match(r'(\w+::)*Parser<', f.ret or '') and '{closure' not in f.name:
            out.append(f)
    return sorted(out, key=lambda f: f.name)


def render(g, depth=0):
    op, a = g[2][1], g[3:]
    if depth > 3:
        return '..'
    xs = [render(x, depth + 1) for x in a if GR.isg(x)]
    if not xs:
        return show(g)[2:60]
    return '%s(%s)' % (op, ', '.join(xs))


def check_termination(P, res, tier):
    total = 0
    for crate in ('uri', 'crond', 'hocon', 'toys'):
        for f in parser_functions(P, crate):
            short = re.sub(r'<impl at [^>]*>', 'impl', f.name)
            lab = 'grammar %s::%s' % (crate, short)
            res.used[f.name] = f
            try:
                it, st, g = GR.build(P, f)
                if not GR.isg(g):
                    raise GR.NotGrammar('not a parser: ' + show(g)[:60])
                T = Term(P, crate)
                T.solve(g)
                cyc = T.left_cycle(g)
                seen, out = set(), []
                T.loops(g, short, out, seen)
                for k in list(T.body):
                    T.loops(T.body[k], T.name[k], out, seen)
            except apps.ERRS + (GR.NotGrammar,) as e:
                res.undecided.append((lab, '%s: %s' % (type(e).__name__, str(e)[:160])))
                continue
            total += getattr(T, 'reps', 0)
            if cyc:
                res.viol.append(('G01', '%s|rule %s|reaches itself without consuming' % (crate, min(cyc)), {
                    'construct': f.name, 'what': 'rule cycle %s in the grammar built by %s: each rule runs the next at its own starting position' % (' -> '.join(cyc), short)}))
            for where, x in out:
                res.viol.append(('G01', '%s|%s|repetition of nothing' % (crate, where), {
                    'construct': f.name, 'what': 'in rule %s (grammar built by %s) the unbounded repetition %s repeats a round that can succeed without consuming input' % (where, short, render(x)[:200])}))
            if not cyc and not out:
                res.decided.append(lab)
    res.extra = {'repetitions_checked': total}
