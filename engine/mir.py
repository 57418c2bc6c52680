"""Front end: builds textual MIR of the crates in /repo and parses it into a small CFG IR.

Nothing of the analysed program is executed: rustc is asked for its own intermediate
representation (-Zunpretty=mir) of the current working tree.
"""
import os, re, subprocess, hashlib, sys, fcntl, pickle, functools

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(VERIF, '.work')
TOOLCHAIN = 'nightly-2026-03-10'
FLAGS = ['-Zunpretty=mir', '-Zmir-opt-level=0', '-Cdebug-assertions=off', '-Coverflow-checks=on']
CRATES = {
    'parser': ('oni-comb-parser-rs', ['--lib'], 'parser', 'oni_comb_parser_rs'),
    'uri': ('oni-comb-uri-rs', ['--lib'], 'uri', 'oni_comb_uri_rs'),
    'hocon': ('oni-comb-hocon-rs', ['--lib'], 'hocon', 'oni_comb_hocon_rs'),
    'crond': ('oni-comb-crond-rs', ['--lib'], 'crond', 'oni_comb_crond_rs'),
    'toys': ('oni-comb-toys-rs', ['--bin', 'oni-comb-toys-rs'], 'toys', 'oni_comb_toys_rs'),
}


class FrontEndError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e['RUSTUP_TOOLCHAIN'] = TOOLCHAIN
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_INCREMENTAL'] = '0'
    e['CARGO_TARGET_DIR'] = os.path.join(WORK, 'target')
    e['RUSTC_ICE'] = '0'
    e.pop('RUSTFLAGS', None)
    e.pop('RUSTC_WRAPPER', None)
    return e


def source_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        p = os.path.join(REPO, d)
        if os.path.isfile(p):
            h.update(p.encode()); h.update(open(p, 'rb').read())
            continue
        for root, ds, fs in os.walk(p):
            ds.sort()
            if 'target' in ds: ds.remove('target')
            for f in sorted(fs):
                if f.endswith('.rs') or f == 'Cargo.toml':
                    q = os.path.join(root, f)
                    h.update(q.encode()); h.update(open(q, 'rb').read())
    return h.hexdigest()[:24]


def mir_text(crate):
    """MIR of one crate of /repo's working tree (cached by content hash of the sources)."""
    os.makedirs(os.path.join(WORK, 'mir'), exist_ok=True)
    deps = ['parser', 'Cargo.toml', 'Cargo.lock']
    if crate == 'models':
        hsh = hashlib.sha256(open(os.path.join(VERIF, 'models', 'models.rs'), 'rb').read()).hexdigest()[:24]
    else:
        hsh = source_hash(deps + ([CRATES[crate][2]] if crate != 'parser' else []))
    out = os.path.join(WORK, 'mir', '%s-%s.mir' % (crate, hsh))
    if os.path.exists(out):
        return open(out, encoding='utf-8').read(), hsh
    lock = open(os.path.join(WORK, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(out):
            return open(out, encoding='utf-8').read(), hsh
        if crate == 'models':
            r = subprocess.run(['rustc', '--crate-type', 'lib', '--crate-name', 'models', '--edition', '2021',
                                os.path.join(VERIF, 'models', 'models.rs')] + FLAGS,
                               cwd=WORK, env=_env(), capture_output=True, text=True)
        else:
            pkg, sel, d, _ = CRATES[crate]
            r = subprocess.run(['cargo', 'rustc', '-q', '-p', pkg] + sel + ['--offline', '--'] + FLAGS,
                               cwd=REPO, env=_env(), capture_output=True, text=True)
        if r.returncode != 0 or len(r.stdout) < 1000:
            raise FrontEndError('rustc failed for %s:\n%s' % (crate, r.stderr[-3000:]))
        for f in os.listdir(os.path.join(WORK, 'mir')):
            if f.startswith(crate + '-'):
                os.unlink(os.path.join(WORK, 'mir', f))
        tmp = out + '.tmp%d' % os.getpid()
        with open(tmp, 'w', encoding='utf-8') as f:
            f.write(r.stdout)
        os.rename(tmp, out)
        return r.stdout, hsh
    finally:
        lock.close()


# ---------------------------------------------------------------- small text utilities
OPEN = {'(': ')', '[': ']', '{': '}', '<': '>'}
CLOSE = {v: k for k, v in OPEN.items()}


def skip_literal(s, i):
    """if s[i:] starts a string/char/bytes literal return the index after it, else i"""
    c = s[i]
    if c == '"' or (c == 'b' and s[i + 1:i + 2] == '"' and (i == 0 or not (s[i - 1].isalnum() or s[i-1] == '_'))):
        j = i + 1 if c == '"' else i + 2
        while s[j] != '"':
            j += 2 if s[j] == '\\' else 1
        return j + 1
    if c == "'" or (c == 'b' and s[i + 1:i + 2] == "'"):
        j = i if c == "'" else i + 1
        # char literal or lifetime
        m = re.match(r"'(\\u\{[0-9a-fA-F]+\}|\\x[0-9a-fA-F]{2}|\\.|[^\\'])'", s[j:])
        if m:
            return j + m.end()
    return i


def split_top(s, sep=','):
    out, depth, cur, i = [], 0, 0, 0
    n = len(s)
    while i < n:
        j = skip_literal(s, i)
        if j != i:
            i = j
            continue
        c = s[i]
        if c in '([{<':
            depth += 1
        elif c in ')]}':
            depth -= 1
        elif c == '>' and not (i > 0 and s[i - 1] in '-='):
            depth -= 1
        elif c == sep and depth == 0:
            out.append(s[cur:i].strip())
            cur = i + 1
        i += 1
    last = s[cur:].strip()
    if last or out:
        if last:
            out.append(last)
    return out


def match_close(s, i):
    """index of the bracket closing s[i]"""
    depth = 0
    n = len(s)
    k = i
    while k < n:
        j = skip_literal(s, k)
        if j != k:
            k = j
            continue
        c = s[k]
        if c in '([{<':
            depth += 1
        elif c in ')]}' or (c == '>' and not (k > 0 and s[k - 1] in '-=')):
            depth -= 1
            if depth == 0:
                return k
        k += 1
    raise ValueError('unbalanced: ' + s[i:i + 80])


def find_top(s, pat):
    """first index of substring pat at bracket depth 0"""
    depth = 0
    i = 0
    n = len(s)
    while i < n:
        if depth == 0 and s.startswith(pat, i):
            return i
        j = skip_literal(s, i)
        if j != i:
            i = j
            continue
        c = s[i]
        if c in '([{<':
            depth += 1
        elif c in ')]}' or (c == '>' and not (i > 0 and s[i - 1] in '-=')):
            depth -= 1
        i += 1
    return -1


def strip_generics(p):
    """remove ::<...> and <...> argument lists that directly follow an identifier"""
    out = []
    i = 0
    n = len(p)
    while i < n:
        if p[i] == '<' and i > 0 and (p[i - 1].isalnum() or p[i - 1] == '_' or p[i - 2:i] == '::') and not p.startswith('<impl', i):
            j = match_close(p, i)
            i = j + 1
            if out[-2:] == [':', ':']:
                out = out[:-2]
            continue
        out.append(p[i])
        i += 1
    return ''.join(out)


def last_seg(p):
    p = strip_generics(p.strip())
    return p.split('::')[-1]


def type_head(t):
    """outermost type constructor of a type string: 'Parser', '[]', 'str', 'dyn Fn', 'closure'..."""
    t = t.strip()
    while True:
        if t.startswith('&'):
            t = t[1:].strip()
            m = re.match(r"'[\w]+\s+", t)
            if m:
                t = t[m.end():]
            if t.startswith('mut '):
                t = t[4:].strip()
            continue
        if t.startswith('*const ') or t.startswith('*mut '):
            t = t.split(' ', 1)[1]
            continue
        break
    if t.startswith('['):
        return '[]'
    if t.startswith('('):
        return '()'
    if t.startswith('{closure@'):
        return t
    if t.startswith('dyn '):
        return 'dyn'
    if t.startswith('<'):
        return t
    if t.startswith('for<'):
        return 'fnptr'
    return last_seg(t)


# ---------------------------------------------------------------- IR parsing
class Fn:
    __slots__ = ('name', 'crate', 'args', 'ret', 'locals', 'blocks', 'kind', 'raw', '_parsed', 'debug', 'impl', 'selfty',
                 'trait', 'method', 'argtys', 'span', 'captures')

    def __init__(self, name, crate, kind):
        self.name, self.crate, self.kind = name, crate, kind
        self._parsed = False
        self.locals = {}
        self.blocks = {}
        self.debug = {}
        self.impl = None
        self.selfty = None
        self.trait = None
        self.method = None
        self.captures = {}

    def __repr__(self):
        return '<Fn %s>' % self.name

    def parse(self):
        if not self._parsed:
            parse_body(self)
            self._parsed = True
        return self


HDR = re.compile(r'^(fn|const|static|static mut) (.*)$')


def split_functions(text, crate):
    fns = []
    lines = text.split('\n')
    i, n = 0, len(lines)
    while i < n:
        l = lines[i]
        if l.startswith('fn ') and l.endswith('{'):
            sig = l[3:-1].strip()
            # name up to '(' at top level
            p = find_top(sig, '(')
            # names contain <impl at ...> which are balanced
            name = sig[:p]
            q = match_close(sig, p)
            args = split_top(sig[p + 1:q])
            rest = sig[q + 1:].strip()
            ret = rest[2:].strip() if rest.startswith('->') else '()'
            f = Fn(name, crate, 'fn')
            f.args = []
            f.argtys = []
            for a in args:
                an, _, at = a.partition(':')
                f.args.append(int(an.strip()[1:]))
                f.argtys.append(at.strip())
            f.ret = ret
            j = i + 1
            while lines[j] != '}':
                j += 1
            f.raw = lines[i + 1:j]
            fns.append(f)
            i = j + 1
            continue
        if (l.startswith('const ') or l.startswith('static ')) and l.endswith('{'):
            s = l.split(' ', 1)[1][:-1].strip()
            if s.startswith('mut '):
                s = s[4:]
            p = find_top_colon(s)
            f = Fn(s[:p].strip(), crate, 'const')
            f.args, f.argtys = [], []
            f.ret = s[p + 1:].strip().rstrip('=').strip()
            j = i + 1
            while lines[j] != '}':
                j += 1
            f.raw = lines[i + 1:j]
            fns.append(f)
            i = j + 1
            continue
        i += 1
    return fns


def find_top_colon(s):
    depth = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c in '([{<':
            depth += 1
        elif c in ')]}' or (c == '>' and s[i - 1] not in '-='):
            depth -= 1
        elif c == ':' and depth == 0:
            if s[i + 1:i + 2] == ':':
                i += 2
                continue
            return i
        i += 1
    return -1


def parse_body(f):
    cur = None
    buf = None
    for l in f.raw:
        s = l.strip()
        if not s:
            continue
        if cur is None or s.endswith(': {') or s.endswith('(cleanup): {'):
            m = re.match(r'^bb(\d+)(?: \(cleanup\))?: \{$', s)
            if m:
                cur = int(m.group(1))
                f.blocks[cur] = ([], None)
                stm = []
                continue
        if cur is None:
            m = re.match(r'^let (?:mut )?_(\d+): (.*);$', s)
            if m:
                f.locals[int(m.group(1))] = m.group(2)
                continue
            m = re.match(r'^debug (.*?) => (.*);$', s)
            if m:
                f.debug.setdefault(m.group(1), m.group(2))
                m2 = re.match(r'^\(\(?\*?_1\)?\.(\d+): .*\)$', m.group(2))
                if m2 is None:
                    m2 = re.match(r'^\(\*\(\(?\*?_1\)?\.(\d+): .*\)\)$', m.group(2))
                if m2:
                    f.captures[m.group(1)] = int(m2.group(1))
            continue
        if s == '}':
            f.blocks[cur] = (stm[:-1], stm[-1] if stm else ('unreachable',))
            cur = None
            continue
        s2 = s[:-1] if s.endswith(';') else s
        x = parse_stmt(s2)
        if x is not None:
            stm.append(x)
    for a, t in zip(f.args, f.argtys):
        f.locals[a] = t
    f.locals.setdefault(0, f.ret)


def parse_stmt(s):
    if s.startswith('StorageLive') or s.startswith('StorageDead') or s == 'nop' or s.startswith('FakeRead') or \
       s.startswith('PlaceMention') or s.startswith('AscribeUserType') or s.startswith('Retag') or s.startswith('ConstEvalCounter') or s.startswith('Coverage'):
        return None
    if s.startswith('goto -> '):
        return ('goto', int(s[10:]))
    if s == 'return':
        return ('return',)
    if s == 'unreachable':
        return ('unreachable',)
    if s.startswith('resume') or s.startswith('terminate') or s.startswith('abort'):
        return ('unwind',)
    if s.startswith('switchInt('):
        q = match_close(s, 9)
        op = parse_operand(s[10:q])
        m = re.search(r'\[(.*)\]$', s[q:])
        arms = []
        other = None
        for a in m.group(1).split(', '):
            k, _, b = a.partition(': ')
            if k == 'otherwise':
                other = int(b[2:])
            else:
                arms.append((int(k), int(b[2:])))
        return ('switch', op, arms, other)
    if s.startswith('drop('):
        q = match_close(s, 4)
        m = re.search(r'return: bb(\d+)', s[q:])
        if m is None:
            m = re.search(r'-> bb(\d+)', s[q:])
        return ('drop', parse_place(s[5:q]), int(m.group(1)))
    if s.startswith('assert('):
        q = match_close(s, 6)
        parts = split_top(s[7:q])
        c = parts[0]
        neg = c.startswith('!')
        if neg:
            c = c[1:]
        m = re.search(r'success: bb(\d+)', s[q:])
        return ('assert', parse_operand(c), not neg, parts[1], [parse_operand(x) for x in parts[2:] if x.startswith(('copy', 'move', 'const'))], int(m.group(1)))
    if s.startswith('discriminant(') and ' = ' in s:
        p, _, v = s.partition(' = ')
        return ('setdiscr', parse_place(p[13:-1]), int(re.sub(r'\D', '', v)))
    if s.startswith('falseEdge') or s.startswith('falseUnwind'):
        m = re.search(r'(?:real): bb(\d+)', s)
        return ('goto', int(m.group(1)))
    eq = find_assign(s)
    if eq < 0:
        return ('unknown', s)
    lhs, rhs = s[:eq].strip(), s[eq + 3:].strip()
    # call?
    ar = find_arrow(rhs)
    if ar >= 0:
        callee = rhs[:ar].strip()
        tgt = rhs[ar + 2:].strip()
        m = re.search(r'return: bb(\d+)', tgt)
        ret = int(m.group(1)) if m else None
        # callee: everything up to matching '(' of last ')'
        p = open_of_last(callee)
        fn = callee[:p].strip()
        args = [parse_operand(x) for x in split_top(callee[p + 1:-1])]
        return ('call', parse_place(lhs), fn, args, ret)
    return ('assign', parse_place(lhs), parse_rvalue(rhs))


def find_assign(s):
    return find_top(s, ' = ')


def find_arrow(s):
    """position of the ' -> ' that separates a call from its targets"""
    m = None
    for mm in re.finditer(r'\) -> (\[|unwind|bb)', s):
        m = mm
    if m is None:
        return -1
    return m.start() + 1 + 1 - 0 if False else m.start() + 2


def open_of_last(s):
    """s ends with ')': index of its matching '('"""
    assert s.endswith(')'), s
    # scan forward for top-level '(' groups; the last one is the argument list
    i = 0
    n = len(s)
    last = -1
    while i < n:
        j = skip_literal(s, i)
        if j != i:
            i = j
            continue
        c = s[i]
        if c in '([{<':
            q = match_close(s, i)
            if c == '(' and q == n - 1:
                return i
            i = q + 1
            continue
        i += 1
    raise ValueError(s)


@functools.lru_cache(maxsize=None)
def parse_place(s):
    """-> (local, (proj...)) with proj = ('deref',)|('f',n,ty)|('as',variant)|('idx',local)|('cidx',k,fromend)|('sub',a,b)"""
    s = s.strip()
    if re.match(r'^_\d+$', s):
        return (int(s[1:]), ())
    if s.endswith(']'):
        # indexing
        d = 0
        i = len(s) - 1
        while i >= 0:
            if s[i] == ']':
                d += 1
            elif s[i] == '[':
                d -= 1
                if d == 0:
                    break
            i -= 1
        base = parse_place(s[:i])
        inner = s[i + 1:-1]
        m = re.match(r'^_(\d+)$', inner)
        if m:
            return (base[0], base[1] + (('idx', int(m.group(1))),))
        m = re.match(r'^(-?)(\d+) of (\d+)$', inner)
        if m:
            return (base[0], base[1] + (('cidx', int(m.group(2)), m.group(1) == '-'),))
        m = re.match(r'^(\d+):(-?)(\d*)$', inner)
        if m:
            return (base[0], base[1] + (('sub', int(m.group(1)), int(m.group(3) or 0), True),))
        raise ValueError('place ' + s)
    if s.startswith('(') and match_close(s, 0) == len(s) - 1:
        inner = s[1:-1].strip()
        if inner.startswith('*'):
            b = parse_place(inner[1:])
            return (b[0], b[1] + (('deref',),))
        # (P as Variant)  or (P.N: TYPE)
        k = find_top(inner, ' as ')
        c = find_top_colon(inner)
        if k >= 0 and (c < 0 or k < c):
            b = parse_place(inner[:k])
            return (b[0], b[1] + (('as', inner[k + 4:].strip()),))
        if c >= 0:
            head = inner[:c]
            ty = inner[c + 1:].strip()
            # last '.' at top level
            d = head.rfind('.')
            b = parse_place(head[:d])
            return (b[0], b[1] + (('f', int(head[d + 1:]), ty),))
        return parse_place(inner)
    if s.startswith('*'):
        b = parse_place(s[1:])
        return (b[0], b[1] + (('deref',),))
    raise ValueError('place? ' + s)


@functools.lru_cache(maxsize=None)
def parse_operand(s):
    s = s.strip()
    if s.startswith('copy '):
        return ('copy', parse_place(s[5:]))
    if s.startswith('move '):
        return ('move', parse_place(s[5:]))
    if s.startswith('const '):
        return ('const', s[6:])
    if re.match(r'^\(?\*?\(*_\d', s):
        return ('copy', parse_place(s))
    return ('const', s)


BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitXor', 'BitAnd', 'BitOr', 'Shl', 'Shr', 'Eq', 'Lt', 'Le', 'Ne', 'Ge', 'Gt',
          'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'Offset', 'Cmp', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked', 'ShlUnchecked', 'ShrUnchecked'}


@functools.lru_cache(maxsize=None)
def parse_rvalue(s):
    if s.startswith('&raw const (fake) '):     # only the length is read through it
        return ('ref', parse_place(s[18:]))
    if s.startswith('&raw const ') or s.startswith('&raw mut '):
        t = s.split(' ', 2)[2].strip()
        if t.startswith('(fake) '):
            t = t[7:]
        return ('rawref', parse_place(t))
    if s.startswith('&mut '):
        return ('mutref', parse_place(s[5:]))
    if s.startswith('&'):
        t = s[1:].strip()
        if t.startswith('fake'):
            return ('use', ('const', '()'))
        return ('ref', parse_place(t))
    if s.startswith(('copy ', 'move ', 'const ')):
        m = re.search(r' as (.*) \(([A-Za-z]+(?:\(.*\))?(?:, [A-Za-z]+)?)\)$', s)
        if m and not s.startswith('const "'):
            k = find_top(s, ' as ')
            if k > 0:
                body = s[k + 4:]
                mm = re.match(r'^(.*) \(([A-Za-z]+(?:\(.*\))?(?:, [A-Za-z]+)?)\)$', body)
                return ('cast', parse_operand(s[:k]), mm.group(1), mm.group(2))
        return ('use', parse_operand(s))
    m = re.search(r' \((PointerCoercion\(ReifyFnPointer\(.*)\)$', s)
    if m and find_top(s, ' as ') > 0:       # a function item as a function pointer
        k = find_top(s, ' as ')
        return ('cast', parse_operand(s[:k]), s[k + 4:m.start()], m.group(1))
    m = re.match(r'^([A-Z]\w*)\(', s)
    if m and match_close(s, m.end() - 1) == len(s) - 1:
        nm = m.group(1)
        inner = s[m.end():-1]
        if nm in BINOPS:
            a, b = split_top(inner)
            return ('bin', nm, parse_operand(a), parse_operand(b))
        if nm in ('Not', 'Neg'):
            return ('un', nm, parse_operand(inner))
        if nm == 'PtrMetadata':
            return ('len', parse_operand(inner))
        if nm == 'Len':
            return ('lenp', parse_place(inner))
        if nm in ('ShallowInitBox',):
            return ('use', parse_operand(split_top(inner)[0]))
        if nm in ('SizeOf', 'AlignOf', 'UbChecks', 'OffsetOf'):
            return ('opaque', s)
    if s.startswith('discriminant('):
        return ('discr', parse_place(s[13:-1]))
    if s.startswith('deref_copy '):
        return ('use', ('copy', parse_place(s[11:])))
    if s.startswith('['):
        inner = s[1:-1]
        k = find_top(inner, '; ')
        if k >= 0:
            return ('repeat', parse_operand(inner[:k]), inner[k + 2:])
        return ('array', tuple(parse_operand(x) for x in split_top(inner)))
    if s.startswith('('):
        return ('tuple', tuple(parse_operand(x) for x in split_top(s[1:-1])))
    if s.startswith('{closure@'):
        q = match_close(s, 0)
        cid = s[:q + 1]
        rest = s[q + 1:].strip()
        caps = []
        if rest.startswith('{'):
            for x in split_top(rest[1:-1]):
                nme, _, op = x.partition(': ')
                caps.append((nme.strip(), parse_operand(op)))
        return ('closure', cid, tuple(caps))
    # ADT aggregate
    k = find_top(s, ' { ')
    if k >= 0 and s.endswith('}'):
        path = s[:k]
        fields = []
        for x in split_top(s[k + 3:-1]):
            c = find_top_colon(x)
            fields.append((x[:c].strip(), parse_operand(x[c + 1:].strip())))
        return ('adt', path, tuple(fields), 'named')
    if s.endswith(')'):
        p = open_of_last(s)
        return ('adt', s[:p], tuple((str(i), parse_operand(x)) for i, x in enumerate(split_top(s[p + 1:-1]))), 'tuple')
    if re.match(r'^[\w<:]', s):
        return ('adt', s, (), 'unit')
    return ('opaque', s)


# ---------------------------------------------------------------- crate database
class Crate:
    """All functions of one crate, indexed, plus source-level tables (enums, struct fields, impl headers)."""

    def __init__(self, key, text, srcroot):
        self.key = key
        self.text = text
        self.fns = split_functions(text, key)
        self.srcroot = srcroot
        self.by_name = {}
        for f in self.fns:
            self.by_name.setdefault(f.name, []).append(f)


IMPL_AT = re.compile(r'<impl at ([^:>]+):(\d+):(\d+): (\d+):(\d+)>')
_src = {}


def src_lines(path):
    if path not in _src:
        p = path if os.path.isabs(path) else os.path.join(REPO, path)
        try:
            _src[path] = open(p, encoding='utf-8').read().split('\n')
        except OSError:
            _src[path] = []
    return _src[path]


def span_text(path, l1, c1, l2, c2):
    L = src_lines(path)
    if l1 > len(L) or l2 > len(L):
        return ''
    if l1 == l2:
        return L[l1 - 1][c1 - 1:c2 - 1]
    return '\n'.join([L[l1 - 1][c1 - 1:]] + L[l1:l2 - 1] + [L[l2 - 1][:c2 - 1]])


def impl_info(name):
    """(trait or None, self type text) of the impl a MIR function name mentions"""
    m = IMPL_AT.search(name)
    if not m:
        return None
    path, l1, c1, l2, c2 = m.group(1), int(m.group(2)), int(m.group(3)), int(m.group(4)), int(m.group(5))
    t = span_text(path, l1, c1, l2, c2)
    t = re.sub(r'//[^\n]*', '', t)
    t = ' '.join(t.split())
    if t.startswith('impl') or t.startswith('unsafe impl'):
        t = t[t.index('impl') + 4:].strip()
        if t.startswith('<'):
            q = match_close(t, 0)
            t = t[q + 1:].strip()
        w = find_top(t, ' where')
        if w >= 0:
            t = t[:w]
        k = find_top(t, ' for ')
        if k >= 0:
            return (last_seg(t[:k]), t[k + 5:].strip())
        return (None, t)
    # derive: t is the trait token; find the next struct/enum
    L = src_lines(path)
    for i in range(l1 - 1, min(l1 + 40, len(L))):
        mm = re.match(r'\s*(?:pub(?:\([^)]*\))?\s+)?(?:struct|enum|union)\s+(\w+)', L[i])
        if mm:
            return (t.split('::')[-1], mm.group(1))
    return (None, None)


def scan_types(dirs):
    """enum -> [variant names (in order)], struct/variant -> [field names]"""
    enums, fields = {}, {}
    for d in dirs:
        for root, ds, fs in os.walk(os.path.join(REPO, d) if not os.path.isabs(d) else d):
            if 'target' in ds:
                ds.remove('target')
            for f in fs:
                if f.endswith('.rs'):
                    scan_file(open(os.path.join(root, f), encoding='utf-8').read(), enums, fields)
    return enums, fields


def strip_comments(t):
    out = []
    i = 0
    n = len(t)
    while i < n:
        if t.startswith('//', i):
            j = t.find('\n', i)
            i = n if j < 0 else j
            continue
        if t.startswith('/*', i):
            j = t.find('*/', i)
            i = n if j < 0 else j + 2
            continue
        j = skip_literal(t, i)
        if j != i:
            out.append(t[i:j])
            i = j
            continue
        out.append(t[i])
        i += 1
    return ''.join(out)


def scan_file(t, enums, fields):
    t = strip_comments(t)
    t = re.sub(r'#!?\[[^\]]*\]', '', t)
    for m in re.finditer(r'\b(enum|struct)\s+(\w+)', t):
        kind, name = m.group(1), m.group(2)
        i = m.end()
        try:
            while t[i].isspace():
                i += 1
            if t[i] == '<':
                i = match_close(t, i) + 1
            while t[i] not in '{(;':
                i += 1
        except (IndexError, ValueError):
            continue
        if t[i] == ';':
            fields[name] = []
            continue
        try:
            j = match_close(t, i)
        except ValueError:
            continue
        body = t[i + 1:j]
        if kind == 'struct':
            if t[i] == '(':
                fields[name] = [str(k) for k in range(len(split_top(body)))]
            else:
                fields[name] = [re.sub(r'^pub(\([^)]*\))?\s+', '', x.strip()).split(':')[0].strip() for x in split_top(body)]
        else:
            vs = []
            for x in split_top(body):
                mm = re.match(r'(\w+)', x.strip())
                if not mm:
                    continue
                v = mm.group(1)
                vs.append(v)
                rest = x.strip()[mm.end():].strip()
                if rest.startswith('{'):
                    fields[name + '::' + v] = [y.split(':')[0].strip() for y in split_top(rest[1:-1])]
                elif rest.startswith('('):
                    fields[name + '::' + v] = [str(k) for k in range(len(split_top(rest[1:-1])))]
                else:
                    fields[name + '::' + v] = []
            enums[name] = vs


STD_ENUMS = {
    'Option': ['None', 'Some'], 'Result': ['Ok', 'Err'], 'ControlFlow': ['Continue', 'Break'],
    'Ordering': None, 'Cow': ['Borrowed', 'Owned'], 'Entry': ['Occupied', 'Vacant'],
    'ErrorKind': 'NotFound PermissionDenied ConnectionRefused ConnectionReset HostUnreachable NetworkUnreachable ConnectionAborted NotConnected AddrInUse AddrNotAvailable NetworkDown BrokenPipe AlreadyExists WouldBlock NotADirectory IsADirectory DirectoryNotEmpty ReadOnlyFilesystem FilesystemLoop StaleNetworkFileHandle InvalidInput InvalidData TimedOut WriteZero StorageFull NotSeekable QuotaExceeded FileTooLarge ResourceBusy ExecutableFileBusy Deadlock CrossesDevices TooManyLinks InvalidFilename ArgumentListTooLong Interrupted Unsupported UnexpectedEof OutOfMemory InProgress TooManyOpenFiles InputOutputError Other Uncategorized'.split(),
    'LimitValue': ['Limit', 'Limitless'], 'LocalResult': ['Single', 'Ambiguous', 'None'],
}
STD_FIELDS = {
    'Range': ['start', 'end'], 'RangeInclusive': ['start', 'end', 'exhausted'], 'RangeFrom': ['start'], 'RangeTo': ['end'],
    'RangeToInclusive': ['end'], 'RangeFull': [],
}


class Program:
    def __init__(self, keys, with_models=True):
        self.crates = {}
        self.hashes = {}
        self.fns = []
        ks = list(keys) + (['models'] if with_models else [])
        for k in ks:
            text, h = mir_text(k)
            self.hashes[k] = h
            self.crates[k] = Crate(k, text, None)
            self.fns += self.crates[k].fns
        dirs = [CRATES[k][2] + '/src' for k in keys] + ([os.path.join(VERIF, 'models')] if with_models else [])
        self.enums, self.fields = scan_types(dirs)
        for k, v in STD_ENUMS.items():
            if v and k not in self.enums:
                self.enums[k] = v
        for k, v in STD_FIELDS.items():
            self.fields.setdefault(k, v)
        self.methods = {}    # method -> [Fn]
        self.free = {}       # last segment -> [Fn]
        self.closures = {}   # closure type id -> Fn
        self.consts = {}
        self.statics = {}    # (crate, allocation id) -> name of the static item
        for k in ks:
            for m in re.finditer(r'^(alloc\d+) \(static: ([^,)]+)', self.crates[k].text, re.M):
                self.statics[(k, m.group(1))] = m.group(2).strip()
        self.litconsts = {}
        for k in self.crates:
            for m in re.finditer(r'^(?:const|static) ([\w:]+): [^=\n]+ = const (.*);$', self.crates[k].text, re.M):
                self.litconsts.setdefault(m.group(1).rsplit('::', 1)[-1], []).append((k, m.group(1), m.group(2)))
        for f in self.fns:
            nm = f.name
            if '{closure#' in nm.rsplit('::', 1)[-1]:
                pass
            if nm.rsplit('::', 1)[-1].startswith('{closure#') and f.argtys:
                m = re.search(r'\{closure@[^}]*\}', f.argtys[0])
                if m:
                    self.closures.setdefault(m.group(0), f)
                continue
            if f.kind == 'const':
                self.consts[f.name] = f
                continue
            last = nm.rsplit('::', 1)[-1]
            info = impl_info(nm)
            f.method = last
            if info is not None:
                f.trait, f.selfty = info
                self.methods.setdefault(last, []).append(f)
            else:
                self.free.setdefault(last, []).append(f)


if __name__ == '__main__':
    import time
    t = time.time()
    P = Program(sys.argv[1:], with_models=False)
    unk = 0
    for f in P.fns:
        try:
            f.parse()
        except Exception as e:
            print('FAIL', f.name, repr(e)[:200])
            continue
        for b, (st, term) in f.blocks.items():
            for x in st + [term]:
                if x[0] == 'unknown' or (x[0] == 'assign' and x[2][0] == 'opaque'):
                    unk += 1
                    print('UNK', x)
    print(len(P.fns), 'fns', len(P.closures), 'closures', 'unknown', unk, '%.1fs' % (time.time() - t))
