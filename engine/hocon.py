"""Configuration library: values of literals, durations, substitution and merging, loading, typed access, layout (H01-H05, H07, H08)."""
import itertools
import re
import struct
from terms import *
import mir as M
import interp as IN
import grammar as GR
import lang as LG
import peval as PE
import spec as SP
import core_checks as K
import apps
import values as V
from values import E, num, Cmp, concrete
from interp import Some, OPTION_NONE as NONE, Ok, Err

ERRS = apps.ERRS
LIM = dict(LG.LIM)
INTS = {'i8': (-2**7, 2**7 - 1), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1), 'i128': (-2**127, 2**127 - 1), 'isize': (-2**63, 2**63 - 1),
        'u8': (0, 2**8 - 1), 'u16': (0, 2**16 - 1), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'u128': (0, 2**128 - 1), 'usize': (0, 2**64 - 1)}
DEC_MAX = 2**96 - 1
SEC = 10**9
STD_UNITS = {'secs': SEC, 'millis': 10**6, 'micros': 10**3, 'nanos': 1, 'mins': 60 * SEC, 'hours': 3600 * SEC, 'days': 86400 * SEC, 'weeks': 7 * 86400 * SEC}
CH_UNITS = {'seconds': SEC, 'milliseconds': 10**6, 'microseconds': 10**3, 'nanoseconds': 1, 'minutes': 60 * SEC, 'hours': 3600 * SEC, 'days': 86400 * SEC, 'weeks': 7 * 86400 * SEC}


def divides(t, k):
    """t / k when every coefficient is a multiple of k"""
    c, d = lin_parts(t)
    if c % k or any(x % k for x in d.values()):
        return None
    r = I(c // k)
    for a, x in d.items():
        r = add(r, mulk(a, x // k))
    return r


class HPV(PE.PV):
    """decimals, durations, environment and files for the configuration library"""

    def __init__(self, P, crate='hocon', files=None):
        super().__init__(P, LG.BYTE, crate)
        self.it.rec_limit = 14
        self.it.max_depth = 400
        self.files = files or {}
        self.opened = []

    # ------------------------------------------------------------ arithmetic
    def fdiv(self, st, n, k):
        """floor(n / k) for a positive constant k"""
        n = st.norm(n)
        if n[0] == 'int':
            return I(n[1] // k)
        q = divides(n, k)
        if q is not None:
            return q
        c, d = lin_parts(n)
        if all(x % k == 0 for x in d.values()):
            return add(divides(sub(n, I(c % k)), k), I(0))
        q = ('app', 'fdiv', n, I(k))
        fs = [sub(n, mulk(q, k)), add(add(mulk(q, k), I(k - 1)), mulk(n, -1))]
        if st.proves(n):
            fs.append(q)
            fs.append(sub(n, q))
        for f in fs:
            if not st.proves(f):
                st.ge = st.ge + (f,)
        return q

    def within_t(self, st, v, lo, hi):
        """-> [(state, lo <= v <= hi)]"""
        return self.it.branch(st, IN.mk_and(IN.mk_ge0(sub(v, I(lo))), IN.mk_ge0(sub(I(hi), v))))

    def dec(self, st, v):
        if v[0] == 'mref':
            v = self.it.read(st, v[1], v[2])
        v = st.norm(v)
        return v if v[0] == 'app' and v[1] == 'dec' and v[3][0] == 'int' else None

    def trunc(self, st, d):
        """integer part, towards zero; None when the sign is not known"""
        m, e = d[2], d[3][1]
        if e >= 0:
            return mulk(m, 10**e)
        k = 10**-e
        if m[0] == 'int':
            return I(abs(m[1]) // k * (1 if m[1] >= 0 else -1))
        q = divides(m, k)
        if q is not None:
            return q
        if st.proves(m):
            return self.fdiv(st, m, k)
        if st.proves(mulk(m, -1)):
            return mulk(self.fdiv(st, mulk(m, -1), k), -1)
        return None

    def dec_of(self, st, es, exponent):
        """a decimal literal as rust_decimal reads it: exponent required, forbidden (from_str, from_str_radix)"""
        q = self.decimal(st, es)
        if q is None:
            return None
        has = any(e in (I(101), I(69)) for e in es)
        if q[3][0] != 'int' or has != exponent:
            return IN.Err(('sym', 'decimal_error')) if has != exponent else None
        if q[3][1] > 28:
            return IN.Err(('sym', 'decimal_error'))
        if q[3][1] > 0:
            q = ('app', 'dec', mulk(q[2], 10**q[3][1]), I(0))
        if q[3][1] < -28:
            return IN.Err(('sym', 'decimal_error')) if has else None
        if q[3][1] >= 0 and (st.proves(sub(q[2], I(DEC_MAX + 1))) or st.proves(sub(I(-DEC_MAX - 1), q[2]))):
            return IN.Err(('sym', 'decimal_error'))
        if not (st.proves(sub(I(DEC_MAX), q[2])) and st.proves(add(I(DEC_MAX), q[2]))):
            return None if q[2][0] != 'int' else IN.Err(('sym', 'decimal_error'))
        return Ok(q)

    def hook(self, it, st, fr, c, args):
        m = c['method'] or c['key'].split('::')[-1]
        full = c['full']
        selfty = M.type_head(c.get('self') or '')
        if args:
            a0 = args[0]
            if a0[0] == 'mref':
                a0 = it.read(st, a0[1], a0[2])
            if a0 == ('sym', 'parse_error') and m in ('to_string', 'input_string', 'input', 'clone', 'offset', 'fmt', 'name', 'message'):
                if m == 'clone':
                    return [(st, a0)]
                if m != 'fmt':
                    return [(st, ('sym', 'txt:parse_error'))]
        r = self.decimal_call(it, st, c, m, full, selfty, args)
        if r is not None:
            return r
        r = self.duration_call(it, st, c, m, full, args)
        if r is not None:
            return r
        if c['key'] in ('var', 'env::var') or re.search(r'\benv::var(?:_os)?(?:::<.*>)?$', full):
            es = self.flat(st, args[0])
            if es is not None and all(e[0] == 'int' for e in es):
                nm = ''.join(chr(e[1]) for e in es)
                return [(s, Ok(('sym', 'txt:env:' + nm)) if b else Err(('sym', 'VarError'))) for s, b in it.branch(st, env_set(nm))]
        r = self.file_call(it, st, c, m, full, args)
        if r is not None:
            return r
        return super().hook(it, st, fr, c, args)

    def decimal_call(self, it, st, c, m, full, selfty, args):
        if m == 'from' and args and args[0][0] == 'app' and args[0][1] == 'float':
            return [(st, args[0])]
        isdec = 'Decimal' in full.split('(')[0]
        if not isdec:
            return None
        if m in ('from_str_radix', 'from_scientific', 'from_str', 'from_str_exact') and args:
            if m == 'from_str_radix' and args[1] != I(10):
                return None
            es = self.flat(st, args[0])
            r = None if es is None else self.dec_of(st, es, m == 'from_scientific')
            return None if r is None else [(st, r)]
        if m == 'parse' and args:
            es = self.flat(st, args[0])
            r = None if es is None else self.dec_of(st, es, False)
            return None if r is None else [(st, r)]
        if m == 'from' and selfty == 'Decimal' and args and V.numeric(args[0]):
            return [(st, ('app', 'dec', args[0], I(0)))]
        if m == 'new' and len(args) == 2 and args[1][0] == 'int':
            return [(st, ('app', 'dec', args[0], I(-args[1][1])))]
        d = self.dec(st, args[0]) if args else None
        if d is None:
            return None
        if m == 'clone' or m == 'normalize':
            return [(st, d)]
        if m in ('checked_mul', 'mul', 'checked_add', 'add', 'checked_sub', 'sub') and len(args) == 2:
            e = self.dec(st, args[1])
            if e is None:
                return None
            if m.endswith('mul'):
                if d[2][0] == 'int':
                    v = mulk(e[2], d[2][1])
                elif e[2][0] == 'int':
                    v = mulk(d[2], e[2][1])
                else:
                    return None
                r = ('app', 'dec', v, I(d[3][1] + e[3][1]))
            else:
                x, y, s = scale(d, e)
                r = ('app', 'dec', add(x, y) if m.endswith('add') else sub(x, y), I(s))
            if not (st.proves(sub(I(DEC_MAX), r[2])) and st.proves(add(I(DEC_MAX), r[2]))):
                return None
            return [(st, Some(r) if m.startswith('checked') else r)]
        w = re.match(r'to_([iu](?:8|16|32|64|128|size))$', m)
        if w:
            t = self.trunc(st, d)
            if t is None:
                return None
            return [(s, Some(t) if b else NONE) for s, b in self.within_t(st, t, *INTS[w.group(1)])]
        if m in ('to_f64', 'to_f32'):
            return [(st, Some(('app', 'float', ('str', m[3:]), d)))]
        if m == 'trunc' or m == 'floor' and st.proves(d[2]):
            t = self.trunc(st, d)
            return None if t is None else [(st, ('app', 'dec', t, I(0)))]
        if m == 'is_sign_negative' and d[2][0] == 'int':
            return [(st, ('bool', d[2][1] < 0))]
        if m == 'is_zero':
            return [(s, ('bool', b)) for s, b in it.branch(st, IN.mk_eq0(d[2]))]
        return None

    def dur(self, st, v):
        if v[0] == 'mref':
            v = self.it.read(st, v[1], v[2])
        v = st.norm(v)
        return v if v[0] == 'app' and v[1] in ('stddur', 'chdur') else None

    def duration_call(self, it, st, c, m, full, args):
        head = full.split('(')[0]
        ch = 'TimeDelta' in head or 'chrono::Duration' in head
        std = not ch and re.search(r'(?<!Config)\bDuration\b', head) is not None
        if args and m in ('div_euclid', 'rem_euclid') and args[1][0] == 'int' and args[1][1] > 0:
            q = self.fdiv(st, args[0], args[1][1])
            return [(st, q if m == 'div_euclid' else st.norm(sub(args[0], mulk(q, args[1][1]))))]
        if not (ch or std):
            return None
        if m == 'new' and len(args) == 2:
            s0, n0 = args
            t = add(mulk(s0, SEC), n0)
            if std:
                return [(st, ('app', 'stddur', t))]
            out = []
            for s, b in self.within_t(st, n0, 0, SEC - 1):
                if not b:
                    out.append((s, NONE))
                    continue
                for s2, b2 in self.within_t(s, s0, -(2**63 // 1000), 2**63 // 1000 - 1):
                    out.append((s2, Some(('app', 'chdur', t)) if b2 else NONE))
            return out
        w = re.match(r'from_(\w+)$', m)
        if std and w and w.group(1) in STD_UNITS and len(args) == 1:
            return [(st, ('app', 'stddur', mulk(args[0], STD_UNITS[w.group(1)])))]
        w = re.match(r'(try_)?(\w+)$', m)
        if ch and w.group(2) in CH_UNITS and len(args) == 1 and V.numeric(args[0]):
            k = CH_UNITS[w.group(2)]
            out = []
            hi = (2**63 - 1) * 10**6 // k if k >= 10**6 else 2**63 - 1
            for s, b in self.within_t(st, args[0], -hi, hi):
                v = ('app', 'chdur', mulk(args[0], k))
                if w.group(1):
                    out.append((s, Some(v) if b else NONE))
                elif b:
                    out.append((s, v))
                else:
                    it.panic(s, 'duration', self.cur_fn(), 'TimeDelta::%s out of bounds' % m)
            return out
        d = self.dur(st, args[0]) if args else None
        if d is None:
            return None
        n = d[2]
        if m == 'clone':
            return [(st, d)]
        if d[1] == 'stddur':
            w = re.match(r'as_(secs|millis|micros|nanos)$', m)
            if w:
                return [(st, self.fdiv(st, n, STD_UNITS[w.group(1)]))]
            w = re.match(r'subsec_(millis|micros|nanos)$', m)
            if w:
                r = sub(n, mulk(self.fdiv(st, n, SEC), SEC))
                return [(st, st.norm(self.fdiv(st, r, STD_UNITS[w.group(1)])))]
        else:
            w = re.match(r'num_(\w+)$', m)
            if w and w.group(1) in CH_UNITS:
                k = CH_UNITS[w.group(1)]
                if st.proves(n):
                    q = self.fdiv(st, n, k)
                elif st.proves(mulk(n, -1)):
                    q = mulk(self.fdiv(st, mulk(n, -1), k), -1)
                else:
                    return None
                return [(st, Some(q) if k < 10**6 else q)]
            if m == 'subsec_nanos':
                if st.proves(n):
                    return [(st, st.norm(sub(n, mulk(self.fdiv(st, n, SEC), SEC))))]
                if st.proves(mulk(n, -1)):
                    p = mulk(n, -1)
                    return [(st, st.norm(mulk(sub(p, mulk(self.fdiv(st, p, SEC), SEC)), -1)))]
            if m == 'to_std':
                return [(s, Ok(('app', 'stddur', n)) if b else Err(('sym', 'OutOfRange'))) for s, b in it.branch(st, IN.mk_ge0(n))]
        if m == 'from_std' and d[1] == 'stddur':
            return [(st, Ok(('app', 'chdur', n)))]
        return None

    def cur_fn(self):
        return getattr(self, 'cur', None)

    def file_call(self, it, st, c, m, full, args):
        """the file system: a name leads to a file or not, a file can be read or not"""
        head = full.split('(')[0]
        gone, bad = Err(('sym', 'io_error:NotFound')), Err(('sym', 'io_error:InvalidData'))
        if m in ('open', 'read_to_string', 'read') and len(args) == 1 and re.search(r'\b(File::open|fs::read_to_string|fs::read|File::<.*>::open)\b', head) or m == 'open' and 'File' in head:
            es = self.flat(st, args[-1])
            if es is None or any(e[0] != 'int' for e in es):
                return None
            nm = ''.join(chr(e[1]) for e in es)
            out = []
            for s, b in it.branch(st, file_fact('exists', nm)):
                if not b:
                    out.append((s, gone))
                elif m == 'open':
                    out.append((s, Ok(('app', 'file', ('str', nm)))))
                else:
                    out += [(s2, Ok(self.mktext(self.files.get(nm, []))) if r else bad) for s2, r in it.branch(s, file_fact('readable', nm))]
            return out
        if args and m in ('new', 'with_capacity') and 'BufReader' in head:
            return [(st, args[-1])]
        f = args[0] if args else None
        while f is not None and f[0] == 'mref':
            f = it.read(st, f[1], f[2])
        if f is not None and f[0] == 'app' and f[1] == 'file' and len(f) == 3:
            if m in ('read_to_string', 'read_to_end') and len(args) == 2 and args[1][0] == 'mref':
                out = []
                for s, b in it.branch(st, file_fact('readable', f[2][1])):
                    if not b:
                        out.append((s, bad))
                        continue
                    r = args[1]
                    old = it.read(s, r[1], r[2])
                    while old[0] == 'mref':
                        r, old = old, it.read(s, old[1], old[2])
                    had = self.flat(s, old)
                    if had is None:
                        return None
                    es = self.files.get(f[2][1], [])
                    it.write(s, r[1], r[2], self.mktext(list(had) + list(es)))
                    out.append((s, Ok(I(len(es)))))
                return out
            if m in ('by_ref',):
                return [(st, args[0])]
        if f is not None and f[0] == 'sym' and f[1].startswith('io_error:') and m in ('kind', 'to_string'):
            k = f[1][9:]
            return [(st, ('sym', 'txt:io_error') if m == 'to_string' else ('adt', 'ErrorKind', M.STD_ENUMS['ErrorKind'].index(k), k, ()))]
        return None


def file_fact(kind, nm):
    return ('app', 'file_' + kind, ('str', nm))


def env_set(nm):
    return ('app', 'env_set', ('str', nm))


def scale(a, b):
    """mantissas of two decimals at one scale"""
    s = min(a[3][1], b[3][1])
    return mulk(a[2], 10**(a[3][1] - s)), mulk(b[2], 10**(b[3][1] - s)), s


def dec(m, e=0):
    return ('app', 'dec', m if isinstance(m, tuple) else I(m), I(e))


# ------------------------------------------------------------------ expected configuration values
def variant(P, name, *payload):
    return ('adt', 'ConfigValue', P.enums['ConfigValue'].index(name), name, tuple(payload))


class HCmp(Cmp):
    """comparison that knows decimals by value"""

    def eq1(self, got, want):
        if got[0] == want[0] == 'app' and got[1] == want[1] == 'dec':
            if got[3][0] == want[3][0] == 'int':
                x, y, _ = scale(got, want)
                r = super().eq1(x, y)
                return r if r is True or r is None else (False, r[1], got, want)
        if got[0] == want[0] == 'app' and got[1] == want[1] == 'float' and got[2] != want[2]:
            # widened from or narrowed to single precision: a number whose two readings differ
            d = want[3]
            if got[3] == d and d[0] == 'app' and d[3][0] == 'int':
                for env in self.envs():
                    m = V.value_of(d[2], env)
                    if m is not None and struct.unpack('f', struct.pack('f', m * 10.0 ** d[3][1]))[0] != m * 10.0 ** d[3][1]:
                        return (False, env, got, want)
            return None
        return super().eq1(got, want)


def cv(P, w):
    """expected ConfigValue of a description"""
    k = w[0]
    if k == 'null':
        return variant(P, 'Null')
    if k == 'bool':
        return variant(P, 'Bool', ('bool', w[1]))
    if k == 'num':
        return variant(P, 'Number', ('adt', 'ConfigNumberValue', 0, None, (w[1],)))
    if k == 'dur':
        u = P.enums['TimeUnit']
        unit = ('adt', 'TimeUnit', u.index(w[2]), w[2], ())
        n = ('adt', 'ConfigNumberValue', 0, None, (w[1],))
        names = P.fields['ConfigDurationValue::ConfigDurationValue'] if 'ConfigDurationValue::ConfigDurationValue' in P.fields else P.fields['ConfigDurationValue']
        return variant(P, 'Duration', ('adt', 'ConfigDurationValue', 0, None, tuple({'value': n, 'unit': unit}[x] for x in names)))
    if k == 'str':
        return variant(P, 'String', w[1])
    if k == 'arr':
        return variant(P, 'Array', ('adt', 'ConfigArrayValue', 0, None, (('seq', tuple(('e', cv(P, x)) for x in w[1])),)))
    raise GR.NotGrammar('expected value ' + repr(w)[:60])


class HSuite(V.Suite):
    accepts = True

    def __init__(self, P, res, prop, files=None):
        self.P, self.res, self.prop = P, res, prop
        self.crate, self.top = 'hocon', LG.BYTE
        self.fn = apps.entry_fn(P, 'hocon', 'ConfigFactory', 'parse_from_string')
        self.pv = HPV(P, files=files)
        self.jobs = []
        self.ntempl = 0
        self.cmp = HCmp

    def enter(self, *parts):
        st = self.pv.template(*parts)
        text = self.pv.mktext(self.pv.elems)
        return [(s, s.norm(v)) for s, v in self.pv.it.exec_fn(st, self.fn, [('sym', 'factory'), text], None)]

    def get(self, st, config, path, has=False):
        """[(state, Option value)] of Config::get_value"""
        f = self.method('Config', 'has_path' if has else 'get_value')
        return [(s, s.norm(r)) for s, r in self.pv.it.exec_fn(st.copy(), f, [config, ('str', path)], None)]

    def load(self, st, v):
        while v[0] == 'mref':
            v = self.pv.it.read(st, v[1], v[2])
        return st.norm(v)


# ------------------------------------------------------------------ H04: numbers and durations as written
UNITS = {
    'Nanoseconds': ['ns', 'nano', 'nanos', 'nanosecond', 'nanoseconds'],
    'Microseconds': ['us', 'micro', 'micros', 'microsecond', 'microseconds'],
    'Milliseconds': ['ms', 'milli', 'millis', 'millisecond', 'milliseconds'],
    'Seconds': ['s', 'second', 'seconds'],
    'Minutes': ['m', 'minute', 'minutes'],
    'Hours': ['h', 'hour', 'hours'],
    'Days': ['d', 'day', 'days'],
}
FACTOR = {'Nanoseconds': 1, 'Microseconds': 10**3, 'Milliseconds': 10**6, 'Seconds': SEC, 'Minutes': 60 * SEC, 'Hours': 3600 * SEC, 'Days': 86400 * SEC}


def numbers(tier):
    """(label, template pieces, decimal value)"""
    ints = [('0', ['0'], I(0)), ('d', [('i1', '1', '9')], num('i1')), ('dd', [('i1', '1', '9'), ('i2', '0', '9')], num('i1', 'i2')),
            ('ddddd', [('i1', '1', '9')] + [('i%d' % k, '0', '9') for k in range(2, 6)], num('i1', 'i2', 'i3', 'i4', 'i5'))]
    fracs = [('', [], I(0), 0), ('.d', ['.', ('f1', '0', '9')], num('f1'), 1), ('.ddd', ['.', ('f1', '0', '9'), ('f2', '0', '9'), ('f3', '0', '9')], num('f1', 'f2', 'f3'), 3)]
    exps = [('', 0), ('e0', 0), ('e1', 1), ('E2', 2), ('e+3', 3), ('E+04', 4), ('e-1', -1), ('E-2', -2), ('e12', 12)]
    for (li, pi, vi), (lf, pf, vf, nf), (le, ve), sg in itertools.product(ints, fracs, exps, ('', '-')):
        if tier == 'quick' and sg == '-' and le not in ('', 'e1', 'e-1'):
            continue
        m = add(mulk(vi, 10**nf), vf)
        if sg:
            m = mulk(m, -1)
        parts = ([sg] if sg else []) + pi + pf + ([le] if le else [])
        yield sg + li + lf + le, parts, dec(m, ve - nf)


CONTEXTS = [('plain', 'a=', '', ('a',)), ('spaces', ' a = ', ' \n', ('a',)), ('colon', 'a:', '\n', ('a',)), ('comment', '# x\na = ', ' # y\n', ('a',)), ('object', 'o { a = ', ' }', ('o', 'a')),
            ('dotted key', 'o.a = ', '\nz = 7', ('o', 'a')), ('array', 'a = [ ', ' ]', ('a', 0)), ('comma', 'o { z = 7, a = ', ', y = 8 }', ('o', 'a')), ('braces', '{ a = ', ' }', ('a',))]


def at_path(S, st, config, path):
    """[(state, value or None)]: the value stored at a path, an index selecting an array element"""
    keys = [k for k in path if isinstance(k, str)]
    out = []
    for s, o in S.get(st, config, '.'.join(keys)):
        for s2, v in S.variants(s, o):
            if v is not None:
                v = S.load(s2, v)
                for k in path:
                    if isinstance(k, int):
                        if v[0] == 'adt' and v[3] == 'Array':
                            es = S.pv.it.read(s2, v[4][0][1], v[4][0][2]) if v[4][0][0] == 'mref' else v[4][0]
                            sq = es[4][0]
                            v = S.load(s2, sq[1][k][1]) if sq[0] == 'seq' and k < len(sq[1]) and sq[1][k][0] == 'e' else None
                            if v is None:
                                break
                        else:
                            v = None
                            break
            out.append((s2, v))
    return out


MISSING = ('adt', 'ConfigValue', -1, '(no value)', ())


def value_check(P, path, want):
    w = cv(P, want)
    def check(S, st, config):
        return [(s, 'the value at %s' % '.'.join(map(str, path)), v if v is not None else MISSING, w) for s, v in at_path(S, st, config, path)]
    return check


def check_literals(P, res, tier):
    S = HSuite(P, res, 'H04')
    for lab, parts, d in numbers(tier):
        for cl, pre, post, path in CONTEXTS if lab in ('dd', 'd.d', '-dd') else CONTEXTS[:1]:
            S.run('number %s: %s' % (cl, lab), [pre] + parts + ([post] if post else []), value_check(P, path, ('num', d)))
    lits = [n for n in numbers('quick') if n[0] in ('0', 'dd', '-d', 'd.d', 'de1', 'd.ddde-1', 'ddddd')]
    for unit, names in UNITS.items():
        for nm in names:
            for lab, parts, d in lits:
                if tier == 'quick' and lab not in ('dd', '-d', 'd.d', 'de1') and nm != names[0]:
                    continue
                for sp in ('', ' '):
                    for cl, pre, post, path in CONTEXTS if lab == 'dd' and sp == '' else CONTEXTS[:1]:
                        S.run('duration %s: %s%s%s' % (cl, lab, sp, nm), [pre] + parts + [sp + nm + post], value_check(P, path, ('dur', d, unit)))
    S.note()


# ------------------------------------------------------------------ H02: quoted strings
def string_pieces(q):
    """(label, template pieces, elements)"""
    other = '"' if q == "'" else "'"
    out = [('printable A', [('p', '(', '[')], [E('p')]), ('printable B', [('p', ']', '~')], [E('p')]), ('blank', [' '], [I(32)]), ('tab', ['\t'], [I(9)]), ('#', ['#'], [I(35)]), ('//', ['//'], [I(47)] * 2),
           ('other quote', [other], [I(ord(other))]), ('brackets', ['[}'], [I(91), I(125)]), ('$', ['${'], [I(36), I(123)])]
    for ch, v in (('\\', 92), ('/', 47), ('"', 34), ('b', 8), ('f', 12), ('n', 10), ('r', 13), ('t', 9)):
        out.append(('\\' + ch, ['\\' + ch], [I(v)]))
    h = add(mulk(sub(E('u1'), I(48)), 16), sub(E('u2'), I(48)))
    g = add(mulk(sub(E('u1'), I(48)), 16), sub(E('u2'), I(87)))
    k = add(mulk(sub(E('u1'), I(48)), 16), sub(E('u2'), I(55)))
    out += [('\\u00dd', ['\\u00', ('u1', '0', '7'), ('u2', '0', '9')], [h]), ('\\u00dx', ['\\u00', ('u1', '0', '7'), ('u2', 'a', 'f')], [g]), ('\\u00dX', ['\\u00', ('u1', '0', '7'), ('u2', 'A', 'F')], [k])]
    out += [('two-byte character', ['\u00e9'], [I(0xe9)]), ('wide characters', ['\u3042\U0001f600'], [I(0x3042), I(0x1f600)])]
    # characters beyond the basic plane: a pair of code units
    for hi, lo in (('8', 'c'), ('B', 'D')):
        cp = lambda a, b: add(mulk(sub(E(a), I(48)), 16), sub(E(b), I(48)))
        out.append(('\\ud%sdd\\ud%sdd' % (hi, lo), ['\\ud%s' % hi, ('u1', '0', '9'), ('u2', '0', '9'), '\\uD%s' % lo, ('u3', '0', '9'), ('u4', '0', '9')],
                    [add(add(I(0x10000 + ((int('d%s00' % hi, 16) - 0xd800) << 10) + int('d%s00' % lo, 16) - 0xdc00), mulk(cp('u1', 'u2'), 0x400)), cp('u3', 'u4'))]))
    return out


def rename(parts, es, tag):
    m = {}
    ps = []
    for p in parts:
        if isinstance(p, str):
            ps.append(p)
        else:
            m[E(p[0])] = E(p[0] + tag)
            ps.append((p[0] + tag,) + p[1:])
    def sub_t(e):
        c, d = lin_parts(e)
        r = I(c)
        for a, x in d.items():
            r = add(r, mulk(m.get(a, a), x))
        return r
    return ps, [sub_t(e) for e in es]


def check_strings(P, res, tier):
    S = HSuite(P, res, 'H02')
    for q in ('"', "'"):
        ps = string_pieces(q)
        combos = [()] + [(p,) for p in ps] + [(a, b) for a in ps for b in ps]
        if tier == 'thorough':
            few = [p for p in ps if p[0] in ('printable A', 'blank', '\\n', '\\u00dd', '\\"')]
            combos += [(a, b, c) for a in few for b in few for c in few]
        for co in combos:
            parts, es = [q], []
            for n, (l, p, e) in enumerate(co):
                p, e = rename(p, e, str(n))
                parts += p
                es += e
            parts.append(q)
            lab = '%s%s%s' % (q, ' '.join(l for l, _, _ in co), q)
            w = ('app', 'text', ('seq', tuple(('e', e) for e in es))) if es else ('str', '')
            for cl, pre, post, path in CONTEXTS if len(co) < 2 and (not co or co[0][0] in ('printable A', 'blank', '#')) else CONTEXTS[:1]:
                S.run('%s: %s' % (cl, lab), [pre] + parts + ([post] if post else []), value_check(P, path, ('str', w)))
    # unquoted: up to a reserved character or the end of the line, without the blanks before it
    up, lo = ('letter', [('u', 'A', 'Z')]), ('lower', [('l', 'a', 'z')])
    inner = [up, lo, ('digit', [('k', '0', '9')]), ('blank', [' ']), ('.', ['.']), ('-', ['-']), ('_', ['_']), ('/', ['/']), ('%', ['%']), ('wide', ['\u00e9\u3042'])]
    bodies = [(up,), (up, lo), ] + [(up, x, lo) for x in inner] + ([(up, x, y, lo) for x in inner for y in inner] if tier == 'thorough' else [(up, x, x, up) for x in inner])
    ends = [('line', '', ''), ('blanks', '', '  \n'), ('next line', '', '\nz = 7'), ('comment', '', ' # y\n'), ('braces', '{ a = ', ' }'), ('tight braces', '{a=', '}'), ('comma', '{ a = ', ', z = 7 }'),
            ('tight comma', '{ a = ', ',z = 7 }')]
    for co in bodies:
        parts, es = [], []
        for n, (l, ps) in enumerate(co):
            for x in ps:
                if isinstance(x, str):
                    parts.append(x)
                    es += [I(ord(c)) for c in x]
                else:
                    parts.append((x[0] + str(n), x[1], x[2]))
                    es.append(E(x[0] + str(n)))
        w = ('app', 'text', ('seq', tuple(('e', e) for e in es)))
        lab = ' '.join(l for l, _ in co)
        for el, pre, post in ends:
            S.run('unquoted %s: %s' % (el, lab), [pre or 'a = '] + parts + ([post] if post else []), value_check(P, ('a',), ('str', w)))
        S.run('unquoted in an array: %s' % lab, ['a = ['] + parts + [', '] + parts + [' ]'], array_check(P, w))
    # words that begin like a literal
    low, cap, dig = ('c', 'a', 'z'), ('c', 'A', 'Z'), ('d', '0', '9')
    words = [[w_, x] for w_ in ('true', 'false', 'null') for x in (low, cap, dig, '-x', '_', '.x', '\u00e9')] + [[dig, x] for x in (cap, '_', '-1', '.', '..5', '.5.', 'ms5', 'miles', 'hourly', 'd-1', 's.x', 'ss', 'e', 'e+', '\u3042')]
    words += [['10.', dig, '.0.1'], ['20', dig, '4-01-01'], ['-', cap], ['+', dig], ['.', dig], ['0', dig], ['-']] + [['truefalse'], ['nulls'], ['1.5.', dig]]
    for parts in words:
        es = [I(ord(c)) for x in parts if isinstance(x, str) for c in x] if all(isinstance(x, str) for x in parts) else [e for x in parts for e in ([E(x[0])] if not isinstance(x, str) else [I(ord(c)) for c in x])]
        w = ('app', 'text', ('seq', tuple(('e', e) for e in es)))
        for el, pre, post in ends:
            S.run('like a literal %s: %s' % (el, text_of(parts)), [pre or 'a = '] + parts + ([post] if post else []), value_check(P, ('a',), ('str', w)))
    S.note()


def array_check(P, w):
    def check(S, st, config):
        out = []
        for i in (0, 1, 2):
            for s, v in at_path(S, st, config, ('a', i)):
                out.append((s, 'element %d' % i, v if v is not None else MISSING, cv(P, ('str', w)) if i < 2 else MISSING))
        return out
    return check


# ------------------------------------------------------------------ H05: durations converted and printed
class DSuite(HSuite):
    """obligations on constructed values: the parts are number symbols, no text is parsed"""

    def enter(self, *parts):
        return [(self.pv.template(*parts), Ok(UNIT))]

    def describe(self, parts, env):
        return ', '.join('%s=%s' % (p[0], env[E(p[0])] if env else '?') for p in parts) or 'the constructed value'

    def assoc(self, ty, name, trait=None, arg=None):
        """an associated function or trait implementation of the crate"""
        for f in self.P.methods.get(name, []):
            if f.crate == self.crate and M.type_head(f.selfty or '') == ty and (trait is None and f.trait is None or trait and trait in str(f.trait or '')):
                if arg is None or arg(f):
                    return f
        raise GR.NotGrammar('no %s::%s' % (ty, name))

    def ex(self, st, f, *args):
        return [(s, s.norm(v)) for s, v in self.pv.it.exec_fn(st.copy(), f, list(args), None)]


def duration_term(P, d, unit):
    return cv(P, ('dur', d, unit))[4][0]


def ok_value(S, st, r):
    """(state, payload or None when it is an error) of a Result"""
    out = []
    for s, k in S.pv.it.variant(st, r, 2):
        w = s.norm(r)
        out.append((s, w[4][0] if w[0] == 'adt' and k == 0 else None if k == 1 else ('app', 'proj', w, ('str', 'Ok'), I(0))))
    return out


ERR = ('adt', 'Result', 1, 'Err', ())


def check_durations(P, res, tier):
    # (a) as written in a configuration
    S = HSuite(P, res, 'H05')
    lits = [n for n in numbers('quick') if n[0] in ('0', 'dd', 'd.d', 'de1', 'd.ddd', 'ddddd', 'd.ddde-1', '-d')]
    for unit, names in UNITS.items():
        for lab, parts, d in lits:
            m, e = d[2], d[3][1]
            total = mulk(m, FACTOR[unit])
            total = mulk(total, 10**e) if e >= 0 else divides(total, 10**-e)
            def check(S, st, config, total=total, m=m, lab=lab):
                out = []
                for s, v in at_path(S, st, config, ('a',)):
                    if v is None:
                        continue
                    for nm, kind in (('as_duration', 'chdur'), ('as_std_duration', 'stddur')):
                        for s2, o in S.call(s, 'ConfigValue', nm, v):
                            if kind == 'stddur' and lab.startswith('-'):
                                want = NONE
                            elif total is None:
                                continue
                            else:
                                want = Some(('app', kind, total))
                            out.append((s2, nm, o, want))
                return out
            S.run('written %s%s' % (lab, names[0]), ['a='] + parts + [names[0]], check)
    S.note()
    # (b) constructed
    D = DSuite(P, res, 'H05')
    for unit in UNITS:
        hi = 10**6
        for lab, parts, m, e in (('n', [('n', 0, hi)], E('n'), 0), ('-n', [('n', 1, hi)], mulk(E('n'), -1), 0), ('n*0.001', [('n', 0, hi)], E('n'), -3), ('n*10^-10', [('n', 0, hi)], E('n'), -10), ('n*100', [('n', 0, 10**4)], mulk(E('n'), 100), 0)):
            def check(S, st, _, unit=unit, m=m, e=e):
                d = duration_term(P, dec(m, e), unit)
                t = ('app', 'dec', mulk(m, FACTOR[unit]), I(e))
                total = S.pv.trunc(st, t)
                if total is None:
                    return []
                out = []
                for nm, kind in (('to_duration', 'chdur'), ('to_std_duration', 'stddur')):
                    for s, r in S.ex(st, S.assoc('ConfigDurationValue', nm), d):
                        for s2, v in ok_value(S, s, r):
                            neg = kind == 'stddur' and s2.proves(sub(I(-1), total))
                            out.append((s2, nm, v if v is not None else ERR, ERR if neg else ('app', kind, total)))
                return out
            D.run('%s of %s' % (unit, lab), parts, check)
        def shown(S, st, _, unit=unit):
            u = P.enums['TimeUnit']
            out = []
            for s, t in S.display(st, ('adt', 'TimeUnit', u.index(unit), unit, ()), 'TimeUnit'):
                es = S.pv.flat(s, t)
                if es is None or any(x[0] != 'int' for x in es):
                    out.append((s, 'the printed unit', t, ('str', UNITS[unit][0])))
                    continue
                got = ''.join(chr(x[1]) for x in es)
                out.append((s, 'the printed unit', ('str', got), ('str', got if got in UNITS[unit] else UNITS[unit][0])))
            return out
        D.run('printing %s' % unit, [], shown)
    # (c) from spans of time
    chrono = lambda f: 'TimeDelta' in f.argtys[0] or 'chrono' in f.argtys[0]
    for kind, pick in (('stddur', lambda f: not chrono(f)), ('chdur', chrono)):
        for lab, parts, n in (('n', [('n', 0, 10**15)], E('n')), ('-n', [('n', 1, 10**15)], mulk(E('n'), -1)), ('seconds', [('n', 0, 10**9)], mulk(E('n'), SEC))):
            if kind == 'stddur' and lab == '-n':
                continue
            def check(S, st, _, kind=kind, pick=pick, n=n):
                out = []
                for s, d in S.ex(st, S.assoc('ConfigDurationValue', 'from', 'From', pick), ('app', kind, n)):
                    for s2, r in S.ex(s, S.assoc('ConfigDurationValue', 'to_duration' if kind == 'chdur' else 'to_std_duration'), d):
                        for s3, v in ok_value(S, s2, r):
                            out.append((s3, 'the span converted back', v if v is not None else ERR, ('app', kind, n)))
                return out
            D.run('from %s %s' % (kind, lab), parts, check)
    D.note()


# ------------------------------------------------------------------ H03: merging and substitution
class Node:
    """all values assigned to one key, in order; an object that follows an object is merged into it"""

    def __init__(self):
        self.hist = []

    def put(self, v):
        if isinstance(v, dict) and self.hist and isinstance(self.hist[-1], dict):
            merge(self.hist[-1], v)
        elif isinstance(v, dict):
            d = {}
            merge(d, v)
            self.hist.append(d)
        else:
            self.hist.append(v)


def merge(d, e):
    for k, v in e.items():
        for x in (v.hist if isinstance(v, Node) else [v]):
            d.setdefault(k, Node()).put(x)


def tree(stmts):
    """statements (key path, value) -> root dictionary of nodes; values: dict of nodes, or descriptions"""
    root = {}
    for path, v in stmts:
        if isinstance(v, list):
            v = tree(v)
        for k in reversed(path[1:]):
            n = Node()
            n.put(v)
            v = {k: n}
        root.setdefault(path[0], Node()).put(v)
    return root


class Unresolved(Exception):
    pass


UNDEF = object()


def final(root, v, hist, env):
    """value of an entry: dict -> {key: value}, ('ref', path, optional) -> its target"""
    if isinstance(v, dict):
        out = {}
        for k, n in v.items():
            x = final(root, n.hist[-1], n.hist[:-1], env)
            if x is not UNDEF:
                out[k] = x
        return out
    if v[0] == 'ref':
        t = lookup(root, v[1], env)
        if t is not UNDEF:
            return t
        if not v[2]:
            raise Unresolved(v[1])
        if hist:
            return final(root, hist[-1], hist[:-1], env)
        return UNDEF
    if v[0] == 'arr':
        xs = [final(root, x, [], env) for x in v[1]]
        return ('arr', [x for x in xs if x is not UNDEF])
    return v


def lookup(root, name, env):
    d = root
    ks = name.split('.')
    for i, k in enumerate(ks):
        n = d.get(k) if isinstance(d, dict) else None
        if n is None:
            d = UNDEF
            break
        d = n.hist[-1]
        if i == len(ks) - 1:
            d = final(root, d, n.hist[:-1], env)
    if d is UNDEF and env.get(name):
        return ('str', ('sym', 'txt:env:' + name))
    return d


def names_of(v):
    if isinstance(v, tuple) and v[0] == 'ref':
        return {v[1]}
    if isinstance(v, tuple) and v[0] == 'arr':
        return set().union(*map(names_of, v[1])) if v[1] else set()
    if isinstance(v, list):
        return set().union(*[names_of(x) for _, x in v]) if v else set()
    return set()


def atoms():
    """statement schemes: n -> (pieces, path, value); the digit's name carries n"""
    def N(n):
        return ('n%d' % n, '1', '9')
    def V(n):
        return ('num', dec(num('n%d' % n)))
    A = []
    def add_(f):
        A.append(f)
    add_(lambda n: (['a = ', N(n)], ('a',), V(n)))
    add_(lambda n: (['a { x = ', N(n), ' }'], ('a',), [(('x',), V(n))]))
    add_(lambda n: (['a.x = ', N(n)], ('a', 'x'), V(n)))
    add_(lambda n: (['a { y = ', N(n), ' }'], ('a',), [(('y',), V(n))]))
    add_(lambda n: (['a.x.p = ', N(n)], ('a', 'x', 'p'), V(n)))
    add_(lambda n: (['a { x { q = ', N(n), ' } }'], ('a',), [(('x',), [(('q',), V(n))])]))
    add_(lambda n: (['b = ', N(n)], ('b',), V(n)))
    add_(lambda n: (['a = ${b}'], ('a',), ('ref', 'b', False)))
    add_(lambda n: (['a = ${?b}'], ('a',), ('ref', 'b', True)))
    add_(lambda n: (['a = ${?z}'], ('a',), ('ref', 'z', True)))
    add_(lambda n: (['a { x = ${?z} }'], ('a',), [(('x',), ('ref', 'z', True))]))
    add_(lambda n: (['a.x = ${b}'], ('a', 'x'), ('ref', 'b', False)))
    add_(lambda n: (['a = [', N(n), ', ${?z}, 5]'], ('a',), ('arr', [V(n), ('ref', 'z', True), ('num', dec(5))])))
    add_(lambda n: (['a = {}'], ('a',), []))
    add_(lambda n: (['b = ${a.x}'], ('b',), ('ref', 'a.x', False)))
    add_(lambda n: (['a = "', ('n%d' % n, 'a', 'z'), '"'], ('a',), ('str', V_text(n))))
    add_(lambda n: (['ab { x = ', N(n), ' }'], ('ab',), [(('x',), V(n))]))
    return A


def V_text(n):
    return V.text(('n%d' % n,))


LAYOUTS = {'lines': ('', '\n', ''), 'object': ('{ ', '\n', ' }'), 'commas': ('{', ', ', '}'), 'nested': ('o {', '\n', '}')}
QUERIES = ['a', 'b', 'a.x', 'a.y', 'a.x.p', 'a.x.q', 'ab', 'ab.x', 'b.x', 'a.z']


def admissible(stmts):
    """outside the property: cycles, references to objects or through them, mandatory references that are overridden or ambiguous"""
    refs = []
    def walk(path, v, k):
        if isinstance(v, list):
            for p, x in v:
                walk(path + p, x, k)
        elif v[0] == 'ref':
            refs.append((path, v, k))
    for k, (p, v) in enumerate(stmts):
        walk(p, v, k)
    for path, v, k in refs:
        t = tuple(v[1].split('.'))
        # every assignment at, above or below the target is a plain scalar at the target
        for j, (p, w) in enumerate(stmts):
            flat = []
            def leaves(p, w):
                if isinstance(w, list):
                    if not w:
                        flat.append((p, 'obj'))
                    for q, x in w:
                        leaves(p + q, x)
                else:
                    flat.append((p, w))
            leaves(p, w)
            for q, x in flat:
                if q == t:
                    if x == 'obj' or x[0] not in ('num', 'str'):
                        return False
                elif q[:len(t)] == t or t[:len(q)] == q:
                    return False
            # an object written after a reference at the same place may merge with the object it stands for
            if j > k:
                for q, x in flat:
                    if q[:len(path)] == path and q != path:
                        return False
                    if x == 'obj' and q == path:
                        return False
                    if not v[2] and (q == path or path[:len(q)] == q):
                        return False
    return True


def check_merging(P, res, tier):
    S = HSuite(P, res, 'H03')
    A = atoms()
    combos = [(x,) for x in range(len(A))] + list(itertools.product(range(len(A)), repeat=2))
    tri = list(itertools.product(range(len(A)), repeat=3))
    few = {0, 1, 2, 3, 5, 8, 9}
    combos += tri if tier == 'thorough' else [t for t in tri if set(t) <= few]
    for co in combos:
        ms = [A[x](n) for n, x in enumerate(co)]
        stmts = [(p, v) for _, p, v in ms]
        if not admissible(stmts):
            continue
        for ln, (pre, sep, post) in LAYOUTS.items():
            if len(co) == 3 and ln not in ('lines', 'object') and tier == 'quick':
                continue
            if len(co) == 3 and tier == 'quick' and (ln == 'lines') == (sum(co) % 2 == 0):
                continue
            parts = [pre] if pre else []
            for i, (pieces, _, _) in enumerate(ms):
                parts += ([sep] if i else []) + pieces
            parts += [post] if post else []
            ss = [(('o',) + p, v) for p, v in stmts] if ln == 'nested' else stmts
            if ln == 'nested' and any(names_of(v) for _, v in stmts):
                continue        # substitutions name paths from the root
            S.run('%s: %s' % (ln, sep.join(V.concrete(m[0], None) if False else text_of(m[0]) for m in ms)), parts, merge_check(P, ss, 'o.' if ln == 'nested' else ''))
    S.note()


def text_of(pieces):
    return ''.join(p if isinstance(p, str) else p[0] for p in pieces)


def merge_check(P, stmts, prefix):
    names = sorted(set().union(*[names_of(v) for _, v in stmts]))
    def check(S, st, result):
        out = []
        root = tree(stmts)
        it = S.pv.it
        cases = [(st, {})]
        for n in names:
            cases = [(s2, dict(env, **{n: b})) for s, env in cases for s2, b in it.branch(s.copy(), env_set(n))]
        for s, env in cases:
            try:
                want = final(root, root, [], env)
            except Unresolved as e:
                want = None
            if result[0] != 'adt' or result[1] != 'Result':
                out.append((s, 'the outcome', result, UNIT))
                continue
            isok = result[3] == 'Ok'
            said = ('adt', 'Result', 0, 'accepted', ()), ('adt', 'Result', 1, 'an error (unresolved substitution)', ())
            if isok != (want is not None):
                out.append((s, 'the outcome' + env_text(env), said[0] if isok else ('adt', 'Result', 1, 'an error', ()), said[0] if want is not None else said[1]))
                continue
            if not isok:
                continue
            config = result[4][0]
            for q in QUERIES:
                x = want
                for k in (prefix + q).split('.'):
                    x = x.get(k, UNDEF) if isinstance(x, dict) else UNDEF
                out += value_at(P, S, s, config, prefix + q, x, env)
        return out
    check.raw = True
    return check


def env_text(env):
    return ''.join(' with %s %s in the environment' % (k, 'set' if b else 'unset') for k, b in sorted(env.items()))


def value_at(P, S, st, config, q, x, env):
    out = []
    where = 'the value at %s%s' % (q, env_text(env))
    for s, b in S.get(st, config, q, has=True):
        out.append((s, 'presence of %s%s' % (q, env_text(env)), b, ('bool', x is not UNDEF)))
    for s, o in S.get(st, config, q):
        for s2, v in S.variants(s, o):
            if v is None:
                out.append((s2, where, MISSING, MISSING if x is UNDEF else ('adt', 'ConfigValue', -1, 'some value', ())))
                continue
            v = S.load(s2, v)
            if x is UNDEF:
                out.append((s2, where, v if v[0] != 'adt' else ('adt', 'ConfigValue', v[2], v[3], ()), MISSING))
            elif isinstance(x, dict):
                want = ('adt', 'keys', 0, 'object', tuple(('str', k) for k in sorted(x)))
                got = v
                if v[0] == 'adt' and v[1] == 'ConfigValue':
                    got = ('adt', 'keys', 0, v[3], ())
                    if v[3] == 'Object':
                        m = S.load(s2, S.load(s2, v[4][0])[4][0])
                        if m[0] == 'map' and m[1] == ('empty',) and all(k[0] == 'str' for k, _ in m[2]):
                            got = ('adt', 'keys', 0, 'object', tuple(('str', k) for k in sorted(k[1] for k, w in m[2] if w != ('removed',))))
                        else:
                            got = m
                out.append((s2, 'the keys at %s%s' % (q, env_text(env)), got, want))
            else:
                out.append((s2, where, v, cv(P, x)))
    return out


# ------------------------------------------------------------------ H07: typed access and lookups
ACCESSORS = {'as_bool': 'bool', 'as_string': 'str', 'as_config_number_value': 'num', 'as_number': 'num', 'as_config_duration_value': 'dur', 'as_config_array_value': 'arr', 'as_array': 'arr',
             'as_config_object_value': 'obj', 'as_object': 'obj'}


def deep(S, st, v, n=0):
    """the value behind references, at every level"""
    v = S.load(st, v)
    if n > 6:
        return v
    if v[0] == 'adt' and v[1] != 'SliceIter':
        return v[:4] + (tuple(deep(S, st, x, n + 1) for x in v[4]),)
    if v[0] == 'seq' and all(p[0] == 'e' for p in v[1]):
        return ('seq', tuple(('e', deep(S, st, p[1], n + 1)) for p in v[1]))
    if v[0] == 'map' and v[1] == ('empty',):
        return ('adt', 'entries', 0, None, tuple(('tup', (k, deep(S, st, w, n + 1))) for k, w in sorted(v[2], key=repr) if w != ('removed',)))
    return v


def kinds():
    """(kind, text pieces, content as each accessor shows it)"""
    c, d = ('s1', 'A', 'Z'), ('n1', '1', '9')
    wnum = ('num', dec(num('n1')))
    return [('null', ['null'], None), ('bool', ['true'], ('bool', True)), ('bool', ['false'], ('bool', False)), ('str', ['"', c, '"'], ('str', V.text(('s1',)))), ('str', [c, 'x'], ('str', V.text(('s1',), 'x'))),
            ('str', ['"5"'], ('str', ('str', '5'))), ('str', ['"true"'], ('str', ('str', 'true'))), ('num', [d], wnum), ('num', ['0'], ('num', dec(0))), ('num', ['1'], ('num', dec(1))), ('num', ['-', d, '.5'], ('num', dec(mulk(add(mulk(num('n1'), 10), I(5)), -1), -1))),
            ('dur', [d, 's'], ('dur', dec(num('n1')), 'Seconds')), ('dur', [d, ' days'], ('dur', dec(num('n1')), 'Days')), ('arr', ['[', d, ', "', c, '"]'], ('arr', [wnum, ('str', V.text(('s1',)))])),
            ('arr', ['[]'], ('arr', [])), ('obj', ['{ k = ', d, ' }'], {'k': wnum}), ('obj', ['{}'], {})]


def content(P, kind, acc, w):
    """what an accessor of the right type shows"""
    if kind == 'obj':
        m = ('adt', 'entries', 0, None, tuple(('tup', (('str', k), deep_want(P, v))) for k, v in sorted(w.items())))
        return m if acc == 'as_object' else ('adt', 'ConfigObjectValue', 0, None, (m,))
    v = cv(P, w)[4][0]
    if acc in ('as_number', 'as_array'):
        return v[4][0]
    return v


def deep_want(P, w):
    return cv(P, w)


def check_access(P, res, tier):
    S = HSuite(P, res, 'H07')
    # (a) every typed accessor on every kind of value
    for kind, parts, w in kinds():
        for cl, pre, post, path in CONTEXTS[:1] + [x for x in CONTEXTS if x[0] in ('object', 'array')]:
            def check(S, st, config, kind=kind, w=w, path=path):
                out = []
                for s, v in at_path(S, st, config, path):
                    if v is None:
                        out.append((s, 'the value at %s' % '.'.join(map(str, path)), MISSING, variant(P, 'Null')))
                        continue
                    for s2, r in S.call(s, 'ConfigValue', 'is_null', v):
                        out.append((s2, 'is_null of the %s' % kind, r, ('bool', kind == 'null')))
                    for acc, k in ACCESSORS.items():
                        for s2, o in S.call(s, 'ConfigValue', acc, v):
                            want = Some(content(P, kind, acc, w)) if k == kind else NONE
                            for s3, x in S.variants(s2, o):
                                got = NONE if x is None else Some(deep(S, s3, x))
                                out.append((s3, '%s of the %s' % (acc, kind), got, want))
                    for acc in ('as_duration', 'as_std_duration'):
                        if kind != 'dur':
                            for s2, o in S.call(s, 'ConfigValue', acc, v):
                                out.append((s2, '%s of the %s' % (acc, kind), o, NONE))
                return out
            S.run('%s %s: %s' % (cl, kind, text_of(parts)), [pre] + parts + ([post] if post else []), check)
    # (b) integer and float views of numbers
    sizes = [1, 2, 3, 5, 6, 10, 11, 19, 20, 28] if tier == 'quick' else list(range(1, 29))
    for sg in ('', '-'):
        for n in sizes:
            parts = [x for x in [sg] if x] + [('i1', '1', '9')] + [('i%d' % k, '0', '9') for k in range(2, n + 1)]
            t = mulk(num(*['i%d' % k for k in range(1, n + 1)]), -1 if sg else 1)
            def check(S, st, config, t=t):
                out = []
                for s, v in at_path(S, st, config, ('a',)):
                    if v is None:
                        continue
                    for s1, o in S.call(s, 'ConfigValue', 'as_config_number_value', v):
                        for s2, x in S.variants(s1, o):
                            if x is None:
                                out.append((s2, 'as_config_number_value', NONE, Some(dec(t))))
                                continue
                            for ty, (lo, hi) in INTS.items():
                                if ty.endswith('size') or not [f for f in P.methods.get('to_' + ty, []) if f.crate == 'hocon']:
                                    continue
                                for s3, r in S.call(s2, 'ConfigNumberValue', 'to_' + ty, x):
                                    for s4, b in S.pv.within_t(s3, t, lo, hi):
                                        out.append((s4, 'to_' + ty, r, Some(t) if b else NONE))
                            for ty in ('f64', 'f32'):
                                for s3, r in S.call(s2, 'ConfigNumberValue', 'to_' + ty, x):
                                    out.append((s3, 'to_' + ty, r, Some(('app', 'float', ('str', ty), dec(t)))))
                return out
            S.run('%snumber of %d digits' % (sg, n), ['a='] + parts, check)
    # (c) lookups: every path over a set of names, on nested objects
    docs = [('nested', ['a { b { c = ', ('n1', '1', '9'), ', ab = ', ('n2', '1', '9'), ' }, ab = ', ('n3', '1', '9'), ' }\nab = ', ('n4', '1', '9'), '\nc-d.e_f = ', ('n5', '1', '9')],
             {'a': {'b': {'c': 'n1', 'ab': 'n2'}, 'ab': 'n3'}, 'ab': 'n4', 'c-d': {'e_f': 'n5'}}),
            ('dotted', ['a.b.c = ', ('n1', '1', '9'), '\na.b.a = ', ('n2', '1', '9'), '\nb = ', ('n3', '1', '9')], {'a': {'b': {'c': 'n1', 'a': 'n2'}}, 'b': 'n3'}),
            ('one key', ['a = ', ('n1', '1', '9')], {'a': 'n1'}),
            ('object after a scalar', ['a = 1\na { b = ', ('n1', '1', '9'), ', ab { c = ', ('n2', '1', '9'), ' } }\nb = ', ('n3', '1', '9')], {'a': {'b': 'n1', 'ab': {'c': 'n2'}}, 'b': 'n3'}),
            ('nested object after a text', ['a { b = x, b { c = ', ('n1', '1', '9'), ', a { b = ', ('n2', '1', '9'), ' } }, ab = [1], ab = ', ('n3', '1', '9'), ' }'], {'a': {'b': {'c': 'n1', 'a': {'b': 'n2'}}, 'ab': 'n3'}}),
            ('scalar after an object', ['a { b = 1 }\na = ', ('n1', '1', '9'), '\nb { a { c = 2 } }\nb.a = ', ('n2', '1', '9')], {'a': 'n1', 'b': {'a': 'n2'}}),
            ('object after a scalar after an object', ['a { b = 1, c = 2 }\na = 3\na { c = ', ('n1', '1', '9'), ' }'], {'a': {'c': 'n1'}}),
            ('empty objects', ['a {}\nb { a {} }'], {'a': {}, 'b': {'a': {}}}),
            ('null', ['a = null\nb { c = null }'], {'a': None, 'b': {'c': None}})]
    names = ['a', 'b', 'c', 'ab', 'c-d', 'e_f', 'd']
    paths = [tuple(p) for k in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)) for p in itertools.product(names[:4] if k > 2 else names, repeat=k)]
    for lab, parts, want in docs:
        def check(S, st, config, want=want):
            out = []
            s, root = S.call(st, 'Config', 'to_config_value', config)[0]
            for p in paths:
                x = want
                for k in p:
                    x = x.get(k, UNDEF) if isinstance(x, dict) else UNDEF
                x = ('num', dec(num(x))) if isinstance(x, str) else ('null',) if x is None else Tree(x) if isinstance(x, dict) else x
                out += value_at(P, S, s, config, '.'.join(p), x, {})
                q = '.'.join(p)
                for f, args in (('get_value', [root, ('str', q)]), ('has_path', [root, ('str', q)])):
                    for s2, r in S.call(s, 'ConfigValue', f, *args):
                        if f == 'has_path':
                            out.append((s2, 'ConfigValue::has_path %s' % q, r, ('bool', x is not UNDEF)))
                        else:
                            for s3, y in S.variants(s2, r):
                                out.append((s3, 'ConfigValue::get_value %s' % q, ('bool', y is not None), ('bool', x is not UNDEF)))
            for k in names:
                for s2, r in S.call(s, 'ConfigValue', 'contains', root, ('str', k)):
                    out.append((s2, 'contains %s' % k, r, ('bool', k in want)))
                for s1, o in S.call(s, 'ConfigValue', 'as_config_object_value', root):
                    for s2, x in S.variants(s1, o):
                        if x is not None:
                            for s3, r in S.call(s2, 'ConfigObjectValue', 'has_path', x, ('str', k)):
                                out.append((s3, 'ConfigObjectValue::has_path %s' % k, r, ('bool', k in want)))
            return out
        S.run('lookups: ' + lab, parts, check)
    S.note()
    # (d) numbers constructed from integers
    D = DSuite(P, res, 'H07')
    for ty, (lo, hi) in INTS.items():
        fs = [f for f in P.methods.get('from', []) if f.crate == 'hocon' and M.type_head(f.selfty or '') == 'ConfigNumberValue' and f.argtys and f.argtys[0] == ty]
        for f in fs:
            lo, hi = max(lo, -DEC_MAX), min(hi, DEC_MAX)
            def check(S, st, _, f=f, ty=ty, lo=lo, hi=hi):
                out = []
                for s, v in S.ex(st, f, E('n') if lo >= 0 else sub(E('n'), I(-lo))):
                    v = deep(S, s, v)
                    out.append((s, 'the number made from %s' % ty, v, ('adt', 'ConfigNumberValue', 0, None, (dec(E('n') if lo >= 0 else sub(E('n'), I(-lo))),))))
                return out
            D.run('from ' + ty, [('n', 0, hi - lo if lo < 0 else hi)], check)
    D.note()


class Tree(dict):
    pass


# ------------------------------------------------------------------ H01: loading
class FSuite(HSuite):
    """obligations on load_from_file: the parts are texts of files, each led by a marker with its name; the first is the file loaded"""
    accepts = False

    def __init__(self, P, res, prop):
        super().__init__(P, res, prop)
        self.fn = apps.entry_fn(P, 'hocon', 'ConfigFactory', 'load_from_file')

    def enter(self, *parts):
        names, cut = [], []
        plain = []
        for p in parts:
            if isinstance(p, str) and p.startswith(MARK):
                names.append(p[1:])
                cut.append(sum(len(x) if isinstance(x, str) else 1 for x in plain))
            else:
                plain.append(p)
        st = self.pv.template(*plain)
        es = self.pv.elems
        self.pv.files = {n: es[a:b] for n, a, b in zip(names, cut, cut[1:] + [len(es)])}
        out = []
        for s, f in self.pv.it.exec_fn(st, apps.entry_fn(self.P, 'hocon', 'ConfigFactory', 'new'), [], None):
            root = s.alloc(f)
            out += [(s2, s2.norm(v)) for s2, v in self.pv.it.exec_fn(s, self.fn, [('mref', root, ()), ('str', names[0])], None)]
        return out

    def describe(self, parts, env):
        out, cur = [], None
        for p in list(parts) + [MARK]:
            if isinstance(p, str) and p.startswith(MARK):
                if cur:
                    out.append('%s containing %r' % (cur[0], V.concrete(cur[1], env)))
                cur = (p[1:], [])
            else:
                cur[1].append(p)
        return ', '.join(out)


MARK = '\x01'


def outcome(kind):
    return ('adt', 'Result', 1 if kind != 'Ok' else 0, kind, ())


def said(S, st, r):
    """the outcome of loading, with the kind of the error"""
    if r[0] != 'adt' or r[1] != 'Result':
        return r
    if r[3] == 'Ok':
        return outcome('Ok')
    e = S.load(st, r[4][0])
    return outcome('Err(%s)' % e[3]) if e[0] == 'adt' else r


MALFORMED = [['a = '], ['= 1'], ['a = ', ('n', '0', '9'), ' ]'], ['a = ', ('n', '0', '9'), ' }'], ['a { b = ', ('n', '0', '9')], ['a = [', ('n', '0', '9'), ', 2'], ['a = "', ('c', 'a', 'z')], ['a = "', ('c', 'a', 'z'), '\n"'], ['{'], ['}'], ['['], [']'],
             ['a'], ['a b'], ['a = ${'], ['a = ${b'], ['a = ${}'], ['a = "\\', ('c', 'g', 'm'), '"'], ['a = "\\u00', ('c', 'g', 'z'), '0"'], ['a = 1\n]'], ['{ a = ', ('n', '0', '9'), ' } }'], ['{ a = 1, , b = 2 }'], ['a = ', ('n', '0', '9'), '\nb'],
             ['a = [1', ' 2]'], ['a { b = 1 ] }'], ['include fil("x")\n'], ['include file("x"'], ['a = "x" "'], ['a = ${?}'], ['a { b = ${c }'], ['"a" "b" = 1'], ['a = {b}'], ['a = [[', ('n', '0', '9'), ']'], [': 1']]


def check_loading(P, res, tier):
    cerr = P.enums['ConfigError']
    # (a) malformed texts
    S = HSuite(P, res, 'H01')
    S.accepts = False
    for parts in MALFORMED:
        def check(S, st, r):
            return [(st, 'parse_from_string', said(S, st, r), outcome('Err(ParseError)'))]
        check.raw = True
        S.run('malformed: ' + text_of(parts), parts, check)
    for lab, parts, want in (('empty', [''], {}), ('blank', [' \n'], {}), ('comment', ['# ', ('c', 'a', 'z')], {})):
        def check(S, st, r, want=want):
            if said(S, st, r) != outcome('Ok'):
                return [(st, 'parse_from_string', said(S, st, r), outcome('Ok'))]
            out = []
            for s, root in S.call(st, 'Config', 'to_config_value', r[4][0]):
                out.append((s, 'the configuration', deep(S, s, root), variant(P, 'Object', ('adt', 'ConfigObjectValue', 0, None, (('adt', 'entries', 0, None, ()),)))))
            return out
        check.raw = True
        S.run('text ' + lab, parts, check)
    # (b) references that cannot be resolved, alone and below other values
    for parts in (['a = ${z}'], ['a { b = ${z} }'], ['a = [1, ${z}]'], ['a = 1\nb { c { d = ${z} } }'], ['a = ${b}\nb = ${z}'], ['a = ${?y}\nb = ${z}']):
        def check(S, st, r):
            out = []
            for s, b in S.pv.it.branch(st.copy(), env_set('z')):
                out.append((s, 'parse_from_string with z %s in the environment' % ('set' if b else 'unset'), said(S, s, r), outcome('Ok' if b else 'Err(ReferenceError)')))
            return out
        check.raw = True
        S.run('reference: ' + text_of(parts), parts, check)
    S.note()
    # (c) files
    F = FSuite(P, res, 'H01')
    good = ['a = ', ('n1', '1', '9'), '\nb { c = ', ('n2', '1', '9'), ' }']
    d = lambda *ns: ('num', dec(num(*ns)))
    docs = [('one file', [MARK + 'm.conf'] + good, {'m.conf': []}, {'a': d('n1'), 'b.c': d('n2')}),
            ('malformed file', [MARK + 'm.conf', 'a = ', ('n1', '1', '9'), ' ]'], {'m.conf': []}, 'ParseError'),
            ('empty file', [MARK + 'm.conf'], {'m.conf': []}, {'a': None}),
            ('include', [MARK + 'm.conf', 'include file("x.conf")', MARK + 'x.conf'] + good, {'m.conf': ['x.conf'], 'x.conf': []}, {'a': d('n1'), 'b.c': d('n2')}),
            ('malformed include', [MARK + 'm.conf', 'include file("x.conf")', MARK + 'x.conf', 'a = ', ('n1', '1', '9'), ' ]'], {'m.conf': ['x.conf'], 'x.conf': []}, 'ParseError'),
            ('unresolved include', [MARK + 'm.conf', 'include file("x.conf")', MARK + 'x.conf', 'a = ${zz}'], {'m.conf': ['x.conf'], 'x.conf': []}, 'ReferenceError'),
            ('include with blanks', [MARK + 'm.conf', ' \n# c\ninclude file("x.conf") # d\n', MARK + 'x.conf'] + good + ['\n'], {'m.conf': ['x.conf'], 'x.conf': []}, {'a': d('n1'), 'b.c': d('n2')}),
            ('two includes', [MARK + 'm.conf', 'include file("x.conf")\ninclude file("y.conf")', MARK + 'x.conf'] + good + [MARK + 'y.conf', 'a = ', ('n3', '1', '9'), '\nb.d = ', ('n4', '1', '9')],
             {'m.conf': ['x.conf', 'y.conf'], 'x.conf': [], 'y.conf': []}, {'a': d('n3'), 'b.c': d('n2'), 'b.d': d('n4')}),
            ('second include malformed', [MARK + 'm.conf', 'include file("x.conf")\ninclude file("y.conf")', MARK + 'x.conf'] + good + [MARK + 'y.conf', 'a = }'], {'m.conf': ['x.conf', 'y.conf'], 'x.conf': [], 'y.conf': []}, 'ParseError'),
            ('first include malformed', [MARK + 'm.conf', 'include file("x.conf")\ninclude file("y.conf")', MARK + 'x.conf', 'a = }', MARK + 'y.conf'] + good, {'m.conf': ['x.conf', 'y.conf'], 'x.conf': [], 'y.conf': []}, ('ParseError', 'x.conf')),
            ('nested includes', [MARK + 'm.conf', 'include file("x.conf")', MARK + 'x.conf', 'include file("y.conf")', MARK + 'y.conf'] + good, {'m.conf': ['x.conf'], 'x.conf': ['y.conf'], 'y.conf': []}, {'a': d('n1'), 'b.c': d('n2')})]
    for lab, parts, inc, want in docs:
        F.run(lab, parts, load_check(P, inc, want))
    F.note()


def load_check(P, includes, want):
    """the first failure in the order the files are read decides the error; without one the values are those of the texts"""
    def check(S, st, r):
        out = []
        def walk(s, n, done):
            for s1, b in S.pv.it.branch(s.copy(), file_fact('exists', n)):
                if not b:
                    out.append((s1, 'loading with %s missing' % n, said(S, s1, r), outcome('Err(FileNotFoundError)')))
                    continue
                for s2, b2 in S.pv.it.branch(s1, file_fact('readable', n)):
                    if not b2:
                        out.append((s2, 'loading with %s unreadable' % n, said(S, s2, r), outcome('Err(FileReadError)')))
                        continue
                    if isinstance(want, tuple) and want[1] == n:
                        out.append((s2, 'loading', said(S, s2, r), outcome('Err(%s)' % want[0])))
                        continue
                    chain(s2, list(includes[n]), done)

        def chain(s, ns, done):
            if ns:
                walk(s, ns[0], lambda s2: chain(s2, ns[1:], done))
            else:
                done(s)

        def done(s):
            if want == 'ReferenceError':
                for s2, b in S.pv.it.branch(s.copy(), env_set('zz')):
                    out.append((s2, 'loading with zz %s in the environment' % ('set' if b else 'unset'), said(S, s2, r), outcome('Ok' if b else 'Err(ReferenceError)')))
                return
            if isinstance(want, str):
                out.append((s, 'loading', said(S, s, r), outcome('Err(%s)' % want)))
                return
            if said(S, s, r) != outcome('Ok'):
                out.append((s, 'loading', said(S, s, r), outcome('Ok')))
                return
            for p, w in want.items():
                out.extend(value_at(P, S, s, r[4][0], p, UNDEF if w is None else w, {}))
        walk(st, next(iter(includes)), done)
        return out
    check.raw = True
    return check


# ------------------------------------------------------------------ H08: layout
LAYOUT = {
    'scalars': 'a=1\nb=true\nc="x y"\nd=foo\ne=null\nf=5 s\ng=-1.5e2',
    'objects': 'a{b=1,c{d=2}}\ne={f=3\ng=4}\nh={}',
    'arrays': 'a=[1,"b",[2,foo]]\nb=[]\nc=[{d=1},{d=2}]',
    'colons': 'a:1\nb:{c:x,d:[y]}',
    'root object': '{a=1,b={c="2"},d=[3]}',
    'references': 'a=1\nb=${a}\nc=${?a}\nd{e=${a},f=[${a}]}',
    'dotted keys': 'a.b=1\na.c=2\nd{e.f=3}',
    'merged': 'a{b=1}\na{c=2}\na.b=5\nd=[1]\nd=2',
    'numbers before names': 'a=1\ns=2\nm=3\nh{d=4}\nns=5.5\nus{days=7,\nms=-8}\nhour=[9,\n10]\nnanos=0\nsecond=1e1\nx=2\n',
    'strings before names': 'a=foo\nb=bar\nc=[foo,\nbar]\nd{e=1x\nf=true-x}',
    'quoted keys': '"a"=1\n\'b\'{"c"=2}',
}
HTOKEN = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|\$\{\??[a-z.]+\}|[-A-Za-z_0-9.]+(?: [a-z]+)?|.|\n')
REMARK = ['# it\'s {a} "b [c', '//d = ${e}, }', '#', '# f # g']


def shape(S, st, v):
    v = S.load(st, v)
    if v[0] == 'adt' and v[1] != 'SliceIter':
        return '%s(%s)' % (v[3] or v[1], ', '.join(shape(S, st, x) for x in v[4]))
    if v[0] == 'seq' and all(p[0] == 'e' for p in v[1]):
        return '[%s]' % ', '.join(shape(S, st, p[1]) for p in v[1])
    if v[0] == 'map' and v[1] == ('empty',):
        return '{%s}' % ', '.join('%s: %s' % (shape(S, st, k), shape(S, st, w)) for k, w in sorted(v[2], key=repr) if w != ('removed',))
    if v[0] in ('seq', 'slice', 'cat', 'str'):
        es = S.pv.flat(st, v)
        if es is None or not all(e[0] == 'int' for e in es):
            raise GR.NotGrammar('a value with ' + show(v)[:60])
        return repr(bytes(e[1] for e in es))
    return show(v)


class LSuite(HSuite):
    """obligations on acceptance and on the whole configuration read"""

    def __init__(self, P, res):
        super().__init__(P, res, 'H08')
        self.base = {}

    def whole(self, st, r):
        """[(state, text of the configuration)]"""
        return [(s, shape(self, s, root)) for s, root in self.call(st, 'Config', 'to_config_value', r[4][0])]

    def outcome(self, text):
        if text not in self.base:
            outs = [(s, v) for s, v in self.enter(text)]
            if len(outs) != 1 or SP.state_inexact(outs[0][0]) or outs[0][1][3] != 'Ok':
                raise GR.NotGrammar('%d outcomes for a plain text' % len(outs))
            ws = self.whole(*outs[0])
            if len(ws) != 1:
                raise GR.NotGrammar('a configuration of %d shapes' % len(ws))
            self.base[text] = ws[0][1]
        return self.base[text]

    def same(self, lab, parts, text):
        def check(S, st, r):
            yield st, 'parse_from_string', said(S, st, r), outcome('Ok')
            if said(S, st, r) == outcome('Ok'):
                for s, w in S.whole(st, r):
                    yield s, 'the configuration', ('str', w), ('str', S.outcome(text))
        check.raw = True
        self.run(lab, tuple(parts), check)

    def reject(self, lab, parts):
        def check(S, st, r):
            yield st, 'parse_from_string', said(S, st, r), outcome('Err(ParseError)')
        check.raw = True
        self.run(lab, tuple(parts), check)


def check_layout(P, res, tier):
    S = LSuite(P, res)
    for name, text in LAYOUT.items():
        toks = HTOKEN.findall(text)
        assert ''.join(toks) == text, (name, toks)
        n = len(toks)
        S.same(name, [text], text)
        for k in range(n + 1):
            left, right = ''.join(toks[:k]), ''.join(toks[k:])
            before, after = toks[k - 1] if k else '\n', toks[k] if k < n else '\n'
            at = '%s: before token %d (%s)' % (name, k, after if k < n else 'the end')
            # blanks
            for c in (' ', '\t', '  \t '):
                S.same('%s: blanks %r' % (at, c), [left + c + right], text)
            # a remark up to the end of a line
            if after == '\n':
                for j, c in enumerate(REMARK):
                    S.same('%s: remark %d' % (at, j), [left + ' ' + c + right], text)
                S.same('%s: a remark of any character' % at, [left + ' #', ('x', 32, 126), right], text)
                S.same('%s: a remark with strokes of any character' % at, [left + ' //', ('x', 32, 126), right], text)
            # line ends and remarks where a line may end
            if before in ('{', '[', ',', '\n') or after in ('}', ']', '\n') or (before in (']', '}') and after in (',', '\n')):
                for m in range(1, 3 if tier == 'quick' else 6):
                    rs = ''.join('%s%s\n' % (' ' * (j % 3), REMARK[(j + k) % 4]) for j in range(2 * m - 1))
                    S.same('%s: %d lines of remarks' % (at, 2 * m - 1), [left + '\n' + rs + '\n' + right], text)
                S.same('%s: blank lines' % at, [left + '\n \r\n\n' + right], text)
            # brackets and quotes balance
            for c in '}]"\'':
                S.reject('%s: an extra %s' % (at, c), [left + c + right])
            if k < n and after in ('{', '}', '[', ']'):
                S.reject('%s: missing' % at, [left + ' ' + ''.join(toks[k + 1:])])
            if 0 < k < n and left.count('{') + left.count('[') > left.count('}') + left.count(']'):
                S.reject('%s: cut' % at, [left])
    S.note()
