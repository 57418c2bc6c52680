"""Transfer functions for the standard-library primitives (everything else is MIR: the crates and models.rs)."""
import re
from terms import *
import mir as M
import interp as IN
from interp import OPTION_NONE, Some, Ok, Err, nt, mk_and, mk_or, mk_eq0, mk_ge0

T = {}


def nat(*names):
    def d(f):
        for n in names:
            T[n] = f
        return f
    return d


def deref(I, st, v):
    while v[0] == 'mref':
        v = I.read(st, v[1], v[2])
    return v


def lookup(I, st, fr, c, args):
    key = c['key']
    if c['kind'] == 'trait':
        h = T.get(key)
        if h is None:
            h = T.get('*::' + c['method']) if False else None
    else:
        seg = key.split('::')
        h = T.get('::'.join(seg[-2:]))
        if h is None and len(seg) >= 1 and (len(seg) < 2 or not seg[-2][:1].isupper()):
            h = T.get('~' + seg[-1])
    if h is not None:
        r = h(I, st, fr, c, args)
        if r is not None:
            return r
    # Rust-source models
    if c['kind'] == 'path':
        seg = key.split('::')
        if len(seg) >= 2:
            f = model(I, seg[-2] + '_' + seg[-1])
            if f is not None and not I.user_has(seg[-2], seg[-1]):
                return I.exec_fn(st, f, args, None)
    return None


def model(I, name):
    for f in I.p.free.get(name, []):
        if f.crate == 'models':
            return f
    return None


def _user_has(self, ty, m):
    return any(f.crate != 'models' and f.trait is None and M.type_head(f.selfty) == ty for f in self.p.methods.get(m, []))


IN.Interp.user_has = _user_has


def fallback(I, st, fr, c, args):
    """after user code did not resolve"""
    if c['kind'] == 'trait' and c['trait'] in ('Iterator', 'DoubleEndedIterator', 'ExactSizeIterator'):
        m = c['method']
        if m == 'collect':
            return collect(I, st, fr, c, args)
        if m in ('try_fold', 'try_for_each'):
            a = re.search(r'<(.*)>$', c.get('gen', ''))
            a = M.split_top(a.group(1)) if a else ['']
            m += '_result' if M.type_head(a[-1].strip()) == 'Result' else '_option'
        f = model(I, 'Iterator_' + m)
        if f is not None:
            args = [to_iter(I, st, args[0])] + list(args[1:])
            if m in ('chain', 'zip', 'eq', 'cmp') and len(args) > 1:
                args[1] = to_iter(I, st, args[1])
            return I.exec_fn(st, f, args, None)
        if m in ('cloned', 'copied', 'by_ref', 'into_iter', 'fuse'):
            return [(st, args[0])]
        if m == 'next_back':
            f = [x for x in I.p.methods.get('next_back', []) if x.crate == 'models' and M.type_head(x.selfty) == I.value_head(st, args[0])]
            if f:
                return I.exec_fn(st, f[0], args, None)
    if c['kind'] == 'path':
        seg = c['key'].split('::')
        if len(seg) >= 2:
            f = model(I, seg[-2] + '_' + seg[-1])
            if f is not None:
                return I.exec_fn(st, f, args, None)
        if len(args) == 1 and seg[-1] == 'clone':
            return [(st, args[0])]
    return None


@nat('~vf_iter')
def vf_iter(I, st, fr, c, args):
    return [(st, to_iter(I, st, args[0]))]


# ------------------------------------------------------------------ identity-like
def ident(I, st, fr, c, args):
    return [(st, args[0])]


def dident(I, st, fr, c, args):
    return [(st, deref(I, st, args[0]))]


def handwritten(I, c, st, args, trait):
    """user-written (not derived) impl of a std trait for the value's type"""
    head = None
    if c['kind'] == 'trait':
        head = M.type_head(c['self'])
    dyn = I.value_head(st, args[0]) if args else None
    for f in I.p.methods.get(c['method'], []):
        if f.trait == trait and f.crate != 'models' and M.type_head(f.selfty) in (head, dyn):
            if IN.trait_full(f.name) is not None:
                if not IN.is_param(head or 'X') or dyn == M.type_head(f.selfty):
                    return f
    return None


@nat('Clone::clone')
def clone(I, st, fr, c, args):
    if c['kind'] == 'trait':
        f = handwritten(I, c, st, args, 'Clone')
        if f is not None:
            return I.exec_fn(st, f, args, c['self'])
    return [(st, deref(I, st, args[0]))]


for n in ('Rc::new', 'Box::new', 'Arc::new', 'Pin::new', 'Rc::clone', 'Arc::clone', 'AsRef::as_ref', 'Borrow::borrow', 'ToOwned::to_owned',
          'String::as_str', 'str::as_str', 'String::from_str', 'Option::as_ref', 'Option::as_deref', 'Option::cloned', 'Option::copied', 'Result::as_ref',
          'slice::to_vec', 'Vec::as_slice', 'slice::as_ref', 'str::to_owned', 'str::to_string', 'Vec::into_boxed_slice', '~must_use', 'slice::into_vec',
          'Cow::into_owned', 'Rc::as_ref', 'Box::as_ref', 'str::into_string', 'String::into_boxed_str', 'Vec::from_slice', 'hint::black_box',
          'Cell::new', 'ManuallyDrop::new', 'String::as_ref', 'slice::concat_'):
    T[n] = dident


@nat('Deref::deref')
def deref_(I, st, fr, c, args):
    v = args[0]
    f = handwritten(I, c, st, args, 'Deref') if c['kind'] == 'trait' else None
    if f is not None:
        return I.exec_fn(st, f, args, c['self'])
    v = deref(I, st, v)
    if v[0] == 'refmut' or v[0] == 'cellref':
        return [(st, st.heap[v[1]])]
    return [(st, v)]


@nat('DerefMut::deref_mut', 'AsMut::as_mut', 'BorrowMut::borrow_mut')
def deref_mut(I, st, fr, c, args):
    v = args[0]
    d = deref(I, st, v)
    if d[0] in ('refmut', 'cellref'):
        return [(st, ('mref', d[1], ()))]
    return [(st, v)]


@nat('Into::into', 'From::from')
def from_(I, st, fr, c, args):
    m = c['method']
    if m == 'into':
        tgt = re.search(r'<(.*)>$', c.get('traitfull', ''))
        T_ = tgt.group(1) if tgt else '?'
        src = c['self']
    else:
        T_ = c['self'] if c['kind'] == 'trait' else '?'
        tgt = re.search(r'<(.*)>$', c.get('traitfull', ''))
        src = tgt.group(1) if tgt else '?'
    if T_ == 'Self' and fr is not None and fr.selfty:
        T_ = fr.selfty
    head = M.type_head(T_)
    cands = [f for f in I.p.methods.get('from', []) if f.trait == 'From' and M.type_head(f.selfty) == head and f.crate != 'models']
    if cands:
        if len(cands) > 1:
            ex = [f for f in cands if IN.norm_ty(f.argtys[0]) == IN.norm_ty(src)]
            if not ex:
                ex = [f for f in cands if M.type_head(f.argtys[0]) == (I.value_head(st, args[0]) or M.type_head(src))]
            cands = ex or cands
        return I.exec_fn(st, cands[0], args, T_)
    if m == 'into' and is_q(src):
        pass
    v = deref(I, st, args[0])
    if T_.strip() in IN.INTS or T_.strip() == 'char':
        return [(st, I.int_cast(st, v, T_.strip()))]
    if head in ('String', 'str', 'Box', 'Rc', 'Arc', 'Vec', 'Cow', 'Option', 'T', 'PathBuf', 'OsString') or M.type_head(src) == head:
        if head == 'Option' and not (v[0] == 'adt' and v[1] == 'Option') and M.type_head(src) != 'Option':
            return [(st, Some(v))]
        if head == 'String' and M.type_head(src) == 'char':
            return [(st, cat([('app', 'disp', ('app', 'char', v))]))]
        return [(st, v)]
    return None


def is_q(t):
    return t in ('?',)


@nat('TryFrom::try_from', 'TryInto::try_into')
def try_from(I, st, fr, c, args):
    tgt = c['self'] if c['method'] == 'try_from' else re.search(r'<(.*)>$', c.get('traitfull', '<?>')).group(1)
    v = deref(I, st, args[0])
    rng = None
    if tgt in IN.UNS_MAX:
        rng = (0, IN.UNS_MAX[tgt])
    elif tgt in IN.SIG:
        rng = IN.SIG[tgt]
    elif tgt in ('usize', 'u64', 'u128'):
        rng = (0, None)
    if rng is None:
        return None
    b = mk_ge0(sub(v, ('int', rng[0])))
    if rng[1] is not None:
        b = mk_and(b, mk_ge0(sub(('int', rng[1]), v)))
    return [(s, Ok(v) if k else Err(('app', 'TryFromIntError'))) for s, k in I.branch(st, b)]


@nat('Default::default')
def default(I, st, fr, c, args):
    ty = c.get('self', '?')
    h = M.type_head(ty)
    f = [x for x in I.p.methods.get('default', []) if x.trait == 'Default' and M.type_head(x.selfty) == h]
    if f:
        return I.exec_fn(st, f[0], args, ty)
    if h in ('HashMap', 'BTreeMap', 'FnvHashMap', 'HashSet'):
        return [(st, ('map', ('empty',), ()))]
    if h == 'Vec':
        return [(st, ('seq', ()))]
    if h in ('String', 'str'):
        return [(st, ('str', ''))]
    if h in IN.INTS:
        return [(st, ('int', 0))]
    if h == 'bool':
        return [(st, FALSE)]
    if h == 'Option':
        return [(st, OPTION_NONE)]
    if h in ('Rc', 'Box', 'RefCell'):
        inner = M.split_top(ty[ty.index('<') + 1:-1])[0]
        r = default(I, st, fr, {'self': inner, 'kind': 'trait', 'key': 'Default::default', 'method': 'default'}, args)
        if h == 'RefCell' and r:
            return [(s, s.alloc(v)) for s, v in r]
        return r
    return None


@nat('Option::unwrap_or_default', 'Result::unwrap_or_default')
def unwrap_or_default(I, st, fr, c, args):
    m = re.search(r'\b(Option|Result)(?:::)?<(.*)>::unwrap_or_default$', c['full'])
    f = m and model(I, m.group(1) + '_unwrap_or')
    if not f:
        return None
    ty = M.split_top(m.group(2))[0].strip()
    ds = [(st, UNIT)] if ty == '()' else default(I, st, fr, {'self': ty, 'kind': 'trait', 'key': 'Default::default', 'method': 'default'}, [])
    if ds is None:
        return None
    return [r for s, d in ds for r in I.exec_fn(s, f, [args[0], d], None)]


# ------------------------------------------------------------------ comparison
@nat('PartialEq::eq', 'PartialEq::ne')
def eq(I, st, fr, c, args):
    f = None
    if c['kind'] == 'trait':
        c2 = dict(c, method='eq')
        f = handwritten(I, c2, st, args, 'PartialEq')
    if f is not None:
        r = I.exec_fn(st, f, args, c['self'])
        return [(s, v if c['method'] == 'eq' else nt(v)) for s, v in r]
    a, b = deref(I, st, args[0]), deref(I, st, args[1])
    t = seq_eq(I, st, a, b)
    return [(st, t if c['method'] == 'eq' else nt(t))]


def seq_eq(I, st, a, b):
    a, b = st.norm(a), st.norm(b)
    if a == b:
        return TRUE
    if (a[0] in ('seq', 'slice') or b[0] in ('seq', 'slice')):
        la, lb = I.seqlen(st, a), I.seqlen(st, b)
        la, lb = st.norm(la), st.norm(lb)
        k = la if la[0] == 'int' else lb
        if k[0] == 'int' and k[1] <= 40:
            r = mk_eq0(sub(la, lb))
            if r == FALSE:
                return FALSE
            for i in range(k[1]):
                r = mk_and(r, I.eq_term(st, I.index(st, a, ('int', i)), I.index(st, b, ('int', i))))
            return r
    return I.eq_term(st, a, b)


def cmp_t(I, st, op, a, b, ty):
    return I.binop(st, op, a, b, ty)


@nat('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def pord(I, st, fr, c, args):
    c2 = dict(c, method='partial_cmp')
    f = handwritten(I, c2, st, args, 'PartialOrd')
    a, b = deref(I, st, args[0]), deref(I, st, args[1])
    if a[0] == 'mref':
        a = deref(I, st, a)
    op = {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[c['method']]
    return [(st, I.binop(st, op, a, b, M.type_head(c.get('self', '?'))))]


@nat('PartialOrd::partial_cmp', 'Ord::cmp')
def pcmp(I, st, fr, c, args):
    a, b = deref(I, st, args[0]), deref(I, st, args[1])
    out = []
    for s, lt in I.branch(st, mk_ge0(add(sub(b, a), ('int', -1)))):
        if lt:
            out.append((s, ('adt', 'Ordering', -1, 'Less', ())))
        else:
            for s2, e in I.branch(s, I.eq_term(s, a, b)):
                out.append((s2, ('adt', 'Ordering', 0, 'Equal', ()) if e else ('adt', 'Ordering', 1, 'Greater', ())))
    if c['method'] == 'partial_cmp':
        out = [(s, Some(v)) for s, v in out]
    return out


@nat('Ord::max', 'Ord::min', 'cmp::max', 'cmp::min', 'usize::max', 'usize::min', 'i64::max', 'i64::min')
def minmax(I, st, fr, c, args):
    a, b = args
    out = []
    mx = c['method'] == 'max'
    for s, ge in I.branch(st, mk_ge0(sub(a, b))):
        out.append((s, (a if ge else b) if mx else (b if ge else a)))
    return out


# ------------------------------------------------------------------ numbers
INT_RANGE = dict({'u%d' % b: (0, 2**b - 1) for b in (8, 16, 32, 64, 128)}, **{'i%d' % b: (-2**(b - 1), 2**(b - 1) - 1) for b in (8, 16, 32, 64, 128)})


def int_ty(c):
    m = re.search(r'\b([ui](?:8|16|32|64|128|size))\b', c['full'])
    return m.group(1) if m else None


def bounded(I, st, r, ty):
    """[(state, 0 in range, -1 below, 1 above)]; usize and unknown types have no upper end"""
    lo, hi = INT_RANGE.get(ty, (None if ty == 'isize' else 0, None))
    out = []
    for s, a in [(st, True)] if lo is None else I.branch(st, mk_ge0(sub(r, ('int', lo)))):
        if not a:
            out.append((s, -1))
            continue
        for s2, b in [(s, True)] if hi is None else I.branch(s, mk_ge0(sub(('int', hi), r))):
            out.append((s2, 0 if b else 1))
    return out


_OPS = ('add', 'sub', 'mul')


@nat(*['%s::%s_%s' % (t, k, o) for t in ('num', 'usize', 'u8', 'u16', 'u32', 'u64', 'i32', 'i64', 'i128', 'u128') for k in ('checked', 'saturating', 'wrapping') for o in _OPS])
def int_arith(I, st, fr, c, args):
    ty = int_ty(c)
    kind, o = c['method'].split('_')
    a, b = deref(I, st, args[0]), deref(I, st, args[1])
    if o == 'mul' and a[0] != 'int' and b[0] != 'int':
        return None
    r = add(a, b) if o == 'add' else sub(a, b) if o == 'sub' else mulk(b, a[1]) if a[0] == 'int' else mulk(a, b[1])
    # the length of anything is far from the end of usize
    if ty in (None, 'usize') and (o != 'sub' or kind == 'wrapping'):
        return [(st, Some(r) if kind == 'checked' else r)]
    out = []
    for s, k in bounded(I, st, r, ty):
        if kind == 'checked':
            out.append((s, Some(r) if k == 0 else OPTION_NONE))
        elif k == 0:
            out.append((s, r))
        elif kind == 'saturating':
            out.append((s, ('int', INT_RANGE.get(ty, (0, 0))[0 if k < 0 else 1])))
        else:
            lo, hi = INT_RANGE.get(ty, (None, None))
            if r[0] != 'int' or lo is None:
                return None
            out.append((s, ('int', (r[1] - lo) % (hi - lo + 1) + lo)))
    return out


@nat(*['num::%s' % m for m in ('checked_div', 'checked_rem', 'checked_div_euclid', 'checked_rem_euclid', 'div_euclid', 'rem_euclid', 'wrapping_div', 'wrapping_rem', 'is_multiple_of')])
def int_division(I, st, fr, c, args):
    ty, m = int_ty(c), c['method']
    a, b = deref(I, st, args[0]), deref(I, st, args[1])
    signed = ty is None or ty[0] == 'i'
    if signed and not (b[0] == 'int' and b[1] > 0 and ('euclid' not in m or st.proves(a))):
        return None
    out = []
    for s, zero in I.branch(st, mk_eq0(b)):
        if m == 'is_multiple_of':
            out.append((s, mk_eq0(a if zero else I.binop(s, 'Rem', a, b, ty))))
        elif zero and m.startswith('checked'):
            out.append((s, OPTION_NONE))
        elif zero:
            I.panic(s, 'div0', fr.fn, m + ' by zero')
        else:
            r = I.binop(s, 'Rem' if 'rem' in m else 'Div', a, b, ty)
            out.append((s, Some(r) if m.startswith('checked') else r))
    return out


@nat('num::abs', 'num::pow', 'num::unsigned_abs', 'num::abs_diff', 'num::checked_pow', 'num::signum')
def int_unary(I, st, fr, c, args):
    a = deref(I, st, args[0])
    ty, m = int_ty(c), c['method']
    if m in ('pow', 'checked_pow'):
        k = deref(I, st, args[1])
        if a[0] != 'int' or k[0] != 'int':
            return None
        r = ('int', a[1] ** k[1])
        lo, hi = INT_RANGE.get(ty, (0, 2**64 - 1))
        fits = lo <= r[1] <= hi
        if m == 'checked_pow':
            return [(st, Some(r) if fits else OPTION_NONE)]
        if fits:
            return [(st, r)]
        I.panic(st, 'overflow', fr.fn, 'pow overflows')
        return []
    if m == 'abs_diff':
        d = sub(a, deref(I, st, args[1]))
        return [(s, d if k else mulk(d, -1)) for s, k in I.branch(st, mk_ge0(d))]
    if m == 'signum':
        return [(s2, ('int', 1 if p and q else 0 if p else -1)) for s, p in I.branch(st, mk_ge0(a)) for s2, q in ([(s, None)] if not p else I.branch(s, mk_ge0(add(a, ('int', -1)))))]
    out = []
    for s, k in I.branch(st, mk_ge0(a)):
        if k or m == 'unsigned_abs':
            out.append((s, a if k else mulk(a, -1)))
            continue
        lo = INT_RANGE.get(ty, (None,))[0]
        for s2, ok in [(s, True)] if lo is None else I.branch(s, mk_ge0(sub(a, ('int', lo + 1)))):
            if ok:
                out.append((s2, mulk(a, -1)))
            else:
                I.panic(s2, 'overflow', fr.fn, 'abs overflows')
    return out


for _t in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64', 'char'):
    def _eqi(I, st, fr, c, args):
        return None


def in_range(x, lo, hi):
    return mk_and(mk_ge0(sub(x, ('int', lo))), mk_ge0(sub(('int', hi), x)))


def cls(name):
    R = {'is_ascii_digit': [(48, 57)], 'is_ascii_alphabetic': [(65, 90), (97, 122)], 'is_ascii_alphanumeric': [(48, 57), (65, 90), (97, 122)],
         'is_ascii_hexdigit': [(48, 57), (65, 70), (97, 102)], 'is_ascii_uppercase': [(65, 90)], 'is_ascii_lowercase': [(97, 122)],
         'is_ascii_punctuation': [(33, 47), (58, 64), (91, 96), (123, 126)], 'is_ascii_graphic': [(33, 126)], 'is_ascii_whitespace': [(9, 10), (12, 13), (32, 32)],
         'is_ascii_control': [(0, 31), (127, 127)], 'is_ascii': [(0, 127)], 'is_ascii_octdigit': [(48, 55)]}
    return R.get(name)


def _mk_cls(name):
    def h(I, st, fr, c, args):
        v = deref(I, st, args[0])
        if v[0] in ('seq', 'slice', 'str', 'cat'):
            return None
        r = FALSE
        for lo, hi in cls(name):
            r = mk_or(r, in_range(v, lo, hi) if lo != hi else mk_eq0(sub(v, ('int', lo))))
        return [(st, r)]
    return h


for _n in ('is_ascii_digit', 'is_ascii_alphabetic', 'is_ascii_alphanumeric', 'is_ascii_hexdigit', 'is_ascii_uppercase', 'is_ascii_lowercase',
           'is_ascii_punctuation', 'is_ascii_graphic', 'is_ascii_whitespace', 'is_ascii_control', 'is_ascii', 'is_ascii_octdigit'):
    for _t in ('u8', 'char', 'num', 'methods'):
        T[_t + '::' + _n] = _mk_cls(_n)


@nat('char::is_digit', 'methods::is_digit')
def is_digit(I, st, fr, c, args):
    v, r = deref(I, st, args[0]), args[1]
    if r[0] != 'int':
        return None
    r = r[1]
    b = in_range(v, 48, 47 + min(r, 10))
    if r > 10:
        b = mk_or(b, mk_or(in_range(v, 65, 64 + r - 10), in_range(v, 97, 96 + r - 10)))
    return [(st, b)]


@nat('char::eq_ignore_ascii_case', 'methods::eq_ignore_ascii_case', 'u8::eq_ignore_ascii_case', 'num::eq_ignore_ascii_case')
def eq_ic(I, st, fr, c, args):
    a, b = st.norm(deref(I, st, args[0])), st.norm(deref(I, st, args[1]))
    if a[0] == 'int' and b[0] == 'int':
        f = lambda n: n + 32 if 65 <= n <= 90 else n
        return [(st, ('bool', f(a[1]) == f(b[1])))]
    la, lb = lower(I, a), lower(I, b)
    if IN._oidx(la) > IN._oidx(lb):
        la, lb = lb, la
    return [(st, TRUE if la == lb else ('app', 'eq', la, lb))]


def lower(I, a):
    if a[0] == 'int':
        return ('int', a[1] + 32 if 65 <= a[1] <= 90 else a[1])
    if a[0] == 'app' and a[1] == 'lower':
        return a
    return ('app', 'lower', a)


@nat('char::to_ascii_uppercase', 'methods::to_ascii_uppercase', 'u8::to_ascii_uppercase')
def to_upper(I, st, fr, c, args):
    a = st.norm(deref(I, st, args[0]))
    if a[0] == 'int':
        return [(st, ('int', a[1] - 32 if 97 <= a[1] <= 122 else a[1]))]
    return [(st, ('app', 'upper', a))]


@nat('char::to_ascii_lowercase', 'methods::to_ascii_lowercase', 'u8::to_ascii_lowercase')
def to_lower(I, st, fr, c, args):
    return [(st, lower(I, st.norm(deref(I, st, args[0]))))]


@nat('char::to_digit', 'methods::to_digit')
def to_digit(I, st, fr, c, args):
    v, r = deref(I, st, args[0]), args[1]
    if r[0] != 'int':
        return None
    out = []
    for s, k in I.branch(st, in_range(v, 48, 47 + min(10, r[1]))):
        if k:
            out.append((s, Some(sub(v, ('int', 48)))))
        elif r[1] > 10:
            for s2, k2 in I.branch(s, in_range(v, 65, 54 + r[1])):
                if k2:
                    out.append((s2, Some(sub(v, ('int', 55)))))
                else:
                    for s3, k3 in I.branch(s2, in_range(v, 97, 86 + r[1])):
                        out.append((s3, Some(sub(v, ('int', 87))) if k3 else OPTION_NONE))
        else:
            out.append((s, OPTION_NONE))
    return out


@nat('char::from_u32', '~from_u32', 'char::from')
def from_u32(I, st, fr, c, args):
    v = args[0]
    r = ('app', 'char_from_u32', v)
    return [(st, r)]


# ------------------------------------------------------------------ slices and vectors
@nat('slice::len', 'Vec::len', 'VecDeque::len', 'ExactSizeIterator::len')
def slen(I, st, fr, c, args):
    v = deref(I, st, args[0])
    if v[0] == 'map':
        return None
    if v[0] == 'adt' and v[1] == 'SliceIter':
        return [(st, sub(v[4][2], v[4][1]))]
    return [(st, I.seqlen(st, v))]


@nat('slice::is_empty', 'Vec::is_empty')
def sempty(I, st, fr, c, args):
    return [(st, mk_eq0(I.seqlen(st, deref(I, st, args[0]))))]


@nat('slice::get')
def sget(I, st, fr, c, args):
    v = deref(I, st, args[0])
    i = args[1]
    if i[0] == 'adt':
        return slice_get_range(I, st, v, i)
    n = I.seqlen(st, v)
    out = []
    for s, k in I.branch(st, mk_and(mk_ge0(i), mk_ge0(add(sub(n, i), ('int', -1))))):
        out.append((s, Some(I.index(s, v, i)) if k else OPTION_NONE))
    return out


@nat('slice::get_unchecked')
def sget_u(I, st, fr, c, args):
    return [(st, I.index(st, deref(I, st, args[0]), args[1]))]


@nat('~vf_get')
def vf_get(I, st, fr, c, args):
    return [(st, I.index(st, deref(I, st, args[0]), args[1]))]


def range_bounds(I, st, v, r):
    n = I.seqlen(st, v)
    nm = r[1]
    if nm == 'Range':
        return r[4][0], r[4][1], n
    if nm == 'RangeFrom':
        return r[4][0], n, n
    if nm == 'RangeTo':
        return ('int', 0), r[4][0], n
    if nm == 'RangeFull':
        return ('int', 0), n, n
    if nm == 'RangeInclusive':
        return r[4][0], add(r[4][1], ('int', 1)), n
    if nm == 'RangeToInclusive':
        return ('int', 0), add(r[4][0], ('int', 1)), n
    return None


def slice_get_range(I, st, v, r):
    b = range_bounds(I, st, v, r)
    if b is None:
        return None
    lo, hi, n = b
    out = []
    for s, k in I.branch(st, mk_and(mk_ge0(sub(hi, lo)), mk_ge0(sub(n, hi)))):
        out.append((s, Some(I.mkslice(s, v, lo, sub(hi, lo))) if k else OPTION_NONE))
    return out


@nat('slice::first')
def sfirst(I, st, fr, c, args):
    v = deref(I, st, args[0])
    n = I.seqlen(st, v)
    return [(s, Some(I.index(s, v, ('int', 0))) if k else OPTION_NONE) for s, k in I.branch(st, mk_ge0(add(n, ('int', -1))))]


@nat('slice::last')
def slast(I, st, fr, c, args):
    v = deref(I, st, args[0])
    n = I.seqlen(st, v)
    return [(s, Some(I.index(s, v, add(n, ('int', -1)))) if k else OPTION_NONE) for s, k in I.branch(st, mk_ge0(add(n, ('int', -1))))]


@nat('Vec::first', 'Vec::last', 'Vec::get')
def vec_as_slice(I, st, fr, c, args):
    return T['slice::' + c['method']](I, st, fr, c, args)


@nat('slice::split_first', 'slice::split_last')
def split_first(I, st, fr, c, args):
    v = deref(I, st, args[0])
    n = I.seqlen(st, v)
    out = []
    for s, k in I.branch(st, mk_ge0(add(n, ('int', -1)))):
        if not k:
            out.append((s, OPTION_NONE))
        elif c['method'] == 'split_first':
            out.append((s, Some(('tup', (I.index(s, v, ('int', 0)), I.mkslice(s, v, ('int', 1), add(n, ('int', -1))))))))
        else:
            out.append((s, Some(('tup', (I.index(s, v, add(n, ('int', -1))), I.mkslice(s, v, ('int', 0), add(n, ('int', -1))))))))
    return out


@nat('slice::split_at')
def split_at(I, st, fr, c, args):
    v = deref(I, st, args[0])
    n = I.seqlen(st, v)
    out = []
    for s, k in I.branch(st, mk_ge0(sub(n, args[1]))):
        if not k:
            I.panic(s, 'index', fr.fn, 'split_at out of range')
            continue
        out.append((s, ('tup', (I.mkslice(s, v, ('int', 0), args[1]), I.mkslice(s, v, args[1], sub(n, args[1]))))))
    return out


@nat('slice::contains')
def scontains(I, st, fr, c, args):
    v, x = deref(I, st, args[0]), deref(I, st, args[1])
    if v[0] == 'seq' and all(p[0] == 'e' for p in v[1]):
        r = FALSE
        for p in v[1]:
            r = mk_or(r, I.eq_term(st, p[1], x))
        return [(st, r)]
    return [(st, ('app', 'contains', v, x))]


@nat('slice::starts_with')
def sstarts(I, st, fr, c, args):
    v, x = deref(I, st, args[0]), deref(I, st, args[1])
    n, m = I.seqlen(st, v), I.seqlen(st, x)
    if m[0] == 'int' and m[1] <= 40:
        r = mk_ge0(sub(n, m))
        for i in range(m[1]):
            r = mk_and(r, I.eq_term(st, I.index(st, v, ('int', i)), I.index(st, x, ('int', i))))
        return [(st, r)]
    return [(st, ('app', 'starts_with', v, x))]


@nat('Index::index', 'IndexMut::index_mut')
def index(I, st, fr, c, args):
    f = handwritten(I, c, st, args, 'Index') if c['method'] == 'index' else None
    if f is not None:
        return I.exec_fn(st, f, args, c['self'])
    a0 = args[0]
    v = deref(I, st, a0)
    i = args[1]
    if v[0] == 'map' or M.type_head(c['self']) in ('HashMap', 'BTreeMap'):
        out = []
        for s, r in map_get(I, st, v, deref(I, st, i)):
            if r == OPTION_NONE:
                I.panic(s, 'index', fr.fn, 'missing map key')
            else:
                out.append((s, r[4][0]))
        return out
    if i[0] == 'adt' and i[1].startswith('Range'):
        lo, hi, n = range_bounds(I, st, v, i)
        out = []
        for s, k in I.branch(st, mk_and(mk_ge0(sub(hi, lo)), mk_and(mk_ge0(lo), mk_ge0(sub(n, hi))))):
            if k:
                out.append((s, I.mkslice(s, v, lo, sub(hi, lo))))
            else:
                I.panic(s, 'slice', fr.fn, 'slice index %s..%s of length %s' % (show(lo), show(hi), show(n)))
        return out
    if v[0] in ('seq', 'slice', 'sym', 'app') and M.type_head(c['self']) in ('Vec', '[]', 'slice') or v[0] in ('seq', 'slice'):
        n = I.seqlen(st, v)
        out = []
        for s, k in I.branch(st, mk_and(mk_ge0(i), mk_ge0(add(sub(n, i), ('int', -1))))):
            if k:
                if c['method'] == 'index_mut':
                    out.append((s, ('mref', a0[1], a0[2] + (('at', i),))))
                else:
                    out.append((s, I.index(s, v, i)))
            else:
                I.panic(s, 'index', fr.fn, 'index %s of length %s' % (show(i), show(n)))
        return out
    return None


@nat('Vec::new', 'Vec::with_capacity', 'VecDeque::new')
def vnew(I, st, fr, c, args):
    return [(st, ('seq', ()))]


@nat('Vec::push', 'VecDeque::push_back')
def vpush(I, st, fr, c, args):
    m = args[0]
    if m[0] != 'mref':
        return None
    v = deref(I, st, m)
    I.write(st, m[1], list(m[2]), seq_cat(v, ('seq', (('e', args[1]),))))
    return [(st, UNIT)]


@nat('Vec::insert')
def vinsert(I, st, fr, c, args):
    m = args[0]
    v = deref(I, st, m)
    if args[1] == ('int', 0):
        I.write(st, m[1], list(m[2]), seq_cat(('seq', (('e', args[2]),)), v))
        return [(st, UNIT)]
    return None


def seq_cat(a, b):
    def parts(x):
        return x[1] if x[0] == 'seq' else (('s', x),)
    return ('seq', parts(a) + parts(b))


@nat('Vec::pop')
def vpop(I, st, fr, c, args):
    m = args[0]
    v = deref(I, st, m)
    if v[0] == 'seq':
        if not v[1]:
            return [(st, OPTION_NONE)]
        if v[1][-1][0] == 'e':
            I.write(st, m[1], list(m[2]), ('seq', v[1][:-1]))
            return [(st, Some(v[1][-1][1]))]
    n = I.seqlen(st, v)
    out = []
    for s, k in I.branch(st, mk_ge0(add(n, ('int', -1)))):
        if k:
            x = I.index(s, v, add(n, ('int', -1)))
            I.write(s, m[1], list(m[2]), I.mkslice(s, v, ('int', 0), add(n, ('int', -1))))
            out.append((s, Some(x)))
        else:
            out.append((s, OPTION_NONE))
    return out


@nat('Vec::extend_from_slice', 'Vec::append', 'Extend::extend', 'Vec::extend')
def vextend(I, st, fr, c, args):
    m = args[0]
    v = deref(I, st, m)
    x = deref(I, st, args[1])
    if v[0] == 'map':
        return None
    if v[0] in ('str', 'cat') or M.type_head(c.get('self') or '') == 'String':
        kind = re.search(r"Extend<&?\s*(?:'\w+\s+)?(\w+)", c['full'])
        if x[0] == 'adt' and x[1] == 'Option':
            xs = [(st, list(x[4]))]
        elif x[0] == 'seq' and all(p[0] == 'e' for p in x[1]):
            xs = [(st, [p[1] for p in x[1]])]
        elif x[0] == 'adt' and x[1] != 'Result':
            xs = [(s, [p[1] for p in w[1]] if w[0] == 'seq' and all(p[0] == 'e' for p in w[1]) else None) for s, w in I.exec_fn(st, model(I, 'Iterator_collect_vec'), [x], None)]
        else:
            return None
        if not kind or kind.group(1) not in ('char', 'str', 'String') or any(es is None for _, es in xs):
            return None
        out = []
        for s, es in xs:
            es = [deref(I, s, e) for e in es]
            if kind.group(1) == 'char':
                es = [('str', chr(e[1])) if e[0] == 'int' else ('app', 'disp', ('app', 'char', e)) for e in es]
            I.write(s, m[1], list(m[2]), cat([deref(I, s, m)] + es))
            out.append((s, UNIT))
        return out
    if x[0] == 'adt' and x[1] in ('SliceIter',):
        x = I.mkslice(st, x[4][0], x[4][1], sub(x[4][2], x[4][1]))
    elif x[0] == 'adt' and x[1] == 'OptIter':
        o = x[4][0]
        if o[0] == 'adt':
            x = ('seq', tuple(('e', e) for e in o[4]))
        else:
            return None
    elif x[0] == 'adt' and x[1] == 'Option':
        x = ('seq', tuple(('e', e) for e in x[4]))
    elif x[0] == 'adt':
        f = model(I, 'Iterator_collect_vec')
        out = []
        for s, w in I.exec_fn(st, f, [x], None):
            I.write(s, m[1], list(m[2]), seq_cat(deref(I, s, m), w))
            out.append((s, UNIT))
        return out
    I.write(st, m[1], list(m[2]), seq_cat(v, x))
    if c['method'] == 'append':
        I.write(st, args[1][1], list(args[1][2]), ('seq', ()))
    return [(st, UNIT)]


@nat('Vec::clear', 'HashMap::clear', 'String::clear')
def vclear(I, st, fr, c, args):
    m = args[0]
    e = {'Vec': ('seq', ()), 'HashMap': ('map', ('empty',), ()), 'String': ('str', '')}[c['key'].split('::')[-2]]
    I.write(st, m[1], list(m[2]), e)
    return [(st, UNIT)]


@nat('Vec::truncate')
def vtrunc(I, st, fr, c, args):
    m = args[0]
    v = deref(I, st, m)
    n = I.seqlen(st, v)
    out = []
    for s, k in I.branch(st, mk_ge0(sub(n, args[1]))):
        if k:
            I.write(s, m[1], list(m[2]), I.mkslice(s, v, ('int', 0), args[1]))
        out.append((s, UNIT))
    return out


def places(I, st, m):
    """the mutable places of the members of a collection of known extent, as a sequence (of key and place for a map); None when unknown"""
    while m[0] == 'mref' and I.read(st, m[1], m[2])[0] == 'mref':
        m = I.read(st, m[1], m[2])
    if m[0] != 'mref':
        return None
    v = deref(I, st, m)
    if v[0] == 'slice':
        lo, n = st.norm(v[2]), st.norm(v[3])
        if v[1][0] != 'seq' or any(p[0] != 'e' for p in v[1][1]) or lo[0] != 'int' or n[0] != 'int':
            return None
        v = ('seq', v[1][1][lo[1]:lo[1] + n[1]])
        I.write(st, m[1], list(m[2]), v)
    if v[0] == 'seq' and all(p[0] == 'e' for p in v[1]):
        return ('seq', tuple(('e', ('mref', m[1], tuple(m[2]) + (('at', ('int', i)),))) for i in range(len(v[1]))))
    if v[0] == 'map' and v[1] == ('empty',):
        es = [k for k, x in v[2] if x != ('removed',)]
        if I.hooks.get('rev_maps'):
            es = es[::-1]
        return ('seq', tuple(('e', ('tup', (k, ('mref', m[1], tuple(m[2]) + (('mapk', k),))))) for k in es))
    return None


@nat('slice::iter_mut', 'Vec::iter_mut', 'HashMap::iter_mut', 'BTreeMap::iter_mut', 'HashMap::values_mut', 'BTreeMap::values_mut', 'VecDeque::iter_mut')
def iter_mut(I, st, fr, c, args):
    ps = places(I, st, args[0])
    if ps is None:
        return None
    if c['method'] == 'values_mut':
        ps = ('seq', tuple(('e', p[1][1][1]) for p in ps[1]))
    return [(st, slice_iter(I, st, ps))]


@nat('HashMap::values', 'HashMap::keys', 'HashMap::into_values', 'HashMap::into_keys', 'BTreeMap::values', 'BTreeMap::keys')
def map_column(I, st, fr, c, args):
    m = as_map(deref(I, st, args[0]))
    es = map_entries(m, I.hooks.get('rev_maps'))
    if es[0] != 'seq':
        return None
    k = 0 if 'keys' in c['method'] else 1
    return [(st, slice_iter(I, st, ('seq', tuple(('e', p[1][1][k]) for p in es[1]))))]


@nat('Vec::retain', 'Vec::retain_mut', 'HashMap::retain', 'BTreeMap::retain')
def retain(I, st, fr, c, args):
    ps = places(I, st, args[0])
    if ps is None:
        return None
    m = args[0]
    cur = [(st, ())]
    for p in ps[1]:
        nxt = []
        for s, kept in cur:
            x = p[1]
            a = list(x[1]) if x[0] == 'tup' else [x]
            if c['method'] == 'retain' and x[0] == 'mref':
                a = [deref(I, s, x)]
            for s2, r in I.apply(s, args[1], a):
                for s3, b in I.branch(s2, s2.norm(r)):
                    nxt.append((s3, kept + (x,) if b else kept))
        cur = nxt
    out = []
    for s, kept in cur:
        v = deref(I, s, m)
        if v[0] == 'map':
            keys = {x[1][0] for x in kept}
            v = ('map', v[1], tuple(e for e in v[2] if e[0] in keys))
        else:
            v = ('seq', tuple(('e', deref(I, s, x)) for x in kept))
        I.write(s, m[1], list(m[2]), v)
        out.append((s, UNIT))
    return out


@nat('slice::first_mut', 'slice::last_mut', 'Vec::first_mut', 'Vec::last_mut', 'slice::get_mut', 'Vec::get_mut', 'VecDeque::back_mut', 'VecDeque::front_mut')
def member_mut(I, st, fr, c, args):
    ps = places(I, st, args[0])
    if ps is None:
        return None
    ps = ps[1]
    if c['method'] == 'get_mut':
        i = st.norm(args[1])
        if i[0] != 'int':
            return None
        i = i[1]
    else:
        i = 0 if c['method'] in ('first_mut', 'front_mut') else len(ps) - 1
    return [(st, Some(ps[i][1]) if 0 <= i < len(ps) else OPTION_NONE)]


@nat('Vec::remove', 'Vec::swap_remove', 'Vec::split_off', 'VecDeque::pop_front')
def vremove(I, st, fr, c, args):
    m = args[0]
    v = deref(I, st, m)
    i = st.norm(args[1]) if len(args) > 1 else ('int', 0)
    if v[0] != 'seq' or any(p[0] != 'e' for p in v[1]) or i[0] != 'int':
        return None
    k, ps = i[1], v[1]
    if c['method'] == 'pop_front' and not ps:
        return [(st, OPTION_NONE)]
    if k >= len(ps) + (c['method'] == 'split_off'):
        I.panic(st, 'index', fr.fn, '%s(%d) of a vector of length %d' % (c['method'], k, len(ps)))
        return []
    if c['method'] == 'split_off':
        I.write(st, m[1], list(m[2]), ('seq', ps[:k]))
        return [(st, ('seq', ps[k:]))]
    rest = ps[:k] + ps[k + 1:] if c['method'] != 'swap_remove' or k == len(ps) - 1 else ps[:k] + ps[-1:] + ps[k + 1:-1]
    I.write(st, m[1], list(m[2]), ('seq', rest))
    return [(st, Some(ps[k][1]) if c['method'] == 'pop_front' else ps[k][1])]


@nat('Vec::insert', 'VecDeque::push_front')
def vinsert(I, st, fr, c, args):
    m = args[0]
    v = deref(I, st, m)
    front = c['method'] == 'push_front'
    i = ('int', 0) if front else st.norm(args[1])
    if v[0] != 'seq' or any(p[0] != 'e' for p in v[1]) or i[0] != 'int':
        return None
    if i[1] > len(v[1]):
        I.panic(st, 'index', fr.fn, 'insert(%d) into a vector of length %d' % (i[1], len(v[1])))
        return []
    I.write(st, m[1], list(m[2]), ('seq', v[1][:i[1]] + (('e', args[-1]),) + v[1][i[1]:]))
    return [(st, ('tup', ()))]


@nat('slice::chunks', 'slice::chunks_exact', 'slice::windows')
def chunks(I, st, fr, c, args):
    v, n = deref(I, st, args[0]), st.norm(args[1])
    if v[0] != 'seq' or any(p[0] != 'e' for p in v[1]) or n[0] != 'int' or n[1] < 1:
        return None
    ps, n = v[1], n[1]
    if c['method'] == 'windows':
        parts = [ps[i:i + n] for i in range(len(ps) - n + 1)]
    else:
        parts = [ps[i:i + n] for i in range(0, len(ps), n) if i + n <= len(ps) or c['method'] == 'chunks']
    return [(st, slice_iter(I, st, ('seq', tuple(('e', ('seq', p)) for p in parts))))]


@nat('slice::reverse')
def srev(I, st, fr, c, args):
    m = args[0]
    if m[0] != 'mref':
        return None
    v = deref(I, st, m)
    I.write(st, m[1], list(m[2]), rev(v))
    return [(st, UNIT)]


def rev(v):
    if v[0] == 'seq':
        return ('seq', tuple(('e', p[1]) if p[0] == 'e' else ('s', rev(p[1])) for p in reversed(v[1])))
    if v[0] == 'app' and v[1] == 'rev':
        return v[2]
    return ('app', 'rev', v)


@nat('slice::iter', 'Vec::iter', 'slice::into_iter', 'Vec::into_iter', 'Vec::drain_all')
def siter(I, st, fr, c, args):
    v = deref(I, st, args[0])
    return [(st, slice_iter(I, st, v))]


def slice_iter(I, st, v):
    return ('adt', 'SliceIter', 0, None, (v, ('int', 0), I.seqlen(st, v)))


@nat('iter::once', 'once')
def iter_once(I, st, fr, c, args):
    return [(st, slice_iter(I, st, ('seq', (('e', args[0]),))))]


@nat('iter::empty')
def iter_empty(I, st, fr, c, args):
    return [(st, slice_iter(I, st, ('seq', ())))]


@nat('str::chars')
def schars(I, st, fr, c, args):
    v = deref(I, st, args[0])
    b = ('app', 'chars', v) if not (v[0] == 'app' and v[1] == 'fromchars') else v[2]
    return [(st, ('adt', 'SliceIter', 0, None, (b, ('int', 0), I.seqlen(st, b))))]


@nat('str::char_indices')
def schar_idx(I, st, fr, c, args):
    v = deref(I, st, args[0])
    st.note('char_indices')
    return None


@nat('str::bytes')
def sbytes(I, st, fr, c, args):
    v = deref(I, st, args[0])
    b = bytes_of(v)
    return [(st, ('adt', 'SliceIter', 0, None, (b, ('int', 0), I.seqlen(st, b))))]


def bytes_of(v):
    if v[0] == 'str':
        return ('seq', tuple(('e', ('int', x)) for x in v[1].encode()))
    return ('app', 'bytes', v)


@nat('str::as_bytes', 'String::into_bytes', 'String::as_bytes')
def as_bytes(I, st, fr, c, args):
    return [(st, bytes_of(deref(I, st, args[0])))]


@nat('IntoIterator::into_iter')
def into_iter(I, st, fr, c, args):
    f = handwritten(I, c, st, args, 'IntoIterator')
    if f is not None:
        return I.exec_fn(st, f, args, c['self'])
    v = args[0]
    if v[0] == 'mref':
        d = deref(I, st, v)
        h = I.value_head(st, v)
        if c['self'].startswith('&mut') and d[0] in ('seq', 'slice', 'map'):
            ps = places(I, st, v)
            if ps is None:
                st.note('iter_mut')
                return None
            return [(st, slice_iter(I, st, ps))]
        if d[0] in ('seq', 'slice'):
            return [(st, to_iter(I, st, d))]
        return [(st, v)]
    return [(st, to_iter(I, st, v, c.get('self')))]


def to_iter(I, st, v, ty=None):
    d = deref(I, st, v)
    if d[0] in ('seq', 'slice'):
        return slice_iter(I, st, d)
    if d[0] == 'adt':
        if d[1] == 'Option':
            return ('adt', 'OptIter', 0, None, (d,))
        return v
    if d[0] == 'map':
        e = map_entries(d, I.hooks.get('rev_maps'))
        return slice_iter(I, st, e)
    h = M.type_head(ty) if ty else ''
    if h in ('Vec', '[]', 'IntoIter', 'Iter'):
        return slice_iter(I, st, d)
    if h in ('HashMap', 'BTreeMap'):
        return slice_iter(I, st, ('app', 'entries', d))
    if h == 'Option':
        return ('adt', 'OptIter', 0, None, (d,))
    return v


@nat('Iterator::next')
def it_next(I, st, fr, c, args):
    # user-defined or modelled iterators resolve by value; opaque ones stay opaque
    return None


@nat('Iterator::count')
def it_count(I, st, fr, c, args):
    v = deref(I, st, args[0])
    if v[0] == 'adt' and v[1] == 'SliceIter':
        return [(st, sub(v[4][2], v[4][1]))]
    return None


@nat('Iterator::collect')
def collect(I, st, fr, c, args):
    it = to_iter(I, st, args[0])
    ty = c.get('gen', '')
    m = re.search(r'<(.*)>$', ty)
    t = m.group(1) if m else 'Vec'
    h = M.type_head(t)
    r = bulk(I, st, it)
    if r is not None:
        if h in ('Vec', '[]', '_', 'Box', 'Rc', 'VecDeque'):
            return [(s, v) for s, v in r]
        if h == 'String':
            return [(s, str_of_chars(I, s, v)) for s, v in r]
    name = {'Vec': 'vec', 'String': 'string', 'HashMap': 'map', 'Result': 'result', 'Option': 'option', '[]': 'vec', '_': 'vec', 'BTreeMap': 'map',
            'VecDeque': 'vec'}.get(h)
    if name is None:
        return None
    return I.exec_fn(st, model(I, 'Iterator_collect_' + name), [it], None)


@nat('FromIterator::from_iter')
def from_iter(I, st, fr, c, args):
    h = M.type_head(c['self'])
    it = to_iter(I, st, args[0], None)
    if deref(I, st, args[0])[0] in ('sym', 'app'):
        it = slice_iter(I, st, deref(I, st, args[0]))
    r = bulk(I, st, it)
    if r is not None and h == 'String':
        return [(s, str_of_chars(I, s, v)) for s, v in r]
    if r is not None and h == 'Vec':
        return r
    name = {'Vec': 'vec', 'String': 'string', 'HashMap': 'map'}.get(h)
    if name is None:
        return None
    return I.exec_fn(st, model(I, 'Iterator_collect_' + name), [it], None)


def bulk(I, st, it):
    """whole-sequence meaning of an iterator pipeline over a sequence of unknown length"""
    it = deref(I, st, it)
    if it[0] != 'adt':
        return None
    if it[1] == 'SliceIter':
        s, i, n = it[4]
        return [(st, I.mkslice(st, s, i, sub(n, i)))]
    if it[1] == 'Map':
        inner = bulk(I, st, it[4][0])
        if inner is None:
            return None
        out = []
        for s, seq in inner:
            r = map_seq(I, s, seq, it[4][1])
            if r is None:
                return None
            out += r
        return out
    if it[1] == 'Chain' and it[4][2] == ('bool', True):
        out = []
        for s, x in bulk(I, st, it[4][0]) or [(None, None)]:
            if s is None:
                return None
            r = bulk(I, s, it[4][1])
            if r is None:
                return None
            out += [(s2, seq_cat(x, y)) for s2, y in r]
        return out
    if it[1] == 'Rev':
        inner = bulk(I, st, it[4][0])
        return None if inner is None else [(s, rev(v)) for s, v in inner]
    return None


def map_seq(I, st, seq, f):
    if seq[0] != 'seq':
        seq = ('seq', (('s', seq),))
    states = [(st, ())]
    for p in seq[1]:
        nxt = []
        for s, acc in states:
            if p[0] == 'e':
                for s2, v in I.apply(s, f, [p[1]]):
                    nxt.append((s2, acc + (('e', v),)))
            else:
                lam = lambda_of(I, s, f, p[1])
                if lam is None:
                    return None
                nxt.append((s, acc if lam == ('id',) and False else acc + (('s', mapseq(lam, p[1])),)))
        states = nxt
    return [(s, ('seq', acc) if not (len(acc) == 1 and acc[0][0] == 's') else acc[0][1]) for s, acc in states]


def mapseq(lam, s):
    if lam == ('sym', '$x'):
        return s
    return ('app', 'mapseq', lam, s)


def lambda_of(I, st, f, src):
    """body of f on a bound variable, when it is a single value without effects"""
    s = st.copy()
    x = ('sym', '$x')
    np = len(I.panics)
    r = I.apply(s, f, [x])
    if len(I.panics) != np:
        del I.panics[np:]
        return None
    if len(r) != 1:
        return None
    s2, v = r[0]
    return v


@nat('slice::concat', 'slice::join')
def sjoin(I, st, fr, c, args):
    v = deref(I, st, args[0])
    sep = deref(I, st, args[1]) if len(args) > 1 else None
    ty = re.sub(r"[&\[\]\s]|'\w+", '', c.get('self', '') or '')
    strs = re.match(r'(mut)?(std::string::|alloc::string::)?(str|String)\b', ty) is not None or (len(args) > 1 and sep[0] in ('str', 'cat', 'app'))
    if v[0] == 'seq' and all(p[0] == 'e' for p in v[1]):
        if strs:
            parts = []
            for i, p in enumerate(v[1]):
                if i and sep is not None:
                    parts.append(sep)
                parts.append(p[1])
            return [(st, cat(parts))]
        r = ('seq', ())
        for i, p in enumerate(v[1]):
            if i and sep is not None:
                r = seq_cat(r, sep)
            x = deref(I, st, p[1])
            if x[0] != 'seq':
                return [(st, ('app', 'join', v, sep if sep is not None else ('str', '')))]
            r = seq_cat(r, x)
        return [(st, r)]
    return [(st, ('app', 'join', v, sep if sep is not None else ('str', '')))]


@nat('Drop::drop')
def drop_shell(I, st, fr, c, args):
    if M.type_head(c.get('self', '')) in ('Box', 'Vec', 'Rc', 'String'):     # freeing the memory of a value that has been moved out
        return [(st, ('tup', ()))]
    return None


# vec![...] lowering
@nat('Box::new_uninit', 'Box::new_uninit_slice')
def new_uninit(I, st, fr, c, args):
    h = st.alloc(('sym', 'uninit'))
    return [(st, ('mref', h, ()))]


@nat('boxed::box_assume_init_into_vec_unsafe', '~box_assume_init_into_vec_unsafe', 'Box::assume_init', 'Box::write')
def assume_init(I, st, fr, c, args):
    return [(st, deref(I, st, args[0]))]


# ------------------------------------------------------------------ strings
def cat(parts):
    out = []
    for p in parts:
        if p[0] == 'cat':
            xs = p[1]
        elif p[0] == 'app' and p[1] == 'fmtargs':
            xs = p[2:]
        else:
            xs = (p,)
        for x in xs:
            if x[0] == 'str':
                if x[1] == '':
                    continue
                if out and out[-1][0] == 'str':
                    out[-1] = ('str', out[-1][1] + x[1])
                    continue
            out.append(x)
    if not out:
        return ('str', '')
    if len(out) == 1:
        return out[0]
    return ('cat', tuple(out))


def str_of_chars(I, st, v):
    if v[0] == 'app' and v[1] == 'chars':
        return v[2]
    if v[0] == 'seq' and all(p[0] == 'e' and p[1][0] == 'int' for p in v[1]):
        return ('str', ''.join(chr(p[1][1]) for p in v[1]))
    return ('app', 'fromchars', v)


@nat('String::new')
def snew(I, st, fr, c, args):
    return [(st, ('str', ''))]


@nat('String::with_capacity')
def swc(I, st, fr, c, args):
    return [(st, ('str', ''))]


@nat('String::push_str', 'Write::write_str', 'String::push')
def push_str(I, st, fr, c, args):
    m = args[0]
    if m[0] != 'mref':
        return None
    v = deref(I, st, m)
    x = deref(I, st, args[1])
    if c['method'] == 'push':
        x = ('str', chr(x[1])) if x[0] == 'int' else ('app', 'disp', ('app', 'char', x))
    I.write(st, m[1], list(m[2]), cat([v, x]))
    return [(st, UNIT if c['method'] != 'write_str' else Ok(UNIT))]


@nat('Add::add')
def add_str(I, st, fr, c, args):
    if M.type_head(c['self']) == 'String':
        return [(st, cat([deref(I, st, args[0]), deref(I, st, args[1])]))]
    if c['self'].strip().lstrip('&').strip() in IN.INTS:
        return [(st, add(deref(I, st, args[0]), deref(I, st, args[1])))]
    return None


@nat('Sub::sub', 'Mul::mul', 'Div::div', 'Rem::rem')
def arith(I, st, fr, c, args):
    ty = re.sub(r"^&('\w+ )?", '', c['self'].strip()).strip()
    if ty in IN.INTS:
        op = {'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem'}[c['method']]
        return [(st, I.binop(st, op, deref(I, st, args[0]), deref(I, st, args[1]), ty))]
    return None


@nat('AddAssign::add_assign')
def add_assign(I, st, fr, c, args):
    m = args[0]
    v = deref(I, st, m)
    x = deref(I, st, args[1])
    if M.type_head(c['self']) == 'String':
        I.write(st, m[1], list(m[2]), cat([v, x]))
        return [(st, UNIT)]
    if c['self'].strip() in IN.INTS:
        I.write(st, m[1], list(m[2]), add(v, x))
        return [(st, UNIT)]
    return None


@nat('str::len', 'String::len')
def strlen(I, st, fr, c, args):
    v = deref(I, st, args[0])
    if v[0] == 'str':
        return [(st, ('int', len(v[1].encode())))]
    r = ('app', 'bytelen', v)
    if not st.proves(r):
        st.ge = st.ge + (r,)
    return [(st, r)]


@nat('str::is_empty', 'String::is_empty')
def strempty(I, st, fr, c, args):
    v = deref(I, st, args[0])
    if v[0] == 'str':
        return [(st, ('bool', v[1] == ''))]
    if v[0] == 'cat' and any(p[0] == 'str' for p in v[1]):
        return [(st, FALSE)]
    return [(st, ('app', 'strempty', v))]


@nat('str::starts_with', 'str::ends_with', 'str::contains')
def str_pred(I, st, fr, c, args):
    v, x = deref(I, st, args[0]), args[1]
    if v[0] == 'str' and x[0] in ('str', 'int'):
        p = x[1] if x[0] == 'str' else chr(x[1])
        r = {'starts_with': v[1].startswith(p), 'ends_with': v[1].endswith(p), 'contains': p in v[1]}[c['method']]
        return [(st, ('bool', r))]
    return [(st, ('app', 'str_' + c['method'], v, x))]


@nat('String::from_utf8', 'str::from_utf8', '~from_utf8')
def from_utf8(I, st, fr, c, args):
    v = deref(I, st, args[0])
    if v[0] == 'app' and v[1] == 'bytes':
        return [(st, Ok(v[2]))]
    if v[0] == 'seq' and all(p[0] == 'e' and p[1][0] == 'int' for p in v[1]):
        try:
            return [(st, Ok(('str', bytes(p[1][1] for p in v[1]).decode())))]
        except UnicodeDecodeError:
            return [(st, Err(('app', 'utf8err')))]
    b = ('app', 'utf8_ok', v)
    out = []
    for s, k in I.branch(st, b):
        out.append((s, Ok(('app', 'utf8', v)) if k else Err(('app', 'utf8err', v))))
    return out


@nat('String::from_utf8_lossy', 'String::from_utf8_unchecked')
def from_utf8_lossy(I, st, fr, c, args):
    v = deref(I, st, args[0])
    if v[0] == 'app' and v[1] == 'bytes':
        return [(st, v[2])]
    return [(st, ('app', 'utf8', v))]


@nat('str::parse', 'FromStr::from_str', 'num::from_str_radix', 'u8::from_str_radix', 'u16::from_str_radix', 'u32::from_str_radix', 'i64::from_str_radix', 'u64::from_str_radix',
     'f64::from_str', '~from_str_radix')
def parse(I, st, fr, c, args):
    v = deref(I, st, args[0])
    full = c['full']
    if c['method'] == 'from_str':
        f, sty = I.resolve(st, fr, c, args)
        if f is not None:
            return None
        ty = M.type_head(c['self'])
    elif c['method'] == 'parse':
        m = re.search(r'parse::<(.*)>$', full)
        ty = M.type_head(m.group(1)) if m else '?'
    else:
        m = re.search(r'(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)', c.get('self', '') + ' ' + full)
        ty = m.group(1) if m else M.type_head(c.get('self', '?'))
    radix = args[1] if len(args) > 1 else ('int', 10)
    r = ('app', 'parse', ('str', ty), v, radix)
    b = ('app', 'parse_ok', ('str', ty), v, radix)
    out = []
    for s, k in I.branch(st, b):
        if k:
            I.type_facts(s, r, ty)
            out.append((s, Ok(r)))
        else:
            out.append((s, Err(('app', 'parse_err', ('str', ty), v))))
    return out


@nat('str::split')
def split(I, st, fr, c, args):
    v = deref(I, st, args[0])
    s = ('app', 'split', v, args[1])
    return [(st, ('adt', 'SliceIter', 0, None, (s, ('int', 0), I.seqlen(st, s))))]


@nat('str::to_lowercase', 'str::to_uppercase', 'str::trim', 'str::to_ascii_lowercase', 'str::to_ascii_uppercase')
def str_fun(I, st, fr, c, args):
    v = deref(I, st, args[0])
    return [(st, ('app', 'str_' + c['method'], v))]


# ------------------------------------------------------------------ formatting
@nat('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex', 'Argument::new_octal', 'Argument::new_binary', 'Argument::new_lower_exp')
def arg_new(I, st, fr, c, args):
    v = deref(I, st, args[0])
    full = c['full']
    m = re.search(r"::new_\w+::<(.*)>$", full)
    ty = m.group(1) if m else '?'
    kind = c['method'][4:]
    return fmt_one(I, st, kind, v, ty)


def fmt_one(I, st, kind, v, ty):
    ty0 = ty
    ty = re.sub(r"^(&('\w+ )?(mut )?)+", '', ty.strip())
    h = M.type_head(ty)
    if kind == 'display':
        if v[0] in ('str', 'cat'):
            return [(st, v)]
        if h in ('String', 'str'):
            return [(st, v)]
        dyn = I.value_head(st, v)
        tr = 'Display'
        for f in I.p.methods.get('fmt', []):
            if f.trait == 'Display' and f.crate != 'models' and M.type_head(f.selfty) in (h, dyn) and h not in ('Box',):
                cell = st.alloc(('str', ''))
                out = []
                for s, r in I.exec_fn(st, f, [v, ('mref', cell, ())], f.selfty):
                    out.append((s, cat([('str', '')] + [s.heap[cell]])))
                return out
        if h == 'char':
            if v[0] == 'int':
                return [(st, ('str', chr(v[1])))]
            return [(st, ('app', 'disp', ('app', 'char', v)))]
        if v[0] == 'int' and h in IN.INTS:
            return [(st, ('str', str(v[1])))]
        if v[0] in ('bool', 'ge0', 'eq0', 'not', 'and', 'or'):
            return [(s, ('str', 'true' if b else 'false')) for s, b in I.branch(st, v)]
        return [(st, ('app', 'disp', v))]
    return [(st, ('app', kind, v))]


@nat('Arguments::new', 'Arguments::from_str', 'Arguments::new_const', 'Arguments::new_v1')
def args_new(I, st, fr, c, args):
    if c['method'] == 'from_str':
        return [(st, ('app', 'fmtargs', deref(I, st, args[0])))]
    t = deref(I, st, args[0])
    if t[0] == 'app' and t[1] == 'const':
        return [(st, ('app', 'fmtargs', t))]
    al = deref(I, st, args[1]) if len(args) > 1 else ('seq', ())
    try:
        bs = bytes(p[1][1] for p in t[1])
        vals = [p[1] for p in al[1]]
    except Exception:
        return [(st, ('app', 'fmtargs', ('app', 'opaque_fmt', t, al)))]
    parts = []
    i = 0
    k = 0
    spec = False
    while i < len(bs):
        b = bs[i]
        if b == 0:
            break
        if b < 0x80:
            parts.append(('str', bs[i + 1:i + 1 + b].decode('utf-8', 'replace')))
            i += 1 + b
        elif b == 0x80:
            n = bs[i + 1] + 256 * bs[i + 2]
            parts.append(('str', bs[i + 3:i + 3 + n].decode('utf-8', 'replace')))
            i += 3 + n
        elif b == 0xc0:
            parts.append(vals[k] if k < len(vals) else ('app', 'missing'))
            k += 1
            i += 1
        else:
            # placeholder with options / explicit index
            i += 1
            opts = b
            fl = b''
            if opts & 1:
                fl += bs[i:i + 4]
                i += 4
            if opts & 2:
                fl += bs[i:i + 2]
                i += 2
            if opts & 4:
                fl += bs[i:i + 2]
                i += 2
            if opts & 8:
                k = bs[i] + 256 * bs[i + 1]
                i += 2
            x = vals[k] if k < len(vals) else ('app', 'missing')
            k += 1
            if fl:
                x = ('app', 'fmtopt', ('str', fl.hex()), x)
            parts.append(x)
    return [(st, ('app', 'fmtargs') + tuple(parts))]


@nat('fmt::format', '~format', 'String::format')
def fmt_format(I, st, fr, c, args):
    v = args[0]
    if v[0] == 'app' and v[1] == 'fmtargs':
        return [(st, cat(list(v[2:])))]
    return None


@nat('Formatter::write_fmt', 'Write::write_fmt')
def write_fmt(I, st, fr, c, args):
    m = args[0]
    v = args[1]
    if m[0] != 'mref' or not (v[0] == 'app' and v[1] == 'fmtargs'):
        return None
    cur = deref(I, st, m)
    if cur[0] == 'mref':
        m = cur
        cur = deref(I, st, cur)
    I.write(st, m[1], list(m[2]), cat([cur] + list(v[2:])))
    return [(st, Ok(UNIT))]


@nat('Formatter::write_str', 'Formatter::write_char', 'Formatter::pad')
def fwrite_str(I, st, fr, c, args):
    m = args[0]
    x = deref(I, st, args[1])
    if c['method'] == 'write_char':
        x = ('str', chr(x[1])) if x[0] == 'int' else ('app', 'disp', ('app', 'char', x))
    I.write(st, m[1], list(m[2]), cat([deref(I, st, m), x]))
    return [(st, Ok(UNIT))]


@nat('Display::fmt', 'Debug::fmt', 'LowerHex::fmt')
def disp_fmt(I, st, fr, c, args):
    kind = {'Display': 'display', 'Debug': 'debug', 'LowerHex': 'lower_hex'}[c['trait']]
    v = deref(I, st, args[0])
    m = args[1]
    out = []
    for s, t in fmt_one(I, st, kind, v, c['self']):
        I.write(s, m[1], list(m[2]), cat([deref(I, s, m), t]))
        out.append((s, Ok(UNIT)))
    return out


@nat('ToString::to_string')
def to_string(I, st, fr, c, args):
    return fmt_one(I, st, 'display', deref(I, st, args[0]), c['self'])


@nat('io::_print', 'io::_eprint', '~_print', '~_eprint')
def _print(I, st, fr, c, args):
    st.event('print', ('str', c['method']), args[0] if args else UNIT)
    return [(st, UNIT)]


# log crate: no observable effect inside the library
@nat('__private_api::loc', '~loc')
def logloc(I, st, fr, c, args):
    return [(st, UNIT)]


@nat('~max_level', 'log::max_level')
def max_level(I, st, fr, c, args):
    return [(st, ('app', 'log_off'))]


@nat('__private_api::log', '__private_api::enabled')
def loglog(I, st, fr, c, args):
    return [(st, UNIT)]


# ------------------------------------------------------------------ RefCell / mem
@nat('RefCell::new', 'Cell::new')
def refcell_new(I, st, fr, c, args):
    return [(st, st.alloc(args[0]))]


@nat('RefCell::borrow_mut', 'RefCell::borrow')
def borrow_mut(I, st, fr, c, args):
    h = deref(I, st, args[0])
    if h[0] != 'cell':
        st.note('borrow of unknown cell')
        return None
    st.event('borrow', h, ('str', c['method']))
    return [(st, ('refmut', h))]


@nat('RefCell::get_mut', 'RefCell::into_inner', 'Cell::get', 'RefCell::replace', 'Cell::set')
def cell_misc(I, st, fr, c, args):
    h = deref(I, st, args[0])
    if h[0] != 'cell':
        return None
    m = c['method']
    if m == 'get_mut':
        return [(st, ('mref', h, ()))]
    if m in ('into_inner', 'get'):
        return [(st, st.heap[h])]
    old = st.heap[h]
    st.heap[h] = args[1]
    return [(st, old if m == 'replace' else UNIT)]


@nat('mem::replace')
def mem_replace(I, st, fr, c, args):
    m = args[0]
    v = deref(I, st, m)
    I.write(st, m[1], list(m[2]), args[1])
    return [(st, v)]


@nat('mem::take')
def mem_take(I, st, fr, c, args):
    m = args[0]
    v = deref(I, st, m)
    z = {'seq': ('seq', ()), 'str': ('str', ''), 'cat': ('str', ''), 'map': ('map', ('empty',), ())}.get(v[0])
    if z is None:
        if v[0] == 'adt' and v[1] == 'Option':
            z = OPTION_NONE
        else:
            return None
    I.write(st, m[1], list(m[2]), z)
    return [(st, v)]


@nat('mem::swap')
def mem_swap(I, st, fr, c, args):
    a, b = args
    va, vb = deref(I, st, a), deref(I, st, b)
    I.write(st, a[1], list(a[2]), vb)
    I.write(st, b[1], list(b[2]), va)
    return [(st, UNIT)]


@nat('mem::drop', '~drop')
def mem_drop(I, st, fr, c, args):
    return [(st, UNIT)]


@nat('Option::as_mut', 'Option::as_deref_mut')
def opt_as_mut(I, st, fr, c, args):
    m = args[0]
    v = deref(I, st, m)
    out = []
    for s, i in I.variant(st, v, 2):
        out.append((s, OPTION_NONE if i == 0 else Some(('mref', m[1], tuple(m[2]) + (('f', 0, 'Some', '?'),)))))
    return out


@nat('Option::take')
def opt_take(I, st, fr, c, args):
    m = args[0]
    v = deref(I, st, m)
    I.write(st, m[1], list(m[2]), OPTION_NONE)
    return [(st, v)]


@nat('Option::insert')
def opt_insert(I, st, fr, c, args):
    m = args[0]
    I.write(st, m[1], list(m[2]), Some(args[1]))
    return [(st, ('mref', m[1], tuple(m[2]) + (('f', 0, 'Some', '?'),)))]


# ? operator
@nat('Try::branch')
def try_branch(I, st, fr, c, args):
    v = args[0]
    h = M.type_head(c['self'])
    out = []
    if h == 'Result' or (v[0] == 'adt' and v[1] == 'Result'):
        for s, i in I.variant(st, v, 2):
            x = v[4][0] if v[0] == 'adt' else ('app', 'proj', v, ('str', 'Ok' if i == 0 else 'Err'), ('int', 0))
            out.append((s, ('adt', 'ControlFlow', 0, 'Continue', (x,)) if i == 0 else ('adt', 'ControlFlow', 1, 'Break', (Err(x),))))
        return out
    for s, i in I.variant(st, v, 2):
        if i == 1:
            x = v[4][0] if v[0] == 'adt' else ('app', 'proj', v, ('str', 'Some'), ('int', 0))
            out.append((s, ('adt', 'ControlFlow', 0, 'Continue', (x,))))
        else:
            out.append((s, ('adt', 'ControlFlow', 1, 'Break', (OPTION_NONE,))))
    return out


@nat('FromResidual::from_residual')
def from_residual(I, st, fr, c, args):
    v = args[0]
    if v[0] == 'adt' and v[1] == 'Result':
        m = re.search(r'^(.*)$', c['self'])
        e = v[4][0]
        # error conversion by From
        et = M.split_top(c['self'][c['self'].index('<') + 1:-1])[-1] if '<' in c['self'] else '?'
        cands = [f for f in I.p.methods.get('from', []) if f.trait == 'From' and M.type_head(f.selfty) == M.type_head(et)]
        if cands:
            cands = I.by_args(st, cands, [e], c)
            return [(s, Err(x)) for s, x in I.exec_fn(st, cands[0], [e], et)]
        return [(st, Err(e))]
    return [(st, v)]


# ------------------------------------------------------------------ panics
@nat('panicking::panic', 'panicking::panic_fmt', 'panicking::unreachable_display', 'panicking::assert_failed', '~panic_fmt', '~panic', 'rt::begin_panic', '~begin_panic', 'panicking::panic_display',
     'panicking::panic_explicit', 'process::exit', 'process::abort', '~panic_const_div_by_zero', 'rt::panic_fmt', 'panicking::panic_nounwind')
def do_panic(I, st, fr, c, args):
    msg = show(args[0]) if args else ''
    I.panic(st, 'panic', fr.fn, msg[:120])
    return []


# ------------------------------------------------------------------ maps: base term + list of updates (newest last)
@nat('HashMap::new', 'BTreeMap::new', 'HashMap::with_capacity', 'HashMap::default')
def map_new(I, st, fr, c, args):
    return [(st, ('map', ('empty',), ()))]


def as_map(v):
    return v if v[0] == 'map' else ('map', v, ())


def map_get(I, st, m, k):
    """-> [(state, Option value)]"""
    m = as_map(m)
    out = []
    work = [(st, len(m[2]) - 1)]
    while work:
        s, i = work.pop()
        if i < 0:
            b = s.norm(m[1])
            if b == ('empty',):
                out.append((s, OPTION_NONE))
                continue
            kk = s.norm(k)
            o = ('app', 'mapget', b, kk)
            for s2, idx in I.variant(s, o, 2):
                out.append((s2, OPTION_NONE if idx == 0 else Some(('app', 'proj', o, ('str', 'Some'), ('int', 0)))))
            continue
        ek, ev = m[2][i]
        for s2, e in I.branch(s, seq_eq(I, s, ek, k)):
            if e:
                out.append((s2, Some(s2.norm(ev)) if ev != ('removed',) else OPTION_NONE))
            else:
                work.append((s2, i - 1))
    return out


def map_lookup_known(I, st, m, k):
    m = as_map(m)
    for ek, ev in reversed(m[2]):
        if ek == k:
            return ev
    return ('app', 'proj', ('app', 'mapget', m[1], k), ('str', 'Some'), ('int', 0))


def map_put(I, st, m, k, v):
    m = as_map(m)
    return ('map', m[1], tuple(e for e in m[2] if e[0] != k) + ((k, v),))


def map_entries(m, rev=False):
    if m[1] == ('empty',):
        es = [e for e in m[2] if e[1] != ('removed',)]
        return ('seq', tuple(('e', ('tup', (k, v))) for k, v in (es[::-1] if rev else es)))
    return ('app', 'entries', m)


@nat('HashMap::get', 'BTreeMap::get')
def hget(I, st, fr, c, args):
    return map_get(I, st, deref(I, st, args[0]), deref(I, st, args[1]))


@nat('HashMap::contains_key', 'BTreeMap::contains_key')
def hcontains(I, st, fr, c, args):
    return [(s, ('bool', o != OPTION_NONE)) for s, o in map_get(I, st, deref(I, st, args[0]), deref(I, st, args[1]))]


@nat('HashMap::get_mut')
def hget_mut(I, st, fr, c, args):
    m = args[0]
    k = deref(I, st, args[1])
    out = []
    for s, o in map_get(I, st, deref(I, st, m), k):
        if o == OPTION_NONE:
            out.append((s, o))
        else:
            # normalise the entry so that the path resolves
            I.write(s, m[1], list(m[2]), map_put(I, s, deref(I, s, m), s.norm(k), o[4][0]))
            out.append((s, Some(('mref', m[1], tuple(m[2]) + (('mapk', s.norm(k)),)))))
    return out


@nat('HashMap::insert', 'BTreeMap::insert')
def hinsert(I, st, fr, c, args):
    m = args[0]
    if m[0] != 'mref':
        return None
    k = deref(I, st, args[1])
    out = []
    for s, o in map_get(I, st, deref(I, st, m), k):
        I.write(s, m[1], list(m[2]), map_put(I, s, deref(I, s, m), s.norm(k), s.norm(args[2])))
        s.event('insert', k, args[2])
        out.append((s, o))
    return out


@nat('HashMap::remove')
def hremove(I, st, fr, c, args):
    m = args[0]
    k = deref(I, st, args[1])
    out = []
    for s, o in map_get(I, st, deref(I, st, m), k):
        I.write(s, m[1], list(m[2]), map_put(I, s, deref(I, s, m), s.norm(k), ('removed',)))
        out.append((s, o))
    return out


@nat('HashMap::entry', 'BTreeMap::entry')
def hentry(I, st, fr, c, args):
    m = args[0]
    out = []
    for s, o in map_get(I, st, deref(I, st, m), deref(I, st, args[1])):
        k = s.norm(deref(I, s, args[1]))
        if o == OPTION_NONE:
            out.append((s, ('adt', 'Entry', 1, 'Vacant', (('adt', 'VacantEntry', 0, None, (m, k)),))))
        else:
            # normalise the entry so that the path resolves
            I.write(s, m[1], list(m[2]), map_put(I, s, deref(I, s, m), k, o[4][0]))
            out.append((s, ('adt', 'Entry', 0, 'Occupied', (('adt', 'OccupiedEntry', 0, None, (m, k)),))))
    return out


def entry_of(I, st, e):
    e = deref(I, st, e)
    if e[0] == 'adt' and e[1] == 'Entry':
        return e[3], deref(I, st, e[4][0])[4]
    if e[0] == 'adt' and e[1] in ('OccupiedEntry', 'VacantEntry'):
        return e[1][:-5], e[4]
    return None, (None, None)


@nat('Entry::or_insert_with', 'Entry::or_insert', 'Entry::or_default', 'Entry::and_modify', 'Entry::key', 'OccupiedEntry::key', 'VacantEntry::key', 'OccupiedEntry::get', 'OccupiedEntry::get_mut',
     'OccupiedEntry::into_mut', 'OccupiedEntry::insert', 'OccupiedEntry::remove', 'VacantEntry::insert', 'VacantEntry::into_key')
def entry_call(I, st, fr, c, args):
    kind, (m, k) = entry_of(I, st, args[0])
    if kind is None:
        return None
    meth = c['method']
    place = ('mref', m[1], tuple(m[2]) + (('mapk', k),))
    if meth in ('key', 'into_key'):
        return [(st, k)]
    if meth == 'and_modify':
        return [(s, args[0]) for s, _ in I.apply(st, args[1], [place])] if kind == 'Occupied' else [(st, args[0])]
    if kind == 'Occupied':
        old = I.read(st, place[1], place[2])
        if meth == 'get':
            return [(st, old)]
        if meth == 'insert':
            I.write(st, place[1], list(place[2]), args[1])
            return [(st, old)]
        if meth == 'remove':
            I.write(st, m[1], list(m[2]), map_put(I, st, deref(I, st, m), k, ('removed',)))
            return [(st, old)]
        return [(st, place)]
    if meth == 'or_default':
        # Entry::<'_, K, V>::or_default
        t = re.search(r'\bEntry(?:::)?<(.*)>::or_default$', c['full'])
        ty = M.split_top(t.group(1))[-1].strip() if t else '?'
        vals = default(I, st, fr, {'self': ty, 'kind': 'trait', 'key': 'Default::default', 'method': 'default'}, [])
        if vals is None:
            return None
    elif meth == 'or_insert_with':
        vals = I.apply(st, args[1], [])
    else:
        vals = [(st, args[1])]
    out = []
    for s, v in vals:
        I.write(s, m[1], list(m[2]), map_put(I, s, deref(I, s, m), s.norm(k), v))
        s.event('insert', k, v)
        out.append((s, place))
    return out


@nat('HashMap::is_empty', 'HashMap::len')
def hempty(I, st, fr, c, args):
    m = as_map(deref(I, st, args[0]))
    if m[1] == ('empty',):
        n = len([e for e in m[2] if e[1] != ('removed',)])
        return [(st, ('bool', n == 0) if c['method'] == 'is_empty' else ('int', n))]
    return [(st, ('app', 'map_' + c['method'], m))]


@nat('HashMap::iter', 'HashMap::into_iter', 'HashMap::drain')
def hiter(I, st, fr, c, args):
    m = as_map(deref(I, st, args[0]))
    return [(st, slice_iter(I, st, map_entries(m, I.hooks.get('rev_maps'))))]


# ------------------------------------------------------------------ ranges
@nat('RangeInclusive::new')
def ri_new(I, st, fr, c, args):
    return [(st, ('adt', 'RangeInclusive', 0, None, (args[0], args[1], FALSE)))]


@nat('RangeInclusive::start', 'RangeInclusive::end', 'RangeInclusive::into_inner')
def ri_get(I, st, fr, c, args):
    v = deref(I, st, args[0])
    if v[0] != 'adt':
        return [(st, ('app', 'proj', v, ('str', ''), ('int', 0 if c['method'] == 'start' else 1)))]
    if c['method'] == 'into_inner':
        return [(st, ('tup', v[4][:2]))]
    return [(st, v[4][0 if c['method'] == 'start' else 1])]


@nat('RangeInclusive::contains', 'Range::contains', 'RangeFrom::contains', 'RangeTo::contains', 'RangeToInclusive::contains')
def r_contains(I, st, fr, c, args):
    v, x = deref(I, st, args[0]), deref(I, st, args[1])
    if v[0] != 'adt':
        return None
    n = v[1]
    r = TRUE
    if n in ('Range', 'RangeInclusive', 'RangeFrom'):
        r = mk_ge0(sub(x, v[4][0]))
    if n in ('Range', 'RangeInclusive'):
        hi = v[4][1]
        r = mk_and(r, mk_ge0(sub(hi, x)) if n == 'RangeInclusive' else mk_ge0(add(sub(hi, x), ('int', -1))))
    if n == 'RangeTo':
        r = mk_ge0(add(sub(v[4][0], x), ('int', -1)))
    if n == 'RangeToInclusive':
        r = mk_ge0(sub(v[4][0], x))
    return [(st, r)]


@nat('slice::as_ptr', 'Vec::as_ptr')
def as_ptr(I, st, fr, c, args):
    v = deref(I, st, args[0])
    return [(st, ('app', 'ptr', v))]


@nat('str::eq_ignore_ascii_case')
def str_eq_ic(I, st, fr, c, args):
    a, b = deref(I, st, args[0]), deref(I, st, args[1])
    return [(st, ('app', 'eq', ('app', 'str_lower', a), ('app', 'str_lower', b)))]


# ------------------------------------------------------------------ regex
@nat('Regex::new')
def re_new(I, st, fr, c, args):
    return [(st, ('adt', 'Result', 0, 'Ok', (('app', 'regex', st.norm(deref(I, st, args[0]))),)))]


@nat('Regex::captures', 'Regex::find')
def re_find(I, st, fr, c, args):
    r, s = st.norm(deref(I, st, args[0])), st.norm(deref(I, st, args[1]))
    o = ('app', 're_match', r, s)
    out = []
    for s2, i in I.variant(st, o, 2):
        if i == 0:
            out.append((s2, OPTION_NONE))
            continue
        m = ('adt', 'ReMatch', 0, None, (r, s))
        b, n = ('app', 're_start', r, s), ('app', 're_bytes', r, s)
        for t in (b, n):
            if not s2.proves(t):
                s2.ge = s2.ge + (t,)
        if c['method'] == 'captures':
            m = ('adt', 'ReCaps', 0, None, (m,))
        out.append((s2, Some(m)))
    return out


@nat('Regex::is_match')
def re_is(I, st, fr, c, args):
    r, s = st.norm(deref(I, st, args[0])), st.norm(deref(I, st, args[1]))
    return [(s2, ('bool', i == 1)) for s2, i in I.variant(st, ('app', 're_match', r, s), 2)]


@nat('Captures::get')
def caps_get(I, st, fr, c, args):
    v = deref(I, st, args[0])
    k = st.norm(args[1])
    if v[0] == 'adt' and v[1] == 'ReCaps':
        if k == ('int', 0):
            return [(st, Some(v[4][0]))]
        return [(st, ('app', 'ext:caps_get', v, k))]
    return None


@nat('Captures::len')
def caps_len(I, st, fr, c, args):
    v = deref(I, st, args[0])
    n = ('app', 'caps_len', v)
    if not st.proves(add(n, ('int', -1))):
        st.ge = st.ge + (add(n, ('int', -1)),)
    return [(st, n)]


@nat('Match::start', 'Match::end', 'Match::as_str', 'Match::len', 'Match::is_empty')
def m_start(I, st, fr, c, args):
    v = deref(I, st, args[0])
    if not (v[0] == 'adt' and v[1] == 'ReMatch'):
        return None
    r, s = v[4]
    b, n = ('app', 're_start', r, s), ('app', 're_bytes', r, s)
    k = c['method']
    if k == 'as_str':
        return [(st, ('app', 're_text', r, s))]
    return [(st, {'start': b, 'end': add(b, n), 'len': n, 'is_empty': mk_eq0(n)}[k])]
