"""Meaning of library functions, by resolved name."""
import re
from .term import *
from .engine import Out, Call, Stop, UNINIT, UNIT, mk_tab, mk_ix, to_bits, from_bits, pyfn, any_term, norm_conds, EMPTYST, bool_facts, strip_generics
from . import engine as ENG

MODELS = {}


def model(*keys):
    def d(f):
        for k in keys:
            MODELS[k] = f
        return f
    return d


OPT = 'core::option::Option'
RES = 'core::result::Result'
NONE = mk('agg', OPT, 0)


CFLOW = 'core::ops::control_flow::ControlFlow'


def SOME(v):
    return mk('agg', OPT, 1, v)


def OK(v):
    return mk('agg', RES, 0, v)


def ERR(v):
    return mk('agg', RES, 1, v)


def R(st, v=UNIT):
    return [Out('ret', v, st)]


def P(e, st, why):
    return [Out('panic', (why, e.where(), e.trace()), st)]


def UB(e, st, why):
    """undefined behaviour: no outcome of the program can be relied on after it"""
    st = st.copy()
    st.event('ub', why, e.where())
    return P(e, st, why)


def sound(e, st, cond, why, then):
    return ite(e, st, cond, then, lambda s: UB(e, s, why))


def ite(e, st, cond, yes, no):
    """fork on cond: yes(st)/no(st) -> outs"""
    out = []
    for s, b in e.decide(st, cond):
        out.extend(yes(s) if b else no(s))
    return out


def need(e, st, cond, why, then):
    return ite(e, st, cond, then, lambda s: P(e, s, why))


def content(e, st, p):
    """the sequence/value a pointer designates (refs to refs followed for strings)"""
    v = e.load(st, p)
    n = 0
    while isT(v) and v.op == 'ref':
        v = e.load(st, v)
        n += 1
        if n > 6:
            raise Stop('reference cycle')
    return v


def val(e, st, v):
    """a value that may be a reference to a sequence, or the sequence itself"""
    n = 0
    while isT(v, 'ref') or isT(v) and v.op not in ('seq',) and ('sym', v) in st.mem:
        v = e.load(st, v)
        n += 1
        if n > 6:
            raise Stop('reference cycle')
    return v


def selfty(e, c):
    """type of the receiver, references removed"""
    t = c.atys[0] if c.atys else None
    while t is not None and e.types[t]['k'] in ('ref', 'ptr'):
        t = e.types[t]['e']
    return t


def elty(e, t):
    ty = e.types[t]
    if ty['k'] in ('array', 'slice'):
        return ty['e']
    if ty['k'] == 'str':
        return None
    if ty['k'] == 'adt' and ty['path'] in ('alloc::vec::Vec',):
        return ty['args'][0]
    if ty['k'] == 'adt' and ty.get('box'):
        return elty(e, ty['args'][0])
    return None


# ---------------------------------------------------------------- identity-like
@model('std::vec::Vec::as_slice', 'std::vec::Vec::as_mut_slice', 'std::string::String::as_str', 'std::string::String::as_bytes',
       'str::as_bytes', 'slice::as_ptr', 'slice::as_mut_ptr', 'std::vec::Vec::as_ptr', 'std::vec::Vec::as_mut_ptr', 'str::as_ptr',
       'std::string::String::into_bytes', 'std::vec::Vec::into_boxed_slice', 'slice::into_vec', 'std::string::String::into_boxed_str',
       'std::string::String::from_utf8_unchecked', 'std::str::from_utf8_unchecked', 'core::str::converts::from_utf8_unchecked',
       'std::hint::black_box', 'std::boxed::Box::new', 'std::sync::Mutex::new', 'std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut',
       'std::mem::ManuallyDrop::new', 'std::convert::identity', 'std::boxed::Box::into_boxed_slice', 'std::boxed::Box::pin',
       'std::string::String::as_mut_str', 'ptr::cast', 'ptr::cast_mut', 'ptr::cast_const', 'std::vec::Vec::into_iter_slice',
       'std::panic::AssertUnwindSafe', 'std::sync::Arc::new', 'std::rc::Rc::new', 'std::cell::RefCell::new', 'std::cell::Cell::new',
       'std::string::String::into_string', 'str::into_string', 'std::ffi::CString::into_bytes', 'std::ffi::CString::as_bytes',
       'std::ffi::CString::as_c_str', 'std::ffi::CStr::to_bytes', 'str::as_bytes_mut', 'std::array::as_slice',
       'std::boxed::Box::as_ref', 'std::ffi::CString::as_ptr', 'std::ffi::CStr::as_ptr', 'array::as_slice', '[T; N]::as_slice',
       'std::borrow::Borrow::borrow', 'std::borrow::BorrowMut::borrow_mut')
def m_id(e, st, c):
    return R(st, c.args[0])


@model('std::convert::AsRef::as_ref', 'std::convert::AsMut::as_mut')
def m_asref(e, st, c):
    # [u8]/str/String/Vec/array as_ref: same bytes. &T as_ref: follow one level
    v = c.args[0]
    t = c.atys[0] if c.atys else None
    if t is not None:
        t = e.types[t]['e'] if e.types[t]['k'] == 'ref' else t
        while e.types[t]['k'] == 'ref':
            v = e.load(st, v)
            t = e.types[t]['e']
        ty = e.types[t]
        if ty['k'] in ('array', 'slice', 'str') or ty['k'] == 'adt' and ty['path'] in ('alloc::vec::Vec', 'alloc::string::String', 'alloc::boxed::Box'):
            return R(st, v)
        if 'generic_array' in (ty.get('path') or ''):
            return R(st, v)
    return None


# ---------------------------------------------------------------- memory
# A pointer to memory whose owner gave it up is ('hp', id, what the owner was, content).
def owner_kind(e, t):
    """what kind of allocation a value of type t owns"""
    ty = e.types[t]
    p = ty.get('path')
    if p == 'alloc::boxed::Box':
        x = e.types[ty['args'][0]]
        if x['k'] == 'slice':
            return ('slice', e.types[x['e']]['s'])
        if x['k'] == 'str':
            return ('slice', 'u8')
        return ('box', x['s'])
    if p == 'alloc::vec::Vec':
        return ('vec', e.types[ty['args'][0]]['s'])
    if p == 'alloc::string::String':
        return ('vec', 'u8')
    if p is not None and p.endswith('::CString'):
        return ('cstring',)
    if p is not None and p.endswith(('::Rc', '::Arc')):
        return ('rc', e.types[ty['args'][0]]['s'])
    return None


def given_up(e, kind, v):
    e.nframe += 1
    return mk('hp', e.nframe, kind, v)


@model('std::boxed::Box::into_raw', 'std::boxed::Box::leak', 'std::vec::Vec::leak', 'std::string::String::leak')
def m_into_raw(e, st, c):
    kind = owner_kind(e, c.atys[0]) if c.atys else ('box', '?')
    return R(st, given_up(e, kind, c.args[0]))


@model('std::boxed::Box::from_raw')
def m_from_raw(e, st, c):
    st = st.copy()
    v = e.load(st, c.args[0])
    t = e.types[e.types[c.atys[0]]['e']] if c.atys else None
    kind = ('box', t['s']) if t else ('box', '?')
    if t and t['k'] in ('slice', 'str'):
        kind = ('slice', e.types[t['e']]['s'] if t['k'] == 'slice' else 'u8')
    p, n = c.args[0], 0
    if kind[0] == 'slice' and isT(p):
        n = slen(v)
        if p.op == 'ref' and p.a[0][0] == 'sym' and isT(p.a[0][1], 'hp') and len(p.a[1]) == 1 and p.a[1][0][0] == 's' and p.a[1][0][1] == 0:
            p = p.a[0][1]
    st.event('taken', p, kind, n)
    return R(st, v)


@model('std::mem::forget')
def m_forget(e, st, c):
    st = st.copy()
    v = c.args[0]
    st.event('forget', e.rb(st, v))
    kind = owner_kind(e, c.atys[0]) if c.atys else None
    if kind and isT(v):
        e.escape(st, [o for o, x in st.mem.items() if o[0] == 'L' and x is v], kind, v)
    return R(st)


@model('std::mem::drop')
def m_drop(e, st, c):
    return R(st)


@model('std::mem::replace', 'std::ptr::replace', 'ptr::replace')
def m_replace(e, st, c):
    st = st.copy()
    old = e.load(st, c.args[0])
    e.store(st, c.args[0], c.args[1])
    return R(st, old)


@model('std::mem::take')
def m_take(e, st, c):
    st = st.copy()
    old = e.load(st, c.args[0])
    t = e.types[c.atys[0]]['e']
    e.store(st, c.args[0], default_of(e, t))
    return R(st, old)


@model('std::mem::swap', 'std::ptr::swap')
def m_swap(e, st, c):
    st = st.copy()
    a = e.load(st, c.args[0])
    b = e.load(st, c.args[1])
    e.store(st, c.args[0], b)
    e.store(st, c.args[1], a)
    return R(st)


@model('std::ptr::read', 'ptr::read', 'std::ptr::read_volatile', 'std::ptr::read_unaligned')
def m_read(e, st, c):
    return R(st, e.load(st, c.args[0]))


@model('std::ptr::write', 'ptr::write', 'std::ptr::write_volatile', 'ptr::write_volatile', 'std::ptr::write_unaligned', 'std::intrinsics::volatile_store')
def m_write(e, st, c):
    st = st.copy()
    p = c.args[0]
    v = c.args[1]
    vol = 'volatile' in c.key
    ref, off = ptr_split(e, st, p)
    if off is None:
        cont = e.load(st, p)
        tt = e.types[c.atys[0]]['e'] if c.atys else None
        if isT(cont) and (cont.op == 'seq' or cont in LEN) and tt is not None and e.types[tt]['k'] in ('int', 'bool'):
            off, ref = 0, p           # pointer to the first element
    if off is None:
        if vol:
            o, path = e.target(p)
            st.event('volatile', o, path, v)
        e.store(st, p, v)
        return R(st)
    o, path = e.target(ref)
    if vol:
        st.event('volatile', o, path + (('i', off),), v)
    n = slen(e.read(st, o, path))
    return sound(e, st, b_and_(le(0, off), lt(off, n)), 'out of bounds pointer write',
                lambda s: R(_w(e, s, o, path + (('i', off),), v)))


def _w(e, s, o, path, v):
    s = s.copy()
    e.write(s, o, path, v)
    return s


def b_and_(a, b):
    return ENG.b_and(a, b)


def ptr_split(e, st, p):
    if isT(p, 'offset'):
        r, o = ptr_split(e, st, p.a[0])
        return r, (p.a[1] if o is None else add(o, p.a[1]))
    return p, None


@model('ptr::add', 'ptr::offset', 'ptr::wrapping_add')
def m_padd(e, st, c):
    return R(st, c.args[0] if c.args[1] == 0 else mk('offset', c.args[0], c.args[1]))


@model('std::ptr::write_bytes', 'ptr::write_bytes', 'std::intrinsics::write_bytes')
def m_wbytes(e, st, c):
    st = st.copy()
    p, v, n = c.args
    o, path = e.target(p)
    cur = e.read(st, o, path)
    et = e.types[e.types[c.atys[0]]['e']]
    if et['k'] not in ('int',) or et['w'] != 8:
        raise Stop('write_bytes of ' + et['s'])
    m = slen(cur)

    def go(s):
        s = s.copy()
        e.write(s, o, path + (('s', 0, n),), rep(v, n))
        s.event('memset', v, n)
        return R(s)
    return sound(e, st, le(n, m), 'out of bounds memset', go)


@model('ptr::is_null')
def m_isnull(e, st, c):
    p = c.args[0]
    if isinstance(p, int):
        return R(st, 1 if p == 0 else 0)
    if p.op in ('ref', 'dyn', 'seq', 'hp'):
        return R(st, 0)
    t = mk('isnull', p)
    RANGE[t] = (0, 1)
    return R(st, t)


@model('std::ptr::null', 'std::ptr::null_mut')
def m_null(e, st, c):
    return R(st, 0)


@model('ptr::as_ref', 'ptr::as_mut')
def m_pasref(e, st, c):
    p = c.args[0]
    if isinstance(p, int):
        return R(st, NONE)
    if p.op in ('ref', 'dyn', 'hp'):
        return R(st, SOME(p))
    t = mk('isnull', p)
    RANGE[t] = (0, 1)
    return ite(e, st, t, lambda s: R(s, NONE), lambda s: R(s, SOME(p)))


@model('std::slice::from_raw_parts', 'std::slice::from_raw_parts_mut', 'std::ptr::slice_from_raw_parts', 'std::ptr::slice_from_raw_parts_mut')
def m_frp(e, st, c):
    p, n = c.args
    st = st.copy()
    if isinstance(p, int):
        return UB(e, st, 'slice from null pointer')
    isn = 0
    if p.op not in ('ref', 'dyn', 'hp'):
        isn = mk('isnull', p)
        RANGE[isn] = (0, 1)

    def go(s):
        if p.op in ('ref', 'dyn', 'hp'):
            o, path = e.target(p)
            v = e.read(s, o, path)
            m = slen(v)
            if s.cmp(n, m) == 0:
                return R(s, p)
            return sound(e, s, le(n, m), 'slice past the end', lambda s2: R(s2, e.mkref(o, path + (('s', 0, n),))))
        b = mk('buf', p, n)
        if isinstance(n, int):
            LEN[b] = n
        l = mk('len', b)
        RANGE.setdefault(l, (0, LENMAX))
        s = s.copy()
        if isT(n):
            ENG.assume_in(s, eq0(sub(l, n)), 1)
        return R(s, b)
    return ite(e, st, isn, lambda s: UB(e, s, 'slice from null pointer'), go)


@model('std::vec::Vec::from_raw_parts')
def m_vfrp(e, st, c):
    p, n, cap = c.args
    st = st.copy()
    st.event('taken', p, ('slice', e.types[e.types[c.dty]['args'][0]]['s'] if c.dty is not None else '?'), cap)
    if isT(p) and p.op in ('ref', 'hp'):
        v = e.load(st, p)
        return R(st, v if st.cmp(n, slen(v)) == 0 else e.slice(st, v, 0, n))
    b = mk('buf', p, n)
    return R(st, b)


# ---------------------------------------------------------------- clone / compare / default
@model('std::clone::Clone::clone', 'slice::to_vec', 'std::borrow::ToOwned::to_owned', 'slice::to_owned', 'str::to_owned', 'std::iter::Iterator::copied1',
       'std::borrow::Cow::into_owned', 'str::to_string')
def m_clone(e, st, c):
    structural(e, 'std::clone::Clone', c.atys[0] if c.atys else None)
    v = e.load(st, c.args[0])
    return R(st, v)


def by_hand(e, trait, t):
    """a type of the workspace inside t that implements the trait by hand"""
    if getattr(e, 'byhand', None) is None:
        e.byhand = {}
        for i in e.d['impls']:
            if not i['derived']:
                e.byhand.setdefault(i['trait'], set()).add(i['self'])
        e.byhand_memo = {}
    names = e.byhand.get(trait)
    if not names or t is None:
        return None
    k = (trait, t)
    if k not in e.byhand_memo:
        e.byhand_memo[k] = None
        ty = e.types[t]
        r = ty['s'] if ty.get('s') in names else None
        if r is None:
            kids = []
            if ty['k'] in ('ref', 'ptr', 'array', 'slice'):
                kids = [ty['e']]
            elif ty['k'] == 'tuple':
                kids = ty['e']
            elif ty['k'] == 'adt':
                kids = [f[1] for v in ty['v'] for f in v['f']] + [a for a in ty['args'] if isinstance(a, int) or a in e.types]
            for x in kids:
                if x in e.types:
                    r = r or by_hand(e, trait, x)
        e.byhand_memo[k] = r
    return e.byhand_memo[k]


def structural(e, trait, t):
    x = by_hand(e, trait, t)
    if x:
        raise Stop('%s of %s is written by hand' % (trait, x))


def deep_eq(e, st, a, b, d=0):
    """boolean term: equal contents"""
    if isinstance(a, int) and isinstance(b, int):
        return 1 if a == b else 0
    if a is b:
        return 1
    if isinstance(a, int) or isinstance(b, int) or a.op in ('lin', 'bits', 'len') or a in RANGE or b in RANGE:
        return ENG.bitcond(eq0(sub(a, b)))
    if a.op == 'agg' and b.op == 'agg':
        if a.a[0] != b.a[0] or a.a[1] != b.a[1] or len(a.a) != len(b.a):
            return 0
        r = 1
        for x, y in zip(a.a[2:], b.a[2:]):
            r = ENG.b_and(r, deep_eq(e, st, x, y, d + 1))
        return r
    if a.op == 'agg' or b.op == 'agg':
        # struct against opaque struct
        if b.op == 'agg':
            a, b = b, a
        t = VTY.get(b)
        if t is not None and e.types[t].get('kind') == 'struct' or a.a[0] == '()':
            r = 1
            fts = e.field_tys(t) if t is not None else [None] * (len(a.a) - 2)
            for i, x in enumerate(a.a[2:]):
                y = e.note_ty(mk('fld', b, 0, i), fts[i]) if fts[i] is not None else mk('fld', b, 0, i)
                r = ENG.b_and(r, deep_eq(e, st, x, y, d + 1))
            return r
    if a.op == 'seq' or b.op == 'seq':
        la, lb = slen(a), slen(b)
        if isinstance(la, int) and isinstance(lb, int) and la != lb:
            return 0
        sa, sb = segs(a), segs(b)
        if a.op == 'seq' and b.op == 'seq' and len(sa) == len(sb) and all(x[0] == y[0] == 'l' and len(x[1]) == len(y[1]) for x, y in zip(sa, sb)):
            r = 1
            for x, y in zip(sa, sb):
                for p, q in zip(x[1], y[1]):
                    r = ENG.b_and(r, deep_eq(e, st, p, q, d + 1))
                    if r == 0:
                        return 0
            return r
        lo, hi = st.bounds(sub(la, lb))
        if lo > 0 or hi < 0:
            return 0
    # single-field structs compare by their field
    t = VTY.get(a) or VTY.get(b)
    if t is not None:
        ty = e.types[t]
        if ty.get('kind') == 'struct' and d < 4 and not (ty.get('path') or '').startswith(('alloc::', 'std::', 'core::')):
            r = 1
            for i, f in enumerate(e.field_tys(t)):
                r = ENG.b_and(r, deep_eq(e, st, e.note_ty(mk('fld', a, 0, i), f), e.note_ty(mk('fld', b, 0, i), f), d + 1))
            return r
    t = mkeq(a, b)
    return t


@model('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne')
def m_eq(e, st, c):
    structural(e, 'std::cmp::PartialEq', c.atys[0] if c.atys else None)
    a = e.rb(st, c.args[0])
    b = e.rb(st, c.args[1])
    r = deep_eq(e, st, a, b)
    return R(st, r if c.key.endswith('eq') else ENG.b_not(r))


@model('std::cmp::PartialOrd::lt', 'std::cmp::PartialOrd::le', 'std::cmp::PartialOrd::gt', 'std::cmp::PartialOrd::ge')
def m_ord(e, st, c):
    a, b = e.rb(st, c.args[0]), e.rb(st, c.args[1])
    op = c.key[-2:]
    return R(st, e.compare(st, {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[op], a, b))


def as_int(e, v):
    if isinstance(v, int) or isT(v) and (v in RANGE or v.op in ('lin', 'bits', 'len')):
        return v
    return None


@model('std::cmp::Ord::cmp', 'std::cmp::PartialOrd::partial_cmp')
def m_cmp(e, st, c):
    a, b = e.rb(st, c.args[0]), e.rb(st, c.args[1])
    if as_int(e, a) is None or as_int(e, b) is None:
        return None
    W = (lambda v: SOME(v)) if 'partial' in c.key else (lambda v: v)

    def ordv(i):
        return W(mk('agg', 'core::cmp::Ordering', i))
    return ite(e, st, lt(a, b), lambda s: R(s, ordv(0)),
               lambda s: ite(e, s, eq0(sub(a, b)), lambda s2: R(s2, ordv(1)), lambda s2: R(s2, ordv(2))))


@model('std::cmp::Ord::min', 'std::cmp::min', 'std::cmp::Ord::max', 'std::cmp::max')
def m_min(e, st, c):
    a, b = c.args
    if as_int(e, a) is None or as_int(e, b) is None:
        return None
    mn = c.key.endswith('min')
    return ite(e, st, le(a, b), lambda s: R(s, a if mn else b), lambda s: R(s, b if mn else a))


def default_of(e, t):
    ty = e.types[t]
    k = ty['k']
    if k in ('int', 'bool', 'char'):
        return 0
    if k == 'array':
        return rep(default_of(e, ty['e']), ty['n'])
    if k == 'tuple':
        return mk('agg', '()', 0, *[default_of(e, x) for x in ty['e']])
    if k in ('ref',) and e.types[ty['e']]['k'] in ('str', 'slice'):
        return mk('ref', ('c', EMPTY), ())
    if k == 'adt':
        p = ty['path']
        if p in ('alloc::vec::Vec', 'alloc::string::String'):
            return EMPTY
        if p == OPT:
            return NONE
        if p in MAPS or p in SETS:
            return mk('map')
        if p == 'alloc::boxed::Box':
            return default_of(e, ty['args'][0])
    if k in ('slice', 'str'):
        return EMPTY
    raise Stop('default of ' + ty['s'])


@model('std::default::Default::default')
def m_default(e, st, c):
    return R(st, default_of(e, c.dty))


# ---------------------------------------------------------------- conversions
@model('std::convert::From::from', 'std::convert::Into::into')
def m_from(e, st, c):
    a, b = c.atys[0], c.dty
    ta, tb = e.types[a], e.types[b]
    v = c.args[0]
    pb = tb.get('path')
    if pb in ('alloc::vec::Vec', 'alloc::string::String') or pb == 'alloc::boxed::Box' and e.types[tb['args'][0]]['k'] in ('str', 'slice'):
        if ta['k'] == 'ref':
            x = e.load(st, v)
            if e.types[ta['e']]['k'] in ('str', 'slice', 'array') or e.types[ta['e']].get('path') in ('alloc::vec::Vec', 'alloc::string::String'):
                return R(st, x)
        if ta['k'] == 'array' or ta.get('path') in ('alloc::vec::Vec', 'alloc::string::String', 'alloc::boxed::Box'):
            return R(st, v)
        if ta['k'] == 'char':
            return R(st, char_seq(v))
    if tb['k'] == 'int' and ta['k'] in ('int', 'bool', 'char'):
        return R(st, v)
    if pb == 'alloc::boxed::Box':
        return R(st, v)
    if a == b:
        return R(st, v)
    if pb == OPT:
        return R(st, SOME(v))
    return None


@model('std::convert::TryFrom::try_from', 'std::convert::TryInto::try_into')
def m_tryfrom(e, st, c):
    a, b = c.atys[0], c.dty
    ta = e.types[a]
    rt = e.types[b]
    if rt.get('path') != RES:
        return None
    tb = e.types[rt['args'][0]]
    v = c.args[0]
    if tb['k'] == 'int' and ta['k'] == 'int':
        lo, hi = e.int_range(rt['args'][0])
        bad = mk('agg', 'core::num::error::TryFromIntError', 0, UNIT)
        return ite(e, st, b_and_(le(lo, v), le(v, hi)), lambda s: R(s, OK(v)), lambda s: R(s, ERR(bad)))
    if tb['k'] == 'array' and ta['k'] == 'ref':
        x = e.load(st, v)
        n = tb['n']
        return ite(e, st, eq0(sub(slen(x), n)), lambda s: R(s, OK(fixlen(e, s, x, n))),
                   lambda s: R(s, ERR(mk('agg', 'core::array::TryFromSliceError', 0, UNIT))))
    if tb['k'] == 'array' and ta.get('path') == 'alloc::vec::Vec':
        n = tb['n']
        return ite(e, st, eq0(sub(slen(v), n)), lambda s: R(s, OK(fixlen(e, s, v, n))), lambda s: R(s, ERR(v)))
    if tb['k'] == 'ref' and e.types[tb['e']]['k'] == 'array' and ta['k'] == 'ref':
        n = e.types[tb['e']]['n']
        return ite(e, st, eq0(sub(slen(e.load(st, v)), n)), lambda s: R(s, OK(v)),
                   lambda s: R(s, ERR(mk('agg', 'core::array::TryFromSliceError', 0, UNIT))))
    return None


def fixlen(e, st, x, n):
    """x is known to have n elements"""
    if slen(x) == n:
        return x
    return e.slice(st, x, 0, n)


# ---------------------------------------------------------------- slices
def seqarg(e, st, p):
    return content(e, st, p)


@model('slice::len', 'std::vec::Vec::len', 'str::len', 'std::string::String::len', 'ptr::len', 'array::len')
def m_len(e, st, c):
    return R(st, slen(content(e, st, c.args[0])))


@model('std::vec::Vec::capacity', 'std::string::String::capacity')
def m_cap(e, st, c):
    v = content(e, st, c.args[0])
    t = mk('cap', v)
    RANGE.setdefault(t, (0, LENMAX))
    return R(st, t)


@model('slice::is_empty', 'std::vec::Vec::is_empty', 'str::is_empty', 'std::string::String::is_empty')
def m_isempty(e, st, c):
    return R(st, eq0(slen(content(e, st, c.args[0]))))


@model('slice::copy_from_slice', 'slice::clone_from_slice')
def m_cfs(e, st, c):
    d, s = c.args
    src = content(e, st, s)
    dst = content(e, st, d)

    def go(st):
        st = st.copy()
        o, p = deref_seq(e, st, d)
        e.write(st, o, p, src)
        return R(st)
    return need(e, st, eq0(sub(slen(src), slen(dst))), 'copy_from_slice length mismatch', go)


def deref_seq(e, st, p):
    """target of a pointer to a sequence, through references to references"""
    for _ in range(6):
        o, path = e.target(p)
        v = e.read(st, o, path)
        if isT(v, 'ref'):
            p = v
            continue
        return o, path
    raise Stop('reference chain')


@model('slice::fill')
def m_fill(e, st, c):
    st = st.copy()
    o, p = deref_seq(e, st, c.args[0])
    n = slen(e.read(st, o, p))
    e.write(st, o, p, rep(c.args[1], n))
    return R(st)


@model('slice::reverse')
def m_reverse(e, st, c):
    st = st.copy()
    o, p = deref_seq(e, st, c.args[0])
    v = e.read(st, o, p)
    n = slen(v)
    if not isinstance(n, int):
        return None
    e.write(st, o, p, lits([e.elem(st, v, i) for i in range(n - 1, -1, -1)]))
    return R(st)


@model('slice::concat')
def m_concat(e, st, c):
    v = content(e, st, c.args[0])
    n = slen(v)
    if isinstance(n, int):
        return R(st, cat(*[val(e, st, e.elem(st, v, i)) for i in range(n)]))
    return None


@model('slice::join')
def m_join(e, st, c):
    v = content(e, st, c.args[0])
    sep = c.args[1]
    sep = val(e, st, sep) if isT(sep) else lits([sep])
    n = slen(v)
    if isinstance(n, int):
        out = []
        for i in range(n):
            if i:
                out.append(sep)
            out.append(val(e, st, e.elem(st, v, i)))
        return R(st, cat(*out) if out else EMPTY)
    v = e.rb(st, v)
    if isT(v, 'split'):
        return R(st, mk('strreplace', v.a[0], v.a[1], sep))
    return R(st, mk('join', v, sep))


@model('slice::contains')
def m_contains(e, st, c):
    x = e.rb(st, c.args[1])
    it = mk('it', 'ref', c.args[0], 0, slen(content(e, st, c.args[0])))

    def p(e, s, a):
        return R(s, deep_eq(e, s, e.rb(s, a[0]), x))
    return it_any(e, st, it, p)


@model('slice::starts_with', 'slice::ends_with', 'str::starts_with', 'str::ends_with', 'str::strip_suffix', 'str::strip_prefix',
       'slice::strip_prefix', 'slice::strip_suffix')
def m_affix(e, st, c):
    v = content(e, st, c.args[0])
    pat = pattern(e, st, c.args[1])
    if pat is None:
        return None
    end = 'end' in c.key or 'suffix' in c.key
    strip = 'strip' in c.key
    n, m = slen(v), slen(pat)

    def no(s):
        return R(s, NONE if strip else 0)

    def yes(s):
        part = e.slice(s, v, sub(n, m), n) if end else e.slice(s, v, 0, m)
        cond = affix_eq(e, s, part, pat)

        def hit(s):
            if not strip:
                return R(s, 1)
            o, p = deref_seq(e, s, c.args[0])
            return R(s, SOME(e.mkref(o, p + ((('s', 0, sub(n, m)) if end else ('s', m, n)),))))
        return ite(e, s, cond, hit, no)
    return ite(e, st, le(m, n), yes, no)


def affix_eq(e, st, part, pat):
    n = slen(pat)
    if isinstance(n, int) and n <= 64:
        r = 1
        for i in range(n):
            r = b_and_(r, deep_eq(e, st, e.note_byte(e.elem(st, part, i)), e.elem(st, pat, i)))
        return r
    return deep_eq(e, st, part, pat)


def ascii_only(v):
    """a byte value below 128 on every path"""
    if isinstance(v, int):
        return 0 <= v < 128
    if not isT(v, 'sel'):
        return v in RANGE and RANGE[v][0] >= 0 and RANGE[v][1] < 128
    return all(s[0] == 'l' and all(ascii_only(x) for x in s[1]) for s in segs(v.a[0]))


def ascii_text(v):
    v = v.a[2] if isT(v, 'flat') else lits([v.a[2]]) if isT(v, 'tab') else v
    if isT(v, 'ftab'):
        return all(ascii_text(x) for _, x in v.a[2])
    if not isT(v, 'seq'):
        return False
    return all(s[0] == 'l' and all(ascii_only(x) for x in s[1]) or s[0] == 's' and s[2] == 0 and s[3] is slen(s[1]) and s[1] is not v and ascii_text(s[1]) for s in segs(v))


@model('std::char::from_digit', 'char::from_digit')
def m_fromdigit(e, st, c):
    d, r = c.args
    r = st.point(r)
    if not isinstance(r, int) or not 2 <= r <= 36:
        return None
    digits = lit('0123456789abcdefghijklmnopqrstuvwxyz'[:r])
    return ite(e, st, le(d, r - 1), lambda s: R(s, SOME(e.elem(s, digits, s.point(d)))), lambda s: R(s, NONE))


def char_seq(v):
    if isinstance(v, int):
        return lit(chr(v))
    if ascii_only(v):
        return lits([v])
    t = mk('utf8', v)
    return t


def pattern(e, st, p):
    """byte sequence of a char or string pattern; None when it is a closure"""
    if isinstance(p, int):
        return lit(chr(p))
    if isT(p) and p.op in ('agg', 'fn', 'pyfn'):
        return None
    v = val(e, st, p)
    if isinstance(v, int):
        return lit(chr(v))
    if isT(v) and v.op in ('agg', 'fn', 'pyfn'):
        return None
    return v


@model('slice::get', 'slice::get_mut', 'str::get')
def m_get(e, st, c):
    o, p = deref_seq(e, st, c.args[0])
    v = e.read(st, o, p)
    n = slen(v)
    i = c.args[1]
    rg = range_of(e, st, i, n)
    if rg is not None:
        lo, hi = rg
        return ite(e, st, b_and_(le(lo, hi), le(hi, n)), lambda s: str_get(e, s, c, v, lo, hi, SOME(e.mkref(o, p + (('s', lo, hi),)))), lambda s: R(s, NONE))
    return ite(e, st, b_and_(le(0, i), lt(i, n)), lambda s: R(s, SOME(elref(e, s, o, p, v, i))), lambda s: R(s, NONE))


def str_get(e, st, c, v, lo, hi, r):
    if c.key.startswith('str::'):
        b = boundary(e, st, v, lo, hi)
        return ite(e, st, b, lambda s: R(s, r), lambda s: R(s, NONE))
    return R(st, r)


def boundary(e, st, v, lo, hi):
    n = slen(v)
    r = 1
    for x in (lo, hi):
        if st.cmp(x, 0) == 0 or st.cmp(x, n) == 0:
            continue
        b = e.note_byte(e.elem(st, v, x))
        if isinstance(b, int):
            k = 0 if b & 0xc0 == 0x80 else 1
        else:
            pb = e.note_byte(e.elem(st, v, sub(x, 1)))
            t = mk('bnd', v, x)
            RANGE[t] = (0, 1)
            if isinstance(pb, int) and pb < 0x80:
                k = 1
            else:
                lo_, hi_ = st.bounds(b)
                k = 1 if hi_ < 0x80 else t
        r = b_and_(r, k)
    return r


@model('slice::get_unchecked', 'slice::get_unchecked_mut')
def m_getun(e, st, c):
    o, p = deref_seq(e, st, c.args[0])
    v = e.read(st, o, p)
    n = slen(v)
    i = c.args[1]
    rg = range_of(e, st, i, n)
    if rg is not None:
        lo, hi = rg
        return sound(e, st, b_and_(le(lo, hi), le(hi, n)), 'get_unchecked out of bounds', lambda s: R(s, e.mkref(o, p + (('s', lo, hi),))))
    return sound(e, st, b_and_(le(0, i), lt(i, n)), 'get_unchecked out of bounds', lambda s: R(s, elref(e, s, o, p, v, i)))


def elref(e, st, o, p, v, i):
    return e.mkref(o, p + (('i', i),))


@model('slice::first', 'slice::last', 'slice::first_mut', 'slice::last_mut')
def m_first(e, st, c):
    o, p = deref_seq(e, st, c.args[0])
    v = e.read(st, o, p)
    n = slen(v)
    i = 0 if 'first' in c.key else sub(n, 1)
    return ite(e, st, le(1, n), lambda s: R(s, SOME(e.mkref(o, p + (('i', i),)))), lambda s: R(s, NONE))


@model('slice::split_first', 'slice::split_last')
def m_splitfirst(e, st, c):
    o, p = deref_seq(e, st, c.args[0])
    v = e.read(st, o, p)
    n = slen(v)

    def go(s):
        if 'first' in c.key:
            a, b = e.mkref(o, p + (('i', 0),)), e.mkref(o, p + (('s', 1, n),))
        else:
            a, b = e.mkref(o, p + (('i', sub(n, 1)),)), e.mkref(o, p + (('s', 0, sub(n, 1)),))
        return R(s, SOME(mk('agg', '()', 0, a, b)))
    return ite(e, st, le(1, n), go, lambda s: R(s, NONE))


@model('slice::split_at', 'slice::split_at_mut', 'str::split_at')
def m_splitat(e, st, c):
    o, p = deref_seq(e, st, c.args[0])
    v = e.read(st, o, p)
    n = slen(v)
    i = c.args[1]

    def go(s):
        r = mk('agg', '()', 0, e.mkref(o, p + (('s', 0, i),)), e.mkref(o, p + (('s', i, n),)))
        if c.key.startswith('str'):
            return need(e, s, boundary(e, s, v, i, n), 'not a char boundary', lambda s2: R(s2, r))
        return R(s, r)
    return need(e, st, le(i, n), 'split_at out of range', go)


RANGES = {'core::ops::range::RangeFull': 'full', 'core::ops::range::Range': 'range', 'core::ops::range::RangeFrom': 'from',
          'core::ops::range::RangeTo': 'to', 'core::ops::range::RangeInclusive': 'incl', 'core::ops::range::RangeToInclusive': 'toincl'}


def range_of(e, st, r, n):
    """(lo, hi) of a range value over a sequence of length n"""
    if not isT(r, 'agg'):
        if isT(r) and r in VTY and e.types[VTY[r]].get('path') in RANGES:
            raise Stop('symbolic range')
        return None
    k = RANGES.get(r.a[0])
    if k is None:
        return None
    f = r.a[2:]
    return {'full': lambda: (0, n), 'range': lambda: (f[0], f[1]), 'from': lambda: (f[0], n), 'to': lambda: (0, f[0]),
            'incl': lambda: (f[0], add(f[1], 1)), 'toincl': lambda: (0, add(f[0], 1))}[k]()


@model('std::ops::Index::index', 'std::ops::IndexMut::index_mut')
def m_index(e, st, c):
    t = selfty(e, c)
    ty = e.types[t]
    if ty.get('path') == 'std::collections::hash::map::HashMap':
        return map_get(e, st, c.args[0], c.args[1], lambda s, r: R(s, r), lambda s: P(e, s, 'missing key'))
    o, p = deref_seq(e, st, c.args[0])
    v = e.read(st, o, p)
    n = slen(v)
    i = c.args[1]
    rg = range_of(e, st, i, n)
    isstr = ty['k'] == 'str' or ty.get('path') == 'alloc::string::String'
    if rg is not None:
        lo, hi = rg
        if lo == 0 and (hi is n or hi == n):
            return R(st, e.mkref(o, p))

        def go(s):
            r = e.mkref(o, p + (('s', lo, hi),))
            if isstr:
                return need(e, s, boundary(e, s, v, lo, hi), 'not a char boundary', lambda s2: R(s2, r))
            return R(s, r)
        return need(e, st, b_and_(le(0, lo), b_and_(le(lo, hi), le(hi, n))), 'slice index out of range', go)
    return need(e, st, b_and_(le(0, i), lt(i, n)), 'index out of bounds', lambda s: R(s, e.mkref(o, p + (('i', i),))))


# ---------------------------------------------------------------- Vec / String
@model('std::vec::Vec::new', 'std::vec::Vec::with_capacity', 'std::string::String::new', 'std::string::String::with_capacity')
def m_vecnew(e, st, c):
    if c.args and isT(c.args[0]):
        return need(e, st, le(c.args[0], 1 << 62), 'capacity overflow', lambda s: R(s, EMPTY))
    return R(st, EMPTY)


@model('std::vec::Vec::reserve', 'std::string::String::reserve', 'std::vec::Vec::shrink_to_fit', 'std::vec::Vec::reserve_exact')
def m_nop(e, st, c):
    return R(st)


def upd(e, st, p, f):
    st = st.copy()
    o, path = deref_seq(e, st, p)
    e.write(st, o, path, f(e.read(st, o, path)))
    return st


@model('std::vec::Vec::push')
def m_push(e, st, c):
    return R(upd(e, st, c.args[0], lambda v: cat(v, lits([c.args[1]]))))


@model('std::string::String::push')
def m_spush(e, st, c):
    return R(upd(e, st, c.args[0], lambda v: cat(v, char_seq(c.args[1]))))


@model('std::vec::Vec::pop')
def m_pop(e, st, c):
    v = content(e, st, c.args[0])
    n = slen(v)

    def go(s):
        x = e.elem(s, v, sub(n, 1))
        return R(upd(e, s, c.args[0], lambda w: e.slice(s, w, 0, sub(n, 1))), SOME(x))
    return ite(e, st, le(1, n), go, lambda s: R(s, NONE))


@model('std::string::String::pop')
def m_spop(e, st, c):
    return None


@model('std::vec::Vec::extend_from_slice', 'std::string::String::push_str')
def m_efs(e, st, c):
    x = content(e, st, c.args[1])
    return R(upd(e, st, c.args[0], lambda v: cat(v, x)))


@model('std::vec::Vec::append')
def m_append(e, st, c):
    x = content(e, st, c.args[1])
    st = upd(e, st, c.args[0], lambda v: cat(v, x))
    return R(upd(e, st, c.args[1], lambda v: EMPTY))


@model('std::vec::Vec::truncate', 'std::string::String::truncate')
def m_trunc(e, st, c):
    v = content(e, st, c.args[0])
    return ite(e, st, lt(c.args[1], slen(v)), lambda s: R(upd(e, s, c.args[0], lambda w: e.slice(s, w, 0, c.args[1]))), lambda s: R(s))


@model('std::vec::Vec::clear', 'std::string::String::clear')
def m_clear(e, st, c):
    return R(upd(e, st, c.args[0], lambda v: EMPTY))


@model('std::vec::Vec::resize')
def m_resize(e, st, c):
    v = content(e, st, c.args[0])
    n = slen(v)
    m = c.args[1]
    return ite(e, st, le(n, m), lambda s: R(upd(e, s, c.args[0], lambda w: cat(w, rep(c.args[2], sub(m, n))))),
               lambda s: R(upd(e, s, c.args[0], lambda w: e.slice(s, w, 0, m))))


@model('std::vec::Vec::insert')
def m_vinsert(e, st, c):
    v = content(e, st, c.args[0])
    i = c.args[1]
    return need(e, st, le(i, slen(v)), 'insert out of range', lambda s: R(upd(e, s, c.args[0], lambda w: e.splice(s, w, i, i, lits([c.args[2]])))))


@model('std::vec::Vec::remove')
def m_vremove(e, st, c):
    v = content(e, st, c.args[0])
    i = c.args[1]

    def go(s):
        x = e.elem(s, v, i)
        return R(upd(e, s, c.args[0], lambda w: e.splice(s, w, i, add(i, 1), EMPTY)), x)
    return need(e, st, lt(i, slen(v)), 'remove out of range', go)


@model('std::vec::from_elem', 'alloc::vec::from_elem')
def m_fromelem(e, st, c):
    return R(st, rep(c.args[0], c.args[1]))


@model('std::vec::Vec::split_off')
def m_splitoff(e, st, c):
    v = content(e, st, c.args[0])
    i = c.args[1]
    n = slen(v)
    return need(e, st, le(i, n), 'split_off out of range',
                lambda s: R(upd(e, s, c.args[0], lambda w: e.slice(s, w, 0, i)), e.slice(s, v, i, n)))


@model('std::string::String::from_utf8', 'std::str::from_utf8', 'core::str::converts::from_utf8')
def m_utf8(e, st, c):
    v = val(e, st, c.args[0])
    if ascii_text(v):
        return R(st, OK(c.args[0]))
    t = mk('utf8ok', v)
    RANGE[t] = (0, 1)
    return ite(e, st, t, lambda s: R(s, OK(c.args[0])), lambda s: R(s, ERR(mk('utf8err', v))))


# ---------------------------------------------------------------- str
def solid(seg, k):
    """the segment begins (0) or ends (-1) with something that is no white space"""
    if seg[0] == 'l':
        return isinstance(seg[1][k], int) and 33 <= seg[1][k] < 127
    return seg[0] == 's' and isT(seg[1], 'dec') and seg[2] == 0 and seg[3] == slen(seg[1])


@model('str::trim', 'str::trim_start', 'str::trim_end')
def m_trim(e, st, c):
    v = content(e, st, c.args[0])
    if v.op == 'seq' and all(s[0] == 'l' and all(isinstance(x, int) for x in s[1]) for s in v.a):
        b = bytes(x for s in v.a for x in s[1]).decode()
        r = lit({'trim': b.strip(), 'trim_start': b.lstrip(), 'trim_end': b.rstrip()}[c.key[5:]])
    elif isT(v, 'dec') or v.op == 'seq' and v.a and solid(v.a[0], 0) and solid(v.a[-1], -1):
        r = v
    else:
        r = mk(c.key[5:], v)
    return R(st, mk('ref', ('c', r), ()))


@model('str::parse')
def m_parse(e, st, c):
    v = content(e, st, c.args[0])
    rt = e.types[c.dty]
    t = rt['args'][0]
    ty = e.types[t]
    if ty['k'] != 'int':
        return None
    return parse_int(e, st, v, t, 10, rt['args'][1])


def parse_int(e, st, v, t, radix, errt):
    """isnum: digits with an optional plus sign, num: their value whatever its size; isneg: a minus sign and digits"""
    er = mk('numerr', v)
    lo, hi = e.int_range(t)
    bad = lambda s: R(s, ERR(e.note_ty(er, errt)))

    def nonneg(n):
        return lambda s: ite(e, s, le(n, hi), lambda s2: R(s2, OK(n)), bad)
    if radix == 10 and isT(v, 'dec'):
        return nonneg(v.a[0])(st)
    if isT(v, 'seq') and all(x[0] == 'l' and all(isinstance(y, int) for y in x[1]) for x in v.a):
        b = bytes(y for x in v.a for y in x[1])
        m = re.match(rb'([+-]?)([0-9a-zA-Z]+)$', b)
        try:
            n = int(m.group(2).decode(), radix) if m and (m.group(1) != b'-' or lo < 0) else None
        except ValueError:
            n = None
        if n is not None and m.group(1) == b'-':
            n = -n
        return R(st, OK(n)) if n is not None and lo <= n <= hi else bad(st)
    ok = mk('isnum', v, radix)
    RANGE[ok] = (0, 1)
    n = mk('num', v, radix)
    RANGE.setdefault(n, (0, 1 << 200))
    if lo == 0:
        return ite(e, st, ok, nonneg(n), bad)
    neg = mk('isneg', v, radix)
    RANGE[neg] = (0, 1)
    m = mk('negnum', v, radix)
    RANGE.setdefault(m, (-(1 << 200), 0))

    def other(s):
        return ite(e, s, neg, lambda s2: ite(e, s2, le(lo, m), lambda s3: R(s3, OK(m)), bad), bad)
    return ite(e, st, ok, nonneg(n), other)


@model('u8::from_str_radix', 'u16::from_str_radix', 'u32::from_str_radix', 'u64::from_str_radix', 'std::str::FromStr::from_str')
def m_fsr(e, st, c):
    v = content(e, st, c.args[0])
    rt = e.types[c.dty]
    if e.types[rt['args'][0]]['k'] != 'int':
        return None
    radix = c.args[1] if len(c.args) > 1 else 10
    if not isinstance(radix, int):
        return None
    return parse_int(e, st, v, rt['args'][0], radix, rt['args'][1])


def parts(v, pat):
    """list of the parts of a text made of known characters and decimal numbers"""
    if not isT(pat, 'seq') or slen(pat) != 1 or pat.a[0][0] != 'l' or not isinstance(pat.a[0][1][0], int) or 48 <= pat.a[0][1][0] < 58:
        return None
    out = [[]]
    for g in segs(v):
        if g[0] == 'l' and all(isinstance(x, int) and x < 128 for x in g[1]):
            for x in g[1]:
                if x == pat.a[0][1][0]:
                    out.append([])
                else:
                    out[-1].append(('l', (x,)))
        elif g[0] == 's' and isT(g[1], 'dec') and g[2] == 0 and g[3] == slen(g[1]):
            out[-1].append(g)
        else:
            return None
    return lits([mkseq(x) for x in out])


@model('str::split', 'str::split_whitespace', 'str::split_ascii_whitespace')
def m_split(e, st, c):
    v = content(e, st, c.args[0])
    if c.key == 'str::split':
        pat = pattern(e, st, c.args[1])
        if pat is None:
            return None
        S = parts(v, pat)
        if S is not None:
            return R(st, mk('it', 'own', S, 0, slen(S), 1))
        S = mk('split', v, pat)
    else:
        S = mk(c.key[5:], v)
    l = mk('len', S)
    RANGE.setdefault(l, (1 if c.key == 'str::split' else 0, LENMAX))
    return R(st, mk('it', 'own', S, 0, l, 1))


@model('str::bytes')
def m_bytes(e, st, c):
    v = content(e, st, c.args[0])
    return R(st, mk('it', 'own', v, 0, slen(v), 0))


@model('str::chars')
def m_chars(e, st, c):
    v = content(e, st, c.args[0])
    S = mk('chars', v)
    if v.op == 'seq' and all(s[0] == 'l' and all(isinstance(x, int) for x in s[1]) for s in v.a):
        S = lits([ord(x) for x in bytes(x for s in v.a for x in s[1]).decode()])
    else:
        RANGE.setdefault(mk('len', S), (0, LENMAX))
    return R(st, mk('it', 'own', S, 0, slen(S), 0))


@model('str::replace')
def m_strreplace(e, st, c):
    v = content(e, st, c.args[0])
    a, b = pattern(e, st, c.args[1]), pattern(e, st, c.args[2])
    if a is None or b is None:
        return None
    return R(st, mk('strreplace', v, a, b))


@model('str::trim_end_matches', 'str::trim_start_matches', 'str::trim_matches', 'str::to_lowercase', 'str::to_uppercase')
def m_trimm(e, st, c):
    v = content(e, st, c.args[0])
    a = [pattern(e, st, x) for x in c.args[1:]]
    if any(x is None for x in a):
        return None
    r = mk(c.key[5:], v, *a)
    if 'case' in c.key:
        return R(st, r)
    return R(st, mk('ref', ('c', r), ()))


@model('str::contains')
def m_strcontains(e, st, c):
    v = content(e, st, c.args[0])
    p = pattern(e, st, c.args[1])
    if p is None:
        return None
    if p is lit(b'\0'):
        return R(st, b_not(no_nul(e, st, v)))
    t = mk('strhas', v, p)
    RANGE[t] = (0, 1)
    return R(st, t)


@model('str::find', 'str::rfind')
def m_strfind(e, st, c):
    v = content(e, st, c.args[0])
    p = pattern(e, st, c.args[1])
    if p is None:
        return None
    t = mk('strhas', v, p)
    RANGE[t] = (0, 1)
    if p is lit(b'\0'):
        t = b_not(no_nul(e, st, v))
    at = mk(c.key[5:], v, p)
    RANGE.setdefault(at, (0, LENMAX))

    def go(s):
        s = s.copy()
        if not ENG.assume_in(s, le(add(at, slen(p)), slen(v)), 1):
            return []
        return R(s, SOME(at))
    return ite(e, st, t, go, lambda s: R(s, NONE))


@model('str::is_char_boundary')
def m_icb(e, st, c):
    v = content(e, st, c.args[0])
    return R(st, boundary(e, st, v, c.args[1], slen(v)))


# ---------------------------------------------------------------- iterators
# it('ref', ptr, lo, hi)        references to elements of the sequence at ptr
# it('own', S, lo, hi, asref)   elements of S by value (asref: references to them)
# it('range', lo, hi)
# it('map', it, f) ('filter', it, f) ('fmap', it, f) ('enum', it, n) ('deref', it) ('take', it, n) ('skip', it, n)
# it('rev', it) ('zip', a, b) ('chain', a, b) ('repeat', v) ('chunks', ptr, size, lo, hi) ('once', opt) ('inspect'...)

def into_it(e, st, v, t):
    """iterator for a value of type t"""
    if isT(v, 'it'):
        return v
    ty = e.types[t] if t is not None else {'k': '?'}
    p = ty.get('path')
    if p == 'core::ops::range::Range' or isT(v, 'agg') and v.a[0] == 'core::ops::range::Range':
        a = [e.rd1(st, v, ('f', 0, i, t)) for i in range(2)]
        return mk('it', 'range', a[0], a[1])
    if p == 'core::ops::range::RangeInclusive' or isT(v, 'agg') and v.a[0] == 'core::ops::range::RangeInclusive':
        a = [e.rd1(st, v, ('f', 0, i, t)) for i in range(2)]
        return mk('it', 'range', a[0], add(a[1], 1))
    if p == 'core::ops::range::RangeFrom':
        return mk('it', 'range', v.a[2], 1 << 64)
    if ty['k'] == 'ref':
        it = ty['e']
        x = e.load(st, v)
        if isT(x, 'it'):
            return mk('it', 'byref', v)
        if isT(x, 'ref'):
            return into_it(e, st, x, it)
        it_ = e.types[it]
        if it_.get('path') == HMAP:
            return map_iter(e, st, e.rb(st, x), 'items', 1)
        if it_.get('path') in MAPS + SETS:
            raise Stop('iteration over ' + it_['s'])
        if it_.get('next'):
            return mk('it', 'objref', v, t)
        if it_.get('path') == OPT:
            return mk('it', 'optref', v)
        return mk('it', 'ref', v, 0, slen(x))
    if p == 'std::collections::hash::map::HashMap':
        return map_iter(e, st, v, 'items', 0)
    if p == OPT:
        return mk('it', 'once', v)
    if p == 'alloc::vec::Vec' or ty['k'] == 'array' or p == 'alloc::boxed::Box':
        return mk('it', 'own', v, 0, slen(v), 0)
    if ty.get('next'):
        return mk('it', 'obj', v, t)
    if t is None and isT(v, 'ref'):
        x = e.load(st, v)
        if isT(x, 'it'):
            return mk('it', 'byref', v)
        if t is None and VTY.get(x) is not None and e.types[VTY[x]].get('path') == OPT:
            return mk('it', 'optref', v)
        return mk('it', 'ref', v, 0, slen(x))
    if t is None and isT(v, 'seq'):
        return mk('it', 'own', v, 0, slen(v), 0)
    raise Stop('into_iter of %s' % str(ty.get('s')) + ' ' + (show(v)[:60] if isT(v) else str(v)))


@model('std::iter::IntoIterator::into_iter')
def m_intoiter(e, st, c):
    return R(st, into_it(e, st, c.args[0], c.atys[0]))


@model('slice::iter', 'slice::iter_mut', 'std::vec::Vec::iter')
def m_iter(e, st, c):
    o, p = deref_seq(e, st, c.args[0])
    return R(st, mk('it', 'ref', e.mkref(o, p), 0, slen(e.read(st, o, p))))


@model('slice::chunks', 'slice::chunks_exact', 'slice::chunks_mut', 'slice::chunks_exact_mut')
def m_chunks(e, st, c):
    o, p = deref_seq(e, st, c.args[0])
    n = slen(e.read(st, o, p))
    if 'exact' in c.key and isinstance(n, int) and isinstance(c.args[1], int):
        n -= n % c.args[1]
    return R(st, mk('it', 'chunks', e.mkref(o, p), c.args[1], 0, n))


@model('slice::map', 'array::map')
def m_arrmap(e, st, c):
    v, f = c.args[0], c.args[1]
    return drive(e, st, mk('it', 'map', mk('it', 'own', v, 0, slen(v), 0), f), EMPTY, lambda s, x, acc: [(s, 'go', cat(acc, lits([x])))], lambda s, acc: R(s, acc))


@model('slice::windows')
def m_windows(e, st, c):
    o, p = deref_seq(e, st, c.args[0])
    return need(e, st, le(1, c.args[1]), 'windows of size 0', lambda s: R(s, mk('it', 'windows', e.mkref(o, p), c.args[1], 0, slen(e.read(s, o, p)))))


@model('char::is_digit')
def m_isdigit(e, st, c):
    if c.args[1] != 10:
        return None
    return R(st, b_and_(le(48, c.args[0]), le(c.args[0], 57)))


@model('std::boxed::box_assume_init_into_vec_unsafe')
def m_vecmac(e, st, c):
    return R(st, content(e, st, c.args[0]))


@model('std::iter::repeat')
def m_repeat(e, st, c):
    return R(st, mk('it', 'repeat', c.args[0]))


@model('std::iter::once')
def m_once(e, st, c):
    return R(st, mk('it', 'once', SOME(c.args[0])))


@model('std::iter::empty')
def m_empty(e, st, c):
    return R(st, mk('it', 'once', NONE))


@model('std::iter::repeat_n')
def m_repeatn(e, st, c):
    return R(st, mk('it', 'take', mk('it', 'repeat', c.args[0]), c.args[1]))


def itarg(e, st, c, i=0):
    v = c.args[i]
    if isT(v, 'it'):
        return v
    return into_it(e, st, v, c.atys[i] if c.atys else None)


@model('std::iter::Iterator::map', 'std::iter::Iterator::filter', 'std::iter::Iterator::filter_map', 'std::iter::Iterator::inspect',
       'std::iter::Iterator::take_while', 'std::iter::Iterator::flat_map', 'std::iter::Iterator::map_while')
def m_adapt(e, st, c):
    k = c.key.split('::')[-1]
    if k == 'flat_map':
        e.inner_ty[c.args[1]] = e.types[c.dty]['args'][1]
        return R(st, mk('it', 'flat', itarg(e, st, c), c.args[1], 0))
    return R(st, mk('it', k, itarg(e, st, c), c.args[1]))


@model('std::iter::Iterator::flatten')
def m_flatten(e, st, c):
    it = itarg(e, st, c)
    e.inner_ty[mk('flat_of', it)] = item_ty(e, c.atys[0])
    return R(st, mk('it', 'flat', it, mk('flat_of', it), 0))


def item_ty(e, t):
    ty = e.types[t]
    if ty.get('next'):
        f = e.fns[ty['next']]
        if 'body' in f:
            return e.types[f['body']['locals'][0]]['args'][0]
    p = ty.get('path')
    if p in ('alloc::vec::into_iter::IntoIter', 'core::array::iter::IntoIter'):
        return ty['args'][0]
    if p == 'core::slice::iter::Iter':
        for i, x in e.types.items() if isinstance(e.types, dict) else enumerate(e.types):
            if x and x['k'] == 'ref' and x['e'] == ty['args'][0] and not x['m']:
                return i
    raise Stop('item of ' + ty['s'])


@model('std::iter::Iterator::enumerate')
def m_enum(e, st, c):
    return R(st, mk('it', 'enum', itarg(e, st, c), 0))


@model('std::iter::Iterator::cloned', 'std::iter::Iterator::copied')
def m_cloned(e, st, c):
    return R(st, mk('it', 'deref', itarg(e, st, c)))


@model('std::iter::Iterator::take')
def m_take_(e, st, c):
    it = itarg(e, st, c)
    n = c.args[1]
    sz = it_len(e, st, it)
    if it.a[0] in ('ref', 'own', 'range') and sz is not None:
        lo = it.a[2] if it.a[0] != 'range' else it.a[1]

        def setend(s, h):
            a = list(it.a)
            if it.a[0] == 'range':
                a[2] = h
            else:
                a[3] = h
            return mk('it', *a)
        return ite(e, st, le(n, sz), lambda s: R(s, setend(s, add(lo, n))), lambda s: R(s, it))
    return R(st, mk('it', 'take', it, n))


@model('std::iter::Iterator::skip')
def m_skip(e, st, c):
    it = itarg(e, st, c)
    n = c.args[1]
    sz = it_len(e, st, it)

    def adv(i, k):
        o = i.a[0]
        if o in ('ref', 'own', 'range'):
            a = list(i.a)
            j = 1 if o == 'range' else 2
            a[j] = add(a[j], k)
            return mk('it', *a)
        if o == 'deref':
            x = adv(i.a[1], k)
            return x and mk('it', 'deref', x)
        if o == 'enum':
            x = adv(i.a[1], k)
            return x and mk('it', 'enum', x, add(i.a[2], k))
        return None
    if sz is not None and adv(it, 0) is not None:
        return ite(e, st, le(n, sz), lambda s: R(s, adv(it, n)), lambda s: R(s, adv(it, sz)))
    return R(st, mk('it', 'skip', it, n))


@model('std::iter::Iterator::rev')
def m_rev(e, st, c):
    return R(st, mk('it', 'rev', itarg(e, st, c)))


@model('std::iter::Iterator::zip')
def m_zip(e, st, c):
    return R(st, mk('it', 'zip', itarg(e, st, c), itarg(e, st, c, 1)))


@model('std::iter::zip')
def m_zip2(e, st, c):
    return R(st, mk('it', 'zip', itarg(e, st, c), itarg(e, st, c, 1)))


@model('std::iter::Iterator::chain')
def m_chain(e, st, c):
    return R(st, mk('it', 'chain', itarg(e, st, c), itarg(e, st, c, 1)))


@model('std::iter::Iterator::by_ref', 'std::iter::Iterator::fuse')
def m_byref(e, st, c):
    return R(st, c.args[0])


@model('std::iter::Iterator::size_hint')
def m_sizehint(e, st, c):
    n = it_len(e, st, e.load(st, c.args[0]))
    if n is None:
        return None
    return R(st, mk('agg', '()', 0, n, SOME(n)))


@model('std::iter::ExactSizeIterator::len')
def m_itlen(e, st, c):
    n = it_len(e, st, content(e, st, c.args[0]))
    return R(st, n) if n is not None else None


def it_len(e, st, it):
    k = it.a[0]
    if k in ('ref', 'own'):
        return sub(it.a[3], it.a[2])
    if k == 'range':
        lo, hi = st.bounds(sub(it.a[2], it.a[1]))
        if lo >= 0:
            return sub(it.a[2], it.a[1])
        return None
    if k in ('map', 'deref', 'inspect', 'rev', 'enum'):
        return it_len(e, st, it.a[1])
    return None


def peel(e, st, it):
    """next element: [(state, element or None, iterator)]; may also give panic outs as (Out,)"""
    k = it.a[0]
    if k == 'ref':
        p, lo, hi = it.a[1:4]
        out = []
        for s, b in e.decide(st, lt(lo, hi)):
            if b:
                o, path = e.target(p)
                out.append((s, e.mkref(o, path + (('i', lo),)), mk('it', 'ref', p, add(lo, 1), hi)))
            else:
                out.append((s, None, it))
        return out
    if k == 'own':
        S, lo, hi, asref = it.a[1:5]
        out = []
        for s, b in e.decide(st, lt(lo, hi)):
            if b:
                x = e.elem(s, S, lo)
                if asref:
                    x = mk('ref', ('c', x), ())
                out.append((s, x, mk('it', 'own', S, add(lo, 1), hi, asref)))
            else:
                out.append((s, None, it))
        return out
    if k == 'range':
        lo, hi = it.a[1:3]
        out = []
        for s, b in e.decide(st, lt(lo, hi)):
            out.append((s, lo, mk('it', 'range', add(lo, 1), hi)) if b else (s, None, it))
        return out
    if k == 'chunks':
        p, size, lo, hi = it.a[1:5]
        out = []
        for s, b in e.decide(st, lt(lo, hi)):
            if b:
                o, path = e.target(p)
                for s2, b2 in e.decide(s, le(add(lo, size), hi)):
                    end = add(lo, size) if b2 else hi
                    out.append((s2, e.mkref(o, path + (('s', lo, end),)), mk('it', 'chunks', p, size, end, hi)))
            else:
                out.append((s, None, it))
        return out
    if k == 'windows':
        p, size, lo, hi = it.a[1:5]
        out = []
        for s, b in e.decide(st, le(add(lo, size), hi)):
            o, path = e.target(p)
            out.append((s, e.mkref(o, path + (('s', lo, add(lo, size)),)), mk('it', 'windows', p, size, add(lo, 1), hi)) if b else (s, None, it))
        return out
    if k == 'repeat':
        return [(st, it.a[1], it)]
    if k == 'once':
        out = []
        for s, v in e.split_variant(st, it.a[1]):
            if v == 1:
                out.append((s, e.rd1(s, it.a[1], ('f', 1, 0, None)), mk('it', 'once', NONE)))
            else:
                out.append((s, None, it))
        return out
    if k == 'optref':
        v = e.load(st, it.a[1])
        out = []
        for s, i in e.split_variant(st, v):
            if i == 1:
                o, path = e.target(it.a[1])
                out.append((s, e.mkref(o, path + (('f', 1, 0, VTY.get(v)),)), mk('it', 'once', NONE)))
            else:
                out.append((s, None, it))
        return out
    if k == 'byref':
        inner = e.load(st, it.a[1])
        out = []
        for r in peel(e, st, inner):
            if isinstance(r, Out):
                out.append(r)
                continue
            s, x, i2 = r
            s = s.copy()
            e.store(s, it.a[1], i2)
            out.append((s, x, it))
        return out
    if k == 'map' or k == 'inspect':
        out = []
        for r in peel(e, st, it.a[1]):
            if isinstance(r, Out):
                out.append(r)
                continue
            s, x, i2 = r
            i3 = mk('it', k, i2, it.a[2])
            if x is None:
                out.append((s, None, i3))
                continue
            arg = x
            if k == 'inspect':
                arg = tmp_ref(e, s, x)
            for o in e.call_value(it.a[2], [arg], s):
                out.append((o.st, o.v if k == 'map' else x, i3) if o.k == 'ret' else o)
        return out
    if k == 'map_while':
        out = []
        for r in peel(e, st, it.a[1]):
            if isinstance(r, Out):
                out.append(r)
                continue
            s, x, i2 = r
            i3 = mk('it', k, i2, it.a[2])
            if x is None:
                out.append((s, None, i3))
                continue
            for o in e.call_value(it.a[2], [x], s):
                if o.k != 'ret':
                    out.append(o)
                    continue
                for s2, vi in e.split_variant(o.st, o.v):
                    out.append((s2, e.rd1(s2, o.v, ('f', 1, 0, None)) if vi else None, i3))
        return out
    if k in ('filter', 'filter_map', 'take_while'):
        # one element; a rejected element is reported as 'skip'
        out = []
        for r in peel(e, st, it.a[1]):
            if isinstance(r, Out):
                out.append(r)
                continue
            s, x, i2 = r
            i3 = mk('it', k, i2, it.a[2])
            if x is None or x is SKIP:
                out.append((s, x, i3))
                continue
            if k == 'filter_map':
                for o in e.call_value(it.a[2], [x], s):
                    if o.k != 'ret':
                        out.append(o)
                        continue
                    for s2, vi in e.split_variant(o.st, o.v):
                        out.append((s2, e.rd1(s2, o.v, ('f', 1, 0, None)) if vi else SKIP, i3))
                continue
            s = s.copy()
            arg = tmp_ref(e, s, x)
            for o in e.call_value(it.a[2], [arg], s):
                if o.k != 'ret':
                    out.append(o)
                    continue
                for s2, b in e.decide(o.st, o.v):
                    out.append((s2, x if b else (SKIP if k == 'filter' else None), i3 if b or k == 'filter' else mk('it', 'once', NONE)))
        return out
    if k == 'enum':
        out = []
        for r in peel(e, st, it.a[1]):
            if isinstance(r, Out):
                out.append(r)
                continue
            s, x, i2 = r
            if x is None or x is SKIP:
                out.append((s, x, mk('it', 'enum', i2, it.a[2])))
            else:
                out.append((s, mk('agg', '()', 0, it.a[2], x), mk('it', 'enum', i2, add(it.a[2], 1))))
        return out
    if k == 'deref':
        out = []
        for r in peel(e, st, it.a[1]):
            if isinstance(r, Out):
                out.append(r)
                continue
            s, x, i2 = r
            out.append((s, x if x is None or x is SKIP else e.load(s, x), mk('it', 'deref', i2)))
        return out
    if k == 'take':
        out = []
        for s, b in e.decide(st, le(1, it.a[2])):
            if not b:
                out.append((s, None, it))
                continue
            for r in peel(e, s, it.a[1]):
                if isinstance(r, Out):
                    out.append(r)
                    continue
                s2, x, i2 = r
                out.append((s2, x, mk('it', 'take', i2, sub(it.a[2], 0 if x is SKIP else 1))))
        return out
    if k == 'skip':
        out = []
        work = [(st, it.a[1], it.a[2], 0)]
        while work:
            s0, i0, n0, m = work.pop()
            if m > 300:
                raise Stop('long skip')
            for s, b in e.decide(s0, le(1, n0)):
                for r in peel_full(e, s, i0) if b else peel(e, s, i0):
                    if isinstance(r, Out):
                        out.append(r)
                        continue
                    s2, x, i2 = r
                    if not b:
                        out.append((s2, x, i2))
                    elif x is None:
                        out.append((s2, None, it))
                    else:
                        work.append((s2, i2, sub(n0, 1), m + 1))
        return out
    if k == 'zip':
        out = []
        for r in peel_full(e, st, it.a[1]):
            if isinstance(r, Out):
                out.append(r)
                continue
            s, x, i2 = r
            if x is None:
                out.append((s, None, it))
                continue
            for r2 in peel_full(e, s, it.a[2]):
                if isinstance(r2, Out):
                    out.append(r2)
                    continue
                s2, y, j2 = r2
                out.append((s2, None if y is None else mk('agg', '()', 0, x, y), mk('it', 'zip', i2, j2)))
        return out
    if k == 'chain':
        out = []
        for r in peel(e, st, it.a[1]):
            if isinstance(r, Out):
                out.append(r)
                continue
            s, x, i2 = r
            if x is None:
                for r2 in peel(e, s, it.a[2]):
                    if isinstance(r2, Out):
                        out.append(r2)
                        continue
                    s2, y, j2 = r2
                    out.append((s2, y, mk('it', 'chain', i2, j2)))
            else:
                out.append((s, x, mk('it', 'chain', i2, it.a[2])))
        return out
    if k == 'flat':
        out = []
        if it.a[3] != 0:
            for r in peel(e, st, it.a[3]):
                if isinstance(r, Out):
                    out.append(r)
                elif r[1] is None:
                    out.append((r[0], SKIP, mk('it', 'flat', it.a[1], it.a[2], 0)))
                else:
                    out.append((r[0], r[1], mk('it', 'flat', it.a[1], it.a[2], r[2])))
            return out
        for r in peel(e, st, it.a[1]):
            if isinstance(r, Out):
                out.append(r)
                continue
            s, x, i2 = r
            if x is None or x is SKIP:
                out.append((s, x, mk('it', 'flat', i2, it.a[2], 0)))
                continue
            for o in (R(s, x) if isT(it.a[2], 'flat_of') else e.call_value(it.a[2], [x], s)):
                if o.k != 'ret':
                    out.append(o)
                    continue
                cur = into_it(e, o.st, o.v, e.inner_ty[it.a[2]])
                out.append((o.st, SKIP, mk('it', 'flat', i2, it.a[2], cur)))
        return out
    if k == 'objref':
        out = []
        for o in e.call_fn(e.types[e.types[it.a[2]]['e']]['next'], [it.a[1]], st):
            if o.k != 'ret':
                out.append(o)
                continue
            for s2, vi in e.split_variant(o.st, o.v):
                out.append((s2, e.rd1(s2, o.v, ('f', 1, 0, None)) if vi else None, it))
        return out
    if k == 'obj':
        p, t = it.a[1:3]
        s = st.copy()
        r_ = tmp_ref(e, s, p)
        out = []
        for o in e.call_fn(e.types[t]['next'], [r_], s):
            if o.k != 'ret':
                out.append(o)
                continue
            for s2, vi in e.split_variant(o.st, o.v):
                s2 = s2.copy()
                p2 = e.load(s2, r_)
                s2.mem.pop(r_.a[0], None)
                out.append((s2, e.rd1(s2, o.v, ('f', 1, 0, None)) if vi else None, mk('it', 'obj', p2, t)))
        return out
    if k == 'rev':
        return peel_back(e, st, it.a[1], lambda i: mk('it', 'rev', i))
    raise Stop('iterator ' + k)


SKIP = mk('skip')


def peel_full(e, st, it):
    """peel until an element or the end (no symbolic skipping)"""
    out = []
    work = [(st, it)]
    n = 0
    while work:
        s, i = work.pop()
        for r in peel(e, s, i):
            if isinstance(r, Out) or r[1] is not SKIP:
                out.append(r)
            else:
                work.append((r[0], r[2]))
        n += 1
        if n > 2000:
            raise Stop('filtered iterator too long')
    return out


def peel_back(e, st, it, wrap):
    k = it.a[0]
    if k == 'range':
        lo, hi = it.a[1:3]
        return [(s, sub(hi, 1), wrap(mk('it', 'range', lo, sub(hi, 1)))) if b else (s, None, wrap(it)) for s, b in e.decide(st, lt(lo, hi))]
    if k == 'ref':
        p, lo, hi = it.a[1:4]
        o, path = e.target(p)
        return [(s, e.mkref(o, path + (('i', sub(hi, 1)),)), wrap(mk('it', 'ref', p, lo, sub(hi, 1)))) if b else (s, None, wrap(it))
                for s, b in e.decide(st, lt(lo, hi))]
    if k == 'own':
        S, lo, hi, asref = it.a[1:5]
        out = []
        for s, b in e.decide(st, lt(lo, hi)):
            if b:
                x = e.elem(s, S, sub(hi, 1))
                if asref:
                    x = mk('ref', ('c', x), ())
                out.append((s, x, wrap(mk('it', 'own', S, lo, sub(hi, 1), asref))))
            else:
                out.append((s, None, wrap(it)))
        return out
    if k == 'rev':
        return [r if isinstance(r, Out) else (r[0], r[1], wrap(mk('it', 'rev', r[2]))) for r in peel(e, st, it.a[1])]
    if k in ('map', 'deref'):
        out = []
        for r in peel_back(e, st, it.a[1], lambda i: i):
            if isinstance(r, Out):
                out.append(r)
                continue
            s, x, i2 = r
            i3 = wrap(mk('it', k, i2, *it.a[2:]))
            if x is None:
                out.append((s, None, i3))
            elif k == 'deref':
                out.append((s, e.load(s, x), i3))
            else:
                for o in e.call_value(it.a[2], [x], s):
                    out.append((o.st, o.v, i3) if o.k == 'ret' else o)
        return out
    if k == 'enum':
        n = it_len(e, st, it.a[1])
        if n is None:
            raise Stop('reverse of enumerate')
        out = []
        for r in peel_back(e, st, it.a[1], lambda i: i):
            if isinstance(r, Out):
                out.append(r)
                continue
            s, x, i2 = r
            i3 = wrap(mk('it', 'enum', i2, it.a[2]))
            out.append((s, None if x is None else mk('agg', '()', 0, add(it.a[2], sub(n, 1)), x), i3))
        return out
    if k == 'chain':
        out = []
        for r in peel_back(e, st, it.a[2], lambda i: i):
            if isinstance(r, Out):
                out.append(r)
                continue
            s, x, j2 = r
            if x is not None:
                out.append((s, x, wrap(mk('it', 'chain', it.a[1], j2))))
                continue
            for r2 in peel_back(e, s, it.a[1], lambda i: i):
                out.append(r2 if isinstance(r2, Out) else (r2[0], r2[1], wrap(mk('it', 'chain', r2[2], j2))))
        return out
    raise Stop('reverse of ' + k)


def tmp_ref(e, st, v):
    if isT(v) and v.op == 'ref' and False:
        return v
    e.nframe += 1
    oid = ('C', e.nframe, 0)
    st.mem[oid] = v
    return mk('ref', oid, ())


@model('std::iter::Iterator::next', 'std::iter::DoubleEndedIterator::next_back')
def m_next(e, st, c):
    p = c.args[0]
    it = e.load(st, p)
    if isT(it, 'agg') or isT(it) and it.op != 'it':
        t = e.types[c.atys[0]]['e']
        if e.types[t].get('next'):
            return None
        it = into_it(e, st, it, t)
    back = c.key.endswith('next_back')
    out = []
    work = [(st, it)]
    n = 0
    while work:
        s, i = work.pop()
        for r in (peel_back(e, s, i, lambda x: x) if back else peel(e, s, i)):
            if isinstance(r, Out):
                out.append(r)
                continue
            s2, x, i2 = r
            if x is SKIP:
                n += 1
                if n > 600:
                    raise Stop('filtered iterator in a loop over an unknown number of elements')
                if not bounded(e, s2, i2):
                    # one step of the enclosing loop: report the skipped element as going round
                    if back:
                        raise Stop('filtered symbolic iterator in a for loop')
                    s2 = s2.copy()
                    e.store(s2, p, i2)
                    out.append(Out('again', None, s2))
                    continue
                work.append((s2, i2))
                continue
            s2 = s2.copy()
            e.store(s2, p, unwrap_it(e, it, i2))
            out.append(Out('ret', NONE if x is None else SOME(x), s2))
    return out


def unwrap_it(e, old, new):
    return new


def bounded(e, st, it):
    k = it.a[0]
    if k in ('filter', 'filter_map', 'map', 'enum', 'deref', 'rev', 'inspect', 'take_while', 'skip', 'flat'):
        return bounded(e, st, it.a[1])
    if k in ('ref', 'own'):
        lo, hi = st.bounds(sub(it.a[3], it.a[2]))
        return hi < 4096
    if k == 'range':
        lo, hi = st.bounds(sub(it.a[2], it.a[1]))
        return hi < 4096
    if k == 'take':
        lo, hi = st.bounds(it.a[2])
        return hi < 4096 or bounded(e, st, it.a[1])
    if k in ('zip',):
        return bounded(e, st, it.a[1]) or bounded(e, st, it.a[2])
    if k == 'chain':
        return bounded(e, st, it.a[1]) and bounded(e, st, it.a[2])
    return k in ('once', 'optref', 'chunks')


PUSH = ('map', 'filter', 'filter_map', 'inspect', 'deref')


def unchain(it):
    """iterators one after the other that give the elements of this one"""
    k = it.a[0]
    if k == 'chain':
        return unchain(it.a[1]) + unchain(it.a[2])
    if k == 'rev':
        return [mk('it', 'rev', i) for i in reversed(unchain(it.a[1]))]
    if k in PUSH:
        return [mk('it', k, i, *it.a[2:]) for i in unchain(it.a[1])]
    return [it]


def unflat(it):
    """(iterator of the outer elements, function, adapters on the elements) of a flattened iterator not yet started"""
    k = it.a[0]
    if k == 'flat' and it.a[3] == 0:
        return it.a[1], it.a[2], lambda i: i
    if k in PUSH:
        r = unflat(it.a[1])
        if r is not None:
            return r[0], r[1], lambda i: mk('it', k, r[2](i), *it.a[2:])
    return None


def drive(e, st, it, acc0, body, done):
    """native loop. body(state, element, acc) -> list of (state, 'go'|'exit', value) or Out.
    done(state, acc) -> outs.  Returns outs."""
    ps = unchain(it)
    if len(ps) > 1:
        def more(k):
            return lambda s, acc: drive(e, s, ps[k], acc, body, more(k + 1) if k + 1 < len(ps) else done)
        return drive(e, st, ps[0], acc0, body, more(1))
    fl = unflat(it)
    if fl is not None:
        outer, f, rest = fl

        def inner(s, x, acc):
            out = []

            def b2(s, y, a):
                r = []
                for b in body(s, y, a):
                    r.append(b if isinstance(b, Out) or b[1] == 'go' else (b[0], 'exit', mk('agg', 'kc::ctl', 1, b[2])))
                return r
            for o in (R(s, x) if isT(f, 'flat_of') else e.call_value(f, [x], s)):
                if o.k != 'ret':
                    out.append(o)
                    continue
                i2 = rest(into_it(e, o.st, o.v, e.inner_ty[f]))
                for o2 in drive(e, o.st, i2, acc, b2, lambda s, a: R(s, mk('agg', 'kc::ctl', 0, a))):
                    if o2.k != 'ret':
                        out.append(o2)
                    else:
                        out.append((o2.st, 'exit' if o2.v.a[1] else 'go', o2.v.a[2]))
            return out
        return drive(e, st, outer, acc0, inner, done)
    st = st.copy()
    e.nframe += 1
    oi, oa = ('N', e.nframe, 0), ('N', e.nframe, 1)
    st.mem[oi] = it
    st.mem[oa] = acc0

    def step(s):
        outs = []
        for r in peel(e, s, s.mem[oi]):
            if isinstance(r, Out):
                outs.append(r)
                continue
            s2, x, i2 = r
            s2 = s2.copy()
            s2.mem[oi] = i2
            if x is None:
                outs.append(Out('goto', 'end', s2))
            elif x is SKIP:
                outs.append(Out('back', None, s2))
            else:
                for b in body(s2, x, s2.mem[oa]):
                    if isinstance(b, Out):
                        outs.append(b)
                        continue
                    s3, k, v = b
                    if k == 'go':
                        s3 = s3.copy()
                        s3.mem[oa] = v
                        outs.append(Out('back', None, s3))
                    else:
                        outs.append(Out('goto', ('exit', v), s3))
        return outs
    res = []
    for o in e.loop(st, step, None):
        if o.k == 'goto':
            acc = o.st.mem.get(oa)
            o.st.mem.pop(oa, None)
            i_ = o.st.mem.pop(oi, None)
            if o.v == 'end':
                res.extend(done(o.st, acc))
            else:
                res.append(Out('ret', o.v[1], o.st))
        else:
            res.append(o)
    return res


def it_any(e, st, it, pred):
    def body(s, x, acc):
        out = []
        for o in (pred(e, s, [x]) if callable(pred) else e.call_value(pred, [x], s)):
            if o.k != 'ret':
                out.append(o)
                continue
            for s2, b in e.decide(o.st, o.v):
                out.append((s2, 'exit', 1) if b else (s2, 'go', acc))
        return out
    return drive(e, st, it, UNIT, body, lambda s, a: R(s, 0))


def iter_self(e, st, c):
    """the iterator an adapter consumes; by &mut it is advanced to its end only approximately"""
    v = c.args[0]
    t = c.atys[0] if c.atys else None
    if isT(v, 'it'):
        return v
    if t is not None and e.types[t]['k'] == 'ref':
        x = e.load(st, v)
        if isT(x, 'it'):
            return mk('it', 'byref', v)
        if e.types[e.types[t]['e']].get('next'):
            return mk('it', 'objref', v, t)
        if isT(x, 'agg'):
            return into_it(e, st, x, e.types[t]['e'])
    return into_it(e, st, v, t)


@model('std::iter::Iterator::any')
def m_any(e, st, c):
    return it_any(e, st, iter_self(e, st, c), c.args[1])


@model('std::iter::Iterator::all')
def m_all(e, st, c):
    f = c.args[1]

    def body(s, x, acc):
        out = []
        for o in e.call_value(f, [x], s):
            if o.k != 'ret':
                out.append(o)
                continue
            for s2, b in e.decide(o.st, o.v):
                out.append((s2, 'go', acc) if b else (s2, 'exit', 0))
        return out
    return drive(e, st, iter_self(e, st, c), UNIT, body, lambda s, a: R(s, 1))


@model('std::iter::Iterator::position')
def m_position(e, st, c):
    f = c.args[1]

    def body(s, x, acc):
        out = []
        i, y = x.a[2], x.a[3]
        for o in e.call_value(f, [y], s):
            if o.k != 'ret':
                out.append(o)
                continue
            for s2, b in e.decide(o.st, o.v):
                out.append((s2, 'exit', SOME(i)) if b else (s2, 'go', acc))
        return out
    return drive(e, st, mk('it', 'enum', iter_self(e, st, c), 0), UNIT, body, lambda s, a: R(s, NONE))


@model('std::iter::Iterator::find', 'std::iter::Iterator::find_map')
def m_find(e, st, c):
    f = c.args[1]
    fm = c.key.endswith('map')

    def body(s, x, acc):
        out = []
        s = s.copy()
        arg = x if fm else tmp_ref(e, s, x)
        for o in e.call_value(f, [arg], s):
            if o.k != 'ret':
                out.append(o)
                continue
            if fm:
                for s2, vi in e.split_variant(o.st, o.v):
                    out.append((s2, 'exit', o.v) if vi else (s2, 'go', acc))
                continue
            for s2, b in e.decide(o.st, o.v):
                out.append((s2, 'exit', SOME(x)) if b else (s2, 'go', acc))
        return out
    return drive(e, st, iter_self(e, st, c), UNIT, body, lambda s, a: R(s, NONE))


@model('std::iter::Iterator::fold', 'std::iter::Iterator::for_each', 'std::iter::Iterator::try_fold', 'std::iter::Iterator::try_for_each')
def m_fold(e, st, c):
    k = c.key.split('::')[-1]
    t0 = e.types[c.atys[0]] if c.atys else {'k': '?'}
    if t0['k'] == 'ref' and e.types[t0['e']].get('next') and not isT(e.load(st, c.args[0]), 'it') and 'body' in c.f:
        return None
    f = c.args[-1]
    if k.startswith('try'):
        rt = e.types[c.dty]
        if rt.get('path') not in (RES, OPT, CFLOW):
            raise Stop('try_fold to ' + rt['s'])
        isres = rt['path'] != OPT

    def body(s, x, acc):
        out = []
        for o in e.call_value(f, ([acc, x] if 'fold' in k else [x]), s):
            if o.k != 'ret':
                out.append(o)
                continue
            if k.startswith('try'):
                for s2, vi in e.split_variant(o.st, o.v):
                    good = (vi == 0) if isres else (vi == 1)
                    if good:
                        out.append((s2, 'go', e.rd1(s2, o.v, ('f', vi, 0, None)) if 'fold' in k else UNIT))
                    else:
                        out.append((s2, 'exit', mk('agg', rt['path'], 1, e.rd1(s2, o.v, ('f', 1, 0, None))) if isres else NONE))
            else:
                out.append((o.st, 'go', o.v if 'fold' in k else UNIT))
        return out

    def done(s, acc):
        if k.startswith('try'):
            return R(s, mk('agg', rt['path'], 0, acc) if isres else SOME(acc))
        return R(s, acc)
    return drive(e, st, iter_self(e, st, c), c.args[1] if 'fold' in k else UNIT, body, done)


@model('std::iter::Iterator::count')
def m_count(e, st, c):
    it = iter_self(e, st, c)
    n = it_len(e, st, it)
    if n is not None and it.a[0] in ('ref', 'own', 'range', 'deref', 'enum', 'rev'):
        return R(st, n)
    return drive(e, st, it, 0, lambda s, x, a: [(s, 'go', add(a, 1))], lambda s, a: R(s, a))


@model('std::iter::Iterator::sum')
def m_sum(e, st, c):
    if e.types[c.dty]['k'] != 'int':
        return None
    return drive(e, st, iter_self(e, st, c), 0, lambda s, x, a: [(s, 'go', add(a, x))], lambda s, a: R(s, a))


@model('std::iter::Iterator::max', 'std::iter::Iterator::min')
def m_max(e, st, c):
    big = c.key.endswith('max')
    it = e.types[c.dty]['args'][0]
    isref = e.types[it]['k'] == 'ref'
    ti = e.types[it]['e'] if isref else it
    t = e.types[ti]
    if t['k'] != 'int' or t['sg']:
        return None
    lo, hi = 0, (1 << t['w']) - 1

    def body(s, x, acc):
        out = []
        v = e.rb(s, e.load(s, x)) if isref else x
        a, any_ = acc.a[2], acc.a[3]
        for s2, b in e.decide(s, e.compare(s, 'Le', v, a, ti)):
            out.append((s2, 'go', mk('agg', '()', 0, a if bool(b) == big else v, 1)))
        return out

    def done(s, acc):
        out = []
        for s2, b in e.decide(s, acc.a[3]):
            s2 = s2.copy()
            out.append(Out('ret', SOME(tmp_ref(e, s2, acc.a[2]) if isref else acc.a[2]) if b else NONE, s2))
        return out
    return drive(e, st, iter_self(e, st, c), mk('agg', '()', 0, lo if big else hi, 0), body, done)


@model('std::iter::Iterator::last')
def m_last(e, st, c):
    return drive(e, st, iter_self(e, st, c), NONE, lambda s, x, a: [(s, 'go', SOME(x))], lambda s, a: R(s, a))


@model('std::iter::Iterator::nth')
def m_nth(e, st, c):
    it = e.load(st, c.args[0])
    n = st.point(c.args[1])
    if not isinstance(n, int):
        return None
    out = []
    work = [(st, it, 0)]
    while work:
        s, i, k = work.pop()
        for r in peel_full(e, s, i):
            if isinstance(r, Out):
                out.append(r)
                continue
            s2, x, i2 = r
            if x is None or k == n:
                s2 = s2.copy()
                e.store(s2, c.args[0], i2)
                out.append(Out('ret', NONE if x is None else SOME(x), s2))
            else:
                work.append((s2, i2, k + 1))
    return out


@model('std::iter::Iterator::collect', 'std::iter::FromIterator::from_iter')
def m_collect(e, st, c):
    it = iter_self(e, st, c)
    return collect(e, st, it, c.dty)


def collect(e, st, it, t):
    ty = e.types[t]
    p = ty.get('path')
    if p == 'alloc::vec::Vec':
        a = it.a
        if a[0] == 'take' and isT(a[1], 'it') and a[1].a[0] == 'repeat':
            return R(st, rep(a[1].a[1], a[2]))
        if a[0] == 'own' and not a[4]:
            return R(st, e.slice(st, a[1], a[2], a[3]))
        return drive(e, st, it, EMPTY, lambda s, x, acc: [(s, 'go', cat(acc, lits([x])))], lambda s, acc: R(s, acc))
    if p == 'alloc::boxed::Box':
        return drive(e, st, it, EMPTY, lambda s, x, acc: [(s, 'go', cat(acc, lits([x])))], lambda s, acc: R(s, acc))
    if p == 'alloc::string::String':
        def body(s, x, acc):
            v = char_seq(x) if isinstance(x, int) or x in RANGE else val(e, s, x)
            return [(s, 'go', cat(acc, v))]
        return drive(e, st, it, EMPTY, body, lambda s, acc: R(s, acc))
    if p in MAPS:
        keyed(e, t)

        def body(s, x, acc):
            k, v = (x.a[2], x.a[3]) if isT(x, 'agg') else (mk('fld', x, 0, 0), mk('fld', x, 0, 1))
            return [(s, 'go', ins(e, s, acc, e.rb(s, k), v))]
        return drive(e, st, it, mk('map'), body, lambda s, acc: R(s, acc))
    if p in SETS:
        keyed(e, t)
        if it.a[0] in ('own', 'ref', 'deref', 'map', 'range', 'rev', 'mapit', 'enum'):
            # the members are exactly the elements
            outs = drive(e, st, it, EMPTY, lambda s, x, acc: [(s, 'go', cat(acc, lits([e.rb(s, x)])))], lambda s, acc: R(s, acc))
            return [Out('ret', mk('setof', o.v), o.st) if o.k == 'ret' else o for o in outs]
        raise Stop('collect into ' + ty['s'])
    if p in (RES, OPT):
        inner = ty['args'][0]
        isres = p == RES
        ip = e.types[inner].get('path')
        if ip == 'alloc::vec::Vec':
            a0 = EMPTY
            addx = lambda s, acc, x: cat(acc, lits([x]))
        elif ip == 'std::collections::hash::map::HashMap':
            a0 = mk('map')
            addx = lambda s, acc, x: ins(e, s, acc, e.rb(s, x.a[2] if isT(x, 'agg') else mk('fld', x, 0, 0)), x.a[3] if isT(x, 'agg') else mk('fld', x, 0, 1))
        elif ip == 'alloc::string::String':
            a0 = EMPTY
            addx = lambda s, acc, x: cat(acc, val(e, s, x))
        elif e.types[inner]['k'] == 'tuple' and not e.types[inner]['e']:
            a0 = UNIT
            addx = lambda s, acc, x: UNIT
        else:
            raise Stop('collect into ' + ty['s'])

        def body(s, x, acc):
            out = []
            for s2, vi in e.split_variant(s, x):
                if (vi == 0) == isres:
                    out.append((s2, 'go', addx(s2, acc, e.note_ty(e.rd1(s2, x, ('f', vi, 0, None)), None))))
                else:
                    out.append((s2, 'exit', ERR(e.rd1(s2, x, ('f', 1, 0, None))) if isres else NONE))
            return out
        return drive(e, st, it, a0, body, lambda s, acc: R(s, OK(acc) if isres else SOME(acc)))
    if ty['k'] == 'tuple' and not ty['e']:
        return drive(e, st, it, UNIT, lambda s, x, acc: [(s, 'go', acc)], lambda s, acc: R(s, acc))
    raise Stop('collect into ' + ty['s'])


@model('std::iter::Extend::extend')
def m_extend(e, st, c):
    it = itarg(e, st, c, 1)
    p = c.args[0]
    t = selfty(e, c)
    path = e.types[t].get('path')
    v0 = content(e, st, p)
    if path == 'std::collections::hash::map::HashMap':
        def body(s, x, acc):
            k, v = (x.a[2], x.a[3]) if isT(x, 'agg') else (mk('fld', x, 0, 0), mk('fld', x, 0, 1))
            return [(s, 'go', ins(e, s, acc, e.rb(s, k), v))]
    elif path == 'alloc::string::String':
        def body(s, x, acc):
            return [(s, 'go', cat(acc, char_seq(x) if isinstance(x, int) or x in RANGE else val(e, s, x)))]
    else:
        et = e.types[t]['args'][0]
        isref = False
        # Vec<T: Copy>::extend(&[T]) takes references
        def body(s, x, acc):
            if isT(x, 'ref') and e.types[et]['k'] != 'ref':
                x = e.load(s, x)
            return [(s, 'go', cat(acc, lits([x])))]
        if it.a[0] == 'own' and not it.a[4]:
            return R(upd(e, st, p, lambda v: cat(v, e.slice(st, it.a[1], it.a[2], it.a[3]))))
        if it.a[0] in ('ref',) and e.types[et]['k'] != 'ref':
            return R(upd(e, st, p, lambda v: cat(v, e.slice(st, content(e, st, it.a[1]), it.a[2], it.a[3]))))
        if it.a[0] == 'take' and isT(it.a[1], 'it') and it.a[1].a[0] == 'repeat':
            return R(upd(e, st, p, lambda v: cat(v, rep(it.a[1].a[1], it.a[2]))))

    def done(s, acc):
        s = s.copy()
        o, path = deref_seq(e, s, p)
        e.write(s, o, path, acc)
        return R(s)
    return drive(e, st, it, v0, body, done)


@model('std::iter::Extend::extend_one', 'std::iter::Extend::extend_one_unchecked')
def m_extendone(e, st, c):
    if e.types[selfty(e, c)].get('path') != 'alloc::vec::Vec':
        return None
    return R(upd(e, st, c.args[0], lambda v: cat(v, lits([c.args[1]]))))


@model('std::iter::Extend::extend_reserve')
def m_extendres(e, st, c):
    return R(st)


@model('std::vec::Vec::retain')
def m_retain(e, st, c):
    p, f = c.args[0], c.args[1]
    v = content(e, st, p)

    def body(s, x, acc):
        out = []
        s = s.copy()
        for o in e.call_value(f, [tmp_ref(e, s, x)], s):
            if o.k != 'ret':
                out.append(o)
                continue
            for s2, b in e.decide(o.st, o.v):
                out.append((s2, 'go', cat(acc, lits([x])) if b else acc))
        return out
    return drive(e, st, mk('it', 'own', v, 0, slen(v), 0), EMPTY, body, lambda s, acc: R(upd(e, s, p, lambda _: acc)))


@model('std::vec::Vec::drain')
def m_drain(e, st, c):
    p = c.args[0]
    v = content(e, st, p)
    r = range_of(e, st, c.args[1], slen(v))
    if r is None:
        return None
    lo, hi = r[:2]

    def go(s):
        part = e.slice(s, v, lo, hi)
        rest = cat(e.slice(s, v, 0, lo), e.slice(s, v, hi, slen(v)))
        return R(upd(e, s, p, lambda _: rest), mk('it', 'own', part, 0, slen(part), 0))
    return need(e, st, le(lo, hi), 'drain', lambda s: need(e, s, le(hi, slen(v)), 'drain', go))


# ---------------------------------------------------------------- HashMap
# map | ins(M, k, v) | mins(M, n, ix, cases) | opaque M
HM = 'std::collections::HashMap::'
HS = 'std::collections::HashSet::'
BM = 'std::collections::BTreeMap::'
BS = 'std::collections::BTreeSet::'
HMAP = 'std::collections::hash::map::HashMap'
MAPS = (HMAP, 'alloc::collections::btree::map::BTreeMap')
SETS = ('std::collections::hash::set::HashSet', 'alloc::collections::btree::set::BTreeSet')


def maps(*names):
    return model(*[x + n for x in (HM, BM) for n in names])


def sets(*names):
    return model(*[x + n for x in (HS, BS) for n in names])


def setcall(e, st, c, f):
    """run a map model for a set"""
    outs = f(e, st, c)
    return outs


def keyed(e, t):
    """keys are compared and hashed by their contents"""
    while t is not None and e.types[t]['k'] == 'ref':
        t = e.types[t]['e']
    if t is not None and e.types[t].get('path') in MAPS + SETS:
        for tr in ('std::cmp::PartialEq', 'std::hash::Hash', 'std::cmp::Ord', 'std::cmp::PartialOrd'):
            structural(e, tr, e.types[t]['args'][0])


@model(*[x + n for x in (HM, HS, BM, BS) for n in ('new', 'with_capacity')])
def m_mapnew(e, st, c):
    return R(st, mk('map'))


@model(HM + 'drain')
def m_mapdrain(e, st, c):
    old = e.rb(st, e.load(st, c.args[0]))
    it = map_iter(e, st, old, 'items', 0)
    return R(upd(e, st, c.args[0], lambda _: mk('map')), it)


def ins(e, st, M, k, v):
    return mk('ins', M, k, e.rb(st, v) if isT(v) and v.op == 'ref' else v)


@sets('insert')
def m_setins(e, st, c):
    p, k = c.args
    keyed(e, c.atys[0] if c.atys else None)
    o, path = deref_seq(e, st, p)
    M = e.read(st, o, path)
    k = e.rb(st, k)
    out = []
    for s, b, v in map_has(e, st, M, k):
        if not b:
            s = s.copy()
            e.write(s, o, path, ins(e, s, M, k, UNIT))
        out.append(Out('ret', 0 if b else 1, s))
    return out


@sets('contains')
def m_setck(e, st, c):
    return m_mapck(e, st, c)


@maps('insert')
def m_mapins(e, st, c):
    keyed(e, c.atys[0] if c.atys else None)
    p, k, v = c.args
    st = st.copy()
    o, path = deref_seq(e, st, p)
    M = e.read(st, o, path)
    k = e.rb(st, k)
    e.write(st, o, path, ins(e, st, M, k, v))
    h = mk('oldval', M, k)
    if c.dty is not None:
        e.note_ty(h, c.dty)
    return R(st, h)


def map_has(e, st, M, k):
    """boolean term / outs list of (state, bool, value)"""
    out = []
    if M.op == 'setof':
        def pred(e_, s, xs):
            return R(s, deep_eq(e, s, e.rb(s, xs[0]), k))
        S = M.a[0]
        for o in it_any(e, st, mk('it', 'own', S, 0, slen(S), 0), pred):
            for s, b in e.decide(o.st, o.v):
                out.append((s, b, UNIT if b else None))
        return out
    if M.op == 'map':
        return [(st, 0, None)]
    if M.op == 'ins':
        for s, b in e.decide(st, deep_eq(e, st, M.a[1], k)):
            if b:
                out.append((s, 1, M.a[2]))
            else:
                out.extend(map_has(e, s, M.a[0], k))
        return out
    t = mk('has', M, k)
    RANGE[t] = (0, 1)
    for s, b in e.decide(st, t):
        out.append((s, b, mk('mget', M, k) if b else None))
    return out


def mapval_ty(e, p_ty):
    t = p_ty
    while t is not None and e.types[t]['k'] == 'ref':
        t = e.types[t]['e']
    if t is not None and e.types[t].get('path') in MAPS:
        return e.types[t]['args'][1]
    return None


def map_get(e, st, p, kp, yes, no, vt=None):
    o, path = deref_seq(e, st, p)
    M = e.read(st, o, path)
    k = e.rb(st, kp)
    out = []
    for s, b, v in map_has(e, st, M, k):
        if b:
            if vt is not None:
                e.note_ty(v, vt)
            out.extend(yes(s, v if isT(v) and v.op == 'ref' else mk('ref', ('c', v), ())))
        else:
            out.extend(no(s))
    return out


@maps('contains_key')
def m_mapck(e, st, c):
    keyed(e, c.atys[0] if c.atys else None)
    return map_get(e, st, c.args[0], c.args[1], lambda s, r: R(s, 1), lambda s: R(s, 0))


@maps('get')
def m_mapget(e, st, c):
    keyed(e, c.atys[0] if c.atys else None)
    return map_get(e, st, c.args[0], c.args[1], lambda s, r: R(s, SOME(r)), lambda s: R(s, NONE), mapval_ty(e, c.atys[0] if c.atys else None))


@model(*[x + 'len' for x in (HM, HS, BM, BS)])
def m_maplen(e, st, c):
    M = content(e, st, c.args[0])
    if M.op == 'map':
        return R(st, 0)
    t = mk('maplen', M)
    RANGE.setdefault(t, (0, LENMAX))
    return R(st, t)


@model(*[x + 'is_empty' for x in (HM, HS, BM, BS)])
def m_mapempty(e, st, c):
    M = content(e, st, c.args[0])
    if M.op == 'map':
        return R(st, 1)
    t = mk('maplen', M)
    RANGE.setdefault(t, (0, LENMAX))
    return R(st, eq0(t))


@maps('remove')
def m_maprem(e, st, c):
    st = st.copy()
    o, path = deref_seq(e, st, c.args[0])
    M = e.read(st, o, path)
    k = e.rb(st, c.args[1])
    out = []
    for s, b, v in map_has(e, st, M, k):
        s = s.copy()
        if b:
            e.write(s, o, path, mk('mrem', M, k))
        out.append(Out('ret', SOME(v) if b else NONE, s))
    return out


HE = 'std::collections::hash_map::'
ENTRY = 'std::collections::hash::map::Entry'


@model(HM + 'entry')
def m_entry(e, st, c):
    """Occupied(entry) or Vacant(entry)"""
    o, path = deref_seq(e, st, c.args[0])
    M = e.read(st, o, path)
    k = e.rb(st, c.args[1])
    t = e.types[c.dty]
    return [Out('ret', mk('agg', t['path'], 0 if b else 1, mk('mentry', c.args[0], k)), s) for s, b, v in map_has(e, st, M, k)]


def entry_of(e, st, v):
    """(is occupied, map place, key)"""
    if isT(v, 'ref'):
        v = e.load(st, v)
    if isT(v, 'agg') and isT(v.a[2], 'mentry'):
        return v.a[1] == 0, v.a[2].a[0], v.a[2].a[1]
    if isT(v, 'mentry'):
        return None, v.a[0], v.a[1]
    raise Stop('map entry unknown')


def entry_put(e, st, p, k, v):
    st = st.copy()
    o, path = deref_seq(e, st, p)
    M = e.read(st, o, path)
    e.write(st, o, path, ins(e, st, M, k, v))
    return st


@model(HE + 'Entry::or_insert', HE + 'Entry::or_insert_with', HE + 'Entry::or_default')
def m_orins(e, st, c):
    occ, p, k = entry_of(e, st, c.args[0])
    if occ is None or c.key.endswith('default'):
        return None
    if occ:
        return R(st, mk('mvalref', p, k))
    outs = e.call_value(c.args[1], [], st) if c.key.endswith('with') else R(st, c.args[1])
    return [Out('ret', mk('mvalref', p, k), entry_put(e, o.st, p, k, o.v)) if o.k == 'ret' else o for o in outs]


@model(HE + 'VacantEntry::insert')
def m_vacins(e, st, c):
    occ, p, k = entry_of(e, st, c.args[0])
    return R(entry_put(e, st, p, k, c.args[1]), mk('mvalref', p, k))


@model(HE + 'OccupiedEntry::insert')
def m_occins(e, st, c):
    occ, p, k = entry_of(e, st, c.args[0])
    o, path = deref_seq(e, st, p)
    M = e.read(st, o, path)
    old = [v for s, b, v in map_has(e, st, M, k) if b]
    return R(entry_put(e, st, p, k, c.args[1]), old[0])


@model(HE + 'OccupiedEntry::get')
def m_occget(e, st, c):
    occ, p, k = entry_of(e, st, c.args[0])
    return map_get(e, st, p, k, lambda s, r: R(s, r), lambda s: [])


def map_iter(e, st, M, what, asref):
    """iteration in the map's own order: keys/values/items of M"""
    ks = mk('mkeys', M)
    n = mk('maplen', M)
    RANGE.setdefault(n, (0, LENMAX))
    if M.op == 'map':
        n = 0
    l = mk('len', ks)
    return mk('it', 'mapit', M, what, 0, n, asref)


_peel0 = peel


def peel(e, st, it):
    if it.a[0] == 'mapit':
        M, what, lo, hi, asref = it.a[1:6]
        out = []
        for s, b in e.decide(st, lt(lo, hi)):
            if not b:
                out.append((s, None, it))
                continue
            k = mk('mkey', M, lo)
            v = mk('mval', M, lo)
            kr, vr = (mk('ref', ('c', k), ()), mk('ref', ('c', v), ())) if asref else (k, v)
            x = {'keys': kr, 'values': vr, 'items': mk('agg', '()', 0, kr, vr)}[what]
            out.append((s, x, mk('it', 'mapit', M, what, add(lo, 1), hi, asref)))
        return out
    return _peel0(e, st, it)


@model(HM + 'iter', HM + 'keys', HM + 'values', HM + 'into_keys', HM + 'into_values', HM + 'iter_mut')
def m_mapiter(e, st, c):
    k = c.key.split('::')[-1]
    own = k.startswith('into')
    M = c.args[0] if own else content(e, st, c.args[0])
    M = e.rb(st, M)
    # types of keys and values for later projections
    return R(st, map_iter(e, st, M, {'iter': 'items', 'iter_mut': 'items'}.get(k, k.replace('into_', '')), 0 if own else 1))


# ---------------------------------------------------------------- interior mutability
CELL = 'std::cell::Cell::'


def cell_of(v):
    return mk('agg', 'core::cell::Cell', 0, mk('agg', 'core::cell::UnsafeCell', 0, v))


def cell_at(e, st, p, t):
    o, path = e.target(p)
    ct = t
    while e.types[ct]['k'] == 'ref':
        ct = e.types[ct]['e']
    u = e.types[ct]['v'][0]['f'][0][1]
    return o, tuple(path) + (('f', 0, 0, u), ('f', 0, 0, e.types[u]['v'][0]['f'][0][1]))


@model(CELL + 'new')
def m_cellnew(e, st, c):
    return R(st, cell_of(c.args[0]))


@model(CELL + 'get', CELL + 'set', CELL + 'replace', CELL + 'take')
def m_cell(e, st, c):
    k = c.key.split('::')[-1]
    o, p = cell_at(e, st, c.args[0], c.atys[0])
    old = e.read(st, o, p)
    if k == 'get':
        return R(st, old)
    new = c.args[1] if k != 'take' else default_of(e, c.dty)
    return R(_w(e, st, o, p, new), UNIT if k == 'set' else old)


@model('std::cell::RefCell::borrow', 'std::cell::RefCell::borrow_mut', 'std::cell::RefCell::replace', 'std::sync::RwLock::write',
       'std::sync::RwLock::read', 'std::cell::UnsafeCell::get', 'std::cell::Cell::swap', 'std::cell::Cell::update')
def m_refcell(e, st, c):
    raise Stop(c.key)


# ---------------------------------------------------------------- Mutex
@model('std::sync::Mutex::lock')
def m_lock(e, st, c):
    return R(st, OK(c.args[0]))


# ---------------------------------------------------------------- panics / intrinsics
@model('std::intrinsics::cold_path', 'core::intrinsics::cold_path', 'std::intrinsics::assume')
def m_cold(e, st, c):
    return R(st)


@model('std::intrinsics::discriminant_value', 'core::intrinsics::discriminant_value')
def m_dv(e, st, c):
    t = e.types[c.atys[0]]['e']
    return R(st, e.disc(st, e.load(st, c.args[0]), t))


@model('std::mem::discriminant')
def m_discr(e, st, c):
    t = e.types[c.atys[0]]['e']
    return R(st, e.disc(st, e.load(st, c.args[0]), t))


@model('std::intrinsics::integer_max', 'std::intrinsics::integer_min')
def m_imax(e, st, c):
    lo, hi = e.int_range(c.dty)
    return R(st, hi if c.key.endswith('max') else lo)


def wrapping(op):
    def f(e, st, c):
        return R(st, e.arith(st, op, c.args[0], c.args[1], c.dty)[0])
    return f


def checked(op):
    def f(e, st, c):
        t = e.types[c.dty]['args'][0]
        if op in ('Div', 'Rem'):
            return ite(e, st, eq0(c.args[1]), lambda s: R(s, NONE), lambda s: R(s, SOME(e.arith(s, op, c.args[0], c.args[1], t)[0])))
        v, ov = e.arith(st, op, c.args[0], c.args[1], t, True)
        return ite(e, st, ov, lambda s: R(s, NONE), lambda s: R(s, SOME(v)))
    return f


def overflowing(op):
    def f(e, st, c):
        t = e.types[c.dty]['e'][0]
        v, ov = e.arith(st, op, c.args[0], c.args[1], t, True)
        out = []
        for s, b in e.decide(st, ov):
            w = e.arith(s, op, c.args[0], c.args[1], t)[0] if b else v
            out.append(Out('ret', mk('agg', '()', 0, w, b), s))
        return out
    return f


def saturating(op):
    def f(e, st, c):
        lo, hi = e.int_range(c.dty)
        v, ov = e.arith(st, op, c.args[0], c.args[1], c.dty, True)
        if ov == 0:
            return R(st, v)
        r = add(c.args[0], c.args[1]) if op == 'Add' else sub(c.args[0], c.args[1])
        return ite(e, st, lt(r, lo), lambda s: R(s, lo), lambda s: ite(e, s, lt(hi, r), lambda s2: R(s2, hi), lambda s2: R(s2, r)))
    return f


for _n, _o in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mul')):
    MODELS['std::intrinsics::wrapping_' + _n] = wrapping(_o)
    MODELS['std::intrinsics::saturating_' + _n] = saturating(_o)
    MODELS['std::intrinsics::%s_with_overflow' % _n] = overflowing(_o)
    MODELS['std::intrinsics::unchecked_' + _n] = wrapping(_o)
    for _t in ('u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize', 'u128'):
        MODELS['%s::wrapping_%s' % (_t, _n)] = wrapping(_o)
        MODELS['%s::checked_%s' % (_t, _n)] = checked(_o)
        MODELS['%s::overflowing_%s' % (_t, _n)] = overflowing(_o)
        MODELS['%s::saturating_%s' % (_t, _n)] = saturating(_o)
for _t in ('u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize', 'u128'):
    for _n, _o in (('div', 'Div'), ('rem', 'Rem')):
        MODELS['%s::checked_%s' % (_t, _n)] = checked(_o)


def _tobytes(order):
    def f(e, st, c):
        return R(st, e.int_to_bytes(st, c.args[0], e.types[c.dty]['n'], order))
    return f


def _frombytes(order):
    def f(e, st, c):
        return R(st, e.int_from_bytes(st, c.args[0], order))
    return f


for _t in ('u8', 'u16', 'u32', 'u64', 'usize', 'u128'):
    for _o, _s in (('big', 'be'), ('little', 'le'), ('little', 'ne')):
        MODELS['%s::to_%s_bytes' % (_t, _s)] = _tobytes(_o)
        MODELS['%s::from_%s_bytes' % (_t, _s)] = _frombytes(_o)

    def _swap(e, st, c):
        w = e.width(c.dty)
        b = to_bits(c.args[0], w, st)
        return R(st, from_bits([b[w - 8 - (i // 8) * 8 + i % 8] for i in range(w)], st))
    for _n in ('swap_bytes', 'to_be', 'from_be'):
        MODELS['%s::%s' % (_t, _n)] = _swap

    def _same(e, st, c):
        return R(st, c.args[0])
    for _n in ('to_le', 'from_le'):
        MODELS['%s::%s' % (_t, _n)] = _same


@model('u8::is_ascii', 'u8::is_ascii_digit')
def m_isascii(e, st, c):
    v = e.load(st, c.args[0])
    if c.key.endswith('digit'):
        return R(st, b_and_(le(48, v), le(v, 57)))
    return R(st, le(v, 127))


@model('std::any::Any::type_id')
def m_typeid(e, st, c):
    r = c.args[0]
    d = e.dyn_target(st, r)
    if d is not None:
        return R(st, mk('typeid', e.types[d[1]]['s']))
    return R(st, mk('typeid', e.rb(st, r)))


@model('std::any::TypeId::of')
def m_typeidof(e, st, c):
    return R(st, mk('typeid', e.types[c.f['args'][0]]['s']))


@model('std::panic::catch_unwind')
def m_catch(e, st, c):
    out = []
    f = c.args[0]
    d0 = len(e.stack)
    for o in e.call_value(f, [], st):
        if o.k == 'ret':
            out.append(Out('ret', OK(o.v), o.st))
        elif o.k == 'panic':
            s = o.st.copy()
            s.event('caught', o.v[0])
            out.append(Out('ret', ERR(mk('payload', str(o.v[0]))), s))
        else:
            out.append(o)
    return out


@model('std::panic::set_hook')
def m_hook(e, st, c):
    st = st.copy()
    st.event('set_hook', c.args[0])
    return R(st)


# ---------------------------------------------------------------- formatting
@model('core::fmt::rt::Argument::new_display', 'core::fmt::rt::Argument::new_debug', 'core::fmt::rt::Argument::new_binary',
       'core::fmt::rt::Argument::new_lower_hex', 'core::fmt::rt::Argument::new_upper_hex', 'core::fmt::rt::Argument::new_octal')
def m_fmtarg(e, st, c):
    return R(st, mk('fmtarg', c.key.split('new_')[1], c.args[0], e.types[c.atys[0]]['e']))


@model('std::fmt::Arguments::new')
def m_fmtargs(e, st, c):
    return R(st, mk('fmtargs', c.args[0], c.args[1]))


@model('std::fmt::Arguments::from_str', 'std::fmt::Arguments::new_const')
def m_fmtstr(e, st, c):
    return R(st, mk('fmtargs', c.args[0], 0))


def fmt_pieces(e, st, a):
    """[('lit', bytes) | ('arg', index, flags or None)]"""
    t = val(e, st, a.a[0])
    if a.a[1] == 0:
        return [('str', t)]
    b = bytes(x for s in segs(t) for x in s[1])
    i = 0
    n = 0
    out = []
    while i < len(b):
        k = b[i]
        if k == 0:
            break
        if k < 0x80:
            out.append(('str', lit(b[i + 1:i + 1 + k])))
            i += 1 + k
        elif k == 0x80:
            ln = int.from_bytes(b[i + 1:i + 3], 'little')
            out.append(('str', lit(b[i + 3:i + 3 + ln])))
            i += 3 + ln
        else:
            i += 1
            spec = []
            if k & 1:
                spec.append(('flags', int.from_bytes(b[i:i + 4], 'little')))
                i += 4
            if k & 2:
                spec.append(('width', int.from_bytes(b[i:i + 2], 'little')))
                i += 2
            if k & 4:
                spec.append(('prec', int.from_bytes(b[i:i + 2], 'little')))
                i += 2
            if k & 8:
                n = int.from_bytes(b[i:i + 2], 'little')
                i += 2
            if k & 0x30:
                spec.append(('ind', k & 0x30))
            out.append(('arg', n, tuple(spec)))
            n += 1
    return out


def disp_fn(e, kind, t):
    """workspace implementation of the formatting trait for type t"""
    if e.disp is None:
        e.disp = {}
        for fid, f in e.fns.items():
            tm = f.get('tm') or ''
            if tm.startswith('std::fmt::') and tm.endswith('::fmt') and 'body' in f and f['ws']:
                st_ = e.types[f['sig'][0][0]]['e']
                e.disp[(tm.split('::')[2].lower(), st_)] = fid
    return e.disp.get((kind, t))


def fmt_value(e, st, kind, ref, t, spec):
    """[(state, sequence)] text of one argument"""
    while e.types[t]['k'] == 'ref':
        ref = e.load(st, ref)
        t = e.types[t]['e']
    ty = e.types[t]
    v = e.load(st, ref)
    if kind == 'display' and not spec:
        if ty['k'] == 'str' or ty.get('path') == 'alloc::string::String':
            return [(st, val(e, st, v))]
        if ty.get('path') == 'alloc::boxed::Box' and ty['args']:
            return fmt_value(e, st, kind, ref, ty['args'][0], spec)
        if ty['k'] == 'int':
            v = st.point(v)
            if isinstance(v, int):
                return [(st, lit(str(v)))]
            d = mk('dec', v)
            RANGE.setdefault(mk('len', d), (1, 20))
            return [(st, d)]
        if ty['k'] == 'char':
            return [(st, char_seq(v))]
        fid = disp_fn(e, kind, t)
        if fid:
            return call_fmt(e, st, fid, ref)
    elif kind == 'debug' and not spec:
        fid = disp_fn(e, kind, t)
        if fid:
            return call_fmt(e, st, fid, ref)
    if kind in ('lower_hex', 'upper_hex') and ty['s'] == 'u8' and dict(spec).get('width') == 2 and dict(spec).get('flags', 0) & 0x1800000 == 0x1000000 \
            and set(dict(spec)) == {'flags', 'width'}:
        b = to_bits(e.note_byte(v) if isT(v) else v, 8, st)
        digits = lit('0123456789abcdef' if kind == 'lower_hex' else '0123456789ABCDEF')
        return [(st, lits([e.elem(st, digits, from_bits(b[4:])), e.elem(st, digits, from_bits(b[:4]))]))]
    t_ = mk('fmt', kind, e.rb(st, v), ty['s'], tuple(x for y in spec for x in y))
    RANGE.setdefault(mk('len', t_), (0, 1 << 40))
    return [(st, t_)]


def call_fmt(e, st, fid, ref):
    st = st.copy()
    e.nframe += 1
    oid = ('F', e.nframe, 0)
    st.mem[oid] = EMPTY
    out = []
    f = e.fns[fid]
    tys, dty = f['sig'] if 'sig' in f else ([None, None], None)
    for o in e.call_rec(f, fid, [ref, mk('ref', oid, ())], tys, dty, st):
        if o.k != 'ret':
            e.pending_panics.append(o)
            continue
        if e.variant(o.st, o.v) == 1:
            e.pending_panics.append(P(e, o.st, 'a formatting trait implementation returned an error')[0])
        else:
            out.append((o.st, o.st.mem[oid]))
    return out


def formatting(f):
    """outcomes of f and the panics of the formatting implementations it ran"""
    def h(e, st, c):
        keep, e.pending_panics = e.pending_panics, []
        try:
            r = f(e, st, c)
            return None if r is None else list(r) + e.pending_panics
        finally:
            e.pending_panics = keep
    return h


def fmt_args(e, st, a):
    """[(state, sequence)]"""
    if not isT(a, 'fmtargs'):
        return [(st, mk('fmtopaque', e.rb(st, a)))]
    res = [(st, EMPTY)]
    args = None
    for p in fmt_pieces(e, st, a):
        nxt = []
        for s, acc in res:
            if p[0] == 'str':
                nxt.append((s, cat(acc, p[1])))
            else:
                arr = val(e, s, a.a[1])
                x = e.elem(s, arr, p[1])
                if not isT(x, 'fmtarg'):
                    raise Stop('format argument %r' % (x,))
                for s2, v in fmt_value(e, s, x.a[0], x.a[1], x.a[2], p[2]):
                    nxt.append((s2, cat(acc, v)))
        res = nxt
    return res


@model('std::fmt::format', 'alloc::fmt::format')
@formatting
def m_format(e, st, c):
    return [Out('ret', v, s) for s, v in fmt_args(e, st, c.args[0])]


@model('std::fmt::Formatter::write_fmt', 'std::fmt::Write::write_fmt')
@formatting
def m_writefmt(e, st, c):
    out = []
    for s, v in fmt_args(e, st, c.args[1]):
        out.extend(R(upd(e, s, c.args[0], lambda w: cat(w, v)), OK(UNIT)))
    return out


@model('std::fmt::Formatter::write_str', 'std::fmt::Write::write_str', 'std::fmt::Formatter::pad')
def m_writestr(e, st, c):
    v = content(e, st, c.args[1])
    return R(upd(e, st, c.args[0], lambda w: cat(w, v)), OK(UNIT))


@model('std::fmt::Write::write_char', 'std::fmt::Formatter::write_char')
def m_writechar(e, st, c):
    return R(upd(e, st, c.args[0], lambda w: cat(w, char_seq(c.args[1]))), OK(UNIT))


@model('std::fmt::Formatter::debug_c_like_enum_write_str')
def m_dcl(e, st, c):
    return None


@model('std::fmt::Formatter::debug_tuple_field1_finish', 'std::fmt::Formatter::debug_tuple_field2_finish', 'std::fmt::Formatter::debug_struct_field1_finish',
       'std::fmt::Formatter::debug_struct_field2_finish', 'std::fmt::Formatter::debug_struct_field3_finish', 'std::fmt::Formatter::debug_struct_field5_finish',
       'std::fmt::Formatter::debug_struct_fields_finish', 'std::fmt::Formatter::debug_struct_field4_finish')
def m_dbg(e, st, c):
    t = mk('dbg', c.key.split('::')[-1], *[e.rb(st, a) for a in c.args[1:]])
    return R(upd(e, st, c.args[0], lambda w: cat(w, t)), OK(UNIT))


@model('std::string::ToString::to_string')
@formatting
def m_tostring(e, st, c):
    t = e.types[c.atys[0]]['e']
    return [Out('ret', v, s) for s, v in fmt_value(e, st, 'display', c.args[0], t, ())]


@model('std::fmt::Display::fmt', 'std::fmt::Debug::fmt')
@formatting
def m_dispfmt(e, st, c):
    t = e.types[c.atys[0]]['e']
    out = []
    for s, v in fmt_value(e, st, 'display' if 'Display' in c.key else 'debug', c.args[0], t, ()):
        out.extend(R(upd(e, s, c.args[1], lambda w: cat(w, v)), OK(UNIT)))
    return out


# ---------------------------------------------------------------- C strings
@model('std::ffi::CStr::from_ptr')
def m_cstr(e, st, c):
    p = c.args[0]
    if isinstance(p, int):
        return UB(e, st, 'CStr from null pointer')
    if p.op in ('ref', 'hp'):
        return R(st, p)
    t = mk('isnull', p)
    RANGE[t] = (0, 1)

    def go(s):
        v = mk('cstr', p)
        return R(s, v)
    return ite(e, st, t, lambda s: UB(e, s, 'CStr from null pointer'), go)


@model('std::ffi::CStr::to_str')
def m_cstrstr(e, st, c):
    v = content(e, st, c.args[0])
    t = mk('utf8ok', v)
    RANGE[t] = (0, 1)
    if v.op == 'cstring':
        return R(st, OK(c.args[0]))
    return ite(e, st, t, lambda s: R(s, OK(c.args[0])), lambda s: R(s, ERR(mk('utf8err', v))))


@model('std::ffi::CString::new')
def m_cstring(e, st, c):
    v = val(e, st, c.args[0])
    t = no_nul(e, st, v)
    return ite(e, st, t, lambda s: R(s, OK(v)), lambda s: R(s, ERR(mk('nulerr', v))))


def no_nul(e, st, v):
    """boolean term: no zero byte in v"""
    r = 1
    for s in segs(v):
        if s[0] == 'l':
            for x in s[1]:
                if isinstance(x, int):
                    if x == 0:
                        return 0
                else:
                    t = mk('nonul', x)
                    RANGE[t] = (0, 1)
                    r = b_and_(r, t)
        else:
            S = s[1]
            if isT(S) and S.op in ('dec', 'cstr'):
                continue
            if isT(S, 'fmt') and (S.a[2] in ('u8', 'u16', 'u32', 'u64', 'usize')):
                continue
            if isT(S, 'strreplace') and S.a[1] is lit(b'\0') and no_nul(e, st, S.a[2]) == 1:
                continue
            t = mk('nonul', S)
            RANGE[t] = (0, 1)
            r = b_and_(r, t)
    return r


@model('std::ffi::CString::from_vec_unchecked')
def m_cfvu(e, st, c):
    v = c.args[0]
    t = no_nul(e, st, v)
    return need(e, st, t, 'interior NUL in CString', lambda s: R(s, v))


@model('std::ffi::CString::into_raw')
def m_craw(e, st, c):
    return R(st, given_up(e, ('cstring',), c.args[0]))


@model('std::ffi::CString::from_raw')
def m_cfromraw(e, st, c):
    p = c.args[0]
    st = st.copy()
    if isinstance(p, int):
        return UB(e, st, 'CString from null pointer')

    def go(s):
        s = s.copy()
        s.event('taken', p, ('cstring',), 0)
        return R(s, e.load(s, p))
    if isT(p) and p.op in ('ref', 'hp'):
        return go(st)
    t = mk('isnull', p)
    RANGE[t] = (0, 1)
    return ite(e, st, t, lambda s: UB(e, s, 'CString from null pointer'), go)


# ---------------------------------------------------------------- crypto
HLEN = {'sha512': 64, 'sha256': 32, 'keccak256': 32, 'ripemd160': 20, 'sha384': 48, 'sha3_256': 32, 'sha3_512': 64, 'keccak512': 64}


def hash_(alg, data):
    t = mk('hash', alg, data)
    LEN[t] = HLEN[alg]
    return t


def alg_of(s):
    s = s.lower()
    for k in ('ripemd160', 'sha512', 'sha256', 'sha384'):
        if k in s:
            return k
    return None


@model('cryptoxide::sha2::Sha512::new', 'cryptoxide::sha2::Sha256::new', 'cryptoxide::sha3::Sha3::keccak256', 'cryptoxide::sha3::Sha3::sha3_256',
       'cryptoxide::sha2::Sha384::new', 'cryptoxide::ripemd160::Ripemd160::new', 'cryptoxide::sha3::Sha3::keccak512', 'cryptoxide::sha3::Sha3::sha3_512')
def m_hnew(e, st, c):
    k = c.key.split('::')
    a = k[-1] if k[-1] != 'new' else k[-2].lower()
    return R(st, mk('agg', 'hst:' + a, 0, EMPTY))


@model('digest::digest::Digest::new')
def m_dnew(e, st, c):
    a = alg_of(e.types[c.f['args'][0]]['s']) if c.f['args'] else None
    if a is None:
        return None
    return R(st, mk('agg', 'hst:' + a, 0, EMPTY))


def hstate(v):
    if not (isT(v, 'agg') and str(v.a[0]).startswith('hst:')):
        raise Stop('hash state %r' % (v,))
    return v.a[0][4:], v.a[2]


@model('cryptoxide::digest::Digest::input', 'digest::digest::Digest::input', 'cryptoxide::digest::Digest::input_str')
def m_hinput(e, st, c):
    st = st.copy()
    a, d = hstate(e.load(st, c.args[0]))
    if d is DONE:
        return P(e, st, 'input to a finished digest')
    x = val(e, st, c.args[1])
    e.store(st, c.args[0], mk('agg', 'hst:' + a, 0, cat(d, x)))
    return R(st)


DONE = mk('finished')


@model('cryptoxide::digest::Digest::result')
def m_hresult(e, st, c):
    a, d = hstate(e.load(st, c.args[0]))
    if d is DONE:
        raise Stop('digest read twice')
    o, p = deref_seq(e, st, c.args[1])
    n = slen(e.read(st, o, p))

    def go(s):
        s = s.copy()
        e.write(s, o, p, hash_(a, d))
        e.store(s, c.args[0], mk('agg', 'hst:' + a, 0, DONE))
        return R(s)
    return need(e, st, eq0(sub(n, HLEN[a])), 'digest output size', go)


@model('digest::digest::Digest::result')
def m_dresult(e, st, c):
    a, d = hstate(c.args[0])
    return R(st, hash_(a, d))


@model('digest::digest::Digest::digest')
def m_ddigest(e, st, c):
    a = alg_of(e.types[c.f['args'][0]]['s'])
    return R(st, hash_(a, val(e, st, c.args[0]))) if a else None


@model('cryptoxide::digest::Digest::reset', 'digest::digest::Digest::reset')
def m_hreset(e, st, c):
    st = st.copy()
    a, d = hstate(e.load(st, c.args[0]))
    e.store(st, c.args[0], mk('agg', 'hst:' + a, 0, EMPTY))
    return R(st)


@model('cryptoxide::hmac::Hmac::new')
def m_hmacnew(e, st, c):
    a, d = hstate(c.args[0])
    if d is not EMPTY:
        raise Stop('hmac over a used digest')
    return R(st, mk('agg', 'hm:' + a, 0, val(e, st, c.args[1]), EMPTY))


def hm(v):
    if not (isT(v, 'agg') and str(v.a[0]).startswith('hm:')):
        raise Stop('hmac state %r' % (v,))
    return v.a[0][3:], v.a[2], v.a[3]


@model('cryptoxide::mac::Mac::input')
def m_macinput(e, st, c):
    st = st.copy()
    a, k, d = hm(e.load(st, c.args[0]))
    e.store(st, c.args[0], mk('agg', 'hm:' + a, 0, k, cat(d, val(e, st, c.args[1]))))
    return R(st)


def hmac_(a, k, d):
    t = mk('hmac', a, k, d)
    LEN[t] = HLEN[a]
    return t


@model('cryptoxide::mac::Mac::result')
def m_macresult(e, st, c):
    a, k, d = hm(e.load(st, c.args[0]))
    return R(st, mk('agg', 'MacResult', 0, hmac_(a, k, d)))


@model('cryptoxide::mac::Mac::raw_result')
def m_macraw(e, st, c):
    a, k, d = hm(e.load(st, c.args[0]))
    o, p = deref_seq(e, st, c.args[1])
    n = slen(e.read(st, o, p))
    return need(e, st, eq0(sub(n, HLEN[a])), 'mac output size', lambda s: R(_w(e, s, o, p, hmac_(a, k, d))))


@model('cryptoxide::mac::MacResult::code')
def m_maccode(e, st, c):
    v = e.load(st, c.args[0])
    return R(st, mk('ref', ('c', v.a[2]), ()))


@model('cryptoxide::pbkdf2::pbkdf2')
def m_pbkdf2(e, st, c):
    a, k, d = hm(e.load(st, c.args[0]))
    if d is not EMPTY:
        raise Stop('pbkdf2 over a used hmac')
    salt = val(e, st, c.args[1])
    o, p = deref_seq(e, st, c.args[3])
    n = slen(e.read(st, o, p))
    t = mk('pbkdf2', a, k, salt, c.args[2], n)
    if isinstance(n, int):
        LEN[t] = n
    return need(e, st, le(1, c.args[2]), 'pbkdf2 iteration count', lambda s: R(_w(e, s, o, p, t)))


@model('cryptoxide::chacha20poly1305::ChaCha20Poly1305::new')
def m_aeadnew(e, st, c):
    k, n, a = (val(e, st, x) for x in c.args)
    ok = b_and_(ENG.b_or(eq0(sub(slen(k), 32)), eq0(sub(slen(k), 16))), ENG.b_or(eq0(sub(slen(n), 12)), eq0(sub(slen(n), 8))))
    return need(e, st, ok, 'chacha20poly1305 key/nonce size', lambda s: R(s, mk('agg', 'aead', 0, k, n, a, 0)))


@model('cryptoxide::chacha20poly1305::ChaCha20Poly1305::encrypt')
def m_aeadenc(e, st, c):
    v = e.load(st, c.args[0])
    k, n, a, fin = v.a[2:6]
    if fin:
        return P(e, st, 'cipher object used twice')
    pt = val(e, st, c.args[1])
    o, p = deref_seq(e, st, c.args[2])
    m = slen(e.read(st, o, p))
    o2, p2 = deref_seq(e, st, c.args[3])
    tl = slen(e.read(st, o2, p2))

    def go(s):
        s = s.copy()
        ct = mk('aead_ct', k, n, a, pt)
        l = slen(pt)
        set_len(s, ct, l)
        tag = mk('aead_tag', k, n, a, pt)
        LEN[tag] = 16
        e.write(s, o, p, ct)
        e.write(s, o2, p2, tag)
        e.store(s, c.args[0], mk('agg', 'aead', 0, k, n, a, 1))
        return R(s)
    return need(e, st, b_and_(eq0(sub(m, slen(pt))), eq0(sub(tl, 16))), 'encrypt buffer sizes', go)


# ---------------------------------------------------------------- secp256k1 (libsecp256k1 0.2): parsing is slicing
SERR = ('InvalidSignature', 'InvalidPublicKey', 'InvalidSecretKey', 'InvalidRecoveryId', 'InvalidMessage', 'InvalidInputLength', 'TweakOutOfRange')


def serr(n):
    return mk('agg', 'secp256k1::Error', SERR.index(n))


def okty(e, c):
    return e.types[c.dty]['args'][0]


@model('secp256k1::SecretKey::parse_slice', 'secp256k1::SecretKey::parse')
def m_skparse(e, st, c):
    x = val(e, st, c.args[0])

    def go(s):
        t = e.note_ty(mk('call', 'secp256k1::SecretKey::parse', x), c.dty)
        return [Out('ret', t if k == 0 else ERR(serr('InvalidSecretKey')), s2) for s2, k in e.split_variant(s, t)]
    return ite(e, st, eq0(sub(slen(x), 32)), go, lambda s: R(s, ERR(serr('InvalidInputLength'))))


@model('secp256k1::SecretKey::serialize')
def m_skser(e, st, c):
    v = val(e, st, c.args[0])
    if isT(v, 'fld') and v.a[1] == 0 and isT(v.a[0], 'call') and v.a[0].a[0] == 'secp256k1::SecretKey::parse':
        return R(st, v.a[0].a[1])      # parse refuses what does not serialize back
    t = mk('call', c.key, v)
    LEN[t] = 32
    return R(st, t)


def _plain(name, n):
    def h(e, st, c):
        x = val(e, st, c.args[0])
        whole = c.key.endswith('_slice')
        ty = okty(e, c) if whole else c.dty
        t = e.note_ty(mk('call', name, x), ty)
        if not whole:
            return R(st, t)
        return ite(e, st, eq0(sub(slen(x), n)), lambda s: R(s, OK(t)), lambda s: R(s, ERR(serr('InvalidInputLength'))))
    return h


model('secp256k1::Signature::parse_slice', 'secp256k1::Signature::parse')(_plain('secp256k1::Signature::parse', 64))
model('secp256k1::Message::parse_slice', 'secp256k1::Message::parse')(_plain('secp256k1::Message::parse', 32))


@model('secp256k1::SecretKey::tweak_add_assign')
def m_sktweak(e, st, c):
    k, w = val(e, st, c.args[0]), val(e, st, c.args[1])
    z = mk('sk_zero', k, w)
    RANGE.setdefault(z, (0, 1))

    def go(s):
        s = s.copy()
        t = mk('sk_add', k, w)
        e.note_ty(t, e.types[c.atys[0]]['e'])
        e.store(s, c.args[0], t)
        return R(s, OK(UNIT))
    return ite(e, st, z, lambda s: R(s, ERR(serr('TweakOutOfRange'))), go)


def b32(v):
    t = mk('call', 'secp256k1::scalar::Scalar::b32', v)
    LEN[t] = 32
    return t


@model('secp256k1::Signature::serialize')
def m_sigser(e, st, c):
    v = val(e, st, c.args[0])
    ty = VTY.get(v)
    if ty is None:
        return None
    fs = e.types[ty]['v'][0]['f']
    return R(st, cat(*[b32(e.note_ty(mk('fld', v, 0, i), fs[i][1])) for i in range(2)]))


def set_len(st, t, l):
    if isinstance(l, int):
        LEN[t] = l
    elif t not in LEN:
        LEN[t] = l


# ---------------------------------------------------------------- ed25519-bip32: the slice forms check the length and copy
ED_ = 'ed25519_bip32::'


def bad_length(e, c, n):
    """the library's length error of the Result this call returns"""
    t = e.types[e.types[c.dty]['args'][1]]
    return ERR(mk('agg', t['path'], [v['n'] for v in t['v']].index([v['n'] for v in t['v'] if 'Length' in v['n']][0]), n))


@model(ED_ + 'key::XPrv::from_slice_verified')
def m_edverified(e, st, c):
    x = val(e, st, c.args[0])
    return ite(e, st, eq0(sub(slen(x), 96)), lambda s: R(s, e.note_ty(mk('call', ED_ + 'key::XPrv::from_bytes_verified', x), c.dty)),
               lambda s: R(s, bad_length(e, c, slen(x))))


@model(ED_ + 'key::XPrv::normalize_bytes')
def m_ednormal(e, st, c):
    x = val(e, st, c.args[0])
    b = [to_bits(e.note_byte(e.elem(st, x, i)), 8, st) for i in (0, 31)]
    y = cat(lits([from_bits([0, 0, 0] + list(b[0][3:]), st)]), e.slice(st, x, 1, 31), lits([from_bits(list(b[1][:5]) + [0, 1, 0], st)]), e.slice(st, x, 32, 96))
    t = mk('call', ED_ + 'key::XPrv::from_bytes_verified', y)       # which accepts exactly what normalising leaves as it is
    return R(e.assume_variant(st, t, 0), e.note_ty(mk('fld', t, 0, 0), c.dty))


@model(ED_ + 'signature::Signature::from_slice')
def m_edsig(e, st, c):
    x = val(e, st, c.args[0])
    return ite(e, st, eq0(sub(slen(x), 64)), lambda s: R(s, OK(e.note_ty(mk('call', ED_ + 'signature::Signature::from_bytes', x), okty(e, c)))),
               lambda s: R(s, bad_length(e, c, slen(x))))


@model(ED_ + 'signature::Signature::to_bytes')
def m_edsigbytes(e, st, c):
    t = mk('call', 'std::convert::AsRef::as_ref', val(e, st, c.args[0]))
    LEN[t] = 64
    return R(st, t)


@model('cryptoxide::chacha20poly1305::ChaCha20Poly1305::decrypt')
def m_aeaddec(e, st, c):
    v = e.load(st, c.args[0])
    k, n, a, fin = v.a[2:6]
    if fin:
        return P(e, st, 'cipher object used twice')
    ct = val(e, st, c.args[1])
    tag = val(e, st, c.args[3])
    o, p = deref_seq(e, st, c.args[2])
    m = slen(e.read(st, o, p))

    def go(s):
        ok = mk('aead_ok', k, n, a, ct, tag)
        RANGE[ok] = (0, 1)
        pt = mk('aead_pt', k, n, a, ct)
        set_len(s, pt, slen(ct))
        bad = mk('aead_junk', k, n, a, ct)
        set_len(s, bad, slen(ct))
        out = []
        for s2, b in e.decide(s, ok):
            s2 = s2.copy()
            e.write(s2, o, p, pt if b else bad)
            e.store(s2, c.args[0], mk('agg', 'aead', 0, k, n, a, 1))
            out.append(Out('ret', b, s2))
        return out
    return need(e, st, eq0(sub(m, slen(ct))), 'decrypt buffer sizes', go)


def rng_fill(e, st, src, p):
    st = st.copy()
    o, path = deref_seq(e, st, p)
    n = slen(e.read(st, o, path))
    k = sum(1 for x in st.ev if x[0] == 'rng')
    t = mk('rng', src, k, n)
    set_len(st, t, n)
    e.write(st, o, path, t)
    st.event('rng', src, k, n)
    return R(st)


@model('rand_core::RngCore::fill_bytes')
def m_rng(e, st, c):
    t = e.types[selfty(e, c)]['s']
    return rng_fill(e, st, mk('rngtype', t), c.args[1])


@model('rand_core::RngCore::try_fill_bytes')
def m_rngtry(e, st, c):
    t = e.types[selfty(e, c)]['s']
    out = rng_fill(e, st, mk('rngtype', t), c.args[1])
    ok = mk('rngok', t)
    RANGE[ok] = (0, 1)
    res = []
    for o in out:
        res.extend(ite(e, o.st, ok, lambda s: R(s, OK(UNIT)), lambda s: R(s, ERR(mk('rngerr', t)))))
    return res


@model('dyn keychain::Entropy::fill_bytes')
def m_entropy(e, st, c):
    return rng_fill(e, st, e.rb(st, c.args[0]), c.args[1])


def endian(e, c):
    for a in c.f['args']:
        if isinstance(a, int):
            s = e.types[a]['s']
            if 'BigEndian' in s:
                return 'big'
            if 'LittleEndian' in s:
                return 'little'
    s = c.f['name']
    return 'big' if 'BigEndian' in s else 'little' if 'LittleEndian' in s else None


def _bo_read(n):
    def f(e, st, c):
        v = val(e, st, c.args[0])
        en = endian(e, c)
        if en is None:
            return None
        return need(e, st, le(n, slen(v)), 'read past the end', lambda s: R(s, e.int_from_bytes(s, e.slice(s, v, 0, n), en)))
    return f


def _bo_write(n):
    def f(e, st, c):
        en = endian(e, c)
        if en is None:
            return None
        o, p = deref_seq(e, st, c.args[0])
        m = slen(e.read(st, o, p))
        return need(e, st, le(n, m), 'write past the end', lambda s: R(_w(e, s, o, p + (('s', 0, n),), e.int_to_bytes(s, c.args[1], n, en))))
    return f


def _bo_append(n):
    def f(e, st, c):
        en = endian(e, c)
        t = selfty(e, c)
        if en is None or e.types[t].get('path') != 'alloc::vec::Vec':
            return None
        return R(upd(e, st, c.args[0], lambda v: cat(v, e.int_to_bytes(st, c.args[1], n, en))), OK(UNIT))
    return f


for _n, _b in (('u16', 2), ('u32', 4), ('u64', 8)):
    MODELS['byteorder::ByteOrder::read_' + _n] = _bo_read(_b)
    MODELS['byteorder::ByteOrder::write_' + _n] = _bo_write(_b)
    MODELS['byteorder::io::WriteBytesExt::write_' + _n] = _bo_append(_b)


@model('byteorder::io::WriteBytesExt::write_u8')
def m_wu8(e, st, c):
    t = selfty(e, c)
    if e.types[t].get('path') != 'alloc::vec::Vec':
        return None
    return R(upd(e, st, c.args[0], lambda v: cat(v, lits([c.args[1]]))), OK(UNIT))


@model('std::io::Write::write_all', 'std::io::Write::write')
def m_iowrite(e, st, c):
    t = selfty(e, c)
    if e.types[t].get('path') != 'alloc::vec::Vec':
        return None
    x = val(e, st, c.args[1])
    return R(upd(e, st, c.args[0], lambda v: cat(v, x)), OK(UNIT if c.key.endswith('all') else slen(x)))


# ------------------------------------------------------------------ JSON (meaning of the derived code is C07's business)
@model('serde_json::de::from_slice', 'serde_json::de::from_str', 'serde_json::from_slice', 'serde_json::from_str')
def m_json_de(e, st, c):
    v = e.rb(st, content(e, st, c.args[0]))
    ok = e.types[c.dty]['v'][0]['f'][0][1]
    t = mk('json_de', e.norm(e.types[ok]['s']).split('::')[-1], v)
    e.note_ty(t, c.dty)
    return R(st, t)


@model('serde_json::ser::to_vec', 'serde_json::ser::to_string', 'serde_json::to_vec', 'serde_json::to_string')
def m_json_ser(e, st, c):
    v = e.rb(st, e.load(st, c.args[0]))
    for _ in range(4):
        if isT(v, 'ref'):
            v = e.rb(st, e.load(st, v))
    t = mk('json_ser', v)
    e.note_ty(t, c.dty)
    return R(st, t)


# ------------------------------------------------------------------ base64
@model('base64::encode::encode_config', 'base64::encode::encode', 'base64::encode_config', 'base64::encode')
def m_b64(e, st, c):
    cfg = e.rb(st, c.args[1]) if len(c.args) > 1 else mk('b64std')
    v = mk('b64', cfg, e.rb(st, content(e, st, c.args[0])))
    RANGE.setdefault(mk('len', v), (0, LENMAX))
    return R(st, v)


@model('base64::decode::decode_config', 'base64::decode::decode', 'base64::decode_config', 'base64::decode')
def m_unb64(e, st, c):
    cfg = e.rb(st, c.args[1]) if len(c.args) > 1 else mk('b64std')
    v = e.rb(st, content(e, st, c.args[0]))
    if isT(v, 'b64') and v.a[0] is cfg:
        return R(st, OK(v.a[1]))
    ok = mk('isb64', cfg, v)
    RANGE[ok] = (0, 1)
    return ite(e, st, ok, lambda s: R(s, OK(mk('unb64', cfg, v))), lambda s: R(s, ERR(mk('b64err', cfg, v))))


# ------------------------------------------------------------------ constructors used as functions
@model('std::prelude::v1::Some', 'std::option::Option::Some', 'core::option::Option::Some')
def m_some(e, st, c):
    return R(st, SOME(c.args[0]))


@model('std::prelude::v1::Ok', 'std::result::Result::Ok', 'core::result::Result::Ok')
def m_okc(e, st, c):
    return R(st, OK(c.args[0]))


@model('std::prelude::v1::Err', 'std::result::Result::Err', 'core::result::Result::Err')
def m_errc(e, st, c):
    return R(st, ERR(c.args[0]))


@model('std::ops::ControlFlow::Break', 'std::ops::ControlFlow::Continue')
def m_cflow(e, st, c):
    return R(st, mk('agg', CFLOW, 1 if c.key.endswith('Break') else 0, c.args[0]))


# ---------------------------------------------------------------- operators as trait methods
OPS = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div', 'Rem': 'rem', 'BitAnd': 'bitand', 'BitOr': 'bitor', 'BitXor': 'bitxor', 'Shl': 'shl', 'Shr': 'shr'}


def intval(e, st, v):
    v = e.rb(st, v)
    if not isinstance(v, int) and not (isT(v) and (v in RANGE or v.op == 'lin')):
        return None
    return v


def op_model(op, assign):
    def h(e, st, c):
        t = selfty(e, c)
        ty = e.types[t]
        if ty.get('path') == 'alloc::string::String' and op == 'Add':
            x = content(e, st, c.args[1])
            if assign:
                return R(upd(e, st, c.args[0], lambda v: cat(v, x)))
            return R(st, cat(content(e, st, c.args[0]), x))
        if ty['k'] != 'int':
            return None
        a, b = intval(e, st, c.args[0]), intval(e, st, c.args[1])
        if a is None or b is None:
            return None

        def done(s, v):
            if assign:
                s = s.copy()
                e.store(s, c.args[0], v)
                return R(s)
            return R(s, v)
        if op in ('Div', 'Rem'):
            return need(e, st, b_not(eq0(b)), 'division by zero', lambda s: done(s, e.arith(s, op, a, b, t)[0]))
        v, ov = e.arith(st, op, a, b, t, op in ('Add', 'Sub', 'Mul'))
        return need(e, st, b_not(ov), 'arithmetic overflow', lambda s: done(s, v))
    return h


for _o, _n in OPS.items():
    MODELS['std::ops::%s::%s' % (_o, _n)] = op_model(_o, False)
    MODELS['std::ops::%sAssign::%s_assign' % (_o, _n)] = op_model(_o, True)
