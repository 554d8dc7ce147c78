"""Abstract interpreter over the dumped MIR (trace partitioning, no solver, nothing executed)."""
import sys
from .term import *
from . import term as TM

sys.setrecursionlimit(100000)
UNINIT = mk('uninit')
UNIT = mk('agg', '()', 0)
USZ = (0, (1 << 64) - 1)


class Stop(Exception):
    """the analysis cannot decide this function"""


class St:
    __slots__ = ('mem', 'lin', 'ne', 'bools', 'var', 'nvar', 'trail', 'ev', 'depth')

    def __init__(s):
        s.mem = {}
        s.lin = {}
        s.ne = {}
        s.bools = {}
        s.var = {}
        s.nvar = {}
        s.trail = None
        s.ev = ()
        s.depth = 0

    def copy(s):
        n = St.__new__(St)
        n.mem = s.mem.copy()
        n.lin = s.lin.copy()
        n.ne = s.ne.copy()
        n.bools = s.bools.copy()
        n.var = s.var.copy()
        n.nvar = s.nvar.copy()
        n.trail = s.trail
        n.ev = s.ev
        n.depth = s.depth
        return n

    def note(s, cond, val):
        s.trail = (s.trail, (cond, val))

    def since(s, base):
        out = []
        t = s.trail
        while t is not base and t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out

    def event(s, *e):
        s.ev = s.ev + (e,)

    # ------------------------------------------------------------ integer bounds
    def ab(s, x):
        r = RANGE.get(x)
        lo, hi = r if r else (-INF, INF)
        f = s.lin.get(((x, 1),))
        if f:
            lo = max(lo, f[0])
            hi = min(hi, f[1])
        return lo, hi

    def simple(s, key):
        lo = hi = 0
        for x, k in key:
            l, h = s.ab(x)
            if k < 0:
                l, h = h, l
            lo += k * l
            hi += k * h
        f = s.lin.get(key)
        if f:
            lo = max(lo, f[0])
            hi = min(hi, f[1])
        return lo, hi

    def kb(s, key):
        lo, hi = s.simple(key)
        if lo < hi:
            kd = None
            ats = None
            for F, (fl, fh) in s.lin.items():
                if F is key or len(F) == 1:
                    continue
                if ats is None:
                    kd = dict(key)
                    ats = kd.keys()
                for x, k in F:
                    kk = kd.get(x)
                    if kk is None or kk % k:
                        continue
                    m = kk // k
                    rem = dict(kd)
                    for y, ky in F:
                        rem[y] = rem.get(y, 0) - m * ky
                    r = from_lin(0, rem)
                    if isinstance(r, int):
                        rl = rh = r
                    else:
                        rk, sc, c = key_of(r)
                        rl, rh = s.simple(rk)
                        if sc < 0:
                            rl, rh = rh, rl
                        rl, rh = rl * sc + c, rh * sc + c
                    a, b = (fl * m, fh * m) if m > 0 else (fh * m, fl * m)
                    lo = max(lo, rl + a)
                    hi = min(hi, rh + b)
                    break
        ne = s.ne.get(key)
        if ne:
            while lo in ne:
                lo += 1
            while hi in ne:
                hi -= 1
        return lo, hi

    def bounds(s, v):
        if isinstance(v, int):
            return v, v
        if not isT(v):
            return -INF, INF
        key, sc, c = key_of(v)
        lo, hi = s.kb(key)
        if sc < 0:
            lo, hi = hi, lo
        return lo * sc + c, hi * sc + c

    def point(s, v):
        if isinstance(v, int):
            return v
        if v.op == 'bit' and v not in s.lin:
            pass
        lo, hi = s.bounds(v)
        return lo if lo == hi else v

    def cmp(s, a, b):
        d = sub(a, b)
        if isinstance(d, int):
            return (d > 0) - (d < 0)
        lo, hi = s.bounds(d)
        if lo > 0:
            return 1
        if hi < 0:
            return -1
        if lo == hi == 0:
            return 0
        return None

    def le_split(s, a, b):
        """True when a<=b is certain"""
        lo, hi = s.bounds(sub(a, b))
        return hi <= 0


def bool_facts(st, b):
    """1/0/None for a boolean term under st"""
    if isinstance(b, int):
        return b
    o = b.op
    if o == 'not':
        r = bool_facts(st, b.a[0])
        return None if r is None else 1 - r
    if o == 'le':
        lo, hi = st.kb(b.a[0])
        if hi <= b.a[1]:
            return 1
        if lo > b.a[1]:
            return 0
        return None
    if o == 'ieq':
        lo, hi = st.kb(b.a[0])
        c = b.a[1]
        if lo == hi == c:
            return 1
        if c < lo or c > hi:
            return 0
        ne = st.ne.get(b.a[0])
        if ne and c in ne:
            return 0
        return None
    if o == 'and':
        x = bool_facts(st, b.a[0])
        y = bool_facts(st, b.a[1])
        if x == 0 or y == 0:
            return 0
        if x == 1 and y == 1:
            return 1
        return None
    r = st.bools.get(b)
    if r is not None:
        return r
    if o == 'isnull' and (not isT(b.a[0]) or b.a[0].op in ('hp', 'ref', 'dyn', 'seq')):
        return 1 if b.a[0] == 0 else 0
    if b in RANGE:
        lo, hi = st.ab(b)
        if lo == hi:
            return lo
    if o == 'eq':
        x, y = b.a
        # equal to a different constant already?
        for p, q in ((x, y), (y, x)):
            if is_const(q):
                c = st.bools.get(mk('eqc', p))
                if c is not None:
                    return 1 if c is q else 0
    return None


CONSTS = {}


def is_const(t):
    if isinstance(t, int):
        return True
    if t.op not in ('seq', 'agg'):
        return False
    r = CONSTS.get(t)
    if r is None:
        if t.op == 'seq':
            r = all(x[0] == 'l' and all(is_const(y) for y in x[1]) for x in t.a)
        else:
            r = all(is_const(x) for x in t.a[2:])
        CONSTS[t] = r
    return r


def assume(st, b, val):
    """new state where b == val, or None; st itself is not changed. b must be undecided."""
    n = st.copy()
    if not assume_in(n, b, val):
        return None
    n.note(b, val)
    return n


def assume_in(n, b, val):
    if isinstance(b, int):
        return b == val
    o = b.op
    if o == 'not':
        return assume_in(n, b.a[0], 1 - val)
    if o == 'le':
        key, c = b.a
        lo, hi = n.simple(key)
        if val:
            hi = min(hi, c)
        else:
            lo = max(lo, c + 1)
        if lo > hi:
            return False
        n.lin[key] = (lo, hi)
        return True
    if o == 'ieq':
        key, c = b.a
        lo, hi = n.kb(key)
        if val:
            if not lo <= c <= hi:
                return False
            n.lin[key] = (c, c)
        else:
            if lo == hi == c:
                return False
            if lo == c:
                n.lin[key] = (c + 1, hi)
            elif hi == c:
                n.lin[key] = (lo, c - 1)
            n.ne[key] = n.ne.get(key, frozenset()) | {c}
        return True
    if o == 'and':
        if val:
            return assume_in(n, b.a[0], 1) and assume_in(n, b.a[1], 1)
        n.bools[b] = 0
        return True
    n.bools[b] = val
    if b in RANGE:
        n.lin[((b, 1),)] = (val, val)
    if o == 'eq' and val:
        x, y = b.a
        if is_const(y):
            n.bools[mk('eqc', x)] = y
        elif is_const(x):
            n.bools[mk('eqc', y)] = x
    return True


class Frame:
    __slots__ = ('id', 'f', 'body')


class Out:
    """kind: ret | panic | goto | back"""
    __slots__ = ('k', 'v', 'st')

    def __init__(s, k, v, st):
        s.k = k
        s.v = v
        s.st = st


def strip_generics(s):
    out = []
    i = 0
    while i < len(s):
        if s.startswith('::<', i) and not s.startswith('::<impl', i):
            dep = 0
            j = i + 2
            while j < len(s):
                if s[j] == '<':
                    dep += 1
                elif s[j] == '>' and s[j - 1] != '-':
                    dep -= 1
                    if dep == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(s[i])
        i += 1
    return ''.join(out)


SYM_TY = {}
UNTYPED = {'jnull', 'jnum', 'jbool', 'jstr', 'jarr', 'jobj', 'jser', 'jd', 'jmap', 'jseq', 'jenum', 'jvar', 'jerr', 'mentry', 'mvalref'}     # JSON documents standing for serde values


class Engine:
    MAXOUT = 20000

    def __init__(e, dump, boundaries=None):
        from . import models
        e.d = dump
        e.types = {int(k): v for k, v in dump['types'].items()}
        e.fns = dump['fns']
        e.allocs = {int(k): v for k, v in dump['allocs'].items()}
        e.vtables = dump['vtables']
        e.models = models.MODELS
        e.boundaries = boundaries or {}
        e.acache = {}
        e.nframe = 0
        e.stack = []
        e.keys = {}
        e.loops = {}
        e.otype = {}
        e.analysed = {}
        e.calls = 0
        e.steps = 0
        e.drops = False
        e.opaque_calls = {}
        e.unsized_note = []
        e.maxrec = {}
        e.byname = {}
        e.bystrip = {}
        for k, f in e.fns.items():
            nm = e.norm(f['name'])
            e.byname.setdefault(nm, []).append(k)
            n2 = strip_generics(nm)
            if n2 != nm and f['ws']:
                e.bystrip.setdefault(n2, []).append(k)
        e.disp = None
        e.pending_panics = []
        e.on_make = None        # called with every struct or variant that is built
        e.on_opaque = None      # called with every function that is not looked into
        e.field_range = {}      # (type path, field) -> interval of the values in use

    @property
    def inner_ty(e):
        return e.__dict__.setdefault('_inner_ty', {})

    def norm(e, s):
        s = s.replace('rust_keychain::keychain::bip39::', 'bip39::').replace('rust_keychain::keychain::', 'keychain::')
        # names of items that are public only with the feature custom-networks
        return s.replace('keychain::key_factory::', 'keychain::').replace(' keychain::key::', ' keychain::').replace('keychain::entropy::', 'keychain::')

    # ------------------------------------------------------------------ types
    def tk(e, t):
        return e.types[t]['k']

    def path_of(e, t):
        return e.types[t].get('path')

    def agg_name(e, t):
        ty = e.types[t]
        if ty['k'] == 'adt':
            return ty['path']
        if ty['k'] == 'tuple':
            return '()'
        if ty['k'] == 'closure':
            return 'closure:%d' % t
        return ty['s']

    def field_tys(e, t, variant=0):
        ty = e.types[t]
        if ty['k'] == 'adt':
            return [f[1] for f in ty['v'][variant]['f']]
        if ty['k'] == 'tuple':
            return ty['e']
        if ty['k'] == 'closure':
            return ty['ups']
        return []

    def is_box(e, t):
        return e.types[t].get('box')

    def inner(e, t):
        ty = e.types[t]
        if ty['k'] in ('ref', 'ptr', 'array', 'slice'):
            return ty['e']
        if ty['k'] == 'adt' and ty['args']:
            return ty['args'][0]
        return None

    def int_range(e, t):
        ty = e.types[t]
        if ty['k'] == 'int':
            w = ty['w']
            return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if ty['sg'] else (0, (1 << w) - 1)
        if ty['k'] == 'bool':
            return (0, 1)
        if ty['k'] == 'char':
            return (0, 0x10ffff)
        return None

    def width(e, t):
        ty = e.types[t]
        return {'bool': 1, 'char': 32}.get(ty['k']) or ty['w']

    def note_ty(e, v, t):
        """record what the static type says about an opaque term"""
        if not isT(v) or t is None:
            return v
        if v.op in ('lin', 'seq', 'ref', 'agg', 'uninit', 'fn', 'it') or v.op in UNTYPED:
            return v
        ty = e.types[t]
        k = ty['k']
        if k in ('int', 'bool', 'char'):
            if v not in RANGE:
                RANGE[v] = e.int_range(t)
                if e.field_range and v.op == 'fld' and v.a[0] in VTY:
                    r = e.field_range.get((e.types[VTY[v.a[0]]].get('path'), v.a[1], v.a[2]))
                    if r:
                        RANGE[v] = r
        elif k == 'adt':
            p = ty['path']
            if p == 'alloc::boxed::Box' and ty['args'] and isinstance(ty['args'][0], int):
                e.note_ty(v, ty['args'][0])
            elif p in ('core::ptr::non_null::NonNull', 'core::ptr::unique::Unique'):
                pass
            elif v not in VTY:
                VTY[v] = t
        elif k == 'tuple':
            if v not in VTY:
                VTY[v] = t
        elif k == 'array':
            if v not in LEN and v not in UNSIZED and v not in VTY and ty['n'] is not None:
                LEN[v] = ty['n']
        elif k in ('slice', 'str'):
            if v not in LEN:
                UNSIZED.add(v)
        elif k in ('ref', 'ptr'):
            e.note_ty(v, ty['e'])
        return v

    def symbolic(e, name, t, *rest):
        ty = e.types[t]
        if ty['k'] == 'tuple' and not ty['e']:
            return UNIT
        # one symbol never stands for values of two types
        while SYM_TY.setdefault((name, rest), e.types[t]['s']) != e.types[t]['s']:
            name += "'"
        return e.note_ty(sym(name, *rest), t)

    # ------------------------------------------------------------------ constants
    def const(e, c):
        t = c['ty']
        if 'b' in c:
            return e.decode(c, 0, t)
        if 'z' in c:
            ty = e.types[t]
            if ty['k'] == 'fndef':
                return mk('fn', t)
            if ty['k'] == 'array':
                return EMPTY
            if ty['k'] == 'adt' and ty['kind'] == 'enum':
                return mk('agg', ty['path'], 0)
            return e.zst(t)
        return mk('const', c.get('u', '?'), t)

    def zst(e, t):
        ty = e.types[t]
        if ty['k'] == 'fndef':
            return mk('fn', t)
        if ty['k'] == 'array':
            return EMPTY if ty['n'] == 0 else mkseq([('l', (e.zst(ty['e']),) * ty['n'])])
        return mk('agg', e.agg_name(t), 0, *[e.zst(x) for x in e.field_tys(t)])

    def prov(e, a):
        m = a.get('_p')
        if m is None:
            m = a['_p'] = {o: x for o, x in a['p']}
        return m

    def raw(e, a):
        m = a.get('_b')
        if m is None:
            m = a['_b'] = bytes.fromhex(a['b'].replace('..', '00'))
        return m

    def decode(e, a, off, t):
        ty = e.types[t]
        k = ty['k']
        b = e.raw(a)
        if k in ('int', 'bool', 'char'):
            n = ty['size']
            if a['b'][2 * off:2 * off + 2] == '..':
                return UNINIT
            return int.from_bytes(b[off:off + n], 'little', signed=bool(ty.get('sg')))
        if k in ('ref', 'ptr'):
            addr = int.from_bytes(b[off:off + 8], 'little')
            p = e.prov(a).get(off)
            et = ty['e']
            ek = e.types[et]['k']
            if p is None:
                if ek in ('str', 'slice') and k == 'ref':
                    return mk('ref', ('c', EMPTY), ())
                if k == 'ref' or addr:
                    return mk('ref', ('c', e.zst(et) if e.types[et].get('size') == 0 else UNINIT), ())
                return addr
            al = e.allocs[p]
            if al['k'] == 'fn':
                return mk('fnid', al['f'])
            if al['k'] == 'static':
                al = al['init'] or {'b': '', 'p': []}
            if ek in ('str', 'slice'):
                n = int.from_bytes(b[off + 8:off + 16], 'little')
                return mk('ref', ('a', p, addr, et, n), ())
            if ek == 'dyn':
                vp = e.prov(a).get(off + 8)
                vt = e.allocs[vp]['ty']
                return mk('dyn', mk('ref', ('a', p, addr, vt, 0), ()), vt)
            return mk('ref', ('a', p, addr, et, 0), ())
        if k == 'fnptr':
            p = e.prov(a).get(off)
            return mk('fnid', e.allocs[p]['f'])
        if k == 'array':
            return e.dec_arr(a, off, ty['e'], ty['n'])
        if k in ('tuple', 'closure'):
            return mk('agg', e.agg_name(t), 0, *[e.decode(a, off + o, x) for o, x in zip(ty.get('off', []), e.field_tys(t))])
        if k == 'fndef':
            return mk('fn', t)
        if k == 'adt':
            p = ty['path']
            if p in ('alloc::vec::Vec', 'alloc::string::String'):
                return EMPTY
            if p == 'std::collections::hash::map::HashMap':
                return mk('map')
            if p == 'std::sync::poison::mutex::Mutex':
                # Mutex<T>: look at the last field
                for i, f in enumerate(ty['v'][0]['f']):
                    if f[0] == 'data':
                        return e.decode(a, off + ty['off'][i], f[1])
            if p == 'core::cell::UnsafeCell' or p == 'core::mem::manually_drop::ManuallyDrop':
                return e.decode(a, off + ty['off'][0], ty['v'][0]['f'][0][1])
            if ty['kind'] == 'struct':
                return mk('agg', p, 0, *[e.decode(a, off + o, f[1]) for o, f in zip(ty['off'], ty['v'][0]['f'])])
            if ty['kind'] == 'enum':
                l = ty['lay']
                if l is None:
                    return UNINIT
                if 'single' in l:
                    v = l['single']
                    offs = ty.get('off', [])
                else:
                    tag = int.from_bytes(b[off + l['toff']:off + l['toff'] + l['tsize']], 'little')
                    if e.prov(a).get(off + l['toff']) is not None:
                        tag = 1 << 70
                    if l['enc'] == 'direct':
                        v = [i for i, x in enumerate(ty['v']) if int(x['d']) % (1 << (8 * l['tsize'])) == tag][0]
                    else:
                        en = l['enc']
                        m = 1 << (8 * l['tsize'])
                        rel = (tag - int(en['start'])) % m if tag < m else m
                        cnt = en['hi'] - en['lo']
                        v = en['lo'] + rel if rel <= cnt else en['untagged']
                    offs = l['voff'][v]
                return mk('agg', p, v, *[e.decode(a, off + o, f[1]) for o, f in zip(offs, ty['v'][v]['f'])])
        return mk('const', 'raw', t, a['b'])

    def dec_arr(e, a, off, et, n):
        ty = e.types[et]
        if n == 0:
            return EMPTY
        if ty['k'] == 'int' and ty['w'] == 8 and not ty['sg']:
            return lits(list(e.raw(a)[off:off + n]))
        sz = ty['size']
        return lits([e.decode(a, off + i * sz, et) for i in range(n)])

    def alloc_content(e, oid):
        r = e.acache.get(oid)
        if r is None:
            _, p, off, t, n = oid
            al = e.allocs[p]
            if al['k'] == 'static':
                al = al['init']
            k = e.types[t]['k']
            if k == 'str':
                r = lit(e.raw(al)[off:off + n])
            elif k == 'slice':
                r = e.dec_arr(al, off, e.types[t]['e'], n)
            else:
                r = e.decode(al, off, t)
            e.acache[oid] = r
        return r

    # ------------------------------------------------------------------ memory
    def content(e, st, oid):
        v = st.mem.get(oid)
        if v is not None:
            return v
        k = oid[0]
        if k == 'sym':
            return oid[1].a[2] if oid[1].op == 'hp' else oid[1]
        if k == 'c':
            return oid[1]
        if k == 'a':
            return e.alloc_content(oid)
        return UNINIT

    def rd1(e, st, v, el):
        k = el[0]
        if isinstance(v, int):
            if k == 'f':
                return v
            raise Stop('projection %r of integer %r' % (el, v))
        if k == 'f':
            if v.op == 'agg':
                if v.a[1] != el[1]:
                    return UNINIT
                if 2 + el[2] >= len(v.a):
                    raise Stop('field %r of %r' % (el, v))
                return v.a[2 + el[2]]
            if v.op == 'uninit':
                return v
            if v.op in ('ref', 'dyn', 'dynbox', 'seq', 'hp') and el[2] == 0:
                return v
            ow = el[3]
            if ow is not None:
                p = e.types[ow].get('path')
                if p in TRANSPARENT:
                    return v
                r = mk('fld', v, el[1], el[2])
                fts = e.field_tys(ow, el[1])
                if el[2] < len(fts) and fts[el[2]] is not None and e.types[fts[el[2]]]['k'] == 'array':
                    e.note_ty(r, fts[el[2]])
                return r
            return mk('fld', v, el[1], el[2])
        if k == 'i':
            return e.elem(st, v, el[1])
        if k == 's':
            return e.slice(st, v, el[1], el[2])
        if k == 'dyn':
            return v.a[0] if v.op == 'dynbox' else v
        raise Stop('projection ' + k)

    def elem(e, st, v, i):
        if v.op == 'uninit':
            return v
        if isT(i):
            i = st.point(i)
        if v.op == 'seq':
            off = 0
            for s in v.a:
                n = seglen(s)
                end = add(off, n)
                c = st.cmp(i, end)
                if c is None:
                    if st.bounds(sub(i, end))[0] < 0:
                        break
                    c = 0
                if c < 0:
                    if s[0] == 'l':
                        k = sub(i, off)
                        if isinstance(k, int):
                            return s[1][k]
                        break
                    if s[0] == 's':
                        return e.at(s[1], add(s[2], sub(i, off)))
                    return s[1]
                off = end
            return mk('sel', v, i)
        return e.at(v, i)

    def at(e, S, i):
        if S.op == 'tab':
            n, ix, body = S.a
            return e.subst(body, {ix: i})
        if S.op == 'cat':
            pass
        return mk('at', S, i)

    def slice(e, st, v, lo, hi):
        if v.op == 'uninit':
            return v
        n = slen(v)
        if lo == 0 and (hi is n or hi == n):
            return v
        try:
            a, _ = split_at(v, hi, st.cmp) if st.cmp(hi, n) != 0 else (v, None)
            _, b = split_at(a, lo, st.cmp)
            return b
        except Undecided:
            return mk('slice', v, lo, hi)

    def splice(e, st, v, lo, hi, new):
        n = slen(v)
        try:
            a = split_at(v, lo, st.cmp)[0]
            b = EMPTY if st.cmp(hi, n) == 0 else split_at(v, hi, st.cmp)[1]
        except Undecided:
            return mk('splice', v, lo, hi, new)
        return cat(a, new, b)

    def read(e, st, oid, path):
        v = e.content(st, oid)
        for el in path:
            v = e.rd1(st, v, el)
        return v

    def wr(e, st, v, path, new):
        if not path:
            return new
        el = path[0]
        k = el[0]
        if k == 'f':
            if isT(v, 'agg') and v.a[1] == el[1] or isT(v, 'agg') and len(v.a) == 2 and False:
                fs = list(v.a[2:])
            else:
                if el[3] is None:
                    raise Stop('write to field of %r' % (v,))
                if e.types[el[3]].get('path') in TRANSPARENT:
                    return e.wr(st, v, path[1:], new)
                tys = e.field_tys(el[3], el[1])
                if isT(v, 'uninit') or isT(v, 'agg') or isinstance(v, int):
                    fs = [UNINIT] * len(tys)
                else:
                    fs = [e.note_ty(mk('fld', v, el[1], i), x) for i, x in enumerate(tys)]
            fs[el[2]] = e.wr(st, fs[el[2]], path[1:], new)
            return mk('agg', e.agg_name(el[3]) if el[3] is not None else v.a[0], el[1], *fs)
        if k == 'i':
            old = e.elem(st, v, el[1]) if len(path) > 1 else None
            x = e.wr(st, old, path[1:], new)
            i = st.point(el[1]) if isT(el[1]) else el[1]
            return e.splice(st, v, i, add(i, 1), lits([x]))
        if k == 's':
            x = new if len(path) == 1 else e.wr(st, e.slice(st, v, el[1], el[2]), path[1:], new)
            return e.splice(st, v, el[1], el[2], x)
        if k == 'dyn':
            return mk('dynbox', e.wr(st, v.a[0], path[1:], new), v.a[1])
        raise Stop('write projection')

    def escape(e, st, oids, kind, v):
        """the owner held by the locals `oids` is given up: pointers to its memory outlive them"""
        if not oids:
            return
        e.nframe += 1
        h = mk('hp', e.nframe, kind, v)
        memo = {}

        def go(x):
            if not isT(x) or x.op in ('sym',):
                return x
            r = memo.get(x)
            if r is None:
                if x.op == 'ref' and x.a[0] in oids:
                    p = x.a[1]
                    if len(p) == 1 and p[0][0] == 's' and p[0][1] == 0 and (p[0][2] is slen(v) or p[0][2] == slen(v)):
                        p = ()
                    r = mk('ref', ('sym', h), p) if p else h
                elif any_term(x, lambda y: y.op == 'ref' and y.a[0] in oids):
                    r = mk(x.op, *[go(y) if isT(y) else y for y in x.a])
                else:
                    r = x
                memo[x] = r
            return r
        for o, x in list(st.mem.items()):
            if o not in oids and isT(x):
                y = go(x)
                if y is not x:
                    st.mem[o] = y
        return go

    def write(e, st, oid, path, new):
        if not path:
            st.mem[oid] = new
            return
        if path[-1][0] == 'i' or path[-1][0] == 's' or any(p[0] in 'is' for p in path):
            st.mem[oid] = e.wr(st, e.content(st, oid), path, new)
            return
        st.mem[oid] = e.wr(st, e.content(st, oid), path, new)

    def mkref(e, oid, path):
        if oid[0] == 'sym' and not path:
            return oid[1]
        return mk('ref', oid, path)

    def target(e, v):
        """(oid, path) a pointer value designates"""
        if isT(v):
            if v.op == 'ref':
                return v.a[0], v.a[1]
            if v.op == 'dyn':
                return e.target(v.a[0])
            return ('sym', v), ()
        raise Stop('dereference of %r' % (v,))

    def load(e, st, p):
        o, path = e.target(p)
        return e.read(st, o, path)

    def store(e, st, p, v):
        o, path = e.target(p)
        e.write(st, o, path, v)

    def rb(e, st, v, memo=None):
        """replace references by what they point to"""
        if not isT(v):
            return v
        if memo is None:
            memo = {}
        return e._rb(st, v, memo, 0)

    def _rb(e, st, v, memo, d):
        if not isT(v):
            if isinstance(v, tuple):
                return tuple(e._rb(st, x, memo, d) if not isinstance(x, (str, bytes)) and x is not None else x for x in v)
            return v
        r = memo.get(v)
        if r is not None:
            return r
        if d > 200:
            raise Stop('deep readback')
        o = v.op
        if o in ('seq', 'agg') and is_const(v) and not (o == 'seq' and ('sym', v) in st.mem):
            return v
        if o == 'ref':
            memo[v] = mk('cyc')
            if v.a[0][0] == 'a' and not v.a[1]:
                r = e.alloc_content(v.a[0])
                if is_const(r):
                    memo[v] = r
                    return r
            r = e._rb(st, e.read(st, v.a[0], v.a[1]), memo, d + 1)
        elif o == 'dyn':
            r = mk('dynv', e._rb(st, v.a[0], memo, d + 1), e.types[v.a[1]]['s'])
        elif o == 'dynbox':
            r = mk('dynv', e._rb(st, v.a[0], memo, d + 1), e.types[v.a[1]]['s'])
        elif o in ('agg', 'it', 'fmtarg', 'fmtargs'):
            r = mk(o, *[e._rb(st, x, memo, d + 1) if isT(x) else x for x in v.a])
        elif o == 'seq':
            if all(x[0] == 's' or x[0] == 'l' and all(isinstance(y, int) for y in x[1]) for x in v.a) and ('sym', v) not in st.mem:
                r = v
            else:
                r = mkseq([(x[0], tuple(e._rb(st, y, memo, d + 1) for y in x[1])) if x[0] == 'l' else
                           (x[0], e._rb(st, x[1], memo, d + 1), x[2]) if x[0] == 'r' else x for x in v.a])
        else:
            m = st.mem.get(('sym', v))
            r = v if m is None else e._rb(st, m, memo, d + 1)
        memo[v] = r
        return r

    # ------------------------------------------------------------------ rewriting
    def rewrite(e, t, f, memo, st=None):
        if not isT(t):
            if isinstance(t, tuple):
                return tuple(e.rewrite(x, f, memo, st) if isT(x) or isinstance(x, tuple) else x for x in t)
            return t
        if is_const(t):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        r = f(t)
        if r is None:
            r = e.rebuild(t, lambda x: e.rewrite(x, f, memo, st), st)
            if isT(r) and r is not t:
                r2 = f(r)
                if r2 is not None:
                    r = r2
        memo[t] = r
        return r

    def rebuild(e, t, g, st=None):
        o = t.op
        if o in ('sym', 'uninit', 'fn', 'fnid', 'const', 'ref', 'dyn', 'map', 'ix'):
            if o == 'ix':
                n = g(t.a[0])
                if n is not t.a[0]:
                    return mk_ix(n, t.a[1])
            return t
        if o == 'lin':
            r = t.a[0]
            for x, k in t.a[1]:
                r = add(r, mulc(g(x), k))
            return r
        if o in ('le', 'ieq'):
            r = 0
            for x, k in t.a[0]:
                r = add(r, mulc(g(x), k))
            return le0(sub(r, t.a[1])) if o == 'le' else eq0(sub(r, t.a[1]))
        if o == 'not':
            return b_not(g(t.a[0]))
        if o == 'and':
            return b_and(g(t.a[0]), g(t.a[1]))
        if o == 'seq':
            ss = []
            for s in t.a:
                if s[0] == 'l':
                    ss.append(('l', tuple(g(x) for x in s[1])))
                elif s[0] == 's':
                    S = g(s[1])
                    lo, hi = g(s[2]), g(s[3])
                    if S is s[1]:
                        ss.append(('s', S, lo, hi))
                    else:
                        v = e.slice(st or EMPTYST, S, lo, hi)
                        ss.extend(segs(v))
                else:
                    ss.append(('r', g(s[1]), g(s[2])))
            return mkseq(ss)
        if o == 'at':
            S, i = g(t.a[0]), g(t.a[1])
            if S is t.a[0] and i is t.a[1]:
                return t
            r = e.elem(st or EMPTYST, S, i)
            return e.carry(t, r)
        if o == 'len':
            S = g(t.a[0])
            return t if S is t.a[0] else slen(S)
        if o == 'fld':
            v = g(t.a[0])
            if v is t.a[0]:
                return t
            return e.carry(t, e.rd1(st or EMPTYST, v, ('f', t.a[1], t.a[2], None)))
        if o == 'bits':
            bs = [g(x) for x in t.a]
            if all(x is y for x, y in zip(bs, t.a)):
                return t
            return from_bits(bs)
        if o == 'bit':
            v = g(t.a[0])
            if v is t.a[0]:
                return t
            return to_bits(v, t.a[1] + 1)[t.a[1]]
        if o == 'disc':
            v = g(t.a[0])
            if v is t.a[0]:
                return t
            return e.carry(t, mk('disc', v))
        if o == 'tab':
            n, ix, body = t.a
            n2 = g(n)
            ix2 = g(ix)
            return mk_tab(n2, ix2, g(body))
        args = tuple(g(x) if isT(x) or isinstance(x, tuple) else x for x in t.a)
        if args == t.a:
            return t
        r = mk(o, *args)
        return e.carry(t, r)

    def carry(e, a, b):
        if isT(b):
            for D in (RANGE, LEN, VTY):
                if a in D and b not in D and b.op not in ('lin', 'seq', 'agg'):
                    D[b] = D[a]
        return b

    def subst(e, t, m):
        if not isT(t):
            return t
        return e.rewrite(t, lambda x: m.get(x), {})

    def canon(e, st, t):
        """rewrite with what the state knows: point values and known variants"""
        def f(x):
            if x.op in ('lin', 'sym', 'at', 'fld', 'len', 'call', 'vcall', 'bits', 'ix', 'disc', 'bit') and (x in RANGE or x.op == 'lin'):
                p = st.point(x)
                if isinstance(p, int):
                    return p
            if x.op == 'bits':
                lo = simp_bits(st, x)
                if lo is not x:
                    return lo
            return None

        memo = {}

        def leaf(x):
            """canonical form of an opaque term whose parts are canonical already"""
            r = f(x)
            if r is not None:
                return r
            v = e.variant(st, x) if x.op not in ('seq', 'lin', 'ref', 'agg') else None
            if v is not None and x in VTY:
                ty = e.types[VTY[x]]
                if ty['k'] == 'adt' and ty['kind'] == 'enum':
                    n = len(ty['v'][v]['f'])
                    return mk('agg', ty['path'], v, *[leaf(e.note_ty(mk('fld', x, v, i), ty['v'][v]['f'][i][1])) for i in range(n)])
            return x

        def f2(x):
            if x.op == 'agg':
                return None
            if x.op == 'fld' and isT(x.a[0]) and x.a[0].op not in ('agg', 'seq', 'ite'):
                b = x.a[0]
                b2 = e.rewrite(b, f2, memo, st) if b.op == 'fld' else e.rebuild(b, lambda y: e.rewrite(y, f2, memo, st), st)
                if isT(b2) and b2.op == 'agg':
                    b2 = b if b.op == 'fld' else b2
                if b2 is not b:
                    x2 = e.carry(x, e.rd1(st, b2, ('f', x.a[1], x.a[2], None)))
                    if not isT(x2) or x2.op != 'fld':
                        return x2 if isT(x2) else x2
                    x = x2
                return leaf(x)
            r = leaf(x)
            return None if r is x else r
        r = e.rewrite(t, f2, memo, st)
        def whole(x):
            # all of an opaque sequence whose length the state knows
            if x.op == 'seq':
                ss = None
                for i, s in enumerate(x.a):
                    if s[0] == 's' and s[2] == 0 and isinstance(s[3], int) and isT(s[1]) and isT(slen(s[1])) and st.point(slen(s[1])) == s[3]:
                        ss = ss or list(x.a)
                        ss[i] = ('s', s[1], 0, slen(s[1]))
                return mkseq(ss) if ss else None
            return e.collapse(x)
        r = e.rewrite(r, whole, {}, st)
        return r

    def collapse(e, x):
        """struct rebuilt from all fields of one opaque struct -> that struct"""
        if x.op == 'agg' and len(x.a) > 2:
            f0 = x.a[2]
            if isT(f0, 'fld') and f0.a[2] == 0 and f0.a[1] == x.a[1]:
                S = f0.a[0]
                if S in VTY:
                    ty = e.types[VTY[S]]
                    if e.agg_name(VTY[S]) == x.a[0] and ty.get('kind') != 'enum':
                        for i, y in enumerate(x.a[2:]):
                            if not (isT(y, 'fld') and y.a[0] is S and y.a[2] == i):
                                return None
                        return S
        return None

    def variant(e, st, v):
        if isT(v, 'agg'):
            return v.a[1]
        r = st.var.get(v)
        if r is not None:
            return r
        t = VTY.get(v)
        if t is not None:
            ty = e.types[t]
            if ty['k'] == 'adt' and ty['kind'] == 'enum':
                n = len(ty['v'])
                ex = st.nvar.get(v, ())
                left = [i for i in range(n) if i not in ex]
                if len(left) == 1:
                    return left[0]
        return None

    # ------------------------------------------------------------------ decisions
    def decide(e, st, b):
        """[(state, 0/1)]"""
        r = bool_facts(st, b)
        if r is not None:
            return [(st, r)]
        if b.op == 'not':
            return [(s, 1 - v) for s, v in e.decide(st, b.a[0])]
        if b.op == 'and':
            out = []
            for s, v in e.decide(st, b.a[0]):
                if v == 0:
                    out.append((s, 0))
                else:
                    out.extend(e.decide(s, b.a[1]))
            return out
        if b.op == 'ieq' and len(b.a[0]) == 1 and isT(b.a[0][0][0], 'addr') and b.a[1] == 0:
            p = b.a[0][0][0].a[0]
            n = mk('isnull', p)
            RANGE[n] = (0, 1)
            return e.decide(st, n)
        if b.op == 'ieq' and len(b.a[0]) == 1 and isT(b.a[0][0][0], 'disc'):
            d = b.a[0][0][0]
            out = []
            for s, v in e.split_variant(st, d.a[0]):
                dv = e.disc_of(VTY[d.a[0]], v)
                out.append((s, 1 if dv == b.a[1] else 0))
            return out
        out = []
        for v in (1, 0):
            n = assume(st, b, v)
            if n is not None:
                out.append((n, v))
        return out

    def disc_of(e, t, v):
        ty = e.types[t]
        d = int(ty['v'][v]['d'])
        dt = ty.get('dty')
        if dt is not None:
            w = e.types[dt].get('w')
            if w and e.types[dt].get('sg'):
                d &= (1 << w) - 1
                if d >> (w - 1):
                    d -= 1 << w
        return d

    def assume_variant(e, st, v, i):
        n = st.copy()
        n.var[v] = i
        n.note(mk('isv', v, i), 1)
        d = mk('disc', v)
        if VTY.get(v) is not None:
            n.lin[((d, 1),)] = (e.disc_of(VTY[v], i),) * 2
        return n

    def split_variant(e, st, v):
        """[(state, variant index)] for an enum value"""
        k = e.variant(st, v)
        if k is not None:
            return [(st, k)]
        t = VTY.get(v)
        if t is None:
            raise Stop('variant of untyped %r' % (v,))
        ty = e.types[t]
        out = []
        if v.op == 'call' and v.a[0] == 'cmp' and len(v.a) == 3 and len(ty['v']) == 3:
            a, b = v.a[1], v.a[2]
            for i, c in enumerate((lt(a, b), eq0(sub(a, b)), lt(b, a))):
                for s, yes in e.decide(st, c):
                    if yes:
                        s = s.copy()
                        s.var[v] = i
                        s.lin[((mk('disc', v), 1),)] = (e.disc_of(t, i),) * 2
                        out.append((s, i))
            return out
        for i in range(len(ty['v'])):
            if i in st.nvar.get(v, ()):
                continue
            if ty['v'][i].get('uninh'):
                continue
            if e.uninhabited_variant(ty, i):
                continue
            out.append((e.assume_variant(st, v, i), i))
        return out

    def uninhabited_variant(e, ty, i):
        for f in ty['v'][i]['f']:
            ft = e.types[f[1]]
            if ft['k'] == 'never' or ft['k'] == 'adt' and ft['kind'] == 'enum' and not ft['v']:
                return True
        return False

    # ------------------------------------------------------------------ places and operands
    def local_ty(e, fr, l):
        return fr.body['locals'][l]

    def place(e, fr, pl, st):
        """('m', oid, path, ty) or ('v', value, ty)"""
        l, proj = pl
        oid = ('L', fr.id, l)
        ty = fr.body['locals'][l]
        kind = 'm'
        path = ()
        val = None
        variant = 0
        for el in proj:
            k = el[0]
            if k == 'd':
                if kind == 'm':
                    if e.is_box(ty):
                        it = e.types[ty]['args'][0]
                        if e.types[it]['k'] == 'dyn':
                            pass
                        ty = it
                        continue
                    v = e.read(st, oid, path)
                else:
                    v = val
                    kind = 'm'
                if not isT(v):
                    raise Stop('deref of integer %r' % (v,))
                oid, path = e.target(v)
                ty = e.inner(ty)
                variant = 0
            elif k == 'f':
                if kind == 'v':
                    ty = el[2]
                    continue
                if e.is_box(ty):
                    kind = 'v'
                    val = st.mem.get(oid) if not path else None
                    if isT(val, 'boxat'):
                        val = e.mkref(*val.a)
                    else:
                        val = e.mkref(oid, path)
                    ty = el[2]
                    continue
                tt = e.types[ty]
                if tt['k'] == 'adt' and tt['path'] in TRANSPARENT:
                    ty = el[2]
                    continue
                path = path + (('f', variant, el[1], ty),)
                ty = el[2]
                variant = 0
            elif k == 'v':
                variant = el[1]
            elif k == 'i':
                i = e.read(st, ('L', fr.id, el[1]), ())
                path = path + (('i', i),)
                ty = e.types[ty]['e']
            elif k == 'c':
                off, _, fromend = el[1:4]
                i = off
                if fromend:
                    n = slen(e.read(st, oid, path)) if e.types[ty]['k'] != 'array' else e.types[ty]['n']
                    i = sub(n, off)
                path = path + (('i', i),)
                ty = e.types[ty]['e']
            elif k == 's':
                lo, to, fromend = el[1:4]
                n = e.types[ty]['n'] if e.types[ty]['k'] == 'array' else slen(e.read(st, oid, path))
                hi = sub(n, to) if fromend else to
                path = path + (('s', lo, hi),)
                if e.types[ty]['k'] == 'array':
                    ty = e.slice_ty(e.types[ty]['e']) or ty
            elif k == 'o':
                ty = el[1]
            else:
                raise Stop('place ' + k)
        if kind == 'v':
            return ('v', val, ty)
        return ('m', oid, path, ty)

    def slice_ty(e, et):
        c = getattr(e, '_sl', None)
        if c is None:
            c = e._sl = {v['e']: k for k, v in e.types.items() if v['k'] == 'slice'}
        return c.get(et)

    def rplace(e, fr, pl, st):
        p = e.place(fr, pl, st)
        if p[0] == 'v':
            return p[1], p[2]
        v = e.read(st, p[1], p[2])
        return e.note_ty(v, p[3]), p[3]

    def oper(e, fr, o, st):
        """value, type"""
        if o[0] in ('cp', 'mv'):
            return e.rplace(fr, o[1], st)
        if o[0] == 'k':
            return e.const(o[1]), o[1]['ty']
        if o[0] == 'rc':
            return (1 if 'Overflow' in o[1] else 0), None
        raise Stop('operand')

    def wplace(e, fr, pl, st, v):
        if not pl[1]:
            st.mem[('L', fr.id, pl[0])] = v
            return
        p = e.place(fr, pl, st)
        if p[0] == 'v':
            raise Stop('write through box field')
        e.write(st, p[1], p[2], v)

    # ------------------------------------------------------------------ arithmetic
    def arith(e, st, op, a, b, ty, checked=False):
        """(value, overflow boolean term) of an integer operation of type ty"""
        ty_ = e.types[ty]
        if ty_['k'] == 'bool':
            if op == 'BitAnd':
                return b_and(a, b), 0
            if op == 'BitOr':
                return b_or(a, b), 0
            if op == 'BitXor':
                if isinstance(b, int):
                    return (b_not(a) if b else a), 0
                if isinstance(a, int):
                    return (b_not(b) if a else b), 0
                return b_not(mk('beq', *sorted((a, b), key=lambda x: x.id))) if a is not b else 0, 0
        a = st.point(a)
        b = st.point(b)
        lo, hi = e.int_range(ty)
        w = e.width(ty)
        if not (isinstance(a, int) or isT(a)) or isT(a, 'uninit') or isT(b, 'uninit'):
            raise Stop('arithmetic on uninitialised')
        if op in ('Add', 'Sub', 'Mul'):
            if op == 'Add':
                r = add(a, b)
            elif op == 'Sub':
                r = sub(a, b)
            elif isinstance(a, int):
                r = mulc(b, a)
            elif isinstance(b, int):
                r = mulc(a, b)
            else:
                r = mk('mul', *sorted((a, b), key=lambda x: x.id))
                l1, h1 = st.bounds(a)
                l2, h2 = st.bounds(b)
                c = [x * y for x in (l1, h1) for y in (l2, h2)]
                if r not in RANGE:
                    RANGE[r] = (min(c), max(c))
            if isinstance(r, int):
                if lo <= r <= hi:
                    return r, 0
                m = r & ((1 << w) - 1)
                if lo < 0 and m > hi:
                    m -= 1 << w
                return m, 1
            l, h = st.bounds(r)
            ov = 0
            if h > hi:
                ov = b_or(ov, lt(hi, r))
            if l < lo:
                ov = b_or(ov, lt(r, lo))
            if ov == 0:
                return r, 0
            if checked:
                return r, ov
            t = mk('wrap', w, lo, r)
            RANGE[t] = (lo, hi)
            return t, ov
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if isinstance(a, int) and isinstance(b, int):
                m = (1 << w) - 1
                x, y = a & m, b & m
                r = {'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}[op]
                if lo < 0 and r > hi:
                    r -= 1 << w
                return r, 0
            if lo < 0:
                t = mk('call', op, *sorted((a, b), key=str))
                RANGE[t] = (lo, hi)
                return t, 0
            if op == 'BitAnd' and w == 64:
                for p, q in ((a, b), (b, a)):
                    if isinstance(q, int) and 0 < q < hi and q & (q + 1) == 0 and not isT(p, 'bits') and st.bounds(p)[1] >= 1 << 40:
                        # of a size: the same as a remainder
                        return e.arith(st, 'Rem', p, q + 1, ty)
            x = to_bits(a, w, st)
            y = to_bits(b, w, st)
            out = []
            for p, q in zip(x, y):
                if op == 'BitAnd':
                    out.append(b_and(p, q) if isinstance(p, int) or isinstance(q, int) or p is q else bitop('band', p, q))
                elif op == 'BitOr':
                    if p == 0:
                        out.append(q)
                    elif q == 0:
                        out.append(p)
                    elif p == 1 or q == 1:
                        out.append(1)
                    elif p is q:
                        out.append(p)
                    else:
                        out.append(bitop('bor', p, q))
                else:
                    if isinstance(p, int) and isinstance(q, int):
                        out.append(p ^ q)
                    elif p == 0:
                        out.append(q)
                    elif q == 0:
                        out.append(p)
                    elif p is q:
                        out.append(0)
                    elif p == 1 or q == 1:
                        out.append(flip(q if p == 1 else p))
                    else:
                        out.append(bitop('bxor', p, q))
            return from_bits(out, st), 0
        if op in ('Shl', 'Shr'):
            if isinstance(b, int):
                ov = 0 if 0 <= b < w else 1
                b %= w
                if isinstance(a, int):
                    if op == 'Shr':
                        return a >> b, ov
                    r = (a << b) & ((1 << w) - 1)
                    if lo < 0 and r > hi:
                        r -= 1 << w
                    return r, ov
                if lo < 0:
                    raise Stop('signed shift')
                if op == 'Shl' and w > 32:
                    l, h = st.bounds(a)
                    if l >= 0 and h <= hi >> b:
                        return mulc(a, 1 << b), ov
                if op == 'Shr' and w == 64 and b and not isT(a, 'bits') and st.bounds(a)[1] >= 1 << 40:
                    # of a size: the same as a division
                    return e.arith(st, 'Div', a, 1 << b, ty)[0], ov
                x = to_bits(a, w, st)
                r = ([0] * b + x)[:w] if op == 'Shl' else x[b:]
                return from_bits(r, st), ov
            l, h = st.bounds(b)
            t = mk('call', op, a, b)
            RANGE[t] = (lo, hi)
            return t, (0 if 0 <= l and h < w else b_or(lt(b, 0), le(w, b)))
        if op in ('Div', 'Rem'):
            if isinstance(a, int) and isinstance(b, int):
                if b == 0:
                    return 0, 0
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                return (q, 0) if op == 'Div' else (a - q * b, 0)
            if isinstance(b, int) and b > 0:
                l, h = st.bounds(a)
                if l >= 0:
                    if b & (b - 1) == 0 and w <= 64 and not (isT(a, 'lin')) and (h != INF and h < (1 << 40)):
                        x = to_bits(a, w, st)
                        k = b.bit_length() - 1
                        return (from_bits(x[k:], st), 0) if op == 'Div' else (from_bits(x[:k], st), 0)
                    if h < b:
                        return (0, 0) if op == 'Div' else (a, 0)
                    q = mk('div', a, b)
                    RANGE.setdefault(q, (max(0, l) // b, h // b if h != INF else INF))
                    if op == 'Div':
                        return q, 0
                    # a - b*q, in 0..b-1
                    r = mk('rem', a, b)
                    RANGE.setdefault(r, (0, b - 1))
                    return r, 0
            t = mk('call', op, a, b)
            RANGE[t] = (lo, hi)
            return t, 0
        raise Stop('arith ' + op)

    def compare(e, st, op, a, b, ty=None):
        if a is UNINIT or b is UNINIT:
            return UNINIT
        if isT(a) and a.op in ('ref', 'dyn') or isT(b) and b.op in ('ref', 'dyn') or (isT(a) and a not in RANGE and a.op not in ('lin', 'bits', 'bit', 'len')):
            # pointers and opaque values
            if op in ('Eq', 'Ne'):
                if a is b or a == b:
                    r = 1
                elif isT(a) and a.op in ('ref', 'dyn') and b == 0 or isT(b) and b.op in ('ref', 'dyn') and a == 0:
                    r = 0
                else:
                    r = mkeq(a, b)
                return r if op == 'Eq' else b_not(r)
            if isT(a, 'ref') or isT(b, 'ref'):
                raise Stop('pointer order')
        if ty is not None and e.types[ty]['k'] == 'bool' and not (isinstance(a, int) and isinstance(b, int)):
            if op in ('Eq', 'Ne'):
                r, _ = e.arith(st, 'BitXor', a, b, ty)
                return r if op == 'Ne' else b_not(r)
        d = sub(a, b)
        if op == 'Eq':
            return bitcond(eq0(d))
        if op == 'Ne':
            return b_not(bitcond(eq0(d)))
        if op == 'Le':
            return le0(d)
        if op == 'Lt':
            return le0(add(d, 1))
        if op == 'Ge':
            return le0(mulc(d, -1))
        if op == 'Gt':
            return le0(add(mulc(d, -1), 1))
        raise Stop('compare ' + op)

    def cast_int(e, st, v, src, dst):
        ts, td = e.types[src], e.types[dst]
        if ts['k'] == 'adt':      # fieldless enum
            v = e.disc(st, v, src)
            lo0, hi0 = -INF, INF
        v = st.point(v) if isT(v) else v
        lo, hi = e.int_range(dst)
        w = e.width(dst)
        if isinstance(v, int):
            m = v & ((1 << w) - 1)
            return m - (1 << w) if lo < 0 and m > hi else m
        l, h = st.bounds(v)
        if v not in RANGE and v.op not in ('lin',):
            r = e.int_range(src)
            if r:
                RANGE[v] = r
                l, h = r
        if l >= lo and h <= hi:
            return v
        if lo == 0 and l >= 0 and not isT(v, 'disc'):
            return from_bits(to_bits(v, w, st), st)
        t = mk('wrap', w, lo, v)
        RANGE[t] = (lo, hi)
        return t

    def disc(e, st, v, ty):
        if isT(v, 'agg'):
            if e.types[ty]['k'] != 'adt' or e.types[ty]['kind'] != 'enum':
                return 0
            return e.disc_of(ty, v.a[1])
        if isT(v, 'uninit'):
            return UNINIT           # left over by the optimiser in the standard library's bodies; deciding on it stops
        if isinstance(v, int):
            return v
        e.note_ty(v, ty)
        k = e.variant(st, v)
        if k is not None:
            return e.disc_of(VTY.get(v, ty), k)
        t = mk('disc', v)
        if t not in RANGE:
            ds = [e.disc_of(ty, i) for i in range(len(e.types[ty]['v']))]
            RANGE[t] = (min(ds), max(ds)) if ds else (0, 0)
        return t

    def rvalue(e, fr, r, st, dty):
        k = r[0]
        if k == 'use':
            if r[1][0] == 'cp':
                p = e.place(fr, r[1][1], st)
                if p[0] == 'm' and p[3] is not None and e.is_box(p[3]):
                    return mk('boxat', p[1], p[2])      # compiler-made alias of a box, to dereference it
            return e.oper(fr, r[1], st)[0]
        if k in ('ref', 'addr'):
            p = e.place(fr, r[2] if k == 'ref' else r[1], st)
            if p[0] == 'v':
                return mk('ref', ('c', p[1]), ())
            oid, path = p[1], p[2]
            return e.mkref(oid, path)
        if k == 'agg':
            kv, ops = r[1], r[2]
            vs = [e.oper(fr, o, st)[0] for o in ops]
            if kv[0] == 'array':
                return lits(vs)
            if kv[0] == 'tuple':
                return mk('agg', '()', 0, *vs)
            if kv[0] == 'adt':
                ty = e.types[kv[1]]
                if ty['path'] in TRANSPARENT:
                    return vs[0] if vs else UNIT
                if e.on_make:
                    e.on_make(st, ty['path'], kv[2], vs)
                return mk('agg', ty['path'], kv[2], *vs)
            if kv[0] == 'closure':
                return mk('agg', 'closure:%d' % kv[1], 0, *vs)
            if kv[0] == 'rawptr':
                return vs[0]
            raise Stop('aggregate')
        if k in ('bin', 'cbin'):
            op = r[1]
            a, ta = e.oper(fr, r[2], st)
            b, tb = e.oper(fr, r[3], st)
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return e.compare(st, op, a, b, ta)
            if op.endswith('WithOverflow') or k == 'cbin':
                v, ov = e.arith(st, op.replace('WithOverflow', ''), a, b, ta, True)
                return mk('agg', '()', 0, v, ov)
            op = op.replace('Unchecked', '')
            if op == 'Cmp':
                return mk('call', 'cmp', a, b)
            if op == 'Offset':
                return mk('offset', a, b)
            return e.arith(st, op, a, b, ta)[0]
        if k == 'un':
            a, ta = e.oper(fr, r[2], st)
            if r[1] == 'Not':
                if e.types[ta]['k'] == 'bool':
                    return b_not(a)
                lo, hi = e.int_range(ta)
                if lo == 0:
                    return sub(hi, a)
                return sub(-1, a)
            if r[1] == 'Neg':
                return mulc(a, -1)
            if r[1] == 'PtrMetadata':
                tt = e.types[ta]
                if e.types[tt['e']]['k'] in ('slice', 'str'):
                    return slen(e.load(st, a))
                return mk('meta', a)
            raise Stop('unary ' + r[1])
        if k == 'cast':
            v, ts = e.oper(fr, r[2], st)
            return e.cast(st, r[1], v, ts, r[3])
        if k == 'disc':
            v, t = e.rplace(fr, r[1], st)
            return e.disc(st, v, t)
        if k == 'len':
            v, t = e.rplace(fr, r[1], st)
            return slen(v)
        if k == 'rep':
            v, _ = e.oper(fr, r[1], st)
            return rep(v, r[2])
        raise Stop('rvalue ' + k)

    def cast(e, st, kind, v, ts, td):
        if kind == 'IntToInt':
            return e.cast_int(st, v, ts, td)
        if kind == 'PC:Unsize':
            a, b = ts, td
            for _ in range(4):
                if e.types[b]['k'] == 'dyn' or e.types[b]['k'] in ('slice', 'str'):
                    break
                a, b = e.inner(a), e.inner(b)
                if a is None or b is None:
                    break
            if b is not None and e.types[b]['k'] == 'dyn':
                if e.types[a]['k'] == 'dyn':
                    return v
                e.unsized_note.append((a, b))
                if e.is_box(ts):
                    return mk('dynbox', v, a)
                return mk('dyn', v, a)
            if a is not None and e.types[a]['k'] == 'array':
                p = e.rb(st, v)
                if isT(p) and p.op in ('sym', 'fld', 'at'):
                    e.note_ty(p, a)
            return v
        if kind.startswith('PC:ReifyFnPointer') or kind.startswith('PC:UnsafeFnPointer'):
            return v
        if kind.startswith('PC:ClosureFnPointer'):
            return v
        if kind.startswith('PC:') or kind in ('PtrToPtr', 'FnPtrToPtr', 'BoxDerefTransmute'):
            return v
        if kind == 'Transmute':
            a, b = e.types[ts], e.types[td]
            if a['k'] in ('ptr', 'ref') and b['k'] == 'int' and isT(v):
                return address(v)
            if a['k'] == 'array' and b['k'] == 'int' and isT(v):
                return e.int_from_bytes(st, v, 'little')
            if a['k'] == 'int' and b['k'] == 'array':
                return e.int_to_bytes(st, v, b['n'], 'little')
            if b['k'] == 'int' and isinstance(v, int):
                lo, hi = e.int_range(td)
                m = v & ((1 << b['w']) - 1)
                return m - (1 << b['w']) if lo < 0 and m > hi else m
            return v
        if kind in ('PointerExposeAddress', 'PointerWithExposedProvenance'):
            return address(v) if isT(v) else v
        raise Stop('cast ' + kind)

    def int_from_bytes(e, st, v, order):
        n = slen(v)
        bs = [e.note_byte(e.elem(st, v, i)) for i in range(n)]
        if order == 'big':
            bs.reverse()
        bits = []
        for b in bs:
            bits.extend(to_bits(b, 8, st))
        return from_bits(bits, st)

    def note_byte(e, x):
        if isT(x) and x not in RANGE and x.op not in ('lin',):
            RANGE[x] = (0, 255)
        return x

    def int_to_bytes(e, st, v, n, order):
        bits = to_bits(v, 8 * n, st)
        bs = [from_bits(bits[8 * i:8 * i + 8], st) for i in range(n)]
        if order == 'big':
            bs.reverse()
        return lits(bs)

    # ------------------------------------------------------------------ functions
    def fkey(e, f):
        """model key of a function record"""
        k = f.get('_key')
        if k is None:
            k = f.get('tm') or strip_generics(f['def'])
            k = e.norm(k)
            k = k.replace('core::slice::<impl [T]>::', 'slice::').replace('core::str::<impl str>::', 'str::')
            k = k.replace('std::slice::<impl [T]>::', 'slice::').replace('std::str::<impl str>::', 'str::')
            k = k.replace('alloc::slice::<impl [T]>::', 'slice::').replace('alloc::str::<impl str>::', 'str::')
            if '<impl ' in k:
                k = IMPLRE(k)
            f['_key'] = k
        return k

    def selfname(e, f):
        return e.norm(f['name'])

    def find(e, name):
        """function ids whose normalised pretty name is name"""
        return e.byname.get(name) or e.bystrip.get(name, [])

    def fn(e, name):
        r = e.find(name)
        if not r:
            raise Stop('anchor not found: ' + name)
        return r[0]

    def run(e, fid, args, st=None):
        """outcomes of calling fid; top level"""
        st = st or St()
        return e.call_fn(fid, args, st)

    def call_fn(e, fid, args, st):
        f = e.fns[fid]
        b = f.get('body')
        if b is None:
            raise Stop('no body: ' + f['name'])
        if len(e.stack) > 120:
            raise Stop('call depth')
        e.nframe += 1
        fr = Frame()
        fr.id = e.nframe
        fr.f = f
        fr.body = b
        st = st.copy()
        argc = b['argc']
        if len(args) != argc:
            if b.get('spread') and len(args) >= argc:
                n = argc - 1
                args = list(args[:n]) + [mk('agg', '()', 0, *args[n:])]
            else:
                raise Stop('arity of %s: %d for %d' % (f['name'], len(args), argc))
        for i, a in enumerate(args):
            st.mem[('L', fr.id, i + 1)] = e.note_ty(a, b['locals'][i + 1])
        if f['ws']:
            e.analysed[f['_n'] if '_n' in f else e.norm(f['name'])] = e.analysed.get(e.norm(f['name']), 0) + 1
        e.stack.append(f)
        try:
            outs = e.exec(fr, 0, st, None, None)
        finally:
            e.stack.pop()
        res = []
        for o in outs:
            if o.k == 'ret':
                for l in e.undropped(b):
                    go = e.abandon(fr, o.st, l)
                    o.v = go(o.v) if go and isT(o.v) else o.v
                for l in range(len(b['locals'])):
                    o.st.mem.pop(('L', fr.id, l), None)
            res.append(o)
        return res

    def undropped(e, b):
        """locals that hold an owner without dropping it -> kind of allocation"""
        r = b.get('_undropped')
        if r is None:
            from . import models
            r = b['_undropped'] = {}
            for i, t in enumerate(b['locals']):
                ty = e.types[t]
                if (ty.get('path') or '').endswith('::ManuallyDrop') and ty['args']:
                    k = models.owner_kind(e, ty['args'][0])
                    if k:
                        r[i] = k
        return r

    def abandon(e, fr, st, l):
        """local l goes out of scope"""
        k = e.undropped(fr.body).get(l)
        x = st.mem.get(('L', fr.id, l))
        if k and isT(x):
            return e.escape(st, [('L', fr.id, l)], k, x)

    def where(e):
        for f in reversed(e.stack):
            if f['ws']:
                return '%s (%s)' % (e.norm(f['name']), f.get('file', ''))
        return '?'

    def trace(e):
        return ' > '.join(e.norm(f['name']).split('::<')[0] for f in e.stack if f['ws'])

    def loop_info(e, b):
        r = b.get('_loops')
        if r is not None:
            return r
        succ = []
        for st, t, l in b['blocks']:
            k = t[0]
            if k == 'goto':
                succ.append([t[1]])
            elif k == 'switch':
                succ.append([x[1] for x in t[2]] + ([t[3]] if t[3] is not None else []))
            elif k == 'drop':
                succ.append([t[2]])
            elif k == 'call':
                succ.append([t[5]] if t[5] is not None else [])
            elif k == 'assert':
                succ.append([t[4]])
            else:
                succ.append([])
        # dominators by simple iteration over reachable blocks
        order = []
        seen = set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            n, it = stack[-1]
            for m in it:
                if m not in seen:
                    seen.add(m)
                    stack.append((m, iter(succ[m])))
                    break
            else:
                order.append(n)
                stack.pop()
        order.reverse()
        pred = {n: [] for n in order}
        for n in order:
            for m in succ[n]:
                pred[m].append(n)
        allb = set(order)
        dom = {n: allb for n in order}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for n in order:
                if n == 0:
                    continue
                d = None
                for p in pred[n]:
                    d = dom[p] if d is None else d & dom[p]
                d = (d or set()) | {n}
                if d != dom[n]:
                    dom[n] = d
                    ch = True
        loops = {}
        for n in order:
            for m in succ[n]:
                if m in dom[n]:
                    body = loops.setdefault(m, {m})
                    work = [n]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work.extend(pred[x])
        b['_loops'] = loops
        return loops

    def exec(e, fr, bb, st, region, header):
        loops = e.loop_info(fr.body)
        blocks = fr.body['blocks']
        work = [(bb, st, True)]
        outs = []
        while work:
            bb, st, first = work.pop()
            if not first:
                if header is not None and bb == header:
                    outs.append(Out('back', bb, st))
                    continue
                if region is not None and bb not in region:
                    outs.append(Out('goto', bb, st))
                    continue
            if bb in loops and not (first and bb == header):
                for o in e.run_loop(fr, bb, loops[bb], st):
                    if o.k == 'goto':
                        work.append((o.v, o.st, False))
                    else:
                        outs.append(o)
                continue
            e.steps += 1
            if e.steps > e.maxsteps:
                raise Stop('step limit in ' + fr.f['name'])
            stmts, term, line = blocks[bb]
            for s in stmts:
                if s[0] == 'a':
                    pl = s[1]
                    dty = None
                    v = e.rvalue(fr, s[2], st, dty)
                    e.wplace(fr, pl, st, v)
                elif s[0] == 'dead':
                    if e.keepdead:
                        continue
                    e.abandon(fr, st, s[1])
                    st.mem.pop(('L', fr.id, s[1]), None)
                elif s[0] == 'sd':
                    p = e.place(fr, s[1], st)
                    v = e.read(st, p[1], p[2])
                    n = len(e.types[p[3]]['v'][s[2]]['f'])
                    fs = list(v.a[2:]) if isT(v, 'agg') and v.a[1] == s[2] else [UNINIT] * n
                    e.write(st, p[1], p[2], mk('agg', e.types[p[3]]['path'], s[2], *fs))
                elif s[0] == 'cno':
                    raise Stop('copy_nonoverlapping')
            k = term[0]
            if k == 'goto':
                work.append((term[1], st, False))
            elif k == 'ret':
                outs.append(Out('ret', e.content(st, ('L', fr.id, 0)), st))
            elif k == 'switch':
                v, ty = e.oper(fr, term[1], st)
                for bb2, s2 in e.switch(st, v, ty, term[2], term[3]):
                    work.append((bb2, s2, False))
            elif k == 'assert':
                if term[3] == 'misaligned':          # pointers of a type are aligned for it
                    work.append((term[4], st, False))
                    continue
                c, _ = e.oper(fr, term[1], st)
                want = 1 if term[2] else 0
                for s2, b in e.decide(st, c):
                    if b == want:
                        work.append((term[4], s2, False))
                    else:
                        if term[3] == 'nullref':     # checked in debug builds only, and then not recoverable
                            s2 = s2.copy()
                            s2.event('ub', 'null pointer dereference', e.where())
                        outs.append(Out('panic', (term[3], e.where(), e.trace()), s2))
            elif k == 'drop':
                if e.drops:
                    e.do_drop(fr, term, st)
                work.append((term[2], st, False))
            elif k == 'call':
                for o in e.do_call(fr, term, st):
                    if o.k == 'ret':
                        if term[5] is not None:
                            work.append((term[5], o.st, False))
                    elif o.k == 'again':
                        # a filtered iterator passed over an element: one more round of the enclosing loop
                        if bb != header or any(x[0] == 'a' and x[2][0] != 'ref' for x in stmts):
                            raise Stop('filtered iterator over an unknown number of elements')
                        outs.append(Out('back', bb, o.st))
                    else:
                        outs.append(o)
            elif k in ('unreachable',):
                pass
            elif k in ('resume', 'abort'):
                outs.append(Out('panic', (k, e.where(), e.trace()), st))
            else:
                raise Stop('terminator ' + k)
            if len(outs) + len(work) > e.MAXOUT:
                raise Stop('too many paths in ' + fr.f['name'])
        return outs

    maxsteps = 3000000
    keepdead = False

    def switch(e, st, v, ty, branches, other):
        if isinstance(v, int):
            w = e.width(ty) if ty is not None else 128
            m = v & ((1 << w) - 1)
            for val, bb in branches:
                if int(val) == m:
                    return [(bb, st)]
            return [(other, st)]
        if isT(v, 'uninit'):
            raise Stop('switch on uninitialised value')
        k = e.types[ty]['k'] if ty is not None else 'int'
        if v.op == 'disc':
            x = v.a[0]
            out = []
            w = e.width(ty)
            for s, i in e.split_variant(st, x):
                d = e.disc_of(VTY[x], i) & ((1 << w) - 1)
                for val, bb in branches:
                    if int(val) == d:
                        out.append((bb, s))
                        break
                else:
                    out.append((other, s))
            return out
        if k == 'bool' or v.op in ('le', 'ieq', 'not', 'and', 'eq', 'exists'):
            out = []
            for s, b in e.decide(st, v):
                for val, bb in branches:
                    if int(val) == b:
                        out.append((bb, s))
                        break
                else:
                    out.append((other, s))
            return out
        out = []
        cur = st
        lo, hi = e.int_range(ty)
        w = e.width(ty)
        for val, bb in branches:
            n = int(val)
            if n > hi:
                n -= 1 << w
            nxt = None
            for s, b in e.decide(cur, bitcond(eq0(sub(v, n)))):
                if b:
                    out.append((bb, s))
                else:
                    nxt = s
            cur = nxt
            if cur is None:
                break
        if cur is not None and other is not None:
            out.append((other, cur))
        return out

    # ------------------------------------------------------------------ calls
    def do_call(e, fr, term, st):
        _, fop, fty, args, dest, target, atys, _ = term
        vals = []
        for a in args:
            v, t = e.oper(fr, a, st)
            vals.append(v)
        dty = None
        p = e.place_ty(fr, dest)
        dty = p
        ty = e.types.get(fty)
        if ty is not None and ty['k'] == 'fndef':
            outs = e.call_def(fty, vals, atys, dty, st)
        else:
            fv, _ = e.oper(fr, fop, st)
            outs = e.call_value(fv, vals, st, dty)
        for o in outs:
            if o.k == 'ret':
                e.note_ty(o.v, dty)
                e.wplace(fr, dest, o.st, o.v)
        return outs

    def place_ty(e, fr, pl):
        ty = fr.body['locals'][pl[0]]
        for el in pl[1]:
            if el[0] == 'd':
                ty = e.inner(ty)
            elif el[0] == 'f':
                ty = el[2]
            elif el[0] in ('i', 'c'):
                ty = e.types[ty]['e']
        return ty

    def call_def(e, fty, vals, atys, dty, st):
        e.calls += 1
        ty = e.types[fty]
        fid = ty.get('f')
        f = e.fns.get(fid) if fid else None
        if f is None:
            f = {'name': ty['def'], 'def': ty['def'], 'path': ty['path'], 'ws': False, 'args': ty['args'], 'kind': 'item', 'krate': ''}
        return e.call_rec(f, fid, vals, atys, dty, st)

    def call_rec(e, f, fid, vals, atys, dty, st):
        c = Call()
        c.f = f
        c.fid = fid
        c.args = vals
        c.atys = atys
        c.dty = dty
        key = e.fkey(f)
        c.key = key
        nm = strip_generics(e.norm(f['name']))
        h = e.boundaries.get(nm)
        if h is None and not f['ws']:
            h = e.boundaries.get(key)
        if h is not None:
            r = h(e, st, c)
            if r is not None:
                return r
        if not f['ws'] or 'body' not in f:
            h = e.models.get(key)
            if h is not None:
                r = h(e, st, c)
                if r is not None:
                    return r
        if f['kind'].startswith('virtual'):
            return e.call_virtual(f, key, vals, atys, dty, st)
        if 'body' in f:
            b = f['body']
            if '{closure' in f['path'] and f['kind'] == 'item' and len(vals) == 2 and b['argc'] != 2 or \
               '{closure' in f['path'] and f['kind'] == 'item' and len(vals) == 2 and e.is_tuple_ty(atys, 1):
                tup = vals[1]
                n = len(e.types[atys[1]]['e']) if atys and atys[1] is not None else b['argc'] - 1
                vals = [vals[0]] + [e.rd1(st, tup, ('f', 0, i, None)) for i in range(n)]
            if any(x is f for x in e.stack):
                return e.recursive(f, c, st)
            return e.call_fn(fid, vals, st)
        return e.opaque(key, c, st)

    def is_tuple_ty(e, atys, i):
        return atys is not None and atys[i] is not None and e.types[atys[i]]['k'] == 'tuple'

    def recursive(e, f, c, st):
        return e.opaque('rec:' + strip_generics(e.norm(f['name'])), c, st)

    def opaque(e, name, c, st, tag='call'):
        """uninterpreted call: a pure function of what its arguments designate"""
        e.opaque_calls[name] = e.opaque_calls.get(name, 0) + 1
        if e.on_opaque:
            e.on_opaque(name, c, st)
        a = tuple(e.rb(st, v) for v in c.args)
        t = mk(tag, name, *a)
        e.note_ty(t, c.dty)
        st = st.copy()
        for i, (v, ty) in enumerate(zip(c.args, c.atys or [])):
            if ty is not None and e.types[ty]['k'] == 'ref' and e.types[ty]['m'] and isT(v) and v.op != 'fn':
                m = mk('mut', t, i)
                e.note_ty(m, e.types[ty]['e'])
                old = e.load(st, v)
                if e.types[e.types[ty]['e']]['k'] == 'slice':
                    n = slen(old)
                    if isinstance(n, int):
                        LEN[m] = n
                e.store(st, v, m)
        rv = t
        if c.dty is not None:
            dt = e.types[c.dty]
            if dt['k'] == 'tuple' and not dt['e']:
                rv = UNIT
            if dt['k'] == 'never':
                return [Out('panic', (name, e.where(), e.trace()), st)]
        return [Out('ret', rv, st)]

    def call_virtual(e, f, key, vals, atys, dty, st):
        r = vals[0]
        conc = e.dyn_target(st, r)
        idx = int(f['kind'].split(':')[1])
        if conc is not None:
            ptr, t = conc
            tr = None
            for k, ent in e.vtables.items():
                tt, trn = k.split('|', 1)
                if int(tt) == t and e.norm(key).rsplit('::', 1)[0] == e.norm(trn) and ent:
                    fid = ent[idx]
                    break
            else:
                raise Stop('no vtable for %s %s' % (e.types[t]['s'], key))
            g = e.fns[fid]
            at = list(atys or [])
            return e.call_rec(g, fid, [ptr] + list(vals[1:]), at, dty, st)
        c = Call()
        c.f = f
        c.args = vals
        c.atys = atys
        c.dty = dty
        c.key = key
        h = e.models.get('dyn ' + key)
        if h:
            return h(e, st, c)
        return e.opaque(key, c, st, 'vcall')

    def dyn_target(e, st, r):
        """(pointer, type id) behind a dyn pointer if it is concrete"""
        if isT(r, 'dyn'):
            return r.a[0], r.a[1]
        if isT(r, 'dynbox'):
            return r.a[0], r.a[1]
        if isT(r, 'ref'):
            v = e.read(st, r.a[0], r.a[1])
            if isT(v, 'dynbox'):
                return e.mkref(r.a[0], r.a[1] + (('dyn',),)), v.a[1]
            if isT(v, 'dyn'):
                return v.a[0], v.a[1]
        elif isT(r):
            v = st.mem.get(('sym', r))
            if isT(v, 'dynbox'):
                return e.mkref(('sym', r), (('dyn',),)), v.a[1]
        return None

    def call_value(e, fv, vals, st, dty=None):
        """call a function value (closure, fn item, fn pointer) with unpacked arguments"""
        orig = fv
        n = 0
        while isT(fv, 'ref'):
            fv2 = e.read(st, fv.a[0], fv.a[1])
            if isT(fv2, 'uninit'):
                raise Stop('call of uninitialised')
            orig = fv
            fv = fv2
            n += 1
            if n > 5:
                raise Stop('call through references')
        if isT(fv, 'dyn') or isT(fv, 'dynbox'):
            return e.call_value(fv.a[0], vals, st, dty)
        if isT(fv, 'fn'):
            ty = e.types[fv.a[0]]
            fid = ty.get('f')
            f = e.fns.get(fid)
            if f is None:
                raise Stop('call of unresolved ' + ty['def'])
            ats = f['sig'][0] if 'sig' in f else None
            return e.call_rec(f, fid, list(vals), ats, f['sig'][1] if 'sig' in f else dty, st)
        if isT(fv, 'fnid'):
            f = e.fns[fv.a[0]]
            ats = f['sig'][0] if 'sig' in f else None
            return e.call_rec(f, fv.a[0], list(vals), ats, f['sig'][1] if 'sig' in f else dty, st)
        if isT(fv, 'agg') and str(fv.a[0]).startswith('closure:'):
            t = int(fv.a[0][8:])
            ty = e.types[t]
            fid = ty['f']
            f = e.fns[fid]
            st = st.copy()
            if ty['ck'] == 'FnOnce':
                selfv = fv
            elif orig is not fv:
                selfv = orig
            else:
                e.nframe += 1
                oid = ('C', e.nframe, 0)
                st.mem[oid] = fv
                selfv = mk('ref', oid, ())
            return e.call_fn(fid, [selfv] + list(vals), st)
        if isT(fv, 'pyfn'):
            return PYFNS[fv.a[0]](e, st, vals)
        raise Stop('call of %r' % (fv,))

    # ------------------------------------------------------------------ drops
    def do_drop(e, fr, term, st):
        p = e.place(fr, term[1], st)
        if p[0] == 'v':
            return
        e.drop_val(st, p[1], p[2], p[3])

    def drop_val(e, st, oid, path, ty, d=0):
        t = e.types[ty]
        if d > 6:
            return
        if t['k'] == 'adt':
            if t.get('drop') and t['drop'] in e.fns and e.fns[t['drop']]['ws']:
                v = e.read(st, oid, path)
                if isT(v, 'uninit'):
                    return
                st.event('drop', t['path'], e.rb(st, v))

    # ------------------------------------------------------------------ loops
    UNROLL = 300

    def run_loop(e, fr, H, blocks, st0):
        def step(s):
            return e.exec(fr, H, s, blocks, H)
        return e.loop(st0, step, fr)

    def loop(e, st0, step, fr=None):
        """step(state) -> outs with kinds back/goto/ret/panic. Returns outs without 'back'."""
        res = []
        states = [st0]
        it = 0
        tried = wide = False
        while states:
            nxt = []
            for s in states:
                s = s.copy()
                s.depth += 1
                base = s.trail
                outs = step(s)
                backs = [o for o in outs if o.k == 'back']
                for o in outs:
                    o.st.depth -= 1
                if backs and not tried and e.symbolic_end(outs, backs, base):
                    s.depth -= 1
                    r = e.summarise(s, step, fr)
                    if r is not None:
                        res.extend(r)
                        continue
                    tried = True
                for o in outs:
                    if o.k == 'back':
                        nxt.append(o.st)
                    else:
                        res.append(o)
            states = nxt
            it += 1
            if len(states) > 1:
                states = e.merge(states)
            # rounds that each go on in one way only cost little
            wide = wide or len(states) > 1
            if it > (e.UNROLL if not tried else 12 if wide else 130):
                if it == e.UNROLL + 1 and not tried:
                    tried = True
                    r = e.summarise(st0, step, fr)
                    if r is not None:
                        return r
                raise Stop('loop without a recognised bound in ' + e.where())
        return res

    def merge(e, states):
        """drop states that are identical"""
        return states

    def symbolic_end(e, outs, backs, base):
        """an undecided integer bound separates going round from leaving"""
        bl = set()
        for o in backs:
            for c, v in o.st.since(base):
                if isT(c) and c.op in ('le', 'ieq', 'not'):
                    bl.add((c, v))
                if isT(c) and c.op == 'bigend':
                    return True
        for o in outs:
            if o.k in ('goto', 'ret'):
                for c, v in o.st.since(base):
                    if (c, 1 - v) in bl:
                        return True
        return False

    def leaves(e, old, new, path, out):
        """paths at which the values differ"""
        if old is new or (isinstance(old, int) and isinstance(new, int) and old == new):
            return
        if isT(old) and isT(new) and old.op == new.op and old.op in ('agg', 'it') and len(old.a) == len(new.a) and old.a[:1] == new.a[:1] and (old.op == 'it' or old.a[1] == new.a[1]):
            st = 2 if old.op == 'agg' else 0
            for i in range(st, len(old.a)):
                x, y = old.a[i], new.a[i]
                if x is y or x == y:
                    continue
                if not (isT(x) or isinstance(x, int)) or not (isT(y) or isinstance(y, int)):
                    out.add(path)
                    return
                e.leaves(x, y, path + ((old.op, i),), out)
            return
        out.add(path)

    def getleaf(e, v, path):
        for op, i in path:
            if not isT(v) or v.op != op:
                return None
            v = v.a[i]
        return v

    def setleaf(e, v, path, new):
        if not path:
            return new
        op, i = path[0]
        a = list(v.a)
        a[i] = e.setleaf(a[i], path[1:], new)
        return mk(v.op, *a)

    def summarise(e, st0, step, fr):
        try:
            return e._summarise(st0, step, fr)
        except NoSummary:
            return None

    def _summarise(e, st0, step, fr):
        depth = st0.depth
        old = {o: v for o, v in st0.mem.items()}
        changed = {}     # (oid, path) -> True
        e.nframe += 1
        tag = e.nframe

        def initial(oid):
            return e.content(st0, oid)

        def diff(outs, cur):
            new = set()
            for o in outs:
                if o.k != 'back':
                    continue
                keys = set(cur.mem) | {k for k in o.st.mem if k[0] == 'sym'}
                for oid in keys:
                    a = e.content(cur, oid)
                    b = o.st.mem.get(oid)
                    if b is None:
                        if oid in cur.mem:
                            continue      # storage dead: scratch
                        continue
                    if a is b:
                        continue
                    if isT(a, 'uninit'):
                        continue
                    s = set()
                    e.leaves(a, b, (), s)
                    for p in s:
                        new.add((oid, p))
            return new

        def havoc(vals):
            s = st0.copy()
            s.depth = depth + 1
            for (oid, p), v in vals.items():
                s.mem[oid] = e.setleaf(e.content(s, oid), p, v)
            # scratch locals: values that die inside the loop
            return s

        def prune(cs):
            out = set()
            for oid, p in cs:
                if any((oid, p[:k]) in cs for k in range(len(p))):
                    continue
                out.add((oid, p))
            return out
        ph = {}

        def phv(l):
            if l not in ph:
                v0 = e.getleaf(initial(l[0]), l[1])
                t = mk('ph', tag, len(ph))
                if isinstance(v0, int) or isT(v0) and (v0 in RANGE or v0.op == 'lin'):
                    RANGE[t] = (0, (1 << 62))
                if isT(v0) and v0 in VTY:
                    VTY[t] = VTY[v0]
                elif isT(v0, 'agg'):
                    ty = e.oid_ty(fr, l)
                    if ty is not None:
                        VTY[t] = ty
                ph[l] = t
            return ph[l]
        # 1. which locations change
        s = st0.copy()
        s.depth = depth + 1
        outs = step(s)
        cs = prune(diff(outs, s))
        for rnd in range(6):
            cur = havoc({l: phv(l) for l in cs})
            outs = step(cur)
            more = set()
            for oid, p in diff(outs, cur):
                if any(o2 == oid and (p[:len(p2)] == p2) for o2, p2 in cs):
                    continue
                more.add((oid, p))
            if not more:
                break
            cs = prune(cs | more)
        else:
            raise NoSummary()
        # 2. induction variables
        ind = {}
        for l in cs:
            p = ph[l]
            ks = set()
            for o in outs:
                if o.k != 'back':
                    continue
                v = e.getleaf(e.content(o.st, l[0]), l[1])
                if v is p:
                    ks.add(0)
                    continue
                if v is None or not (isinstance(v, int) or isT(v)) or p not in RANGE:
                    ks.add(None)
                    continue
                d = sub(v, p)
                ks.add(d if isinstance(d, int) else None)
            if len(ks) == 1 and None not in ks:
                ind[l] = ks.pop()
        # lists that lose as many elements each round, at one end
        cut = {}
        for l in cs:
            if l in ind:
                continue
            p = ph[l]
            ks = set()
            for o in outs:
                if o.k == 'back':
                    v = e.getleaf(e.content(o.st, l[0]), l[1])
                    ss = v.a if isT(v, 'seq') else ()
                    if len(ss) != 1 or ss[0][0] != 's' or ss[0][1] is not p:
                        ks.add(None)
                        continue
                    f, b = ss[0][2], sub(slen(p), ss[0][3])
                    ks.add((f, b) if isinstance(f, int) and isinstance(b, int) and f >= 0 and b >= 0 and (f == 0) != (b == 0) else None)
            v0 = e.getleaf(initial(l[0]), l[1])
            if len(ks) == 1 and None not in ks and isT(v0):
                cut[l] = ks.pop()
        if not cut and not any(k for k in ind.values()):
            raise NoSummary()
        # 3. trip count
        e.nframe += 1
        t = mk('trip', e.nframe)
        RANGE[t] = (0, 1 << 62)

        def leafval(l, tt):
            v0 = e.getleaf(initial(l[0]), l[1])
            if l in cut:
                return e.slice(st0, v0, mulc(tt, cut[l][0]), sub(slen(v0), mulc(tt, cut[l][1])))
            return add(v0, mulc(tt, ind[l]))
        ind.update(cut)
        acc = [l for l in cs if l not in ind]
        accn = {}
        for l in sorted(acc, key=lambda l: str(l[1])):
            v0 = e.getleaf(initial(l[0]), l[1])
            a = mk('acc', depth, len(accn), tag)
            if ph[l] in VTY:
                VTY[a] = VTY[ph[l]]
            if isinstance(v0, int) or isT(v0) and (v0 in RANGE or v0.op == 'lin'):
                ty = e.oid_ty(fr, l)
                RANGE[a] = (e.int_range(ty) if ty is not None else None) or USZ
            accn[l] = a
        cur = havoc({l: (leafval(l, t) if l in ind else accn[l]) for l in cs})
        base = cur.trail
        outs = step(cur)
        if any(o.k == 'panic' for o in outs):
            # does it panic for accumulated numbers that never occur?  find an interval each of them stays in
            small = {l: (v0, v0) for l in acc for v0 in [e.getleaf(initial(l[0]), l[1])] if isinstance(v0, int) and accn[l] in RANGE}
            full = {l: RANGE[accn[l]] for l in small}
            # and does an object that is written to keep its length?
            kept = {l: slen(v0) for l in acc if l not in small for v0 in [e.getleaf(initial(l[0]), l[1])] if isT(v0) and (v0.op == 'seq' or v0 in LEN or mk('len', v0) in RANGE)}
            for rnd in range(5):
                names = dict(accn)
                for l, n0 in kept.items():
                    names[l] = mk('acc', depth, accn[l].a[1], tag, 'len', n0)
                    LEN[names[l]] = n0
                    if accn[l] in VTY:
                        VTY[names[l]] = VTY[accn[l]]
                still = dict(kept)
                for l, (lo, hi) in small.items():
                    names[l] = mk('acc', depth, accn[l].a[1], tag, lo, hi)
                    RANGE[names[l]] = (lo, hi)
                cur = havoc({l: (leafval(l, t) if l in ind else names[l]) for l in cs})
                cbase = cur.trail
                couts = step(cur)
                grown = dict(small)
                for o in couts:
                    if o.k == 'back':
                        for l, (lo, hi) in list(grown.items()):
                            v = e.getleaf(e.content(o.st, l[0]), l[1])
                            b = (v, v) if isinstance(v, int) else o.st.bounds(v) if isT(v) and (v.op == 'lin' or v in RANGE) else full[l]
                            grown[l] = (min(lo, b[0]), max(hi, b[1]))
                        for l, n0 in kept.items():
                            v = e.getleaf(e.content(o.st, l[0]), l[1])
                            n1 = slen(v) if isT(v) else None
                            if n1 is not n0 and n1 != n0:
                                still.pop(l, None)
                if grown == small and still == kept:
                    accn, outs, base = names, couts, cbase
                    break
                small = {l: g if g == small[l] or rnd < 3 else full[l] for l, g in grown.items()}
                kept = still
        backs = [o for o in outs if o.k == 'back']
        if not backs:
            raise NoSummary()
        ns = None
        for o in backs:
            cand = []
            for c, v in o.st.since(base):
                n = upper_of(c, v, t)
                if n is not None:
                    cand.append(n)
            if not cand:
                raise NoSummary()
            ns = cand if ns is None else [n for n in ns if any(n is m or n == m for m in cand)]
        if not ns:
            raise NoSummary()
        n = ns[0]
        n = st0.point(n) if isT(n) else n
        if isinstance(n, int) and n <= e.UNROLL:
            raise NoSummary()
        if isT(n) and any_term(n, lambda x: x.op in ('ph', 'trip')):
            raise NoSummary()
        # 4. the generic iteration
        ix = mk_ix(n, depth)
        cur = havoc({l: (leafval(l, ix) if l in ind else accn[l]) for l in cs})
        if not assume_in(cur, le0(sub(add(ix, 1), n)), 1):
            raise NoSummary()
        base = cur.trail
        outs = step(cur)
        backs = [o for o in outs if o.k == 'back']
        early = [o for o in outs if o.k != 'back']
        # 5. totals
        totals = {}
        for l in acc:
            a = accn[l]
            v0 = e.getleaf(initial(l[0]), l[1])
            totals[l] = e.total(v0, a, n, ix, [(o, e.getleaf(e.content(o.st, l[0]), l[1])) for o in backs], base, depth)
        # 6. leaving normally: all n iterations went round
        fin = havoc({l: (leafval(l, n) if l in ind else totals[l]) for l in cs})
        fin.depth = depth + 1
        if isT(n) or True:
            nn = le0(mulc(n, -1)) if isT(n) else 1
        exits = []
        conds = [tuple(norm_conds(o.st.since(base))) for o in early]
        ebool = None
        if early:
            ebool = e.exists(n, ix, tuple(sorted(set(conds), key=str)))
            known = bool_facts(st0, ebool)
            # the leaving round is a particular one: it gets a name of its own
            wit = mk('wit', ebool)
            RANGE.setdefault(wit, RANGE[ix])
            cur = havoc({l: (leafval(l, wit) if l in ind else accn[l]) for l in cs})
            assume_in(cur, le0(sub(add(wit, 1), n)), 1)
            early = [o for o in step(cur) if o.k != 'back']
        else:
            known = 0
        res = []
        if known != 1:
            if ebool is not None and known is None:
                assume_in(fin, ebool, 0)
                fin.note(ebool, 0)
            for o in step(fin):
                if o.k == 'back':
                    # could not show that the loop ends here
                    raise NoSummary()
                o.st.depth = depth
                res.append(o)
        if known != 0:
            for o in early:
                o.st.depth = depth
                if known is None:
                    assume_in(o.st, ebool, 1)
                    o.st.note(ebool, 1)
                res.append(o)
        # events of the generic round, by path
        k0 = len(st0.ev)
        if any(len(o.st.ev) > k0 for o in backs):
            evs = [(norm_conds(o.st.since(base)), o.st.ev[k0:]) for o in backs]
            # a list changed only at the position of the round still holds there what it held before the loop
            m = {}
            for l in acc:
                a = accn[l]
                if all(e.changed_at(e.getleaf(e.content(o.st, l[0]), l[1]), a, ix) is not None for o in backs):
                    m[mk('at', a, ix)] = e.elem(EMPTYST, e.getleaf(initial(l[0]), l[1]), ix)
            if m:
                evs = [r for r in (e.subst_round(m, c, ev) for c, ev in evs) if r]
            evs = tuple((tuple(c), ev) for c, ev in evs)
            for r in res:
                r.st.event('loop', n, ix, evs)
        e.summaries = getattr(e, 'summaries', 0) + 1
        return res

    def subst_round(e, m, conds, evs):
        out = []
        for c, v in conds:
            c = e.subst(c, m)
            r = bool_facts(EMPTYST, c)
            if r is None:
                out.append((c, v))
            elif r != v:
                return None
        def ev(x):
            if isinstance(x, tuple):
                return tuple(ev(y) for y in x)
            return e.subst(x, m) if isT(x) else x
        return out, tuple(ev(x) for x in evs)

    def changed_at(e, v, a, ix):
        """the new element if v is the list a with element ix replaced (or not) by what depends on that element only"""
        x = mk('at', a, ix)
        if v is a:
            return x
        if not isT(v) or v.op != 'seq':
            return None
        ss = segs(v)
        if len(ss) != 3 or ss[0][0] != 's' or ss[2][0] != 's' or ss[1][0] != 'l' or len(ss[1][1]) != 1:
            return None
        n = slen(a)
        if ss[0][1] is not a or ss[2][1] is not a or ss[0][2] != 0 or ss[0][3] is not ix or sub(ss[2][2], ix) != 1 or not (ss[2][3] is n or sub(ss[2][3], n) == 0):
            return None
        new = ss[1][1][0]
        if isT(new) and any_term(e.subst(new, {x: mk('hole')}), lambda z: z is a):
            return None
        return new

    def slab(e, v, a, ix):
        """the part that v has instead of the k elements of a from k*ix on, when all else is as in a"""
        if not isT(v, 'seq') or not isT(ix):
            return None
        ss = segs(v)
        if len(ss) < 3 or ss[0][0] != 's' or ss[-1][0] != 's' or ss[0][1] is not a or ss[-1][1] is not a or ss[0][2] != 0:
            return None
        part = mkseq(ss[1:-1])
        k = slen(part)
        if not isinstance(k, int) or k < 1 or sub(ss[0][3], mulc(ix, k)) != 0 or sub(ss[-1][2], mulc(add(ix, 1), k)) != 0 or sub(ss[-1][3], slen(a)) != 0:
            return None
        return None if any_term(part, lambda z: z is a) else part

    def oid_ty(e, fr, l):
        oid, p = l
        if oid[0] == 'L' and fr is not None and oid[1] == fr.id:
            ty = fr.body['locals'][oid[2]]
            for op, i in p:
                if op != 'agg':
                    return None
                fs = e.field_tys(ty)
                ty = fs[i - 2] if i - 2 < len(fs) else None
                if ty is None:
                    return None
            return ty
        return None

    def exists(e, n, ix, alts):
        """some round of n meets one of the alternatives"""
        if len(alts) == 1 and len(alts[0]) == 1 and alts[0][0][1] == 1 and isT(n, 'len'):
            b, S = alts[0][0][0], n.a[0]
            if isT(b, 'ieq') and b.a[1] == 0 and isT(S) and b is eq0(e.elem(EMPTYST, S, ix)):
                from .models import no_nul
                if S.op == 'chars':
                    return b_not(no_nul(e, EMPTYST, S.a[0]))
                ty = VTY.get(S)
                while ty is not None and e.types[ty]['k'] == 'ref':
                    ty = e.types[ty]['e']
                if ty is None or e.types[ty]['k'] in ('str', 'dyn') or e.types[ty].get('path') in ('alloc::string::String', 'alloc::ffi::c_str::CString') or e.seq_elem(ty) == 'u8':
                    return b_not(no_nul(e, EMPTYST, S))
        return mk('exists', n, ix, alts)

    def seq_elem(e, ty):
        """written type of the elements of a sequence type"""
        t = e.types[ty]
        if t['k'] in ('slice', 'array'):
            return e.types[t['e']]['s']
        return e.types[t['args'][0]]['s'] if t['k'] == 'adt' and t.get('args') else None

    def replaced(e, n, ix, cases):
        """text.chars() with one character rewritten, as str::replace writes it"""
        if not (isT(n, 'len') and isT(n.a[0], 'chars') and len(cases) == 2):
            return None
        x = e.elem(EMPTYST, n.a[0], ix)
        yes = no = None
        for c, k, y in cases:
            if len(c) != 1 or not isT(c[0][0], 'ieq') or c[0][0].a[0] != ((x, 1),):
                return None
            y = y if k == 'app' else EMPTY
            if c[0][1]:
                yes = c[0][0].a[1], y
            else:
                no = y
        if yes is None or no is not mk('utf8', x) and not (no is not None and segs(no) == segs(mk('utf8', x))) or any_term(yes[1], lambda z: z is ix):
            return None
        return mk('strreplace', n.a[0].a[0], lit(chr(yes[0])), yes[1])

    def total(e, v0, a, n, ix, backs, base, depth):
        """value of an accumulator after n iterations"""
        cases = []
        kind = None
        for o, v in backs:
            v = e.rb(o.st, v) if isT(v) else v
            conds = norm_conds([c for c in o.st.since(base)])
            if v is a:
                cases.append((conds, 'same', None))
                continue
            if isT(v):
                ss = segs(v) if v.op == 'seq' else None
                if ss and ss[0] == ('s', a, 0, slen(a)) and not any_term(mkseq(ss[1:]), lambda x: x is a):
                    cases.append((conds, 'app', mkseq(ss[1:])))
                    continue
                if v.op == 'ins' and v.a[0] is a and not any_term(v.a[1], lambda x: x is a) and not any_term(v.a[2], lambda x: x is a):
                    cases.append((conds, 'ins', (v.a[1], v.a[2])))
                    continue
                if v.op == 'ins1' and False:
                    pass
            cases.append((conds, 'other', v))
        cases = merge_cases(cases)
        kinds = {k for _, k, _ in cases}
        if kinds == {'same'}:
            return v0
        if kinds <= {'app', 'same'}:
            if len(cases) == 1:
                x = cases[0][2]
                if slen(x) == 1:
                    el = e.elem(EMPTYST, x, 0)
                    return cat(v0, mk_tab(n, ix, el))
                return cat(v0, mk('flat', n, ix, x))
            t = e.replaced(n, ix, cases)
            if t is None:
                t = mk('ftab', n, ix, tuple(sorted(((c, x if k == 'app' else EMPTY) for c, k, x in cases), key=str)))
                RANGE.setdefault(mk('len', t), (0, LENMAX))
            return cat(v0, t)
        if kinds == {'ins'} and len(cases) == 1 and isT(v0, 'map') and not v0.a and isT(n, 'maplen'):
            k, x = cases[0][2]
            if k is mk('mkey', n.a[0], ix) and x is mk('mval', n.a[0], ix):
                return n.a[0]       # every entry of a map: that map
        if kinds <= {'ins', 'same'}:
            return mk('mins', v0, n, ix, tuple(sorted(((c, x if k == 'ins' else None) for c, k, x in cases), key=str)))
        news = [(c, e.changed_at(a if k == 'same' else v, a, ix)) for c, k, v in cases] if kinds <= {'other', 'same'} else []
        part = e.slab(cases[0][2], a, ix) if len(cases) == 1 and kinds == {'other'} else None
        if part is not None and sub(slen(v0), mulc(n, slen(part))) == 0:
            return mk('flat', n, ix, part)
        if len(news) == 1 and news[0][1] is not None and (slen(v0) is n or slen(v0) == n):
            x = e.subst(news[0][1], {mk('at', a, ix): e.elem(EMPTYST, v0, ix)}) if isT(news[0][1]) else news[0][1]
            return mk_tab(n, ix, x)
        inplace = bool(news) and all(x is not None for _, x in news)
        # a flag that only ever goes one way
        if v0 in (0, 1) and isinstance(v0, int) and all(k == 'same' or isinstance(v, int) and v == 1 - v0 for c, k, v in cases) and \
                not any(isT(x) and any_term(x, lambda z: z is a) for c, k, v in cases for x, y in c):
            alts = set(tuple(c) for c, k, v in cases if k != 'same')
            t = b_not(eq0(n)) if () in alts else e.exists(n, ix, tuple(sorted(alts, key=str)))
            if isT(t, 'exists'):
                RANGE.setdefault(t, (0, 1))
            return t if v0 == 0 else b_not(t)
        av = mk('accv', depth)
        e.carry(a, av)
        cases = [(tuple((e.subst(x, {a: av}), y) for x, y in c), k, e.subst(v, {a: av})) for c, k, v in cases]
        a = av
        x = extreme(cases, a)
        ra = RANGE.get(a)
        if x is not None and not isinstance(v0, int):
            # the start was the first of them
            n1 = add(n, 1)
            i1 = mk_ix(n1, depth)
            x1 = e.subst(x[1], {ix: add(i1, -1)})
            if ra and ra[0] == 0 and e.subst(x1, {i1: 0}) is v0:
                n, ix, v0, x = n1, i1, (0 if x[0] == 'max' else ra[1]), (x[0], x1)
            else:
                x = None
        if x is not None:
            t = mk('ext', x[0], n, ix, v0, x[1])
        else:
            t = mk('fold', n, ix, v0, a, tuple(sorted(((c, v if k != 'same' else a) for c, k, v in cases), key=str)))
            if inplace:
                LEN.setdefault(t, slen(v0))
        e.carry(a, t)
        r = RANGE.get(a)
        if x is not None and r:
            RANGE.setdefault(t, (v0, r[1]) if x[0] == 'max' else (r[0], v0))
        return t


def address(p):
    t = mk('addr', p)
    RANGE.setdefault(t, (1 if p.op in ('ref', 'hp', 'dyn', 'seq') else 0, (1 << 64) - 1))
    return t


class Call:
    __slots__ = ('f', 'fid', 'args', 'atys', 'dty', 'key')


class NoSummary(Exception):
    pass


PYFNS = []
TRANSPARENT = {'core::mem::manually_drop::ManuallyDrop', 'core::mem::maybe_dangling::MaybeDangling', 'core::cell::UnsafeCell',
               'core::ptr::non_null::NonNull', 'core::ptr::unique::Unique', 'core::pin::Pin', 'core::mem::maybe_uninit::MaybeUninit'}


def pyfn(f):
    PYFNS.append(f)
    return mk('pyfn', len(PYFNS) - 1)


def any_term(t, p, seen=None):
    if seen is None:
        seen = set()
    if isinstance(t, tuple):
        return any(any_term(x, p, seen) for x in t)
    if not isT(t) or t in seen:
        return False
    seen.add(t)
    if p(t):
        return True
    return any(any_term(x, p, seen) for x in t.a)


def mk_ix(n, depth):
    t = mk('ix', n, depth)
    if t not in RANGE:
        h = n - 1 if isinstance(n, int) else LENMAX - 1
        RANGE[t] = (0, h)
    return t


def mk_tab(n, ix, body):
    """sequence of body(ix) for ix in 0..n"""
    if not any_term(body, lambda x: x is ix):
        return rep(body, n)
    if isT(body, 'at') and not any_term(body.a[0], lambda x: x is ix):
        d = sub(body.a[1], ix)
        if not any_term(d, lambda x: x is ix):
            return mkseq([('s', body.a[0], d, add(d, n))])
    t = mk('tab', n, ix, body)
    return t


def norm_conds(cs):
    """decisions as a canonical tuple; loop-bound bookkeeping left out"""
    out = {}
    for c, v in cs:
        while isT(c, 'not'):
            c, v = c.a[0], 1 - v
        out[c] = v
    return tuple(sorted(out.items(), key=lambda p: (p[0].id, p[1])))


def side(c, d, r):
    """truth of a comparison when d < 0, d = 0 or d > 0 (r = -1, 0, 1), if that alone decides it"""
    neg = 0
    while isT(c, 'not'):
        c, neg = c.a[0], 1 - neg
    if c.op not in ('le', 'ieq') or isinstance(d, int):
        return None
    key, s, c0 = key_of(d)
    if key != c.a[0] or abs(s) != 1:
        return None
    k = c.a[1]
    if c.op == 'ieq':
        if s * k + c0 != 0:
            return None
        v = int(r == 0)
    else:
        t = s * k + c0
        if s == 1:
            if t not in (-1, 0):
                return None
            v = int(r <= t)
        else:
            if t not in (0, 1):
                return None
            v = int(r >= t)
    return v ^ neg


def extreme(cases, a):
    """('max'|'min', x) when an accumulator a becomes the larger or smaller of itself and x, whatever else is decided"""
    xs = {v for c, k, v in cases if k == 'other'}
    if len(xs) != 1 or any(k not in ('other', 'same') for c, k, v in cases):
        return None
    x = xs.pop()
    if isT(x) and any_term(x, lambda z: z is a):
        return None
    d = sub(x, a)
    where = {-1: set(), 0: set(), 1: set()}
    for conds, k, v in cases:
        on = set(where)
        for c, val in conds:
            if not isT(c) or not any_term(c, lambda z: z is a):
                continue
            for r in list(on):
                got = side(c, d, r)
                if got is None:
                    return None
                if got != val:
                    on.discard(r)
        for r in on:
            where[r].add(k)
    if len(where[1]) != 1 or len(where[-1]) != 1:
        return None
    up, down = where[1].pop(), where[-1].pop()
    if up == down:
        return None
    return ('max' if up == 'other' else 'min'), x


def merge_cases(cases):
    """join cases with equal effect whose decisions differ only in one outcome"""
    ch = True
    cases = list(cases)
    while ch:
        ch = False
        for i in range(len(cases)):
            for j in range(i + 1, len(cases)):
                a, b = cases[i], cases[j]
                if a[1] == b[1] and (a[2] is b[2] or a[2] == b[2]):
                    da, db = dict(a[0]), dict(b[0])
                    if da.keys() == db.keys():
                        dif = [k for k in da if da[k] != db[k]]
                        if len(dif) <= 1:
                            c = tuple(x for x in a[0] if not dif or x[0] is not dif[0])
                            cases[i] = (c, a[1], a[2])
                            del cases[j]
                            ch = True
                            break
            if ch:
                break
    if len(cases) > 1 and all((c[1], c[2]) == (cases[0][1], cases[0][2]) for c in cases):
        return [((), cases[0][1], cases[0][2])]
    return cases


def upper_of(c, v, t):
    """n when the decision (c, v) says t < n with n free of t"""
    while isT(c, 'not'):
        c, v = c.a[0], 1 - v
    if not isT(c) or c.op not in ('le', 'ieq'):
        return None
    d = dict(c.a[0])
    k = d.pop(t, None)
    if k is None or abs(k) != 1:
        return None
    if c.op == 'ieq':
        # t != n  while counting up to n
        if v == 0:
            rest = from_lin(0, d)
            return mulc(sub(c.a[1], rest), 1) if k == 1 else sub(rest, c.a[1])
        return None
    rest = from_lin(0, d)
    if k == 1 and v == 1:        # t + rest <= c  ->  t < c - rest + 1
        return add(sub(c.a[1], rest), 1)
    if k == -1 and v == 0:       # -t + rest > c  ->  t < rest - c
        return sub(rest, c.a[1])
    return None


# ---------------------------------------------------------------------- bits
def flip(p):
    """the other bit"""
    if isT(p, 'bnot'):
        return p.a[0]
    t = mk('bnot', p)
    RANGE[t] = (0, 1)
    return t


def bitop(op, p, q):
    t = mk(op, *sorted((p, q), key=lambda x: x.id))
    RANGE[t] = (0, 1)
    return t


def to_bits(v, w, st=None):
    """list of w bits (low first)"""
    if isinstance(v, int):
        return [(v >> k) & 1 for k in range(w)]
    if v.op == 'bits':
        return (list(v.a) + [0] * w)[:w]
    if v.op == 'lin':
        # constant + single atom with disjoint bits
        c, items = v.a
        if len(items) == 1 and items[0][1] == 1:
            x = items[0][0]
            lo, hi = st.bounds(x) if st is not None else RANGE.get(x, (-INF, INF))
            if lo >= 0 and hi != INF and c >= 0:
                m = int(hi).bit_length()
                if c & ((1 << m) - 1) == 0:
                    b = to_bits(x, max(m, 1), st)
                    return [(b[k] if k < m else 0) if not (c >> k) & 1 else 1 for k in range(w)]
        if all(k > 0 and k & (k - 1) == 0 for _, k in items) and c == 0:
            # sum of shifted disjoint fields
            out = [0] * w
            ok = True
            for x, k in items:
                lo, hi = st.bounds(x) if st is not None else RANGE.get(x, (-INF, INF))
                if lo < 0 or hi == INF:
                    ok = False
                    break
                s = k.bit_length() - 1
                for i, b in enumerate(to_bits(x, int(hi).bit_length(), st)):
                    if b == 0:
                        continue
                    if s + i < w:
                        if out[s + i] != 0:
                            ok = False
                            break
                        out[s + i] = b
            if ok:
                return out
    out = []
    lo, hi = st.bounds(v) if st is not None else RANGE.get(v, (-INF, INF))
    for k in range(w):
        if lo >= 0 and hi != INF and (int(hi) >> k) == (int(lo) >> k):
            out.append((int(lo) >> k) & 1)
        elif v.op == 'lin':
            t = mk('bit', v, k)
            RANGE[t] = (0, 1)
            out.append(t)
        else:
            out.append(bit(v, k))
    return out


def from_bits(bs, st=None):
    bs = list(bs)
    while bs and bs[-1] == 0:
        bs.pop()
    if all(isinstance(b, int) for b in bs):
        return sum(b << k for k, b in enumerate(bs))
    if len(bs) == 1:
        return bs[0]
    b0 = bs[0]
    # a whole value, possibly with constant bits above it
    if isT(b0, 'bit') and b0.a[1] == 0:
        A = b0.a[0]
        m = 0
        while m < len(bs) and isT(bs[m], 'bit') and bs[m].a[0] is A and bs[m].a[1] == m:
            m += 1
        rest = bs[m:]
        if all(isinstance(b, int) for b in rest):
            lo, hi = st.bounds(A) if st is not None else RANGE.get(A, (-INF, INF))
            if lo >= 0 and hi != INF:
                hib = int(hi) >> m
                lob = int(lo) >> m
                if hib == lob:      # bits above m of A are known
                    c = sum(b << (m + k) for k, b in enumerate(rest))
                    return add(A, c - (lob << m))
    t = mk('bits', *bs)
    RANGE[t] = (0, (1 << len(bs)) - 1)
    return t


def simp_bits(st, t):
    out = []
    for k, b in enumerate(t.a):
        if isT(b, 'bit'):
            lo, hi = st.bounds(b.a[0])
            if lo >= 0 and hi != INF and int(lo) >> b.a[1] == int(hi) >> b.a[1]:
                b = (int(lo) >> b.a[1]) & 1
            else:
                p = st.point(b)
                b = p
        out.append(b)
    return from_bits(out, st)


def bitcond(c):
    """decisions on the top bit of a value are decisions on its magnitude"""
    if isT(c, 'ieq') and len(c.a[0]) == 1:
        x, k = c.a[0][0]
        if isT(x, 'bits'):
            nz = [(i, b) for i, b in enumerate(x.a) if b != 0]
            if len(nz) == 1 and isT(nz[0][1], 'bit'):
                i, b = nz[0]
                c1 = topbit(b)
                if c.a[1] == 0:
                    return b_not(c1)
                if c.a[1] == 1 << i:
                    return c1
                return 0
        if isT(x, 'bit') and c.a[1] in (0, 1):
            c1 = topbit(x)
            return c1 if c.a[1] else b_not(c1)
    return c


def topbit(b):
    A, k = b.a
    r = RANGE.get(A)
    if r and r[0] >= 0 and int(r[1]).bit_length() == k + 1:
        return le(1 << k, A)
    return b_not(mk('ieq', ((b, 1),), 0))


EMPTYST = St()


import re as _re


def IMPLRE(k):
    # core::num::<impl u32>::from_be_bytes -> u32::from_be_bytes ; std::ptr::const_ptr::<impl *const T>::is_null -> ptr::is_null
    m = _re.match(r'^(.*)::<impl (.*?)>::([A-Za-z0-9_]+)$', k)
    if not m:
        return k
    ty = m.group(2)
    if ty.startswith('*'):
        return 'ptr::' + m.group(3)
    if ty.startswith('['):
        return 'slice::' + m.group(3)
    return ty + '::' + m.group(3)
