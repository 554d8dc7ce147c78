"""Hash-consed symbolic terms and their normal forms.

Integers and booleans are Python ints (never Python bools).  Everything else is a `T`.
Sequences (arrays, slices, Vec, String, str) are `T('seq', seg...)` or an opaque term; a segment is
  ('l', (v, ...))        explicit elements
  ('s', S, lo, hi)       elements lo..hi of the opaque sequence S
  ('r', v, n)            n copies of v (n symbolic)
"""
_tab = {}
_next = [0]


class T:
    __slots__ = ('op', 'a', 'id')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = _next[0]
        _next[0] += 1
        _tab[k] = t
        if op == 'at' and isT(a[0]) and a[0].op == 'dec':
            RANGE[t] = (48, 57)      # a digit
    return t


def mkeq(a, b):
    """equality, whichever way round it is written"""
    return mk('eq', *sorted((a, b), key=lambda x: (isinstance(x, int), x.id if isT(x) else x)))


LENMAX = (1 << 57) - 1   # no object is bigger than the address space
RANGE = {}   # integer atom -> (lo, hi)
LEN = {}
UNSIZED = set()          # sequences whose length is a runtime quantity, whatever they are copied into     # opaque sequence -> int
VTY = {}     # opaque term -> type id (enums and structs)
NAMES = {}

INF = float('inf')


def isT(x, op=None):
    return x.__class__ is T and (op is None or x.op == op)


def sym(name, *rest):
    return mk('sym', name, *rest)


# ------------------------------------------------------------------ linear integers
def as_lin(v):
    if isinstance(v, int):
        return v, {}
    if v.op == 'lin':
        return v.a[0], dict(v.a[1])
    return 0, {v: 1}


def from_lin(c, d):
    items = [(x, k) for x, k in d.items() if k]
    if not items:
        return c
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    return mk('lin', c, tuple(items))


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    c, d = as_lin(a)
    c2, d2 = as_lin(b)
    for x, k in d2.items():
        d[x] = d.get(x, 0) + k
    return from_lin(c + c2, d)


def mulc(a, k):
    if isinstance(a, int):
        return a * k
    c, d = as_lin(a)
    return from_lin(c * k, {x: v * k for x, v in d.items()})


def sub(a, b):
    return add(a, mulc(b, -1))


def key_of(v):
    """(key, scale, const): v = scale*key + const with key a canonical sign-normalised linear form."""
    c, d = as_lin(v)
    items = sorted(d.items(), key=lambda p: p[0].id)
    from math import gcd
    g = 0
    for _, k in items:
        g = gcd(g, abs(k))
    s = g if items[0][1] > 0 else -g
    return tuple((x, k // s) for x, k in items), s, c


# ------------------------------------------------------------------ booleans
def b_not(b):
    if isinstance(b, int):
        return 1 - b
    if b.op == 'not':
        return b.a[0]
    return mk('not', b)


def le0(v):
    if isinstance(v, int):
        return 1 if v <= 0 else 0
    key, s, c = key_of(v)
    # s*key + c <= 0
    if s > 0:
        return mk('le', key, (-c) // s)              # key <= floor(-c/s)
    m = -s
    return b_not(mk('le', key, -((-c) // m) - 1)) if False else b_not(mk('le', key, _ceil(c, m) - 1))


def _ceil(a, b):
    return -((-a) // b)


def eq0(v):
    if isinstance(v, int):
        return 1 if v == 0 else 0
    key, s, c = key_of(v)
    if c % abs(s):
        return 0
    return mk('ieq', key, -c // s)


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return le0(add(sub(a, b), 1))


def b_and(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1:
        return a
    if a is b:
        return a
    return mk('and', a, b)


def b_or(a, b):
    return b_not(b_and(b_not(a), b_not(b)))


# ------------------------------------------------------------------ bits
def bit(v, k):
    if isinstance(v, int):
        return (v >> k) & 1
    if v.op == 'bits':
        return v.a[k] if k < len(v.a) else 0
    r = RANGE.get(v)
    if r and r[0] >= 0 and r[1] < (1 << k):
        return 0
    if r == (0, 1) and k == 0:
        return v
    t = mk('bit', v, k)
    RANGE[t] = (0, 1)
    return t


# ------------------------------------------------------------------ sequences
def slen(v):
    if isT(v):
        if v.op == 'seq':
            n = 0
            for s in v.a:
                n = add(n, seglen(s))
            return n
        o = v.op
        if o in ('aead_ct', 'aead_pt', 'aead_junk'):
            return slen(v.a[3])
        if o == 'aead_tag':
            return 16
        if o == 'rng':
            return v.a[2]
        if o == 'pbkdf2':
            return v.a[4]
        if v in LEN:
            return LEN[v]
        if v.op == 'tab':
            return v.a[0]
        if v.op == 'uninit':
            return 0
    t = mk('len', v)
    if t not in RANGE:
        RANGE[t] = (1, 20) if isT(v) and v.op == 'dec' else (0, LENMAX)
    return t


def seglen(s):
    if s[0] == 'l':
        return len(s[1])
    if s[0] == 's':
        return sub(s[3], s[2])
    return s[2]


def segs(v):
    if v.op == 'seq':
        return v.a
    n = slen(v)
    if n == 0:
        return ()
    return (('s', v, 0, n),)


def at_raw(S, i):
    return mk('at', S, i)


def mkseq(ss):
    out = []
    for s in ss:
        if s[0] == 'l':
            for x in s[1]:
                if isT(x, 'at'):
                    _push(out, ('s', x.a[0], x.a[1], add(x.a[1], 1)))
                else:
                    if out and out[-1][0] == 'l':
                        out[-1][1].append(x)
                    else:
                        out.append(('l', [x]))
        elif s[0] == 's':
            if s[2] == s[3]:
                continue
            _push(out, s)
        else:
            n = s[2]
            if n == 0:
                continue
            if isinstance(n, int) and n <= 8192:
                for _ in range(n):
                    x = s[1]
                    if isT(x, 'at'):
                        _push(out, ('s', x.a[0], x.a[1], add(x.a[1], 1)))
                    elif out and out[-1][0] == 'l':
                        out[-1][1].append(x)
                    else:
                        out.append(('l', [x]))
            else:
                out.append(s)
    fin = []
    for s in out:
        if s[0] == 'l':
            fin.append(('l', tuple(s[1])))
        else:
            fin.append(s)
    if len(fin) == 1 and fin[0][0] == 's' and fin[0][2] == 0 and fin[0][3] == slen(fin[0][1]):
        return fin[0][1]
    return mk('seq', *fin)


def _push(out, s):
    if out and out[-1][0] == 's' and out[-1][1] is s[1] and out[-1][3] == s[2]:
        out[-1] = ('s', s[1], out[-1][2], s[3])
    else:
        out.append(s)


def lits(vs):
    return mkseq([('l', tuple(vs))])


def lit(b):
    if isinstance(b, str):
        b = b.encode()
    return lits(list(b))


EMPTY = mk('seq')


def cat(*vs):
    ss = []
    for v in vs:
        ss.extend(segs(v))
    return mkseq(ss)


def rep(v, n):
    return mkseq([('r', v, n)])


class Undecided(Exception):
    pass


def split_at(v, i, cmp):
    """Split v at index i. cmp(a, b) -> -1/0/1 or None."""
    ss = segs(v)
    off = 0
    for n, s in enumerate(ss):
        c = cmp(i, off)
        if c == 0:
            return mkseq(ss[:n]), mkseq(ss[n:])
        end = add(off, seglen(s))
        c = cmp(i, end)
        if c is None:
            if len(ss) == 1 and s[0] == 's':
                c = -1     # single opaque range: the caller has checked the bounds
            elif s[0] in 'sr' and cmp(i, off) == 1 and n == len(ss) - 1:
                c = -1
            else:
                raise Undecided('split of %r at %r' % (v, i))
        if c < 0:
            k = sub(i, off)
            if s[0] == 's':
                m = add(s[2], k)
                return (mkseq(ss[:n] + (('s', s[1], s[2], m),)), mkseq((('s', s[1], m, s[3]),) + ss[n + 1:]))
            if s[0] == 'l':
                return (mkseq(ss[:n] + (('l', s[1][:k]),)), mkseq((('l', s[1][k:]),) + ss[n + 1:]))
            return (mkseq(ss[:n] + (('r', s[1], k),)), mkseq((('r', s[1], sub(s[2], k)),) + ss[n + 1:]))
        off = end
    return v, EMPTY


def cmp_const(a, b):
    d = sub(a, b)
    if isinstance(d, int):
        return (d > 0) - (d < 0)
    return None


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if not isT(t):
        return repr(t) if not isinstance(t, tuple) else '(' + ', '.join(show(x, d) for x in t) + ')'
    if d > 14:
        return '…'
    o, a = t.op, t.a
    if o == 'lin':
        s = ' + '.join(('%s' % show(x, d + 1)) if k == 1 else '%d*%s' % (k, show(x, d + 1)) for x, k in a[1])
        return s + (' + %d' % a[0] if a[0] > 0 else ' - %d' % -a[0] if a[0] < 0 else '')
    if o in ('le', 'ieq'):
        s = ' + '.join(('%s' % show(x, d + 1)) if k == 1 else '%d*%s' % (k, show(x, d + 1)) for x, k in a[0])
        return '%s %s %d' % (s, '<=' if o == 'le' else '==', a[1])
    if o == 'wit':
        return 'some ' + show(a[0].a[1], d + 1)
    if o == 'sym':
        return '/'.join(str(x) for x in a)
    if o == 'seq':
        out = []
        for s in a:
            if s[0] == 'l':
                if s[1] and all(isinstance(x, int) and 32 <= x < 127 for x in s[1]):
                    out.append(repr(bytes(s[1]).decode()))
                elif len(s[1]) > 8 and all(x == s[1][0] for x in s[1]):
                    out.append('[%s;%d]' % (show(s[1][0], d + 1), len(s[1])))
                else:
                    out.append('[' + ','.join(show(x, d + 1) for x in s[1][:40]) + (',…' if len(s[1]) > 40 else '') + ']')
            elif s[0] == 's':
                if s[2] == 0 and s[3] == slen(s[1]):
                    out.append(show(s[1], d + 1))
                else:
                    out.append('%s[%s..%s]' % (show(s[1], d + 1), show(s[2], d + 1), show(s[3], d + 1)))
            else:
                out.append('[%s;%s]' % (show(s[1], d + 1), show(s[2], d + 1)))
        return '<' + ' ++ '.join(out) + '>'
    if o == 'at':
        return '%s[%s]' % (show(a[0], d + 1), show(a[1], d + 1))
    if o == 'fld':
        return '%s.%s%s' % (show(a[0], d + 1), ('%d:' % a[1]) if a[1] else '', a[2])
    if o == 'agg':
        return '%s#%s{%s}' % (str(a[0]).split('::')[-1], a[1], ', '.join(show(x, d + 1) for x in a[2:]))
    if o == 'not':
        return '!(' + show(a[0], d + 1) + ')'
    return '%s(%s)' % (o, ', '.join(show(x, d + 1) for x in a))
