"""C33: values are copied, compared and viewed whole"""
import re
from ..ref import *
from ..engine import VTY
from ..models import deep_eq

WS = ('keychain', 'bip39', 'secp256k1_bip32', 'rust_keychain')


def impossible(S):
    """two values of different variants are taken to have the same discriminant"""
    for c, v in S.st.since(None):
        if isT(c, 'ieq') and len(c.a[0]) == 2 and c.a[1] == 0:
            (x, p), (y, q) = c.a[0]
            if isT(x, 'disc') and isT(y, 'disc') and p + q == 0:
                same = S.e.variant(S.st, x.a[0]), S.e.variant(S.st, y.a[0])
                if None not in same and (same[0] == same[1]) != bool(v):
                    return True
    return False


def parts(S, v, ty):
    """payload fields of a value of an enum or struct whose variant is decided: (variant index, [(term)])"""
    e = S.e
    vs = ty['v']
    vi = 0
    if ty['kind'] == 'enum':
        n = S.var(v)
        vi = [i for i, x in enumerate(vs) if x['n'] == n][0]
    v = S.norm(v)
    out = []
    for j, f in enumerate(vs[vi]['f']):
        if isT(v, 'agg'):
            out.append(S.norm(v.a[2 + j]))
        else:
            out.append(S.norm(e.note_ty(mk('fld', v, vi, j), f[1])))
    return vi, out, [f[1] for f in vs[vi]['f']]


def bytewise(S, x, y, ty):
    """what the path has found out about the bytes of x and y one by one: True when all are equal, False when some differ"""
    e = S.e
    n = slen(x)
    if not isinstance(n, int) or n > 256 or slen(y) is not n and slen(y) != n:
        return None
    px = {e.elem(S.st, x, i): i for i in range(n)}
    py = {e.elem(S.st, y, i): i for i in range(n)}

    def pair(p, q):
        if p in px and q in py and px[p] == py[q]:
            return px[p]
        if q in px and p in py and px[q] == py[p]:
            return px[q]
        return None
    bits = set()
    for c, v in S.st.since(None):
        while isT(c, 'not'):
            c, v = c.a[0], 1 - v
        i = None
        if isT(c, 'eq'):
            i = pair(c.a[0], c.a[1])
        elif isT(c, 'ieq') and c.a[1] == 0 and len(c.a[0]) == 2 and c.a[0][0][1] + c.a[0][1][1] == 0:
            i = pair(c.a[0][0][0], c.a[0][1][0])
        if i is not None:
            if not v:
                return False
            bits.update((i, k) for k in range(8))
            continue
        z = None                                     # a term that is zero on this path, or not
        if isT(c, 'ieq') and c.a[1] == 0 and len(c.a[0]) == 1:
            z, v = c.a[0][0][0], v
        elif isT(c, 'bor') or isT(c, 'bxor'):
            z, v = c, 1 - v
        if z is not None:
            todo, got = list(z.a) if isT(z, 'bits') else [z], set()
            while todo:
                t = todo.pop()
                if isT(t, 'bor'):
                    todo.extend(t.a)
                elif isT(t, 'bxor') and all(isT(y, 'bit') for y in t.a) and t.a[0].a[1] == t.a[1].a[1] and pair(t.a[0].a[0], t.a[1].a[0]) is not None:
                    got.add((pair(t.a[0].a[0], t.a[1].a[0]), t.a[0].a[1]))
                elif t != 0:
                    got = None
                    break
            if got is not None:
                if not v:
                    return False
                bits |= got
    return True if n and len(bits) == 8 * n else None


def equal(S, a, b, t):
    """do a and b hold the same?  (decides, splitting the path)"""
    e = S.e
    ty = e.types[t]
    if ty['k'] in ('ref',):
        return equal(S, S.norm(a), S.norm(b), ty['e'])
    if ty['k'] == 'adt' and ty['path'].split('::')[0] in WS + ('rust_keychain',):
        if not ty['v']:
            return True
        if ty['kind'] == 'enum' and len(ty['v']) > 1 and not isT(S.norm(a), 'agg') and not isT(S.norm(b), 'agg'):
            # the variants of an enum have different discriminants
            if not S.dec(eq0(sub(mk('disc', S.norm(a)), mk('disc', S.norm(b))))):
                return False
        va, pa, ts = parts(S, a, ty)
        vb, pb, _ = parts(S, b, ty)
        if va != vb:
            return False
        return all_eq(S, pa, pb, ts)
    if ty['k'] == 'adt' and ty['path'].startswith(('core::marker::PhantomData', 'std::marker::PhantomData')):
        return True
    x, y = S.norm(a), S.norm(b)
    for q in (mk('eq', x, y), mk('eq', y, x)):
        for c, v in S.st.since(None):
            if c is q:
                return bool(v)
    r = bytewise(S, x, y, ty)
    if r is not None:
        return r
    return bool(S.dec(deep_eq(e, S.st, x, y)))


def all_eq(S, pa, pb, ts):
    for x, y, z in zip(pa, pb, ts):
        if not equal(S, x, y, z):
            return False
    return True


def run(ck):
    ck.explain = 'Every implementation of Clone, PartialEq, Ord, Hash, AsRef and Deref for the workspace\'s own types; the bodies of Clone, PartialEq, AsRef and Deref over any values (or pairs of values).'
    ck.rule('a clone equals the value it was made of; two values are equal exactly when they are of the same variant and all their contents are equal')
    ck.rule('as_ref and deref of seeds, entropies, mnemonics and mnemonic texts view all of the contents and nothing else')
    ck.rule('hashing and ordering are those the compiler derives, so that they agree with equality')
    e = ck.engine()
    done = 0
    for i in sorted(e.d['impls'], key=lambda i: i['ref']):
        if i['krate'] not in e.d['crates'] or i['pol'] != 'Positive':
            continue
        tr = i['trait']
        if re.search(r'::(Ord|PartialOrd|Hash|Hasher)$', tr):
            ck.expect(i['derived'], 'by-hand/' + i['ref'], '%s is written by hand: that it agrees with equality is not decided' % i['ref'])
    for k, f in sorted(e.fns.items()):
        if not (f.get('ws') and f.get('body')):
            continue
        name = e.norm(f['name'])
        m = re.match(r'<(.*) as std::(?:clone::Clone|cmp::PartialEq|convert::AsRef<.*>|ops::Deref)>::(clone|eq|ne|as_ref|deref)$', name)
        if not m:
            continue
        t = e.types[f['sig'][0][0]]['e']
        if e.types[t]['k'] != 'adt':
            continue
        done += 1
        ck.guard(name, one, ck, e, name, m.group(2), t)
    ck.expect(done > 20, 'few', 'only %d implementations found' % done)
    ck.extra['implementations'] = done


def one(ck, e, name, meth, t):
    e.steps = 0
    args = ck.symargs(e, name, ['a', 'b'][:len(e.fns[e.fn(name)]['sig'][0])])
    outs = ck.outs(e, name, args)

    def spec(S):
        a = S.rb(args[0])
        S.require(S.out.k == 'ret', 'panics')
        if meth == 'clone':
            return S.require(S.same(S.out.v, a), 'the copy is %s' % show(S.norm(S.out.v))[:300])
        if meth in ('eq', 'ne'):
            b = S.rb(args[1])
            got = S.norm(S.out.v)
            if isT(got, 'eq') and isT(got.a[0], 'agg') and isT(got.a[1], 'agg'):
                got = deep_eq(e, S.st, *got.a)
            got = bool(got) if isinstance(got, int) else bool(S.dec(got))
            r = equal(S, a, b, t)
            if impossible(S):
                return
            return S.require(got == (r == (meth == 'eq')), 'values that %s are found %s' % ('are equal' if r else 'differ', 'equal' if got == (meth == 'eq') else 'different'))
        # a view: the only field of the only or chosen variant
        ty = e.types[t]
        vi, ps, ts = parts(S, a, ty)
        S.require(len(ps) == 1, 'no single content')
        S.require(S.same(S.out.v, ps[0]), 'the view is %s' % show(S.norm(S.out.v))[:300])
    ck.judge(e, name, outs, spec)
