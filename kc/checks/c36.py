"""C36: error texts and error conversions keep everything the error carries"""
from ..ref import *
from .c33 import parts


# crates whose error types are open (enums with public contents)
OPEN = ('keychain', 'bip39', 'secp256k1_bip32', 'ed25519_bip32', 'secp256k1')


def run(ck):
    ck.explain = 'Display of every error type of the library crates over every value, the conversions between error types over every value, and the cause an error gives for itself.'
    ck.rule('the text of an error shows every value the error carries, whole (or it is in the error given as the cause), numbers of one kind of error in the order they are carried; a wrapped error is shown with all it carries; formatting succeeds')
    ck.rule('two kinds of one error type never have the same text around the values')
    ck.rule('converting an error keeps every value it carries, numbers in their order, or the error itself; errors of different kinds stay different')
    e = ck.engine()
    errs = {}
    known = set()
    for i in e.d['impls']:
        if i['trait'] == 'std::error::Error':
            n = e.norm(i['ref'])[1:].split(' as ')[0]
            known.add(n if i['krate'] == 'keychain' else n[len('keychain::'):] if n.startswith('keychain::') else n)
    for f in sorted(e.fns.values(), key=lambda f: f['name']):
        if f.get('tm') == 'std::fmt::Display::fmt' and f.get('ws') and 'body' in f:
            n = e.norm(f['name'])
            T = n[1:].split(' as ')[0]
            if T in known:
                errs[e.types[f['sig'][0][0]]['e']] = (T, n)
    ck.expect(len(errs) >= 8, 'anchor errors', 'only %d error types with a text found' % len(errs))
    causes = {}
    for f in e.fns.values():
        if f.get('tm') in ('std::error::Error::cause', 'std::error::Error::source') and f.get('ws') and 'body' in f:
            causes[e.types[f['sig'][0][0]]['e']] = e.norm(f['name'])
    for t, (T, n) in sorted(errs.items(), key=lambda x: x[1]):
        ck.guard(T, text, ck, e, T, n, t, errs, causes.get(t))
    done = 0
    for f in sorted(e.fns.values(), key=lambda f: f['name']):
        if (f.get('tm') or '') == 'std::convert::From::from' and f.get('ws') and 'body' in f and f['sig'][1] in errs:
            done += 1
            ck.guard(e.norm(f['name']), convert, ck, e, e.norm(f['name']), f['sig'][0][0], errs)
    ck.expect(done >= 5, 'anchor conversions', 'only %d conversions between error types found' % done)
    ck.extra['error_types'] = sorted(x[0] for x in errs.values())


def leaves(S, v, t, errs):
    """[(value, type, path)] an error carries, those of wrapped errors and of structures included; the kind decided"""
    e = S.e
    ty = e.types[t]
    if ty['k'] == 'adt' and ty['kind'] in ('enum', 'struct') and not ty.get('box') and (t in errs or ty['path'].split('::')[0] in OPEN):
        vi, ps, ts = parts(S, v, ty)
        out = []
        for j, (p, pt) in enumerate(zip(ps, ts)):
            out += [(x, xt, (vi, j) + path) for x, xt, path in leaves(S, p, pt, errs)]
        return out
    return [(S.norm(S.rb(v)) if ty['k'] in ('ref',) else S.norm(v), t, ())]


def kind(S, v, t):
    e = S.e
    return S.var(v) if e.types[t]['kind'] == 'enum' else ''


def shown(seg, x):
    """does this piece of a text render the whole of x?"""
    if seg[0] != 's' or seg[2] != 0 or not (seg[3] is slen(seg[1]) or seg[3] == slen(seg[1])):
        return False
    y = seg[1]
    if y is x:
        return True
    if isT(y, 'fmt') and any('prec' in a for a in y.a if isinstance(a, tuple)):
        return False                        # cut off
    return isT(y) and y.op in ('dec', 'fmt', 'call') and any(a is x for a in y.a)


def text(ck, e, T, n, t, errs, cause):
    a = ck.symargs(e, n, ['v', 'f'])[0]
    st = St().copy()
    oid = ('F', 'text', 0)
    st.mem[oid] = EMPTY
    outs = ck.outs(e, n, [a, mk('ref', oid, ())], st)
    skel = {}

    def spec(S):
        S.require(S.out.k == 'ret', 'panics')
        S.want(Ok(ANY))
        v = S.rb(a)
        k = kind(S, v, t)
        ls = leaves(S, v, t, errs)
        got = S.norm(S.st.mem[oid])
        ss = list(segs(got))
        at, used = {}, set()
        for x, xt, path in ls:
            pos = [i for i, s in enumerate(ss) if shown(s, x)]
            if not pos and cause and len(path) > 2 and carried(ck, e, S, cause, a, v, t, path[:2]):
                continue
            S.require(pos, 'the text of %s does not show %s: %s' % (k, show(x), show(got)[:300]))
            at[path] = pos[0]
            used.update(pos)
        order(S, k, ls, at, 'text')
        sk = tuple('?' if i in used else s for i, s in enumerate(ss))
        for k2, s2 in skel.items():
            S.require(k2 == k or sk not in s2, 'the texts of %s and %s are the same: %s' % (k, k2, show(got)[:200]))
        skel.setdefault(k, set()).add(sk)
    ck.judge(e, n, outs, spec, T)


def carried(ck, e, S, cause, a, v, t, path):
    """is the wrapped error at path given as the cause?"""
    x = mk('fld', v, path[0], path[1])
    rs = e.run(e.fn(cause), [a], S.st)
    ok = bool(rs)
    for o in rs:
        r = e.canon(o.st, o.v) if o.k == 'ret' else None
        y = e.rb(o.st, r.a[2]) if isT(r, 'agg') and r.a[1] == 1 else None
        y = y.a[0] if isT(y, 'dynv') else y
        ok = ok and y is not None and e.canon(o.st, y) is S.norm(x)
    return ok


def order(S, k, ls, at, what):
    """numbers carried side by side appear in their order"""
    e = S.e
    groups = {}
    for x, xt, path in ls:
        if path in at and e.types[xt]['k'] == 'int':
            groups.setdefault(path[:-2], []).append((path[-1], at[path]))
    for g in groups.values():
        g.sort()
        S.require([p for _, p in g] == sorted(p for _, p in g), 'the numbers of %s are exchanged in its %s' % (k, what))


def flat(x, out):
    """subterms of a value in order, as they are carried"""
    if isT(x) and x.op == 'agg':
        for y in x.a[2:]:
            flat(y, out)
        return
    if isT(x, 'dynv'):
        return flat(x.a[0], out)
    out.append(x)


def convert(ck, e, n, t, errs):
    a = ck.symargs(e, n, ['err'])
    outs = ck.outs(e, n, a)
    seen = {}

    def spec(S):
        S.require(S.out.k == 'ret', 'panics')
        v = S.norm(a[0])
        got = S.norm(S.out.v)
        fl = []
        flat(got, fl)
        if any(x is v for x in fl):
            return                          # the error itself is kept
        ty = e.types[t]
        if ty['k'] != 'adt' or ty['kind'] != 'enum':
            raise Fail('the error converted is not kept: %s' % show(got)[:300])
        k = kind(S, v, t)
        ls = leaves(S, v, t, errs)
        at = {}
        for x, xt, path in ls:
            pos = [i for i, y in enumerate(fl) if y is x]
            S.require(pos, 'converting %s loses %s: %s' % (k, show(x), show(got)[:300]))
            at[path] = pos[0]
        order(S, k, ls, at, 'conversion')
        m = {x: mk('sym', 'leaf%d' % i) for i, (x, xt, path) in enumerate(ls) if isT(x)}
        sk = S.e.subst(got, m) if isT(got) else got
        for k2, s2 in seen.items():
            S.require(k2 == k or sk not in s2, '%s and %s become the same error: %s' % (k, k2, show(got)[:200]))
        seen.setdefault(k, set()).add(sk)
    ck.judge(e, n, outs, spec, n)
