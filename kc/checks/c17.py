from ..ref import *
from .. import engine as ENG

SELF = sym('self')
LOSE = ('std::mem::forget', 'std::mem::ManuallyDrop::new', 'std::boxed::Box::leak', 'std::boxed::Box::into_raw', 'std::vec::Vec::leak',
        'std::rc::Rc::into_raw', 'std::sync::Arc::into_raw', 'std::ptr::read', 'std::mem::transmute', 'std::mem::transmute_copy', 'std::mem::MaybeUninit::new',
        'std::boxed::Box::into_raw_with_allocator', 'std::boxed::Box::into_non_null', 'std::ptr::write')


def holders(e, paths):
    """ids of the types that hold a value of one of the given types"""
    memo = {}

    def has(t, d=0):
        if t is None or d > 12:
            return False
        if t in memo:
            return memo[t]
        memo[t] = False
        ty = e.types[t]
        k = ty['k']
        r = False
        if k == 'adt':
            r = ty['path'] in paths
            r = r or any(has(f[1], d + 1) for v in ty.get('v') or [] for f in v['f'])
            r = r or any(has(a, d + 1) for a in ty.get('args') or [] if isinstance(a, int))
        elif k in ('array', 'slice'):
            r = has(ty['e'], d + 1)
        elif k == 'tuple':
            r = any(has(x, d + 1) for x in ty['e'])
        elif k == 'closure':
            r = any(has(x, d + 1) for x in ty.get('up') or [])
        memo[t] = r
        return r
    return {t for t in e.types if has(t)}


def wiped(S, variant_of):
    o = S.out
    S.require(o.k == 'ret', 'panics')
    arg = ('sym', SELF)
    v = S.norm(S.e.content(S.st, arg))
    S.require(isT(v, 'agg') and len(v.a) == 3, 'what is released is not known: ' + show(v)[:200])
    b = v.a[2]
    n = variant_of(v)
    S.require(S.same(slen(b), n), 'not %s bytes' % n)
    done = {}
    for ev in S.st.ev:
        if ev[0] == 'loop':
            S.require(False, 'the writes of a loop are not known')
        if ev[0] != 'volatile' or ev[1] != arg:
            continue
        path, val = ev[2], ev[3]
        if not path or path[0][0] != 'f' or path[0][1:3] != (v.a[1], 0):
            continue
        lo, cnt, one = 0, n, False
        for el in path[1:]:
            if el[0] == 's' and isinstance(el[1], int):
                lo += el[1]
                cnt = el[2] - el[1] if isinstance(el[2], int) else None
            elif el[0] == 'i' and isinstance(el[1], int):
                lo += el[1]
                cnt, one = 1, True
            else:
                cnt = None
        if cnt is None:
            continue
        for i in range(cnt):
            done[lo + i] = S.norm(val) if one else S.norm(S.e.elem(S.st, S.norm(val), i))
    for i in range(n):
        S.require(S.same(S.e.elem(S.st, b, i), 0), 'byte %d of %d is not zero afterwards' % (i, n))
        S.require(i in done and S.same(done[i], 0), 'byte %d of %d is not overwritten by a write the compiler has to keep' % (i, n))


def run(ck):
    ck.explain = 'The release of a seed and of an entropy of each of the six strengths; every call of the workspace that could skip a release.'
    ck.rule('drop: every byte of the value is the target of a volatile write of 0 and is 0 afterwards')
    ck.rule('no value that is or holds a seed or an entropy is passed to forget, leak, into_raw, ManuallyDrop, transmute or a bitwise copy')
    e = ck.engine()
    EP, SD = adt(ck, 'bip39::bip39::Entropy'), adt(ck, 'bip39::bip39::Seed')
    for P in (EP, SD):
        short = e.norm(P)
        tys = [t for t in e.types.values() if t.get('path') == P and 'v' in t]
        if not tys or not tys[0].get('drop'):
            ck.violate(short + '/drop', '%s is released without being wiped: it has no Drop' % P)
            continue
        fid = tys[0]['drop']
        fn = e.norm(e.fns[fid]['name'])
        for i, v in enumerate(tys[0]['v']):
            ft = e.types[v['f'][0][1]]
            if ft['k'] != 'array':
                raise Stop('anchor not found: bytes of ' + P)
            n = ft['n']
            b = sym('b_%s' % v['n'])
            LEN[b] = n
            for j in range(n):
                RANGE.setdefault(mk('at', b, j), (0, 255))
            st = ENG.St()
            st.mem[('sym', SELF)] = mk('agg', P, i, b)
            label = '%s/%s' % (fn, v['n'])
            ck.guard(label, lambda: ck.judge(e, fn, e.run(fid, [mk('ref', ('sym', SELF), ())], st), lambda S: wiped(S, lambda _: n), label=label))
            ck.anchors[fn] = ck.anchors.get(fn, 0) + 1
    # nothing skips it
    H = holders(e, {EP, SD})
    sites = 0
    for f in e.fns.values():
        if not f.get('ws') or 'body' not in f:
            continue
        for blk in f['body']['blocks']:
            for s in blk[0]:
                if s[0] == 'a' and s[2][0] == 'cast' and s[2][1] == 'Transmute':
                    sites += 1
            t = blk[1]
            if t[0] != 'call':
                continue
            g = callee(e, t)
            if g is None:
                continue
            sites += 1
            key = e.fkey(g)
            if key in LOSE and any(x in H for x in call_tys(e, t, g)):
                ck.violate('%s/%s' % (e.norm(f['name']), key), '%s passes a value holding a seed or an entropy to %s' % (e.norm(f['name']), key))
    ck.extra['call sites'] = sites
    ck.obligations += sites
    ck.expect(sites > 0, 'sites', 'no call sites')
