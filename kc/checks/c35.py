from ..ref import *

SIZES = (96, 128, 160, 192, 224, 256)


def run(ck):
    ck.explain = 'Every path of KeychainManager::with_factories (the constructor the others share, open to any caller with the custom-networks feature) over any list of factories of any length, each with any seed-size range.'
    ck.rule('a manager is made only with a strength that is the largest minimum of the given factories\' ranges, is not zero and is not above any factory\'s maximum')
    ck.rule('a list is refused only if the largest minimum is zero or is not below the smallest maximum, with the error that carries these two')
    ck.rule('a range of n bits reports 3 * (n / 32) words, for both ends and every n')
    ck.rule('a manager of built-in networks, all or any list of them, has a strength mnemonics exist for')
    ck.rule('the range of every built-in network begins and ends at sizes mnemonics exist for')
    e = ck.engine({})

    def built_in(S, *a):
        S.require(S.out.k == 'ret', 'panics')
        v = S.norm(S.out.v)
        if S.match(v, Err(ANY)):
            return
        m = Mgr(S, S.norm(v.a[2]))
        S.require(any(S.same(m.size, k) for k in SIZES), 'no mnemonic has a strength of %s' % show(m.size)[:200])
    for c in ('new', 'with_networks'):
        ck.allow(e, 'keychain::KeychainManager::' + c, built_in)

    def ends(S, *a):
        S.require(S.out.k == 'ret', 'panics')
        lo, hi = (S.norm(S.field(S.norm(S.out.v), k)) for k in ('min', 'max'))
        for k, x in (('begins', lo), ('ends', hi)):
            S.require(any(S.same(x, n) for n in SIZES), 'the range %s at %s, for which there is no mnemonic' % (k, show(x)[:100]))
        S.require(S.dec(le(lo, hi)), 'the range is empty')
    for net in ('cardano', 'ethereum', 'bitcoin'):
        ck.allow(e, '<keychain::networks::%s::KeyFactory as keychain::KeyFactory>::seed_size' % net, ends)

    def words(which):
        def spec(S, r):
            S.want(mulc(e.arith(S.st, 'Div', S.norm(S.field(S.rb(r), which)), 32, usize(e))[0], 3))
        return spec
    for which in ('min', 'max'):
        ck.allow(e, 'keychain::SeedSize::%s_words' % which, words(which))
    name = 'keychain::KeychainManager::with_factories'

    # 'ext' is the engine's term for the largest or smallest of a start value and the values of all rounds
    def spec(S, xs):
        S.require(S.out.k == 'ret', 'panics')
        v = S.norm(S.out.v)
        TOP = (1 << 64) - 1
        xs = S.rb(xs)
        n = slen(xs)

        def lo(f):
            return S.norm(S.field(vcall(S, 'keychain::KeyFactory::seed_size', f), 'min'))

        def hi(f):
            return S.norm(S.field(vcall(S, 'keychain::KeyFactory::seed_size', f), 'max'))

        def bounds(t, what):
            """t as the extreme of a bound over all given factories"""
            S.require(isT(t, 'ext'), 'not computed from all factories: ' + show(t)[:300])
            kind, m, ix, v0, x = t.a
            S.require(S.same(m, n), 'not every factory is counted')
            f = mk('at', xs, ix)
            S.require(S.same(x, lo(f) if what == 'max' else hi(f)), 'made of %s' % show(x)[:200])
            S.require(kind == what and v0 == (0 if what == 'max' else TOP), 'the %s of %s from %s' % (kind, show(x)[:200], v0))
            return m, ix
        if S.match(v, Ok(ANY)):
            m = Mgr(S, S.norm(v.a[2]))
            A = S.norm(m.size)
            _, ix = bounds(A, 'max')
            S.require(not S.dec(eq0(A)), 'the strength can be zero')
            B = mk('ext', 'min', n, ix, TOP, hi(mk('at', xs, ix)))
            RANGE.setdefault(B, (0, TOP))
            S.require(S.dec(le(A, B)), 'the strength can be above the maximum of a factory')
        else:
            S.require(S.match(v, Err(ANY)), 'gives %s' % show(v)[:200])
            err = S.norm(v.a[2])
            S.require(S.var(err) == 'CantCalculateSeedSize', 'refused with %s' % show(err)[:200])
            A, B = S.norm(err.a[2]), S.norm(err.a[3])
            if isinstance(A, int):
                S.require(S.dec(eq0(n)) and S.same(A, 0) and S.same(B, TOP), 'the bounds of no factories are %s and %s' % (show(A)[:200], show(B)[:200]))
                return
            bounds(A, 'max')
            bounds(B, 'min')
            if not S.dec(eq0(A)):
                S.require(S.dec(le(B, A)), 'a list with a common strength is refused')
    ck.allow(e, name, spec)
