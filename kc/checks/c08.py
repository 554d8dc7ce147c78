from ..ref import *

B = 0x80000000
CARDANO = (0x8000002C, 0x80000717)
ETHEREUM = (0x8000002C, 0x8000003C)


def accessor(S, ty, name, v):
    e = S.e
    f = e.fn('<%s as keychain::KeyPath>::%s' % (ty, name))
    outs = e.run(f, [mk('ref', ('c', S.norm(v)), ())], S.st)
    if len(outs) != 1 or outs[0].k != 'ret':
        raise Fail('%s() of the built path has %d outcomes' % (name, len(outs)))
    S.st = outs[0].st
    return outs[0].v


def path(S, ty, purpose, coin, account, change, address):
    """the outcome is Ok(path) with these accessor values"""
    if not S.match(S.out.v, Ok(ANY)):
        raise Fail('returns %s where a path is due' % show(S.norm(S.out.v))[:400])
    v = S.norm(S.out.v).a[2]
    for n, x in (('purpose', purpose), ('coin', coin), ('account', account), ('change', change), ('address', address)):
        got = accessor(S, ty, n, v)
        S.require(S.same(got, x), '%s() is %s, not %s' % (n, show(S.norm(got))[:200], show(x) if isT(x) else hex(x)))


def bad(S, account=None, change=None, address=None):
    r = Refusals(S)
    P = adt(S.ck, 'keychain::key_path::Error')
    for v, n, cond in ((account, 'InvalidAccount', lambda x: le(B, x)), (change, 'InvalidChange', lambda x: lt(1, x)),
                       (address, 'InvalidAddress', lambda x: le(B, x))):
        if v is not None and S.dec(cond(v)) and r.add(Agg(P, n, v)):
            return True
    return r.settle()


def run(ck):
    ck.explain = 'Every path of the six network path constructors over all 32-bit components and both testnet flags, composed with the five accessors of the returned value.'
    ck.rule('success iff account < 2^31, change <= 1, address < 2^31; the error names a wrong component and carries its value; accessors of the result give purpose, coin, account + 2^31, change, address')
    e = ck.engine()
    C, E, BT = ('keychain::networks::%s::KeyPath' % n for n in ('cardano', 'ethereum', 'bitcoin'))

    def cardano(S, a, c, d):
        if not bad(S, a, c, d):
            path(S, C, CARDANO[0], CARDANO[1], add(a, B), c, d)

    def eth(S, a):
        if not bad(S, a):
            path(S, E, ETHEREUM[0], ETHEREUM[1], add(a, B), 0, 0)

    def meta(S, a):
        if not bad(S, a):
            path(S, E, ETHEREUM[0], ETHEREUM[1], B, 0, a)

    def btc(purpose):
        def f(S, t, a, c, d):
            if not bad(S, a, c, d):
                path(S, BT, purpose, B + 1 if S.dec(t) else B, add(a, B), c, d)
        return f
    ck.allow(e, C + '::new', cardano)
    ck.allow(e, E + '::new', eth)
    ck.allow(e, E + '::new_metamask', meta)
    for n, p in (('bip44', 44), ('bip49', 49), ('bip84', 84)):
        ck.allow(e, BT + '::' + n, btc(B + p))
