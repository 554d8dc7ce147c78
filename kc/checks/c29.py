"""C29: the stored Ethereum and Bitcoin keys are the BIP-32 master key of the seed, and load back as that key"""
from ..ref import *

FIXED = {'ethereum': [0x8000002C, 0x8000003C], 'bitcoin': []}


def run(ck):
    ck.explain = 'For Ethereum and Bitcoin: every path of the factory\'s key_data_from_seed over seeds of every length, composed with every path of the same factory\'s key_from_data on the data it gives.'
    ck.rule('a seed of 64 bytes gives exactly the 77 bytes of the BIP-32 master key (depth, fingerprint, index zero; chain code and secret are the halves of HMAC-SHA512("Bitcoin seed", seed); checksum); refused iff the seed has another length or the left half is no valid key')
    ck.rule('the data a factory makes is accepted by its own key_from_data unless a fixed derivation step fails, and the key made of it is derived, by the network\'s fixed steps only, from a root that serializes to that data')
    for net in FIXED:
        ck.guard(net, one, ck, net)


def unwind(S, k):
    """(root extended key, indexes derived from it)"""
    ix = []
    k = S.rb(k)
    while isT(k, 'fld') and isT(S.rb(k.a[0]), 'call') and S.rb(k.a[0]).a[0] == SX + 'derive':
        c = S.rb(k.a[0])
        ix.insert(0, S.norm(c.a[2]))
        k = S.rb(c.a[1])
    if isT(k, 'ref'):
        k = S.norm(k)
    return k, ix


def one(ck, net):
    F = '<keychain::networks::%s::KeyFactory as keychain::KeyFactory>::' % net
    e = ck.engine({SX + 'derive': pure(SX + 'derive')})
    args = ck.symargs(e, F + 'key_data_from_seed', ['f', 'seed'])
    outs = ck.outs(e, F + 'key_data_from_seed', args)

    def make(S):
        seed = S.rb(args[1])
        if not S.dec(eq0(sub(slen(seed), 64))):
            return S.want(Err(ANY))
        h = hmac_of('sha512', lit('Bitcoin seed'), seed)
        left, right = e.slice(S.st, h, 0, 32), e.slice(S.st, h, 32, 64)
        ok, k = sk_parse(S, left)
        S.want(Ok(xprv_bytes(S, 0, lits([0] * 4), 0, right, left)) if ok else Err(ANY))
    ck.judge(e, F + 'key_data_from_seed', outs, make)

    n = 0
    for o in outs:
        v = e.canon(o.st, e.rb(o.st, o.v)) if o.k == 'ret' else None
        if not (isT(v, 'agg') and v.a[1] == 0):
            continue
        n += 1
        data = v.a[2]

        def load(S):
            S.require(S.out.k == 'ret', 'loading the data the factory made panics')
            v = S.norm(S.out.v)
            if S.match(v, Err(ANY)):
                failed = [c for c, b in S.st.since(None) if isT(c, 'isv') and isT(S.rb(c.a[0]), 'call') and S.rb(c.a[0]).a[0] == SX + 'derive'
                          and (c.a[1] == 1) == bool(b)]
                return S.require(failed and FIXED[net], 'the data the factory made is refused')
            S.want(Ok(ANY))
            b = S.norm(v.a[2])
            S.require(isT(b, 'dynv'), 'no boxed key: %s' % show(b)[:200])
            x = S.norm(b.a[0])
            X = adt(ck, 'secp256k1_bip32::private::XPrv')
            P = adt(ck, 'keychain::networks::%s::key::Key' % net)
            i = ck.field_ix(P, lambda f: e.types[f[1]].get('path') == X, 'the extended key')
            root, ix = unwind(S, S.norm(mk('fld', x, 0, i)) if not isT(x, 'agg') else x.a[2 + i])
            S.require(ix == FIXED[net][:len(ix)], 'the key is derived from the stored one by %s' % ix)
            out = total(S, SX + 'serialize', [byref(root)], 'serialize')
            S.require(S.same(out, data), 'the loaded root serializes as %s' % show(out)[:600])
        ck.judge(e, F + 'key_from_data', run_from(ck, e, F + 'key_from_data', [args[0], byref(data)], o.st), load, net + '/load')
    ck.expect(n, net + '/none', 'no seed gives key data')
