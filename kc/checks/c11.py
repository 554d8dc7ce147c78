from ..ref import *


def run(ck):
    ck.explain = 'Every path of XPrv::from_seed over every seed, and of XPrv::derive over every extended key (as read from every 77-byte string) and every index; results are observed through serialize. The recursive retry is taken as derive itself (induction on the index).'
    ck.rule('master: secret and chain code are the halves of HMAC-SHA512("Bitcoin seed", seed), depth, index, fingerprint zero; refused iff the left half is no valid key')
    ck.rule('child: I = HMAC-SHA512(chain, 0 || secret || index) for index >= 2^31, HMAC-SHA512(chain, compressed public || index) otherwise; secret = parent + left half, chain = right half, depth + 1, index, fingerprint = RIPEMD160(SHA256(compressed public))[0..4]')
    ck.rule('depth 255 refused; invalid left half refused; zero child key: derive(index + 1) unless index is 2^31 - 1 or 2^32 - 1, then refused')
    e = ck.engine({SX + 'derive': pure(SX + 'derive')})

    def master(S, seed):
        h = hmac_of('sha512', lit('Bitcoin seed'), seed_bytes(S, seed))
        left, right = e.slice(S.st, h, 0, 32), e.slice(S.st, h, 32, 64)
        ok, k = sk_parse(S, left)
        if not ok:
            return S.want(Err(ANY))
        S.want(Ok(ANY))
        out = total(S, SX + 'serialize', [byref(S.norm(S.out.v).a[2])], 'serialize')
        S.require(S.same(out, xprv_bytes(S, 0, lits([0] * 4), 0, right, left)), 'the master key serializes as %s' % show(out)[:800])
    ck.allow(e, SX + 'from_seed', master)

    d = ck.symargs(e, SX + 'from_data', ['data'])
    data = e.rb(EMPTYST, d[0])
    index = ck.symargs(e, SX + 'derive', ['self', 'index'])[1]
    n = 0
    for o in ck.outs(e, SX + 'from_data', d):
        v = e.canon(o.st, e.rb(o.st, o.v)) if o.k == 'ret' else None
        if not (isT(v, 'agg') and v.a[1] == 0):
            continue
        n += 1
        parent = v.a[2]

        def child(S):
            depth = e.elem(S.st, data, 0)
            chain = e.slice(S.st, data, 9, 41)
            secret = e.slice(S.st, data, 41, 73)
            ok, key = sk_parse(S, secret)
            S.require(ok, 'a key is made of an invalid secret')
            if S.eq(depth, 255):
                return S.want(Err(secp_err(S, 'DeriveDepthTooBig')))
            hard = S.dec(le(B31, index))
            pub = length(mcall(S, 'secp256k1::PublicKey::serialize_compressed', mcall(S, 'secp256k1::PublicKey::from_secret_key', key)), 33)
            ib = be32(S, index)
            h = hmac_of('sha512', chain, cat(lits([0]), secret, ib) if hard else cat(pub, ib))
            left, right = e.slice(S.st, h, 0, 32), e.slice(S.st, h, 32, 64)
            ok, tw = sk_parse(S, left)
            if not ok:
                return S.want(Err(ANY))
            if S.dec(boolean(mk('sk_zero', key, tw))):
                if S.eq(index, B31 - 1) or S.eq(index, 2 * B31 - 1):
                    return S.want(Err(ANY))
                return S.want(Fn('derive(index + 1) of the same key', lambda S, v: S.same(v, mk('call', SX + 'derive', parent, add(index, 1)))))
            S.want(Ok(ANY))
            out = total(S, SX + 'serialize', [byref(S.norm(S.out.v).a[2])], 'serialize')
            fp = e.slice(S.st, hash_of('ripemd160', hash_of('sha256', pub)), 0, 4)
            sec = length(mk('call', 'secp256k1::SecretKey::serialize', mk('sk_add', key, tw)), 32)
            want = xprv_bytes(S, add(depth, 1), fp, index, right, sec)
            S.require(S.same(out, want), 'the child serializes as %s' % show(out)[:1500])
        ck.judge(e, SX + 'derive', run_from(ck, e, SX + 'derive', [byref(parent), index], o.st), child)
    ck.expect(n, 'no-parent', 'from_data never gives a key')
