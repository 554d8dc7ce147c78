from ..ref import *


def run(ck):
    ck.explain = 'Every path of XPrv::from_data over byte strings of every length, composed with XPrv::serialize of the key it gives; and serialize of the master key.'
    ck.rule('from_data succeeds iff the length is 77, bytes 73..77 are the first four of SHA-256(SHA-256(bytes 0..73)) and bytes 41..73 are a valid secret key; the size error reports both sizes')
    ck.rule('serialize(from_data(x)) = x; serialize = depth ++ fingerprint ++ index (BE) ++ chain code ++ secret ++ checksum (master key: depth, fingerprint and index zero)')
    e = ck.engine()

    def load(S, data):
        if not S.dec(eq0(sub(slen(data), 77))):
            return S.want(Err(secp_err(S, 'InvalidDataSize', slen(data), 77)))
        body = e.slice(S.st, data, 0, 73)
        sumv = e.slice(S.st, hash_of('sha256', hash_of('sha256', body)), 0, 4)
        if not S.eq(e.slice(S.st, data, 73, 77), sumv):
            return S.want(Err(ANY))
        ok, key = sk_parse(S, e.slice(S.st, data, 41, 73))
        if not ok:
            return S.want(Err(ANY))
        S.want(Ok(ANY))
        out = total(S, SX + 'serialize', [byref(S.norm(S.out.v).a[2])], 'serialize')
        S.require(S.same(out, data) or S.same(out, xprv_bytes(S, e.elem(S.st, data, 0), e.slice(S.st, data, 1, 5), e.int_from_bytes(S.st, e.slice(S.st, data, 5, 9), 'big'), e.slice(S.st, data, 9, 41), e.slice(S.st, data, 41, 73))),
                  'serializing what was read gives %s' % show(out)[:800])
    ck.allow(e, SX + 'from_data', load)

    def master(S, seed):
        if S.match(S.out.v, Err(ANY)):
            return
        S.want(Ok(ANY))
        sd = seed_bytes(S, seed)
        h = hmac_of('sha512', lit('Bitcoin seed'), sd)
        out = total(S, SX + 'serialize', [byref(S.norm(S.out.v).a[2])], 'serialize')
        want = xprv_bytes(S, 0, lits([0] * 4), 0, e.slice(S.st, h, 32, 64), e.slice(S.st, h, 0, 32))
        S.require(S.same(out, want), 'the master key serializes as %s' % show(out)[:800])
    ck.allow(e, SX + 'from_seed', master)
