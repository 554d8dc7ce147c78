"""C30: public keys are those of the private key, in their published encodings"""
from ..ref import *

PK = 'secp256k1::PublicKey::'
PATH = ['path']


def point(S, key):
    return mcall(S, PK + 'from_secret_key', key)


def run(ck):
    ck.explain = 'XPrv::public of the extended key read from every data, composed with every encoding function of XPub; and pub_key of the key each network\'s factory loads from any data, at any path, down to the curve library.'
    ck.rule('XPrv::public is the library\'s public key of exactly the secret key; serialize = its 65-byte encoding, serialize_compressed = its 33-byte encoding, sha256 and compressed_sha256 = SHA-256 of these; none fails')
    ck.rule('pub_key of Ethereum and Bitcoin keys is the 65-byte encoding of the public key of the derived key, that of Cardano keys the library\'s public key of the derived key; the same bytes a caller gets by encoding the public key itself')
    e = ck.engine()
    d = ck.symargs(e, SX + 'from_data', ['data'])
    data = e.rb(EMPTYST, d[0])
    n = 0
    for o in ck.outs(e, SX + 'from_data', d):
        v = e.canon(o.st, e.rb(o.st, o.v)) if o.k == 'ret' else None
        if not (isT(v, 'agg') and v.a[1] == 0):
            continue
        n += 1
        pubs = run_from(ck, e, SX + 'public', [byref(v.a[2])], o.st)
        for p in pubs:
            if p.k != 'ret':
                ck.judge(e, SX + 'public', [p], lambda S: S.require(False, 'public panics'))
                continue
            for meth in ('serialize', 'serialize_compressed', 'sha256', 'compressed_sha256'):
                if not e.find(SP + meth):
                    ck.expect(False, 'no-' + meth, 'XPub::%s is missing' % meth)
                    continue

                def spec(S, meth=meth):
                    S.require(S.out.k == 'ret', 'panics')
                    ok, key = sk_parse(S, e.slice(S.st, data, 41, 73))
                    S.require(ok, 'a key is made of an invalid secret')
                    comp = 'compressed' in meth
                    enc = length(mcall(S, PK + ('serialize_compressed' if comp else 'serialize'), point(S, key)), 33 if comp else 65)
                    S.want(hash_of('sha256', enc) if 'sha256' in meth else enc)
                ck.judge(e, SP + meth, run_from(ck, e, SP + meth, [byref(e.rb(p.st, p.v))], p.st), spec)
    ck.expect(n, 'no-key', 'from_data never gives a key')
    for net in NETS:
        ck.guard(net, one, ck, net)


def one(ck, net):
    e = ck.engine({SX + 'derive': pure(SX + 'derive'), SX + 'from_data': pure(SX + 'from_data')})
    good, rest, data = network_key(ck, e, net)
    ck.expect(good, net + '/no-key', 'key_from_data never gives a key')
    for st, boxed in good:
        name, args, outs = key_method(ck, e, st, boxed, 'pub_key', PATH)

        def spec(S):
            p = S.rb(args[0])
            S.require(S.out.k == 'ret', 'panics')
            ok, k = resok(S, mcall(S, ED + 'from_bytes_verified' if net == 'cardano' else SX + 'from_data', data))
            r = Refusals(S)
            if path_refusals(S, net, p, r):
                return
            if r.errs:
                return r.settle()
            k = derived_key(S, net, k, p)
            if k is None:
                return
            if net == 'cardano':
                return S.want(Ok(mcall(S, ASREF, mcall(S, ED + 'public', k))))
            X = adt(ck, 'secp256k1_bip32::private::XPrv')
            i = ck.field_ix(X, lambda f: e.types[f[1]].get('path') == 'secp256k1::SecretKey', 'the secret key')
            sk = S.rb(e.note_ty(mk('fld', k, 0, i), ck.adts[X]['v'][0]['f'][i][1]))
            S.want(Ok(length(mcall(S, PK + 'serialize', point(S, sk)), 65)))
        ck.judge(e, name, outs, spec)
