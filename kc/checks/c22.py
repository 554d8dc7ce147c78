from ..ref import *


def run(ck):
    ck.explain = 'For each network: every path of sign and verify of a key loaded from any data, over any message, signature of any length and path object, down to the ECDSA or Ed25519 library.'
    ck.rule('Ethereum, Bitcoin: sign(Message(Keccak-256(data)), k) as r ++ s ++ recovery id; verify(Message(Keccak-256(data)), Signature(first 64 bytes), public key of k) for 64 or 65 byte signatures, InvalidSignatureSize otherwise')
    ck.rule('Cardano: Ed25519 sign(k, data), 64 bytes; verify(k, data, signature) for 64 bytes, InvalidSignatureSize otherwise')
    ck.rule('k is the same derived key in sign and verify; no path panics')
    for net in NETS:
        ck.guard(net, one, ck, net)


def one(ck, net):
    e = ck.engine({SX + 'derive': pure(SX + 'derive'), SX + 'from_data': pure(SX + 'from_data')})
    good, rest, data = network_key(ck, e, net)
    K = adt(ck, 'keychain::key::Error')
    ck.expect(good, net + '/no-key', 'key_from_data never gives a key')
    for st, boxed in good:
        for meth, names in (('sign', ['msg', 'path']), ('verify', ['msg', 'sig', 'path'])):
            name, args, outs = key_method(ck, e, st, boxed, meth, names)
            raw = dict(zip(names, args))

            def spec(S):
                a = dict((k, S.rb(v)) for k, v in raw.items())
                S.require(S.out.k == 'ret', 'panics: %s' % (S.out.v[0] if isinstance(S.out.v, tuple) else ''))
                ok, k = resok(S, mcall(S, ED + 'from_bytes_verified' if net == 'cardano' else SX + 'from_data', data))
                r = Refusals(S)
                if path_refusals(S, net, a['path'], r):
                    return
                if meth == 'verify':
                    n = slen(a['sig'])
                    size = S.dec(eq0(sub(n, 64))) or net != 'cardano' and S.dec(eq0(sub(n, 65)))
                    if not size and r.add(Agg(K, 'InvalidSignatureSize', n, 64)):
                        return
                if meth == 'verify' and not r.errs or meth == 'sign':
                    if r.errs:
                        return r.settle()
                k = derived_key(S, net, k, a['path']) if not [x for x in r.errs if x.variant != 'InvalidSignatureSize'] else None
                if r.errs:
                    # a derivation failure may come first; derived_key has judged it
                    return r.settle() if k is not None or [x for x in r.errs if x.variant != 'InvalidSignatureSize'] else None
                if k is None:
                    return
                if net == 'cardano':
                    if meth == 'sign':
                        return S.want(Ok(mcall(S, ASREF, mcall(S, ED + 'sign', k, a['msg']))))
                    return S.want(Ok(mcall(S, ED + 'verify', k, a['msg'], mcall(S, 'ed25519_bip32::signature::Signature::from_bytes', a['sig']))))
                X = adt(ck, 'secp256k1_bip32::private::XPrv')
                i = ck.field_ix(X, lambda f: e.types[f[1]].get('path') == 'secp256k1::SecretKey', 'the secret key')
                sk = S.rb(e.note_ty(mk('fld', k, 0, i), ck.adts[X]['v'][0]['f'][i][1]))
                msg = mcall(S, 'secp256k1::Message::parse', hash_of('keccak256', a['msg']))
                if meth == 'sign':
                    ok, v = resok(S, mcall(S, 'secp256k1::sign', msg, sk))
                    if not ok:
                        return S.want(Err(Agg(K, 'SignError', ANY)))
                    sg = S.rb(e.note_ty(mk('fld', v, 0, 0), e.types[VTY[v]]['e'][0]))
                    rid = S.rb(e.note_ty(mk('fld', v, 0, 1), e.types[VTY[v]]['e'][1]))
                    fs = e.types[VTY[sg]]['v'][0]['f']
                    parts = [M.b32(S.rb(e.note_ty(mk('fld', sg, 0, j), fs[j][1]))) for j in range(2)]
                    n = mcall(S, 'secp256k1::RecoveryId::serialize', rid)
                    RANGE.setdefault(n, (0, 255))
                    if S.dec(lt(1, n)) and S.match(S.out.v, Err(Agg(K, 'SignError', ANY))):
                        return
                    return S.want(Ok(cat(parts[0], parts[1], lits([n]))))
                pk = mcall(S, 'secp256k1::PublicKey::from_secret_key', sk)
                sg = mcall(S, 'secp256k1::Signature::parse', e.slice(S.st, a['sig'], 0, 64))
                return S.want(Ok(mcall(S, 'secp256k1::verify', msg, sg, pk)))
            ck.judge(e, name, outs, spec)
