from ..ref import *


def run(ck):
    ck.explain = 'For each network: every path of the factory\'s key_from_data over all data, composed with every path of pub_key, sign and verify of the key it gives, over any path object, data and signature.'
    ck.rule('refused iff coin, account (hardened), change (0/1), address (not hardened) or, for Ethereum and Cardano, purpose is wrong; the error names a wrong component with its value; otherwise the operation is applied to derive(root, purpose, coin, account, change, address) in that order')
    ck.rule('sign, verify and pub_key go through the same chain; accepted verify results are those of the HD-key library for this key, message and signature')
    for net in NETS:
        ck.guard(net, one, ck, net)


def one(ck, net):
    e = ck.engine(SECP)
    good, rest, data = network_key(ck, e, net)
    lib = ED + 'from_bytes_verified' if net == 'cardano' else SX + 'from_data'

    def root(S):
        return resok(S, mcall(S, lib, data))

    def refused(S):
        # loading may fail for the data, or for a fixed derivation step
        if net == 'cardano':
            if not S.dec(eq0(sub(slen(data), 96))):
                return library_error(S)
            ok, k = root(S)
            S.require(not ok, 'valid key data is refused')
            return library_error(S)
        ok, k = root(S)
        if not ok:
            return library_error(S)
        for i in (NETS[net]['purpose'], NETS[net]['coin']):
            if i is None:
                break
            ok, k = resok(S, mcall(S, SX + 'derive', k, i))
            if not ok:
                return library_error(S)
        raise Fail('valid key data is refused')
    if rest:
        ck.judge(e, '<keychain::networks::%s::KeyFactory as keychain::KeyFactory>::key_from_data' % net, rest, refused)
    ck.expect(good, net + '/no-key', 'key_from_data never gives a key')
    for st, boxed in good:
        for meth, names in (('pub_key', ['path']), ('sign', ['msg', 'path']), ('verify', ['msg', 'sig', 'path'])):
            name, args, outs = key_method(ck, e, st, boxed, meth, names)
            raw = dict(zip(names, args))

            def spec(S):
                a = dict((k, S.rb(v)) for k, v in raw.items())
                if net == 'cardano':
                    S.require(S.dec(eq0(sub(slen(data), 96))), 'a key is made of data of another size')
                ok, k = root(S)
                S.require(ok, 'a key is made of data the library refuses')
                r = Refusals(S)
                if path_refusals(S, net, a['path'], r):
                    return
                if meth == 'verify' and net == 'cardano' and not S.dec(eq0(sub(slen(a['sig']), 64))):
                    if r.add(Agg(adt(ck, 'keychain::key::Error'), 'InvalidSignatureSize', slen(a['sig']), 64)):
                        return
                if r.errs:
                    r.settle()
                    return
                k = derived_key(S, net, k, a['path'])
                if k is None:
                    return
                if net == 'cardano':
                    if meth == 'pub_key':
                        return S.want(Ok(mcall(S, ASREF, mcall(S, ED + 'public', k))))
                    if meth == 'sign':
                        return S.want(Ok(mcall(S, ASREF, mcall(S, ED + 'sign', k, a['msg']))))
                    return S.want(Ok(mcall(S, ED + 'verify', k, a['msg'], mcall(S, 'ed25519_bip32::signature::Signature::from_bytes', a['sig']))))
                if meth == 'sign':
                    ok, v = resok(S, mcall(S, SX + 'sign', k, a['msg']))
                else:
                    pk = mcall(S, SX + 'public', k)
                    if meth == 'pub_key':
                        return S.want(Ok(mcall(S, SP + 'serialize', pk)))
                    ok, v = resok(S, mcall(S, SP + 'verify', pk, a['msg'], a['sig']))
                if ok:
                    return S.want(Ok(v))
                library_error(S)
            ck.judge(e, name, outs, spec)
