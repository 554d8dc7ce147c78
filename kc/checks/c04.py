from ..ref import *


def run(ck):
    ck.explain = 'Every path of KeychainManager::add_network with symbolic manager, data, password and network, over any wallet contents of either version.'
    ck.rule('success: same seed, mnemonic, dictionary; keys = stored keys + exactly (network, key_data_from_seed(factory of network, the wallet\'s own seed)), sealed under the same password; every refusal is justified by the inputs and no success happens when one applies')
    e = ck.engine(BIP)

    def spec(S, mgr, data, pw, net):
        m = Mgr(S, mgr)
        r = Refusals(S)
        if not S.dec(has(m.factories, net)) and r.add(kerr(S, 'NetworkIsNotSupported', net)):
            return
        k, w = wallet(S, data, pw)
        if k == 'err':
            r.add(w)
            return S.require(r.settle(), '')
        if S.dec(has(w['keys'], net)) and r.add(kerr(S, 'KeyAlreadyExist', net)):
            return
        sd = opt(S, w['seed'])
        seed = None
        if sd is not None:
            if S.dec(eq0(sub(slen(sd), 64))):
                seed = sd
            elif r.add(kerr(S, 'InvalidSeedSize', slen(sd))):
                return
        else:
            mn = opt(S, w['mnemonic'])
            di = opt(S, w['dictionary']) if mn is not None else None
            if mn is None or di is None:
                if r.add(kerr(S, 'SeedIsNotSaved')):
                    return
            else:
                ok, seed = mnemonic_seed(S, mn, di, m.words(S))
                if ok == 'err':
                    if r.add(kerr(S, 'MnemonicError', seed)):
                        return
                    seed = None
        if r.errs:
            r.settle()
            return
        kd = vcall(S, 'keychain::KeyFactory::key_data_from_seed', mk('mget', m.factories, net), seed)
        ok, kd = resok(S, kd)
        if not ok:
            return S.want(Err(kerr(S, 'KeyError', net, kd)))
        if ser_failed(S):
            return
        S.require(S.out.k == 'ret', 'panics')
        got = stored(S, S.out.v, pw, m.random)
        for f in ('seed', 'mnemonic', 'dictionary'):
            S.require(S.same(got[f], w[f]), 'the stored %s changes: %s' % (f, show(S.norm(got[f]))[:300]))
        S.require(S.same(got['keys'], mk('ins', S.norm(w['keys']), S.norm(net), S.norm(kd))), 'the stored keys are not the old ones plus the new one: %s' % show(S.norm(got['keys']))[:800])
    ck.allow(e, 'keychain::KeychainManager::add_network', spec)
