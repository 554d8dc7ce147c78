from ..ref import *


def key_failed(S, facs, fn, *args):
    """the outcome reports the failure of a factory of the manager; None when it does not report a KeyError"""
    o = S.out
    if o.k != 'ret':
        return None
    v = S.norm(o.v)
    if not S.match(v, Err(Agg(KERR, 'KeyError', ANY, ANY))):
        return None
    net, err = [S.norm(x) for x in S.norm(v.a[2]).a[2:]]
    c = err.a[0] if isT(err, 'fld') and err.a[1:] == (1, 0) else None
    S.require(isT(c, 'vcall') and c.a[0] == fn, 'the reported failure is not one of a factory: ' + show(err)[:300])
    return net, c


def facnet(S, facs, net, f):
    """net is the network of the factory f of map facs"""
    if not (isT(f, 'mval') and f.a[0] is facs):
        return False
    return S.same(net, S.norm(mk('mkey', *f.a))) or S.same(net, vcall(S, 'keychain::KeyFactory::network', f))


def one_each(S, m, seed, keys):
    """keys has exactly the key data of each factory made from seed"""
    FN = 'keychain::KeyFactory::key_data_from_seed'
    base, gens = S.rounds(keys)
    S.require(base is mk('map') and len(gens) == 1, 'the keys are not one for each factory: %s' % show(S.norm(keys))[:400])
    n, ix, cases = gens[0]
    S.require(n is mk('maplen', m.factories), 'the keys are not made by going over the manager\'s factories: ' + show(n)[:200])
    for conds, kv in cases:
        for st in S.under(conds, ix, n):
            def go(X):
                f = X.norm(mk('mval', m.factories, ix))
                ok, kd = resok(X, vcall(X, FN, f, seed))
                X.require(ok, 'a factory that fails is passed over')
                X.require(kv is not None, 'a supported network gets no key')
                X.require(facnet(X, m.factories, X.norm(kv[0]), f), 'a key is stored under %s' % show(X.norm(kv[0]))[:200])
                X.require(X.same(kv[1], kd), 'a stored key is not what its factory makes of the seed: ' + show(X.norm(kv[1]))[:300])
            S.explore(st, go)


def made(S, m, seed, pw, want):
    ck = S.ck
    if ser_failed(S):
        return
    k = key_failed(S, m.factories, 'keychain::KeyFactory::key_data_from_seed')
    if k is not None:
        net, c = k
        S.require(facnet(S, m.factories, net, S.norm(c.a[1])), 'the failure is reported for %s' % show(net)[:200])
        S.require(S.same(c.a[2], seed), 'a factory is given another seed: ' + show(S.norm(c.a[2]))[:200])
        return
    S.require(S.out.k == 'ret', 'panics')
    got = stored(S, S.out.v, pw, m.random)
    for f in ('seed', 'mnemonic', 'dictionary'):
        S.require(S.match(got[f], want[f]), 'the wallet records %s = %s' % (f, show(S.norm(got[f]))[:300]))
    one_each(S, m, seed, got['keys'])


def run(ck):
    ck.explain = 'Every path of KeychainManager::keychain_data_from_seed and keychain_data_from_mnemonic with symbolic manager (any set of factories), seed, mnemonic, language and password. The loop over the factories is judged for a generic factory.'
    ck.rule('success: version 2 payload; keys has for each factory f exactly (network of f, f.key_data_from_seed(seed)) and nothing else; any failing factory makes the whole creation fail with its network and error')
    ck.rule('from a seed: 64 bytes, recorded, no mnemonic, no language; from a mnemonic: the given text and language (English by default), no seed, the seed used is from_mnemonic_string(to_string(from_string(dictionary, text)), empty passphrase), word count = 3 * strength / 32')
    e = ck.engine(BIP)

    def from_seed(S, mgr, seed, pw):
        m = Mgr(S, mgr)
        if not S.dec(eq0(sub(slen(S.rb(seed)), 64))):
            return S.want(Err(kerr(S, 'InvalidSeedSize', slen(S.rb(seed)))))
        made(S, m, S.norm(seed), pw, dict(seed=Some(seed), mnemonic=None_, dictionary=None_))
    ck.allow(e, 'keychain::KeychainManager::keychain_data_from_seed', from_seed)

    def from_mnemonic(S, mgr, text, pw, lang):
        m = Mgr(S, mgr)
        L = adt(ck, 'keychain::mnemonic::Language')
        la = opt(S, lang)
        if la is None:
            la = mk('agg', L, ck.vix(L, 'English'))
        ok, seed = mnemonic_seed(S, S.norm(text), la, m.words(S))
        if ok == 'err':
            return S.want(Err(kerr(S, 'MnemonicError', seed)))
        made(S, m, seed, pw, dict(seed=None_, mnemonic=Some(text), dictionary=Some(la)))
    names = ['mgr', 'text', 'pw', 'lang']
    ck.allow(e, 'keychain::KeychainManager::keychain_data_from_mnemonic', from_mnemonic)
