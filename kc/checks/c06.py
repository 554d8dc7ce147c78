from ..ref import *

FN = 'keychain::KeyFactory::key_from_data'


def opened(S, m, K):
    """the outcome is a keychain made of the stored keys K and the factories of m"""
    ck, e = S.ck, S.e
    F = m.factories
    o = S.out
    S.require(o.k == 'ret', 'panics')
    v = S.norm(o.v)
    if S.match(v, Err(Agg(KERR, 'KeyError', ANY, ANY))):
        net, err = [S.norm(x) for x in S.norm(v.a[2]).a[2:]]
        c = err.a[0] if isT(err, 'fld') and err.a[1:] == (1, 0) else None
        S.require(isT(c, 'vcall') and c.a[0] == FN, 'the reported failure is not one of a factory: ' + show(err)[:300])
        f, data = S.norm(c.a[1]), S.norm(c.a[2])
        S.require(pairs(S, F, K, net, f, data), 'the failure of %s on %s is reported for %s' % (show(f)[:200], show(data)[:200], show(net)[:200]))
        return
    P = adt(ck, 'keychain::keychain::Keychain')
    S.require(S.match(v, Ok(Fn('keychain', lambda S, x: isT(S.norm(x), 'agg') and S.norm(x).a[0] == P))), 'returns %s where a keychain is due' % show(v)[:300])
    kc = S.norm(v.a[2])
    keys = kc.a[2 + ck.field_ix(P, lambda f: 'HashMap' in e.types[f[1]]['s'], 'the key map')]
    base, gens = S.rounds(keys)
    S.require(base is mk('map') and len(gens) == 1, 'the keychain is not one key for each stored key: ' + show(S.norm(keys))[:300])
    n, ix, cases = gens[0]
    byfac = n is mk('maplen', F)
    S.require(byfac or n is mk('maplen', K), 'the keychain is not made by going over the stored keys: ' + show(n)[:200])
    for conds, kv in cases:
        for st in S.under(conds, ix, n):
            def go(X):
                net = X.norm(mk('mkey', F if byfac else K, ix))
                if not X.dec(has(K if byfac else F, net)):
                    return X.require(kv is None, 'a key is made for a network that is not both stored and supported')
                f = X.norm(mk('mval', F, ix) if byfac else mk('mget', F, net))
                data = X.norm(mk('mget', K, net) if byfac else mk('mval', K, ix))
                ok, key = resok(X, vcall(X, FN, f, data))
                X.require(ok, 'a stored key that its factory rejects is passed over')
                X.require(kv is not None, 'a stored key of a supported network is left out')
                X.require(X.same(kv[1], key), 'the keychain holds %s' % show(X.norm(kv[1]))[:300])
                X.require(X.same(kv[0], net) or X.same(kv[0], vcall(X, 'keychain::Key::network', X.norm(key))), 'a key is registered under %s' % show(X.norm(kv[0]))[:300])
            S.explore(st, go)


def pairs(S, F, K, net, f, data):
    """factory f and data belong to the same network net"""
    if isT(data, 'mval') and data.a[0] is K:
        k = S.norm(mk('mkey', *data.a))
        return S.same(f, S.norm(mk('mget', F, k))) and (S.same(net, k) or S.same(net, vcall(S, 'keychain::KeyFactory::network', f)))
    if isT(f, 'mval') and f.a[0] is F:
        k = S.norm(mk('mkey', *f.a))
        return S.same(data, S.norm(mk('mget', K, k))) and (S.same(net, k) or S.same(net, vcall(S, 'keychain::KeyFactory::network', f)))
    return False


def run(ck):
    ck.explain = 'Every path of KeychainManager::keychain_from_data over any wallet contents of either version and any set of factories (the loop is judged for a generic stored key), and every path of the Keychain queries for any keychain, network and arguments.'
    ck.rule('the keychain has exactly one key for each network both stored and supported, made by key_from_data of that network\'s factory from that network\'s stored data, registered under that network; a rejected key fails the opening with its network and error; a wallet that does not open is reported as such')
    ck.rule('has_network, networks, pub_key, sign, verify use the key registered under the asked network, pass the arguments unchanged and return its result; a missing network gives KeyDoesNotExist')
    e = ck.engine(BIP)

    def spec(S, mgr, data, pw):
        m = Mgr(S, mgr)
        k, w = wallet(S, data, pw)
        if k == 'err':
            return S.want(Err(w))
        opened(S, m, S.norm(w['keys']))
    ck.allow(e, 'keychain::KeychainManager::keychain_from_data', spec)

    e = ck.engine()
    P = adt(ck, 'keychain::keychain::Keychain')
    ix = ck.field_ix(P, lambda f: 'HashMap' in e.types[f[1]]['s'], 'the key map')

    def keymap(S, kc):
        return S.norm(e.note_ty(mk('fld', S.norm(kc), 0, ix), ck.adts[P]['v'][0]['f'][ix][1]))

    def query(meth):
        def q(S, kc, net, *args):
            M_ = keymap(S, kc)
            net = S.norm(net)
            if not S.dec(has(M_, net)):
                return S.want(Err(kerr(S, 'KeyDoesNotExist', net)))
            ok, v = resok(S, vcall(S, 'keychain::Key::' + meth, S.norm(mk('mget', M_, net)), *[S.norm(a) for a in args]))
            S.want(Ok(v) if ok else Err(kerr(S, 'KeyError', net, v)))
        return q
    for meth in ('pub_key', 'sign', 'verify'):
        ck.allow(e, 'keychain::Keychain::' + meth, query(meth))

    def has_network(S, kc, net):
        S.want(int(S.dec(has(keymap(S, kc), S.norm(net)))))
    ck.allow(e, 'keychain::Keychain::has_network', has_network)

    def networks(S, kc):
        M_ = keymap(S, kc)
        S.require(S.out.k == 'ret', 'panics')
        v = S.norm(S.out.v)
        n = mk('maplen', M_)
        S.require(isT(v, 'tab') and v.a[0] is n and S.same(v.a[2], mk('mkey', M_, v.a[1])), 'the listing is not that of the registered networks: ' + show(v)[:300])
    ck.allow(e, 'keychain::Keychain::networks', networks)

    def new(S, keys):
        S.require(S.out.k == 'ret', 'panics')
        v = S.norm(S.out.v)
        S.require(isT(v, 'agg') and v.a[0] == P, 'no keychain')
        ks = S.norm(keys)
        base, gens = S.rounds(v.a[2 + ix])
        S.require(base is mk('map') and len(gens) == 1 and gens[0][0] is slen(ks), 'the keychain is not made of the given keys: ' + show(v)[:300])
        n, i, cases = gens[0]
        for conds, kv in cases:
            for st in S.under(conds, i, n):
                def go(X):
                    k = X.norm(mk('at', ks, i))
                    X.require(kv is not None and X.same(kv[1], k) and X.same(kv[0], vcall(X, 'keychain::Key::network', k)), 'a given key is not registered under its network')
                S.explore(st, go)
    ck.allow(e, 'keychain::Keychain::new', new)
