"""C28: backups give back exactly what the wallet stores, and only with its password"""
import re
from ..ref import *

KM = 'keychain::KeychainManager::'
NOBACKUP = ('-p', 'tesseract-keychain-c', '--no-default-features', '--features', 'cardano,ethereum,bitcoin,tesseract-keychain/custom-networks')


def listing(S, v, K):
    """the value is a list with one (network, data) pair for each stored key"""
    v = S.norm(v)
    n = mk('maplen', K)
    if isT(v, 'tab') and v.a[0] is n:
        k, d = mk('mkey', K, v.a[1]), mk('mval', K, v.a[1])
        el = S.norm(v.a[2])
        S.require(isT(el, 'agg') and len(el.a) == 4 and S.same(el.a[2], k), 'an entry names %s' % show(el)[:300])
        S.require(S.same(el.a[3], d) or S.same(el.a[3], mk('mget', K, k)), 'an entry holds %s' % show(S.norm(el.a[3]))[:300])
        return
    if not isT(v, 'ftab') or v.a[0] is not n:
        raise Fail('the backup is not the list of the stored keys: %s' % show(v)[:400])
    n, ix, cases = v.a
    for conds, x in cases:
        for st in S.under(conds, ix, n):
            def go(X):
                q = X.norm(x)
                X.require(slen(q) == 1, 'a stored key is listed %s times' % show(slen(q))[:50])
                el = X.norm(X.e.elem(X.st, q, 0))
                k = X.norm(mk('mkey', K, ix))
                X.require(isT(el, 'agg') and X.same(el.a[2], k), 'an entry names %s' % show(el)[:300])
                X.require(X.same(el.a[3], mk('mval', K, ix)) or X.same(el.a[3], mk('mget', K, k)), 'an entry holds %s' % show(el)[:300])
            S.explore(st, go)


def run(ck):
    ck.explain = 'Every path of retrieve_mnemonic and get_keys_data over any manager, data and password and any wallet contents of either version; and the public functions and exports of the program compiled without the backup feature.'
    ck.rule('retrieve_mnemonic = (stored mnemonic, stored dictionary) together; SeedIsNotSaved iff either is missing; a wallet that does not open is refused as opening refuses it')
    ck.rule('get_keys_data = one (network, data) pair for each stored key, with exactly the stored data, and no other; wallets that do not open are refused')
    ck.rule('without the backup feature neither function nor its C counterpart exists')
    e = ck.engine(BIP)

    def phrase(S, m, data, pw):
        k, w = wallet(S, data, pw)
        if k == 'err':
            return S.want(Err(w))
        mn, di = opt(S, w['mnemonic']), opt(S, w['dictionary'])
        if mn is None or di is None:
            return S.want(Err(kerr(S, 'SeedIsNotSaved')))
        S.want(Ok(ANY))
        p = S.norm(S.norm(S.out.v).a[2])
        S.require(isT(p, 'agg') and len(p.a) == 4, 'no pair: %s' % show(p)[:300])
        S.require(S.same(p.a[2], mn), 'the mnemonic given back is %s' % show(S.norm(p.a[2]))[:300])
        S.require(S.same(p.a[3], di), 'the language given back is %s' % show(S.norm(p.a[3]))[:300])
    if build.BACKUP:
        ck.allow(e, KM + 'retrieve_mnemonic', phrase)

    def keys(S, m, data, pw):
        k, w = wallet(S, data, pw)
        if k == 'err':
            return S.want(Err(w))
        S.want(Ok(ANY))
        listing(S, S.norm(S.out.v).a[2], S.norm(w['keys']))
    if build.BACKUP:
        ck.allow(e, KM + 'get_keys_data', keys)

    def absent(c):
        x = c.engine(None, NOBACKUP)
        names = [f['name'] for f in x.fns.values()] + [r.get('name', '') for r in x.d.get('exports', [])] + [r.get('name', '') for r in x.d.get('surface', [])]
        c.extra['names_without_backup'] = len(names)
        for n in names:
            c.expect(not re.search(r'retrieve_mnemonic|get_keys_data|delete_key_backup|delete_mnemonic_info', n), 'without/' + n, '%s exists in a build without the backup feature' % n)
    ck.dump()
    ck.apart([('without backup', absent)])
