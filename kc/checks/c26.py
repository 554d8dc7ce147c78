from ..ref import *

SIZES = (96, 128, 160, 192, 224, 256)


def run(ck):
    ck.explain = 'Every path of KeychainManager::generate_mnemonic for any manager and language option, of the manager constructors for any arguments, and of the operating-system entropy source.'
    ck.rule('the text is to_string(to_mnemonics(entropy), dictionary of the requested language, English by default); every one of the size/8 entropy bytes comes from one fill of the manager\'s random source and no random byte is used twice; other sizes are refused')
    ck.rule('every manager constructor installs OsEntropy as random source; OsEntropy fills the whole of the given buffer from the operating-system generator')
    B = dict(BIP)
    B['bip39::Entropy::to_mnemonics'] = pure('bip39::Entropy::to_mnemonics')
    e = ck.engine(B)

    def spec(S, mgr, lang):
        m = Mgr(S, mgr)
        L = adt(ck, 'keychain::mnemonic::Language')
        lo = opt(S, lang)
        name = 'English' if lo is None else S.var(lo)
        d = dictionaries(ck, e)[name]
        size = None
        for k in SIZES:
            if S.dec(eq0(sub(m.size, k))):
                size = k
                break
        if size is None:
            return S.want(Err(kerr(S, 'MnemonicError', Agg(adt(ck, 'keychain::mnemonic::Error'), 'InvalidEntropySize', m.size))))
        S.require(S.out.k == 'ret', 'panics')
        S.require(S.match(S.out.v, Ok(ANY)), 'a mnemonic of a supported strength is refused')
        v = S.norm(S.norm(S.out.v).a[2])
        ms = v.a[0] if isT(v, 'fld') and v.a[1:] == (0, 0) else None
        S.require(isT(ms, 'call') and ms.a[0] == 'bip39::Mnemonics::to_string', 'the text is not that of a mnemonic: ' + show(v)[:300])
        tm, dd = ms.a[1], ms.a[2]
        S.require(S.same(dd, d), 'the mnemonic is not spelled in %s' % name)
        tm = S.norm(tm)
        S.require(isT(tm, 'call') and tm.a[0] == 'bip39::Entropy::to_mnemonics', 'the mnemonic is not made of entropy: ' + show(tm)[:300])
        ent = S.norm(tm.a[1])
        S.require(isT(ent, 'agg') and len(ent.a) == 3, 'the entropy is not known: ' + show(ent)[:300])
        b = S.norm(ent.a[2])
        S.require(S.same(slen(b), size // 8), 'the entropy has %s bytes, not %d' % (show(slen(b)), size // 8))
        sp = rng_spans(b, m.random)
        S.require(sp is not None, 'the entropy is not completely filled from the manager\'s random source: ' + show(b)[:300])
        for i in range(len(sp)):
            for j in range(i):
                S.require(sp[i][0] != sp[j][0] or sp[i][1] >= sp[j][2] or sp[j][1] >= sp[i][2], 'random bytes are used twice')
    ck.allow(e, 'keychain::KeychainManager::generate_mnemonic', spec)

    # the constructors
    e2 = ck.engine()
    P = adt(ck, 'KeychainManager')
    found = 0
    for k, f in sorted(e2.fns.items()):
        if not f.get('ws') or 'sig' not in f or 'body' not in f or '{closure' in f['path']:
            continue
        name = e2.norm(f['name'])
        rt = e2.types.get(f['sig'][1])
        if rt is None or not name.startswith('keychain::'):
            continue
        inner = rt
        if rt['k'] == 'adt' and rt['path'] in (RES, OPT) and isinstance(rt['args'][0], int):
            inner = e2.types[rt['args'][0]]
        if inner.get('path') != P:
            continue
        found += 1

        def con(S, *a):
            o = S.out
            if o.k != 'ret':
                return
            v = S.norm(o.v)
            if isT(v, 'agg') and v.a[0] == RES:
                if v.a[1] != 0:
                    return
                v = S.norm(v.a[2])
            m = Mgr(S, v)
            r = m.random
            S.require(isT(r, 'dynv') and r.a[1] == 'keychain::OsEntropy', 'the manager\'s random source is not the operating-system generator: ' + show(r)[:300])
        ck.allow(e2, name, con, label='constructor ' + name)
    ck.expect(found >= 1, 'constructors', 'no constructor of KeychainManager found')

    def fill(S, me, buf):
        S.require(S.out.k == 'ret', 'panics')
        b0 = S.e.rb(EMPTYST, buf)
        got = S.norm(buf)
        S.require(S.same(slen(got), slen(b0)), 'the buffer changes its length')
        ok = True
        for s in segs(got):
            ok = ok and s[0] == 's' and isT(s[1], 'rng') and 'OsRng' in show(s[1].a[0])
        S.require(ok, 'the buffer is not completely filled from the operating-system generator: ' + show(got)[:300])
    ck.allow(e2, '<keychain::OsEntropy as keychain::Entropy>::fill_bytes', fill)
