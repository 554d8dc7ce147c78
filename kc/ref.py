"""Reference terms shared by the checks."""
from .spec import *
from .engine import to_bits, from_bits

CRYPT_ERR = 'keychain::crypt::DecryptError'
KERR = 'keychain::error::Error'


STORED = {'VersionedData': {'version', 'data'}, 'WalletDataV2': {'seed', 'mnemonic', 'dictionary', 'keys'}, 'WalletDataV1': {'keys'}}


def adt(ck, suffix):
    """full path of the only type whose path ends with suffix"""
    r = [p for p in ck.adts if p == suffix or p.endswith('::' + suffix)]
    last = suffix.split('::')[-1]
    if not r and last in STORED:
        # the private types of stored data, by the fields they are stored with
        de = {i['self'] for e in ck.engines for i in e.d['impls'] if i['trait'] == 'serde::de::Deserialize'}
        r = [p for p, t in ck.adts.items() if p in de and t.get('kind') == 'struct' and {f[0] for f in t['v'][0]['f']} == STORED[last]]
    if len(r) != 1:
        raise Stop('anchor not found: type %s (%d candidates)' % (suffix, len(r)))
    return r[0]


def version(S, v):
    """the number a version is stored as"""
    p = adt(S.ck, 'VersionedData')
    ty = next(f[1] for f in S.ck.adts[p]['v'][0]['f'] if f[0] == 'version')
    n = S.var(v)
    return next((int(x['d']) for x in S.e.types[ty]['v'] if x['n'] == n), None)


def length(t, n):
    if isinstance(n, int):
        LEN[t] = n
    elif t not in LEN:
        LEN[t] = n
    return t


def boolean(t):
    RANGE.setdefault(t, (0, 1))
    return t


def pw_key(pw, salt):
    return length(mk('pbkdf2', 'sha512', pw, salt, 19162, 32), 32)


def rng_spans(v, src):
    """[(k, lo, hi)] when every byte of v comes from fills of src, else None"""
    out = []
    for s in segs(v):
        if s[0] == 's' and isT(s[1], 'rng') and s[1].a[0] is src:
            out.append((s[1].a[1], s[2], s[3]))
        else:
            return None
    return out


def sealed(pt, pw, src):
    """pattern: pt sealed under pw with fresh bytes of src"""
    def f(S, v):
        e, st = S.e, S.st
        v = S.norm(v)
        p, w = S.norm(pt), S.norm(pw)
        if not isT(v) or v.op != 'seq' or not S.same(slen(v), add(slen(p), 60)):
            raise Fail('sealed data is not 60 bytes longer than the plaintext: %s' % show(v)[:600])
        if isinstance(v, int):
            return False
        salt, nonce, tag = e.slice(st, v, 0, 32), e.slice(st, v, 32, 44), e.slice(st, v, 44, 60)
        ct = e.slice(st, v, 60, slen(v))
        src_ = S.norm(src)
        a, b = rng_spans(salt, src_), rng_spans(nonce, src_)
        if a is None:
            raise Fail('the salt is not filled from the random source %s: %s' % (show(src_), show(salt)[:300]))
        if b is None:
            raise Fail('the nonce is not filled from the random source %s: %s' % (show(src_), show(nonce)[:300]))
        al = a + b
        for i in range(len(al)):
            for j in range(i):
                if al[i][0] == al[j][0] and al[i][1] < al[j][2] and al[j][1] < al[i][2]:
                    raise Fail('salt and nonce share random bytes')
        key = pw_key(w, salt)
        if not S.same(tag, mk('aead_tag', key, nonce, EMPTY, p)):
            raise Fail('the tag is not that of the plaintext under the password-derived key: %s' % show(tag)[:600])
        if not S.same(ct, length(mk('aead_ct', key, nonce, EMPTY, p), slen(p))):
            raise Fail('the ciphertext is not that of the plaintext under the password-derived key: %s' % show(ct)[:600])
        return True
    return Fn('sealed(%s)' % pshow(pt)[:120], f)


def opening(S, data, pw):
    """('short',) | ('bad',) | ('ok', plaintext)"""
    e = S.e
    if S.dec(lt(slen(data), 60)):
        return ('short', None)
    st = S.st
    salt, nonce, tag = e.slice(st, data, 0, 32), e.slice(st, data, 32, 44), e.slice(st, data, 44, 60)
    ct = e.slice(st, data, 60, slen(data))
    key = pw_key(pw, salt)
    ok = boolean(mk('aead_ok', key, nonce, EMPTY, ct, tag))
    if not S.dec(ok):
        return ('bad', None)
    return ('ok', length(mk('aead_pt', key, nonce, EMPTY, ct), slen(ct)))


# ---------------------------------------------------------------- bip39 interface
WORDS = (9, 12, 15, 18, 21, 24)


def pure(name):
    def h(e, st, c):
        return e.opaque(name, c, st)
    return h


def from_string(e, st, c):
    """bip39::Mnemonics::from_string: on success one of the six word counts (decided by C14)"""
    outs = []
    for o in e.opaque('bip39::Mnemonics::from_string', c, st):
        for s, vi in e.split_variant(o.st, o.v):
            if vi != 0:
                outs.append(Out('ret', o.v, s))
                continue
            m = e.rd1(s, o.v, ('f', 0, 0, None))
            ty = e.types[c.dty]['args'][0]
            e.note_ty(m, ty)
            w = e.note_ty(mk('fld', m, 0, 0), e.types[ty]['v'][0]['f'][0][1])
            n = slen(w)
            for k in WORDS:
                s2 = ENG.assume(s, eq0(sub(n, k)), 1)
                if s2 is not None:
                    outs.append(Out('ret', o.v, s2))
    return outs


BIP = {'bip39::Mnemonics::from_string': from_string,
       'bip39::Mnemonics::to_string': pure('bip39::Mnemonics::to_string'),
       'bip39::Seed::from_mnemonic_string': pure('bip39::Seed::from_mnemonic_string')}


def dictionaries(ck, e):
    """variant name of Language -> the dictionary constant it selects"""
    if getattr(e, '_dicts', None) is None:
        p = adt(ck, 'keychain::mnemonic::Language')
        dd = {}
        for i, v in enumerate(ck.adts[p]['v']):
            outs = e.run(e.fn('keychain::Language::to_dict'), [mk('ref', ('c', mk('agg', p, i)), ())])
            if len(outs) != 1 or outs[0].k != 'ret':
                raise Stop('Language::to_dict has %d outcomes for %s' % (len(outs), v['n']))
            dd[v['n']] = e.rb(outs[0].st, outs[0].v)
        e._dicts = dd
    return e._dicts


def opt(S, v):
    """payload of an Option value, None when it is None"""
    k = S.var(v)
    if k == 'None':
        return None
    v = S.rb(v)
    if isT(v, 'agg'):
        return v.a[2]
    t = VTY.get(v)
    r = mk('fld', v, 1, 0)
    if t is not None:
        S.e.note_ty(r, S.e.types[t]['args'][0])
    return S.rb(r)


def resok(S, v):
    """(True, payload) or (False, error)"""
    k = S.var(v)
    v = S.rb(v)
    i = 0 if k == 'Ok' else 1
    if isT(v, 'agg'):
        return k == 'Ok', v.a[2]
    t = VTY.get(v)
    r = mk('fld', v, i, 0)
    if t is not None:
        S.e.note_ty(r, S.e.types[t]['args'][i])
    return k == 'Ok', S.rb(r)


def typed_call(S, name, ty, *args):
    """the opaque call term, typed"""
    t = mk('call', name, *args)
    if ty is not None:
        S.e.note_ty(t, ty)
    return t


def rettype(e, name):
    return e.fns[e.fn(name)]['sig'][1]


def mnemonic_seed(S, text, lang, words, passphrase=EMPTY):
    """seed bytes of a mnemonic text: ('err', pattern of mnemonic::Error) | ('ok', 64 bytes)"""
    ck, e = S.ck, S.e
    ME = adt(ck, 'keychain::mnemonic::Error')
    d = dictionaries(ck, e)[S.var(lang)]
    c = typed_call(S, 'bip39::Mnemonics::from_string', rettype(e, 'bip39::Mnemonics::from_string'), d, text)
    ok, m = resok(S, c)
    if not ok:
        return 'err', ANY
    n = slen(S.norm(e.note_ty(mk('fld', m, 0, 0), e.types[VTY[m]]['v'][0]['f'][0][1])))
    got = S.st.point(n) if isT(n) else n
    if not isinstance(got, int):
        for k in WORDS[:-1]:
            if S.dec(eq0(sub(n, k))):
                got = k
                break
        else:
            got = WORDS[-1]
    if S.dec(lt(got, words)):
        return 'err', Agg(ME, 'MnemonicToShort', got, words)
    if S.dec(lt(words, got)):
        return 'err', Agg(ME, 'MnemonicToLong', got, words)
    ms = typed_call(S, 'bip39::Mnemonics::to_string', rettype(e, 'bip39::Mnemonics::to_string'), m, d)
    sd = typed_call(S, 'bip39::Seed::from_mnemonic_string', rettype(e, 'bip39::Seed::from_mnemonic_string'), ms, passphrase)
    return 'ok', S.rb(e.note_ty(mk('fld', sd, 0, 0), e.types[VTY[sd]]['v'][0]['f'][0][1]))


# ---------------------------------------------------------------- keychain manager
class Mgr:
    """the private parts of a KeychainManager value, found by type"""

    def __init__(s, S, m):
        ck, e = S.ck, S.e
        p = adt(ck, 'KeychainManager')
        fs = ck.adts[p]['v'][0]['f']

        def fld(i):
            if isT(m, 'agg'):
                return S.norm(m.a[2 + i])
            return S.norm(e.note_ty(mk('fld', m, 0, i), fs[i][1]))
        s.factories = fld(ck.field_ix(p, lambda f: 'HashMap' in e.types[f[1]]['s'] and 'KeyFactory' in e.types[f[1]]['s'], 'the factory map'))
        s.random = fld(ck.field_ix(p, lambda f: 'dyn' in e.types[f[1]]['s'] and 'Entropy' in e.types[f[1]]['s'], 'the random source'))
        s.size = fld(ck.field_ix(p, lambda f: e.types[f[1]]['k'] == 'int', 'the seed size'))

    def words(s, S):
        """mnemonic length for this manager's strength"""
        return mulc(S.e.arith(S.st, 'Div', s.size, 32, usize(S.e))[0], 3)


def vcall(S, name, *args):
    """result of a trait-object method: typed opaque term"""
    e = S.e
    t = mk('vcall', name, *args)
    if t not in VTY and t not in RANGE:
        for k, f in e.fns.items():
            if f['kind'].startswith('virtual') and e.fkey(f) == name and 'sig' in f:
                e.note_ty(t, f['sig'][1])
                break
    return t


def kerr(S, variant, *fs):
    return Agg(adt(S.ck, 'keychain::error::Error'), variant, *fs)


def wallet(S, data, pw):
    """what opening a wallet gives: ('err', pattern) | ('ok', dict(seed, mnemonic, dictionary, keys))"""
    ck, e = S.ck, S.e
    k, pt = opening(S, data, pw)
    if k == 'short':
        return 'err', kerr(S, 'NotEnoughData')
    if k == 'bad':
        return 'err', kerr(S, 'WrongPassword')
    VD = adt(ck, 'VersionedData')
    j = json_de(S, VD, pt)
    ok, vd = resok(S, j)
    if not ok:
        return 'err', kerr(S, 'DataError', vd)
    ver = S.field(vd, 'version')
    body = S.field(vd, 'data')
    v = version(S, ver)
    W2 = adt(ck, 'WalletDataV2')
    W1 = adt(ck, 'WalletDataV1')
    ok, w = resok(S, json_de(S, W1 if v == 1 else W2, body))
    if not ok:
        return 'err', kerr(S, 'DataError', w)
    if v == 1:
        return 'ok', dict(seed=NONE, mnemonic=NONE, dictionary=NONE, keys=S.field(w, 'keys'))
    return 'ok', dict((k, S.field(w, k)) for k in ('seed', 'mnemonic', 'dictionary', 'keys'))


def result_ty(e, okpath):
    """a Result type whose Ok side is the named type and whose Err side is serde_json's error"""
    for k, t in e.types.items():
        if t['k'] == 'adt' and t['path'] == RES and isinstance(t['args'][0], int) and e.types[t['args'][0]].get('path') == okpath \
                and 'serde_json' in e.types[t['args'][1]].get('path', ''):
            return k
    return None


def json_de(S, path, bytes_):
    t = mk('json_de', path.split('::')[-1], bytes_)
    ty = result_ty(S.e, path)
    if ty is not None:
        S.e.note_ty(t, ty)
    return t


def usize(e):
    for k, t in e.types.items():
        if t['k'] == 'int' and t['s'] == 'usize':
            return k
    raise Stop('no usize')


def has(M, k):
    return boolean(mk('has', M, k))


class Refusals:
    """errors an outcome may report; any one of them that applies is allowed"""

    def __init__(s, S):
        s.S = S
        s.errs = []

    def add(s, p):
        """True when the outcome reports exactly this error"""
        s.errs.append(p)
        if s.S.out.k != 'ret' or s.S.match(s.S.out.v, Ok(ANY)):
            s.settle()
        return s.S.match(s.S.out.v, Err(p))

    def settle(s):
        """refuse outcomes that report nothing of the kind; False when no refusal applies"""
        if s.errs:
            s.S.want(OneOf(*[Err(p) for p in s.errs]))
        return bool(s.errs)


def unseal(S, v, pw, src):
    """the plaintext sealed in v (checked to be sealed as C01 says)"""
    v = S.norm(v)
    if not isT(v, 'seq') or not v.a or v.a[-1][0] != 's' or not isT(v.a[-1][1], 'aead_ct'):
        raise Fail('the result is not sealed data: %s' % show(v)[:600])
    pt = v.a[-1][1].a[3]
    sealed(pt, pw, src).f(S, v)
    return pt


def ser_value(S, v, what):
    """X when v is the successful JSON of X"""
    v = S.norm(v)
    if isT(v, 'fld') and isT(v.a[0], 'json_ser') and v.a[1] == 0:
        return v.a[0].a[0]
    raise Fail('%s is not the JSON of a value: %s' % (what, show(v)[:600]))


def ser_failed(S):
    """the outcome reports that JSON encoding failed"""
    o = S.out
    if o.k != 'ret':
        return False
    v = S.norm(o.v)

    def is_ser_err(S, x):
        x = S.norm(x)
        return isT(x, 'fld') and isT(x.a[0], 'json_ser') and x.a[1] == 1
    return S.match(v, Err(kerr(S, 'DataError', Fn('JSON encoding error', is_ser_err))))


def stored(S, v, pw, src):
    """the wallet sealed in the successful result v, as a version 2 wallet"""
    ck = S.ck
    if not S.match(v, Agg(RES, 'Ok', ANY)):
        raise Fail('returns %s where a sealed wallet is due' % show(S.norm(v))[:600])
    pt = unseal(S, S.norm(v).a[2], pw, src)
    vd = ser_value(S, pt, 'the sealed plaintext')
    S.require(S.match(vd, Agg(adt(ck, 'VersionedData'), '', ANY, ANY)), 'the plaintext is not a versioned envelope: ' + show(vd)[:300])
    S.require(version(S, S.field(vd, 'version')) == 2, 'the envelope is not version 2')
    w = ser_value(S, S.field(vd, 'data'), 'the envelope data')
    S.require(S.match(w, Agg(adt(ck, 'WalletDataV2'), '', ANY, ANY, ANY, ANY)) or isT(w) and VTY.get(w) is not None, 'the payload is not a version 2 wallet')
    return dict((k, S.field(w, k)) for k in ('seed', 'mnemonic', 'dictionary', 'keys'))


# ---------------------------------------------------------------- network keys
B31 = 0x80000000
NETS = {'cardano': dict(purpose=0x8000002C, coin=0x80000717), 'ethereum': dict(purpose=0x8000002C, coin=0x8000003C), 'bitcoin': dict(purpose=None, coin=B31)}
ED = 'ed25519_bip32::key::XPrv::'
SX = 'secp256k1_bip32::private::XPrv::'
SP = 'secp256k1_bip32::public::XPub::'
SECP = {n: pure(n) for n in (SX + 'derive', SX + 'from_data', SX + 'sign', SX + 'public', SP + 'serialize', SP + 'verify')}
ASREF = 'std::convert::AsRef::as_ref'


def mcall(S, name, *args):
    """pure library call, typed from its declaration when it has one"""
    e = S.e
    t = mk('call', name, *[S.rb(a) if isT(a) else a for a in args])
    if t not in VTY:
        r = e.find(name)
        if r:
            e.note_ty(t, e.fns[r[0]]['sig'][1])
    return S.twin(t)


def network_key(ck, e, net):
    """(outcomes of key_from_data over any data that give a key: [(state, key value)], other outcomes, the data)"""
    name = '<keychain::networks::%s::KeyFactory as keychain::KeyFactory>::key_from_data' % net
    args = ck.symargs(e, name, ['f', 'data'])
    good, rest = [], []
    for o in ck.outs(e, name, args):
        v = e.canon(o.st, e.rb(o.st, o.v)) if o.k == 'ret' else None
        if isT(v, 'agg') and v.a[1] == 0:
            good.append((o.st, v.a[2]))
        else:
            rest.append(o)
    return good, rest, e.rb(EMPTYST, args[1])


def key_method(ck, e, st, boxed, meth, names):
    """outcomes of a method of a boxed key: (name, args after self, outcomes)"""
    if not isT(boxed, 'dynv'):
        raise Stop('the key is not a boxed concrete type: %s' % show(boxed)[:200])
    name = '<%s as keychain::Key>::%s' % (boxed.a[1], meth)
    tys = e.fns[e.fn(name)]['sig'][0]
    args = [e.symbolic(n, t) for n, t in zip(names, tys[1:])]
    return name, args, ck.outs(e, name, [mk('ref', ('c', boxed.a[0]), ())] + args, st)


def path_of(S, p):
    return dict((n, vcall(S, 'keychain::KeyPath::' + n, p)) for n in ('purpose', 'coin', 'account', 'change', 'address'))


def path_refusals(S, net, p, r):
    """errors a key of `net` may report for path p; True when the outcome is one of them"""
    P = adt(S.ck, 'keychain::key_path::Error')
    K = adt(S.ck, 'keychain::key::Error')
    want = NETS[net]
    c = path_of(S, p)

    def err(n, *fs):
        return r.add(Agg(K, 'InvalidKeyPath', Agg(P, n, *fs)))
    if want['purpose'] is not None and not S.eq(c['purpose'], want['purpose']) and err('InvalidPurpose', c['purpose'], want['purpose']):
        return True
    if not S.eq(c['coin'], want['coin']) and err('InvalidCoin', c['coin'], want['coin']):
        return True
    if S.dec(lt(c['account'], B31)) and err('InvalidAccount', c['account']):
        return True
    if S.dec(lt(1, c['change'])) and err('InvalidChange', c['change']):
        return True
    if S.dec(le(B31, c['address'])) and err('InvalidAddress', c['address']):
        return True
    return False


def not_path_error(S, v):
    v = S.norm(v)
    K = adt(S.ck, 'keychain::key::Error')
    return isT(v, 'agg') and v.a[0] == K and S.ck.vname(K, v.a[1]) != 'InvalidKeyPath'


def library_error(S):
    """the outcome must be an error that does not blame the path"""
    S.want(Err(Fn('an error of the key library', not_path_error)))


def derived_key(S, net, root, p):
    """the key at path p below root; None after a derivation failure (the outcome has then been judged)"""
    c = path_of(S, p)
    idx = [NETS[net]['purpose'] if NETS[net]['purpose'] is not None else c['purpose'], NETS[net]['coin'], c['account'], c['change'], c['address']]
    k = root
    for i in idx:
        if net == 'cardano':
            D = adt(S.ck, 'DerivationScheme')
            k = mcall(S, ED + 'derive', k, mk('agg', D, S.ck.vix(D, 'V2')), i)
        else:
            ok, k = resok(S, mcall(S, SX + 'derive', k, i))
            if not ok:
                library_error(S)
                return None
    return k


# ---------------------------------------------------------------- secp256k1 extended keys
def hash_of(alg, *parts):
    return M.hash_(alg, cat(*parts))


def be32(S, v):
    return S.e.int_to_bytes(S.st, v, 4, 'big')


def xprv_bytes(S, depth, fingerprint, index, chain, secret):
    body = cat(lits([depth]), fingerprint, be32(S, index), chain, secret)
    return cat(body, S.e.slice(S.st, hash_of('sha256', hash_of('sha256', body)), 0, 4))


def sk_parse(S, x):
    """(True, secret key) or (False, None) for 32 bytes"""
    e = S.e
    t = mk('call', 'secp256k1::SecretKey::parse', x)
    if t not in VTY:
        for k, ty in e.types.items():
            if ty['k'] == 'adt' and ty['path'] == RES and isinstance(ty['args'][0], int) and e.types[ty['args'][0]].get('path') == 'secp256k1::SecretKey':
                e.note_ty(t, k)
                break
    return resok(S, t)


def secret_of(S, x):
    """bytes of the secret key parsed from x"""
    return x


def run1(S, name, args):
    """outcomes of name from the state of S"""
    S.ck.anchors[name] = S.ck.anchors.get(name, 0)
    r = S.e.run(S.e.fn(name), args, S.st)
    S.ck.anchors[name] += len(r)
    return r


def byref(v):
    return mk('ref', ('c', v), ())


def total(S, name, args, what):
    """the value of a function that has one outcome here"""
    outs = run1(S, name, args)
    if len(outs) != 1 or outs[0].k != 'ret':
        raise Fail('%s has %d outcomes%s' % (what, len(outs), ''.join(' (%s: %s)' % (o.k, o.v[0] if o.k == 'panic' else '') for o in outs[:3])))
    S.st = outs[0].st
    return S.norm(outs[0].v)


def secp_err(S, variant, *fs):
    return Agg(adt(S.ck, 'secp256k1_bip32::error::KeyError'), variant, *fs)


def hmac_of(alg, key, data):
    return M.hmac_(alg, key, data)


def seed_bytes(S, seed):
    """bytes of a bip39::Seed value"""
    e = S.e
    t = e.types[VTY[seed]]
    return S.norm(e.note_ty(mk('fld', seed, 0, 0), t['v'][0]['f'][0][1]))


def run_from(ck, e, name, args, st):
    r = e.run(e.fn(name), args, st)
    ck.anchors[name] = ck.anchors.get(name, 0) + len(r)
    return r


def callee(e, t):
    """the function a call terminator names, None for calls through pointers"""
    ty = e.types[t[2]]
    if 'def' not in ty and not ty.get('f'):
        return None
    f = e.fns.get(ty.get('f')) if ty.get('f') else None
    if f is None:
        f = {'name': ty['def'], 'def': ty['def'], 'path': ty['path'], 'ws': False, 'args': ty['args'], 'kind': 'item', 'krate': ''}
    return f


def call_tys(e, t, g):
    return [x for x in list(t[6] or []) + list(g.get('args') or []) if isinstance(x, int)]
