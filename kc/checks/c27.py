"""C27: secrets are not formatted, copied out or put into errors"""
import re
from ..ref import *
from ..engine import VTY
from . import c25
from .c13 import paths

WS = ('keychain', 'bip39', 'secp256k1_bip32')
# library types that are a secret key themselves
LEAF = re.compile(r'^(secp256k1::SecretKey|ed25519_bip32::(key::)?XPrv)$')
BANNED = re.compile(r'^(std|core|alloc)::(fmt::\w+|clone::\w*Clone|marker::(Copy|StructuralPartialEq)|borrow::ToOwned|string::ToString|cmp::\w+|hash::Hash)$|^serde(_core)?::(ser::)?Serialize$|::Serialize$')
# what may be computed from a secret and given away: public keys, signatures and answers about them, encrypted
# documents, sizes, which networks there are
CALLS = re.compile(r'^(<?secp256k1::PublicKey( as .*>)?::from_secret_key|secp256k1::sign|secp256k1::PublicKey::(create|from)\w*|ed25519_bip32::(key::)?XPrv::(public|sign|verify))\b')
VCALLS = re.compile(r'^keychain::(key::)?Key::(pub_key|sign|verify|network)$')
OPS = {'isv', 'b64err', 'utf8err', 'len', 'maplen', 'aead_ct', 'aead_tag', 'mkeys', 'mkey', 'mhas', 'aead_ok'}
# output other than through results
OUTSIDE = re.compile(r'^(std|core|alloc)::(io::(_print|_eprint|stdio|Write|copy)|fs|net|process|env::set|os)\b|^(log|slog|tracing)::')
RAW = re.compile(r'^secp256k1_bip32::private::XPrv::serialize$|^keychain::crypt::decrypt$|KeyFactory::key_data_from_seed$')
BACKUP = re.compile(r'^keychain::KeychainManager::(retrieve_mnemonic|get_keys_data)$')
# arguments of these functions hold no secrets that an error could repeat (key paths, messages, signatures)
PLAIN = re.compile(r'KeyPath|^keychain::Keychain::|as keychain::Key>|XPub|XPrv::sign$|::fmt$|as .*FromStr|^bip39::util::hex::')


class World:
    def __init__(s, e):
        s.e = e
        s.memo = {}
        s.secret = set()
        s.named = set()
        s.manager = set()
        for t, ty in e.types.items():
            if ty['k'] == 'adt' and ty['path'].split('::')[0] in WS:
                if ty['path'].endswith('::KeychainManager'):
                    s.manager.add(ty['path'])
                    s.named.add(ty['s'])
                elif s.holds(t, set()):
                    s.secret.add(ty['path'])
                    s.named.add(ty['s'])

    def holds(s, t, seen):
        """does a value of this type contain a secret key?"""
        if t in s.memo:
            return s.memo[t]
        if t in seen:
            return False
        seen = seen | {t}
        ty = s.e.types.get(t)
        r = False
        if ty is None:
            return False
        k = ty['k']
        if k == 'adt':
            if LEAF.match(ty['path']):
                r = True
            elif ty['path'].split('::')[0] in WS:
                r = any(s.holds(f[1], seen) for v in ty['v'] for f in v['f'])
            else:
                r = any(s.holds(a, seen) for a in ty.get('args', []) if isinstance(a, int))
        elif k in ('ref', 'ptr', 'array', 'slice'):
            r = s.holds(ty['e'], seen)
        elif k == 'tuple':
            r = any(s.holds(x, seen) for x in ty['e'])
        elif k == 'dyn':
            r = bool(re.search(r'keychain::(key::)?Key$', ty.get('trait', '')))
        s.memo[t] = r
        return r

    def visible(s):
        """the secret types that code outside can name or holds as a Box<dyn Key>"""
        public = {x['name'] for x in s.e.d['surface']} | {x['as'] for x in s.e.d['surface']}
        keys = {i['self'] for i in s.e.d['impls'] if re.search(r'keychain::(key::)?Key$', i['trait'])}
        return sorted(n for n in s.named if n in public or n in keys)

    def owned(s, t):
        """does a value of this type own a secret (not behind a reference)?"""
        ty = s.e.types.get(t)
        if ty is None or ty['k'] in ('ref', 'ptr') or not s.holds(t, set()):
            return False
        if ty['k'] == 'adt' and ty['path'].split('::')[0] not in WS and not LEAF.match(ty['path']):
            return any(s.owned(a) for a in ty.get('args', []) if isinstance(a, int))
        if ty['k'] == 'tuple':
            return any(s.owned(x) for x in ty['e'])
        return True

    def private(s, t):
        """the type of a field of a secret type: is its content part of the secret?"""
        ty = s.e.types.get(t, {})
        if ty.get('k') in ('int', 'bool', 'char'):
            return False
        if ty.get('k') == 'array' and isinstance(ty.get('n'), int) and ty['n'] < 16:
            return False
        return True

    def of_secret(s, t):
        ty = s.e.types.get(VTY.get(t.a[0]))
        while ty and ty['k'] in ('ref', 'ptr'):
            ty = s.e.types[ty['e']]
        return ty is not None and ty['k'] == 'adt' and ty['path'] in s.secret and not ty.get('box')

    def source(s, t):
        """is the term the private field of a key held by a caller, or the content of a decrypted wallet?"""
        if t.op == 'aead_pt' or t.op == 'aead_junk':
            return 'in', 'the content of a wallet'
        if t.op == 'fld' and not made(t.a[0]):
            ty = s.e.types.get(VTY.get(t.a[0]))
            while ty and ty['k'] in ('ref', 'ptr'):
                ty = s.e.types[ty['e']]
            if ty and ty.get('box'):
                return None
            if ty and ty['k'] == 'adt' and ty['path'] in s.secret:
                f = ty['v'][t.a[1]]['f'][t.a[2]]
                if s.private(f[1]):
                    return 'field', 'the field %s of %s' % (f[0], ty['path'])
        return None

    def wide(s, t):
        ty = s.e.types.get(VTY.get(t))
        if ty is None:
            r = s.e.types.get(VTY.get(t.a[0]))
            if r and r['k'] == 'adt' and t.a[1] < len(r['v']) and t.a[2] < len(r['v'][t.a[1]]['f']):
                ty = s.e.types.get(r['v'][t.a[1]]['f'][t.a[2]][1])
        return not ty or ty['k'] not in ('int', 'bool', 'char')

    def leak(s, v, args=None, known=(), copies=(), child=False):
        """the first secret in v that is given away and what it is, or None.  v is a result (args is None) or an error
        (args: the terms that are secret as well)"""
        seen = set()
        work = [(v, False)]
        while work:
            t, inside = work.pop()
            if isinstance(t, (tuple, list)):
                work.extend((x, inside) for x in t)
                continue
            if not isT(t) or (t, inside) in seen:
                continue
            seen.add((t, inside))
            o = t.op
            if args is not None:
                if t in known:
                    continue
                if t in args:
                    return t, 'an argument'
                if o == 'fld' and t.a[1] == 0 and isT(t.a[0], 'call') and 'serde::de::' in str(t.a[0].a[0]) and s.wide(t):
                    return t, 'a value read from a document'
            elif t in copies:
                return t, 'a copy of a borrowed key'
            if o in OPS:
                continue
            if o in ('call', 'vcall'):
                f = str(t.a[0])
                if CALLS.match(strip_generics(f)) if o == 'call' else VCALLS.match(f):
                    continue
                if f.startswith('rec:') and child:
                    continue        # what a recursive call returns is what the function returns

            # the error of a call: libraries are trusted, functions of this workspace are analysed on their own
            if o == 'fld' and t.a[1] == 1 and isT(t.a[0]) and is_result(s.e, t.a[0]):
                continue
            if o == 'fld' and s.of_secret(t) and not s.source(t):
                continue        # a number that is no secret
            why = s.source(t)
            if why and (why[0] == 'field' or not inside):
                return t, why[1]
            if inside and child and o in ('sk_add', 'hmac'):
                continue        # the key of a derived child
            if o == 'agg':
                if t.a[0] in s.secret:
                    inside = args is None
                elif args is not None and s.small(t):
                    continue
            elif o == 'dynv' and t.a[1] in s.secret:
                inside = args is None
            work.extend((x, inside) for x in t.a)
        return None

    def small(s, t):
        """an error of numbers of at most 8 bits (the checksum that does not match)"""
        for ty in s.e.types.values():
            if ty['k'] == 'adt' and ty['path'] == t.a[0]:
                f = ty['v'][t.a[1]]['f'] if t.a[1] < len(ty['v']) else []
                return bool(f) and all(s.e.types.get(x[1], {}).get('k') == 'int' and s.e.types[x[1]]['w'] <= 8 for x in f)
        return False


def made(t):
    """does the value come from a recursive call? (what it was called with is looked at)"""
    while isT(t, 'fld'):
        t = t.a[0]
    return isT(t, 'call') and str(t.a[0]).startswith('rec:')


RESULTS = ('json_de', 'json_ser', 'unb64', 'unb64r')


def is_result(e, x):
    if x.op in RESULTS or x.op == 'vcall':
        return True
    return x.op == 'call'


def run(ck):
    ck.explain = 'All trait implementations and public fields of the types that hold secret keys, and the results, errors and output parameters of every function that code outside can call.'
    ck.rule('types that hold a secret key, and the manager: no public field, no implementation of a formatting, cloning, comparing, hashing or serializing trait')
    ck.rule('no result contains a private field of a key, a keychain or an extended private key, nor the content of a decrypted wallet, except: as public keys, signatures, ciphertext, sizes or network identifiers; inside another secret type; the raw functions XPrv::serialize, crypt::decrypt, KeyFactory::key_data_from_seed; with the backup feature, retrieve_mnemonic and get_keys_data')
    ck.rule('no error contains a password, seed, key or mnemonic given as an argument or stored in a wallet; allowed: sizes, a word that the dictionary does not have, and the message of the document parser itself')
    ck.rule('no such function prints, writes files or sends anything')
    jobs = []
    parts = 32
    for i in range(parts):
        jobs.append(('part%d' % i, lambda c, i=i: part(c, 'all', i, parts)))
    jobs.append(('without backup', lambda c: part(c, NOBACKUP, 0, 1, True)))
    jobs.append(('traits', traits))
    ck.apart(jobs)


NOBACKUP = ('-p', 'tesseract-keychain-c', '--no-default-features', '--features', 'cardano,ethereum,bitcoin')


def traits(ck):
    e = c25.prepare(ck)
    w = World(e)
    names = w.visible()
    ck.expect(len(names) >= 6, 'types', 'types that hold secrets: found only %s' % names)
    pat = [(n, re.compile(r'(?<![\w:])%s(?![\w:])' % re.escape(n))) for n in names + ['keychain::Key']]
    n = 0
    for i in e.d['impls']:
        if i['pol'] == 'Negative':
            continue
        for name, p in pat:
            if p.search(i['self']) and i['krate'] in ('keychain', 'secp256k1_bip32'):
                n += 1
                ck.expect(not BANNED.search(i['trait']), 'impl/%s/%s' % (name, i['trait']), '%s implements %s' % (i['self'], i['trait']))
    m = 0
    for x in e.d['surface']:
        if x['kind'] in ('Struct', 'Enum', 'Union') and any(p.search(x['name']) or p.search(x['as']) for _, p in pat):
            for f in x['fields']:
                m += 1
                ck.expect(not f['pub'], 'field/%s/%s' % (x['name'], f['name']), 'the field %s of %s is public' % (f['name'], x['as']))
    ck.expect(n > 0 and m > 0, 'query', 'no implementations (%d) or no fields (%d) of the secret types found' % (n, m))
    ck.anchors['traits'] = n
    ck.anchors['fields'] = m


def part(ck, features, i, parts, only=False):
    e = c25.prepare(ck, features)
    ids = c25.entries(e)
    if only:
        ids = [k for k in ids if re.match(r'keychain::(KeychainManager|Keychain|crypt)\b', e.norm(e.fns[k]['name']))]
    w = World(e)
    ck.expect({x.split('::')[-1] for x in w.secret} >= {'Keychain', 'Key', 'XPrv'}, 'types', 'the types that hold a secret key are %s' % sorted(w.secret))
    now = [None]

    def called(name, c, st):
        ck.expect(not OUTSIDE.search(name), 'output/%s' % name, '%s calls %s at %s' % (now[0], name, e.where()))
    e.on_opaque = called
    for j, k in enumerate(ids):
        if j % parts != i:
            continue
        now[0] = e.norm(e.fns[k]['name'])
        e.steps = 0
        ck.guard(now[0], one, ck, e, w, k, features == 'all')


def one(ck, e, w, k, backup):
    f = e.fns[k]
    name = e.norm(f['name'])
    args = [e.symbolic('a%d' % i, t) for i, t in enumerate(f['sig'][0])]
    outs = e.run(k, args, St())
    ck.anchors[name] = ck.anchors.get(name, 0) + len(outs)
    st = St()
    given = set()
    if not PLAIN.search(name):
        given = {x for x in (e.rb(st, a) for a, t in zip(args, f['sig'][0]) if texty(e, t)) if isT(x)}
    borrowed = set()
    if w.owned(f['sig'][1]):
        borrowed = {x for x in (e.rb(st, a) for a, t in zip(args, f['sig'][0]) if e.types[t]['k'] == 'ref' and e.types[e.types[t]['e']].get('path') in w.secret and e.types[e.types[t]['e']]['s'] in w.visible()) if isT(x)}
    muts = [(a, t) for a, t in zip(args, f['sig'][0]) if e.types[t]['k'] == 'ref' and e.types[t]['m']]
    free = RAW.search(name) or backup and BACKUP.search(name)

    def spec(S):
        if S.out.k != 'ret':
            return
        v = S.out.v
        v = e.canon(S.st, e.rb(S.st, v)) if isT(v) else v
        if isT(v, 'agg') and v.a[0].endswith('result::Result') and v.a[1] == 1:
            check(S, 'an error', w.leak(v.a[2], given, unknown(S)))
        elif not free:
            check(S, 'the result', w.leak(v, copies=borrowed, child=f['krate'] == 'secp256k1_bip32'))
        for a, t in muts:
            x = e.rb(S.st, a)
            if isT(x) and x is not a:
                check(S, 'what is written through an argument', w.leak(e.canon(S.st, x)))

    def check(S, what, bad):
        S.require(not bad, '%s of %s contains %s: %s' % (what, name, bad and bad[1], show(bad[0])[:200] if bad else ''))
    ck.judge(e, name, outs, spec)


def texty(e, t):
    """text, bytes and what seeds and phrases are kept in"""
    ty = e.types[t]
    while ty['k'] in ('ref', 'ptr') or ty.get('box'):
        ty = e.types[ty['e'] if 'e' in ty else ty['args'][0]]
    if ty['k'] == 'adt':
        p = ty['path']
        if p.split('::')[-1] == 'Vec':
            return texty(e, ty['args'][0]) or e.types[ty['args'][0]]['k'] == 'int'
        return p.startswith('bip39::') and ty['kind'] == 'struct' and 'ictionary' not in p and 'MnemonicIndex' not in p or p.split('::')[-1] == 'String'
    if ty['k'] in ('slice', 'array'):
        return texty(e, ty['e']) or e.types[ty['e']]['k'] == 'int'
    return ty['k'] == 'str'


def unknown(S):
    """what was found, on this path, to be none of the entries of a list"""
    out = set()
    for c, val in S.st.since(None):
        if val == 0:
            work = [(c, False)]
            while work:
                x, under = work.pop()
                if isinstance(x, (tuple, list)):
                    work.extend((y, under) for y in x)
                elif isT(x):
                    if x.op == 'eq' and under:
                        out.update(y for y in x.a if isT(y))
                    elif x.op == 'exists':
                        work.extend((y, True) for y in x.a[2:])
    return out
