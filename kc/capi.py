"""The C interface: exported functions, what each forwards to, what it hands out, what releases it."""
from .ref import *
from . import engine as ENG

KM, KC = 'keychain::KeychainManager::', 'keychain::Keychain::'
NET = 'keychain::networks::%s::KeyPath::%s'
PATH_METHODS = ('purpose', 'coin', 'account', 'change', 'address')
DISPLAY = '<keychain::Error as std::fmt::Display>::fmt'
ERROR_CODES = {
    'Panic': -1, 'WrongPassword': 0, 'NotEnoughData': 1, 'SeedIsNotSaved': 2, 'CantCalculateSeedSize': 3, 'DataError': 4, 'InvalidSeedSize': 5,
    'KeyDoesNotExist': 6, 'KeyAlreadyExist': 7, 'NetworkIsNotSupported': 8, 'KeyError': 9, 'KeyPathError': 10, 'MnemonicError': 11,
}
LANGUAGES = ['English', 'French', 'Japanese', 'Korean', 'ChineseSimplified', 'ChineseTraditional', 'Italian', 'Spanish']
# C symbol: (what it forwards to, kinds of its C arguments before the result and error, kind of the result, can the operation fail)
OPS = {
    'keychain_manager_new': (KM + 'new', [], 'handle', True),
    'keychain_manager_has_network': (KM + 'has_network', ['handle', 'net'], 'bool', False),
    'keychain_manager_generate_mnemonic': (KM + 'generate_mnemonic', ['handle', 'lang'], 'string', True),
    'keychain_manager_keychain_data_from_seed': (KM + 'keychain_data_from_seed', ['handle', 'bytes', 'str'], 'data', True),
    'keychain_manager_keychain_data_from_mnemonic': (KM + 'keychain_data_from_mnemonic', ['handle', 'str', 'str', 'lang'], 'data', True),
    'keychain_manager_keychain_from_data': (KM + 'keychain_from_data', ['handle', 'bytes', 'str'], 'handle', True),
    'keychain_manager_add_network': (KM + 'add_network', ['handle', 'bytes', 'str', 'net'], 'data', True),
    'keychain_manager_change_password': (KM + 'change_password', ['handle', 'bytes', 'str', 'str'], 'data', True),
    'keychain_manager_get_keys_data': (KM + 'get_keys_data', ['handle', 'bytes', 'str'], 'backup', True),
    'keychain_manager_retrieve_mnemonic': (KM + 'retrieve_mnemonic', ['handle', 'bytes', 'str'], 'mnemonic', True),
    'keychain_networks': (KC + 'networks', ['handle'], 'networks', False),
    'keychain_pub_key': (KC + 'pub_key', ['handle', 'net', 'path'], 'data', True),
    'keychain_sign': (KC + 'sign', ['handle', 'net', 'bytes', 'path'], 'data', True),
    'keychain_verify': (KC + 'verify', ['handle', 'net', 'bytes', 'bytes', 'path'], 'bool', True),
    'keypath_from_string': ('keychain::GenericKeyPath::from', ['str'], 'path', True),
    'keypath_bitcoin_new_bip44': (NET % ('bitcoin', 'bip44'), ['flag', 'u32', 'u32', 'u32'], 'path', True),
    'keypath_bitcoin_new_bip49': (NET % ('bitcoin', 'bip49'), ['flag', 'u32', 'u32', 'u32'], 'path', True),
    'keypath_bitcoin_new_bip84': (NET % ('bitcoin', 'bip84'), ['flag', 'u32', 'u32', 'u32'], 'path', True),
    'keypath_cardano_new': (NET % ('cardano', 'new'), ['u32', 'u32', 'u32'], 'path', True),
    'keypath_ethereum_new': (NET % ('ethereum', 'new'), ['u32'], 'path', True),
    'keypath_ethereum_new_metamask': (NET % ('ethereum', 'new_metamask'), ['u32'], 'path', True),
}
if not build.BACKUP:
    for x in ('get_keys_data', 'retrieve_mnemonic'):
        del OPS['keychain_manager_' + x]
KEYPATHS = ['keychain::GenericKeyPath'] + ['keychain::networks::%s::KeyPath' % n for n in ('bitcoin', 'cardano', 'ethereum')]


def exported(e):
    """C name -> exported function"""
    return {x['f']: x for x in e.d['exports']}


def path_values(e, st, p):
    """[(state, five values)] what the methods of the path object p return"""
    recs = {}
    for fid, f in e.fns.items():
        if f['kind'].startswith('virtual'):
            k = e.fkey(f)
            if k.startswith('keychain::KeyPath::'):
                recs[k.rsplit('::', 1)[1]] = (f, k)
    res = [(st, [])]
    for m in PATH_METHODS:
        if m not in recs:
            raise Stop('anchor not found: KeyPath::' + m)
        f, k = recs[m]
        nxt = []
        for s, vs in res:
            for o in e.call_virtual(f, k, [p], f['sig'][0] if 'sig' in f else None, f['sig'][1] if 'sig' in f else None, s):
                if o.k != 'ret':
                    raise Stop('a key path method panics')
                nxt.append((o.st, vs + [o.v]))
        res = nxt
    return res


def operation(name, panics):
    """boundary: the Rust operation as an opaque function of what its arguments designate"""
    def h(e, st, c):
        at = [e.types[t] for t in c.atys or []]
        ip = [i for i, t in enumerate(at) if t['k'] == 'ref' and e.types[t['e']]['k'] == 'dyn']
        states = [(st, list(c.args))]
        for i in ip:
            nxt = []
            for s, args in states:
                for s2, vs in path_values(e, s, args[i]):
                    a = list(args)
                    a[i] = mk('agg', 'path5', 0, *[e.rb(s2, v) for v in vs])
                    nxt.append((s2, a))
            states = nxt
        outs = []
        for s, args in states:
            c2 = Call()
            for k in Call.__slots__:
                if hasattr(c, k):
                    setattr(c2, k, getattr(c, k))
            c2.args = args
            c2.atys = None
            outs.extend(e.opaque(name, c2, s))
            if panics:
                outs.append(Out('panic', (name, e.where(), e.trace()), s.copy()))
        return outs
    return h


def errtext(v):
    t = mk('errtext', v)
    RANGE.setdefault(mk('len', t), (0, 1 << 40))
    return t


def display(panics):
    def h(e, st, c):
        v = e.rb(st, e.load(st, c.args[0]))
        return M.R(M.upd(e, st, c.args[1], lambda w: M.cat(w, errtext(v))), OK(UNIT))
    return h


def boundaries(panics=False, opaque_text=True):
    b = {}
    for n, (f, _, _, _) in OPS.items():
        b[f] = operation(f, panics)
    for p in KEYPATHS:
        for m in PATH_METHODS:
            k = '<%s as keychain::KeyPath>::%s' % (p, m)
            b[k] = pure(k)
    if opaque_text:
        b[DISPLAY] = display(panics)
    return b


class Run:
    """one exported function, run on arbitrary arguments"""

    def __init__(s, ck, e, name):
        x = exported(e)
        if name not in x:
            raise Stop('anchor not found: exported function ' + name)
        s.ck, s.e, s.name = ck, e, name
        f = e.fns[name]
        s.tys, s.ret = f['sig']
        s.args = [e.symbolic('%s.%d' % (name, i), t) for i, t in enumerate(s.tys)]
        s._outs = None

    @property
    def outs(s):
        if s._outs is None:
            s._outs = s.e.run(s.name, s.args, St())
            s.ck.anchors[s.name] = len(s._outs)
        return s._outs


def fallible(e, name):
    f = e.fns[name]
    return e.types[f['sig'][1]]['k'] == 'bool' and len(f['sig'][0]) >= 2


def mem(S, arg):
    """what the memory behind an out parameter holds; None when it was not written"""
    v = S.st.mem.get(('sym', arg))
    return None if v is None or v is arg else S.norm(v)


def pointee(S, p):
    """content of the memory a pointer handed out designates"""
    S.require(isT(p, 'hp'), 'not a pointer to memory handed out: ' + show(p)[:200])
    return S.norm(S.e.content(S.st, ('sym', p)))


def err_parts(S, E):
    """(numeric code, text) of the error structure"""
    e, ck = S.e, S.ck
    S.require(isT(E, 'agg') and len(E.a) == 4, 'no error structure: ' + show(E)[:200])
    t, m = E.a[2], E.a[3]
    S.require(isT(t, 'agg'), 'the error code is not known: ' + show(t)[:200])
    ty = ck.adts[t.a[0]]
    d = int(ty['v'][t.a[1]]['d'])
    if d >= 1 << 63:
        d -= 1 << 64
    elif d >= 1 << 31 and ty['size'] == 4:
        d -= 1 << 32
    return d, pointee(S, m)


def text_is(S, got, want):
    """the message is the text, apart from characters a C string cannot hold"""
    while isT(got, 'strreplace') and got.a[1] is lit(b'\0'):
        got = S.norm(got.a[0])
    return S.same(got, want)


def payload(S, v):
    """the string a caught panic carries"""
    return isT(v, 'payload')


def language(S, v):
    """name of the C or Rust language value"""
    return S.var(v)


class Bad(Exception):
    """an argument the operation is not reached with"""


def operands(S, run):
    """arguments the Rust operation is due, for a call of the C function; Bad when a C argument designates nothing"""
    e, ck = S.e, S.ck
    op, kinds, _, _ = OPS[run.name]
    sig = e.fns[e.fn(op)]['sig'][0]
    res, i = [], 0
    for k in kinds:
        a = run.args[i]
        i += 1
        if k == 'handle':
            p = S.rb(e.note_ty(mk('fld', a, 0, 0), e.types[e.types[run.tys[i - 1]]['e']]['v'][0]['f'][0][1]))
            if S.dec(is_null(S, p)):
                raise Bad('null handle')
            res.append(p)
        elif k == 'net':
            res.append(Agg(adt(ck, 'keychain::network::Network'), '', S.rb(mk('fld', a, 0, 0))))
        elif k == 'lang':
            res.append(Some(Agg(adt(ck, 'keychain::mnemonic::Language'), S.var(a))))
        elif k == 'bytes':
            n = run.args[i]
            i += 1
            if S.dec(is_null(S, a)):
                if not S.dec(eq0(n)):
                    raise Bad('null data')
                res.append(EMPTY)
            else:
                res.append(Bytes(a, n))
        elif k == 'str':
            if S.dec(is_null(S, a)):
                raise Bad('null string')
            if not S.dec(utf8_ok(S, a)):
                raise Bad('string is not UTF-8')
            res.append(mk('cstr', a))
        elif k == 'path':
            t = e.types[run.tys[i - 1]]
            names = [f[0] for f in t['v'][0]['f']]
            res.append(Agg('path5', '', *[S.rb(mk('fld', a, 0, names.index(m))) for m in PATH_METHODS]))
        else:
            res.append(a)
    if len(sig) != len(res):
        raise Stop('%s takes %d arguments' % (op, len(sig)))
    return op, res, i


class Bytes:
    def __init__(s, p, n):
        s.p, s.n = p, n

    def __repr__(s):
        return '%s bytes at %s' % (show(s.n), show(s.p))


def is_null(S, p):
    return mk('isnull', p)


def utf8_ok(S, p):
    return mk('utf8ok', mk('cstr', p))


def deletes(e):
    """type handed out -> (release function, takes it by value)"""
    r = {}
    for name in sorted(exported(e)):
        f = e.fns[name]
        tys, ret = f['sig']
        if not name.startswith('delete_') or len(tys) != 1:
            continue
        t = e.types[tys[0]]
        if t['k'] == 'ref' and t['m']:
            r[t['e']] = (name, False)
        else:
            r[tys[0]] = (name, True)
    return r


def c_call(ck, e, name, args, st):
    """outcomes of the exported function"""
    r = e.run(name, args, st)
    ck.anchors[name] = ck.anchors.get(name, 0) + len(r)
    return r
