import re
from ..ref import *
from ..engine import assume_in
from .c13 import paths, WORDS

CRATES = ('keychain', 'bip39', 'secp256k1_bip32')
# libraries whose own functions are not looked into: they return errors, by their documentation
LIBS = ('serde', 'serde_core', 'serde_json', 'secp256k1', 'ed25519_bip32', 'cryptoxide', 'rand_os', 'rand_core', 'base64', 'itoa', 'ryu', 'digest', 'generic_array', 'hmac', 'sha2', 'pbkdf2', 'byteorder', 'lazy_static', 'unicode_normalization', 'libsecp256k1', 'sha3', 'tiny_keccak', 'hashbrown')
# documented panics that no input brings about: a collection of more than isize::MAX bytes, an iterator of more than
# usize::MAX items, an order that is not total, a buffer of fewer than 4 bytes made for one character
BENIGN = {'Vec::append', 'Vec::extend_from_slice', 'Vec::extend_from_within', 'Vec::resize', 'Vec::resize_with', 'Vec::reserve', 'Vec::reserve_exact', 'Vec::into_flattened',
          'String::push', 'String::push_str', 'String::reserve', 'String::reserve_exact', 'Iterator::count', 'Iterator::enumerate', 'Iterator::position', 'Iterator::last', 'Iterator::next',
          'Ord::cmp', 'slice::sort', 'slice::sort_by', 'slice::sort_by_key', 'slice::sort_unstable', 'slice::sort_unstable_by', 'slice::sort_unstable_by_key', 'slice::sort_by_cached_key', 'VecDeque::append', 'VecDeque::reserve', 'char::is_digit'}
OPS = {'Index::index', 'IndexMut::index_mut', 'Add::add', 'Sub::sub', 'Mul::mul', 'Div::div', 'Rem::rem', 'Neg::neg', 'Shl::shl', 'Shr::shr', 'AddAssign::add_assign', 'SubAssign::sub_assign', 'MulAssign::mul_assign', 'DivAssign::div_assign', 'RemAssign::rem_assign', 'Sum::sum', 'Product::product', 'process::exit', 'process::abort'}
INTS = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize')
DENY = set(x.strip() for x in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'panicdocs.txt'))) - BENIGN | OPS | {'%s::%s' % (i, f) for i in INTS for f in ('pow', 'abs', 'next_power_of_two')}


# these two spell a word index and are documented to panic for one that MnemonicIndex::new would have refused
SPELLS = re.compile(r'^bip39::(MnemonicIndex::to_word|Mnemonics::to_string)\b')


def short(name):
    """Type::function of a library function"""
    n = strip_generics(name)
    if n.startswith('<') and ' as ' in n:
        n = n.split(' as ', 1)[1].replace('>::', '::', 1)
    p = n.replace('<impl ', '').replace('>', '').split('::')
    return '::'.join(p[-2:]).replace('[T]', 'slice')


def run(ck):
    ck.explain = 'Every function of the library crates that code outside them can call (reached through public modules, re-exports, inherent functions and implementations of nameable traits), with its shipped generic instances, for every argument.'
    ck.rule('no path of such a function ends in a panic (assertion, unwrap, index, slice, arithmetic overflow with overflow checks on, explicit panic) or reads outside its memory')
    ck.rule('assumed of arguments: word indexes handed in are at most 2047 (MnemonicIndex::new refuses others), a BitReaderBy11 is read only while it has a word left; proved of every value built: word indexes at most 2047, word lists of a supported length, bit writers and readers in a consistent state')
    ck.rule('a standard library function that is not modelled may be called if its documentation has no Panics section; third-party functions are trusted not to panic')
    e = prepare(ck)
    ids = entries(e)
    ck.expect(len(ids) > 150, 'entries', 'only %d public functions found' % len(ids))
    jobs = []
    parts = 32
    for i in range(parts):
        jobs.append(('part%d' % i, lambda c, i=i: part(c, [k for j, k in enumerate(ids) if j % parts == i])))
    ck.apart(jobs)


DERIVED = '_IMPL_DESERIALIZE_FOR_', '_IMPL_SERIALIZE_FOR_'


def derived(f):
    """code written by serde's derive macros: it only moves data between the library and the functions of this
    workspace named in attributes, which are analysed on their own"""
    return any(x in f['path'] for x in DERIVED)


def entries(e):
    ids = {k for k, f in e.fns.items() if f.get('reach') and 'body' in f and f['krate'] in CRATES}
    out, work, seen = set(), list(ids), set(ids)
    while work:
        k = work.pop()
        f = e.fns[k]
        if not derived(f):
            out.add(k)
            continue
        for c in callees(e, f):
            g = e.fns.get(c)
            if g and c not in seen and 'body' in g and g['krate'] in CRATES:
                seen.add(c)
                work.append(c)
    return sorted(out, key=lambda k: (e.fns[k]['name'], k))


def callees(e, f):
    """functions named anywhere in the body of f"""
    work, out = [f['body']], set()
    while work:
        x = work.pop()
        if isinstance(x, dict):
            work.extend(x.values())
            t = e.types.get(x.get('ty')) if isinstance(x.get('ty'), int) else None
            if t and t['k'] == 'fndef' and t.get('f'):
                out.add(t['f'])
        elif isinstance(x, list):
            work.extend(x)
    return out


def prepare(ck, features='all'):
    e = ck.engine(None, features)
    e.fns = {k: {x: y for x, y in f.items() if x != 'body'} if f['krate'] in LIBS else f for k, f in e.fns.items()}
    return e


def part(ck, ids):
    e = prepare(ck)
    EP, MP, IP = paths(e)
    known = {}
    for f in e.fns.values():
        known.setdefault(e.norm(f['name']), f)
        known.setdefault(strip_generics(e.norm(f['name'])), f)
    now = [None]

    def made(st, path, variant, vs):
        if path == IP and vs:
            n = vs[0]
            ck.expect(isinstance(n, int) and n <= 2047 or isT(n) and st.bounds(n)[1] <= 2047, 'word/%s' % e.where(), 'a word index that may exceed 2047 is built at %s: %s' % (e.where(), show(n)[:200]))
        if path == MP and vs:
            n = slen(st.point(vs[0]) if isT(vs[0]) else vs[0])
            n = st.point(n) if isT(n) else n
            ok = n in WORDS if isinstance(n, int) else any(bool_facts(st, eq0(sub(n, w))) == 1 for w in WORDS)
            ck.expect(ok, 'words/%s' % e.where(), 'a word list of unsupported length is built at %s' % e.where())

    def called(name, c, st):
        f = known.get(name) or known.get(strip_generics(name))
        krate = f['krate'] if f else name.split('::')[0]
        for a in c.args:
            v = e.rb(st, a) if isT(a) else a
            if isT(v, 'fn') or isT(v, 'agg') and str(v.a[0]).startswith('closure:'):
                raise Stop('a function is handed to %s, which is not modelled' % name)
        if krate in LIBS:
            return
        if krate in CRATES:
            return          # an implementation of a trait of this workspace (all of them are analysed), or a recursive call
        ck.expect(short(name) not in DENY, 'call/%s/%s' % (short(name), e.norm(e.fns[now[0]]['name'])), '%s calls %s, which panics for some arguments, at %s' % (e.norm(e.fns[now[0]]['name']), name, e.where()))
    e.on_make = made
    e.on_opaque = called
    for k in ids:
        now[0] = k
        e.steps = 0
        e.field_range = {(IP, 0, 0): (0, 2047)} if SPELLS.search(e.norm(e.fns[k]['name'])) else {}
        ck.guard(e.norm(e.fns[k]['name']), one, ck, e, k, MP)


def one(ck, e, k, MP):
    f = e.fns[k]
    name = e.norm(f['name'])
    args = [e.symbolic('a%d' % i, t) for i, t in enumerate(f['sig'][0])]
    starts = [St()]
    for a, t in zip(args, f['sig'][0]):
        ty = e.types[t]
        while ty['k'] in ('ref', 'ptr'):
            ty = e.types[ty['e']]
        p = ty.get('path', '')
        if p == MP:
            starts = [s2 for w in WORDS for s in starts for s2 in assuming(s, eq0(sub(slen(words(e, s, a, t)), w)))]
        if p.endswith('BitWriterBy11') or p.endswith('BitReaderBy11'):
            starts = [s2 for s in starts for s2 in consistent(e, s, a, t, name)]
    ck.expect(starts, name + '/assumptions', 'nothing satisfies the assumptions on the arguments of ' + name)
    for s in starts:
        def spec(S):
            S.require(S.out.k == 'ret', '%s may panic: %s' % (name, S.out.v[0] if isinstance(S.out.v, tuple) else S.out.v))
            for x in S.st.ev:
                S.require(x[0] != 'ub', '%s may touch memory outside an object: %s' % (name, x[1:]))
            after(S, e, k, args)
        r = e.run(k, args, s)
        ck.anchors[name] = ck.anchors.get(name, 0) + len(r)
        ck.judge(e, name, r, spec)


def pointee(e, t):
    ty = e.types[t]
    while ty['k'] in ('ref', 'ptr'):
        t = ty['e']
        ty = e.types[t]
    return t, ty


def part_of(e, st, a, t, want):
    """the field of the struct a (or a points to) whose type satisfies want"""
    t, ty = pointee(e, t)
    for i, (n, ft, *_) in enumerate(ty['v'][0]['f']):
        if want(e.types[ft]):
            return e.note_ty(mk('fld', e.rb(st, a), 0, i), ft), ft
    raise Stop('no such field in ' + ty['path'])


def words(e, st, a, t):
    return part_of(e, st, a, t, lambda y: y.get('path', '').endswith('Vec'))[0]


def assuming(st, cond, val=1):
    s = st.copy()
    return [s] if assume_in(s, cond, val) else []


def bit_parts(e, st, a, t):
    buf, _ = part_of(e, st, a, t, lambda y: y.get('path', '').endswith('Vec') or y['k'] in ('ref', 'slice'))
    state, sty = part_of(e, st, a, t, lambda y: y.get('kind') == 'enum')
    return buf, state, sty


def consistent(e, st, a, t, name):
    """the states of a bit reader or writer that its constructor and its own functions leave it in: in the first state
    anything, in the others at least one byte; read() is only called while size() is not 0"""
    buf, state, sty = bit_parts(e, st, a, t)
    out = []
    for v in range(len(e.types[sty]['v'])):
        s = e.assume_variant(st, state, v)
        if v == 0:
            out.append(s)
        else:
            out.extend(assuming(s, le(1, slen(buf))))
    if name.endswith('::read'):
        size = [f for f in e.find(name[:-len('read')] + 'size')]
        if not size:
            raise Stop('no size function beside ' + name)
        ok = []
        for s in out:
            for o in e.run(size[0], [a], s):
                if o.k == 'ret':
                    n, d = (o.v.a if isT(o.v, 'div') else (o.v, 1))
                    ok.extend(assuming(o.st, le(d, n)))         # n / d >= 1
        out = ok
    return out


def after(S, e, k, args):
    """bit readers and writers are left consistent"""
    f = e.fns[k]
    vals = [(S.out.v, f['sig'][1])]
    for i, t in enumerate(f['sig'][0]):
        if e.types[t]['k'] == 'ref' and e.types[t]['m']:
            vals.append((args[i], t))
    for v, t in vals:
        t, ty = pointee(e, t)
        p = ty.get('path', '')
        if not (p.endswith('BitWriterBy11') or p.endswith('BitReaderBy11')):
            continue
        b = S.norm(v)
        fs = ty['v'][0]['f']
        st = [S.norm(S.field(b, n)) for n, ft, *_ in fs if e.types[ft].get('kind') == 'enum'][0]
        buf = [S.norm(S.field(b, n)) for n, ft, *_ in fs if e.types[ft].get('kind') != 'enum'][0]
        first = S.e.types[[ft for n, ft, *_ in fs if e.types[ft].get('kind') == 'enum'][0]]['v'][0]['n']
        if S.var(st) != first:
            S.require(S.dec(le(1, slen(buf))), 'a bit reader or writer is left between bytes with none at hand')
