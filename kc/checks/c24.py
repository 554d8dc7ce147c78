import itertools
from ..ref import *

FEATURES = {'cardano': ('CARDANO', 0x80000717), 'ethereum': ('ETHEREUM', 0x8000003c), 'bitcoin': ('BITCOIN', 0x80000000)}
EXTRA = ('tesseract-keychain/custom-networks', 'backup')
NETWORK = 'keychain::network::Network'


def combinations():
    for r in range(4):
        for nets in itertools.combinations(sorted(FEATURES), r):
            for q in range(3):
                for x in itertools.combinations(EXTRA, q):
                    yield nets, x


def run(ck):
    ck.explain = 'The two network registries, the factories, the keys they make and the manager constructors, of the source as compiled under each of the 8 combinations of network features, each with and without custom networks and backup (32 programs).'
    ck.rule('Network::all() = [f.network() for f in all_networks()], each enabled network once and no other; constants CARDANO/ETHEREUM/BITCOIN = 0x80000717/0x8000003c/0x80000000')
    ck.rule('every key a factory makes from data reports the network the factory reports')
    ck.rule('KeychainManager::new supports every enabled network; with_networks(list) supports a network exactly when it is enabled and in the list (any list, any length); has_network and get_key_factory answer from that; refused only when nothing is selected; the strength of generated mnemonics lies in every supported factory\'s range')
    ck.rule('with custom networks: with_factories(list) supports exactly the networks the factories report, each by a factory reporting it')
    jobs = []
    for nets, extra in combinations():
        label = '+'.join(nets + tuple(x.split('/')[-1] for x in extra)) or 'none'
        jobs.append((label, lambda c, a=(label, nets, extra): program(c, *a)))
    ck.dump()       # a tree that does not build at all is reported as such
    ck.apart(jobs)
    ck.extra['feature_combinations'] = [x for x, _ in jobs]


def program(ck, label, nets, extra):
    args = ('-p', 'tesseract-keychain-c', '--no-default-features')
    if nets or extra:
        args += ('--features', ','.join(nets + extra))
    try:
        e = ck.engine(None, args)
    except build.BuildError as x:
        return ck.violate('%s/build' % label, 'the source does not compile with the features %s: %s' % (label, str(x)[-300:]))
    combo(ck, e, label, nets, extra)


def one(ck, e, label, name, args=None):
    """the only outcome of a function"""
    outs = ck.outs(e, name, args)
    if len(outs) != 1 or outs[0].k != 'ret':
        raise Stop('%s has %d outcomes' % (name, len(outs)))
    return outs[0].st, e.canon(outs[0].st, e.rb(outs[0].st, outs[0].v))


def network(n):
    return mk('agg', NETWORK, 0, n)


def listed(S, N, xs):
    """is N one of xs?  Decided from the path, whatever way the source asked for it"""
    facts = S.st.since(None)
    n = slen(xs)

    def is_eq(c, at):
        if c is eq0(sub(mk('fld', at, 0, 0), N.a[2])):
            return True
        if not isT(c, 'eq'):
            return False
        a, b = S.norm(c.a[0]), S.norm(c.a[1])
        for p, q in ((a, b), (b, a)):
            if S.same(p, N) and isT(q) and q is at:
                return True
            if isinstance(p, int) and S.same(p, N.a[2]) and isT(q, 'fld') and q.a[0] is at:
                return True
        return False

    def about(c):
        """position of the list that c compares with N, or None"""
        for at in elements(c):
            if is_eq(c, at):
                return at.a[1]
        return None

    def elements(c):
        seen, work, out = set(), [c], []
        while work:
            x = work.pop()
            if isinstance(x, tuple):
                work.extend(x)
            elif isT(x) and x not in seen:
                seen.add(x)
                if x.op == 'at' and x.a[0] is xs:
                    out.append(x)
                work.extend(x.a)
        return out
    lo = 0          # the first lo elements are known to differ from N
    rest = []
    singles = set()
    for c, v in facts:
        while isT(c, 'not'):
            c, v = c.a[0], 1 - v
        p = about(c)
        if p is not None and v:
            return True
        if p is not None and isinstance(p, int):
            singles.add(p)
        if isT(c, 'exists') and not v:
            rest.append(c)
        if isT(c, 'exists') and v and all(any(b and about(x) is not None for x, b in alt) for alt in c.a[2]):
            return True
    while lo < 8:
        c = deep_eq(S.e, S.st, N, S.norm(S.e.elem(S.st, xs, lo)))
        if lo not in singles and c != 0 and bool_facts(S.st, c) != 0:
            break
        lo += 1
    for c in rest:
        cnt, ix, alts = c.a
        for alt in alts:
            if len(alt) == 1 and alt[0][1]:
                p = about(alt[0][0])
                if p is not None:
                    off = sub(p, ix)
                    if isinstance(off, int) and off <= lo and S.same(add(cnt, off), n):
                        return False
    if S.dec(eq0(n)):
        return False
    if isinstance(n, int) and lo >= n:
        return False
    known = [k for k in range(lo + 1) if S.same(n, k)]
    if known:
        return False
    # ask outright
    for k in range(1, 8):
        if S.dec(eq0(sub(n, k))):
            for i in range(k):
                if S.dec(deep_eq(S.e, S.st, N, S.e.elem(S.st, xs, i))):
                    return True
            return False
    raise Stop('whether the list holds %s is not known' % show(N))


def combo(ck, e, label, nets, extra):
    consts = {}
    for c in e.d['consts']:
        if c['krate'] == 'keychain' and c['name'].split('::')[-1] in [f[0] for f in FEATURES.values()] and isinstance(c['v'].get('b'), str):
            consts[c['name'].split('::')[-1]] = int.from_bytes(bytes.fromhex(c['v']['b'])[:4], 'little')
    want = {FEATURES[n][0]: FEATURES[n][1] for n in nets}
    for n, v in want.items():
        ck.expect(consts.get(n) == v, '%s/number/%s' % (label, n), 'with features %s Network::%s is %s, not %#x' % (label, n, consts.get(n) if consts.get(n) is None else hex(consts[n]), v))
    # the two lists
    st, names = one(ck, e, label, 'keychain::Network::all')
    st2, facts = one(ck, e, label, 'keychain::networks::all_networks')
    names, fs = members(e, st, names), members(e, st2, facts)
    got = []
    for f in fs:
        if not isT(f, 'dynv'):
            raise Stop('a factory of unknown type: ' + show(f)[:200])
        s, v = one(ck, e, label, '<%s as keychain::KeyFactory>::network' % f.a[1], [mk('ref', ('c', f.a[0]), ())])
        got.append(v)
    ck.expect([x for x in names] == got, label + '/lists', 'with features %s Network::all() is %s but all_networks() are the factories of %s' % (label, [show(x) for x in names], [show(x) for x in got]))
    ck.expect(sorted(show(x) for x in got) == sorted(show(network(v)) for v in want.values()), label + '/factories', 'with features %s the factories are those of %s' % (label, [show(x) for x in got]))
    ck.expect(sorted(show(x) for x in names) == sorted(show(network(v)) for v in want.values()), label + '/networks', 'with features %s the known networks are %s' % (label, [show(x) for x in names]))
    by = {}
    for f, v in zip(fs, got):
        by[v] = f
        keys(ck, e, label, f, v)
    ck.guard(label + '/new', managers, ck, e, label, by, set(network(v) for v in want.values()), 'keychain::KeychainManager::new')
    ck.guard(label + '/with_networks', managers, ck, e, label, by, set(network(v) for v in want.values()), 'keychain::KeychainManager::with_networks')
    if 'tesseract-keychain/custom-networks' in extra:
        ck.guard(label + '/with_factories', custom, ck, e, label)
    ck.guard(label + '/answers', answers, ck, e, label)


def members(e, st, v):
    n = slen(v)
    if not isinstance(n, int):
        raise Stop('a registry of unknown size: ' + show(v)[:200])
    return [e.canon(st, e.elem(st, v, i)) for i in range(n)]


def keys(ck, e, label, f, net):
    """keys made by factory f report net"""
    name = '<%s as keychain::KeyFactory>::key_from_data' % f.a[1]
    args = [mk('ref', ('c', f.a[0]), ())] + ck.symargs(e, name, ['f', 'data'])[1:]
    n = 0
    for o in ck.outs(e, name, args):
        v = e.canon(o.st, e.rb(o.st, o.v)) if o.k == 'ret' else None
        if not (isT(v, 'agg') and v.a[1] == 0):
            continue
        n += 1

        def spec(S):
            S.want(net)
        nm, a, outs = key_method(ck, e, o.st, v.a[2], 'network', ['k'])
        ck.judge(e, nm, outs, spec, '%s/key/%s' % (label, f.a[1]))
    ck.expect(n, '%s/key/%s' % (label, f.a[1]), 'no data makes a key of ' + f.a[1])


def supports(S, M, k):
    """(does map M have key k, the value)"""
    while isT(M, 'ins'):
        if S.dec(deep_eq(S.e, S.st, M.a[1], k)):
            return True, S.norm(M.a[2])
        M = S.norm(M.a[0])
    if isT(M, 'map') and not M.a:
        return False, None
    return S.dec(has(M, k)), S.norm(mk('mget', M, k))


def sizes(S, f):
    """(min, max) seed size of a factory"""
    e, ck = S.e, S.ck
    if not isT(f, 'dynv'):
        v = vcall(S, 'keychain::KeyFactory::seed_size', f)
        return S.field(v, 'min'), S.field(v, 'max')
    st, v = one(ck, e, '', '<%s as keychain::KeyFactory>::seed_size' % f.a[1], [mk('ref', ('c', f.a[0]), ())])
    return ck.field(e, v, 'min'), ck.field(e, v, 'max')


def managers(ck, e, label, by, want, name):
    def spec(S, *a):
        xs = S.rb(a[0]) if a else None
        for N in sorted(by, key=show):
            sel[N] = True if xs is None else listed(S, N, xs)
        S.require(S.out.k == 'ret', 'panics')
        v = S.norm(S.out.v)
        on = [N for N in sel if sel[N]]
        if not on and S.match(v, Err(ANY)):
            return
        S.require(S.match(v, Ok(ANY)), 'refused although %s' % ('networks %s are chosen' % [show(x) for x in on]))
        m = Mgr(S, S.norm(v.a[2]))
        for N in sel:
            h, f = supports(S, m.factories, N)
            S.require(h == sel[N], 'the manager %s %s, which is %s' % ('supports' if h else 'does not support', show(N), 'chosen' if sel[N] else 'not chosen'))
            if h:
                S.require(f is by[N], 'the factory for %s is %s' % (show(N), show(f)[:200]))
                lo, hi = sizes(S, f)
                S.require(S.dec(le(lo, m.size)) and S.dec(le(m.size, hi)), 'the manager\'s strength %s is outside the range of %s' % (show(m.size), show(N)))
        other = e.note_ty(mk('sym', 'other'), [k for k, t in e.types.items() if t.get('path') == NETWORK][0])
        for N in sel:
            if S.dec(deep_eq(e, S.st, other, N)):
                return
        S.require(not supports(S, m.factories, other)[0], 'the manager supports a network that is not enabled')
    sel = {}
    ck.allow(e, name, spec, label='%s/%s' % (label, name.split('::')[-1]))


def answers(ck, e, label):
    def hasn(S, mgr, nt):
        m = Mgr(S, mgr)
        S.want(1 if S.dec(has(m.factories, S.rb(nt))) else 0)

    def getf(S, mgr, nt):
        m = Mgr(S, mgr)
        if S.dec(has(m.factories, S.rb(nt))):
            S.want(Some(ANY))
            S.require(S.same(S.norm(S.norm(S.out.v).a[2]), S.norm(mk('mget', m.factories, S.rb(nt)))), 'another factory is given')
        else:
            S.want(None_)
    ck.allow(e, 'keychain::KeychainManager::has_network', hasn, label=label + '/has_network')
    ck.allow(e, 'keychain::KeychainManager::get_key_factory', getf, label=label + '/get_key_factory')


def custom(ck, e, label):
    def spec(S, xs):
        S.require(S.out.k == 'ret', 'panics')
        v = S.norm(S.out.v)
        if S.match(v, Err(ANY)):
            return
        m = Mgr(S, S.norm(v.a[2]))
        start, gens = S.rounds(m.factories)
        one = []            # factories added one by one before any loop over the rest
        while isT(start, 'ins'):
            one.insert(0, (start.a[1], start.a[2]))
            start = S.norm(start.a[0])
        S.require(isT(start, 'map') and not start.a or start is EMPTY, 'the manager has factories that were not given: ' + show(start)[:200])

        def is_factory(f, k, v):
            S.require(S.same(v, f) and S.same(k, vcall(S, 'keychain::KeyFactory::network', f)), 'the factory %s is registered for %s' % (show(v)[:200], show(k)[:200]))
        for i, (k, v) in enumerate(one):
            is_factory(S.norm(e.elem(S.st, S.rb(xs), i)), k, v)
        if not gens:
            S.require(S.same(len(one), slen(S.rb(xs))), 'the manager\'s factories are not those given: ' + show(m.factories)[:300])
            return
        S.require(len(gens) == 1, 'the manager\'s factories are not those given: ' + show(m.factories)[:300])
        n, ix, cases = gens[0]
        S.require(S.same(add(n, len(one)), slen(S.rb(xs))), 'not every factory is taken')
        f = mk('at', S.rb(xs), add(ix, len(one)))
        for conds, kv in cases:
            S.require(kv is not None and not conds, 'a factory is left out')
            is_factory(f, *kv)
    ck.allow(e, 'keychain::KeychainManager::with_factories', spec, label=label + '/with_factories')
