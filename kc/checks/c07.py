import itertools
from ..ref import *
from .. import serdemodel as SM
from .. import engine as ENG

LANGS = ('English', 'French', 'Japanese', 'Korean', 'ChineseSimplified', 'ChineseTraditional', 'Italian', 'Spanish')
NULL = SM.JNULL


def jstr(t):
    return mk('jstr', t)


def jnum(n):
    return mk('jnum', n)


def run(ck):
    ck.explain = 'The Serialize/Deserialize code of every persisted type is run against a model of the serde data model over JSON documents: every value it can write, and every document of the published format in every field order, with borrowed and with copied strings.'
    ck.rule('written: VersionedData = {version: 1|2, data: base64(data)}; WalletDataV2 = {seed: null|base64, mnemonic: null|text, dictionary: null|language name, keys: [[network number, base64], ...]} for every value')
    ck.rule('read: a document of that shape gives exactly the value it stands for, in any field order; WalletDataV1 = {keys: ...}; versions other than the numbers 1 and 2, a missing version or missing data, and unknown language names are refused')
    ck.rule('VersionedData::new writes version 2 with the JSON of the wallet; get_data reads version 1 as a wallet with the same keys and no secret, version 2 as it is')
    for borrowed in (False, True):
        B = SM.bounds()
        B['__box']['borrowed'] = borrowed
        e = ck.engine(B)
        if not borrowed:
            writers(ck, e)
        readers(ck, e, B['__model'](e), borrowed)
    versions(ck)


def cfg(ck):
    C = 'base64::Config'
    return mk('agg', C, 0, mk('agg', 'base64::CharacterSet', 0), 1, 0)


def b64(x):
    return jstr(mk('b64', cfg(None), x))


def impl(ck, e, key, path):
    """the symbols of the code (de)serializing a type to/from JSON"""
    out = []
    for k, f in e.fns.items():
        if 'body' not in f or e.fkey(f) != key:
            continue
        if key == SM.SER:
            t, s = e.inner(f['sig'][0][0]), e.types[f['sig'][0][1]]['s']
        else:
            t, s = e.types[f['sig'][1]]['args'][0], e.types[f['sig'][0][0]]['s']
        if e.types[t].get('path') == path and 'Key' not in s and 'Missing' not in s:
            out.append((k, t))
    ck.expect(len(out) == 1, 'impl/%s/%s' % (key, path), '%s code of %s found %d times' % (key.split('::')[-1], path, len(out)))
    return out[0] if out else None


def document(S, v):
    v = S.norm(v)
    S.require(S.match(v, Ok(ANY)), 'serialization fails or gives no document: ' + show(v)[:300])
    return S.norm(v).a[2]


def fields(S, J, names):
    S.require(isT(J, 'jobj'), 'not an object: ' + show(J)[:300])
    d = {}
    for i in range(0, len(J.a), 2):
        k = S.norm(J.a[i])
        for n in names:
            if k is lit(n):
                S.require(n not in d, 'field %s written twice' % n)
                d[n] = J.a[i + 1]
                break
        else:
            raise Fail('unknown field %s is written' % show(k)[:100])
    S.require(set(d) == set(names), 'fields written: %s' % sorted(d))
    return d


def keys_doc(S, m):
    """the document of a key map"""
    n = mk('maplen', m)
    RANGE.setdefault(n, (0, 1 << 32))
    ix = ENG.mk_ix(n, 0)
    k, v = mk('mkey', m, ix), mk('mval', m, ix)
    return mk('jarr', mk('tab', n, ix, mk('jarr', seqof([jnum(mk('fld', k, 0, 0)), b64(v)]))))


def seqof(xs):
    return mk('seq', ('l', tuple(xs)))


def writers(ck, e):
    def judge(path, spec):
        r = impl(ck, e, SM.SER, path)
        if not r:
            return
        k, t = r
        f = e.fns[k]
        a = e.symbolic('w', f['sig'][0][0])
        name = e.norm(f['name'])
        outs = e.run(k, [a, mk('jser')], ENG.St())
        ck.anchors['write ' + path] = len(outs)
        ck.judge(e, 'write ' + path, outs, lambda S: spec(S, S.e.rb(ENG.St(), S.e.load(S.st, a))))

    def opt_doc(S, v, f):
        o = opt(S, v)
        return NULL if o is None else f(o)

    def lang(S, v):
        return jstr(lit(S.var(v)))

    def w2(S, w):
        J = document(S, S.out.v)
        d = fields(S, J, ('seed', 'mnemonic', 'dictionary', 'keys'))
        want = dict(seed=opt_doc(S, S.field(w, 'seed'), b64), mnemonic=opt_doc(S, S.field(w, 'mnemonic'), jstr), dictionary=opt_doc(S, S.field(w, 'dictionary'), lambda v: lang(S, v)), keys=keys_doc(S, S.norm(S.field(w, 'keys'))))
        for k in want:
            S.require(S.same(d[k], want[k]), 'field %s is written as %s, not %s' % (k, show(S.norm(d[k]))[:300], show(S.norm(want[k]))[:300]))

    def vd(S, w):
        J = document(S, S.out.v)
        d = fields(S, J, ('version', 'data'))
        ver = version(S, S.field(w, 'version'))
        for k, x in (('version', jnum(ver if ver in (1, 2) else -1)), ('data', b64(S.field(w, 'data')))):
            S.require(S.same(d[k], x), 'field %s is written as %s, not %s' % (k, show(S.norm(d[k]))[:300], show(x)[:300]))

    def net(S, w):
        S.require(S.same(document(S, S.out.v), jnum(mk('fld', w, 0, 0))), 'a network is not written as its number')

    def lng(S, w):
        S.require(S.same(document(S, S.out.v), lang(S, w)), 'a language is not written as its name')
    for p, f in (('keychain::data::WalletDataV2', w2), ('keychain::data::VersionedData', vd), ('keychain::network::Network', net), ('keychain::mnemonic::Language', lng)):
        ck.guard('write ' + p, judge, adt(ck, p), f)


def readers(ck, e, m, borrowed):
    tag = ' (borrowed strings)' if borrowed else ''

    def judge(path, label, doc, spec):
        r = impl(ck, e, SM.DE, path)
        if not r:
            return
        outs = e.run(r[0], [mk('jd', doc)], ENG.St())
        label = 'read %s %s%s' % (path, label, tag)
        ck.anchors[label] = len(outs)
        ck.judge(e, label, outs, spec)

    def refused(S):
        S.require(S.match(S.out.v, Err(ANY)), 'the document is accepted: ' + show(S.norm(S.out.v))[:300] if S.out.k == 'ret' else 'panics')

    def gives(want):
        def f(S):
            S.require(S.match(S.out.v, Ok(ANY)), 'a document of the published format is refused')
            got = S.norm(S.out.v).a[2]
            for k, x in want.items():
                g = S.field(got, k)
                if callable(x):
                    x(S, g)
                else:
                    S.require(S.same(g, x), '%s is read as %s, not %s' % (k, show(S.norm(g))[:300], show(x)[:300]))
        return f

    def obj(*kv):
        return mk('jobj', *[x for k, v in kv for x in (lit(k), v)])

    def text(n):
        t = sym(n)
        UNSIZED.add(t)
        RANGE.setdefault(mk('len', t), (0, 1 << 40))
        return t
    seed, mn, data = text('seed'), text('mnemonic'), text('data')
    n = sym('nkeys')
    RANGE.setdefault(n, (0, 1 << 20))
    ix = ENG.mk_ix(n, 0)
    nets, vals = mk('at', sym('nets'), ix), mk('at', sym('vals'), ix)
    RANGE.setdefault(nets, (0, (1 << 32) - 1))
    UNSIZED.add(vals)
    kd = mk('jarr', mk('tab', n, ix, mk('jarr', seqof([jnum(nets), b64(vals)]))))

    def keys(S, got):
        got = S.norm(got)
        base, rs = S.rounds(got)
        S.require(base is mk('map') and len(rs) == 1, 'the keys are not read entry by entry: ' + show(got)[:400])
        rn, rix, cases = rs[0]
        S.require(S.same(rn, n) and len(cases) == 1 and not cases[0][0] and cases[0][1] is not None, 'not every key is read: ' + show(got)[:400])
        k, v = cases[0][1]
        sub_ = lambda t: S.e.subst(t, {rix: ix}) if rix is not ix else t
        S.require(S.same(sub_(k), mk('agg', adt(S.ck, 'keychain::network::Network'), 0, nets)), 'a network number is read as %s' % show(sub_(k))[:200])
        S.require(S.same(sub_(v), vals), 'key data is read as %s' % show(sub_(v))[:200])
    W1, W2, VD, LG, NT = (adt(ck, p) for p in ('keychain::data::WalletDataV1', 'keychain::data::WalletDataV2', 'keychain::data::VersionedData', 'keychain::mnemonic::Language', 'keychain::network::Network'))
    lang = lambda l: mk('agg', LG, LANGS.index(l))
    names = e.types[next(k for k, t in e.types.items() if t.get('path') == LG)]['v']
    ck.expect(sorted(v['n'] for v in names) == sorted(LANGS), 'languages', 'the languages are ' + ', '.join(v['n'] for v in names))
    vix = {v['n']: i for i, v in enumerate(names)}

    def go(*a):
        ck.guard('read %s %s%s' % (a[0], a[1], tag), judge, *a)
    go(W1, '{keys}', obj(('keys', kd)), gives(dict(keys=keys)))
    cases = [(('seed', b64(seed), SOME(seed)), ('seed', NULL, NONE)), (('mnemonic', jstr(mn), SOME(mn)), ('mnemonic', NULL, NONE)),
             (('dictionary', jstr(lit('Korean')), SOME(mk('agg', LG, vix.get('Korean', 99)))), ('dictionary', NULL, NONE))]
    for c in itertools.product(*cases):
        perms = list(itertools.permutations(range(4)))
        for p in perms if ck.tier == 'thorough' or all(x[1] is not NULL for x in c) else [perms[0], perms[-1]]:
            fs = [(x[0], x[1]) for x in c] + [('keys', kd)]
            go(W2, '{%s}' % ', '.join(fs[i][0] + ('' if fs[i][1] is not NULL else ': null') for i in p), obj(*[fs[i] for i in p]),
               gives(dict([(x[0], x[2]) for x in c] + [('keys', keys)])))
    for i in (1, 2):
        ver = lambda S, g, i=i: S.require(version(S, g) == i, 'the version is read as something else')
        for o in (0, 1):
            fs = [('version', jnum(i)), ('data', b64(data))]
            go(VD, 'version %d%s' % (i, ' after data' if o else ''), obj(*(fs[::-1] if o else fs)), gives(dict(version=ver, data=data)))
    x = sym('version_number')
    RANGE.setdefault(x, (-(1 << 63), (1 << 64) - 1))

    def known(S):
        if S.out.k == 'ret' and S.match(S.out.v, Ok(ANY)):
            v = version(S, S.field(S.norm(S.out.v).a[2], 'version'))
            S.require(v in (1, 2) and S.eq(x, v), 'a number that is not its own is accepted as version %s' % v)
        else:
            S.require(S.out.k == 'ret', 'panics')
            S.require(not S.eq(x, 1) and not S.eq(x, 2), 'version 1 or 2 is refused')
    go(VD, 'any version number', obj(('version', jnum(x)), ('data', b64(data))), known)
    for lab, d in (('null', NULL), ('text', jstr(text('t'))), ('list', mk('jarr', EMPTY)), ('object', mk('jobj'))):
        go(VD, 'version that is ' + lab, obj(('version', d), ('data', b64(data))), refused)
    go(VD, 'no version', obj(('data', b64(data))), refused)
    go(VD, 'no data', obj(('version', jnum(2))), refused)
    go(W1, 'no keys', obj(), refused)
    go(W2, 'no keys', obj(('seed', NULL), ('mnemonic', NULL), ('dictionary', NULL)), refused)
    for l in LANGS:
        go(LG, l, jstr(lit(l)), lambda S, l=l: S.require(S.match(S.out.v, Ok(ANY)) and S.var(S.norm(S.out.v).a[2]) == l, 'the name is not read as its language: ' + show(S.norm(S.out.v))[:200]))
    t = text('language_name')

    def langname(S):
        for l in LANGS:
            if S.dec(boolean(mkeq(t, lit(l)))):
                return S.require(S.match(S.out.v, Ok(ANY)) and S.var(S.norm(S.out.v).a[2]) == l, 'the name %s is not read as its language' % l)
        refused(S)
    go(LG, 'any name', jstr(t), langname)
    y = sym('network_number')
    RANGE.setdefault(y, (-(1 << 63), (1 << 64) - 1))

    def number(S):
        if S.dec(le(0, y)) and S.dec(le(y, (1 << 32) - 1)):
            return S.require(S.same(S.out.v, OK(mk('agg', NT, 0, y))), 'the number is read as ' + show(S.norm(S.out.v))[:200])
        refused(S)
    go(NT, 'any number', jnum(y), number)


def versions(ck):
    e = ck.engine()
    W2, VD = adt(ck, 'WalletDataV2'), adt(ck, 'VersionedData')

    def each(args, ret, spec):
        """the functions that turn the one into the other; written in place, they are judged with their callers (C05, C06, C28)"""
        def path(t):
            t = e.types[t]
            t = e.types[t['e']] if t['k'] in ('ref', 'ptr') else t
            return t.get('path')
        for f in sorted(e.fns.values(), key=lambda f: f['name']):
            if f.get('krate') != 'keychain' or f.get('kind') != 'item' or not f.get('sig') or not f.get('body'):
                continue
            r = e.types[f['sig'][1]]
            if tuple(path(t) for t in f['sig'][0]) == args and r.get('path') == RES and path(r['args'][0]) == ret[1]:
                ck.allow(e, f['name'].split('::', 1)[1], spec)

    def new(S, w):
        VD = adt(ck, 'keychain::data::VersionedData')
        o = S.norm(S.out.v) if S.out.k == 'ret' else None
        if S.match(o, Err(ANY)) and isT(o.a[2], 'fld') and isT(o.a[2].a[0], 'json_ser') and o.a[2].a[1] == 1:
            return
        S.require(S.match(o, Ok(ANY)), 'fails')
        v = S.norm(S.out.v).a[2]
        S.require(version(S, S.field(v, 'version')) == 2, 'a new wallet is not of version 2')
        x = S.norm(S.field(v, 'data'))
        S.require(isT(x, 'fld') and isT(x.a[0], 'json_ser') and S.same(x.a[0].a[0], S.e.rb(S.st, S.e.load(S.st, w))), 'the data is not the JSON of the wallet')
    each((W2,), (RES, VD), new)

    def get(S, v):
        W2, W1 = adt(ck, 'WalletDataV2'), adt(ck, 'WalletDataV1')
        ver = version(S, S.field(v, 'version'))
        ok, w = resok(S, json_de(S, W1 if ver == 1 else W2, S.field(v, 'data')))
        if not ok:
            return S.want(Err(w))
        S.require(S.match(S.out.v, Ok(ANY)), 'a readable wallet is refused')
        got = S.norm(S.out.v).a[2]
        for k in ('seed', 'mnemonic', 'dictionary', 'keys'):
            x = NONE if ver == 1 and k != 'keys' else S.field(w, k)
            S.require(S.same(S.field(got, k), x), '%s is read as %s' % (k, show(S.norm(S.field(got, k)))[:300]))
    each((VD,), (RES, W2), get)
