from ..capi import *


def same_args(S, got, want):
    for g, w in zip(got, want):
        if isinstance(w, Bytes):
            g = S.norm(g)
            if not (isT(g, 'buf') and g.a[0] is w.p and S.same(g.a[1], w.n)):
                if not (g is EMPTY and S.same(w.n, 0)):
                    return False
        elif isinstance(w, Agg) and w.path == 'path5':
            if not (isT(g, 'agg') and g.a[0] == 'path5' and all(S.same(a, b) for a, b in zip(g.a[2:], w.fields))):
                return False
        elif not S.match(g, w):
            return False
    return len(got) == len(want)


def calls_of(S, op):
    """the calls of the operation this outcome depends on"""
    seen, found = set(), []
    work = [f for f, _ in S.st.since(None)] + [v for o, v in S.st.mem.items() if isinstance(o, tuple) and o and o[0] == 'sym']
    while work:
        x = work.pop()
        if isinstance(x, tuple):
            work.extend(x)
            continue
        if not isT(x) or x in seen:
            continue
        seen.add(x)
        if x.op == 'call' and x.a[0] == op:
            found.append(x)
        work.extend(x.a)
    return found


def run(ck):
    ck.explain = 'Every path of every exported operation of the C interface on arbitrary C arguments, against the Rust operation applied to what these arguments designate.'
    ck.rule('a null handle, a null or non-UTF-8 string, or null data of non-zero length is refused with an error')
    ck.rule('otherwise the Rust operation is applied to exactly: the object behind the handle, the network number, the language of the same name, the bytes (null and 0 = empty), the text, the flag/number, the five path values')
    ck.rule('its error becomes an error; its success becomes true with: the same truth value; the same bytes and their length; the same text; the object itself behind the handle; the same five path values; the list element by element')
    e = ck.engine(boundaries())
    x = exported(e)
    for name in sorted(OPS):
        ck.expect(name in x, 'anchor ' + name, 'anchor not found: exported function ' + name)
        if name in x:
            ck.guard(name, forward, ck, e, name)


def forward(ck, e, name, only=None, label=None):
    r = Run(ck, e, name)
    op, kinds, res, fails = OPS[name]
    dty = rettype(e, op)

    def judge(S):
        o = S.out
        if only and not only(S, r):
            return
        S.require(o.k == 'ret', 'panics')
        try:
            op_, want, n = operands(S, r)
        except Bad as x:
            S.require(not S.dec(o.v), 'succeeds although: %s' % x)
            return
        out, err = r.args[n], r.args[n + 1]
        S.require(len(r.args) == n + 2, 'takes %d arguments' % len(r.args))
        cs = calls_of(S, op)
        good = [c for c in cs if same_args(S, c.a[1:], want)]
        if not good:
            S.require(not cs, '%s is applied to %s where %s is due' % (op, [show(S.norm(y))[:200] for y in cs[0].a[1:]] if cs else '', [str(w)[:200] if not isT(w) else show(w) for w in want]))
            S.require(False, '%s does not decide the outcome' % op)
        c = good[0]
        e.note_ty(c, dty)
        v = c
        if fails:
            ok, v = resok(S, c)
            if not ok:
                S.require(not S.dec(o.v), 'succeeds although %s fails' % op)
                return
        success = S.dec(o.v)
        if not success:
            # the only excuse: a text C cannot represent
            t = {'string': v, 'mnemonic': S.rb(mk('fld', v, 0, 0))}.get(res)
            if t is not None:
                nn = M.no_nul(e, S.st, S.norm(t))
                if nn != 1 and (nn == 0 or not S.dec(nn)):
                    return
            S.require(False, 'fails although %s succeeds' % op)
        m = mem(S, out)
        S.require(m is not None, 'the result is not written')
        RESULT[res](S, m, v, e.types[r.tys[n]]['e'])
    ck.judge(e, name, r.outs, judge, label)


def r_bool(S, m, v, t):
    S.require(S.same(m, v), 'gives %s where %s is due' % (show(m)[:300], show(v)[:300]))


def bytes_of(S, m, v):
    """m is a (pointer, length) structure holding exactly v"""
    S.require(isT(m, 'agg') and len(m.a) == 4, 'no (pointer, length) pair: ' + show(m)[:200])
    p, n = (m.a[2], m.a[3]) if isT(m.a[2], 'hp') or not isT(m.a[3], 'hp') else (m.a[3], m.a[2])
    got = pointee(S, p)
    S.require(S.same(got, v), 'gives %s where %s is due' % (show(got)[:300], show(v)[:300]))
    S.require(S.same(n, slen(v)), 'gives length %s where %s is due' % (show(n)[:200], show(slen(v))[:200]))


def r_data(S, m, v, t):
    bytes_of(S, m, S.norm(v))


def r_handle(S, m, v, t):
    S.require(isT(m, 'agg') and len(m.a) == 3, 'no handle: ' + show(m)[:200])
    got = pointee(S, m.a[2])
    S.require(S.same(got, v), 'the handle designates %s where %s is due' % (show(got)[:300], show(v)[:300]))


def r_string(S, m, v, t):
    got = pointee(S, m)
    S.require(S.same(got, v), 'gives %s where %s is due' % (show(got)[:300], show(v)[:300]))


def r_mnemonic(S, m, v, t):
    e = S.e
    S.require(isT(m, 'agg') and len(m.a) == 4, 'no mnemonic structure: ' + show(m)[:200])
    tt = e.types[t]['v'][0]['f']
    li = [i for i, f in enumerate(tt) if e.types[f[1]]['k'] == 'adt']
    S.require(len(li) == 1, 'no language in the mnemonic structure')
    lang, text = m.a[2 + li[0]], m.a[3 - li[0]]
    ty = e.types[VTY[v]]
    want_t = S.rb(e.note_ty(mk('fld', v, 0, 0), ty['e'][0]))
    want_l = S.rb(e.note_ty(mk('fld', v, 0, 1), ty['e'][1]))
    got = pointee(S, text)
    S.require(S.same(got, want_t), 'gives %s where %s is due' % (show(got)[:300], show(want_t)[:300]))
    S.require(S.var(lang) == S.var(want_l), 'gives language %s where %s is due' % (S.var(lang), S.var(want_l)))


def r_path(S, m, v, t):
    e = S.e
    names = [f[0] for f in e.types[t]['v'][0]['f']]
    S.require(isT(m, 'agg') and len(m.a) == 7, 'no path structure: ' + show(m)[:200])
    rt = e.types[VTY[v]]['path'] if VTY.get(v) is not None else None
    for meth in PATH_METHODS:
        S.require(meth in names, 'the C path has no field ' + meth)
        got = S.norm(m.a[2 + names.index(meth)])
        want = [S.norm(mk('call', '<%s as keychain::KeyPath>::%s' % (p, meth), v)) for p in KEYPATHS]
        want.append(S.norm(mk('vcall', 'keychain::KeyPath::' + meth, v)))
        S.require(any(got is w for w in want), '%s becomes %s where %s of the path is due' % (meth, show(got)[:200], meth))


def elements(S, m):
    """(n, element at position ix, ix) of a (pointer, count) structure"""
    S.require(isT(m, 'agg') and len(m.a) == 4, 'no (pointer, count) pair: ' + show(m)[:200])
    p, n = (m.a[2], m.a[3]) if isT(m.a[2], 'hp') or not isT(m.a[3], 'hp') else (m.a[3], m.a[2])
    return pointee(S, p), n


def listed(S, m, v, f):
    e = S.e
    got, n = elements(S, m)
    S.require(S.same(n, slen(v)), 'gives %s elements where %s are due' % (show(n)[:200], show(slen(v))[:200]))
    S.require(S.same(slen(got), slen(v)), 'holds %s elements where %s are due' % (show(slen(got))[:200], show(slen(v))[:200]))
    ix = mk('ix', slen(v), 0)
    RANGE.setdefault(ix, (0, LENMAX))
    st = S.st.copy()
    ENG.assume_in(st, lt(ix, slen(v)), 1)
    if S.same(slen(v), 0):
        return
    S2 = type(S)(S.ck, e, st, S.out)
    f(S2, S2.norm(e.elem(st, got, ix)), S2.norm(e.elem(st, v, ix)))


def network_is(S, g, w):
    S.require(isT(g, 'agg') and len(g.a) == 3, 'no network: ' + show(g)[:200])
    S.require(S.same(g.a[2], S.rb(mk('fld', w, 0, 0))), 'network %s where %s is due' % (show(g.a[2])[:200], show(w)[:200]))


def r_networks(S, m, v, t):
    listed(S, m, S.norm(v), network_is)


def r_backup(S, m, v, t):
    def one(S, g, w):
        S.require(isT(g, 'agg') and len(g.a) == 4, 'no backup element: ' + show(g)[:200])
        network_is(S, S.norm(g.a[2]), S.rb(mk('fld', w, 0, 0)))
        bytes_of(S, S.norm(g.a[3]), S.rb(mk('fld', w, 0, 1)))
    listed(S, m, S.norm(v), one)


RESULT = {'bool': r_bool, 'data': r_data, 'handle': r_handle, 'string': r_string, 'mnemonic': r_mnemonic, 'path': r_path, 'networks': r_networks, 'backup': r_backup}
