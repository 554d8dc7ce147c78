from ..capi import *
from . import c20

NETWORKS = {'NETWORK_CARDANO': 'CARDANO', 'NETWORK_BITCOIN': 'BITCOIN', 'NETWORK_ETHEREUM': 'ETHEREUM'}
CLANG, RLANG = 'rust_keychain::manager::Language', 'keychain::mnemonic::Language'


def const(e, suffix):
    """little-endian value of an exported constant of the keychain crate"""
    r = [c for c in e.d['consts'] if c['name'].endswith('::' + suffix) and c['krate'] == 'keychain' and 'b' in c['v']]
    if len(r) != 1:
        raise Stop('anchor not found: constant ' + suffix)
    return int.from_bytes(bytes.fromhex(r[0]['v']['b']), 'little')


def errors(ck, e, name):
    r = Run(ck, e, name)
    op, kinds, res, fails = OPS[name]
    dty = rettype(e, op)
    err = adt(ck, 'keychain::error::Error')

    def judge(S):
        if S.out.k != 'ret':
            return
        if any(x[0] == 'caught' for x in S.st.ev):
            return
        cs = c20.calls_of(S, op)
        if not cs:
            return
        if len(cs) > 1:
            raise Stop('the operation is applied more than once')
        e.note_ty(cs[0], dty)
        ok, x = resok(S, cs[0])
        if ok:
            return
        S.require(not S.dec(S.out.v), 'an error of %s is reported as success' % op)
        code, text = err_parts(S, mem(S, r.args[-1]))
        t = e.types[VTY[x]]
        if t['path'] == err:
            kind, want = S.var(x), S.norm(x)
        else:
            kind = 'KeyPathError'
            want = mk('agg', err, ck.vix(err, kind), x)
        S.require(kind in ERROR_CODES, 'error kind %s has no published code' % kind)
        S.require(code == ERROR_CODES[kind], 'error %s is reported as %d, published is %d' % (kind, code, ERROR_CODES[kind]))
        while isT(text, 'strreplace') and text.a[1] is lit(b'\0'):
            text = S.norm(text.a[0])
        S.require(isT(text, 'errtext') and S.same(text.a[0], want) or kind_text(S, text, kind), 'the text of %s is %s' % (kind, show(text)[:300]))
        seen.add(kind)
    seen = set()
    ck.judge(e, name, r.outs, judge)
    return seen


def kind_text(S, text, kind):
    return isT(text, 'errtext') and isT(text.a[0], 'agg') and not text.a[0].a[2:] and S.ck.vname(text.a[0].a[0], text.a[0].a[1]) == kind


def run(ck):
    ck.explain = 'Every error each operation can return, followed to the C error; both directions of the language mapping for each language; the numbers of the C enums; the network functions.'
    ck.rule('error kind -> code: %s; text = Display text of the Rust error (a character a C string cannot hold aside)' % ERROR_CODES)
    ck.rule('language: number k names %s, and the language of the same name is passed to, and reported from, the Rust operations' % LANGUAGES)
    ck.rule('NETWORK_X() = Network::X of the Rust crate')
    e = ck.engine(boundaries())
    x = exported(e)
    seen = set()
    for name in sorted(OPS):
        ck.expect(name in x, 'anchor ' + name, 'anchor not found: exported function ' + name)
        if name in x and OPS[name][3]:
            got = ck.guard(name, errors, ck, e, name) or set()
            ck.expect(len(got) == (len(ERROR_CODES) - 1 if name.startswith('keychain') else 1), name + ' errors', 'only the errors %s of %s are reported' % (sorted(got), name))
            seen |= got
    for k in ERROR_CODES:
        ck.expect(k == 'Panic' or k in seen, 'anchor error ' + k, 'anchor not found: error kind ' + k)
    ck.guard('languages', languages, ck, e)
    ck.guard('ErrorType', codes, ck, e)
    for c, n in NETWORKS.items():
        ck.expect(c in x, 'anchor ' + c, 'anchor not found: exported function ' + c)
        if c in x:
            def go(c=c, n=n):
                want = const(e, n)
                r = Run(ck, e, c)

                def num(S):
                    S.require(S.out.k == 'ret' and isT(S.out.v, 'agg') and S.same(S.out.v.a[2], want), '%s() is not %d' % (c, want))
                ck.judge(e, c, r.outs, num)
            ck.guard(c, go)


def number(t, v):
    d = int(v['d'])
    return d - (1 << 64) if d >= 1 << 63 else d - (1 << 32) if d >= 1 << 31 and t['size'] == 4 else d


def codes(ck, e):
    t = ck.adts.get('rust_keychain::error::ErrorType')
    if t is None:
        raise Stop('anchor not found: ErrorType')
    have = {v['n']: number(t, v) for v in t['v']}
    for k, n in ERROR_CODES.items():
        ck.expect(have.get(k) == n, 'code ' + k, 'C error %s is %s, published is %d' % (k, have.get(k), n))


def languages(ck, e):
    t = ck.adts.get(CLANG)
    if t is None:
        raise Stop('anchor not found: ' + CLANG)
    have = {v['n']: number(t, v) for v in t['v']}
    for i, n in enumerate(LANGUAGES):
        ck.expect(have.get(n) == i, 'language ' + n, 'C language %s is %s, published is %d' % (n, have.get(n), i))
    for name in ('keychain_manager_generate_mnemonic', 'keychain_manager_keychain_data_from_mnemonic'):
        op, kinds, _, _ = OPS[name]
        r = Run(ck, e, name)
        pos = sum(2 if k == 'bytes' else 1 for k in kinds[:kinds.index('lang')])
        given = set()

        def passed(S):
            if S.out.k != 'ret':
                return
            n = S.var(r.args[pos])
            for c in c20.calls_of(S, op):
                given.add(n)
                got = S.norm(c.a[1 + kinds.index('lang')])
                S.require(S.match(got, Some(Agg(adt(ck, RLANG), n))), 'C language %s is passed on as %s' % (n, show(got)[:200]))
        ck.judge(e, name, r.outs, passed, label=name + ' (language)')
        ck.expect(given >= set(LANGUAGES), name + ' languages', 'some language is never passed on: %s' % sorted(set(LANGUAGES) - given))
    name = 'keychain_manager_retrieve_mnemonic'
    if name not in OPS:
        return
    op, kinds, _, _ = OPS[name]
    r = Run(ck, e, name)
    ti = e.types[e.types[r.tys[-2]]['e']]['v'][0]['f']
    li = [i for i, f in enumerate(ti) if e.types[f[1]]['k'] == 'adt']
    got = set()

    def reported(S):
        if S.out.k != 'ret' or not S.dec(S.out.v):
            return
        cs = c20.calls_of(S, op)
        S.require(len(cs) == 1, 'the mnemonic is not what %s gives' % op)
        e.note_ty(cs[0], rettype(e, op))
        ok, v = resok(S, cs[0])
        S.require(ok, 'succeeds although %s fails' % op)
        w = S.var(S.rb(e.note_ty(mk('fld', v, 0, 1), e.types[VTY[v]]['e'][1])))
        m = mem(S, r.args[-2])
        g = S.var(m.a[2 + li[0]])
        got.add(w)
        S.require(g == w, 'Rust language %s is reported as %s' % (w, g))
    ck.judge(e, name, r.outs, reported, label=name + ' (language)')
    ck.expect(got >= set(LANGUAGES), name + ' languages', 'some language is never reported: %s' % sorted(set(LANGUAGES) - got))
