from ..ref import *

PARSE = 'keychain::GenericKeyPath::from'
NAMES = ('purpose', 'coin', 'account', 'change', 'address')
GP = 'keychain::GenericKeyPath'


def component(S, part, i):
    """('ok', value) | ('err', [patterns]) for the text of component i"""
    P = adt(S.ck, 'keychain::key_path::Error')
    n = slen(part)
    empty = Agg(P, 'EmptyValueAtIndex', i)
    bad = Agg(P, 'ParseErrorAtIndex', i, ANY)
    if S.dec(eq0(n)):
        return 'err', [empty]
    hard = S.dec(eq0(sub(mk('at', part, sub(n, 1)), 39)))
    d = S.e.slice(S.st, part, 0, sub(n, 1)) if hard else part
    if hard and S.dec(eq0(sub(n, 1))):
        return 'err', [empty, bad]
    if not S.dec(boolean(mk('isnum', d, 10))):
        return 'err', [bad]
    v = mk('num', d, 10)
    RANGE.setdefault(v, (0, 1 << 200))
    if not S.dec(le(v, (1 << 31) - 1 if hard else (1 << 32) - 1)):
        return 'err', [bad]
    return 'ok', add(v, B31) if hard else v


def accessors(S, v, want):
    for n, x in zip(NAMES, want):
        got = total(S, '<%s as keychain::KeyPath>::%s' % (GP, n), [byref(v)], n + '()')
        S.require(S.same(got, x), '%s() is %s, not %s' % (n, show(got)[:200], show(x)[:200]))


def run(ck):
    ck.explain = 'Every path of GenericKeyPath::from over any text, of its printing over any five 32-bit components, and of parsing composed with printing.'
    ck.rule('accepted iff the text split at "/" has 6 parts, the first one trimmed is "m", and each other one trimmed is digits with value < 2^32, or digits with value < 2^31 followed by one apostrophe (value + 2^31); the i-th accessor gives the i-th component; errors name a part that is wrong; no panic')
    ck.rule('print(path) = "m" followed by "/" and the decimal component below 2^31, or the decimal component - 2^31 and an apostrophe, in order; parse(print(path)) = path')
    e = ck.engine()

    def parse(S, text):
        P = adt(ck, 'keychain::key_path::Error')
        S.require(S.out.k == 'ret', 'panics')
        sp = mk('split', S.norm(text), lit('/'))
        RANGE.setdefault(mk('len', sp), (1, 1 << 62))
        n = slen(sp)
        if not S.dec(eq0(sub(n, 6))):
            return S.want(Err(Agg(P, 'InvalidPartsCount', n)))

        def part(i):
            t = mk('trim', mk('at', sp, i))
            slen(t)
            return t
        r = Refusals(S)
        if not S.dec(boolean(mkeq(part(0), lit('m')))) and r.add(Agg(P, 'InvalidPathMarker', part(0))):
            return
        vals = []
        for i in range(1, 6):
            k, v = component(S, part(i), i)
            if k == 'err':
                for p in v:
                    if r.add(p):
                        return
            else:
                vals.append(v)
        if r.errs:
            return r.settle()
        S.require(S.match(S.out.v, Ok(ANY)), 'a well-formed path is refused: ' + show(S.norm(S.out.v))[:300])
        accessors(S, S.norm(S.out.v).a[2], vals)
    ck.allow(e, PARSE, parse, label='parse')

    def printed(vals, S):
        ps = [lit('m')]
        for v in vals:
            hard = S.dec(le(B31, v))
            ps += [lit('/'), mk('dec', sub(v, B31) if hard else v)] + ([lit("'")] if hard else [])
        return cat(*ps)

    ty = adt(ck, 'key_path::GenericKeyPath')

    def prints(S, p):
        S.require(S.out.k == 'ret', 'panics')
        v = S.e.rb(EMPTYST, p)
        vals = [S.norm(total(S, '<%s as keychain::KeyPath>::%s' % (GP, n), [byref(v)], n + '()')) for n in NAMES]
        S.want(printed(vals, S))
        # and back
        got = run1(S, PARSE, [byref(S.norm(S.out.v))])
        for o in got:
            X = ck_S(S, o)
            X.require(o.k == 'ret' and X.match(o.v, Ok(ANY)), 'the printed path does not parse: %s' % (o.k if o.k != 'ret' else show(X.norm(o.v))[:200]))
            accessors(X, X.norm(o.v).a[2], vals)
    ck.allow(e, GP + '::to_string', prints, label='print')
    conv = [n for n in e.byname if 'std::convert::From<&' in n and 'GenericKeyPath' in n and n.endswith('::from')]
    ck.expect(len(conv) >= 1, 'conversion', 'no conversion of a path into a String found')
    for n in conv:
        ck.allow(e, n, prints, label='print by ' + n)


def ck_S(S, o):
    return type(S)(S.ck, S.e, o.st, o)
