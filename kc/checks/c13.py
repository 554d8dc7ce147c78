from ..ref import *
from .. import engine as ENG

WORDS = (9, 12, 15, 18, 21, 24)


def paths(e):
    P = lambda n: next(t['path'] for t in e.types.values() if t['k'] == 'adt' and t['path'].endswith('bip39::' + n))
    return P('Entropy'), P('Mnemonics'), P('MnemonicIndex')


def variant_ix(e, path, name):
    t = next(t for t in e.types.values() if t.get('path') == path and 'v' in t)
    return next((i for i, v in enumerate(t['v']) if v['n'] == name), None)


def bytes_sym(name, n):
    b = sym(name)
    LEN[b] = n
    for i in range(n):
        RANGE.setdefault(mk('at', b, i), (0, 255))
    return b


def msb(x, w):
    return ENG.to_bits(x, w)[::-1]


def entropy_bits(b, n):
    """the bits of an n-byte entropy followed by those of its SHA-256"""
    h = hash_of('sha256', b)
    out = []
    for i in range(n):
        out += msb(mk('at', b, i) if not isT(b, 'seq') else b.a[0][1][i], 8)
    out += msb(mk('at', h, 0), 8)
    return out


def num(bits):
    return ENG.from_bits(bits[::-1])


def run(ck):
    ck.explain = 'Both conversions, for each of the six strengths, with every bit of the entropy and of the word indexes symbolic.'
    ck.rule('to_mnemonics: word i = bits 11i..11i+10 of entropy || SHA-256(entropy)')
    ck.rule('from_mnemonics: the entropy is the leading bits of the words, accepted iff the remaining 3..8 bits are the leading bits of its SHA-256; otherwise InvalidChecksum(computed, found); checksum() is those leading bits')
    e = ck.engine()
    EP, MP, IP = paths(e)
    for w in WORDS:
        n, cs = w * 4 // 3, w // 3
        vn = 'Entropy%d' % w
        vi = variant_ix(e, EP, vn)
        ck.expect(vi is not None, 'variant/%d' % w, 'no entropy type of %d words' % w)
        if vi is None:
            continue
        b = bytes_sym('e%d_' % w, n)
        H = mk('at', hash_of('sha256', b), 0)
        RANGE.setdefault(H, (0, 255))

        def to(S):
            bits = entropy_bits(b, n)
            want = mk('agg', MP, 0, mk('seq', ('l', tuple(mk('agg', IP, 0, num(bits[11 * i:11 * i + 11])) for i in range(w)))))
            S.require(S.out.k == 'ret', 'panics')
            got = S.norm(S.out.v)
            S.require(isT(got, 'agg') and S.same(slen(got.a[2]), w), 'not %d words' % w)
            for i in range(w):
                x = S.e.elem(S.st, got.a[2], i)
                y = want.a[2].a[0][1][i]
                S.require(S.same(x, y), 'word %d of %d is %s, not %s' % (i, w, show(S.norm(x))[:300], show(y)[:300]))

        def csum(S):
            S.require(S.out.k == 'ret', 'panics')
            S.require(S.same(S.out.v, num(entropy_bits(b, n)[8 * n:8 * n + cs])), 'the checksum of %d bytes is not the leading %d bits of the hash: %s' % (n, cs, show(S.norm(S.out.v))[:200]))
        ent = mk('agg', EP, vi, b)
        for fn, spec in (('bip39::Entropy::to_mnemonics', to), ('bip39::Entropy::checksum', csum)):
            ck.guard('%s/%d' % (fn, w), lambda: ck.judge(e, fn, e.run(e.fn(fn), [byref(ent)], ENG.St()), spec, label='%s/%d words' % (fn, w)))
            ck.anchors[fn] = ck.anchors.get(fn, 0) + 1

        ws = []
        for i in range(w):
            x = sym('w%d_%d' % (w, i))
            RANGE.setdefault(x, (0, 2047))
            ws.append(x)
        m = mk('agg', MP, 0, mk('seq', ('l', tuple(mk('agg', IP, 0, x) for x in ws))))

        def frm(S):
            bits = [y for x in ws for y in msb(x, 11)]
            ent = mk('seq', ('l', tuple(num(bits[8 * i:8 * i + 8]) for i in range(n))))
            have = num(bits[8 * n:])
            calc = num(msb(mk('at', hash_of('sha256', ent), 0), 8)[:cs])
            S.require(S.out.k == 'ret', 'panics')
            if S.dec(eq0(sub(calc, have))):
                S.require(S.match(S.out.v, Ok(Agg(EP, vn, ent))), 'a mnemonic with the right checksum does not give its entropy: ' + show(S.norm(S.out.v))[:300])
            else:
                S.want(Err(Agg(adt(ck, 'bip39::bip39::Error'), 'InvalidChecksum', calc, have)))
        fn = 'bip39::Entropy::from_mnemonics'
        ck.guard('%s/%d' % (fn, w), lambda: ck.judge(e, fn, e.run(e.fn(fn), [byref(m)], ENG.St()), frm, label='%s/%d words' % (fn, w)))
        ck.anchors[fn] = ck.anchors.get(fn, 0) + 1
