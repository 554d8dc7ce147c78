from ..ref import *
from .. import engine as ENG
from .c13 import WORDS, paths, variant_ix


def run(ck):
    ck.explain = 'Every size table and conversion of the bip39 crate, for every value of the type it takes.'
    ck.rule('words w in {9,12,15,18,21,24}: entropy 32w/3 bits, checksum w/3 bits; from_word_count, from_entropy_size, to_key_size, checksum_size_bits, mnemonic_count, get_type, the text forms and the entropy types all agree; every other count or size is refused, reported with its value')
    ck.rule('Entropy::from_slice and Entropy::new keep exactly the given bytes; Mnemonics::from_mnemonics keeps exactly the given words; MnemonicIndex::new accepts exactly 0..2047')
    e = ck.engine()
    EP, MP, IP = paths(e)
    ER = adt(ck, 'bip39::bip39::Error')
    T = adt(ck, 'bip39::bip39::Type')
    ck.expect({v['n'] for t in e.types.values() if t.get('path') == T and 'v' in t for v in t['v']} == {'Type%dWords' % w for w in WORDS}, 'types', 'the supported lengths are not 9, 12, 15, 18, 21 and 24')

    def words_of(S, t):
        n = S.var(t)
        return int(''.join(c for c in n if c.isdigit()))

    def of(table, err):
        def spec(S, n):
            S.require(S.out.k == 'ret', 'panics')
            for w in WORDS:
                if S.dec(eq0(sub(n, table(w)))):
                    return S.want(Ok(Agg(T, 'Type%dWords' % w)))
            S.want(Err(Agg(ER, err, n)))
        return spec
    ck.allow(e, 'bip39::Type::from_word_count', of(lambda w: w, 'WrongNumberOfWords'))
    ck.allow(e, 'bip39::Type::from_entropy_size', of(lambda w: w * 32 // 3, 'WrongKeySize'))

    def table(f):
        def spec(S, t):
            S.require(S.out.k == 'ret', 'panics')
            w = words_of(S, t)
            S.require(S.same(S.out.v, f(w)), 'for %d words it is %s, not %s' % (w, show(S.norm(S.out.v))[:100], f(w)))
        return spec
    ck.allow(e, 'bip39::Type::to_key_size', table(lambda w: w * 32 // 3))
    ck.allow(e, 'bip39::Type::checksum_size_bits', table(lambda w: w // 3))
    ck.allow(e, 'bip39::Type::mnemonic_count', table(lambda w: w))
    fs = [n for n in e.byname if n.startswith('<bip39::Type as std::str::FromStr>')]
    for n in fs:
        def spec(S, s):
            S.require(S.out.k == 'ret', 'panics')
            for w in WORDS:
                if S.dec(boolean(mkeq(S.norm(s), lit(str(w))))):
                    return S.want(Ok(Agg(T, 'Type%dWords' % w)))
            S.require(S.match(S.out.v, Err(ANY)), 'another text is taken for a length')
        ck.allow(e, n, spec)

    def get_type(S, v):
        w = words_of(S, v)
        S.require(S.out.k == 'ret' and S.var(S.out.v) == 'Type%dWords' % w, 'the length of the wrong type')
    ck.allow(e, 'bip39::Entropy::get_type', get_type)
    t = next(t for t in e.types.values() if t.get('path') == EP and 'v' in t)
    for v in t['v']:
        w = int(''.join(c for c in v['n'] if c.isdigit()))
        ft = e.types[v['f'][0][1]]
        ck.expect(w in WORDS and ft['k'] == 'array' and ft['n'] == w * 4 // 3, 'size/' + v['n'], '%s holds %s bytes' % (v['n'], ft.get('n')))
    ck.expect(len(t['v']) == len(WORDS), 'entropy-types', 'the entropy types are not those of the six lengths')

    def bytes_are(S, got, b, w):
        got = S.norm(got)
        S.require(isT(got, 'agg') and ck.vname(got.a[0], got.a[1]) == 'Entropy%d' % w, 'not an entropy of %d words' % w)
        g = S.norm(got.a[2])
        n = w * 4 // 3
        S.require(S.same(slen(g), n), 'not %d bytes' % n)
        for i in range(n):
            S.require(S.same(S.e.elem(S.st, g, i), S.e.elem(S.st, b, i)), 'byte %d of %d is changed' % (i, n))

    def from_slice(S, b):
        S.require(S.out.k == 'ret', 'panics')
        for w in WORDS:
            if S.dec(eq0(sub(slen(b), w * 4 // 3))):
                S.require(S.match(S.out.v, Ok(ANY)), 'an entropy of %d bytes is refused' % (w * 4 // 3))
                return bytes_are(S, S.norm(S.out.v).a[2], b, w)
        S.want(Err(Agg(ER, 'WrongKeySize', mulc(slen(b), 8))))

    ck.allow(e, 'bip39::Entropy::from_slice', from_slice)

    def index(S, n):
        S.require(S.out.k == 'ret', 'panics')
        S.want(Ok(Agg(IP, '', n)) if S.dec(le(n, 2047)) else Err(Agg(ER, 'MnemonicOutOfBound', n)))
    ck.allow(e, 'bip39::MnemonicIndex::new', index)

    def mnems(S, v):
        S.require(S.out.k == 'ret', 'panics')
        for w in WORDS:
            if S.dec(eq0(sub(slen(v), w))):
                return S.want(Ok(Agg(MP, '', v)))
        S.want(Err(Agg(ER, 'WrongNumberOfWords', slen(v))))
    ck.allow(e, 'bip39::Mnemonics::from_mnemonics', mnems)

    def mtype(S, m):
        v = S.field(m, '0')
        for w in WORDS:
            if S.dec(eq0(sub(slen(v), w))):
                return S.require(S.out.k == 'ret' and S.var(S.out.v) == 'Type%dWords' % w, 'the length of the wrong type')
    ck.allow(e, 'bip39::Mnemonics::get_type', mtype)
