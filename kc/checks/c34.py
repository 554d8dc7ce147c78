"""C34: seeds, entropies, mnemonics and mnemonic types print exactly what they hold"""
from ..ref import *
from ..engine import VTY
from .c33 import parts

HEX = 'bip39::util::hex::encode'
DIGITS = b'0123456789abcdef'
COUNT = {'Type9Words': 9, 'Type12Words': 12, 'Type15Words': 15, 'Type18Words': 18, 'Type21Words': 21, 'Type24Words': 24}


def rounds(S, v):
    """(n, ix, [(conds, sequence)]) of a text made by going over something once"""
    v = S.norm(v)
    if isT(v, 'flat') or isT(v, 'tab'):
        return v.a[0], v.a[1], [((), v.a[2] if v.op == 'flat' else lits([v.a[2]]))]
    if isT(v, 'ftab'):
        return v.a
    raise Fail('the text is not made byte by byte: %s' % show(v)[:300])


def encode(S, x):
    e = S.e
    S.require(S.out.k == 'ret', 'panics')
    x = S.norm(x)
    n, ix, cases = rounds(S, S.out.v)
    S.require(n is slen(x), 'the text does not cover all bytes: %s of %s' % (show(n)[:100], show(slen(x))[:100]))
    b = to_bits(e.note_byte(e.elem(S.st, x, ix)), 8, S.st)
    for conds, seq in cases:
        for st in S.under(conds, ix, n):
            def go(X):
                val, m = 0, {}
                for i in range(8):
                    k = int(X.dec(b[i]) if not isinstance(b[i], int) else b[i])
                    m[b[i]] = k
                    val |= k << i
                for c, v in conds:
                    c = X.norm(e.subst(c, m))
                    if isinstance(c, int) and c != v:
                        return              # not for this byte
                got = X.norm(e.subst(X.norm(seq), m))
                X.require(slen(got) == 2, 'a byte is written as %s' % show(got)[:200])
                for i, nib in ((0, val >> 4), (1, val & 15)):
                    c = X.norm(e.elem(X.st, got, i))
                    if isT(c, 'sel') and isinstance(c.a[1], int):
                        c = e.elem(X.st, c.a[0], c.a[1])
                    X.require(c == DIGITS[nib], 'digit %d of byte 0x%02x is written as %s' % (i, val, show(c)[:200] if not isinstance(c, int) else repr(chr(c))))
            S.explore(st, go)


def run(ck):
    ck.explain = 'hex::encode over byte strings of every length (a generic byte in all of its 256 values), and Display of seeds, entropies, mnemonic texts and mnemonic types over every value; FromStr of mnemonic types over every text.'
    ck.rule('hex::encode writes for each byte, in order, its high and its low half as a lower-case digit and nothing else')
    ck.rule('a seed and an entropy of any strength print as the hex of all of their bytes, a mnemonic text as itself, a mnemonic type as its word count in decimal, from which FromStr reads the same type')
    e = ck.engine()
    ck.allow(e, HEX, encode)
    e = ck.engine({HEX: pure(HEX)})
    for T, how in (('Seed', 'hex'), ('Entropy', 'hex'), ('MnemonicString', 'text'), ('Type', 'count')):
        for tr in ('Display', 'Debug') if how == 'hex' else ('Display',):
            ck.guard(T + '/' + tr, prints, ck, e, '<bip39::%s as std::fmt::%s>::fmt' % (T, tr), how)
    ck.guard('Type/from_str', reads, ck, e)


def prints(ck, e, name, how):
    f = e.fns[e.fn(name)]
    t = e.types[f['sig'][0][0]]['e']
    a = ck.symargs(e, name, ['v', 'f'])[0]
    st = St().copy()
    oid = ('F', 'text', 0)
    st.mem[oid] = EMPTY
    outs = ck.outs(e, name, [a, mk('ref', oid, ())], st)

    def spec(S):
        S.require(S.out.k == 'ret', 'panics')
        v = S.rb(a)
        vi, ps, ts = parts(S, v, e.types[t])
        got = S.norm(S.st.mem[oid])
        if how == 'count':
            want = lit(str(COUNT[S.var(v)]))
        elif how == 'text':
            want = ps[0]
        else:
            want = S.norm(mk('call', HEX, ps[0]))
        S.require(S.same(got, want), 'prints %s' % show(got)[:300])
    ck.judge(e, name, outs, spec)


def reads(ck, e):
    T = adt(ck, 'bip39::bip39::Type')

    def spec(S, s):
        for n, k in COUNT.items():
            if S.dec(boolean(mkeq(S.norm(s), lit(str(k))))):
                return S.want(Ok(Agg(T, n)))
        S.want(Err(ANY))
    ck.allow(e, '<bip39::Type as std::str::FromStr>::from_str', spec)
