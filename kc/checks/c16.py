from ..ref import *


def run(ck):
    ck.explain = 'Every path of the seed constructors, for every mnemonic text, passphrase and byte string, and of the views on a seed.'
    ck.rule('from_mnemonic_string(m, p) = PBKDF2-HMAC-SHA512(password = text of m, salt = "mnemonic" || p, 2048 rounds), 64 bytes, whole')
    ck.rule('from_slice: exactly 64 bytes, kept as they are, otherwise InvalidSeedSize with the length; from_bytes keeps the bytes; the views of a seed are its 64 bytes; two seeds are equal only when all their bytes are')
    e = ck.engine()
    SD = adt(ck, 'bip39::bip39::Seed')
    ER = adt(ck, 'bip39::bip39::Error')

    def from_text(S, m, p):
        t = S.field(m, '0')
        S.want(Agg(SD, '', mk('pbkdf2', 'sha512', S.norm(t), cat(lit('mnemonic'), S.norm(p)), 2048, 64)))
    ck.allow(e, 'bip39::Seed::from_mnemonic_string', from_text)

    def from_slice(S, b):
        if S.dec(eq0(sub(slen(S.norm(b)), 64))):
            return S.want(Ok(Agg(SD, '', b)))
        S.want(Err(Agg(ER, 'InvalidSeedSize', slen(S.norm(b)))))
    ck.allow(e, 'bip39::Seed::from_slice', from_slice)
    ck.allow(e, 'bip39::Seed::from_bytes', lambda S, b: S.want(Agg(SD, '', b)))
    for t in ('std::convert::AsRef<[u8]>>::as_ref', 'std::ops::Deref>::deref'):
        ck.allow(e, '<bip39::Seed as ' + t, lambda S, s: S.want(S.norm(S.field(s, '0'))))

    def equal(S, a, b):
        S.require(S.out.k == 'ret', 'panics')
        x, y = S.norm(S.field(a, '0')), S.norm(S.field(b, '0'))
        S.require(S.same(S.out.v, 1) == S.dec(boolean(mkeq(x, y))), 'equality is not that of the bytes')
    ck.allow(e, '<bip39::Seed as std::cmp::PartialEq>::eq', equal)
