from ..ref import *


def run(ck):
    ck.explain = 'Every path of crypt::encrypt, with symbolic plaintext, password and random source, returns salt ++ nonce ++ tag ++ ciphertext of the required terms.'
    ck.rule('result = S(32 fresh) ++ N(12 fresh, disjoint) ++ tag ++ ct with (ct, tag) = ChaCha20Poly1305(PBKDF2-HMAC-SHA512(pw, S, 19162, 32), N, aad empty, plaintext)')
    e = ck.engine()
    ck.allow(e, 'keychain::crypt::encrypt', lambda S, data, pw, src: S.want(sealed(data, pw, src)))
