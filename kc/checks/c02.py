from ..ref import *


def run(ck):
    ck.explain = 'Every path of crypt::decrypt, with symbolic input and password; and decrypt composed with the reference form of encrypt.'
    ck.rule('len < 60: NotEnoughData; else plaintext of bytes 60.. under the key derived from bytes 0..32 with nonce 32..44 and tag 44..60 if the tag verifies over all of 60.., else DecryptionFailed; no panic')
    e = ck.engine()

    def spec(S, data, pw):
        k, pt = opening(S, data, pw)
        if k == 'short':
            S.want(Err(Agg(adt(ck, 'crypt::DecryptError'), 'NotEnoughData')))
        elif k == 'bad':
            S.want(Err(Agg(adt(ck, 'crypt::DecryptError'), 'DecryptionFailed')))
        else:
            S.want(Ok(pt))
    ck.allow(e, 'keychain::crypt::decrypt', spec)

    # inversion: what decrypt reads from an encryption is the salt, nonce, tag and ciphertext written there
    ck.rule('the positions decrypt reads are those encrypt writes: decrypt(encrypt(p, w), w) verifies the tag of the ciphertext of p and returns its plaintext')

    def go():
        e2 = ck.engine()
        args = ck.symargs(e2, 'keychain::crypt::encrypt', ['plain', 'password', 'random'])
        for o in ck.outs(e2, 'keychain::crypt::encrypt', args):
            if o.k != 'ret':
                continue
            v = e2.rb(o.st, o.v)
            p, w = args[0], args[1]

            def back(S, data, pw):
                salt, nonce = e2.slice(S.st, v, 0, 32), e2.slice(S.st, v, 32, 44)
                key = pw_key(w, salt)
                ct = length(mk('aead_ct', key, nonce, EMPTY, p), slen(p))
                tag = length(mk('aead_tag', key, nonce, EMPTY, p), 16)
                ok = boolean(mk('aead_ok', key, nonce, EMPTY, ct, tag))
                if S.dec(ok):
                    S.want(Ok(length(mk('aead_pt', key, nonce, EMPTY, ct), slen(p))))
                else:
                    S.want(Err(Agg(adt(ck, 'crypt::DecryptError'), 'DecryptionFailed')))
            ck.allow(e2, 'keychain::crypt::decrypt', back, args=[v, w], st=o.st, label='decrypt∘encrypt')
    ck.guard('decrypt∘encrypt', go)
