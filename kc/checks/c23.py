from ..ref import *

F = '<keychain::networks::cardano::KeyFactory as keychain::KeyFactory>::'


def verified(S, x):
    """the library's verdict on 96 bytes: (True, key) or (False, error)"""
    return resok(S, mcall(S, ED + 'from_bytes_verified', x))


def root(S, seed):
    e, st = S.e, S.st
    h = hash_of('sha512', e.slice(st, seed, 0, 32))
    b0 = to_bits(e.note_byte(e.elem(st, h, 0)), 8, st)
    b31 = to_bits(e.note_byte(e.elem(st, h, 31)), 8, st)
    first = from_bits([0, 0, 0] + list(b0[3:]), st)
    last = from_bits(list(b31[:5]) + [0, 1, 0], st)
    return cat(lits([first]), e.slice(st, h, 1, 31), lits([last]), e.slice(st, h, 32, 64), e.slice(st, seed, 32, 64))


def run(ck):
    ck.explain = 'Every path of the Cardano factory\'s key_data_from_seed over seeds of every length and of key_from_data over data of every length.'
    ck.rule('seed of 64 bytes: data = SHA-512(seed[0..32]) with bits 0,1,2 of byte 0 and bits 7,5 of byte 31 cleared and bit 6 set, then seed[32..64]; returned only if XPrv::from_bytes_verified accepts exactly these bytes; other lengths refused')
    ck.rule('key_from_data: other lengths refused with InvalidKeySize(length, 96); otherwise accepted iff from_bytes_verified accepts exactly the data')
    e = ck.engine()

    def make(S, f, seed):
        if not S.dec(eq0(sub(slen(seed), 64))):
            return S.want(Err(ANY))
        x = root(S, seed)
        ok, k = verified(S, x)
        if not ok:
            return S.want(Err(ANY))
        S.want(OneOf(Ok(mcall(S, ASREF, k)), Ok(x)))
    ck.allow(e, F + 'key_data_from_seed', make)

    def load(S, f, data):
        if not S.dec(eq0(sub(slen(data), 96))):
            return S.want(Err(Agg(adt(ck, 'keychain::key::Error'), 'InvalidKeySize', slen(data), 96)))
        ok, k = verified(S, data)
        S.want(Ok(ANY) if ok else Err(Agg(adt(ck, 'keychain::key::Error'), 'InvalidKeyData', ANY)))
    ck.allow(e, F + 'key_from_data', load)
