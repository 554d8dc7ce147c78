from ..ref import *


def entropy_of(ck, e, S, mgr):
    p = adt(ck, 'KeychainManager')
    i = ck.field_ix(p, lambda f: 'Entropy' in e.types[f[1]]['s'], 'the random source')
    return S.norm(e.note_ty(mk('fld', mgr, 0, i), ck.adts[p]['v'][0]['f'][i][1]))


def open_err(ck, k):
    return Err(Agg(adt(ck, 'keychain::error::Error'), 'NotEnoughData' if k == 'short' else 'WrongPassword'))


def run(ck):
    ck.explain = 'Every path of KeychainManager::change_password with symbolic manager, data and passwords.'
    ck.rule('opens data under the old password; failure gives NotEnoughData/WrongPassword; success gives the same plaintext sealed under the new password with the manager\'s random source')
    e = ck.engine()

    def spec(S, mgr, data, old, new):
        k, pt = opening(S, data, old)
        if k != 'ok':
            S.want(open_err(ck, k))
        else:
            S.want(Ok(sealed(pt, new, entropy_of(ck, e, S, mgr))))
    ck.allow(e, 'keychain::KeychainManager::change_password', spec)
