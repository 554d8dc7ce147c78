"""C32: everything that crosses the C interface has a representation C shares"""
import re
from ..ref import *
from .c28 import NOBACKUP

CRATE = 'rust_keychain'


class Abi:
    def __init__(s, ck, e):
        s.ck, s.e = ck, e
        s.memo = {}
        s.checked = set()

    def value(s, t, where):
        """why a value of this type means nothing to C, None when it is fine"""
        if t in s.memo:
            return s.memo[t]
        s.memo[t] = None        # recursive types are fine if the rest is
        r = s.memo[t] = s.value1(t, where)
        return r

    def value1(s, t, where):
        e = s.e
        ty = e.types[t]
        k, name = ty['k'], ty['s']
        if k in ('int', 'float', 'bool'):
            return 'a 128-bit integer' if name in ('i128', 'u128') else None
        if k == 'char':
            return 'a Rust character'
        if k in ('ptr', 'ref'):
            return s.pointee(ty['e'], where)
        if k == 'fnptr':
            return None
        if k == 'never' or k == 'tuple' and not ty['e']:
            return None
        if k == 'adt':
            if ty['path'].split('::')[-1] == 'Option' and ty['path'].startswith(('core::option', 'std::option')):
                x = e.types[ty['args'][0]]
                if x['k'] in ('ref', 'fnptr') or x.get('box'):
                    return s.value(ty['args'][0], where)
                return 'an Option that C has no form for'
            s.checked.add(ty['path'])
            rp = ty.get('repr') or {}
            if ty.get('box'):
                return s.pointee(ty['args'][0], where)
            if ty['path'].split('::')[-1] == 'c_void':
                return None
            if ty['path'].endswith(('ptr::NonNull', 'ptr::non_null::NonNull')):
                return s.pointee(ty['args'][0], where)
            if rp.get('packed'):
                return 'packed'
            if ty['kind'] == 'enum':
                if not (rp.get('c') or rp.get('int')):
                    return 'an enumeration with the representation of Rust'
            elif not (rp.get('c') or rp.get('transparent')):
                return 'a structure with the layout of Rust'
            if ty['kind'] == 'enum' and not ty['v']:
                return None
            for v in ty['v']:
                for f in v['f']:
                    r = s.value(f[1], where)
                    if r:
                        return 'its field %s (%s) is %s' % (f[0], e.types[f[1]]['s'], r)
            return None
        return 'a Rust %s' % k

    def pointee(s, t, where):
        ty = s.e.types[t]
        if ty['k'] in ('slice', 'str', 'dyn'):
            return 'a pointer with Rust metadata'
        if ty['k'] == 'adt' and ty['path'].split('::')[0] != CRATE and ty['path'].split('::')[-1] not in ('Vec', 'String', 'Option', 'Result', 'CString'):
            return None         # an object C only passes back
        if ty['k'] == 'tuple' and ty['e']:
            return 'a pointer to a Rust tuple'
        return s.value(t, where)


def run(ck):
    ck.explain = 'The type-checked signature of every exported function, with and without the backup feature, and every type that such a signature reaches by value, by pointer or through fields.'
    ck.rule('every exported function has the C calling convention and an unmangled name')
    ck.rule('every parameter and result, and every field of a type they reach, is an integer, bool, thin pointer or unit, or a type of the C crate declared repr(C), repr(transparent) or with an integer representation and not packed; objects of other crates only behind thin pointers')
    ck.dump()
    ck.apart([('all features', lambda c: program(c, c.engine(), 'all features')),
              ('without backup', lambda c: program(c, c.engine(None, NOBACKUP), 'without backup'))])


def program(ck, e, label):
    exports = e.d['exports']
    ck.expect(len(exports) >= 20, 'exports', 'the C library exports only %d functions' % len(exports))
    abi = Abi(ck, e)
    n = 0
    for x in exports:
        f = e.fns.get(x['f'])
        name = x['name'].split('::')[-1]
        e.analysed[x['name']] = e.analysed.get(x['name'], 0) + 1
        ck.anchors[x['name']] = ck.anchors.get(x['name'], 0) + 1
        ck.expect(re.match(r'C\b', x['abi']), name + '/abi', '%s is not a C function but %s' % (name, x['abi']), function=x['name'])
        ck.expect(x['no_mangle'], name + '/name', 'the symbol of %s is not its name' % name, function=x['name'])
        if f is None or 'sig' not in f:
            ck.violate(name + '/undecided', 'the signature of %s is not known' % name)
            continue
        args, ret = f['sig']
        for i, t in enumerate(list(args) + [ret]):
            n += 1
            r = abi.value(t, name)
            what = 'result' if i == len(args) else 'parameter %d' % (i + 1)
            ck.expect(r is None, '%s/%s' % (name, what), 'the %s of %s (%s) is %s' % (what, name, e.types[t]['s'], r), function=x['name'], file=f.get('file'))
    ck.extra.update({'exports': len(exports), 'signature_types': n, 'types_reached': sorted(abi.checked)})
