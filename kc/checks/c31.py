"""C31: results depend on the arguments and the OS random generator only; nothing is remembered between calls"""
import re
from ..ref import *
from .c28 import NOBACKUP

# where the rest of the world comes in
WORLD = re.compile(r'^std::(env|time|fs|net|process|thread|os|backtrace)(::|$)|^std::io::(stdio|_print|_eprint|stdin|stdout|stderr|read_to_string)|^(core|std)::(core_arch|arch|arch_simd)\b'
                   r'|^(libc|nix|rustix|winapi|windows_sys|chrono|time|lazy_static|once_cell|parking_lot|dirs|log|tracing|memmap\w*|tempfile)(::|$)'
                   r'|^(std|core)::(hash::random|collections::hash_map::RandomState|hash::BuildHasher::hash_one)|RandomState::new|RandomState as .*BuildHasher'
                   r'|::expose_provenance|::addr$|::expose_addr|^std::panic::take_hook|^(std|core)::panic::Location|^std::any::type_id')
RANDOM = re.compile(r'^<?&?(mut )?(rand\w*|getrandom|fastrand|oorandom)(::|\[)')
HOOK = re.compile(r'^std::panic::set_hook')
CELL = re.compile(r'^(core|std)::(cell::|sync::(atomic::|poison::|Mutex|RwLock|Once|mpsc|LazyLock|nonpoison)|thread::local)')
SHARED = re.compile(r'^(alloc|std)::(rc|sync)::(Rc|Arc|Weak)$')


def uses(e, f):
    """names of the functions a body mentions, called or passed on"""
    out = []
    locs = f['body']['locals'] if isinstance(f['body'], dict) else []

    def pointer(o):
        """is the operand an address?"""
        if o[0] in ('cp', 'mv') and not o[1][1] and o[1][0] < len(locs):
            t = locs[o[1][0]]
            t = t.get('ty') if isinstance(t, dict) else t
            return isinstance(t, int) and e.types[t]['k'] in ('ref', 'ptr', 'fnptr')
        return False

    def walk(x):
        if isinstance(x, list):
            if len(x) == 3 and x[0] == 'asm':
                out.append(('asm', None))
            if len(x) == 4 and x[0] == 'cast' and (x[1].startswith('PointerExpose') or x[1] == 'Transmute' and pointer(x[2])):
                if e.types[x[3]]['k'] in ('int', 'uint'):
                    out.append(('address', None))
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            t = x.get('ty')
            if isinstance(t, int):
                ty = e.types[t]
                if ty['k'] == 'fndef':
                    out.append((ty['path'], ty.get('f')))
                elif ty['k'] == 'closure':
                    out.append((ty['path'], ty.get('f')))
            for y in x.values():
                walk(y)
    walk(f['body'])
    # closures are built, not named by a constant
    def aggs(x):
        if isinstance(x, list):
            if x and x[0] == 'closure' and len(x) > 1 and isinstance(x[1], int) and e.types[x[1]]['k'] == 'closure':
                out.append((e.types[x[1]]['path'], e.types[x[1]].get('f')))
            for y in x:
                aggs(y)
        elif isinstance(x, dict):
            for y in x.values():
                aggs(y)
    aggs(f['body'])
    return out


def cells(e, t, seen, inside):
    """the type of a cell that a value of type t holds, None when it holds none"""
    if t in seen or not isinstance(t, int):
        return None
    seen.add(t)
    ty = e.types[t]
    k = ty['k']
    if k == 'adt':
        if SHARED.search(ty['path']):
            subs = list(ty['args'])
        else:
            if CELL.search(ty['path']) or ty.get('freeze') is False and not ty['v']:
                return ty['s']
            if ty['path'].startswith(('std::collections', 'hashbrown')):
                subs = list(ty['args'])
            else:
                subs = [f[1] for v in ty['v'] for f in v['f']] + list(ty['args'])
    elif k in ('ref', 'ptr', 'slice', 'array'):
        subs = [ty['e']]
    elif k == 'tuple':
        subs = ty['e']
    else:
        return None
    for x in subs:
        r = cells(e, x, seen, inside)
        if r:
            return r
    return None


def run(ck):
    ck.explain = 'The call graph of the type-checked program (every function of the workspace as monomorphized, calls and function values, with and without the backup feature), every static it mentions, and every type of the workspace with everything such a value owns.'
    ck.rule('no function of the workspace uses the clock, the environment, files, the network, processes, threads, the console, hasher seeds, addresses as numbers, machine instructions or foreign functions')
    ck.rule('the random generator is used only by implementations of the Entropy trait, reached through it')
    ck.rule('no static is mutable or holds a cell; no type of the workspace owns a cell except an implementation of Entropy (its lock)')
    ck.dump()
    ck.apart([('all features', lambda c: program(c, c.engine(), 'all features')),
              ('without backup', lambda c: program(c, c.engine(None, NOBACKUP), 'without backup'))])


def program(ck, e, label):
    fns = {k: f for k, f in e.fns.items() if f.get('ws') and f.get('body')}
    users = {}
    random = {}
    n = 0
    for k, f in fns.items():
        name = e.norm(f['name'])
        e.analysed[name] = e.analysed.get(name, 0) + 1
        for path, g in uses(e, f):
            n += 1
            e.calls += 1
            if path == 'asm':
                ck.violate('%s/asm' % name, '%s contains machine instructions' % name, function=name, file=f.get('file'))
                continue
            if path == 'address':
                ck.violate('%s/address' % name, '%s uses an address as a number' % name, function=name, file=f.get('file'))
                continue
            t = e.fns.get(g)
            if t is not None and t.get('ws'):
                users.setdefault(g, set()).add(k)
                if not t.get('body') and t['kind'] == 'item' and t.get('foreign', True):
                    ck.violate('%s/%s' % (name, path), '%s calls %s, whose source is not here' % (name, path), function=name, file=f.get('file'))
                continue
            for w in {path, t['name'] if t else path, t.get('path', path) if t else path}:
                if WORLD.search(w):
                    ck.violate('%s/%s' % (name, w), '%s uses %s: its result does not depend on its arguments alone, or acts outside' % (name, w), function=name, file=f.get('file'))
                    break
                if HOOK.search(w) and f['sig'][0]:
                    ck.violate('%s/%s' % (name, w), '%s changes the panic hook of the process' % name, function=name, file=f.get('file'))
                    break
                if RANDOM.search(w):
                    random.setdefault(k, w)
                    break
            ck.obligations += 1
    # the generator: up the callers, to implementations of Entropy and nowhere else
    seen, todo = set(), list(random)
    ends = []
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        name = e.norm(fns[k]['name'])
        if re.search(r' as keychain::Entropy>::', name):
            ends.append(name)
            continue
        up = users.get(k, ())
        if not up or fns[k].get('export'):
            ck.violate('%s/random' % name, '%s draws random bytes other than through the random source' % name, function=name, file=fns[k].get('file'))
        todo.extend(up)
    ck.expect(ends, 'no-random', 'no implementation of Entropy draws random bytes')
    # statics
    ns = 0
    for a in e.d['allocs'].values():
        if a['k'] == 'static':
            ns += 1
            ck.obligations += 1
            if a['mut'] or e.types[a['ty']].get('freeze') is False or cells(e, a['ty'], set(), None):
                ck.violate('static/' + a['name'], 'the static %s keeps state between calls' % a['name'])
    # cells
    ent = set(re.match(r'<(.*) as keychain::Entropy>', e.norm(f['name'])).group(1) for f in fns.values() if re.match(r'<.* as keychain::Entropy>', e.norm(f['name'])))
    nt = 0
    for t, ty in e.types.items():
        if ty['k'] == 'adt' and ty['path'].split('::')[0] in ('keychain', 'bip39', 'secp256k1_bip32', 'rust_keychain'):
            nt += 1
            ck.obligations += 1
            if e.norm(ty['path']) in ent or e.norm('rust_keychain::' + ty['path']) in ent or any(ty['path'].split('::')[-1] == x.split('::')[-1] for x in ent):
                continue
            c = cells(e, t, set(), ent)
            if c:
                ck.violate('cell/' + ty['path'], 'a %s owns a %s: its operations can influence each other' % (ty['s'], c))
    ck.extra.update({'uses_classified': n, 'statics': ns, 'types': nt, 'random_reached_through': sorted(ends)})
