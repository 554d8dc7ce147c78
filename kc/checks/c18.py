import os
import tomllib

from ..capi import *
from .. import build


def addressed(e, run, st):
    """pointers given by C whose memory the run wrote"""
    return {o[1] for o, v in st.mem.items() if isinstance(o, tuple) and o and o[0] == 'sym' and v is not o[1] and isT(o[1]) and o[1] in run.args}


def discipline(ck, e, name):
    """one fallible exported function, on every argument, whether what it forwards to returns or panics"""
    run = Run(ck, e, name)
    result, error = run.args[-2] if len(run.args) > 1 else None, run.args[-1]
    muts = {a for a, t in zip(run.args, run.tys) if e.types[t]['k'] == 'ref' and e.types[t]['m']}
    if result not in muts:
        result = None
    et = e.types[e.types[run.tys[-1]]['e']]

    def judge(S):
        o = S.out
        S.require(o.k == 'ret', 'a panic leaves the C function: %s' % (o.v[0] if isinstance(o.v, tuple) else o.v,))
        ub = [x for x in S.st.ev if x[0] == 'ub']
        S.require(not ub, 'undefined behaviour: %s' % (ub and ub[0][1],))
        w = addressed(e, run, S.st)
        caught = [x for x in S.st.ev if x[0] == 'caught']
        if S.dec(o.v):
            S.require(not caught, 'reports success after a panic: %s' % (caught and caught[-1][1],))
            S.require(error not in w, 'writes the error although it succeeds')
            S.require(w - {result} == set(), 'writes more than its result')
            if result is not None:
                S.require(result in w, 'succeeds without writing its result')
                written(S, mem(S, result), 'result')
        else:
            S.require(error in w, 'fails without writing the error')
            S.require(w == {error}, 'fails but writes more than the error')
            code, _ = err_parts(S, mem(S, error))
            written(S, mem(S, error), 'error')
            if caught:
                S.require(code == ERROR_CODES['Panic'], 'reports a panic (%s) as error %d' % (caught[-1][1], code))
    ck.judge(e, name, run.outs, judge)
    return run


def written(S, v, what):
    """no part of what is written is memory of a local variable"""
    for x in parts(v):
        S.require(not (isT(x, 'ref') and isinstance(x.a[0], tuple) and x.a[0] and x.a[0][0] in ('L', 'F')), 'the %s points into memory of the function itself' % what)


def parts(v):
    yield v
    if isT(v, 'agg'):
        for x in v.a[2:]:
            yield from parts(x)


def releases(ck, e, name, run, types):
    """running the release functions on everything run hands out"""
    for o in run.outs:
        if o.k != 'ret':
            continue
        for a, t in zip(run.args, run.tys):
            if ('sym', a) not in o.st.mem or o.st.mem[('sym', a)] is a:
                continue
            dele = types.get(e.types[t]['e'])
            if dele is None:
                continue
            arg, byval = dele
            args = [o.st.mem[('sym', a)] if byval else a]

            def judge(S):
                S.require(S.out.k == 'ret', 'panics on a value %s handed out: %s' % (name, S.out.v[0] if isinstance(S.out.v, tuple) else S.out.v))
                ub = [x for x in S.st.ev if x[0] == 'ub']
                S.require(not ub, 'undefined behaviour on a value %s handed out: %s' % (name, ub and ub[0][1]))
            outs = c_call(ck, e, arg, args, o.st)
            ck.judge(e, arg, outs, judge, label='%s after %s' % (arg, name))


INIT = 'keychain_init_library'


def silent(ck, e):
    """initialization installs a panic hook that does nothing"""
    def judge(S):
        S.require(S.out.k == 'ret', 'a panic leaves the C function')
        hooks = [x[1] for x in S.st.ev if x[0] == 'set_hook']
        S.require(bool(hooks), 'panics are still reported by the default hook, with their texts')
        n = len(S.st.ev)
        called = []
        old, e.on_opaque = e.on_opaque, lambda name, *_: called.append(name)
        try:
            outs = e.call_value(hooks[-1], [mk('ref', ('sym', sym('panic_info')), ())], S.st)
        finally:
            e.on_opaque = old
        S.require(not called, 'the panic hook calls %s' % (', '.join(called),))
        for o in outs:
            S.require(o.k == 'ret', 'the panic hook panics itself')
            S.require(not o.st.ev[n:], 'the panic hook does something: %s' % (', '.join(str(x)[:200] for x in o.st.ev[n:]),))
    run = Run(ck, e, INIT)
    ck.judge(e, INIT, run.outs, judge)


def strategies(ck):
    """panic strategies the workspace's profiles ask for"""
    p = os.path.join(build.REPO, 'Cargo.toml')
    with open(p, 'rb') as f:
        t = tomllib.load(f)
    for name, prof in (t.get('profile') or {}).items():
        ck.expect(prof.get('panic', 'unwind') == 'unwind', 'profile ' + name, 'profile %s aborts on panics instead of unwinding' % name)


def run(ck):
    ck.explain = ('Every path of every exported C function, with the Rust operation behind it replaced by one that returns anything or panics; '
                  'every path of every Display implementation of an error; the release functions on everything handed out.')
    ck.rule('no path of an exported function leaves by a panic, whatever its arguments are and whether the operation panics')
    ck.rule('true: the result is written and nothing else; false: the error is written and nothing else, with code -1 if a panic was caught')
    ck.rule('formatting an error of any kind never panics; so does turning any text into the message')
    ck.rule('the panic strategy is unwinding')
    e = ck.engine(boundaries(True))
    x = exported(e)
    ck.expect(len(x) > 0, 'exports', 'no exported function found')
    for name in OPS:
        ck.expect(name in x, 'anchor ' + name, 'anchor not found: exported function ' + name)
    types = deletes(e)
    done = 0
    for name in sorted(x):
        ck.expect(x[name]['abi'].startswith('C'), 'abi ' + name, '%s is exported with ABI %s' % (name, x[name]['abi']))
        if fallible(e, name):
            run_ = ck.guard(name, discipline, ck, e, name)
            if run_:
                ck.guard(name, releases, ck, e, name, run_, types)
            done += 1
        elif name not in {v[0] for v in types.values()}:
            r = Run(ck, e, name)
            ck.guard(name, lambda: ck.judge(e, name, r.outs, lambda S: S.require(S.out.k == 'ret', 'a panic leaves the C function: %s' % (S.out.v,))))
    ck.rule('%s installs a panic hook that does nothing' % INIT)
    ck.guard(INIT, silent, ck, e)
    ck.extra['exported_functions'] = sorted(x)
    ck.extra['fallible_functions'] = done
    # messages: the library's own error texts
    e2 = ck.engine()
    n = 0
    for fid, f in sorted(e2.fns.items()):
        tm = f.get('tm') or ''
        if tm == 'std::fmt::Display::fmt' and 'body' in f and f['ws']:
            n += 1
            nm = e2.norm(f['name'])
            args = [e2.symbolic('a%d' % i, t) for i, t in enumerate(f['sig'][0])]

            def go(f=f, fid=fid, nm=nm, args=args):
                outs = e2.run(fid, args, St())
                ck.anchors[nm] = len(outs)
                ck.judge(e2, nm, outs, lambda S: S.require(S.out.k == 'ret', 'formatting panics: %s' % (S.out.v[0] if isinstance(S.out.v, tuple) else S.out.v,)))
            ck.guard(nm, go)
    ck.expect(n > 0, 'anchor Display', 'no Display implementation found')
    ck.expect(str(e.d.get('panic', '')).lower() == 'unwind', 'panic strategy', 'the panic strategy is %s' % e.d.get('panic'))
    strategies(ck)
