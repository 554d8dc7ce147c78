from ..capi import *
from . import c20


def owned(S, v, ctx=None):
    """memory a value handed out designates: [(loop or None, pointer)]"""
    if not isT(v):
        return
    if not isT(v, 'hp'):
        v = S.rb(v)
    if isT(v, 'agg'):
        for x in v.a[2:]:
            yield from owned(S, x, ctx)
    elif isT(v, 'hp'):
        S.require(v.a[1][0] != 'vec', 'hands out memory of a %s whose capacity the C side does not know' % (v.a[1],))
        yield ctx, v
        yield from owned(S, S.e.content(S.st, ('sym', v)), ctx)
    elif isT(v, 'tab'):
        n, ix, body = v.a
        yield from owned(S, body, (n, ix) if ctx is None else ctx + (n, ix))
    elif isT(v, 'cat') or isT(v, 'lits') or isT(v, 'list'):
        for x in v.a:
            for y in x if isinstance(x, tuple) else (x,):
                if isT(y):
                    yield from owned(S, y, ctx)
    elif isT(v, 'ref') and isinstance(v.a[0], tuple) and v.a[0] and v.a[0][0] in ('L', 'F'):
        S.require(False, 'hands out a pointer to memory the function releases itself')


def taken(S, events, ctx=None):
    """[(loop or None, pointer, kind, n)]; every feasible round of a loop must take the same"""
    res = []
    for x in events:
        if x[0] == 'taken':
            res.append((ctx, x[1], x[2], x[3]))
        elif x[0] == 'forget':
            S.require(all(S.rb(S.e.content(S.st, ('sym', y[1]))) is not x[1] and y[1].a[2] is not x[1] for y in res if isT(y[1], 'hp')), 'forgets memory instead of releasing it')
        elif x[0] == 'loop':
            n, ix, paths = x[1:4]
            alts = []
            for conds, evs in paths:
                if conds and not S.under(conds):
                    continue
                alts.append(taken(S, evs, (n, ix) if ctx is None else ctx + (n, ix)))
            for a in alts[1:]:
                S.require(a == alts[0], 'releases only some elements of a list')
            res.extend(alts[0] if alts else [])
    return res


def canon_ctx(S, ctx, v):
    """(lengths of the loops, v with their positions named canonically)"""
    if ctx is None:
        return (), v
    m, ns = {}, []
    for i in range(0, len(ctx), 2):
        n, ix = ctx[i], ctx[i + 1]
        ns.append(S.norm(n) if isT(n) else n)
        pos = mk('pos', i)
        back = isT(v) and any_term(v, lambda x: x.op == 'lin' and as_lin(x)[1].get(ix) == -1)
        m[ix] = sub(sub(n, 1), pos) if back else pos    # the order of the rounds does not matter
    return tuple(ns), S.e.subst(v, m)


def place(S, ctx, p):
    """identity of memory handed out: lengths of the loops around it, its allocation, which round's it is"""
    ns, q = canon_ctx(S, ctx, p)
    return ns, p.a[0], S.norm(q.a[2])


def what(p):
    return '%s %s' % (p.a[1], show(p.a[2])[:160])


def ubs(S, since=0):
    ub = [x for x in S.st.ev[since:] if x[0] == 'ub']
    S.require(not ub, 'undefined behaviour: %s' % (ub and ub[0][1],))


def release(ck, e, name, r, o, a, t, types):
    v = o.st.mem[('sym', a)]
    if ('t', t) not in types:
        pass
    dele = types.get(t)
    holder = S(ck, e, o.st, o)
    have = list(owned(holder, v))
    if not have:
        return 0
    seen = set()
    for c, p in have:
        if p in seen:
            raise Fail('hands out the same memory twice: %s' % what(p))
        seen.add(p)
    if dele is None:
        raise Fail('no release function takes what %s hands out' % name)
    arg, byval = dele
    base = len(o.st.ev)
    outs = c_call(ck, e, arg, [v if byval else a], o.st)

    def judge(x):
        x.require(x.out.k == 'ret', 'panics')
        ubs(x, base)
        got = []
        for c, p, kind, n in taken(x, x.st.ev[base:]):
            x.require(isT(p, 'hp'), 'releases memory it does not own: %s' % show(p)[:200])
            k = place(x, c, p)
            x.require(all(k != k2 for k2, _, _ in got), 'releases the same memory twice: %s' % what(p))
            got.append((k, kind, canon_ctx(x, c, n)[1]))
        for c, p in have:
            k = place(x, c, p)
            hit = [g for g in got if g[0] == k]
            x.require(hit, 'does not release %s' % what(p))
            _, kind, n = hit[0]
            got.remove(hit[0])
            x.require(kind == p.a[1], '%s is released as %s' % (what(p), kind))
            if kind[0] == 'slice':
                L = canon_ctx(x, c, slen(p.a[2]))[1]
                x.require(x.same(n, L), '%s is released with length %s' % (what(p), show(n)[:200]))
        x.require(not got, 'releases more than was handed out: %s' % (got,))
        if byval:
            return
        b2 = len(x.st.ev)
        for o2 in c_call(ck, e, arg, [a], x.st):
            y = S(ck, e, o2.st, o2)
            y.require(o2.k == 'ret', 'panics on an object already deleted')
            ubs(y, b2)
            y.require(not taken(y, o2.st.ev[b2:]), 'releases an object already deleted once more')
    label = '%s after %s' % (arg, name)
    ck.judge(e, arg, outs, judge, label=label)
    return 1


def run(ck):
    ck.explain = ('Every path of every exported function that hands out memory, composed with the release function for the type it hands out (found by its '
                  'parameter type), and that once more; every release function on arbitrary values; operations given null data of length zero.')
    ck.rule('each piece of memory reachable from a result or error is released exactly once, nested ones in every round of a loop over all elements, as the kind (Box of T, slice of T with its length, C string) it was allocated as')
    ck.rule('a second release, or a release of a null pointer, takes nothing; nothing is released that is null')
    ck.rule('null data of length zero reaches the Rust operation as the empty slice')
    e = ck.engine(boundaries())
    x = exported(e)
    types = deletes(e)
    ck.expect(len(types) >= (8 if build.BACKUP else 6), 'anchor release', 'anchor not found: release functions (%d found)' % len(types))
    pairs = 0
    for name in sorted(x):
        if not fallible(e, name):
            continue
        r = Run(ck, e, name)

        def go():
            n = 0
            for o in r.outs:
                if o.k != 'ret':
                    continue
                for a, t in zip(r.args, r.tys):
                    if ('sym', a) in o.st.mem and o.st.mem[('sym', a)] is not a:
                        try:
                            n += release(ck, e, name, r, o, a, e.types[t]['e'], types)
                        except Fail as f:
                            ck.violate('%s | %s' % (name, str(f)[:300]), str(f), function=name)
                        except Fork:
                            raise Stop('ownership depends on an undecided condition')
            return n
        pairs += ck.guard(name, go) or 0
    ck.expect(pairs > 0, 'pairs', 'no allocation was paired with a release')
    ck.extra['results_paired_with_their_release'] = pairs
    # null objects
    for t, (name, byval) in sorted(types.items()):
        r = Run(ck, e, name)

        def never_null(S):
            S.require(S.out.k == 'ret', 'panics')
            ubs(S)
            check(S, S.st, S.st.ev)

        def check(S, st, evs):
            for x in evs:
                if x[0] == 'taken':
                    p = x[1]
                    if isT(p, 'hp') or isT(p, 'ref'):
                        continue
                    b = mk('isnull', p.a[0] if isT(p, 'buf') else p)
                    S.require(p != 0 and bool_facts(st, b) == 0, 'releases a pointer that may be null: %s' % show(p)[:200])
                elif x[0] == 'loop':
                    for conds, ev2 in x[3]:
                        for s in S.under(conds):
                            check(S, s, ev2)
        ck.guard(name, lambda: ck.judge(e, name, r.outs, never_null, label=name + ' (any value)'))
    # empty buffers
    for name, (op, kinds, res, fails) in sorted(OPS.items()):
        if 'bytes' in kinds and name in x:
            def empty(S, r):
                i = 0
                hit = False
                for k in kinds:
                    if k == 'bytes' and S.dec(mk('isnull', r.args[i])) and S.dec(eq0(r.args[i + 1])):
                        hit = True
                    i += 2 if k == 'bytes' else 1
                return hit
            ck.guard(name, c20.forward, ck, e, name, empty, name + ' (null, 0)')
