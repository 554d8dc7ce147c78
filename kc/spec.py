"""Checks as sets of allowed outcomes.

A check runs the value-flow engine over a function of /repo and compares every outcome (path condition,
result, recorded effects) with a reference written over the same terms.  The reference is a Python function
of a `S`: it asks for the truth of conditions (`dec`), which may split the outcome further, and says what the
outcome must be.  Nothing is executed and no solver is involved: terms are compared in normal form.
"""
import json, os, re, sys, time
from . import engine as ENG, models as M, build
from .engine import any_term, Engine, St, Stop, Out, UNIT, EMPTYST, bool_facts, Call, strip_generics
from .term import *
from .models import OK, ERR, SOME, NONE, OPT, RES, deep_eq

VERIF = build.VERIF


class Fork(Exception):
    def __init__(s, states):
        s.states = states


class Fail(Exception):
    pass


class Any_:
    def __repr__(s):
        return '_'


ANY = Any_()


class Agg:
    """struct/enum pattern: variant by name, fields positional"""

    def __init__(s, path, variant, *fields):
        s.path, s.variant, s.fields = path, variant, fields

    def __repr__(s):
        return '%s::%s%s' % (s.path, s.variant, s.fields or '')


class Fn:
    """pattern: a predicate(S, value)"""

    def __init__(s, text, f):
        s.text, s.f = text, f

    def __repr__(s):
        return s.text


class OneOf:
    def __init__(s, *ps):
        s.ps = ps

    def __repr__(s):
        return ' | '.join(pshow(p) for p in s.ps)


def pshow(p):
    if isT(p) or isinstance(p, int):
        return show(p)
    return repr(p)


def Ok(p):
    return Agg(RES, 'Ok', p)


def Err(p):
    return Agg(RES, 'Err', p)


def Some(p):
    return Agg(OPT, 'Some', p)


None_ = Agg(OPT, 'None')


class S:
    def __init__(s, ck, e, st, out):
        s.ck, s.e, s.st, s.out = ck, e, st, out

    # ---- conditions
    def dec(s, b):
        r = bool_facts(s.st, b)
        if r is None and isT(b):
            c = s.e.canon(s.st, s.e.rb(s.st, b))
            r = bool_facts(s.st, c)
            if r is None:
                if isT(b) and b.op not in ('le', 'ieq', 'not', 'and', 'or'):
                    for f, v in s.st.since(None):
                        if isT(f) and f.op == b.op and len(f.a) == len(b.a) and (f is b or s.e.canon(s.st, f) is c or s.deep(f) is s.deep(c)):
                            return bool(v)
                b = c
        if r is not None:
            return bool(r)
        o = s.e.decide(s.st, b)
        if len(o) == 1:
            s.st = o[0][0]
            return bool(o[0][1])
        raise Fork([x[0] for x in o])

    def eq(s, a, b):
        return s.dec(deep_eq(s.e, s.st, s.rb(a), s.rb(b)))

    def var(s, v):
        """variant name of an enum value"""
        v = s.rb(v) if isT(v) and v.op == 'ref' else v
        k = s.e.variant(s.st, v)
        if k is None:
            c = s.e.canon(s.st, v)
            k = s.e.variant(s.st, c)
        if k is None and isT(v) and v.op in ('call', 'vcall'):
            k = s.alias(v, c)
        if k is None:
            o = s.e.split_variant(s.st, v)
            if len(o) == 1:
                s.st = o[0][0]
                k = o[0][1]
            else:
                raise Fork([x[0] for x in o])
        t = VTY.get(v)
        if isT(v, 'agg'):
            return s.ck.vname(v.a[0], k)
        return s.e.types[t]['v'][k]['n']

    def deep(s, x):
        return mk(x.op, *[s.e.canon(s.st, y) if isT(y) else y for y in x.a]) if isT(x) else x

    def twin(s, t):
        """the call of the analysed run that t equals under the path condition, t itself otherwise"""
        fs = s.st.since(None)
        key = (len(fs), t.a[0])
        memo = s.__dict__.setdefault('_calls', {})
        if key not in memo:
            seen, found, work = set(), [], [f for f, v in fs]
            if s.out.k == 'ret':
                work.append(s.out.v)
            while work:
                x = work.pop()
                if isinstance(x, tuple):
                    work.extend(x)
                    continue
                if not isT(x) or x in seen:
                    continue
                seen.add(x)
                if x.op == t.op and x.a[0] == t.a[0]:
                    found.append(x)
                work.extend(x.a)
            memo[key] = found
        found = memo[key]
        if t in found or not found:
            return t
        d = s.deep(t)
        for x in found:
            if len(x.a) == len(t.a) and s.deep(x) is d:
                return x
        return t

    def alias(s, v, c):
        """variant of a call whose arguments equal those of a call the state knows"""
        for f, b in s.st.since(None):
            if isT(f, 'isv') and b and f.a[0].op == v.op and f.a[0].a[0] == v.a[0] and len(f.a[0].a) == len(v.a) and f.a[0] is not v:
                x = f.a[0]
                if mk(x.op, *[s.e.canon(s.st, y) if isT(y) else y for y in x.a]) is mk(c.op, *[s.e.canon(s.st, y) if isT(y) else y for y in c.a]) if c.op == v.op else False:
                    return f.a[1]
        return None

    # ---- values
    def rb(s, v):
        return s.e.rb(s.st, v)

    def norm(s, v):
        return s.e.canon(s.st, s.e.rb(s.st, v))

    def field(s, v, name, variant=None):
        return s.ck.field(s.e, s.rb(v), name, variant, s.st)

    def same(s, a, b):
        if a is b:
            return True
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        a, b = s.norm(a), s.norm(b)
        if a is b:
            return True
        try:
            return bool_facts(s.st, deep_eq(s.e, s.st, a, b)) == 1
        except (AttributeError, IndexError, KeyError):
            return False

    def match(s, v, p):
        if p is ANY:
            return True
        if isinstance(p, OneOf):
            return any(s.match(v, q) for q in p.ps)
        if isinstance(p, Fn):
            return p.f(s, v)
        if isinstance(p, Agg):
            v = s.rb(v)
            if not isT(v, 'agg'):
                v = s.norm(v)
            if not isT(v, 'agg') or v.a[0] != p.path or s.ck.vname(v.a[0], v.a[1]) != p.variant:
                return False
            fs = v.a[2:]
            return len(fs) == len(p.fields) and all(s.match(x, q) for x, q in zip(fs, p.fields))
        return s.same(v, p)

    # ---- things a loop built
    def holds(s, st, c, v):
        """states of st in which condition c is v"""
        if isinstance(c, int):
            return [st] if c == v else []
        if c.op == 'not':
            return s.holds(st, c.a[0], 1 - v)
        if c.op == 'isv':
            x = s.e.canon(st, c.a[0])
            return [t for t, k in s.e.split_variant(st, x) if (k == c.a[1]) == bool(v)]
        c = s.e.canon(st, c)
        return [t for t, r in s.e.decide(st, c) if bool(r) == bool(v)]

    def under(s, conds, ix=None, n=None):
        """states refining s.st in which conds hold; with ix, a generic iteration of a loop of n rounds: rounds that
        facts on the path exclude are left out"""
        sts = [s.st]
        for c, v in conds:
            sts = [t for st in sts for t in s.holds(st, c, v)]
        if ix is None:
            return sts
        for f, b in s.st.since(None):
            if isT(f, 'exists') and not b and (f.a[0] is n or f.a[0] == n):
                m = {f.a[1]: ix}
                for alt in f.a[2]:
                    keep = []
                    for st in sts:
                        # the states in which this way of leaving the loop is not taken
                        cur = [st]
                        for c, v in alt:
                            nxt = []
                            for t in cur:
                                c2 = s.e.subst(c, m) if f.a[1] is not ix else c
                                keep.extend(s.holds(t, c2, 1 - v))
                                nxt.extend(s.holds(t, c2, v))
                            cur = nxt
                    sts = keep
        return sts

    def rounds(s, m):
        """(start value, [(n, ix, [(conds, (key, value) or None)])]) of a map or (conds, sequence) of a sequence built by loops"""
        gens = []
        m = s.norm(m)
        while isT(m, 'mins'):
            v0, n, ix, cases = m.a
            gens.append(s.flat(n, ix, cases))
            m = v0
        return m, gens[::-1]

    def flat(s, n, ix, cases):
        """loops over what another loop collected become loops over what that loop ran over"""
        e = s.e
        while isT(n, 'len') and isT(n.a[0], 'ftab'):
            t = n.a[0]
            N, IX, C = t.a
            out = []
            for conds, x in C:
                if x is EMPTY:
                    out.append((conds, None))
                    continue
                if slen(x) != 1:
                    raise Stop('a loop over a list with several elements per round')
                el = e.elem(EMPTYST, x, 0)
                m = {mk('at', t, ix): el}
                for c2, kv in cases:
                    c2 = tuple((e.subst(c, m), v) for c, v in c2)
                    kv = None if kv is None else tuple(e.subst(y, m) for y in kv)
                    if any(any_term(y, lambda z: z is ix) for y in [c for c, v in c2] + list(kv or ())):
                        raise Stop('a loop uses its position in a filtered list')
                    out.append((tuple(conds) + c2, kv))
            n, ix, cases = N, IX, out
        return n, ix, list(cases)

    def explore(s, st, f):
        """f(S) in every refinement of st"""
        work, n = [st], 0
        while work:
            n += 1
            if n > 2000:
                raise Stop('too many cases in a loop')
            x = S(s.ck, s.e, work.pop(), s.out)
            try:
                f(x)
            except Fork as k:
                work.extend(k.states)

    # ---- verdicts
    def want(s, p):
        o = s.out
        if o.k != 'ret':
            raise Fail('panics: %s' % (o.v[0] if isinstance(o.v, tuple) else o.v,))
        if not s.match(o.v, p):
            raise Fail('returns %s where %s is due' % (show(s.norm(o.v))[:1500], pshow(p)[:1500]))

    def require(s, c, why):
        if not c:
            raise Fail(why)


class Sum:
    """what an engine of another process did"""

    def __init__(s, analysed, calls, opaque_calls):
        s.analysed, s.calls, s.opaque_calls = analysed, calls, opaque_calls


class Check:
    _known = None
    def __init__(s, pid, tier, seed):
        s.pid, s.tier, s.seed = pid, tier, seed
        s.viol = {}
        s.obligations = 0
        s.outcomes = 0
        s.splits = 0
        s.anchors = {}
        s.rules = []
        s.engines = []
        s.extra = {}
        s.t0 = time.time()
        s._dumps = {}
        s._adts = None
        s.assumptions = list(ASSUME)
        s.explain = ''

    # ---- building blocks
    def dump(s, features='all', package=None):
        k = repr((features, package))
        if k not in s._dumps:
            s._dumps[k] = build.load(features, package)
        return s._dumps[k]

    def engine(s, boundaries=None, features='all', package=None):
        e = Engine(s.dump(features, package), boundaries)
        s.engines.append(e)
        s.note_types(e)
        return e

    def note_types(s, e):
        s.adts = {}
        for k, t in e.types.items():
            if t['k'] == 'adt':
                s.adts.setdefault(t['path'], t)

    def vname(s, path, i):
        t = s.adts.get(path)
        if t is None:
            return str(i)
        return t['v'][i]['n'] if t.get('kind') == 'enum' else ''

    def vix(s, path, name):
        t = s.adts.get(path)
        if t is None:
            raise Stop('anchor not found: type ' + path)
        for i, v in enumerate(t['v']):
            if v['n'] == name:
                return i
        raise Stop('anchor not found: variant %s::%s' % (path, name))

    def field(s, e, v, name, variant=None, st=None):
        """field of a struct (or of a named enum variant) value, by name"""
        st = st or EMPTYST
        if isT(v, 'agg'):
            t = s.adts[v.a[0]]
            k = v.a[1]
            fs = t['v'][k]['f']
            for i, f in enumerate(fs):
                if f[0] == name:
                    return v.a[2 + i]
            raise Stop('anchor not found: field %s of %s' % (name, v.a[0]))
        ty = VTY.get(v)
        if ty is None:
            raise Stop('field %s of untyped %r' % (name, v))
        t = e.types[ty]
        k = 0
        if variant is not None:
            k = [x['n'] for x in t['v']].index(variant)
        for i, f in enumerate(t['v'][k]['f']):
            if f[0] == name:
                return e.rb(st, e.note_ty(mk('fld', v, k, i), f[1]))
        raise Stop('anchor not found: field %s of %s' % (name, t.get('path')))

    def field_ix(s, path, pred, what):
        """index of the only field of struct `path` whose type string satisfies pred"""
        t = s.adts.get(path)
        if t is None:
            raise Stop('anchor not found: type ' + path)
        r = [i for i, f in enumerate(t['v'][0]['f']) if pred(f)]
        if len(r) != 1:
            raise Stop('anchor not found: %s of %s' % (what, path))
        return r[0]

    def apart(s, jobs, width=8):
        """run jobs [(label, f(check))] in processes of their own (terms of different programs must not meet) and
        add up what they found"""
        import pickle
        run, queue, failed = {}, list(jobs), []

        def reap():
            pid, rc = os.wait()
            label, fd = run.pop(pid)
            with open(fd, 'rb') as f:
                f.seek(0)
                data = f.read()
            if rc or not data:
                s.violate(label + '/undecided', 'the analysis of this part ended without an answer')
                return
            r = pickle.loads(data)
            s.viol.update(r['viol'])
            s.obligations += r['obligations']
            s.outcomes += r['outcomes']
            s.splits += r['splits']
            for k, v in r['anchors'].items():
                s.anchors[k] = s.anchors.get(k, 0) + v
            s.engines.extend(Sum(*x) for x in r['engines'])
            if r['extra']:
                s.extra.setdefault('parts', {})[label] = r['extra']
        while queue or run:
            while queue and len(run) < width:
                label, f = queue.pop(0)
                import tempfile
                tf = tempfile.TemporaryFile()
                fd = os.dup(tf.fileno())
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid:
                    run[pid] = (label, fd)
                    continue
                rc = 1
                try:
                    c = Check(s.pid, s.tier, s.seed)
                    c.guard(label, f, c)
                    r = dict(viol=c.viol, obligations=c.obligations, outcomes=c.outcomes, splits=c.splits, anchors=c.anchors, extra=c.extra,
                             engines=[(e.analysed, e.calls, e.opaque_calls) for e in c.engines])
                    with open(fd, 'wb') as o:
                        o.write(pickle.dumps(r))
                    rc = 0
                except BaseException:
                    import traceback
                    traceback.print_exc()
                finally:
                    sys.stderr.flush()
                    os._exit(rc)
            reap()

    # ---- violations
    def violate(s, key, msg, **kw):
        if key not in s.viol:
            s.viol[key] = dict(key=key, what=msg, **kw)

    def guard(s, key, f, *a):
        """run f; whatever the analysis cannot decide is reported, never passed over"""
        try:
            return f(*a)
        except Stop as x:
            s.violate(key + '/undecided', 'not decided (%s)' % str(x)[:400])
        except build.BuildError:
            raise
        except RecursionError:
            s.violate(key + '/undecided', 'not decided (recursion)')
        except Exception as x:
            import traceback
            traceback.print_exc()
            s.violate(key + '/undecided', 'not decided (internal error %s: %s)' % (type(x).__name__, str(x)[:300]))
        return None

    def filef(s, e, name):
        r = e.find(name)
        return e.fns[r[0]].get('file', '?') if r else '?'

    def symargs(s, e, name, names=None):
        f = e.fns[e.fn(name)]
        tys = f['sig'][0]
        return [e.symbolic((names or [])[i] if names and i < len(names) else 'a%d' % i, t) for i, t in enumerate(tys)]

    def outs(s, e, name, args=None, st=None):
        f = e.fn(name)
        if args is None:
            args = s.symargs(e, name)
        r = e.run(f, args, st or St())
        s.anchors[name] = s.anchors.get(name, 0) + len(r)
        return r

    def judge(s, e, name, outs, spec, label=None, panics=None):
        """every outcome must satisfy spec(S)"""
        label = label or name
        base = s.obligations
        for o in outs:
            s.outcomes += 1
            work = [o.st]
            n = bad = 0
            while work and bad < 3:          # the first few ways in which one outcome is wrong say enough
                st = work.pop()
                n += 1
                if n > 4000:
                    s.violate(label + '/undecided', 'too many cases', function=name, file=s.filef(e, name))
                    break
                x = S(s, e, st, o)
                try:
                    if o.k == 'panic' and panics is not None:
                        panics(x)
                    else:
                        spec(x)
                    s.obligations += 1
                except Fork as fk:
                    s.splits += 1
                    work.extend(fk.states)
                except Fail as f:
                    s.obligations += 1
                    why = str(f)
                    path = [('%s' if v else 'not(%s)') % show(c)[:200] for c, v in x.st.since(None)]
                    extra = {}
                    if o.k == 'panic' and isinstance(o.v, tuple):
                        extra = dict(at=o.v[1], trace=o.v[2])
                    bad += (label + ' | ' + re.sub(r'\s+', ' ', why)[:300]) not in s.known
                    s.violate(label + ' | ' + re.sub(r'\s+', ' ', why)[:300], why, function=name, file=s.filef(e, name), path=path[:60], **extra)
                except Stop as f:
                    s.violate(label + '/undecided', 'not decided (%s)' % str(f)[:400], function=name, file=s.filef(e, name))
        if s.obligations == base:
            s.violate(label + '/no-outcome', 'the function never returns', function=name, file=s.filef(e, name))

    def allow(s, e, name, spec, args=None, st=None, label=None):
        """run `name` and judge all its outcomes"""
        def go():
            a = args if args is not None else s.symargs(e, name)
            outs = s.outs(e, name, a, st)
            s.judge(e, name, outs, lambda x: spec(x, *a), label)
        s.guard(label or name, go)

    def expect(s, cond, key, msg, **kw):
        s.obligations += 1
        if not cond:
            s.violate(key, msg, **kw)

    def rule(s, text):
        s.rules.append(text)

    @property
    def known(s):
        if s._known is not None:
            return s._known
        known = {}
        p = os.path.join(VERIF, 'KNOWN-FINDINGS.txt')
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r'known: property=(\S+) key=<<(.*?)>> (.*)', l.strip())
                if m and m.group(1) == s.pid:
                    known[m.group(2)] = m.group(3)
        s._known = known
        return known

    # ---- reporting
    def finish(s):
        known = s.known
        fns, ncalls, opaque, steps = {}, 0, {}, 0
        for e in s.engines:
            for k, v in e.analysed.items():
                fns[k] = fns.get(k, 0) + v
            ncalls += e.calls
            for k, v in e.opaque_calls.items():
                opaque[k] = opaque.get(k, 0) + (v if isinstance(v, int) else 1)
        if s.obligations == 0 and not s.viol:
            s.violate('no-obligation', 'the check decided nothing')
        new = [v for k, v in s.viol.items() if k not in known]
        for k in s.viol:
            if k in known:
                print('KNOWN-FINDING: property=%s %s' % (s.pid, known[k]))
        evdir = os.environ.get('KC_EVIDENCE') or os.path.join(VERIF, 'evidence')
        os.makedirs(evdir, exist_ok=True)
        ev = {
            'property': s.pid, 'tier': s.tier, 'seed': s.seed, 'level': 'other',
            'coverage': dict({
                'explanation': s.explain + ' Counts are of this run: functions of the workspace whose MIR was interpreted, call sites met, outcomes (paths) judged, and obligations (outcome against reference, after case splits, plus structural obligations).',
                'rules': s.rules,
                'anchors': s.anchors,
                'functions_analysed': len(fns),
                'function_visits': sum(fns.values()),
                'functions': sorted(fns)[:400],
                'call_sites_evaluated': ncalls,
                'outcomes_judged': s.outcomes,
                'case_splits': s.splits,
                'obligations': s.obligations,
                'uninterpreted_library_calls': dict(sorted(opaque.items())[:200]),
                'sources_digest': build.digest(build.files(build.REPO)),
            }, **s.extra),
            'assumptions': s.assumptions,
            'wall_s': round(time.time() - s.t0, 3),
            'violations': len(new),
        }
        with open(os.path.join(evdir, s.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        if new:
            rp = os.path.join(evdir, s.pid + '.violation.json')
            with open(rp, 'w') as f:
                json.dump({'property': s.pid, 'sources_digest': ev['coverage']['sources_digest'],
                           'reproduce': 'cd /verif && python3 check.py %s' % s.pid, 'violations': new}, f, indent=1)
            for v in new[:12]:
                print('- %s%s: %s' % (v.get('function', v['key'])[:200], ' (%s)' % v['file'] if v.get('file') else '', v['what'][:700]))
                for k in ('at', 'trace'):
                    if v.get(k):
                        print('    %s: %s' % (k, str(v[k])[:400]))
                if v.get('path'):
                    print('    path: ' + ' & '.join(v['path'])[:700])
            if len(new) > 12:
                print('- … %d more in %s' % (len(new) - 12, rp))
            print('VIOLATION property=%s replay=%s' % (s.pid, rp))
            return 1
        print('ok property=%s functions=%d outcomes=%d obligations=%d wall=%.1fs' % (s.pid, len(fns), s.outcomes, s.obligations, time.time() - s.t0))
        return 0


ASSUME = [
    'library functions outside the workspace behave as their documented contracts say (models in kc/models.py); '
    'cryptographic primitives (SHA-2, SHA-3, RIPEMD-160, HMAC, PBKDF2, ChaCha20-Poly1305, secp256k1, ed25519-bip32) are opaque functions of exactly their inputs',
    'the MIR of the nightly compiler installed here (quick: all features, dev profile; thorough: also the default features and the release profile) is the program (the stable compiler lowers the same source to the same meaning)',
    'memory allocation does not fail and locks are not poisoned',
]


def main(pid, tier, seed):
    import importlib
    ck = Check(pid, tier, seed)
    sys.setrecursionlimit(40000)
    try:
        mod = importlib.import_module('kc.checks.' + pid.lower())
        ck.guard(pid, mod.run, ck)
    except build.BuildError as x:
        print(str(x)[-3000:])
        ck.violate('build', 'the tree cannot be analysed because it does not build: ' + str(x)[:200])
    if not build.CONFIG and not ck.viol and (tier == 'thorough' or build_dependent()):
        other_builds(ck)
    return ck.finish()


def build_dependent():
    """does the source say something else for another build? (then the quick tier looks at the other builds, too)"""
    for d in ('keychain', 'keychain-c', 'bip39', 'secp256k1_bip32'):
        for p, _, fs in os.walk(os.path.join(build.REPO, d, 'src')):
            for f in fs:
                if f.endswith('.rs'):
                    t = re.sub(r'//[^\n]*', '', open(os.path.join(p, f), errors='replace').read())
                    t = re.sub(r'"(?:[^"\\]|\\.)*"', '""', t)
                    # an assertion that calls nothing leaves no trace
                    if re.search(r'\bdebug_assert(?:_eq|_ne)?!\s*\([^()]*\(|\bcfg!\s*\(|\bcfg(?:_attr)?\s*\([^\]]*\b(?:not|overflow_checks|panic)\b', t):
                        return True
    return False


def other_builds(ck):
    """the same rules for the source as compiled otherwise"""
    import subprocess, tempfile
    # C24 compiles every feature combination itself
    for cfg in ('release',) if ck.pid == 'C24' else ('release', 'default', 'default,release'):
        with tempfile.TemporaryDirectory() as d:
            p = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), ck.pid], capture_output=True, text=True,
                               env=dict(os.environ, KC_CONFIG=cfg, KC_EVIDENCE=d, VERIF_TIER='quick'))
            try:
                cov = json.load(open(os.path.join(d, ck.pid + '.json')))['coverage']
                vs = json.load(open(os.path.join(d, ck.pid + '.violation.json')))['violations'] if p.returncode else []
            except (OSError, ValueError, KeyError):
                ck.violate('build %s/undecided' % cfg, 'the analysis of the build "%s" ended without an answer' % cfg)
                sys.stderr.write(p.stdout[-2000:] + p.stderr[-2000:])
                continue
        ck.extra.setdefault('other_builds', {})[cfg] = {k: cov[k] for k in ('functions_analysed', 'outcomes_judged', 'obligations', 'call_sites_evaluated')}
        ck.obligations += cov['obligations']
        ck.outcomes += cov['outcomes_judged']
        for v in vs:
            v = dict(v)
            ck.violate('build %s: %s' % (cfg, v.pop('key')), 'build "%s": %s' % (cfg, v.pop('what')), **v)
        if p.returncode and not vs:
            ck.violate('build %s/undecided' % cfg, 'the analysis of the build "%s" ended without an answer' % cfg)
