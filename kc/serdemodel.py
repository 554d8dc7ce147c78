"""Meaning of the serde data model over JSON documents.

A document is a term: jnull, jnum(n), jbool(b), jstr(text), jarr(sequence of documents), jobj(name, document, ...).
The derived and hand-written Serialize/Deserialize code of the crate is analysed itself; only serde_json's
Serializer/Deserializer, i.e. the methods the code calls on them, are given a meaning here."""
from .term import *
from .engine import Out, Stop, UNIT, NoSummary
from .models import R, OK, ERR, SOME, NONE, content, val, drive, EMPTY, lits, itarg

JNULL = mk('jnull')
SER = 'serde::ser::Serialize::serialize'
DE = 'serde::de::Deserialize::deserialize'
V = 'serde::de::Visitor::'


def jerr(kind, *a):
    return mk('jerr', kind, *a)


class Model:
    def __init__(m, e, borrowed=False):
        m.e = e
        m.borrowed = borrowed
        m.ser, m.de, m.vis = {}, {}, {}
        for k, f in e.fns.items():
            if 'body' not in f:
                continue
            key = e.fkey(f)
            if key == SER and 'Serializer<&mut' in e.types[f['sig'][0][1]]['s'] and 'MapKey' not in e.types[f['sig'][0][1]]['s']:
                m.add(m.ser, e.inner(f['sig'][0][0]), k)
            elif key == DE:
                d = e.types[f['sig'][0][0]]['s']
                t = e.types[f['sig'][1]]['args'][0]
                kind = 'key' if 'MapKey' in d else 'missing' if 'Missing' in d else 'val' if 'Deserializer<' in d else d
                m.add(m.de, t, k, kind)
            elif key.startswith(V) and f['sig'][0]:
                m.add(m.vis, f['sig'][0][0], k, key[len(V):])

    def tkey(m, t):
        import re
        return re.sub(r"'(?:[a-z_]+\b|_)", "'_", m.e.types[t]['s'])

    def add(m, tab, t, k, *rest):
        tab.setdefault((t,) + rest, k)
        tab.setdefault((m.tkey(t),) + rest, k)

    def get(m, tab, t, *rest):
        return tab.get((t,) + rest) or tab.get((m.tkey(t),) + rest)

    # ---- writing
    def write(m, st, v, t):
        """outcomes of serializing the value of type t that v refers to"""
        k = m.get(m.ser, t)
        if k is None:
            raise Stop('no Serialize code for ' + m.tkey(t))
        return m.e.call_fn(k, [v, mk('jser')], st)

    def tree(m, v):
        if isT(v, 'agg') and v.a[1] == 0:
            return v.a[2]
        raise Stop('serialized value unknown')

    def read(m, st, J, t, kind='val'):
        k = m.get(m.de, t, kind) or kind == 'key' and m.get(m.de, t, 'val')
        if not k:
            raise Stop('no Deserialize code for ' + m.tkey(t))
        return m.e.call_fn(k, [mk('jd', J)], st)

    def visit(m, st, c, name, args):
        t = c.atys[-1]
        k = m.get(m.vis, t, name)
        if k is None:
            return None
        return m.e.call_fn(k, [c.args[-1]] + args, st)

    def visit_text(m, st, c, s):
        for n in ('visit_borrowed_str', 'visit_str') if m.borrowed else ('visit_str', 'visit_string'):
            r = m.visit(st, c, n, [mk('ref', ('c', s), ())])
            if r is not None:
                return r
        return R(st, ERR(jerr('type')))


def bounds(e0=None):
    """boundaries for an engine; the model is attached once the engine exists"""
    B = {}
    box = {}

    def on(*keys):
        def d(f):
            for k in keys:
                B[k] = f
            return f
        return d

    def M(e):
        m = box.get(id(e))
        if m is None:
            m = box[id(e)] = Model(e, borrowed=box.get('borrowed', False))
        return m
    B['__box'] = box
    B['__model'] = M
    S = 'serde::ser::Serializer::'

    def ser(n, k):
        def h(e, st, c):
            return R(st, OK(k(e, st, c)))
        B[S + n] = h
    num = lambda e, st, c: mk('jnum', c.args[1])
    for n in ('u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'usize'):
        ser('serialize_' + n, num)
    ser('serialize_bool', lambda e, st, c: mk('jbool', c.args[1]))
    ser('serialize_str', lambda e, st, c: mk('jstr', e.rb(st, content(e, st, c.args[1]))))
    ser('serialize_none', lambda e, st, c: JNULL)
    ser('serialize_unit', lambda e, st, c: JNULL)
    ser('serialize_unit_variant', lambda e, st, c: mk('jstr', e.rb(st, content(e, st, c.args[3]))))
    ser('serialize_bytes', lambda e, st, c: mk('jarr', mk('bytes_as_numbers', e.rb(st, content(e, st, c.args[1])))))

    @on(S + 'serialize_some')
    def some(e, st, c):
        return M(e).write(st, c.args[1], e.inner(c.atys[1]))

    @on(S + 'serialize_newtype_struct')
    def newtype(e, st, c):
        return M(e).write(st, c.args[2], e.inner(c.atys[2]))

    @on(S + 'serialize_struct', S + 'serialize_map')
    def struct(e, st, c):
        return R(st, OK(mk('jobj')))

    @on(S + 'serialize_tuple', S + 'serialize_seq', S + 'serialize_tuple_struct')
    def tup(e, st, c):
        return R(st, OK(EMPTY))

    def field(e, st, c, keyed):
        out = []
        for o in M(e).write(st, c.args[2 if keyed else 1], e.inner(c.atys[2 if keyed else 1])):
            if o.k != 'ret':
                out.append(o)
                continue
            for s, vi in e.split_variant(o.st, o.v):
                if vi:
                    out.append(Out('ret', o.v, s))
                    continue
                tr = e.rb(s, e.rd1(s, o.v, ('f', 0, 0, None)))
                cur = e.load(s, c.args[0])
                s = s.copy()
                if keyed:
                    nv = mk('jobj', *(cur.a + (e.rb(s, content(e, s, c.args[1])), tr)))
                else:
                    nv = cat(cur, lits([tr]))
                e.store(s, c.args[0], nv)
                out.append(Out('ret', OK(UNIT), s))
        return out
    B['serde::ser::SerializeStruct::serialize_field'] = lambda e, st, c: field(e, st, c, True)
    for n in ('Tuple::serialize_element', 'Seq::serialize_element', 'TupleStruct::serialize_field'):
        B['serde::ser::Serialize' + n] = lambda e, st, c: field(e, st, c, False)

    @on(*['serde::ser::Serialize%s::end' % n for n in ('Struct', 'Tuple', 'Seq', 'TupleStruct', 'Map')])
    def end(e, st, c):
        v = val(e, st, c.args[0])
        return R(st, OK(v if isT(v, 'jobj') else mk('jarr', v)))

    @on(S + 'collect_seq')
    def coll(e, st, c):
        m = M(e)
        it = itarg(e, st, c, 1)
        # the element type is that of the Serialize code the element reaches
        et = elem_ty(e, c)

        def body(s, x, acc):
            s = s.copy()
            out = []
            for o in m.write(s, mk('ref', ('c', e.rb(s, x)), ()), et):
                if o.k != 'ret':
                    out.append(o)
                    continue
                for s2, vi in e.split_variant(o.st, o.v):
                    out.append((s2, 'exit', o.v) if vi else (s2, 'go', cat(acc, lits([e.rb(s2, e.rd1(s2, o.v, ('f', 0, 0, None)))]))))
            return out
        return drive(e, st, it, EMPTY, body, lambda s, acc: R(s, OK(mk('jarr', acc))))

    def elem_ty(e, c):
        """the element type serde_json's collect_seq serializes"""
        seen = set()
        work = [c.fid]
        while work:
            k = work.pop()
            f = e.fns.get(k)
            if f is None or k in seen or 'body' not in f:
                continue
            seen.add(k)
            for _, t, _ in f['body']['blocks']:
                if t[0] != 'call':
                    continue
                ty = e.types.get(t[2])
                if not ty or ty['k'] != 'fndef':
                    continue
                g = e.fns.get(ty.get('f'))
                if g is None:
                    continue
                if e.fkey(g) in ('serde::ser::SerializeSeq::serialize_element', 'serde::ser::SerializeTuple::serialize_element'):
                    return e.inner(g['sig'][0][1])
                if len(seen) < 40:
                    work.append(ty.get('f'))
        raise Stop('element type of a serialized sequence')

    # ---- reading
    D = 'serde::de::Deserializer::'

    def de(*names):
        def d(f):
            def h(e, st, c):
                v = c.args[0]
                if not isT(v, 'jd'):
                    return None
                r = f(e, st, c, M(e), v.a[0])
                return R(st, ERR(jerr('type'))) if r is None else r
            for n in names:
                B[D + n] = h
            return f
        return d

    def structured(e, st, c, m, J):
        if isT(J, 'jobj'):
            return m.visit(st, c, 'visit_map', [mk('jmap', J, 0)])
        if isT(J, 'jarr'):
            return m.visit(st, c, 'visit_seq', [mk('jseq', J.a[0], 0)])
    de('deserialize_struct', 'deserialize_map', 'deserialize_seq', 'deserialize_tuple', 'deserialize_tuple_struct')(structured)

    @de('deserialize_option')
    def dopt(e, st, c, m, J):
        if J is JNULL:
            return m.visit(st, c, 'visit_none', []) or m.visit(st, c, 'visit_unit', [])
        return m.visit(st, c, 'visit_some', [c.args[0]])

    @de('deserialize_newtype_struct')
    def dnew(e, st, c, m, J):
        return m.visit(st, c, 'visit_newtype_struct', [c.args[0]])

    @de('deserialize_str', 'deserialize_string', 'deserialize_identifier')
    def dstr(e, st, c, m, J):
        if isT(J, 'jstr'):
            return m.visit_text(st, c, J.a[0])

    def numeric(e, st, c, m, J):
        if not isT(J, 'jnum'):
            return None
        out = []
        for s, b in e.decide(st, le(0, J.a[0])):
            r = m.visit(s, c, 'visit_u64' if b else 'visit_i64', [J.a[0]])
            out.extend(r if r is not None else R(s, ERR(jerr('type'))))
        return out

    de(*['deserialize_%s%d' % (s, w) for s in 'ui' for w in (8, 16, 32, 64)])(numeric)

    @de('deserialize_any')
    def dany(e, st, c, m, J):
        if isT(J, 'jstr'):
            return m.visit_text(st, c, J.a[0])
        if isT(J, 'jnum'):
            return numeric(e, st, c, m, J)
        if J is JNULL:
            return m.visit(st, c, 'visit_unit', [])
        return structured(e, st, c, m, J)

    @de('deserialize_enum')
    def denum(e, st, c, m, J):
        if isT(J, 'jstr'):
            return m.visit(st, c, 'visit_enum', [mk('jenum', J.a[0])])

    def pair(e, outs, k):
        out = []
        for o in outs:
            if o.k != 'ret':
                out.append(o)
                continue
            for s, vi in e.split_variant(o.st, o.v):
                out.append(Out('ret', o.v if vi else OK(k(e.rd1(s, o.v, ('f', 0, 0, None)))), s))
        return out

    @on('serde::de::EnumAccess::variant')
    def variant(e, st, c):
        t = e.types[e.types[c.dty]['args'][0]]['e'][0]
        x = val(e, st, c.args[0])
        return pair(e, M(e).read(st, mk('jstr', x.a[0]), t, 'val'), lambda v: mk('agg', '()', 0, v, mk('jvar')))
    B['serde::de::VariantAccess::unit_variant'] = lambda e, st, c: R(st, OK(UNIT))

    @on('serde::de::MapAccess::next_key')
    def nkey(e, st, c):
        x = e.load(st, c.args[0])
        if not isT(x, 'jmap'):
            raise NoSummary()
        J, i = x.a
        if 2 * i >= len(J.a):
            return R(st, OK(NONE))
        t = e.types[e.types[c.dty]['args'][0]]['args'][0]
        return pair(e, M(e).read(st, mk('jstr', J.a[2 * i]), t, 'key'), SOME)

    @on('serde::de::MapAccess::next_value')
    def nval(e, st, c):
        x = e.load(st, c.args[0])
        J, i = x.a
        st = st.copy()
        e.store(st, c.args[0], mk('jmap', J, i + 1))
        return M(e).read(st, J.a[2 * i + 1], e.types[c.dty]['args'][0])

    @on('serde::de::SeqAccess::next_element')
    def nelem(e, st, c):
        x = e.load(st, c.args[0])
        q, i = x.a
        n = slen(q)
        if not isinstance(n, int):
            raise Stop('a sequence of unknown length read one by one')
        if i >= n:
            return R(st, OK(NONE))
        st = st.copy()
        e.store(st, c.args[0], mk('jseq', q, i + 1))
        t = e.types[e.types[c.dty]['args'][0]]['args'][0]
        return pair(e, M(e).read(st, e.elem(st, q, i), t), SOME)
    B['serde::de::SeqAccess::size_hint'] = B['serde::de::MapAccess::size_hint'] = lambda e, st, c: R(st, NONE)

    @on(DE)
    def dvec(e, st, c):
        if not isT(c.args[0], 'jd'):
            return None
        t = e.types[c.dty]['args'][0]
        p = e.types[t].get('path', '')
        J = c.args[0].a[0]
        if p.endswith('IgnoredAny'):
            return R(st, OK(mk('agg', p, 0)))
        if p != 'alloc::vec::Vec':
            return None
        if not isT(J, 'jarr'):
            return R(st, ERR(jerr('type')))
        et = e.types[t]['args'][0]
        m = M(e)

        def body(s, x, acc):
            out = []
            for o in m.read(s, e.rb(s, x), et):
                if o.k != 'ret':
                    out.append(o)
                    continue
                for s2, vi in e.split_variant(o.st, o.v):
                    out.append((s2, 'exit', o.v) if vi else (s2, 'go', cat(acc, lits([e.rb(s2, e.rd1(s2, o.v, ('f', 0, 0, None)))]))))
            return out
        return drive(e, st, mk('it', 'own', J.a[0], 0, slen(J.a[0]), False), EMPTY, body, lambda s, acc: R(s, OK(acc)))

    def err(n):
        B['serde::de::Error::' + n] = lambda e, st, c: R(st, jerr(n))
    for n in ('custom', 'duplicate_field', 'invalid_length', 'unknown_variant', 'unknown_field', 'missing_field', 'invalid_type', 'invalid_value'):
        err(n)
    B['serde::ser::Error::custom'] = lambda e, st, c: R(st, jerr('custom'))
    return B
