import hashlib
import unicodedata
from ..ref import *
from .. import engine as ENG
from .. import term as TM
from .c13 import WORDS, paths

# SHA-256 of the published lists (words in order, one a line)
LISTS = {
    'English': '2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda',
    'French': 'ebc3959ab7801a1df6bac4fa7d970652f1df76b683cd2f4003c941c63d517e59',
    'Japanese': '2eed0aef492291e061633d7ad8117f1a2b03eb80a29d0e4e3117ac2528d05ffd',
    'Korean': '9e95f86c167de88f450f0aaf89e87f6624a57f973c67b516e338e8e8b8897f60',
    'ChineseSimplified': '5c5942792bd8340cb8b27cd592f1015edf56a8c5b26276ee18a482428e7c5726',
    'ChineseTraditional': '417b26b3d8500a4ae3d59717d7011952db6fc2fb84b807f3f94ac734e89c1b5f',
    'Italian': 'd392c49fdb700a24cd1fceb237c1f65dcc128f6b34a8aacb58b59384b5c648c2',
    'Spanish': '46846a5a0139d1e3cb77293e521c2865f7bcdb82c44e8d0a06a2cd0ecba48c0b',
}
LANG = '<bip39::dictionary::DefaultDictionary as bip39::dictionary::Language>::'
DERR = 'bip39::bip39::dictionary::Error'


def text_of(t):
    """the text of a constant"""
    b = []
    for s in t.a if isT(t, 'seq') else [()]:
        if not s or s[0] != 'l' or not all(isinstance(x, int) for x in s[1]):
            raise Stop('not a constant text: ' + show(t)[:100])
        b += s[1]
    return bytes(b).decode()


def lists(ck, e):
    """variant of Language -> (words, dictionary term)"""
    out = {}
    p = adt(ck, 'bip39::bip39::dictionary::DefaultDictionary')
    for n, d in dictionaries(ck, e).items():
        if not (isT(d, 'agg') and d.a[0] == p):
            raise Stop('the dictionary of %s is not a constant' % n)
        w = ck.field(e, d, 'words')
        k = slen(w)
        if not isinstance(k, int):
            raise Stop('the word list of %s is not a constant' % n)
        out[n] = ([text_of(e.rb(EMPTYST, e.elem(EMPTYST, w, i))) for i in range(k)], d)
    return out


def run(ck):
    ck.explain = 'The eight word lists as the compiler evaluates them; look-ups for any word, index and list; reading and writing mnemonic texts for every text and every mnemonic.'
    ck.rule('each list: 2048 distinct non-empty NFKD words without separator or white space, in the published order (digest); each language selects the list of its name, which reports that name')
    ck.rule('lookup_mnemonic: Ok(i) only when words[i] is the word, otherwise, and only when no word of the list equals it, the error with the word; lookup_word: words[i] for i <= 2047, an error otherwise')
    ck.rule('from_string: the text split at every separator, each part looked up, in order; a failing look-up is reported, another count than 9..24 is refused; to_string: the looked-up words in order with one separator between')
    e = ck.engine()
    EP, MP, IP = paths(e)
    outs = e.run(e.fn(LANG + 'separator'), [sym('dict')])
    ck.expect(len(outs) == 1 and outs[0].k == 'ret', 'separator', 'the separator is not one constant')
    SEP = e.rb(outs[0].st, outs[0].v)
    sep = text_of(SEP)
    got = lists(ck, e)
    ck.expect(set(got) == set(LISTS), 'languages', 'the languages are %s' % sorted(got))
    for n, (ws, d) in got.items():
        nm = text_of(e.rb(EMPTYST, ck.field(e, d, 'name')))
        ck.expect(nm == ''.join('-' + c.lower() if c.isupper() else c for c in n)[1:], n + '/name', 'the %s list is called "%s"' % (n, nm))
        ck.expect(len(ws) == 2048, n + '/count', 'the %s list has %d words' % (n, len(ws)))
        seen = {}
        for i, w in enumerate(ws):
            ck.expect(w not in seen, '%s/%d' % (n, i), 'word %d of the %s list, "%s", is also word %s' % (i, n, w, seen.get(w)))
            seen[w] = i
            ck.expect(w != '' and sep not in w and w.split() == [w], '%s/%d/form' % (n, i), 'word %d of the %s list, "%s", is empty or holds a separator' % (i, n, w))
            ck.expect(unicodedata.normalize('NFKD', w) == w, '%s/%d/nfkd' % (n, i), 'word %d of the %s list, "%s", is not in normal form' % (i, n, w))
        h = hashlib.sha256(''.join(w + '\n' for w in ws).encode()).hexdigest()
        ck.expect(h == LISTS.get(n), n + '/list', 'the %s list is not the published one (digest %s)' % (n, h))
    ck.extra['words'] = sum(len(w) for w, _ in got.values())

    def name(S, d):
        S.want(S.norm(S.field(d, 'name')))
    ck.allow(e, LANG + 'name', name)

    def words(S, d):
        return S.norm(S.field(d, 'words'))

    def find(S, d, w):
        S.require(S.out.k == 'ret', 'panics')
        ws, w = words(S, d), S.norm(w)
        v = S.norm(S.out.v)
        if S.match(v, Err(ANY)):
            S.want(Err(Agg(DERR, 'MnemonicWordNotFoundInDictionary', w)))
            ix = ENG.mk_ix(2048, 99)
            for st in S.under([(boolean(mkeq(S.e.elem(S.st, ws, ix), w)), 1)], ix, 2048):
                S.require(False, 'a word of the list may not be found')
            return
        S.require(S.match(v, Ok(ANY)), 'another result')
        i = S.norm(mk('fld', S.norm(v.a[2]), 0, 0)) if not isT(S.norm(v.a[2]), 'agg') else S.norm(S.norm(v.a[2]).a[2])
        S.require(S.dec(le(0, i)) and S.dec(le(i, 2047)), 'the index %s is no index of the list' % show(i)[:200])
        S.require(S.dec(boolean(mkeq(S.e.elem(S.st, ws, i), w))), 'the word at the index is another one')
    ck.allow(e, LANG + 'lookup_mnemonic', find)

    def word(S, d, ix):
        S.require(S.out.k == 'ret', 'panics')
        i = S.norm(S.field(ix, '0'))
        if S.dec(le(i, 2047)):
            return S.want(Ok(S.e.elem(S.st, words(S, d), i)))
        S.require(S.match(S.out.v, Err(ANY)), 'an index outside the list names a word')
    ck.allow(e, LANG + 'lookup_word', word)

    # texts
    def word_of(e, st, c):
        # no word of a list is empty (decided above)
        outs = e.opaque(WORD, c, st)
        for o in outs:
            RANGE.setdefault(mk('len', mk('fld', o.v, 0, 0)), (1, TM.LENMAX))
        return outs
    LOOK, WORD = LANG + 'lookup_mnemonic', LANG + 'lookup_word'
    e2 = ck.engine({LOOK: pure(LOOK), WORD: word_of})

    def part(S, t, i):
        return S.e.elem(S.st, mk('split', t, SEP), i)

    def read(S, d, text, onok):
        S.require(S.out.k == 'ret', 'panics')
        d, text = S.norm(d), S.norm(text)
        parts = mk('split', text, SEP)
        n = slen(parts)
        v = S.norm(S.out.v)
        if S.match(v, Err(Agg('bip39::bip39::Error', 'LanguageError', ANY))):
            err = S.norm(S.norm(v.a[2]).a[2])
            cs = []
            any_term(err, lambda x: x.op == 'call' and x.a[0] == LOOK and bool(cs.append(x)))
            S.require(cs, 'the reported failure is not one of a look-up: ' + show(err)[:200])
            c = cs[0]
            ok, er = resok(S, c)
            S.require(not ok, 'a word that is found is reported')
            S.require(S.same(err, er), 'the failure of the look-up is changed')
            S.require(S.same(c.a[1], d), 'another dictionary is used')
            w = S.norm(c.a[2])
            return S.require(isT(w, 'at') and w.a[0] is parts, 'a word that is no part of the text is looked up: ' + show(w)[:200])
        for k in WORDS:
            if S.dec(eq0(sub(n, k))):
                S.require(S.match(v, Ok(ANY)), 'a text of %d words is refused: %s' % (k, show(v)[:200]))

                def go(X):
                    rs = []
                    for i in range(k):
                        ok, r = resok(X, typed_call(X, LOOK, rettype(e2, LOOK), d, part(X, text, i)))
                        X.require(ok, 'word %d of %d is not in the list, and still accepted' % (i, k))
                        rs.append(r)
                    onok(X, k, rs)
                for st in instances(S):
                    S.explore(st, go)
                return
        S.want(Err(Agg('bip39::bip39::Error', 'WrongNumberOfWords', n)))

    def from_string(S, d, text):
        def onok(X, k, rs):
            q = X.norm(X.norm(X.out.v).a[2])
            q = X.field(q, '0')
            X.require(X.same(slen(X.norm(q)), k), 'not %d words' % k)
            for i in range(k):
                X.require(X.same(X.e.elem(X.st, X.norm(q), i), rs[i]), 'word %d of %d is %s' % (i, k, show(X.norm(X.e.elem(X.st, X.norm(q), i)))[:200]))
        read(S, d, text, onok)
    ck.allow(e2, 'bip39::Mnemonics::from_string', from_string)

    def mstring(S, d, text):
        def onok(X, k, rs):
            X.require(X.match(X.out.v, Ok(Agg('bip39::bip39::MnemonicString', '', text))), 'the text is changed')
        read(S, d, text, onok)
    ck.allow(e2, 'bip39::MnemonicString::new', mstring)

    for w in WORDS:
        ws = []
        for i in range(w):
            x = sym('m%d_%d' % (w, i))
            RANGE.setdefault(x, (0, 2047))
            ws.append(mk('agg', IP, 0, x))
        m = mk('agg', MP, 0, mk('seq', ('l', tuple(ws))))

        def write(S):
            parts = []
            for x in ws:
                ok, r = resok(S, typed_call(S, WORD, rettype(e2, WORD), sym('dict'), x))
                if not ok:
                    return          # excluded by the rule on lookup_word
                parts += ([SEP] if parts else []) + [r]
            S.require(S.out.k == 'ret', 'panics')
            t = cat(*parts)
            S.require(S.match(S.out.v, Agg('bip39::bip39::MnemonicString', '', t)), 'the text of %d words is %s' % (w, show(S.norm(S.out.v))[:300]))
        fn = 'bip39::Mnemonics::to_string'
        ck.guard('%s/%d' % (fn, w), lambda: ck.judge(e2, fn, e2.run(e2.fn(fn), [byref(m), mk('ref', ('c', sym('dict')), ())], ENG.St()), write, label='%s/%d words' % (fn, w)))
        ck.anchors[fn] = ck.anchors.get(fn, 0) + 1


def instances(S):
    """refinements of the state in which every round of the loops that ran to their end is spelled out"""
    sts = [S.st]
    for f, b in S.st.since(None):
        if not isT(f, 'exists') or b:
            continue
        n = S.norm(f.a[0]) if isT(f.a[0]) else f.a[0]
        if not isinstance(n, int) or n > 64:
            continue
        for j in range(n):
            m = {f.a[1]: j}
            for alt in f.a[2]:
                keep = []
                for st in sts:
                    cur = [st]
                    for c, v in alt:
                        nxt = []
                        for t in cur:
                            c2 = S.e.subst(c, m)
                            keep.extend(S.holds(t, c2, 1 - v))
                            nxt.extend(S.holds(t, c2, v))
                        cur = nxt
                sts = keep
                if len(sts) > 64:
                    raise Stop('too many cases')
    return sts
