"""Writes kc/panicdocs.txt: the functions of the standard library whose documentation has a Panics section, read from
the library sources of the installed nightly toolchain."""
import os, re, subprocess, sys
root = subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip() + '/lib/rustlib/src/rust/library'
INTS = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize')


def owner(h):
    h = re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', h))))
    m = re.match(r'\s*(?:pub(?:\([^)]*\))? )?(?:const |unsafe |auto )*trait (\w+)', h)
    if m:
        return m.group(1)
    h = re.sub(r'^\s*(unsafe )?impl\s*', '', h)
    h = re.sub(r'\s+where.*', '', h)
    h = re.sub(r'^(const |!|\?)+', '', h)
    if ' for ' in h:
        h = h.split(' for ')[0]         # a method is known by its trait
    h = h.strip(' {&').split('::')[-1].strip()
    return 'slice' if h.startswith('[') else re.sub(r'\W.*', '', h)


out = set()
for crate in ('core', 'alloc', 'std'):
    for d, _, fs in os.walk('%s/%s/src' % (root, crate)):
        for f in fs:
            if not f.endswith('.rs') or 'tests' in d or f == 'tests.rs':
                continue
            own = [os.path.basename(d) if f == 'mod.rs' else f[:-3]]
            if f in ('uint_macros.rs', 'int_macros.rs'):
                own = list(INTS)
            if f in ('f32.rs', 'f64.rs'):
                own = [f[:-3]]
            cur, panics, doc, attr = own, False, False, False
            for line in open(os.path.join(d, f)):
                s = line.strip()
                if attr or s.startswith('#[') and not s.endswith(']'):
                    attr = not s.endswith(']')
                    continue
                if s.startswith('///'):
                    if not doc:
                        panics = False
                    doc = True
                    if re.match(r'///\s*#+\s*Panics?', s):
                        panics = True
                    continue
                if not s or s.startswith(('#', '//', ')', '"', ']')):
                    continue
                m = re.match(r'(?:pub(?:\([^)]*\))? )?(?:default )?(?:const )?(?:async )?(?:unsafe )?(?:extern "[^"]*" )?fn (\w+)', s)
                if m:
                    if panics and doc:
                        for o in cur:
                            out.add('%s::%s' % (o, m.group(1)))
                elif line[0] not in ' \t' and (re.match(r'(unsafe )?impl\b', s) or re.match(r'(pub(\([^)]*\))? )?(const )?(unsafe )?(auto )?trait \w', s)):
                    o = owner(s)
                    if o:
                        cur = [o]
                elif line[0] == '}' and f not in ('uint_macros.rs', 'int_macros.rs'):
                    cur = own
                doc = panics = False
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'kc', 'panicdocs.txt'), 'w').write(''.join(x + '\n' for x in sorted(out)))
print(len(out))
