# P20: each protobuf type maps to its documented C++ type.
from gen import *

NSQ = '::' + NS


def want(t, label, lists, pkg):
    if t in CTYPE:
        v, single = CTYPE[t], '%s::field<%s>' % (NSQ, CTYPE[t])
    elif t == 'string':
        v = single = NSQ + '::string_field'
    elif t == 'bytes':
        v = single = 'std::vector<uint8_t>'
    else:
        v = single = '::' + ''.join(p + '::' for p in pkg.split('.') if p) + t
    if label == 'repeated':
        return 'std::%s<%s>' % ('list' if lists else 'vector', v)
    return single


def one(i):
    lists = R.random() < 0.5
    pkg = ['', 'p', 'a.b', 'a_1.b2.c__'[:-2], 'vq.w'][i % 5]
    ms = ['Sub', 'Other', 'X']
    allf = [(t, l) for t in SCALARS + ['bytes'] + ms for l in ('', 'repeated', 'optional')]
    R.shuffle(allf)
    # every type in one message, then in messages of their own, so that the helpers each one needs are there
    groups = [allf] + [[a] for a in R.sample(allf, 6)]
    out = [M('Sub', [F('int32', 'x', 1)]), M('Other', [F('string', 'x', 1)]), M('X', [])]
    for g, a in enumerate(groups):
        nm = names(len(a))
        fs = []
        for k, (n, (t, l)) in enumerate(zip(nm, a)):
            o = []
            if R.random() < 0.15: o.append(('transient', 'true'))
            if R.random() < 0.15: o.append(('name', '"j%d"' % k))
            if R.random() < 0.15: o.append(('deprecated', 'true'))
            fs.append(F(t, n, k + 1, l, o))
        out.append(M('G%d' % g, fs))
    R.shuffle(out)
    opts = [('cpp_use_lists', 'true' if lists else 'false')] if lists or R.random() < 0.5 else []
    if R.random() < 0.3: opts.append(('number_names', 'true'))
    if R.random() < 0.3: opts.append(('obfuscate_strings', 'true'))
    s = Schema(pkg, out, opts)
    r = accepted(s.text(), keep=True)
    if not r:
        return
    ns = '::' + ''.join(p + '::' for p in pkg.split('.') if p)
    src = '#include "out.hh"\n#include <type_traits>\n#include <cstdio>\ntemplate<class A, class B> void is( const char *what ) { if (!std::is_same<A, B>::value) printf("FAIL %s\\n", what); }\nint main() {\n'
    for m in out:
        for f in m.fields:
            w = want(f.type, f.label, lists, pkg)
            src += '  is<decltype(%s%s::%s), %s>("%s %s is not %s");\n' % (ns, m.name, f.name, w, f.label, f.type, w)
            note('%s %s %s %s' % (f.label, f.type, lists, pkg))
    src += '  return 0;\n}\n'
    st, t = compile_run(src, 't%d' % i, [r.dir])
    if st != 'ok':
        fail('%s: %s: %s' % (st, t[:600], show(s.text())))
    for l in t.split('\n'):
        if l.startswith('FAIL '):
            fail(l[5:] + ' (cpp_use_lists=%s, package %s)' % (lists, pkg or '(none)'))


def single(a):
    """a schema with one field only, of each type: the code compiles and works by itself"""
    i, (t, l) = a
    s = Schema('', [M('A', [F(t, 'f', 1, l)])] + ([M('Sub', [F('int32', 'x', 1)])] if t == 'Sub' else []))
    r = accepted(s.text(), keep=True)
    if not r:
        return
    st, o = compile_run('#include "out.hh"\nint main() { A a, b; std::string o; std::vector<char> v; if (!a.serialize(o) || !b.deserialize(o) || !(a == b) || !a.serialize(v) || !b.deserialize(v)) return 1; a.clear(); a.swap(b); return a.empty() ? 0 : 1; static_assert(std::is_same<decltype(A_type::f), %s>::value, ""); }\n' % want(t, l, False, ''), 's%d' % i, [r.dir])
    if st != 'ok':
        fail('%s %s alone: %s: %s' % (l, t, st, o[:600]))


pmap(one, range(budget(5, 30)))
al = [(t, l) for t in ['int32', 'uint64', 'double', 'bool', 'string', 'bytes', 'Sub'] for l in ('', 'repeated')]
pmap(single, list(enumerate(al if TIER else [('bytes', ''), ('bytes', 'repeated'), ('bool', ''), ('string', 'repeated'), ('double', ''), ('Sub', ''), ('Sub', 'repeated')])))
finish()
