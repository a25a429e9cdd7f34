# P23: schema text is carried into the generated code verbatim.  Oracle: generating with a name is the same as
# generating with a unique word in its place and putting the name in afterwards.
from gen import *
import re

W = 'Zqzword'
TRICKY = ['$1$', '$2$', '$3$', '$0$', '$9$', '$$', '$', '$x$', '$1', '1$', '$1$$2$', '$-1$', '$ 1$', 'a$1$b', '%s', '%d', '%n', '\\'[:0] + '{}', '}}', '#endif', '//', '/*', '*/', '--- A', '------', 'X_Y_Z', '_X_Y_Z',
          '$4294967297$', '$99999999999999999999$', 'caf\u00e9', '\u20ac$1$', '&', '<b>', '@name@', '${1}', ' ', '', '\x7f', '\u0080', 'AUTO-REMOVE', '$1$' * 20, 'x' * 300]


def jname(i):
    w = R.choice(TRICKY)
    if R.random() < 0.5:
        w = ''.join(R.choice(TRICKY[:20] + ['a', 'Q ', '$1$']) for _ in range(R.randrange(1, 5)))
    extra = [F('int32', 'b_' + W[:3], 2), F('string', 'c', 3, 'repeated')]
    mk = lambda x, o=(): Schema('p', [M('A', [F('string', 'a', 1, '', [('name', '"%s"' % x)])] + extra), M('B', [F('A', 'r', 1, 'repeated')])], o).text()
    d = fresh_dir()
    r, b = accepted(mk(w), 'JSON name %s' % show(w), d=d), None
    b = accepted(mk(W), d=d)
    if r and b and b.out.count(W.encode()):
        if r.out != b.out.replace(W.encode(), w.encode()):
            fail('the JSON name %s is not carried over: %s' % (show(w), first_diff(r.out, b.out.replace(W.encode(), w.encode()))))
    elif r and b:
        fail('the JSON name does not occur in the generated code')
    shutil.rmtree(d, ignore_errors=True)


def first_diff(a, b):
    k = 0
    while k < min(len(a), len(b)) and a[k] == b[k]:
        k += 1
    return 'got %s, expected %s' % (show(a[max(0, k - 60):k + 60]), show(b[max(0, k - 60):k + 60]))


def names_(i):
    """identifiers: field, message and package names"""
    kind = i % 4
    w = R.choice(['Zq', 'Zqzword2', 'Zq_1_', 'Zq1', 'ZqX_Y_Z', 'Zq_X_Y_Z', 'Zq' + 'y' * 200, 'Zqzwor', 'Zq_type', 'ZqTYPE', 'Zqmessage', 'Zqreveal', 'Zqvalue', 'Zqtemp'])
    d = fresh_dir()

    def mk(x):
        f = [F('int32', 'a', 1), F('string', x if kind == 0 else 'Zqm', 2), F('bytes', 'zz', 3)]
        m = M(x if kind == 1 else 'Zqm', f)
        pkg = {2: x, 3: 'a.%s.b' % x}.get(kind, 'pk')
        return Schema(pkg, [m, M('User', [F(m.name, 'u', 1), F(m.name, 'v', 2, 'repeated')])]).text()
    r, b = accepted(mk(w), d=d), accepted(mk(W), d=d)
    if r and b:
        if not b.out.count(W.encode()):
            fail('the name does not occur in the generated code')
        e = b.out.replace(W.encode(), w.encode())
        if r.out != e:
            fail('the %s name %s is not carried over: %s' % (['field', 'message', 'package', 'package'][kind], w, first_diff(r.out, e)))
    shutil.rmtree(d, ignore_errors=True)


def files(i):
    """the path of the schema is part of the generated code (a comment and the guard)"""
    t = Schema('p', [M('A', [F('string', 'a', 1, '', [('name', '"$1$"')])])]).text()
    d = fresh_dir()
    out = {}
    for dn, fn in (('plain', 's.proto'), (R.choice(['$1$', '$3$', '$2$x', 'a$b$c', 'sp ace', '%s', 'd$']), R.choice(['s$1$.proto', '$2$.proto', '$3$', 'x.proto', '$$.p', 's-1.proto', '$']))):
        os.makedirs(d + '/' + dn, exist_ok=True)
        r = accepted(t, 'file %s/%s' % (dn, fn), d=d + '/' + dn, fname=fn)
        if not r:
            return
        p = os.path.realpath(r.src)
        g = 'GUARD_' + re.sub(r'[^A-Za-z0-9_]', '_', p)
        out[dn, fn] = (r.out, p.encode(), g.encode())
        if p.encode() not in r.out:
            return      # the path is no longer mentioned
    (a, pa, ga), (b, pb, gb) = out.values()
    e = a.replace(ga, b'\x01').replace(pa, pb).replace(b'\x01', gb)
    if b != e:
        fail('file name %s: %s' % (show(pb), first_diff(b, e)))


def runtime():
    """the JSON name at run time is the text of the schema"""
    ns = [t for t in TRICKY if '??' not in t]
    s = Schema('vr', [M('A', [F('int32', 'f%d' % k, k + 1, '', [('name', '"%s"' % x)]) for k, x in enumerate(ns)])])
    r = accepted(s.text(), keep=True)
    if not r:
        return
    src = '#include "rt.hh"\n#include "out.hh"\nint main() {\n'
    for k, x in enumerate(ns):
        src += '  { vr::A m; m.f%d = 1; S o; JV j; if (!m.serialize(o) || !json_parse(o, j) || j.o.size() != 1 || j.o[0].first != %s) fail("name " + show(%s) + " is written as " + show(o)); vr::A q; if (!q.deserialize(o) || !(q == m)) fail("not read back: " + show(o)); }\n' % (k, cstr(x), cstr(x))
    st, t = compile_run(src + ' return g_fails ? 1 : 0; }\n', 'rt', [r.dir, INC])
    if st == 'compile' or (st == 'run' and 'FAIL ' not in t):
        fail('%s: %s' % (st, t[:800]))
    for l in t.split('\n'):
        if l.startswith('FAIL '):
            fail(l[5:])


pmap(jname, range(budget(120, 1500)))
pmap(names_, range(budget(56, 400)))
pmap(files, range(budget(30, 300)))
runtime()
finish()
