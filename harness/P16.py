# P16: obfuscated names reveal to the original; the JSON does not change.
from gen import *


def oddname():
    k = R.randrange(1, 40)
    cs = [c for c in range(0x20, 0x7F) if chr(c) not in '"\\\'?'] + [0xe9, 0x3bb, 0x20ac, 0xffff, 0x1f600, 0x10ffff, 0x80, 0x7ff]
    return ''.join(chr(R.choice(cs)) for _ in range(k))


def schema(kind, pkg, obf):
    return kind


def one(i):
    kind = i % 3
    fs, used = [], set()
    if kind == 0:
        # identifiers of every length
        ls = list(range(1, 61)) + [R.randrange(61, 300) for _ in range(4)]
        nm = []
        for n in ls:
            while True:
                x = ident(n)
                if x not in nm:
                    break
            nm.append(x)
        fs = [F(R.choice(['string', 'int32']), x, k + 1) for k, x in enumerate(nm)]
        js = nm
    elif kind == 1:
        # every byte a name may hold, at every length modulo 8
        js = []
        pool = [chr(c) for c in range(0x20, 0x7F) if chr(c) not in '"\\\'']
        R.shuffle(pool)
        while pool:
            n = R.randrange(1, 9)
            js.append('n%d' % len(js) + ''.join(pool[:n]).replace('??', '? ?'))
            pool = pool[n:]
        while len(js) < 60:
            x = oddname()
            if x not in js:
                js.append(x)
        fs = [F(R.choice(['string', 'int32']), 'f%d' % k, k + 1, '', [('name', '"%s"' % x)]) for k, x in enumerate(js)]
    else:
        nums = R.sample(range(1, 18999), 50) + [1, 22, 333, 4444, 55555, 666666, 7777777, 88888888, 536870911]
        nums = sorted(set(nums))
        fs = [F(R.choice(['string', 'int32']), 'f%d' % k, x) for k, x in enumerate(nums)]
        js = [str(x) for x in nums]
    ds = []
    for tag, o in (('pl', 'false'), ('ob', 'true')):
        opts = [('obfuscate_strings', o)] + ([('number_names', 'true')] if kind == 2 else [])
        s = Schema(tag, [M('A', fs)], opts)
        r = accepted(s.text(), keep=True, out=tag + '%d.hh' % i, fname='%s_%d.proto' % (tag, i))
        if not r:
            return
        ds.append(r.dir)
    for x in js:
        note(x)
    src = '#include "rt.hh"\n#include "pl%d.hh"\n#include "ob%d.hh"\n' % (i, i)
    src += 'template<class M> void set( M &m, int k ) { switch (k) {\n' + ''.join('  case %d: m.%s = %s; break;\n' % (k, f.name, '"v"' if f.type == 'string' else '7') for k, f in enumerate(fs)) + '} }\n'
    src += 'static const S N[] = {' + ', '.join(cstr(x) for x in js) + '};\n'
    src += r'''
static void doc( const S &d, const char *what )
{
    pl::A p; ob::A o; pg::Parameters a, b;
    bool r = p.deserialize(d, &a), t = o.deserialize(d, &b);
    S x, y; p.serialize(x); o.serialize(y);
    if (str(last(r, a)) != str(last(t, b)) || x != y) fail(S(what) + " " + show(d) + " is read as " + show(y) + " by the obfuscated code and as " + show(x) + " by the plain code");
}
int main()
{
    pl::A pa; ob::A oa;
    for (int k = 0; k < @N; ++k)
    {
        pl::A p; ob::A o; set(p, k); set(o, k); set(pa, k); set(oa, k);
        S x, y; p.serialize(x); o.serialize(y);
        if (x != y) fail("obfuscated code writes " + show(y) + " instead of " + show(x));
        JV j; if (!json_parse(y, j) || j.o.size() != 1 || j.o[0].first != N[k]) fail("the name " + show(N[k]) + " is written as " + show(y));
        doc(x, "document");
        ob::A q; if (!q.deserialize(x) || q.empty()) fail("the name " + show(N[k]) + " is not recognised by the obfuscated code");
        // names that are none
        S n = N[k], v = x.substr(x.rfind(':'));
        doc("{" + json_lit(n + "x") + v, "unknown name"); doc("{" + json_lit(n.substr(1)) + v, "unknown name");
        S z = n; for (char &c : z) c = (char) (c ^ 0x93);
        doc("{" + json_lit(z) + v, "unknown name");
        doc("{" + json_lit(pg::reveal(n)) + v, "unknown name");
        if (pg::reveal(pg::reveal(n)) != n) fail("revealing twice does not give back " + show(n));
    }
    S x, y; pa.serialize(x); oa.serialize(y); if (x != y) fail("all fields: " + show(y, 2000) + " instead of " + show(x, 2000));
    doc(x, "document");
    pg::Parameters c; c.serialize_null = true; S u, w; pl::A e; ob::A f; e.serialize(u, &c); f.serialize(w, &c); if (u != w) fail("nulls: " + show(w, 2000) + " instead of " + show(u, 2000));
    return g_fails ? 1 : 0;
}
'''.replace('@N', str(len(fs)))
    st, t = compile_run(src, 'o%d' % i, ds + [INC])
    if st == 'compile' or (st == 'run' and 'FAIL ' not in t):
        fail('%s: %s' % (st, t[:800]))
    for l in t.split('\n'):
        if l.startswith('FAIL '):
            fail(l[5:])


pmap(one, range(budget(6, 30)))
finish()
