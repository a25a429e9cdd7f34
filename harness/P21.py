# P21: every field is bound to one JSON name, the same for reading and writing.
from gen import *

ODD = ['x', 'X', ' ', '', 'a b', '$1$', '$', '$$', '0', '12', 'null', 'true', '{', '}', '[', ']', ':', ',', 'a.b', 'caf\u00e9', '\u65e5\u672c', '\U0001f600', '%s', '%d', '/', 'a/b', '//', '/*', '<', '&', '@type', '-', 'FIELDS', 'name', 'idx', 'value', 'ctx', 'f', 'temp', 'it', 'i' * 70, '~', '\x7f', 'a\tb'[:1] + '_tab']


def value(t, k):
    return {'string': ('"v%d"' % k, 'std::string("v%d")' % k)}.get(t, (str(k + 1), str(k + 1)))


WIDE = [2**k + d for k in range(7, 29) for d in (-1, 0, 1) if not 19000 <= 2**k + d <= 19999] + [536870911, 536870910, 10**8]


def one(i):
    number = i % 4 == 3
    obf = i % 3 == 1
    n = 3 + R.randrange(8)
    nm = names(n)
    nums = R.sample(list(range(1, 99)) + (WIDE * 3 if i % 2 else []), n)
    nums = [x if nums.index(x) == k else 300 + k for k, x in enumerate(nums)]
    fs, used = [], set()
    for k in range(n):
        t = R.choice(['string', 'int32', 'uint64', 'double'])
        o = []
        j = nm[k]
        if R.random() < 0.5:
            j = R.choice(ODD + nm + [x.upper() for x in nm] + [x + 'x' for x in nm] + [x[:-1] for x in nm if len(x) > 1] + [str(x) for x in nums])
        if number:
            if j != nm[k]:
                o.append(('name', '"%s"' % j))
            j = str(nums[k])
        tr = R.random() < 0.2
        if not tr:
            if j in used:
                j = nm[k] if nm[k] not in used else 'uniq%d' % k
                if number:
                    j = str(nums[k])
            used.add(j)
        if not number and j != nm[k]:
            o.append(('name', '"%s"' % j))
        if tr:
            o.append(('transient', 'true'))
        elif R.random() < 0.2:
            o.append(('transient', 'false'))
        R.shuffle(o)
        f = F(t, nm[k], nums[k], '', o)
        f.j, f.tr = j, tr
        fs.append(f)
    # a later plain name may equal an earlier name option
    js = [f.j for f in fs if not f.tr]
    opts = ([('number_names', 'true')] if number else []) + ([('obfuscate_strings', 'true')] if obf else [])
    s = Schema('vj', [M('A', fs)], opts)
    if len(set(js)) != len(js):
        refused(s.text(), 'two fields with one JSON name')
        return
    r = accepted(s.text(), keep=True)
    if not r:
        return
    live = [f for f in fs if not f.tr]
    src = '#include "rt.hh"\n#include "out.hh"\nint main() {\n'
    cond = lambda f, k: 'm.%s == %s' % (f.name, value(f.type, k)[1]) if f.type == 'string' else '!m.%s.empty() && (double) m.%s == %s' % (f.name, f.name, value(f.type, k)[1])
    for k, f in enumerate(fs):
        val = value(f.type, k)
        w = '{}' if f.tr else '{"%s":%s}' % (f.j, val[0])
        note('%s:%s:%s:%s' % (f.j, number, obf, f.tr))
        src += '  { vj::A m; m.%s = %s; S o; bool ok = m.serialize(o); JV j; ok = ok && json_parse(o, j) && j.k == JV::OBJ && j.o.size() == %d; %s if (!ok) fail(%s + show(o)); }\n' % (
            f.name, val[1], 0 if f.tr else 1, '' if f.tr else 'ok = ok && j.o[0].first == %s;' % cstr(f.j), cstr('field %s (name %s) alone is written as ' % (f.name, show(f.j))))
        # reading: its own name reaches it and nothing else
        doc = '{"%s":%s}' % (f.j, val[0])
        others = ' && '.join(['m.%s.empty()' % g.name for g in fs if g is not f] or ['true'])
        hit = [g for g in live if g.j == f.j]
        if not f.tr:
            src += '  { vj::A m; S d = %s; bool ok = m.deserialize(d) && (%s) && %s; if (!ok) fail("reading " + show(d) + " does not set exactly the field %s"); }\n' % (cstr(doc), cond(f, k), others, f.name)
        elif not hit:
            src += '  { vj::A m; S d = %s; bool ok = m.deserialize(d) && m.empty(); if (!ok) fail("reading " + show(d) + " sets something, %s is transient"); }\n' % (cstr(doc), f.name)
    # names nothing is bound to
    cand = set(nm) | {x + ' ' for x in js} | {x[:-1] for x in js} | {x.upper() for x in js} | {str(x) for x in nums} | {str(x) for x in range(n + 1)} | {''}
    for x in sorted(cand - set(js)):
        if '"' in x or '\\' in x:
            continue
        src += '  { vj::A m; S d = %s; bool ok = m.deserialize(d) && m.empty(); if (!ok) fail("reading " + show(d) + " sets a field, no field has that name"); }\n' % cstr('{"%s":1}' % x)
    src += '  { vj::A m;' + ' '.join('m.%s = %s;' % (f.name, value(f.type, k)[1]) for k, f in enumerate(fs)) + ' S o; JV j; if (!m.serialize(o) || !json_parse(o, j) || j.o.size() != %d) fail("all fields set: " + show(o)); vj::A q; if (!q.deserialize(o)) fail("not read back: " + show(o));' % len(live)
    src += ' '.join('if (%sq.%s.empty()) fail("%s %s: " + show(o));' % ('!' if f.tr else '', f.name, f.name, 'was read although transient' if f.tr else 'was not read back') for f in fs) + ' }\n'
    src += '  return g_fails ? 1 : 0;\n}\n'
    st, t = compile_run(src, 'n%d' % i, [r.dir, INC])
    if st == 'compile' or (st == 'run' and 'FAIL ' not in t):
        fail('%s: %s: %s' % (st, t[:600], show(s.text())))
    for l in t.split('\n'):
        if l.startswith('FAIL '):
            fail(l[5:] + ' | ' + show(s.text(), 300))


def dup(i):
    a, b = names(2)
    base = lambda o1, o2, so=(): Schema('', [M('A', [F('int32', a, 1, '', o1), F('string', b, 2, '', o2)])], so).text()
    q = lambda x: [('name', '"%s"' % x)]
    refused(base(q(b), []), 'name option equal to the name of another field')
    refused(base([], q(a)), 'name option equal to the name of another field')
    refused(base(q('z z'), q('z z')), 'the same name option twice')
    refused(base(q('z'), q('z'), [('obfuscate_strings', 'true')]), 'the same name option twice, obfuscated')
    accepted(base(q(b), q(a)), 'names exchanged')
    accepted(base(q('z'), q('Z')), 'names that differ in case')
    accepted(base(q('z'), q('z'), [('number_names', 'true')]), 'number_names takes precedence')
    for bad in ['a\\\\"b'[:2], "it's"]:
        pass
    for bad in ['true', '12', 'abc']:
        refused(base([('name', bad)], []), 'name option that is no string')
    for bad in ['"true"', '1', 'abc']:
        refused(base([('transient', bad)], []), 'transient option that is no boolean')
        refused(Schema('', [M('A', [F('int32', 'x', 1)])], [('number_names', bad)]).text(), 'number_names that is no boolean')


pmap(one, range(budget(12, 60)))
pmap(dup, range(budget(6, 60)))
finish()
