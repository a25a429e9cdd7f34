# P18: field numbers are valid and unique within a message, names are unique too.
from gen import *


def valid(n):
    return 1 <= n <= 536870911 and not 19000 <= n <= 19999


EDGE = [0, 1, 2, 15, 16, 2047, 18998, 18999, 19000, 19001, 19500, 19998, 19999, 20000, 20001, 536870910, 536870911, 536870912, 2**29 + 1, 2**30, 2**31 - 1, 2**31, 2**31 + 1,
        2**32 - 1, 2**32, 2**32 + 1, 2**32 + 19000, 2**32 + 20000, 2**33 + 1, 2**48 + 7, 2**63 - 1, 2**63, 2**63 + 1, 2**64 - 1, 2**64, 2**64 + 1, 2**64 + 20000, 10**20 + 1, 10**30, 10**60 + 3]


def one(n):
    f = F(R.choice(SCALARS + ['bytes']), 'a', n, R.choice(['', 'repeated', 'optional']))
    fs = [F('int32', 'zz', 3), f] if coin() and n != 3 else [f]
    s = Schema(R.choice(['', 'p']), [M('A', fs)], [('number_names', 'true')])
    if valid(n):
        r = accepted(s.text(), 'field number %d' % n)
        if r and b'"%d' % n not in r.out:
            fail('field number %d does not occur in the generated code: %s' % (n, show(s.text())))
    else:
        refused(s.text(), 'field number %d' % n)


def coin():
    return R.random() < 0.5


def rnd_num():
    k = R.randrange(6)
    if k == 0: return R.choice(EDGE)
    if k == 1: return R.randrange(18990, 20010)
    if k == 2: return 2**29 + R.randrange(-5, 6)
    if k == 3: return R.getrandbits(R.randrange(1, 80))
    return R.randrange(1, 2**29)


def dup(i):
    n = 2 + R.randrange(8 if i % 3 else 58)
    nums = R.sample([x for x in EDGE if valid(x)] + list(range(30, 130)), n)
    nm = names(n)
    fs = [F(R.choice(SCALARS + ['bytes']), a, b, R.choice(['', 'repeated', 'optional']), [('transient', 'true')] if R.random() < 0.2 else []) for a, b in zip(nm, nums)]
    other = [M('Z', [F('int32', a, b) for a, b in zip(nm, nums)])]
    accepted(Schema('p', [M('A', fs)] + other).text(), 'distinct numbers and names')
    a, b = R.sample(range(n), 2)
    k = fs[b].num
    fs[b].num = fs[a].num
    refused(Schema('p', [M('A', fs)] + other).text(), 'duplicate field number')
    fs[b].num = k
    k = fs[b].name
    fs[b].name = fs[a].name
    refused(Schema('p', [M('A', fs)] + other).text(), 'duplicate field name')
    fs[b].name = k
    ms = [M(x, []) for x in names(2 + R.randrange(5), first='ABCDEFG')]
    for m in ms:
        m.fields = [F('int32', 'x', 1)] if coin() else []
    t = Schema('p', ms)
    accepted(t.text(), 'distinct message names')
    a, b = R.sample(range(len(ms)), 2)
    ms[b].name = ms[a].name
    refused(t.text(), 'duplicate message name')
    # the same name in another package is another message
    accepted('syntax = "proto3";\npackage p1;\nmessage A { int32 x = 1; }\npackage p2;\nmessage A { int32 x = 1; }\n', 'same message name in two packages')
    refused('package p1;\nmessage A { int32 x = 1; }\npackage p2;\nmessage B { int32 x = 1; }\npackage p1;\nmessage A { }\n', 'same message declared twice with another package in between')


def number_used():
    """the number in the JSON is the one written"""
    nums = [x for x in EDGE if valid(x)]
    s = Schema('vq', [M('A', [F('int32', 'f%d' % i, n) for i, n in enumerate(nums)])], [('number_names', 'true')])
    d = fresh_dir()
    if not accepted(s.text(), d=d, out='q.hh'):
        return
    body = ''.join('  { vq::A m; m.f%d = 5; std::string o; if (!m.serialize(o) || o != "{\\"%d\\":5}") { printf("FAIL number %d written as %%s\\n", o.c_str()); bad = 1; } vq::A q; if (!q.deserialize(o) || !(q == m) || q.f%d.empty()) { printf("FAIL number %d not read back\\n"); bad = 1; } }\n' % (i, n, n, i, n) for i, n in enumerate(nums))
    st, t = compile_run('#include "q.hh"\n#include <cstdio>\nint main() { int bad = 0;\n' + body + ' return bad; }\n', 'nums', [d])
    note(s.text())
    if st != 'ok':
        for l in t.split('\n'):
            if l.startswith('FAIL '):
                fail(l[5:])
        if not fails:
            fail('number_names: %s: %s' % (st, t[-800:]))


def missing(i):
    for t in ['', '-1', '- 1', '+1', 'x', '"1"', '1.0', '0x10', '1 2', 'true', '99999999999999999999x']:
        refused('message A { int32 a = %s; }' % t, 'field number %s' % t)


pmap(one, EDGE * 3)
pmap(lambda n: one(n), [rnd_num() for _ in range(budget(300, 4000))])
pmap(dup, range(budget(60, 600)))
pmap(missing, range(1))
number_used()
finish()
