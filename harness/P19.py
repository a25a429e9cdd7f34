# P19: message types resolve, are emitted after what they use, and cycles are refused.
from gen import *
import re


def order(out, ms):
    """where each message is defined in the generated code; None if that cannot be told"""
    pos = {}
    for m in ms:
        p = [x.start() for x in re.finditer(rb'\bstruct\s+%s_type\b\s*(?=\{|\n)' % m.name.encode(), out)]
        pos[m.name] = p
    return pos


def graph(i):
    n = R.choice([1, 2, 3, 5, 8, 12, 20])
    nm = names(n, first=IDC.upper())
    ms = []
    for k, x in enumerate(nm):
        refs = R.sample(nm[:k], min(k, R.randrange(4))) if k else []
        fs = [F(r, 'r%d' % j, j + 1, R.choice(['', '', 'repeated', 'optional']), [('transient', 'true')] if R.random() < 0.15 else []) for j, r in enumerate(refs)]
        if R.random() < 0.5:
            fs.append(F('int32', 'v', 50))
        R.shuffle(fs)
        ms.append(M(x, fs))
    R.shuffle(ms)
    return ms


def check(ms, out, text):
    pos = order(out, ms)
    if all(len(p) == 0 for p in pos.values()):
        return
    for m in ms:
        if len(pos[m.name]) != 1:
            fail('message %s is generated %d times: %s' % (m.name, len(pos[m.name]), show(text)))
            return
    byname = {m.name: m for m in ms}
    for m in ms:
        for f in m.fields:
            if f.type in byname and pos[f.type][0] > pos[m.name][0]:
                fail('%s uses %s, which is generated after it: %s' % (m.name, f.type, show(text)))
                return


def dag(i):
    ms = graph(i)
    s = Schema(R.choice(['', 'p', 'a.b.c']), ms)
    r = accepted(s.text())
    if r:
        check(ms, r.out, s.text())
    # close a cycle
    if R.random() < 0.7:
        byname = {m.name: m for m in ms}

        def reach(x, seen):
            if x in seen:
                return seen
            seen.add(x)
            for f in byname[x].fields:
                if f.type in byname:
                    reach(f.type, seen)
            return seen
        a = R.choice(ms)
        b = R.choice(sorted(reach(a.name, set())))
        byname[b].fields.append(F(a.name, 'back', 77, R.choice(['', 'repeated', 'optional']), [('transient', 'true')] if R.random() < 0.2 else []))
        refused(s.text(), 'circular reference (%s to %s)' % (b, a.name))
        byname[b].fields.pop()
    m = R.choice(ms)
    bad = R.choice(['Nope', m.name + 'x', m.name[:-1] + '0' if len(m.name) > 1 else 'Qq', m.name.swapcase(), m.name + '_type', 'x.' + m.name])
    if bad not in [x.name for x in ms]:
        m.fields.insert(R.randrange(len(m.fields) + 1), F(bad, 'undecl', 88, R.choice(['', 'repeated'])))
        refused(s.text(), 'undeclared message %s' % bad)


def cycles(n):
    """a pure cycle of length n behind a chain"""
    nm = names(n + 3, first=IDC.upper())
    ms = [M(x, []) for x in nm]
    for k in range(n):
        ms[k].fields.append(F(nm[(k + 1) % n], 'r', 1, R.choice(['', 'repeated'])))
    for k in range(n, n + 3):
        ms[k].fields.append(F(nm[(k + 1) % (n + 3)], 'r', 1))
    R.shuffle(ms)
    refused(Schema('', ms).text(), 'cycle of length %d' % n)
    # without the closing edge it is fine
    ms = [M(x, []) for x in nm]
    for k in range(n + 2):
        ms[k].fields.append(F(nm[k + 1], 'r', 1))
    R.shuffle(ms)
    s = Schema('', ms)
    r = accepted(s.text(), 'chain of %d messages' % (n + 3))
    if r:
        check(ms, r.out, s.text())


def packages(i):
    # a type is looked for in the package of the message that uses it
    t = 'package p1; message A { int32 x = 1; } message B { A a = 1; } package p2; message A { B b = 1; } message B { string s = 1; }'
    r = accepted(t, 'two packages')
    refused('package p1; message A { int32 x = 1; } package p2; message B { A a = 1; }', 'message of another package')
    refused('message A { int32 x = 1; } package p2; message B { A a = 1; }', 'message outside the package')
    for pre in ('package a; ', 'package a.b; '):
        for bad in ('ab', 'a.b', 'a.b.b', '.b', 'aB', 'b_type', 'ba', 'a_b', 'a::b'):
            refused(pre + 'message b { int32 x = 1; } message C { %s r = 1; }' % bad, 'undeclared message %s' % bad)
        accepted(pre + 'message b { int32 x = 1; } message C { b r = 1; }', 'a message of the package')
        accepted(pre + 'message C { b r = 1; } message b { int32 x = 1; }', 'a message of the package, declared later')
    if r:
        d = fresh_dir()
        open(d + '/two.hh', 'wb').write(r.out)
        st, tx = compile_run('#include "two.hh"\nstatic_assert(std::is_base_of<p1::A_type, decltype(p1::B_type::a)>::value && std::is_same<decltype(p2::A_type::b), p2::B>::value, "");\nint main(){}\n', 'two', [d], syntax=True)
        if st != 'ok':
            fail('two packages: %s' % tx[:600])


def compiled(i):
    ms = graph(i)
    s = Schema('vc%d' % i, ms)
    r = accepted(s.text(), keep=True)
    if not r:
        return
    body = ''.join('  { vc%d::%s m, n; m.clear(); if (!m.empty() || !(m == n)) return 1; std::string o; if (!m.serialize(o) || o != "{}") return 2; }\n' % (i, m.name) for m in ms)
    st, t = compile_run('#include "out.hh"\nint main() {\n' + body + ' return 0; }\n', 'g%d' % i, [r.dir])
    if st != 'ok':
        fail('generated code of a valid schema: %s: %s: %s' % (st, t[:500], show(s.text())))


pmap(dag, range(budget(150, 2000)))
pmap(cycles, list(range(1, 12)) + [40, 150])
pmap(packages, range(1))
pmap(compiled, range(budget(4, 20)))
finish()
