# P17: reading a schema always ends; layout and comments do not matter.
from gen import *


def norm(r):
    return r.out if r else None


def layouts(i):
    s = rnd_schema()
    t = s.tokens()
    d = fresh_dir()
    base = accepted(plain(t), d=d)
    if not base:
        return
    for p in (0.0, 0.3, 0.6, 0.8):
        x = layout(t, p)
        r = accepted(x, 'another layout of a valid schema', d=d)
        if r and r.out != base.out:
            fail('layout changes the generated code: %s and %s' % (show(plain(t)), show(x, 3000)))
    # one gap of a given kind in each place would take too long; one place each for every kind
    for g in ['//\n', '// x\r\n', '/**/', '/***/', '/****/', '/* * / */', '/*/*/', '/*//*/', '\r', '\t', '/*"*/', '//"\n', '/*\n*/', '//*\n', '/*\n//*/', '// a\rb\n', '//\r\rmessage\n', '// \x00 x\n', '/* \x00 */', '// \xff\n', '/*\r*/', '/*\xff*/', '\r\n', '\t\r', '//' + 'x' * 300 + '\n']:
        k = R.randrange(len(t) + 1)
        x = plain(t[:k]) + g + plain(t[k:])
        r = accepted(x, 'layout %s' % show(g), d=d)
        if r and r.out != base.out:
            fail('inserting %s at token %d changes the generated code: %s' % (show(g), k, show(x)))
    for g in ['// end', '// a\rb', '// \x00 x', '/* \x00 */', '//', '/* end */', '//*', '\n\n', '//"', '// \\']:
        x = plain(t) + g
        r = accepted(x, 'ends with %s' % show(g), d=d)
        if r and r.out != base.out:
            fail('%s at the end changes the generated code: %s' % (show(g), show(x)))
    shutil.rmtree(d, ignore_errors=True)


STRAY = ['@', '#', '$', '.', '-', '+', '(', ')', "'", '\\', '*', ':', '!', '?', '&', '%', '^', '~', '`', '|', '/', '/ ', '*/', '\x00', '\x01', '\x7f', '\xe9', '\x0b', '\udcff', '\udc80']


def errors(i):
    s = rnd_schema(nmsg=2, nfld=3)
    t = s.tokens()
    for _ in range(4):
        k = R.randrange(len(t) + 1)
        c = R.choice(STRAY)
        refused(plain(t[:k]) + ' ' + c + ' ' + plain(t[k:]), 'stray %s' % show(c))
    k = R.randrange(len(t) + 1)
    for c in ['/*', '/* x *', '/*/', '/**', '/* // ', '/*\n', '/* "*" / ']:
        refused(plain(t[:k]) + c + plain(t[k:]), 'unterminated comment')
    for c in ['"', '"abc', '"abc\n', '"\x00"', '"a\nb"']:
        refused(plain(t[:k]) + c + '\n' + plain(t[k:]).replace('"', ''), 'unterminated string')
    q = [j for j, x in enumerate(t) if x[0] == '"']
    j = R.choice(q)
    refused(plain(t[:j]) + t[j][:-1] + '\n' + plain(t[j + 1:]), 'string without its closing quote')
    refused(plain(t[:j]) + t[j][:-1], 'string cut off by the end of the file')


def ends(i):
    """any bytes at all: the generator ends by itself, with an exit status of its own"""
    s = rnd_schema(nmsg=2, nfld=3)
    b = bytearray(layout(s.tokens(), 0.4).encode())
    k = R.randrange(4)
    if k == 0:
        b = b[:R.randrange(len(b) + 1)]
    elif k == 1:
        for _ in range(1 + R.randrange(3)):
            b[R.randrange(len(b))] = R.choice([R.randrange(256), ord(R.choice('"/*{};[]=\n\\'))])
    elif k == 2:
        a = R.randrange(len(b))
        del b[a:a + R.randrange(30)]
    else:
        b = bytearray(R.choice([ord(c) for c in ' \n/*"{}[];=,<>azA09._'] + [0, 255]) for _ in range(R.randrange(40)))
    b = bytes(b)
    note(b)
    r = run(b)
    if r.rc == 'hang':
        fail('the generator does not end: ' + show(b))
    elif not (isinstance(r.rc, int) and 0 <= r.rc <= 125):
        fail('the generator crashed (%s): %s' % (r.rc, show(b)))
    elif r.rc != 0 and not r.err.strip():
        fail('exit %d with no message: %s' % (r.rc, show(b)))


pmap(layouts, range(budget(16, 120)))
pmap(errors, range(budget(16, 120)))
pmap(ends, range(budget(300, 4000)))
for t in ['', '\n', '//', '/', '"', '/*', 'message', 'message A', 'message A {', 'message A { string', 'option', 'option a', 'option a =', 'syntax', 'syntax =', 'package', 'package a', 'package a.', 'message A { int32 a = 1 [', 'message A { int32 a = 1 [x', 'message A { int32 a = 1 [x=', 'message A { int32 a = 1 [x=1', 'message A { int32 a = 1 [x=1,', 'message A { int32 a = 1 [x=1]', 'a.', 'a..b', '.', '1', '1a', 'message A{int32 a=1;}//', 'message A{int32 a=1;}/']:
    note(t)
    r = run(t)
    if r.rc == 'hang' or not (isinstance(r.rc, int) and 0 <= r.rc <= 125):
        fail('the generator does not end properly (%s): %s' % (r.rc, show(t)))
finish()
