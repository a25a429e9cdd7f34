# P24: the generator fails loudly: exit status and diagnostics.
from gen import *
import signal, stat


def gen(args, **kw):
    d = dict(stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
    d.update(kw)
    try:
        p = subprocess.run([PROTOGEN] + args, **d)
        return p.returncode, p.stdout or b'', p.stderr or b''
    except subprocess.TimeoutExpired:
        return 'hang', b'', b''


def must_fail(what, args, **kw):
    note(what)
    rc, so, se = gen(args, **kw)
    if rc == 0:
        fail('%s: exit 0' % what)
    elif rc == 'hang' or rc < 0 or rc > 125:
        fail('%s: exit %s' % (what, rc))
    elif not se.strip() and kw.get('stderr') is None:
        fail('%s: exit %d with no message on standard error' % (what, rc))


GOOD = Schema('p', [M('A', [F('string', 'a', 1), F('int32', 'b', 2, 'repeated'), F('bytes', 'c', 3)])]).text()
BAD = ['message A { int32 a = 0; }', 'message A { Nope a = 1; }', 'message A { A a = 1; }', 'mesage A { }', 'message A {', '"', '/*', 'syntax = "proto2";', 'message A { int32 a = 1; int32 a = 2; }', 'option obfuscate_strings = 1;',
       'message A { int32 a = 1; string b = 1; }', 'message A { } message A { }', 'message A { int32 a = 1 [name = 3]; }', 'message A { int32 a = 1 [name = "b"]; int32 b = 2; }', 'message A { int32 a = 1 [transient = "x"]; }',
       'message A { ' + ''.join('int32 f%d = %d; ' % (i, i) for i in range(1, 66)) + '}', 'message A { enum E { } }', 'enum E { A = 0; }', 'import "x.proto";', 'message A { int32 a }', 'message A { map<string,string> m = 1; }', '@', 'message A { int32 message = 1', 'package ;',
       'syntax "proto3";', 'message { }', 'message A int32 a = 1; }', 'message A { int32 = 1; }', 'message A { int32 a 1; }', 'message A { int32 a = 1 }', 'message A { int32 a = 1 [deprecated]; }', 'option = 1;', 'option x 1;', 'option x = ;', 'option x = 1']
d = fresh_dir()
src = d + '/s.proto'
open(src, 'w').write(GOOD)
ref = d + '/ref.hh'
rc, so, se = gen([src, ref])
want = open(ref, 'rb').read() if os.path.exists(ref) else b''
if rc != 0 or len(want) < 1000:
    fail('valid schema: exit %s, %d bytes' % (rc, len(want)))
# the output depends on the schema alone
for k in range(4):
    o = d + '/again.hh'
    if k == 1:
        open(o, 'wb').write(b'x' * (len(want) + 5000))
    if k == 2:
        open(o, 'wb').write(b'short')
    kw = {}
    if k == 3:
        kw = dict(cwd='/', env=dict(E, LC_ALL='C.UTF-8', HOME='/nonexistent', TZ='Asia/Tokyo', MALLOC_PERTURB_='85'))
    rc, so, se = gen([src, o], **kw)
    note('again %d' % k)
    if rc != 0 or open(o, 'rb').read() != want:
        fail('running the generator again gives other bytes (case %d): exit %s' % (k, rc))
rc, so, se = gen([src])
note('stdout')
if rc != 0 or so != want:
    fail('writing to standard output: exit %s, %d bytes instead of %d' % (rc, len(so), len(want)))
rel = os.path.relpath(src, '/usr')
rc, so, se = gen([rel], cwd='/usr')
if rc != 0 or so != want:
    fail('relative path: exit %s, %d bytes instead of %d' % (rc, len(so), len(want)))
for i in range(budget(12, 100)):
    s = rnd_schema(nmsg=1 + R.randrange(6)).text()
    p = d + '/x%d.proto' % i
    open(p, 'w').write(s)
    a = gen([p])
    b = gen([p], env=dict(E, MALLOC_PERTURB_=str(1 + R.randrange(255))))
    c = gen([p, d + '/x.hh'])
    note(s)
    if a[0] != 0:
        fail('valid schema refused: %s: %s' % (show(a[2]), show(s)))
    elif b[1] != a[1] or open(d + '/x.hh', 'rb').read() != a[1]:
        fail('two runs give different code: ' + show(s))
# arguments
must_fail('no argument', [])
must_fail('three arguments', [src, d + '/o', d + '/p'])
must_fail('missing schema', [d + '/none.proto', d + '/o'])
must_fail('missing schema, standard output', [d + '/none.proto'])
must_fail('empty path', ['', d + '/o'])
must_fail('schema is a directory', [d, d + '/o'])
must_fail('schema is a directory, standard output', [d])
must_fail('output is a directory', [src, d])
must_fail('output in a missing directory', [src, d + '/none/o.hh'])
must_fail('path too long', [src, d + '/' + 'x' * 300])
os.symlink(d + '/loop', d + '/loop')
must_fail('schema is a symbolic link loop', [d + '/loop', d + '/o'])
must_fail('output is a symbolic link loop', [src, d + '/loop'])
if os.path.exists('/dev/full'):
    must_fail('output on a full disk', [src, '/dev/full'])
    with open('/dev/full', 'wb') as f:
        must_fail('standard output on a full disk', [src], stdout=f)
must_fail('standard output closed', [src], stdout=None, preexec_fn=lambda: os.close(1))
# a pipe whose reader has gone
r, w = os.pipe()
os.close(r)
must_fail('standard output is a broken pipe', [src], stdout=w, restore_signals=False, preexec_fn=lambda: signal.signal(signal.SIGPIPE, signal.SIG_IGN))
os.close(w)


# the disk fills up after n bytes
def full(n):
    o = d + '/full%d' % n

    def pre():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
    rc, so, se = gen([src, o], restore_signals=False, preexec_fn=pre)
    note('file size limit %d' % n)
    if n >= len(want):
        if rc != 0 or open(o, 'rb').read() != want:
            fail('room for %d bytes, %d needed: exit %s' % (n, len(want), rc))
    elif rc == 0:
        fail('only %d of %d bytes could be written: exit 0' % (n, len(want)))
    elif rc == 'hang' or rc < 0 or not se.strip():
        fail('only %d of %d bytes could be written: exit %s, message %s' % (n, len(want), rc, show(se)))
    if os.path.exists(o):
        os.unlink(o)


L = len(want)
pmap(full, sorted({0, 1, 100, 4095, 4096, 8191, 8192, 8193, L // 2, L - 4096, L - 2, L - 1, L, L + 1, L + 10000} | {R.randrange(L) for _ in range(budget(10, 200))}))
# refused schemas
for b in BAD:
    for t in (b, GOOD + b, b + '\n' + GOOD if b[0] not in '"/' and not b.endswith(('{', '1', 'x')) else b):
        p = d + '/bad.proto'
        open(p, 'w').write(t)
        must_fail('schema ' + show(t), [p, d + '/o'])
        must_fail('schema to standard output ' + show(t), [p])
finish()
