"""Common parts of the probes of the generator: random schemas, layouts, running protogen, compiling its output."""
import os, sys, random, threading, itertools, subprocess, shutil, resource, concurrent.futures as cf, hashlib

SEED = int(sys.argv[1]) if len(sys.argv) > 1 else 1
TIER = int(sys.argv[2]) if len(sys.argv) > 2 else 0


class _Local(threading.local):
    rng = None


_L = _Local()
_MAIN = random.Random(SEED * 1000003 + 17)


class _R:
    """one random sequence per task, so that a run depends on the seed alone"""
    def __getattr__(self, n):
        return getattr(_L.rng or _MAIN, n)


R = _R()
E = os.environ
PROTOGEN, SCRATCH, INC, REPO, NS, HARN = (E[k] for k in ('PROTOGEN', 'SCRATCH', 'VF_INC', 'VF_REPO', 'VF_NS', 'VF_HARNESS'))
os.makedirs(SCRATCH, exist_ok=True)
cases, fails, seen, samples = 0, 0, set(), []


def budget(q, d):
    return d if TIER else q


def show(b, n=600):
    if isinstance(b, str):
        b = b.encode('utf-8', 'surrogateescape')
    s = ''.join(chr(c) if 32 <= c < 127 and c != 92 else '\\n' if c == 10 else '\\x%02x' % c for c in b[:n])
    return s + ('...(%d bytes)' % len(b) if len(b) > n else '')


def note(key):
    global cases
    cases += 1
    if isinstance(key, str):
        key = key.encode('utf-8', 'surrogateescape')
    seen.add(hashlib.md5(key).digest())
    if len(samples) < 5 and cases % 37 == 1:
        samples.append(show(key, 200))


def fail(what):
    global fails
    fails += 1
    if fails <= 20:
        print('FAIL ' + what.replace('\n', '\\n'))
        sys.stdout.flush()


def finish():
    print('CASES %d' % cases)
    print('DISTINCT %d' % len(seen))
    for s in samples:
        print('SAMPLE ' + s)
    sys.exit(1 if fails else 0)


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Run:
    def __init__(self, rc, out, err, so):
        self.rc, self.out, self.err, self.stdout = rc, out, err, so

    @property
    def ok(self):
        return self.rc == 0

    def __str__(self):
        return 'exit %s, %s' % (self.rc, show(self.err, 200))


_n = itertools.count()


def fresh_dir():
    d = os.path.join(SCRATCH, 'r%d' % next(_n))
    os.makedirs(d)
    return d


def run(text, fname='s.proto', keep=False, d=None, out='out.hh'):
    """the generator on one schema; rc is 'hang' when it does not end"""
    if isinstance(text, str):
        text = text.encode('utf-8', 'surrogateescape')
    mine = d is None
    d = d or fresh_dir()
    src = os.path.join(d, fname)
    with open(src, 'wb') as f:
        f.write(text)
    dst = os.path.join(d, out)
    try:
        p = subprocess.run([PROTOGEN, src, dst], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20, preexec_fn=_limits)
        rc, err, so = p.returncode, p.stderr, p.stdout
    except subprocess.TimeoutExpired as e:
        rc, err, so = 'hang', b'', b''
    o = open(dst, 'rb').read() if os.path.exists(dst) else None
    r = Run(rc, o, err, so)
    r.dir, r.path, r.src = d, dst, src
    if not keep and mine:
        shutil.rmtree(d, ignore_errors=True)
    return r


def refused(text, why, **kw):
    note(text)
    r = run(text, **kw)
    if r.rc == 'hang':
        fail('%s: the generator does not end: %s' % (why, show(text)))
    elif r.rc == 0:
        fail('%s: accepted: %s' % (why, show(text)))
    elif not isinstance(r.rc, int) or r.rc < 0 or r.rc > 125:
        fail('%s: the generator crashed (%s): %s' % (why, r.rc, show(text)))
    elif not r.err.strip():
        fail('%s: exit %d with no message: %s' % (why, r.rc, show(text)))
    return r


def accepted(text, why='valid schema', keep=False, **kw):
    note(text)
    r = run(text, keep=keep, **kw)
    if r.rc == 'hang':
        fail('%s: the generator does not end: %s' % (why, show(text)))
    elif r.rc != 0:
        fail('%s: refused (%s): %s' % (why, r, show(text)))
    elif r.out is None or len(r.out) < 100:
        fail('%s: no output: %s' % (why, show(text)))
    else:
        return r
    return None


def pmap(f, xs):
    def g(a):
        _L.rng = random.Random('%d %s %d' % (SEED, f.__name__, a[0]))
        return f(a[1])
    with cf.ThreadPoolExecutor(6) as ex:
        return list(ex.map(g, enumerate(xs)))


# ---------------------------------------------------------------- C++ from generated headers
def compile_run(src, name, dirs, flags=('-O0', '-w'), run=True, syntax=False):
    """-> (stage, text): stage is 'compile', 'run' or 'ok'"""
    c = os.path.join(SCRATCH, name + '.cc')
    with open(c, 'w', encoding='utf-8', errors='surrogateescape') as f:
        f.write(src)
    exe = os.path.join(SCRATCH, name + '.exe')
    cmd = ['g++', '-std=c++11'] + list(flags) + ['-Dprotogen_VERIF=' + NS, '-I', HARN] + sum((['-I', d] for d in dirs), []) + [c] + (['-fsyntax-only'] if syntax else ['-o', exe])
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        return 'compile', p.stdout.decode('utf-8', 'replace')
    if syntax or not run:
        return 'ok', ''
    try:
        p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    except subprocess.TimeoutExpired:
        return 'run', 'does not end'
    t = p.stdout.decode('utf-8', 'replace')
    return ('ok' if p.returncode == 0 else 'run'), t


def cstr(b):
    """C++ expression for the bytes"""
    if isinstance(b, str):
        b = b.encode('utf-8', 'surrogateescape')
    return 'std::string("%s", %d)' % (''.join('\\%03o' % c for c in b), len(b))


# ---------------------------------------------------------------- schemas
SCALARS = ['double', 'float', 'int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'fixed32', 'fixed64', 'sfixed32', 'sfixed64', 'bool', 'string']
CTYPE = {'double': 'double', 'float': 'float', 'int32': 'int32_t', 'int64': 'int64_t', 'uint32': 'uint32_t', 'uint64': 'uint64_t', 'sint32': 'int32_t', 'sint64': 'int64_t',
         'fixed32': 'uint32_t', 'fixed64': 'uint64_t', 'sfixed32': 'int32_t', 'sfixed64': 'int64_t', 'bool': 'bool'}
CPP = set('''alignas alignof and and_eq asm auto bitand bitor bool break case catch char char16_t char32_t class compl const constexpr const_cast continue decltype default delete do
double dynamic_cast else enum explicit export extern false float for friend goto if inline int long mutable namespace new noexcept not not_eq nullptr operator or or_eq private
protected public register reinterpret_cast return short signed sizeof static static_assert static_cast struct switch template this thread_local throw true try typedef typeid
typename union unsigned using virtual void volatile wchar_t while xor xor_eq std linux unix NULL EOF errno'''.split())
KEYW = set('repeated string enum double float bool int32 int64 uint32 uint64 sint32 sint64 fixed32 fixed64 sfixed32 sfixed64 bytes syntax map option true false optional message package'.split())
IDC = 'abcdefghijklmnopqrstuvwxyz'


def ident(n=None, first=IDC):
    while True:
        k = n or R.choice([1, 2, 3, 5, 8, 13])
        s = R.choice(first) + ''.join(R.choice(IDC + IDC.upper() + '0123456789_') for _ in range(k - 1))
        if s in CPP or s in KEYW or '__' in s or (s[0] == '_'):
            continue
        return s


def names(k, **kw):
    out = []
    while len(out) < k:
        s = ident(**kw)
        if s not in out:
            out.append(s)
    return out


class F:
    def __init__(self, type, name, num, label='', opts=()):
        self.type, self.name, self.num, self.label, self.opts = type, name, num, label, list(opts)


class M:
    def __init__(self, name, fields):
        self.name, self.fields = name, fields


class Schema:
    def __init__(self, package='', messages=(), options=()):
        self.package, self.messages, self.options = package, list(messages), list(options)

    def tokens(self):
        t = ['syntax', '=', '"proto3"', ';']
        if self.package:
            t += ['package', self.package, ';']
        for k, v in self.options:
            t += ['option', k, '=', v, ';']
        for m in self.messages:
            t += ['message', m.name, '{']
            for f in m.fields:
                if f.label:
                    t.append(f.label)
                t += [f.type, f.name, '=', str(f.num)]
                if f.opts:
                    t.append('[')
                    for i, (k, v) in enumerate(f.opts):
                        if i:
                            t.append(',')
                        t += [k, '=', v]
                    t.append(']')
                t.append(';')
            t.append('}')
        return t

    def text(self):
        return plain(self.tokens())


def plain(toks):
    o = ''
    for t in toks:
        o += t + ('\n' if t in (';', '{', '}') else ' ')
    return o


def wordish(c):
    return c.isalnum() or c in '_."'


WS = [' ', '  ', '\t', '\n', '\r\n', '\n\n', ' \t ', '\r']
CM = ['', 'x', '*', '**', ' * ', '/', '//', '/*', '"', '" a', '\\', '$1$', '\u00e9', 'message A {', ';', '}', '***', '* /', '\'', '@#!', ' text with "quotes" and { } ; ', '\t', '-- ']


def gap(last=False):
    """one piece of layout"""
    k = R.randrange(6)
    if k < 3:
        return R.choice(WS)
    if k == 3:
        return '//' + ''.join(R.choice(CM) for _ in range(R.randrange(4))) + ('\n' if not last else R.choice(['\n', '', '\r\n']))
    c = ''.join(R.choice(CM + ['\n', '\r\n']) for _ in range(R.randrange(5)))
    c = c.replace('*/', '* ')
    if c.endswith('/') and False:
        c += ' '
    return '/*' + c + '*/'


def layout(toks, p=0.6):
    o = ''
    for i, t in enumerate(toks):
        g = ''
        while R.random() < p:
            g += gap()
        if not g and o and wordish(o[-1]) and wordish(t[0]):
            g = R.choice(WS)
        o += g + t
    while R.random() < p:
        o += gap()
    if R.random() < 0.3:
        o += '//' + R.choice(CM).replace('\n', '')
    return o


def rnd_schema(nmsg=4, nfld=6, pkg=None, options=True, plainnames=True):
    ms = names(nmsg, first=IDC.upper())
    out = []
    for i, n in enumerate(ms):
        k = R.randrange(nfld + 1)
        fn = names(k)
        nums = R.sample(list(range(1, 60)) + [18999, 20000, 536870911], k)
        fs = []
        for a, b in zip(fn, nums):
            t = R.choice(SCALARS + ['bytes'] + ms[:i] * 2) if i else R.choice(SCALARS + ['bytes'])
            o = []
            if R.random() < 0.2:
                o.append(('transient', R.choice(['true', 'false'])))
            if R.random() < 0.2:
                o.append(('name', '"%s %s"' % (a, R.choice(['x', 'y', '$1$', '']))))
            fs.append(F(t, a, b, R.choice(['', '', 'repeated', 'optional']), o))
        out.append(M(n, fs))
    R.shuffle(out)
    o = []
    if options:
        for k in ('number_names', 'obfuscate_strings', 'cpp_use_lists'):
            if R.random() < 0.25:
                o.append((k, R.choice(['true', 'false'])))
    return Schema(R.choice(['', 'p', 'a.b', 'x_1.yy.z']) if pkg is None else pkg, out, o)
