"""Build what a check needs from /repo's current working tree, in a scratch directory outside /repo."""
import os, re, subprocess, tempfile, shutil, concurrent.futures as cf

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = '/usr/lib/llvm-18/bin/clang++'


class BuildError(Exception):
    pass


def run(cmd, cwd=None, timeout=300, check=True, **kw):
    p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, errors='replace', **kw)
    if check and p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), (p.stdout + p.stderr)[-3000:]))
    return p


class Build:
    """lazily built products; everything lives in self.dir"""

    def __init__(self, jobs=8):
        self.dir = tempfile.mkdtemp(prefix='pgverif.')
        self.jobs = jobs
        self.inc = os.path.join(self.dir, '__include')
        self._done = set()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def p(self, *a):
        return os.path.join(self.dir, *a)

    def version(self):
        t = open(os.path.join(REPO, 'CMakeLists.txt')).read()
        v = {}
        for k in ('MAJOR', 'MINOR', 'PATCH'):
            m = re.search(r'set\s*\(\s*PROTOGEN_%s[A-Z_]*\s+"?(\d+)' % k, t) or re.search(r'%s[A-Z_]*\s+"?(\d+)' % k, t)
            v[k] = m.group(1) if m else '0'
        return v

    def embedded(self):
        """generate the embedded headers with the repository's own template tool"""
        if 'emb' in self._done:
            return
        os.makedirs(self.inc, exist_ok=True)
        v = self.version()
        num = '%s.%s.%s' % (v['MAJOR'], v['MINOR'], v['PATCH'])
        name = '_%s_%s_%s' % (v['MAJOR'], v['MINOR'], v['PATCH'])
        self.ver, self.vname = num, name
        t = open(REPO + '/source/cmake.hh.in').read()
        env = {'PROTOGEN_VERSION': num, 'PROTOGEN_VERSION_NAMING': name}
        env.update({'PROTOGEN_' + k: x for k, x in v.items()})
        cm = open(REPO + '/CMakeLists.txt').read()
        for m in re.finditer(r'@(\w+)@|\$\{(\w+)\}', t):
            k = m.group(1) or m.group(2)
            if k not in env:
                if 'MAJOR' in k: env[k] = v['MAJOR']
                elif 'MINOR' in k: env[k] = v['MINOR']
                elif 'PATCH' in k: env[k] = v['PATCH']
                elif 'NAMING' in k or 'NAME' in k: env[k] = name
                else: env[k] = num
        t = re.sub(r'@(\w+)@|\$\{(\w+)\}', lambda m: env[m.group(1) or m.group(2)], t)
        open(self.inc + '/cmake.hh', 'w').write(t)
        run(['g++', '-std=c++11', '-O0', '-I', self.inc, '-I', REPO + '/include', '-I', REPO + '/source',
             REPO + '/source/template.cc', '-o', self.p('template')])
        for src, dst in (('code.txt', 'auto-code.hh'), ('protogen.hh', 'auto-protogen.hh'), ('json.hh', 'auto-json.hh'),
                         ('json-array.hh', 'auto-json-array.hh'), ('json-base64.hh', 'auto-json-base64.hh'),
                         ('json-number.hh', 'auto-json-number.hh'), ('json-string.hh', 'auto-json-string.hh')):
            run([self.p('template'), REPO + '/source/cpp/' + src, self.inc + '/' + dst])
        self._done.add('emb')

    LIB = ('proto3.cc', 'printer.cc', 'exception.cc', 'cpp/cppgen.cc')

    def cxxflags(self):
        return ['-std=c++11', '-I', REPO + '/include', '-I', self.inc, '-I', REPO + '/source', '-DLINUX=1']

    def protogen(self):
        if 'gen' in self._done:
            return self.p('protogen')
        self.embedded()
        srcs = list(self.LIB) + ['main.cc']

        def one(s):
            o = self.p(s.replace('/', '_') + '.o')
            run(['g++', '-O1', '-c'] + self.cxxflags() + [REPO + '/source/' + s, '-o', o])
            return o
        with cf.ThreadPoolExecutor(self.jobs) as ex:
            objs = list(ex.map(one, srcs))
        run(['g++'] + objs + ['-o', self.p('protogen')])
        self.objs = objs
        self._done.add('gen')
        return self.p('protogen')

    def gen(self, proto, out=None, check=True):
        """run the generator on a schema"""
        self.protogen()
        out = out or self.p(os.path.basename(proto).replace('.proto', '.pg.hh'))
        r = run([self.p('protogen'), proto, out], timeout=60, check=check)
        return out

    def ir(self, src, name, flags=()):
        """LLVM IR of a translation unit, one instruction per source operation (-O0)"""
        o = self.p(name + '.ll')
        run([CLANG, '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-S', '-emit-llvm', '-fno-discard-value-names',
             '-I', self.dir, '-I', HERE + '/harness'] + self.cxxflags() + list(flags) + [src, '-o', o])
        return o

    def exe(self, src, name, flags=('-O1',), cxx='g++', extra=()):
        o = self.p(name)
        run([cxx] + list(flags) + ['-I', self.dir, '-I', HERE + '/harness'] + self.cxxflags() + [src] + list(extra) + ['-o', o])
        return o

    # ------------------------------------------------------------------ what a check asks for
    SCHEMAS = ('all', 'obf', 'num', 'wide')

    def prepare(self, units):
        """generate the headers and the IR; returns what went wrong with the generator, if anything"""
        self.unit_err = {}
        for s in self.SCHEMAS:
            try:
                r = run([self.protogen(), HERE + '/schemas/%s.proto' % s, self.p(s + '.pg.hh')], timeout=60, check=False)
            except subprocess.TimeoutExpired:
                return 'protogen schemas/%s.proto does not end' % s
            if r.returncode != 0 or not os.path.exists(self.p(s + '.pg.hh')):
                return 'protogen schemas/%s.proto: exit %d\n%s' % (s, r.returncode, (r.stdout + r.stderr)[-2000:])

        def one(u):
            try:
                self.make_unit(u)
            except (BuildError, subprocess.TimeoutExpired) as e:
                self.unit_err[u] = str(e)
        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(one, units))
        return None

    def make_unit(self, u):
        if u == 'rt':
            return self.ir(HERE + '/harness/rt_ir.cc', 'rt', ['-Dprotogen_VERIF=protogen' + self.vname])
        src = {'proto3': 'proto3.cc', 'printer': 'printer.cc', 'cppgen': 'cpp/cppgen.cc', 'main': 'main.cc', 'exception': 'exception.cc'}[u]
        if u == 'proto3':       # values of the macros the contracts name
            r = run([CLANG, '-E', '-dM'] + self.cxxflags() + [REPO + '/source/' + src])
            open(self.p(u + '.ll.macros'), 'w').write('\n'.join(l for l in r.stdout.split('\n') if re.match(r'#define TOKEN_\w+ ', l)))
        return self.ir(REPO + '/source/' + src, u, ['-fstandalone-debug'])

    def unit_path(self, u):
        if u in getattr(self, 'unit_err', {}):
            raise BuildError(self.unit_err[u])
        if not os.path.exists(self.p(u + '.ll')):
            raise BuildError('no IR for ' + u)
        return self.p(u + '.ll')

    def probe(self, name):
        """(command, environment) of a probe"""
        env = {'PROTOGEN': self.p('protogen'), 'SCRATCH': self.p('probe_' + name), 'VF_INC': self.dir, 'VF_REPO': REPO,
               'VF_NS': 'protogen' + self.vname, 'VF_HARNESS': HERE + '/harness', 'VF_SCHEMAS': HERE + '/schemas',
               'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1', 'UBSAN_OPTIONS': 'halt_on_error=1:print_stacktrace=0'}
        os.makedirs(env['SCRATCH'], exist_ok=True)
        py = HERE + '/harness/%s.py' % name
        if os.path.exists(py):
            import sys
            return [sys.executable, py], env
        src = HERE + '/harness/%s.cc' % name
        flags, cxx = ['-O1', '-w'], 'g++'
        for l in open(src).read().split('\n')[:6]:
            m = re.match(r'// flags: (.*)$', l)
            if m:
                flags = m.group(1).split()
            m = re.match(r'// cxx: (.*)$', l)
            if m:
                cxx = m.group(1).strip()
        if cxx == 'clang++':
            cxx = CLANG
        return [self.exe(src, 'p_' + name, flags + ['-Dprotogen_VERIF=protogen' + self.vname], cxx)], env
