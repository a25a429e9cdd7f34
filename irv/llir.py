"""Parser for the textual LLVM IR clang-18 writes (the subset that -O0 C++ uses).

Function bodies are parsed on demand.  Nothing is dropped silently: an
instruction outside the subset becomes an Instr with op 'unsupported', and the
executor refuses a path that reaches one.
"""
import re, subprocess

_tok = re.compile(r'''
   (?P<ws>\s+)
 | (?P<cstr>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<loc>%(?:"(?:[^"])*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"(?:[^"])*"|[-a-zA-Z$._0-9]+))
 | (?P<md>!(?:[-a-zA-Z$._0-9]+|"(?:[^"])*")?)
 | (?P<attr>\#[0-9]+)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<fp>[-+]?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?)
 | (?P<num>-?[0-9]+)
 | (?P<str>"(?:[^"])*")
 | (?P<word>[a-zA-Z_][-a-zA-Z_0-9.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


class IRError(Exception):
    pass


def lex(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        if s[pos] == ';':
            break
        m = _tok.match(s, pos)
        if not m:
            raise IRError('lex: %r' % s[pos:pos + 40])
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group(k)))
        pos = m.end()
    return out


PARAM_ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly', 'writeonly',
               'returned', 'immarg', 'nofree', 'readnone', 'noreturn', 'inreg', 'nest', 'swiftself', 'allocptr',
               'allocalign', 'mustprogress', 'nofpclass', 'nounwind', 'dead_on_unwind', 'writable'}
CCS = {'fastcc', 'ccc', 'coldcc', 'tail', 'musttail', 'notail', 'dso_local', 'dso_preemptable', 'local_unnamed_addr',
       'unnamed_addr', 'internal', 'linkonce_odr', 'weak_odr', 'private', 'weak', 'external', 'hidden', 'protected',
       'available_externally', 'linkonce', 'common', 'constant', 'global', 'thread_local', 'fast', 'nnan', 'ninf',
       'nsz', 'arcp', 'contract', 'afn', 'reassoc'}


class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def at(self, v):
        return self.peek()[1] == v and self.peek()[0] != 'str'

    def eat(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False

    def need(self, v):
        if not self.eat(v):
            raise IRError('expected %r at %r' % (v, self.t[self.i:self.i + 6]))

    # ---- types
    def type(self):
        k, v = self.next()
        if k == 'word':
            if re.fullmatch(r'i\d+', v):
                t = ('i', int(v[1:]))
            elif v in ('ptr', 'void', 'float', 'double', 'metadata', 'label', 'x86_fp80', 'token', 'opaque', 'half'):
                t = v
            else:
                raise IRError('type %r' % v)
        elif k == 'loc':
            t = ('named', unq(v))
        elif v == '[':
            n = int(self.next()[1])
            self.need('x')
            e = self.type()
            self.need(']')
            t = ('arr', n, e)
        elif v == '{':
            t = ('struct', self._types('}'), False)
        elif v == '<':
            if self.at('{'):
                self.next()
                ts = self._types('}')
                self.need('>')
                t = ('struct', ts, True)
            else:
                n = int(self.next()[1])
                self.need('x')
                e = self.type()
                self.need('>')
                t = ('vec', n, e)
        else:
            raise IRError('type at %r' % (v,))
        while self.at('('):      # function type
            d = 0
            while True:
                x = self.next()[1]
                d += (x == '(') - (x == ')')
                if d == 0:
                    break
            t = ('fn', t)
        return t

    def _types(self, end):
        ts = []
        if self.eat(end):
            return tuple(ts)
        while True:
            ts.append(self.type())
            if self.eat(end):
                return tuple(ts)
            self.need(',')

    def attrs(self):
        """skip parameter attributes, return a dict of the interesting ones"""
        r = {}
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS:
                self.next()
            elif k == 'word' and v in ('align', ) and self.peek(1)[0] == 'num':
                self.next()
                self.next()
            elif k == 'word' and v in ('dereferenceable', 'dereferenceable_or_null', 'align', 'nofpclass', 'memory',
                                       'allocsize', 'range'):
                self.next()
                self.need('(')
                n = self.next()[1]
                while not self.eat(')'):
                    self.next()
                r[v] = n
            elif k == 'word' and v in ('sret', 'byval', 'byref', 'preallocated', 'inalloca', 'elementtype'):
                self.next()
                self.need('(')
                r[v] = self.type()
                self.need(')')
            elif k == 'attr':
                self.next()
            else:
                return r

    # ---- values
    def value(self, ty):
        k, v = self.next()
        if k == 'loc':
            return ('loc', unq(v))
        if k == 'glob':
            return ('glob', unq(v))
        if k == 'num':
            if ty in ('float', 'double'):
                return ('fp', float(v), ty)
            return ('int', int(v), ty)
        if k == 'fp':
            return ('fp', float(v), ty)
        if k == 'hex':
            return ('fphex', v, ty)
        if k == 'cstr':
            return ('cstr', cbytes(v))
        if k == 'word':
            if v == 'true':
                return ('int', 1, ty)
            if v == 'false':
                return ('int', 0, ty)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef', ty)
            if v == 'zeroinitializer':
                return ('zero', ty)
            if v == 'none':
                return ('null',)
            if v == 'getelementptr':
                while self.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                    self.next()
                if self.at('inrange'):
                    self.next()
                    self.need('(')
                    while not self.eat(')'):
                        self.next()
                self.need('(')
                bt = self.type()
                self.need(',')
                ops = []
                while True:
                    self.eat('inrange')
                    t = self.type()
                    ops.append((t, self.value(t)))
                    if self.eat(')'):
                        break
                    self.need(',')
                return ('cgep', bt, ops)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'addrspacecast'):
                self.need('(')
                t = self.type()
                x = self.value(t)
                self.need('to')
                t2 = self.type()
                self.need(')')
                return ('ccast', v, t, x, t2)
            if v in ('sub', 'add', 'xor', 'mul'):
                while self.peek()[1] in ('nuw', 'nsw'):
                    self.next()
                self.need('(')
                t = self.type()
                a = self.value(t)
                self.need(',')
                t2 = self.type()
                b = self.value(t2)
                self.need(')')
                return ('cbin', v, t, a, b)
            if v in ('dso_local_equivalent', 'no_cfi'):
                return self.value(ty)
            raise IRError('value word %r' % v)
        if v in ('{', '['):
            end = {'{': '}', '[': ']'}[v]
            items = []
            if self.eat(end):
                return ('agg', items)
            while True:
                t = self.type()
                items.append((t, self.value(t)))
                if self.eat(end):
                    return ('agg', items)
                self.need(',')
        if v == '<':
            if self.eat('{'):
                items = []
                if not self.eat('}'):
                    while True:
                        t = self.type()
                        items.append((t, self.value(t)))
                        if self.eat('}'):
                            break
                        self.need(',')
                self.need('>')
                return ('agg', items)
        raise IRError('value %r' % (v,))

    def tv(self):
        t = self.type()
        self.attrs()
        if t == 'metadata':
            # skip anything up to , or )
            d = 0
            while True:
                x = self.peek()[1]
                if d == 0 and x in (',', ')'):
                    break
                d += (x == '(') - (x == ')')
                self.next()
            return (t, ('undef', t))
        return (t, self.value(t))


def unq(v):
    v = v[1:]
    if v.startswith('"'):
        v = v[1:-1]
    return v


def cbytes(v):
    s = v[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('latin-1')
            i += 1
    return bytes(out)


class Instr:
    __slots__ = ('op', 'dst', 'a', 'dbg', 'text')

    def __init__(self, op, dst, a, dbg, text):
        self.op, self.dst, self.a, self.dbg, self.text = op, dst, a, dbg, text

    def __repr__(self):
        return self.text


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
        'bitcast', 'addrspacecast'}


def parse_call(p):
    while p.peek()[1] in CCS:
        p.next()
    p.attrs()
    while p.peek()[1] in CCS:
        p.next()
    rt = p.type()
    k, v = p.peek()
    if k not in ('loc', 'glob'):
        raise IRError('callee')
    callee = p.value('ptr')
    p.need('(')
    args = []
    if not p.eat(')'):
        while True:
            t = p.type()
            at = p.attrs()
            if t == 'metadata':
                d = 0
                while True:
                    x = p.peek()[1]
                    if d == 0 and x in (',', ')'):
                        break
                    d += (x == '(') - (x == ')')
                    p.next()
                args.append((t, ('undef', t), at))
            else:
                args.append((t, p.value(t), at))
            if p.eat(')'):
                break
            p.need(',')
    if isinstance(rt, tuple) and rt[0] == 'fn':
        rt = rt[1]
    return rt, callee, args


_dbg = re.compile(r', !dbg !(\d+)')


def parse_instr(line):
    text = line.strip()
    dbg = None
    m = _dbg.search(text)
    if m:
        dbg = int(m.group(1))
    p = P(lex(text))
    dst = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        dst = unq(p.next()[1])
        p.next()
    op = p.next()[1]

    def mk(*a):
        return Instr(op, dst, a, dbg, text)
    try:
        if op == 'alloca':
            p.eat('inalloca')
            t = p.type()
            n = None
            if p.eat(','):
                if p.peek()[1] != 'align':
                    n = p.tv()
            return mk(t, n)
        if op == 'load':
            p.eat('atomic')
            p.eat('volatile')
            t = p.type()
            p.need(',')
            return mk(t, p.tv())
        if op == 'store':
            p.eat('atomic')
            p.eat('volatile')
            tv = p.tv()
            p.need(',')
            return mk(tv, p.tv())
        if op == 'getelementptr':
            inb = False
            while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                inb = True
                p.next()
            t = p.type()
            p.need(',')
            base = p.tv()
            idx = []
            while p.eat(','):
                if p.peek()[0] == 'md':
                    break
                idx.append(p.tv())
            return mk(t, base, idx, inb)
        if op in BIN:
            flags = set()
            while p.peek()[1] in ('nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn',
                                  'reassoc', 'disjoint'):
                flags.add(p.next()[1])
            t, a = p.tv()
            p.need(',')
            return mk(t, a, p.value(t), flags)
        if op == 'fneg':
            return mk(*p.tv())
        if op in CAST:
            if p.peek()[1] == 'nneg':
                p.next()
            t, a = p.tv()
            p.need('to')
            return mk(t, a, p.type())
        if op in ('icmp', 'fcmp'):
            pred = p.next()[1]
            while pred in ('fast', 'nnan', 'ninf', 'nsz', 'samesign'):
                pred = p.next()[1]
            t, a = p.tv()
            p.need(',')
            return mk(pred, t, a, p.value(t))
        if op == 'br':
            if p.eat('label'):
                return mk(None, unq(p.next()[1]), None)
            t, c = p.tv()
            p.need(',')
            p.need('label')
            a = unq(p.next()[1])
            p.need(',')
            p.need('label')
            return mk(c, a, unq(p.next()[1]))
        if op == 'switch':
            t, v = p.tv()
            p.need(',')
            p.need('label')
            d = unq(p.next()[1])
            p.need('[')
            cases = []
            while not p.eat(']'):
                t2, cv = p.tv()
                p.need(',')
                p.need('label')
                cases.append((cv[1], unq(p.next()[1])))
            return mk(t, v, d, cases)
        if op == 'ret':
            if p.eat('void'):
                return mk(None)
            return mk(p.tv())
        if op == 'unreachable':
            return mk()
        if op == 'phi':
            t = p.type()
            inc = []
            while True:
                p.need('[')
                v = p.value(t)
                p.need(',')
                lab = unq(p.next()[1])
                p.need(']')
                inc.append((v, lab))
                if not p.eat(',') or p.peek()[0] == 'md':
                    break
            return mk(t, inc)
        if op == 'select':
            c = p.tv()
            p.need(',')
            a = p.tv()
            p.need(',')
            return mk(c, a, p.tv())
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()[1]
        if op == 'call':
            return Instr('call', dst, parse_call(p), dbg, text)
        if op == 'invoke':
            rt, c, args = parse_call(p)
            p.attrs()
            p.need('to')
            p.need('label')
            ok = unq(p.next()[1])
            p.need('unwind')
            p.need('label')
            return mk(rt, c, args, ok, unq(p.next()[1]))
        if op == 'extractvalue':
            tv = p.tv()
            idx = []
            while p.eat(','):
                if p.peek()[0] == 'md':
                    break
                idx.append(int(p.next()[1]))
            return mk(tv, idx)
        if op == 'insertvalue':
            tv = p.tv()
            p.need(',')
            v = p.tv()
            idx = []
            while p.eat(','):
                if p.peek()[0] == 'md':
                    break
                idx.append(int(p.next()[1]))
            return mk(tv, v, idx)
        if op == 'landingpad':
            t = p.type()
            cleanup = False
            clauses = []
            while p.peek()[0] is not None and p.peek()[0] != 'md' and p.peek()[1] != ',':
                w = p.next()[1]
                if w == 'cleanup':
                    cleanup = True
                elif w == 'catch':
                    clauses.append(p.tv())
                elif w == 'filter':
                    p.tv()
            return mk(t, cleanup, clauses)
        if op == 'resume':
            return mk(p.tv())
        if op == 'freeze':
            return mk(*p.tv())
    except IRError as e:
        return Instr('unsupported', dst, (op, str(e)), dbg, text)
    return Instr('unsupported', dst, (op, 'opcode'), dbg, text)


class Function:
    def __init__(self, mod, name, header, lines):
        self.mod, self.name, self.header = mod, name, header
        self._lines = lines
        self._blocks = None
        self._sig()

    def _sig(self):
        h = self.header
        i = h.index('@' + ('"' if ('@"' + self.name) in h else '') + self.name)
        p = P(lex(h[h.index('define') + 6:] if h.startswith('define') else h[7:]))
        while True:
            k, v = p.peek()
            if v in CCS or (k == 'word' and v in ('comdat',)):
                p.next()
                continue
            break
        p.attrs()
        while p.peek()[1] in CCS:
            p.next()
        p.attrs()
        self.ret = p.type()
        p.next()   # name
        p.need('(')
        self.params = []
        self.vararg = False
        if not p.eat(')'):
            while True:
                if p.eat('...'):
                    self.vararg = True
                    p.need(')')
                    break
                t = p.type()
                at = p.attrs()
                nm = None
                if p.peek()[0] == 'loc':
                    nm = unq(p.next()[1])
                self.params.append((t, nm, at))
                if p.eat(')'):
                    break
                p.need(',')
        m = re.search(r'!dbg !(\d+)', h[i:])
        self.dbg = int(m.group(1)) if m else None

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks

    def _parse(self):
        blocks = {}
        cur = None
        order = []
        lines = self._lines
        # join multi-line switch / landingpad / invoke
        joined = []
        i = 0
        while i < len(lines):
            l = lines[i]
            s = l.strip()
            if s.startswith('switch ') and s.endswith('['):
                while not lines[i].strip().startswith(']'):
                    i += 1
                    s += ' ' + lines[i].strip()
                joined.append('  ' + s)
            elif re.match(r'\s+(%\S+ = )?invoke ', l):
                i += 1
                joined.append(l + ' ' + lines[i].strip())
            elif ' = landingpad ' in l:
                while i + 1 < len(lines) and re.match(r'\s+(cleanup|catch|filter)\b', lines[i + 1]):
                    i += 1
                    s += ' ' + lines[i].strip()
                joined.append('  ' + s)
            else:
                joined.append(l)
            i += 1
        for l in joined:
            if not l.strip():
                continue
            m = re.match(r'^("?)([-a-zA-Z$._0-9<>:~ ,*&()]+)\1:', l)
            if m and not l.startswith(' '):
                cur = m.group(2)
                blocks[cur] = []
                order.append(cur)
                continue
            if cur is None:
                cur = 'entry'
                # unnamed entry block: numbered after params
                blocks[cur] = []
                order.append(cur)
            if l.strip().startswith(';'):
                continue
            blocks[cur].append(parse_instr(l))
        self._blocks = blocks
        self.order = order
        self.entry = order[0]
        self._loops()

    def succs(self, b):
        i = self._blocks[b][-1]
        if i.op == 'br':
            return [i.a[1]] if i.a[0] is None else [i.a[1], i.a[2]]
        if i.op == 'switch':
            return [i.a[2]] + [c[1] for c in i.a[3]]
        if i.op == 'invoke':
            return [i.a[3], i.a[4]]
        return []

    def _loops(self):
        succ = {b: self.succs(b) for b in self._blocks}
        # reachable, rpo
        seen = set()
        post = []
        stack = [(self.entry, iter(succ[self.entry]))]
        seen.add(self.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                post.append(b)
                stack.pop()
        rpo = post[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                preds[s].append(b)
        self.rpo, self.preds = idx, preds
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for q in preds[b]:
                    if q in idom:
                        if new is None:
                            new = q
                        else:
                            x, y = q, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        self.loops = {}
        self.irreducible = False
        for b in rpo:
            for s in succ[b]:
                if idx[s] <= idx[b]:
                    if not dom(s, b):
                        self.irreducible = True
                        continue
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(preds[x])


class Module:
    def __init__(self, path):
        self.path = path
        s = open(path, encoding='latin-1').read()
        lines = s.split('\n')
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.md = {}
        self._tc = {}
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                name = m.group(1).strip('"')
                self.funcs[name] = (l, i + 1, j)
                i = j
            elif l.startswith('%'):
                m = re.match(r'^(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', l)
                self.types[unq(m.group(1))] = m.group(2)
            elif l.startswith('@'):
                m = re.match(r'^(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', l)
                self.globals[unq(m.group(1))] = m.group(2)
            elif l.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                self.decls[m.group(1).strip('"')] = l
            elif l.startswith('!'):
                m = re.match(r'^!(\d+) = (.*)$', l)
                if m:
                    self.md[int(m.group(1))] = m.group(2)
            i += 1
        self._lines = lines
        self._f = {}
        self._d = {}
        self._g = {}
        names = list(self.funcs) + list(self.decls) + list(self.globals)
        out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        self.dem = dict(zip(names, out))
        self._members = None

    def demangle(self, n):
        return self.dem.get(n, n)

    def func(self, name):
        if name not in self._f:
            if name not in self.funcs:
                return None
            h, a, b = self.funcs[name]
            self._f[name] = Function(self, name, h, self._lines[a:b])
        return self._f[name]

    def find(self, rx):
        r = re.compile(rx)
        return [n for n in self.funcs if r.search(self.dem[n])]

    def find1(self, rx):
        f = self.find(rx)
        if len(f) != 1:
            raise KeyError('%d functions match %s: %s' % (len(f), rx, [self.dem[x] for x in f][:4]))
        return f[0]

    def global_init(self, name):
        """(is_constant, type, value or None)"""
        if name not in self._g:
            t = self.globals.get(name)
            if t is None:
                return None
            p = P(lex(t))
            ext = const = False
            while True:
                k, v = p.peek()
                if v == 'external':
                    ext = True
                if v == 'constant':
                    const = True
                    p.next()
                    break
                if v == 'global':
                    p.next()
                    break
                p.next()
            ty = p.type()
            val = None
            if not ext and p.peek()[0] is not None and p.peek()[1] != ',':
                val = p.value(ty)
            self._g[name] = (const, ty, val)
        return self._g[name]

    # ---- layout
    def resolve(self, t):
        while isinstance(t, tuple) and t[0] == 'named':
            n = t[1]
            if n not in self._tc:
                p = P(lex(self.types[n]))
                self._tc[n] = p.type()
            t = self._tc[n]
        return t

    def sizeof(self, t):
        return self.layout(t)[0]

    def layout(self, t):
        t = self.resolve(t)
        if t == 'ptr' or t == 'double':
            return 8, 8, None
        if t == 'float':
            return 4, 4, None
        if t == 'x86_fp80':
            return 16, 16, None
        if t[0] == 'i':
            s = {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t[1], (t[1] + 7) // 8)
            return s, s, None
        if t[0] == 'arr':
            s, a, _ = self.layout(t[2])
            return s * t[1], a, None
        if t[0] == 'struct':
            off = 0
            al = 1
            offs = []
            for e in t[1]:
                s, a, _ = self.layout(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            return off, al, offs
        raise IRError('layout %r' % (t,))

    # ---- debug info
    def line_of(self, dbg):
        if dbg is None:
            return None
        m = re.search(r'line: (\d+)', self.md.get(dbg, ''))
        return int(m.group(1)) if m else None

    def file_of(self, fn):
        if fn.dbg is None:
            return None
        m = re.search(r'file: !(\d+)', self.md.get(fn.dbg, ''))
        if not m:
            return None
        m = re.search(r'filename: "([^"]*)"', self.md.get(int(m.group(1)), ''))
        return m.group(1) if m else None

    def members(self, ident):
        """offset in bytes of each data member of the class whose linkage identifier matches ident (a regex),
        base-class members not included"""
        if self._members is None:
            self._members = {}
            for k, v in self.md.items():
                if 'DICompositeType(' in v:
                    m = re.search(r'identifier: "([^"]*)"', v)
                    e = re.search(r'elements: !(\d+)', v)
                    if m and e and 'DIFlagFwdDecl' not in v:
                        self._members[m.group(1)] = int(e.group(1))
        for idn, e in self._members.items():
            if re.search(ident, idn):
                r = {}
                for x in re.findall(r'!(\d+)', self.md.get(e, '')):
                    d = self.md.get(int(x), '')
                    if 'DW_TAG_member' in d and 'DIFlagStaticMember' not in d:
                        n = re.search(r'name: "([^"]*)"', d)
                        o = re.search(r'offset: (\d+)', d)
                        if n:
                            r[n.group(1)] = int(o.group(1)) // 8 if o else 0
                return r
        return None
