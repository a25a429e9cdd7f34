"""The classes behind the stream interfaces (P13, P14, P15): iterator_istream over each of its four
sources, the pointer/length iterators, iterator_ostream over each of its four sinks, and the
serialize/deserialize overloads of message<> that put them together.

An iterator_istream over the text s stands at an offset i; its data invariant is
line_ == line(s, i) and column_ == column(s, i).  This is the position the interface of base.py talks
about: rem = len(s) - i, ln = line(s, i), cl = column(s, i)."""
from .base import *
from .values import *
from ..stl import SeqData, AbsBytes, get_bytes, set_bytes, seqdata
from .strings import take
from .token import ptr_eq

C64 = lambda v: z3.BitVecVal(v, 64)
C32 = lambda v: z3.BitVecVal(v, 32)
NL = z3.BitVecVal(10, 8)

line = Spec('line_at', [Str, B64], B32)        # 1 + newlines before offset i
line.body = lambda s, i: z3.If(i == 0, C32(1), line(s, i - 1) + z3.If(at(s, i - 1) == NL, C32(1), C32(0)))
col = Spec('column_at', [Str, B64], B32)       # 1 + bytes since the last newline before i
col.body = lambda s, i: z3.If(i == 0, C32(1), z3.If(at(s, i - 1) == NL, C32(1), col(s, i - 1) + 1))


def within(s, i):
    """lines and columns are numbers from 1 to i + 1 (part of the invariant: no overflow)"""
    j = z3.Extract(31, 0, i) + 1
    return z3.And(z3.UGE(line(s, i), 1), z3.ULE(line(s, i), j), z3.UGE(col(s, i), 1), z3.ULE(col(s, i), j))


NI = r'__gnu_cxx::__normal_iterator<char const\*, %s>'
SS = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > '
VC = r'std::vector<char, std::allocator<char> > '


# ------------------------------------------------------------------ library: istream_iterator<char>
class AbsIsit(Abs):
    """istream_iterator<char> over a std::istream with text kw['s'] (whitespace not skipped): t is the
    offset; the end iterator is any one at the length of its text"""
    kind = 'isit'

    def fresh(self, ex, st, name):
        t = fresh('hvi_' + name, B64)
        return AbsIsit(t, s=self.kw['s'], end=self.kw['end'])


ISIT = r'std::istream_iterator<char, char, std::char_traits<char>, long>'


def isit(ex, st, p):
    return ex.abs_at(st, p, 'isit')


def _isit_copy(ex, st, a, d):
    x = isit(ex, st, a[1])
    ex.set_abs(st, a[0], AbsIsit(x.t, **x.kw), 16)


def _isit_ctor(ex, st, a, d):
    o = a[1].obj
    ex.oblige(st, 'the stream does not skip whitespace while it is read', st.ghost[('flags', o)] & SKIPWS == 0)
    s = st.ghost[('text', o)]
    ex.set_abs(st, a[0], AbsIsit(C64(0), s=s, end=False), 16)


def _isit_end(ex, st, a, d):
    ex.set_abs(st, a[0], AbsIsit(C64(0), s=Nil, end=True), 16)


def _isit_eq(ex, st, a, d):
    x, y = isit(ex, st, a[0]), isit(ex, st, a[1])
    e = lambda v: z3.BoolVal(True) if v.kw['end'] else v.t == slen(v.kw['s'])
    r = e(x) == e(y)
    return norm(z3.Not(r) if 'operator!=' in d else r, 1)


def _isit_deref(ex, st, a, d):
    x = isit(ex, st, a[0])
    ex.oblige(st, 'read of an istream_iterator before the end', z3.ULT(bv(x.t, 64), slen(x.kw['s'])))
    o = ex.new_obj(st, 'isit value', 'raw', 1)
    ex.put(st, o, 0, norm(at(x.kw['s'], bv(x.t, 64)), 8), 1)
    return Ptr(o, 0)


def _isit_inc(ex, st, a, d):
    x = isit(ex, st, a[0])
    ex.oblige(st, 'increment of an istream_iterator before the end', z3.ULT(bv(x.t, 64), slen(x.kw['s'])))
    ex.set_abs(st, a[0], AbsIsit(bv(x.t, 64) + 1, **x.kw), 16)
    return a[0]


SKIPWS = z3.BitVecVal(0x1000, 32)      # std::ios_base::skipws of libstdc++ (_S_skipws = 1 << 12)


def _flags(ex, st, a, d):
    return norm(st.ghost[('flags', a[0].obj)], 32)


def _noskip(ex, st, a, d):
    k = ('flags', a[0].obj)
    st.ghost[k] = st.ghost[k] & ~SKIPWS
    return a[0]


def _skip(ex, st, a, d):
    k = ('flags', a[0].obj)
    st.ghost[k] = st.ghost[k] | SKIPWS
    return a[0]


# ------------------------------------------------------------------ library: ostream_iterator<char>, back_insert_iterator
OSIT = r'std::ostream_iterator<char, char, std::char_traits<char> >'


class AbsOsit(Abs):
    """ostream_iterator<char>: t is the object id of the std::ostream (no delimiter)"""
    kind = 'osit'


def _osit_ctor(ex, st, a, d):
    ex.set_abs(st, a[0], AbsOsit(a[1].obj), 16)


def _osit_copy(ex, st, a, d):
    ex.set_abs(st, a[0], AbsOsit(ex.abs_at(st, a[1], 'osit').t), 16)


def _osit_put(ex, st, a, d):
    k = ('sink', ex.abs_at(st, a[0], 'osit').t)
    v = ex.load(st, a[1], ('i', 8))
    st.ghost[k] = Snoc(st.ghost[k], bv(v, 8))
    return a[0]


MODELS = [
    (ISIT + r'::istream_iterator\(' + ISIT + r' const&\)$', _isit_copy),
    (ISIT + r'::istream_iterator\(std::basic_istream<char.*>&\)$', _isit_ctor),
    (ISIT + r'::istream_iterator\(\)$', _isit_end),
    (r'(bool )?std::operator(==|!=)(<.*>)?\(' + ISIT + r' const&, ' + ISIT + r' const&\)$', _isit_eq),
    (ISIT + r'::operator\*\(\) const$', _isit_deref),
    (ISIT + r'::operator\+\+\(\)$', _isit_inc),
    (r'std::ios_base::flags\(\) const$', _flags),
    (r'std::noskipws\(std::ios_base&\)$', _noskip),
    (r'std::skipws\(std::ios_base&\)$', _skip),
    (OSIT + r'::ostream_iterator\(std::basic_ostream<char.*>&\)$', _osit_ctor),
    (OSIT + r'::ostream_iterator\(' + OSIT + r' const&\)$', _osit_copy),
    (OSIT + r'::operator(\*|\+\+)\(\)$', lambda ex, st, a, d: a[0]),
    (OSIT + r'::operator=\(char const&\)$', _osit_put),
]


# ------------------------------------------------------------------ sources
class Src:
    """one kind of iterator over a text"""

    def __init__(self, tag, ty, ident):
        self.tag, self.ty, self.ident = tag, ty, ident
        self.cls = r'iterator_istream<' + ty + r' >'

    def lay(self, ex):
        R = rt(ex)
        k = 'src' + self.tag
        if k not in R.__dict__:
            R.__dict__[k] = (R._m(ex.mod, self.ident), R.size(self.ident))
        return R.__dict__[k]

    def text(self, ex, st):
        s = fresh('text', Str)
        st.assume(z3.ULT(slen(s), LIM - 1))
        return s

    def data(self, ex, st, s):
        o = ex.new_obj(st, 'source', 'raw', 32)
        self.D = seqdata(ex, st, Ptr(o, 0), s, False)
        return self.D

    def put_it(self, ex, st, p, i, s, end):
        ex.put(st, p.obj, p.off, self.D.add(i), 8)

    def get_it(self, ex, st, p):
        return bv(ex.load(st, p, 'ptr').off, 64)

    def at_end(self, ex, st, p, s):
        q = ex.load(st, p, 'ptr')
        return z3.And(z3.BoolVal(q.obj == self.D.obj), bv(q.off, 64) == slen(s))

    def same_src(self, ex, st, p, s):
        return z3.BoolVal(ex.load(st, p, 'ptr').obj == self.D.obj)

    def put(self, ex, st):
        """a stream in any state that satisfies the invariant"""
        m, size = self.lay(ex)
        s = self.text(ex, st)
        self.data(ex, st, s)
        i = fresh('offset', B64)
        st.assume(z3.ULE(i, slen(s)))
        st.assume(within(s, i))
        o = ex.new_obj(st, 'stream', 'raw', size)
        p = Ptr(o, 0)
        self.put_it(ex, st, p.add(m['beg_']), i, s, False)
        self.put_it(ex, st, p.add(m['end_']), slen(s), s, True)
        ex.put(st, o, m['line_'], line(s, i), 4)
        ex.put(st, o, m['column_'], col(s, i), 4)
        return p, s, i


class MemSrc(Src):
    def put_it(self, ex, st, p, i, s, end):
        m = rt(ex)._m(ex.mod, r'mem_const_iteratorIcE')
        ex.put(st, p.obj, p.off + m['cursor'], self.D.add(i), 8)
        ex.put(st, p.obj, p.off + m['end'], self.D.add(slen(s)), 8)
        ex.put(st, p.obj, p.off + m['empty'], z3.BitVecVal(0, 8), 1)

    def get_it(self, ex, st, p):
        m = rt(ex)._m(ex.mod, r'mem_const_iteratorIcE')
        return bv(ex.load(st, p.add(m['cursor']), 'ptr').off, 64)

    def same_src(self, ex, st, p, s):
        m = rt(ex)._m(ex.mod, r'mem_const_iteratorIcE')
        e = ex.load(st, p.add(m['end']), 'ptr')
        return z3.And(z3.BoolVal(ex.load(st, p.add(m['cursor']), 'ptr').obj == self.D.obj and e.obj == self.D.obj), bv(e.off, 64) == slen(s))

    def at_end(self, ex, st, p, s):
        m = rt(ex)._m(ex.mod, r'mem_const_iteratorIcE')
        q = ex.load(st, p.add(m['cursor']), 'ptr')
        return z3.And(z3.BoolVal(q.obj == self.D.obj), bv(q.off, 64) == slen(s))


class StdSrc(Src):
    def put_it(self, ex, st, p, i, s, end):
        ex.put(st, p.obj, p.off, AbsIsit(z3.BitVecVal(0, 64) if end else i, s=Nil if end else s, end=end), 16)

    def get_it(self, ex, st, p):
        return bv(isit(ex, st, p).t, 64)

    def same_src(self, ex, st, p, s):
        x = isit(ex, st, p)
        return z3.BoolVal(not x.kw['end'] and x.kw['s'].eq(s))

    def at_end(self, ex, st, p, s):
        return z3.BoolVal(isit(ex, st, p).kw['end'])


IS = r'_ZTSN.*16iterator_istreamI'
SRC = {'Text': Src('Text', NI % SS, IS + r'N9__gnu_cxx17__normal_iteratorIPKcNSt7__cxx1112basic_string'),
       'Vector': Src('Vector', NI % VC, IS + r'N9__gnu_cxx17__normal_iteratorIPKcSt6vector'),
       'Memory': MemSrc('Memory', r'protogen\w*::mem_const_iterator<char>', IS + r'NS_18mem_const_iterator'),
       'Stream': StdSrc('Stream', ISIT, IS + r'St16istream_iterator')}


class Source(Contract):
    k = None
    fuel = 1

    def setups(self, ex):
        st = State()
        p, s, i = self.k.put(ex, st)
        self.s, self.i = s, i
        yield '', st, [p]

    def now(self, c):
        m, _ = self.k.lay(c.ex)
        b = c.args[0].add(m['beg_'])
        return self.k.get_it(c.ex, c.st1, b), c.i1(c.args[0].add(m['line_']), 32), c.i1(c.args[0].add(m['column_']), 32)

    def unchanged(self, c):
        i, l, k = self.now(c)
        return [('lines and columns do not overflow', within(self.s, i)), ('the position stays', z3.And(i == self.i, l == line(self.s, i), k == col(self.s, i)))]


class PeekC(Source):
    def havoc(self, c):
        return fresh('c', B32)

    def post(self, c):
        s, i = self.s, self.i
        return [('the byte at the position, 0 at the end', bv(c.ret, 32) == z3.If(z3.ULT(i, slen(s)), z3.SignExt(24, at(s, i)), C32(0)))] + self.unchanged(c)


class EofC(Source):
    def havoc(self, c):
        return fresh('eof', BOOL)

    def post(self, c):
        return [('true exactly at the end', (bv(c.ret, 1) == 1 if not z3.is_bool(c.ret) else c.ret) == (self.i == slen(self.s)))] + self.unchanged(c)


class LineC(Source):
    def havoc(self, c):
        return fresh('n', B32)

    def post(self, c):
        return [('one more than the newlines before the position', bv(c.ret, 32) == line(self.s, self.i))] + self.unchanged(c)


class ColumnC(Source):
    def havoc(self, c):
        return fresh('n', B32)

    def post(self, c):
        return [('the position within its line, from 1', bv(c.ret, 32) == col(self.s, self.i))] + self.unchanged(c)


class NextC(Source):
    fuel = 2

    def havoc(self, c):
        m, _ = self.k.lay(c.ex)
        for f in ('beg_', 'line_', 'column_'):
            c.mods.add((c.args[0].obj, m[f]))

    def post(self, c):
        m, _ = self.k.lay(c.ex)
        s, i = self.s, self.i
        n, l, k = self.now(c)
        return [('one byte further, unless at the end', n == z3.If(i == slen(s), i, i + 1)),
                ('the line of the new position', l == line(s, n)), ('the column of the new position', k == col(s, n)),
                ('lines and columns do not overflow', within(s, n)),
                ('still the same text', self.k.same_src(c.ex, c.st1, c.args[0].add(m['beg_']), s)),
                ('the end stays', self.k.at_end(c.ex, c.st1, c.args[0].add(m['end_']), s))]


class CtorC(Source):
    def setups(self, ex):
        st = State()
        m, size = self.k.lay(ex)
        o = ex.new_obj(st, 'stream', 'raw', size)
        s = self.s = self.k.text(ex, st)
        self.k.data(ex, st, s)
        a, b = ex.new_obj(st, 'first', 'raw', 24), ex.new_obj(st, 'last', 'raw', 24)
        self.i = fresh('offset', B64)
        self.k.put_it(ex, st, Ptr(a, 0), self.i, s, False)
        self.k.put_it(ex, st, Ptr(b, 0), slen(s), s, True)
        yield '', st, [Ptr(o, 0), Ptr(a, 0), Ptr(b, 0)]

    def pre(self, c):
        return [('starts at the first byte', self.i == 0)]

    def havoc(self, c):
        c.mods.add((c.args[0].obj, '*'))

    def post(self, c):
        m, _ = self.k.lay(c.ex)
        return self.unchanged(c) + [
            ('over the given text', self.k.same_src(c.ex, c.st1, c.args[0].add(m['beg_']), self.s)),
            ('up to its end', self.k.at_end(c.ex, c.st1, c.args[0].add(m['end_']), self.s))]


SOURCES = []
for _t, _k in SRC.items():
    for _b, _m in (('Peek', r'peek\(\)'), ('Next', r'next\(\)'), ('Eof', r'eof\(\) const'), ('Line', r'line\(\) const'), ('Column', r'column\(\) const'),
                   ('Ctor', r'iterator_istream\(')):
        _n = _b + _t
        globals()[_n] = type(_n, (globals()[_b + 'C'],), dict(k=_k, rx=r'^protogen\w*::' + _k.cls + '::' + _m + ('' if _b == 'Ctor' else '$'),
                                                            name='iterator_istream<%s>::%s' % (_t.lower(), {'Ctor': 'constructor'}.get(_b, _b.lower()))))
        SOURCES.append('streams.' + _n)


class Positions(Lemma):
    """the sources satisfy the laws the interface assumes (base.stream_axioms), with rem = len - i"""
    name = 'sources implement the istream interface'
    fuel = 1

    def cases(self):
        s, i = fresh('s', Str), fresh('i', B64)
        n = z3.If(i == slen(s), i, i + 1)
        rem_ = lambda j: slen(s) - j
        pk_ = lambda j: z3.If(z3.ULT(j, slen(s)), z3.SignExt(24, at(s, j)), C32(0))
        h = [z3.ULE(i, slen(s)), z3.ULT(slen(s), LIM)]
        yield 'at the end nothing is left', h, (i == slen(s)) == (rem_(i) == 0)
        yield 'at the end the character is 0 and the position stays', h + [rem_(i) == 0], z3.And(pk_(i) == 0, n == i)
        yield 'each step leaves less', h + [rem_(i) != 0], z3.ULT(rem_(n), rem_(i))
        yield 'the position stays within the text', h, z3.ULE(n, slen(s))
        yield 'a character is a signed byte', h, z3.And(pk_(i) >= -128, pk_(i) <= 127)
        yield 'the first line is 1 and its first column 1', h, z3.And(line(s, C64(0)) == 1, col(s, C64(0)) == 1)
        yield 'a newline starts the next line', h + [rem_(i) != 0, at(s, i) == NL], z3.And(line(s, n) == line(s, i) + 1, col(s, n) == 1)
        yield 'any other byte moves one column', h + [rem_(i) != 0, at(s, i) != NL], z3.And(line(s, n) == line(s, i), col(s, n) == col(s, i) + 1)


# ------------------------------------------------------------------ sinks
# pre(t, n): the first n bytes of t (all of it when it is shorter)
pre = Spec('first_n', [Str, B64], Str)
pre.body = lambda t, n: z3.If(z3.ULE(slen(t), n), t, pre(init(t), n))
# NF(s, i): no byte of s from i on is 0
NF = Spec('nulfree', [Str, B64], BOOL)
NF.body = lambda s, i: z3.If(i == slen(s), True, z3.And(at(s, i) != 0, NF(s, i + 1)))


class OutBuf:
    """a buffer of n bytes of which a prefix (ghost `buf`) has been written: only the next byte may be
    written, and only within the n bytes"""

    def __init__(self, n):
        self.n = n

    def load(self, ex, st, p, rt_, size):
        b = st.ghost[('buf', p.obj)]
        ex.oblige(st, 'read of the buffer within what was written', z3.ULT(bv(p.off, 64), slen(b)))
        return norm(at(b, bv(p.off, 64)), 8)

    def store(self, ex, st, p, v, rt_, size):
        if size != 1:
            raise Unsupported('wide store to a buffer')
        k = ('buf', p.obj)
        b = st.ghost[k]
        ex.oblige(st, 'write within the buffer', z3.ULT(bv(p.off, 64), self.n))
        ex.oblige(st, 'writes the next byte of the buffer', bv(p.off, 64) == slen(b))
        st.ghost[k] = Snoc(b, bv(v, 8))


class Sink:
    """one kind of output iterator; out: what was written through it so far, in front of which the sink
    already held `had`"""
    size = 8
    ctor_mods = ()

    def __init__(self, tag, ty, ident):
        self.tag, self.ty, self.ident = tag, ty, ident
        self.cls = r'iterator_ostream<' + ty + r' >'

    def lay(self, ex):
        R = rt(ex)
        k = 'sink' + self.tag
        if k not in R.__dict__:
            R.__dict__[k] = (R._m(ex.mod, self.ident), R.size(self.ident))
        return R.__dict__[k]

    def vptr(self, ex, st, p):
        g = [n for n in ex.mod.globals if re.search(r'^_ZTVN' + self.ident[5:], n)]
        if len(g) != 1:
            raise Unsupported('virtual table of ' + self.ident)
        ex.put(st, p.obj, p.off, Ptr(ex.global_obj(st, g[0]), 16), 8)

    def bound(self, st):
        self.out = fresh('out', Str)
        st.assume(z3.ULT(slen(self.out), LIM))

    def put(self, ex, st):
        m, size = self.lay(ex)
        o = ex.new_obj(st, 'stream', 'raw', size)
        p = Ptr(o, 0)
        self.vptr(ex, st, p)
        self.bound(st)
        self.target(ex, st)
        self.put_it(ex, st, p.add(m['beg_']), self.out)
        return p


class StrSink(Sink):
    def target(self, ex, st):
        self.t = ex.new_obj(st, 'target', 'raw', 32)
        ex.put(st, self.t, 0, AbsStr(self.out), 32)

    def put_it(self, ex, st, p, out):
        ex.put(st, p.obj, p.off, Ptr(self.t, 0), 8)

    def holds(self, ex, st, p, out):
        return [('the sink holds what was written', ex.get_str(st, Ptr(self.t, 0)) == out)]

    def mods(self, ex, p):
        return {(self.t, 0)}

    def intact(self, ex, st, p):
        q = ex.load(st, p, 'ptr')
        return z3.BoolVal(q.obj == self.t and q.off == 0)


class VecSink(StrSink):
    def target(self, ex, st):
        self.t = ex.new_obj(st, 'target', 'raw', 24)
        ex.put(st, self.t, 0, AbsBytes(self.out), 24)

    def holds(self, ex, st, p, out):
        return [('the sink holds what was written', get_bytes(ex, st, Ptr(self.t, 0)) == out)]


class StdSink(Sink):
    size = 16

    def target(self, ex, st):
        self.t = ex.new_obj(st, 'stdout', 'raw', 8)
        st.ghost[('sink', self.t)] = self.out

    def put_it(self, ex, st, p, out):
        ex.put(st, p.obj, p.off, AbsOsit(self.t), 16)

    def holds(self, ex, st, p, out):
        return [('the sink holds what was written', st.ghost[('sink', self.t)] == out)]

    def mods(self, ex, p):
        return {('sink', self.t)}

    def intact(self, ex, st, p):
        return z3.BoolVal(ex.abs_at(st, p, 'osit').t == self.t)


class MemSink(Sink):
    size = 24

    def target(self, ex, st):
        self.n = fresh('n', B64)
        st.assume(z3.ULT(self.n, LIM))
        self.t = ex.new_obj(st, 'buffer', 'sdata', None)
        st.w(self.t).meta = OutBuf(self.n)
        st.ghost[('buf', self.t)] = pre(self.out, self.n)

    def M(self, ex):
        return rt(ex)._m(ex.mod, r'[^t]_?12mem_iteratorIcE')

    def cur(self, out):
        return z3.If(z3.ULE(slen(out), self.n), slen(out), self.n)

    def put_it(self, ex, st, p, out):
        m = self.M(ex)
        ex.put(st, p.obj, p.off + m['cursor'], Ptr(self.t, self.cur(out)), 8)
        ex.put(st, p.obj, p.off + m['end'], Ptr(self.t, self.n), 8)
        ex.put(st, p.obj, p.off + m['empty'], fresh('empty', B8), 1)

    def holds(self, ex, st, p, out):
        m = self.M(ex)
        q = ex.load(st, p.add(m['cursor']), 'ptr')
        return [('the buffer holds the first bytes of what was written', st.ghost[('buf', self.t)] == pre(out, self.n)),
                ('the cursor is behind them', z3.And(z3.BoolVal(q.obj == self.t), bv(q.off, 64) == self.cur(out)))]

    def mods(self, ex, p):
        m = self.M(ex)
        return {('buf', self.t), (p.obj, p.off + m['cursor']), (p.obj, p.off + m['empty'])}

    def intact(self, ex, st, p):
        m = self.M(ex)
        e = ex.load(st, p.add(m['end']), 'ptr')
        return z3.And(z3.BoolVal(e.obj == self.t), bv(e.off, 64) == self.n)


OS = r'_ZTSN.*16iterator_ostreamI'
SINK = {'Text': StrSink('Text', r'std::back_insert_iterator<' + SS + '>', OS + r'St20back_insert_iteratorINSt7__cxx1112basic_string'),
        'Vector': VecSink('Vector', r'std::back_insert_iterator<' + VC + '>', OS + r'St20back_insert_iteratorISt6vector'),
        'Stream': StdSink('Stream', OSIT, OS + r'St16ostream_iterator'),
        'Memory': MemSink('Memory', r'protogen\w*::mem_iterator<char>', OS + r'NS_12mem_iterator')}


class SinkC(Contract):
    k = None
    fuel = 2

    def setups(self, ex):
        st = State()
        p = self.k.put(ex, st)
        yield '', st, [p, self.arg(ex, st)]

    def beg(self, c):
        return c.args[0].add(self.k.lay(c.ex)[0]['beg_'])

    def havoc(self, c):
        c.mods |= self.k.mods(c.ex, self.beg(c))
        return c.args[0]

    def post(self, c):
        return [('returns the stream', ptr_eq(c.ret, c.args[0])), ('writes on to the same sink', self.k.intact(c.ex, c.st1, self.beg(c)))] \
            + self.k.holds(c.ex, c.st1, self.beg(c), self.after(c))


class PutCharC(SinkC):
    def arg(self, ex, st):
        return fresh('c', B8)

    def after(self, c):
        return Snoc(self.k.out, bv(c.args[1], 8))


class PutTextC(SinkC):
    def arg(self, ex, st):
        self.v = fresh('value', Str)
        st.assume(z3.ULT(slen(self.v), LIM))
        st.assume(z3.ULT(slen(self.k.out) + slen(self.v), LIM))
        o = ex.new_obj(st, 'value', 'raw', 32)
        ex.put(st, o, 0, AbsStr(self.v), 32)
        return Ptr(o, 0)

    def after(self, c):
        return cat(self.k.out, take(self.v, slen(self.v)))

    @property
    def loops(self):
        def at(L):
            return bv(L['it'].off, 64) if 'it' in L.role_names() else L['i']

        def inv(L):
            i = at(L)
            o = cat(self.k.out, take(self.v, i))
            x = L.view
            p = self.beg(x)
            same = z3.BoolVal('it' not in L.role_names() or isinstance(L.st.mem[L['it'].obj].meta, SeqData))
            return [('position', z3.And(same, z3.ULE(i, slen(self.v)))),
                    ('written length', slen(o) == slen(self.k.out) + i),
                    ('same sink', self.k.intact(L.ex, L.st, p))] + self.k.holds(L.ex, L.st, p, o)
        return [LoopSpec('bytes of the value', r, inv, lambda L: slen(self.v) - at(L), moving=('it', 'i'))
                for r in ({'it': ('ptr', ['it', 'value', '__begin', 'begin'])}, {'i': ('i64', ['i'])})]


class PutCStrC(PutTextC):
    def arg(self, ex, st):
        self.v = fresh('value', Str)
        st.assume(z3.ULT(slen(self.v), LIM))
        st.assume(z3.ULT(slen(self.k.out) + slen(self.v), LIM))
        st.assume(NF(self.v, C64(0)))
        o = ex.new_obj(st, 'value', 'raw', 32)
        return seqdata(ex, st, Ptr(o, 0), self.v, True)

    @property
    def loops(self):
        at = lambda L: bv(L['it'].off, 64) if 'it' in L.role_names() else L['i']
        return [LoopSpec(l.name, l.roles, lambda L, l=l: l._inv(L) + [('no NUL ahead', NF(self.v, at(L)))], l._measure, moving=l.moving) for l in super().loops]


SINKS = []
for _t, _k in SINK.items():
    for _b, _m in (('PutChar', r'operator<<\(char\)$'), ('PutText', r'operator<<\(std::__cxx11::basic_string'), ('PutCStr', r'operator<<\(char const\*\)$'),
                   ('PutMStr', r'operator<<\(char\*\)$')):
        _n = _b + _t
        globals()[_n] = type(_n, (globals()[_b.replace('PutMStr', 'PutCStr') + 'C'],), dict(k=_k, rx=r'^protogen\w*::' + _k.cls + '::' + _m,
                             name='iterator_ostream<%s>::operator<<(%s)' % (_t.lower(), {'PutChar': 'char', 'PutText': 'string', 'PutCStr': 'const char*', 'PutMStr': 'char*'}[_b])))
        SINKS.append('streams.' + _n)


# ------------------------------------------------------------------ the overloads that put them together
CUR = [None]        # the contract being verified: its observer looks at the stream the overload builds


def _observe(ex, st, args):
    """stands for serialize/deserialize(stream, params) of the object itself: any result, any progress"""
    return CUR[0].observe(ex, st, args)


def message_call(ex, st, oid, slot, args):
    for sig, reads in ((r'deserialize\(protogen\w*::istream&, ', True), (r'serialize\(protogen\w*::ostream&, .*\) const', False)):
        if slot == stream_slots(ex.mod, MSG, sig):
            if reads != CUR[0].reads:
                raise Unsupported('another virtual function of the message is called')
            return _observe(ex, st, args)
    raise Unsupported('virtual call %d on a message' % slot)


MSG = r'message<vf::Inner_type, protogen\w*::json<vf::Inner_type, void> >'


def nocall(ex, st, oid, slot, args):
    raise Unsupported('virtual call on a std::istream')


IFACE_EXTRA = {'message': message_call, 'std::istream': nocall}
ARR = r'_ZN14?protogen\w*?%sISt6vectorIN2vf4PairESaIS3_EETn'
MODELS += [(r'_ZN\w*?17deserialize_arrayI.*EEEbR\w+_RNS_7istreamEPNS_10ParametersE$', lambda ex, st, a, d: _observe(ex, st, a)),
           (r'_ZN\w*?15serialize_arrayI.*EEEbRK\w+_RNS_7ostreamEPNS_10ParametersE$', lambda ex, st, a, d: _observe(ex, st, a))]


class Overload(Contract):
    array = False
    fuel = 2

    def target(self, ex, st):
        o = ex.new_obj(st, 'object', 'raw' if self.array else 'message', 24 if self.array else None)
        return Ptr(o, 0)

    def setups(self, ex):
        CUR[0] = self
        for null in (True, False):
            st = State()
            this = self.target(ex, st)
            a = self.io(ex, st)
            self.params = NULL if null else rt(ex).params(ex, st)
            self.this = this
            yield (' (no parameters)' if null else ''), st, [this] + a + [self.params]

    def havoc(self, c):
        return fresh('r', BOOL)

    def same_params(self, ex, st, v):
        return z3.BoolVal(isinstance(v, Ptr) and v.obj == self.params.obj and same(v.off, self.params.off))

    def stream_is(self, ex, st, p):
        q = ex.load(st, p, 'ptr')
        g = [n for n in ex.mod.globals if re.search(r'^_ZTVN' + self.k.ident[5:], n)]
        return z3.BoolVal(isinstance(q, Ptr) and len(g) == 1 and q.obj == '@' + g[0] and q.off == 16)

    def observe(self, ex, st, args):
        n = st.ghost.get(('calls', 0), 0)
        ex.oblige(st, 'the work is done once', z3.BoolVal(n == 0))
        st.ghost[('calls', 0)] = n + 1
        ex.oblige(st, 'the object itself does the work', ptr_eq(args[0], self.this))
        ex.oblige(st, 'the parameters are passed on', self.same_params(ex, st, args[2]))
        ex.oblige(st, 'through the right kind of stream', self.stream_is(ex, st, args[1]))
        self.look(ex, st, args[1])
        r = fresh('result', BOOL)
        st.ghost[('result', 0)] = r
        return [(st, norm(r, 1))]

    def common(self, c):
        r = c.ret if z3.is_bool(c.ret) else bv(c.ret, 1) == 1 if not isinstance(c.ret, bool) else z3.BoolVal(c.ret)
        return [('the work is done', z3.BoolVal(c.st1.ghost.get(('calls', 0), 0) == 1)),
                ('returns the result', r == c.st1.ghost.get(('result', 0), z3.BoolVal(False)))]


class ReadFrom(Overload):
    reads = True

    def io(self, ex, st):
        k = self.k
        s = self.s = k.text(ex, st)
        if k.tag == 'Memory':
            k.data(ex, st, s)
            return [k.D, slen(s)]
        o = ex.new_obj(st, 'in', 'std::istream' if k.tag == 'Stream' else 'raw', None if k.tag == 'Stream' else 32)
        if k.tag == 'Stream':
            st.ghost[('flags', o)] = self.flags = fresh('flags', B32)
            st.ghost[('text', o)] = s
        else:
            ex.put(st, o, 0, AbsStr(s) if k.tag == 'Text' else AbsBytes(s), 32 if k.tag == 'Text' else 24)
            k.D = seqdata(ex, st, Ptr(o, 0), s, False)
        self.inp = o
        return [Ptr(o, 0)]

    def look(self, ex, st, p):
        k, s = self.k, self.s
        m, size = k.lay(ex)
        b = p.add(m['beg_'])
        ex.oblige(st, 'the stream reads the given text', k.same_src(ex, st, b, s))
        ex.oblige(st, 'from its first byte', k.get_it(ex, st, b) == 0)
        ex.oblige(st, 'to its end', k.at_end(ex, st, p.add(m['end_']), s))
        ex.oblige(st, 'from line 1, column 1', z3.And(bv(ex.load(st, p.add(m['line_']), ('i', 32)), 32) == 1, bv(ex.load(st, p.add(m['column_']), ('i', 32)), 32) == 1))
        i = fresh('offset', B64)
        st.assume(z3.ULE(i, slen(s)))
        k.put_it(ex, st, b, i, s, False)
        for f in ('line_', 'column_'):
            ex.put(st, p.obj, p.off + m[f], fresh(f, B32), 4)

    def havoc(self, c):
        if self.k.tag == 'Stream':
            c.mods.add(('flags', self.inp))
        return fresh('r', BOOL)

    def post(self, c):
        r = self.common(c)
        if self.k.tag == 'Stream':
            r += [('the whitespace flag of the stream is as it was', c.st1.ghost[('flags', self.inp)] & SKIPWS == self.flags & SKIPWS),
                  ('the other flags are as they were', c.st1.ghost[('flags', self.inp)] == self.flags)]
        return r


class WriteTo(Overload):
    reads = False

    def io(self, ex, st):
        k = self.k
        k.bound(st)
        k.target(ex, st)
        if k.tag == 'Memory':
            st.assume(k.out == Nil)
            return [Ptr(k.t, 0), k.n]
        return [Ptr(k.t, 0)]

    def look(self, ex, st, p):
        k = self.k
        b = p.add(k.lay(ex)[0]['beg_'])
        ex.oblige(st, 'the stream writes to the given sink', k.intact(ex, st, b))
        for n, f in k.holds(ex, st, b, k.out):
            ex.oblige(st, 'nothing is written before: ' + n, f)
        w = self.w = fresh('document', Str)
        o = mkcat(k.out, w)
        if k.tag == 'Text':
            ex.set_str(st, Ptr(k.t, 0), o)
        elif k.tag == 'Vector':
            set_bytes(ex, st, Ptr(k.t, 0), o)
        elif k.tag == 'Stream':
            st.ghost[('sink', k.t)] = o
        else:
            st.ghost[('buf', k.t)] = pre(w, k.n)

    def havoc(self, c):
        c.mods |= {(self.k.t, 0), ('sink', self.k.t), ('buf', self.k.t)}
        return fresh('r', BOOL)

    def post(self, c):
        k = self.k
        st = c.st1
        if k.tag == 'Text':
            f = c.ex.get_str(st, Ptr(k.t, 0)) == cat(k.out, self.w)
        elif k.tag == 'Vector':
            f = get_bytes(c.ex, st, Ptr(k.t, 0)) == cat(k.out, self.w)
        elif k.tag == 'Stream':
            f = st.ghost[('sink', k.t)] == cat(k.out, self.w)
        else:
            f = st.ghost[('buf', k.t)] == pre(self.w, k.n)
        return self.common(c) + [('the sink holds what it held and then the document', f)]


SIG_R = {'Text': r'std::__cxx11::basic_string<', 'Vector': r'std::vector<char,', 'Memory': r'char const\*, unsigned long', 'Stream': r'std::basic_istream<'}
SIG_W = {'Text': r'std::__cxx11::basic_string<', 'Vector': r'std::vector<char,', 'Memory': r'char\*, unsigned long', 'Stream': r'std::basic_ostream<'}
ARR_R = {'Text': r'EEEbRS\w_RKNSt7__cxx1112basic_string', 'Vector': r'EEEbRS\w_RKS\w_I?cSaIcEEPNS', 'Memory': r'EEEbRS\w_PKcmPNS'}
ARR_W = {'Text': r'EEEbRKS\w_RNSt7__cxx1112basic_string', 'Vector': r'EEEbRKS\w_RS\w_I?cSaIcEEPNS'}
READERS, WRITERS = [], []
for _t in SRC:
    for _p, _c, _tab, _sig, _l in (('ReadFrom', ReadFrom, SRC, SIG_R, READERS), ('WriteTo', WriteTo, SINK, SIG_W, WRITERS)):
        _n = _p + _t
        globals()[_n] = type(_n, (_c,), dict(k=_tab[_t], name='message::%s(%s)' % ('deserialize' if _c is ReadFrom else 'serialize', _t.lower()),
                                            rx=r'^protogen\w*::' + MSG + r'::' + ('deserialize' if _c is ReadFrom else 'serialize') + r'\(' + _sig[_t]))
        _l.append('streams.' + _n)
    for _p, _c, _tab, _sig, _l, _f in (('ArrayFrom', ReadFrom, SRC, ARR_R, READERS, '17deserialize_array'), ('ArrayTo', WriteTo, SINK, ARR_W, WRITERS, '15serialize_array')):
        if _t in _sig:
            _n = _p + _t
            globals()[_n] = type(_n, (_c,), dict(k=_tab[_t], array=True, name='%s(%s)' % (_f[2:], _t.lower()),
                                                rx=r'^_ZN14protogen\w*?' + _f + r'ISt6vectorIN2vf4PairESaIS\d_EETn.*' + _sig[_t]))
            _l.append('streams.' + _n)
