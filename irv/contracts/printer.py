"""Contracts of the template printer of the generator (P23): placeholders are replaced, values are carried verbatim.

prt(out, s, i, V) is what `out` holds after the template s has been printed from its byte i on with the values V.
"""
import hashlib
from .base import *
from .kinds import *
from .kinds import MODELS as _VM
from ..stl import S, SeqData, seqdata

SV = VecK(StringK())
C0 = z3.BitVecVal(0, 64)
DOLLAR = 36
# chr(s, c, i): index of the first c or NUL of s from i on, the length of s if there is none
chrx = Spec('chr', [Str, B8, B64], B64)
chrx.body = lambda s, c, i: z3.If(z3.Or(z3.UGE(i, slen(s)), at(s, i) == 0, at(s, i) == c), i, chrx(s, c, i + 1))
# value and end of the decimal number strtol finds at byte i of s
dval = Spec('dval', [Str, B64], B64)
dend = Spec('dend', [Str, B64], B64)
dval.body = dend.body = None
prt = Spec('prt', [Str, Str, B64, SV.sort], Str)


def _prt(o, s, i, V):
    e = chrx(s, z3.BitVecVal(DOLLAR, 8), i + 1)
    stop = z3.Or(z3.UGE(e, slen(s)), at(s, e) != DOLLAR, dend(s, i + 1) != e)
    k = z3.Extract(31, 0, dval(s, i + 1)) - 1
    n = z3.Extract(31, 0, SV.q.len(V))
    c = at(s, i)
    o2 = z3.If(z3.And(k >= 0, k < n), cat(o, SV.q.at(V, z3.SignExt(32, k))), o)
    return z3.If(z3.Or(z3.UGE(i, slen(s)), c == 0), o, z3.If(c == DOLLAR, z3.If(stop, o, prt(o2, s, e + 1, V)),
                 prt(z3.If(c == 9, strlit('    ', o), z3.If(c == 8, o, Snoc(o, c))), s, i + 1, V)))


prt.body = _prt


def literal(o, lit, vals):
    """prt of a literal template (bytes) with the values given, computed"""
    if b'\0' in lit:
        lit = lit[:lit.index(b'\0')]
    if len(lit) >= 3500 and b'$' not in lit and b'\b' not in lit:
        return cat(o, long_text(lit.replace(b'\t', b'    ')))
    i = 0
    run = o
    while i < len(lit):
        c = lit[i]
        if c == DOLLAR:
            e = lit.find(b'$', i + 1)
            m = re.match(rb'[ \t\n\v\f\r]*([+-]?\d+)', lit[i + 1:])
            if e < 0 or not m or i + 1 + m.end() != e:
                return run
            k = int(m.group(1)) - 1
            if 0 <= k < len(vals):
                run = cat(run, vals[k])
            i = e + 1
            continue
        if c == 9:
            run = strlit('    ', run)
        elif c != 8:
            run = Snoc(run, z3.BitVecVal(c, 8))
        i += 1
    return run


# ---------------------------------------------------------------- library: std::ostream, strchr, strtol (assumed)
def sink(ex, st, p):
    if not isinstance(p, Ptr) or ('sink', p.obj) not in st.ghost:
        raise Unsupported('output to something else than the stream: %s' % (p,))
    return ('sink', p.obj)


def os_str(ex, st, a, d):
    k = sink(ex, st, a[0])
    st.ghost[k] = mkcat(st.ghost[k], ex.get_str(st, a[1]))
    return a[0]


def os_cstr(ex, st, a, d):
    k = sink(ex, st, a[0])
    st.ghost[k] = mkcat(st.ghost[k], ex.cstr(st, a[1]))
    return a[0]


def os_chr(ex, st, a, d):
    k = sink(ex, st, a[0])
    st.ghost[k] = Snoc(st.ghost[k], bv(a[1], 8))
    return a[0]


def _seq(ex, st, p):
    if not isinstance(p, Ptr) or p.obj is None or not isinstance(st.mem[p.obj].meta, SeqData) or not st.mem[p.obj].meta.nul:
        return None
    s, n = st.mem[p.obj].meta.term, bv(st.mem[p.obj].meta.len, 64)
    ex.oblige(st, 'text within bounds', z3.ULE(bv(p.off, 64), n))
    return s


def c_strchr(ex, st, a, d):
    s = _seq(ex, st, a[0])
    if s is None:
        raise Unsupported('strchr of something else')
    c = norm(z3.Extract(7, 0, bv(a[1], 32)), 8)
    e = chrx(s, bv(c, 8), bv(a[0].off, 64))
    st.assume(z3.And(z3.ULE(bv(a[0].off, 64), e), z3.ULE(e, slen(s))))
    here = z3.And(z3.ULT(e, slen(s)), at(s, e) == c)
    out = []
    for cond, v in ((here, Ptr(a[0].obj, e)), (z3.Not(here), NULL)):
        t = st.clone()
        t.assume(cond)
        if ex.feasible(t):
            out.append((t, v))
    return out


def c_strtol(ex, st, a, d):
    s = _seq(ex, st, a[0])
    if s is None or a[2] != 10:
        return NotImplemented
    i = bv(a[0].off, 64)
    st.assume(z3.And(z3.ULE(i, dend(s, i)), z3.ULE(dend(s, i), slen(s))))
    if isinstance(a[1], Ptr) and a[1].obj is not None:
        ex.put(st, a[1].obj, a[1].off, Ptr(a[0].obj, dend(s, i)), 8)
    st.assume(z3.Extract(31, 0, dval(s, i)) != z3.BitVecVal(1 << 31, 32))
    return dval(s, i)


OUT = r'std::basic_ostream<char, std::char_traits<char> >&'
MODELS = [(OUT + r' std::operator<< ?<char, std::char_traits<char>, std::allocator<char> >\(' + OUT + ', ' + S + ' const&', os_str),
          (OUT + r' std::operator<< ?<std::char_traits<char> >\(' + OUT + r', char const\*\)', os_cstr),
          (OUT + r' std::operator<< ?<std::char_traits<char> >\(' + OUT + r', char\)', os_chr),
          (r'strchr$', c_strchr), (r'(__isoc23_)?strtol$', c_strtol)] + _VM


def long_text(b):
    """a long literal text as one symbol: equal texts are equal"""
    if len(b) < 3500:
        return strlit(b.decode('latin-1'))
    return z3.Const('text %s' % hashlib.sha256(b).hexdigest(), Str)


def template(ex, st, p):
    """the bytes of a literal template, None if it is no literal"""
    o = st.mem[p.obj]
    if isinstance(o.meta, dict) and o.meta.get('const') and isinstance(p.off, int):
        bs = []
        i = p.off
        while True:
            b = o.cells.get(i)
            if b is None or not isinstance(b[0], int) or b[1] != 1:
                return None
            if b[0] == 0:
                return bytes(bs)
            bs.append(b[0])
            i += 1
    return None


def chain(V):
    """the elements of an explicit sequence, None if there is a variable part"""
    out = []
    while V.decl().name() == SV.q.snoc.name():
        out.insert(0, V.arg(1))
        V = V.arg(0)
    return out if V.decl().name() == SV.q.nil.decl().name() else None


def printed(ex, st, o, fmt, V):
    """o after the template at fmt has been printed with the values V"""
    lit, vals = template(ex, st, fmt), chain(V)
    if lit is not None and vals is not None:
        return literal(o, lit, vals)
    t = ex.cstr(st, fmt) if lit is not None else _seq(ex, st, fmt)
    if t is None:
        raise Unsupported('template of unknown text')
    return prt(o, t, C0, V)


class Print(Contract):
    name = 'Printer::print(stream, template, values)'
    rx = r'^protogen::Printer::print\(std::basic_ostream<'
    unit = 'printer'
    fuel = 1
    assumes = 'no template of the generator contains the number -2^31 as a placeholder (templates are literals of the generator)'

    def setups(self, ex):
        st = State()
        o = ex.new_obj(st, 'stream', 'std::ostream', None)
        st.ghost[('sink', o)] = fresh('out', Str)
        yield '', st, [Ptr(o, 0)] + self.args(ex, st)

    def args(self, ex, st):
        s = fresh('format', Str)
        st.assume(z3.ULT(slen(s), LIM))
        t = ex.new_obj(st, 'format', 'raw', 32)
        ex.put(st, t, 0, AbsStr(s), 32)
        v = ex.new_obj(st, 'vars', 'raw', 24)
        SV.put(ex, st, Ptr(v, 0))
        return [seqdata(ex, st, Ptr(t, 0), s, True), Ptr(v, 0)]

    def out(self, c):
        return sink(c.ex, c.st0, c.args[0])

    def havoc(self, c):
        c.mods.add(self.out(c))
        c.st1.ghost[self.out(c)] = fresh('out', Str)

    def apply(self, ex, st, args):
        """as a call: what is printed, as a term"""
        c = View(ex, st.clone(), st, args)
        st.ghost[self.out(c)] = self.after(c)
        return [(st, None)]

    def after(self, c):
        return printed(c.ex, c.st0, c.st0.ghost[self.out(c)], c.args[1], SV.load(c.ex, c.st0, c.args[2]))

    def post(self, c):
        return [('the template is printed with the values in it', c.st1.ghost[self.out(c)] == self.after(c))]

    @property
    def loops(self):
        def inv(L):
            c = View(L.ex, L.st0, L.st, L.st.frames[0].args)
            s = _seq(L.ex, L.st0, c.args[1])
            return [('position', z3.ULE(bv(L['ptr'].off, 64), slen(s))),
                    ('what is left', prt(L['out'], s, bv(L['ptr'].off, 64), SV.load(L.ex, L.st0, c.args[2])) == self.after(c))]
        return [LoopSpec('bytes of the template', {'out': ('ghost:sink', []), 'ptr': ('ptr', ['ptr'])}, inv,
                         lambda L: slen(_seq(L.ex, L.st0, L.st.frames[0].args[1])) - bv(L['ptr'].off, 64))]


def printer(ex, st, o):
    """a Printer that writes to the stream o"""
    p = ex.new_obj(st, 'printer', 'raw', 16)
    ex.put(st, p, layout(ex)['out_'], Ptr(o, 0), 8)
    return Ptr(p, 0)


def layout(ex):
    m = ex.mod.members(r'^_ZTSN8protogen7PrinterE$')
    if 'out_' not in m:
        raise Unsupported('a printer without out_')
    return m


class Member(Print):
    """methods of a Printer: the stream is the one it was made with"""
    fuel = 1
    loops = ()
    assumes = None

    def setups(self, ex):
        st = State()
        o = ex.new_obj(st, 'stream', 'std::ostream', None)
        st.ghost[('sink', o)] = fresh('out', Str)
        yield '', st, [printer(ex, st, o)] + self.args(ex, st)

    def out(self, c):
        return sink(c.ex, c.st0, c.ex.load(c.st0, c.args[0].add(layout(c.ex)['out_']), 'ptr'))


class PrintValues(Member):
    name = 'Printer::print(template, values)'
    rx = r'^protogen::Printer::print\(char const\*, std::vector<'
    uses = ('Print',)


class PrintText(Member):
    name = 'Printer::print(text)'
    rx = r'^protogen::Printer::print\(char const\*\)'

    def args(self, ex, st):
        return Member.args(self, ex, st)[:1]

    def after(self, c):
        o = c.st0.ghost[self.out(c)]
        lit = template(c.ex, c.st0, c.args[1])
        return mkcat(o, long_text(lit)) if lit is not None else mkcat(o, c.ex.cstr(c.st0, c.args[1]))

    def post(self, c):
        return [('the text is printed', c.st1.ghost[self.out(c)] == self.after(c))]


class MakePrinter(Contract):
    name = 'Printer::Printer'
    rx = r'^protogen::Printer::Printer\(std::basic_ostream<'
    unit = 'printer'

    def find(self, mod):
        return [n for n in Contract.find(self, mod) if 'C2' in n] or Contract.find(self, mod)

    def setups(self, ex):
        st = State()
        o = ex.new_obj(st, 'stream', 'std::ostream', None)
        st.ghost[('sink', o)] = fresh('out', Str)
        yield '', st, [Ptr(ex.new_obj(st, 'printer', 'raw', 16), 0), Ptr(o, 0), 0]

    def havoc(self, c):
        for f, o in layout(c.ex).items():
            c.mods.add((c.args[0].obj, c.args[0].off + o))
        c.ex.put(c.st1, c.args[0].obj, c.args[0].off + layout(c.ex)['out_'], c.args[1], 8)

    def post(self, c):
        return [('it prints to the stream', z3.BoolVal(same(c.ex.load(c.st1, c.args[0].add(layout(c.ex)['out_']), 'ptr'), c.args[1])))]


PRINTER = ['printer.Print', 'printer.PrintValues', 'printer.PrintText', 'printer.MakePrinter']
