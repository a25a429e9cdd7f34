"""Obfuscated names (P16): the generator's obfuscate() writes a C++ literal, the runtime's reveal() undoes it."""
from .base import *
from .strings import take, TakeAll
from .streams import C64
from ..stl import hexdigit, hexval, ishex

Z64 = C64(0)


def mask(s):
    """0x93 rotated left by the length modulo 8"""
    n = z3.Extract(7, 0, slen(s)) & 7
    return z3.RotateLeft(z3.BitVecVal(0x93, 8), n)


xors = Spec('xors', [Str, B8, B64], Str)       # the first i bytes of s, each xored with m
xors.body = lambda s, m, i: z3.If(i == 0, Nil, Snoc(xors(s, m, i - 1), at(s, i - 1) ^ m))

BACKSLASH, X = z3.BitVecVal(92, 8), z3.BitVecVal(120, 8)


def hexs(t, v):
    """v in lower-case hexadecimal, appended to t"""
    return z3.If(z3.ULT(v, 16), Snoc(t, hexdigit(v)), Snoc(Snoc(t, hexdigit(z3.LShR(v, 4))), hexdigit(v & 15)))


obf = Spec('obf', [Str, B8, B64], Str)          # \x and the value of each byte
obf.body = lambda s, m, i: z3.If(i == 0, Nil, hexs(Snoc(Snoc(obf(s, m, i - 1), BACKSLASH), X), at(s, i - 1) ^ m))


# ------------------------------------------------------------------ library: std::stringstream
def ss_key(p):
    return ('ss', p.obj)


def _ss_new(ex, st, a, d):
    st.ghost[('ss', a[0].obj)] = Nil
    st.ghost[('sshex', a[0].obj)] = z3.BoolVal(False)


def _ss_cstr(ex, st, a, d):
    k = ss_key(a[0])
    if k not in st.ghost:
        return NotImplemented
    st.ghost[k] = mkcat(st.ghost[k], ex.cstr(st, a[1]))
    return a[0]


def _ss_manip(ex, st, a, d):
    k = ss_key(a[0])
    if k not in st.ghost:
        return NotImplemented
    if not isinstance(a[1], Fn):
        raise Unsupported('unknown manipulator')
    n = ex.mod.demangle(a[1].name)
    if n.startswith('std::hex('):
        st.ghost[('sshex', a[0].obj)] = z3.BoolVal(True)
    elif n.startswith('std::dec('):
        st.ghost[('sshex', a[0].obj)] = z3.BoolVal(False)
    else:
        raise Unsupported('manipulator ' + n)
    return a[0]


itoa32 = Spec('stream_decimal', [B32], Str)


def _ss_int(ex, st, a, d):
    k = ss_key(a[0])
    if k not in st.ghost:
        return NotImplemented
    v = bv(a[1], 32)
    if ex.peeking is None:
        r, _ = ex.pv.prove(st.pc, z3.ULE(v, 255))
        if r != 'unsat':
            raise Unsupported('text of an integer that may be above 255')
    o = st.ghost[k]
    st.ghost[k] = z3.If(st.ghost[('sshex', a[0].obj)], hexs(o, z3.Extract(7, 0, v)), cat(o, itoa32(v)))
    return a[0]


def _ss_str(ex, st, a, d):
    k = ss_key(a[1])
    if k not in st.ghost:
        return NotImplemented
    ex.set_str(st, a[0], st.ghost[k])


SST = r'std::__cxx11::basic_stringstream<char, std::char_traits<char>, std::allocator<char> >'
MODELS = [(SST + r'::basic_stringstream\(\)$', _ss_new), (SST + r'::~basic_stringstream\(\)$', lambda ex, st, a, d: None),
          (r'std::basic_ostream<char.*>& std::operator<< ?<std::char_traits<char> >\(std::basic_ostream<char.*>&, char const\*\)$', _ss_cstr),
          (r'std::basic_ostream<char, std::char_traits<char> >::operator<<\(std::ios_base& \(\*\)\(std::ios_base&\)\)$', _ss_manip),
          (r'std::basic_ostream<char, std::char_traits<char> >::operator<<\(int\)$', _ss_int),
          (SST + r'::str\(\) const$', _ss_str)]


class Coder(Contract):
    """a function from text to text"""
    def setups(self, ex):
        st = State()
        v, r = ex.new_obj(st, 'value', 'raw', 32), ex.new_obj(st, 'result', 'raw', 32)
        rt_str(ex, st, v)
        yield '', st, [Ptr(r, 0), Ptr(v, 0)]

    def havoc(self, c):
        t = fresh('text', Str)
        c.ex.put(c.st1, c.args[0].obj, c.args[0].off, AbsStr(t), 32)
        c.mods.add((c.args[0].obj, c.args[0].off))


def rt_str(ex, st, v):
    t = fresh('value', Str)
    st.assume(z3.ULT(slen(t), LIM))
    ex.put(st, v, 0, AbsStr(t), 32)
    return t


class Reveal(Coder):
    name = 'reveal'
    rx = r'^protogen\w*::reveal\('
    fuel = 2

    def post(self, c):
        s = c.s0(c.args[1])
        return [('every byte xored with the mask', c.s1(c.args[0]) == xors(s, mask(s), slen(s)))]

    @property
    def loops(self):
        def inv(L):
            s, i = L['value'], position(L)
            return [('bytes so far', L['result'] == xors(s, mask(s), i))]
        return field_loops('bytes', {'value': ('str', ['value']), 'result': ('str', ['result', 'retval'])}, inv, lambda L: slen(L['value']), False)


class Obfuscate(Coder):
    name = 'obfuscate'
    rx = r'^protogen\w*::obfuscate\('
    unit = 'cppgen'
    fuel = 2

    def post(self, c):
        s = c.s0(c.args[1])
        return [('an escape for every byte xored with the mask', c.s1(c.args[0]) == obf(s, mask(s), slen(s)))]

    @property
    def loops(self):
        def inv(L):
            s, i = L['value'], position(L)
            return [('escapes so far', L['ss'] == obf(s, mask(s), i))]
        return field_loops('bytes', {'value': ('str', ['value']), 'ss': ('ghost:ss', [])}, inv, lambda L: slen(L['value']), False)


# ------------------------------------------------------------------ the C++ literal (C++11, 2.14.3 and 2.14.5)
_G = z3.Datatype('CL')
_G.declare('Text', ('data', Str))                             # outside an escape
_G.declare('Esc', ('before', Str))                            # after a backslash
_G.declare('HexStart', ('hbefore', Str))                      # after \x
_G.declare('Hex', ('xbefore', Str), ('v', B32))               # after \x and at least one digit
_G.declare('Bad')
CL = _G.create()


def gstep(g, c):
    """an escape \\x takes every hexadecimal digit that follows; its value must fit a byte"""
    plain = lambda a: z3.If(c == BACKSLASH, CL.Esc(a), z3.If(z3.Or(c == 34, c == 10), CL.Bad, CL.Text(Snoc(a, c))))
    done = Snoc(CL.xbefore(g), z3.Extract(7, 0, CL.v(g)))
    v = CL.v(g) * 16 + hexval(c)
    return z3.If(CL.is_Text(g), plain(CL.data(g)),
                 z3.If(CL.is_Esc(g), z3.If(c == X, CL.HexStart(CL.before(g)), CL.Bad),
                       z3.If(CL.is_HexStart(g), z3.If(ishex(c), CL.Hex(CL.hbefore(g), hexval(c)), CL.Bad),
                             z3.If(CL.is_Hex(g), z3.If(ishex(c), z3.If(z3.ULE(v, 255), CL.Hex(CL.xbefore(g), v), CL.Bad), plain(done)), CL.Bad))))


G = Spec('G', [Str], CL)
G.body = lambda t: z3.If(t == Nil, CL.Text(Nil), gstep(G(init(t)), last(t)))
G.structural = 0
G.strict = True


def denotes(t, d):
    """the literal "t" denotes d"""
    g = G(t)
    return z3.Or(z3.And(CL.is_Text(g), CL.data(g) == d), z3.And(CL.is_Hex(g), Snoc(CL.xbefore(g), z3.Extract(7, 0, CL.v(g))) == d))


class Denotes(Lemma):
    """the literal made by obfuscate() denotes the xored bytes"""
    name = 'the obfuscated literal denotes the xored bytes'
    fuel = 2

    def cases(self):
        s, m, i = fresh('s', Str), fresh('m', B8), fresh('i', B64)
        P = lambda j: denotes(obf(s, m, j), xors(s, m, j))
        yield 'no bytes', [], z3.And(obf(s, m, Z64) == Nil, xors(s, m, Z64) == Nil, denotes(Nil, Nil))
        o = obf(s, m, i)
        v = at(s, i) ^ m
        full = hexs(Snoc(Snoc(o, BACKSLASH), X), v)
        for nm, cond, t in (('one digit', z3.ULT(v, 16), Snoc(Snoc(Snoc(o, BACKSLASH), X), hexdigit(v))),
                            ('two digits', z3.UGE(v, 16), Snoc(Snoc(Snoc(Snoc(o, BACKSLASH), X), hexdigit(z3.LShR(v, 4))), hexdigit(v & 15)))):
            yield 'one more byte, ' + nm, [P(i), cond], denotes(t, Snoc(xors(s, m, i), v))
            yield 'its text, ' + nm, [cond, z3.ULT(i, LIM)], obf(s, m, i + 1) == t
        yield 'its value', [z3.ULT(i, LIM)], xors(s, m, i + 1) == Snoc(xors(s, m, i), v)


class Reveals(Lemma):
    """revealing the xored bytes gives the name back"""
    name = 'reveal undoes obfuscate'
    fuel = 2

    def cases(self):
        s, m, i, n, j = fresh('s', Str), fresh('m', B8), fresh('i', B64), fresh('n', B64), fresh('j', B64)
        small = [z3.ULT(slen(s), LIM), z3.ULT(n, LIM), z3.ULT(i, LIM)]
        L = lambda k: slen(xors(s, m, k)) == k
        yield 'length of no bytes', [], L(Z64)
        yield 'length of one more byte', small + [L(n)], L(n + 1)
        A = lambda k: at(xors(s, m, k), j) == at(s, j) ^ m
        yield 'the byte just added', small + [L(n), j == n], A(n + 1)
        yield 'the bytes before it', small + [L(n), z3.ULT(j, n), A(n)], A(n + 1)
        t = xors(s, m, slen(s))
        yield 'twice, no bytes', small, xors(t, m, Z64) == take(s, Z64)
        yield 'twice, one more byte', small + [xors(t, m, i) == take(s, i), z3.ULT(i, slen(s)), at(t, i) == at(s, i) ^ m], xors(t, m, i + 1) == take(s, i + 1)
        yield 'the mask is that of the name', small + [slen(t) == slen(s)], mask(t) == mask(s)
        yield 'all of it', small + [slen(t) == slen(s), xors(t, m, slen(s)) == take(s, slen(s)), take(s, slen(s)) == s, m == mask(s), mask(t) == mask(s)], \
            xors(t, mask(t), slen(t)) == s


ALL = ['obf.Reveal', 'obf.Obfuscate']
