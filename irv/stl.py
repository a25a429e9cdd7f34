"""Assumed contracts of the C++ and C standard library, one per method (the trusted base).

Each model matches a demangled name and acts on abstract values: std::string and
vectors of bytes are sequences of bytes (sort Str).  `Models.used` records which
ones a proof relied on, so that the evidence can list them.
"""
import re, z3
from .sym import *
from .exec import *

S = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'
TABLE = []


def model(rx):
    r = re.compile(rx)

    def deco(f):
        TABLE.append((r, f))
        return f
    return deco


class Models:
    def __init__(self, extra=()):
        self.extra = [(re.compile(r), f) for r, f in extra]
        self.cache = {}
        self.used = set()

    def __call__(self, ex, st, dem, name, args, rt):
        if dem not in self.cache:
            hit = None
            for r, f in self.extra + TABLE:
                if r.match(dem):
                    hit = (r.pattern, f)
                    break
            self.cache[dem] = hit
        h = self.cache[dem]
        if h is None:
            return None
        res = h[1](ex, st, args, dem)
        if res is NotImplemented:
            return None
        if ex.peeking is None:
            self.used.add(re.sub(re.escape(S).replace('\\ ', ' '), 'std::string', dem).replace(
                'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'std::string')[:150])
        if not isinstance(res, list):
            res = [(st, res)]
        return res


# ------------------------------------------------------------------ data of strings and byte vectors
class SeqData:
    """read-only view of the bytes of a sequence term"""

    def __init__(self, term, nul):
        self.term, self.nul = term, nul
        self.len = mklen(term)

    def load(self, ex, st, p, rt, size):
        if size != 1:
            raise Unsupported('wide read of string data')
        off = p.off
        n = self.len
        if isinstance(off, int) and isinstance(n, int):
            if not (0 <= off < n + (1 if self.nul else 0)):
                ex.fail(st, 'read of string data within bounds')
                raise DeadPath()
        else:
            o, nn = bv(off, 64), bv(n, 64)
            ex.oblige(st, 'read of string data within bounds', z3.ULE(o, nn) if self.nul else z3.ULT(o, nn))
        if isinstance(off, int):
            l = lit_of(self.term)
            if l is not None:
                return l[off] if off < len(l) else 0
        v = at(self.term, bv(off, 64))
        if self.nul:
            v = z3.If(bv(off, 64) == bv(n, 64), z3.BitVecVal(0, 8), v)
        return norm(v, 8)

    def store(self, ex, st, p, v, rt, size):
        raise Unsupported('write through string data')

    def cstr(self, ex, st, p):
        if isinstance(p.off, int) and p.off == 0 and self.nul:
            return self.term       # the C string is the prefix up to the first NUL; see NULFREE note
        raise Unsupported('C string inside string data')


def seqdata(ex, st, owner, term, nul):
    key = 'data:%s:%s:%d:%d' % (owner.obj, owner.off, term.get_id(), int(nul))
    ex.consts[key] = term       # keep the term alive: the key uses its id
    if key not in st.mem:
        o = Obj(key, key, 'sdata', None, None, SeqData(term, nul))
        st.mem[key] = o
    return Ptr(key, 0)


def seqptr_term(ex, st, p):
    o = st.mem[p.obj]
    if not isinstance(o.meta, SeqData):
        raise Unsupported('not string data')
    return o.meta


# ------------------------------------------------------------------ std::string
@model(r'std::allocator<.*>::(~?allocator)\(|std::__new_allocator<.*>::~?__new_allocator\(')
def _(ex, st, a, d):
    return None


@model(S + r'::basic_string\(\)$')
def _(ex, st, a, d):
    ex.set_str(st, a[0], Nil)


@model(S + r'::basic_string\(std::allocator<char> const&\)$')
def _(ex, st, a, d):
    ex.set_str(st, a[0], Nil)


@model(S + r'::basic_string\(' + S + r' const&\)$')
def _(ex, st, a, d):
    ex.set_str(st, a[0], ex.get_str(st, a[1]))


@model(S + r'::basic_string\(' + S + r'&&\)$')
def _(ex, st, a, d):
    t = ex.get_str(st, a[1])
    ex.set_str(st, a[1], Nil)
    ex.set_str(st, a[0], t)


@model(S + r'::basic_string<.*>\(char const\*, std::allocator<char> const&\)$|' + S + r'::basic_string\(char const\*, std::allocator<char> const&\)$')
def _(ex, st, a, d):
    ex.set_str(st, a[0], ex.cstr(st, a[1]))


@model(S + r'::basic_string\(char const\*, unsigned long, std::allocator<char> const&\)$')
def _(ex, st, a, d):
    n = a[2]
    if not isinstance(n, int):
        raise Unsupported('string(ptr, symbolic length)')
    ex.check_ptr(st, a[1], max(n, 1), 'read')
    t = Nil
    for k in range(n):
        t = Snoc(t, bv(ex.load(st, a[1].add(k), ('i', 8)), 8))
    ex.set_str(st, a[0], t)


@model(S + r'::basic_string\(unsigned long, char, std::allocator<char> const&\)$')
def _(ex, st, a, d):
    if not isinstance(a[1], int):
        raise Unsupported('string(symbolic n, c)')
    t = Nil
    for k in range(a[1]):
        t = Snoc(t, bv(a[2], 8))
    ex.set_str(st, a[0], t)


@model(S + r'::~basic_string\(\)$')
def _(ex, st, a, d):
    return None


@model(S + r'::operator=\(' + S + r' const&\)$|' + S + r'::assign\(' + S + r' const&\)$')
def _(ex, st, a, d):
    ex.set_str(st, a[0], ex.get_str(st, a[1]))
    return a[0]


@model(S + r'::operator=\(' + S + r'&&\)$')
def _(ex, st, a, d):
    t = ex.get_str(st, a[1])
    if not same(a[0], a[1]):
        ex.set_str(st, a[1], Nil)
    ex.set_str(st, a[0], t)
    return a[0]


@model(S + r'::(operator=|assign)\(char const\*\)$')
def _(ex, st, a, d):
    ex.set_str(st, a[0], ex.cstr(st, a[1]))
    return a[0]


@model(S + r'::(operator\+=|append)\(char const\*\)$')
def _(ex, st, a, d):
    ex.set_str(st, a[0], mkcat(ex.get_str(st, a[0]), ex.cstr(st, a[1])))
    return a[0]


@model(S + r'::(operator\+=|append)\(' + S + r' const&\)$')
def _(ex, st, a, d):
    ex.set_str(st, a[0], mkcat(ex.get_str(st, a[0]), ex.get_str(st, a[1])))
    return a[0]


@model(S + r'::(operator\+=|push_back)\(char\)$')
def _(ex, st, a, d):
    if a[1] is UNDEF:
        ex.fail(st, 'append of an uninitialised value')
        raise DeadPath()
    ex.set_str(st, a[0], Snoc(ex.get_str(st, a[0]), bv(a[1], 8)))
    return a[0]


@model(S + r'::append\(unsigned long, char\)$')
def _(ex, st, a, d):
    if not isinstance(a[1], int):
        raise Unsupported('append(symbolic n, c)')
    t = ex.get_str(st, a[0])
    for _ in range(a[1]):
        t = Snoc(t, bv(a[2], 8))
    ex.set_str(st, a[0], t)
    return a[0]


@model(S + r'::clear\(\)$')
def _(ex, st, a, d):
    ex.set_str(st, a[0], Nil)


@model(S + r'::pop_back\(\)$')
def _(ex, st, a, d):
    t = ex.get_str(st, a[0])
    ex.oblige(st, 'pop_back of a non-empty string', t != Nil)
    ex.set_str(st, a[0], init(t))


@model(S + r'::(reserve\(.*\)|shrink_to_fit\(\))$')
def _(ex, st, a, d):
    return None


@model(S + r'::(size|length)\(\) const$')
def _(ex, st, a, d):
    t = ex.get_str(st, a[0])
    n = mklen(t)
    if not isinstance(n, int):
        st.assume(z3.ULT(n, LIM))
        n = norm(n, 64)
    return n


@model(S + r'::empty\(\) const$')
def _(ex, st, a, d):
    return norm(ex.get_str(st, a[0]) == Nil, 1)


@model(S + r'::(operator\[\]|at)\(unsigned long\)( const)?$')
def _(ex, st, a, d):
    t = ex.get_str(st, a[0])
    return seqdata(ex, st, a[0], t, True).add(a[1])


@model(S + r'::(c_str|data)\(\) const$|' + S + r'::data\(\)$')
def _(ex, st, a, d):
    return seqdata(ex, st, a[0], ex.get_str(st, a[0]), True)


@model(S + r'::c?begin\(\)( const)?$')
def _(ex, st, a, d):
    return seqdata(ex, st, a[0], ex.get_str(st, a[0]), False)


@model(S + r'::c?end\(\)( const)?$')
def _(ex, st, a, d):
    t = ex.get_str(st, a[0])
    n = mklen(t)
    if not isinstance(n, int):
        st.assume(z3.ULT(n, LIM))
    return seqdata(ex, st, a[0], t, False).add(n)


@model(S + r'::(back|front)\(\)( const)?$')
def _(ex, st, a, d):
    t = ex.get_str(st, a[0])
    ex.oblige(st, 'back/front of a non-empty string', t != Nil)
    n = mklen(t)
    p = seqdata(ex, st, a[0], t, True)
    return p.add(addoff(n, -1)) if '::back' in d else p


@model(S + r'::swap\(' + S + r'&\)$|.*std::swap<char, std::char_traits<char>, std::allocator<char> >\(' + S + r'&, ' + S + r'&\)$')
def _(ex, st, a, d):
    x, y = ex.get_str(st, a[0]), ex.get_str(st, a[1])
    ex.set_str(st, a[0], y)
    ex.set_str(st, a[1], x)


@model(S + r'::compare\(char const\*\) const$')
def _(ex, st, a, d):
    e = ex.get_str(st, a[0]) == ex.cstr(st, a[1])
    r = fresh('compare', B32)
    st.assume((r == 0) == e)
    return r


@model(S + r'::compare\(' + S + r' const&\) const$')
def _(ex, st, a, d):
    e = ex.get_str(st, a[0]) == ex.get_str(st, a[1])
    r = fresh('compare', B32)
    st.assume((r == 0) == e)
    return r


@model(r'(bool )?std::operator(==|!=)(<char.*>| ?<char, std::char_traits<char>, std::allocator<char> >)\(' + S + r' const&, ' + S + r' const&\)$|'
       r'.*std::enable_if<.*> std::operator==<char>\(' + S + r' const&, ' + S + r' const&\)$|'
       r'std::enable_if<.*>::type std::operator==<char>\(.*\)$')
def _(ex, st, a, d):
    e = ex.get_str(st, a[0]) == ex.get_str(st, a[1])
    return norm(z3.Not(e) if 'operator!=' in d else e, 1)


@model(r'(bool )?std::operator(==|!=)<char, std::char_traits<char>, std::allocator<char> >\(' + S + r' const&, char const\*\)$')
def _(ex, st, a, d):
    e = ex.get_str(st, a[0]) == ex.cstr(st, a[1])
    return norm(z3.Not(e) if 'operator!=' in d else e, 1)


@model(r'.*std::operator\+<char, std::char_traits<char>, std::allocator<char> >\(.*\)$')
def _(ex, st, a, d):
    sig = d[d.index('std::operator+<') + len('std::operator+<char, std::char_traits<char>, std::allocator<char> >('):-1]
    parts = split_args(sig)

    def arg(p, v):
        if p == 'char':
            return strlit(bytes([v])) if isinstance(v, int) else Snoc(Nil, v)
        if p.startswith('char const*'):
            return ex.cstr(st, v)
        return ex.get_str(st, v)
    ex.set_str(st, a[0], mkcat(arg(parts[0], a[1]), arg(parts[1], a[2])))


def split_args(s):
    out, d, cur = [], 0, ''
    for c in s:
        d += c in '<(['
        d -= c in '>)]'
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


itoa = Spec('itoa', [INT], Str)      # decimal text of an integer; body given where it is needed


@model(r'std::__cxx11::to_string\((int|unsigned int|long|unsigned long)\)$')
def _(ex, st, a, d):
    w = 32 if 'int)' in d else 64
    v = a[1]
    if isinstance(v, int) and not is_sym(v):
        v = z3.BitVecVal(v, w)
    signed = 'unsigned' not in d
    if z3.is_bv_value(z3.simplify(v)):
        k = z3.simplify(v).as_signed_long() if signed else z3.simplify(v).as_long()
        ex.set_str(st, a[0], strlit(str(k)))
        return
    ex.set_str(st, a[0], itoa(z3.BV2Int(v, signed)))


# ------------------------------------------------------------------ vectors of bytes
VB = r'std::vector<(unsigned char|char), std::allocator<(unsigned char|char)> >'


class AbsBytes(Abs):
    kind = 'bytes'

    def fresh(self, ex, st, name):
        t = fresh('hvv_' + name, Str)
        st.assume(z3.ULT(slen(t), LIM))
        return AbsBytes(t)


def get_bytes(ex, st, p):
    return ex.abs_at(st, p, 'bytes').t


def set_bytes(ex, st, p, t):
    ex.set_abs(st, p, AbsBytes(t), 24)


@model(VB + r'::vector\(\)$')
def _(ex, st, a, d):
    set_bytes(ex, st, a[0], Nil)


@model(VB + r'::~vector\(\)$')
def _(ex, st, a, d):
    return None


@model(VB + r'::vector\(' + VB + r' const&\)$')
def _(ex, st, a, d):
    set_bytes(ex, st, a[0], get_bytes(ex, st, a[1]))


@model(VB + r'::vector\(' + VB + r'&&\)$')
def _(ex, st, a, d):
    t = get_bytes(ex, st, a[1])
    set_bytes(ex, st, a[1], Nil)
    set_bytes(ex, st, a[0], t)


@model(VB + r'::operator=\(' + VB + r' const&\)$')
def _(ex, st, a, d):
    set_bytes(ex, st, a[0], get_bytes(ex, st, a[1]))
    return a[0]


@model(VB + r'::(size)\(\) const$')
def _(ex, st, a, d):
    n = mklen(get_bytes(ex, st, a[0]))
    if not isinstance(n, int):
        st.assume(z3.ULT(n, LIM))
        n = norm(n, 64)
    return n


@model(VB + r'::empty\(\) const$')
def _(ex, st, a, d):
    return norm(get_bytes(ex, st, a[0]) == Nil, 1)


@model(VB + r'::clear\(\)$')
def _(ex, st, a, d):
    set_bytes(ex, st, a[0], Nil)


@model(VB + r'::reserve\(unsigned long\)$')
def _(ex, st, a, d):
    return None


@model(VB + r'::push_back\((unsigned )?char( const&|&&)\)$|.*' + VB + r'::emplace_back<.*>\(.*\)$')
def _(ex, st, a, d):
    v = ex.load(st, a[1], ('i', 8))
    if v is UNDEF:
        ex.fail(st, 'push_back of an uninitialised value')
        raise DeadPath()
    set_bytes(ex, st, a[0], Snoc(get_bytes(ex, st, a[0]), bv(v, 8)))
    return NULL


@model(VB + r'::operator\[\]\(unsigned long\)( const)?$')
def _(ex, st, a, d):
    return seqdata(ex, st, a[0], get_bytes(ex, st, a[0]), False).add(a[1])


@model(VB + r'::c?begin\(\)( const)?$')
def _(ex, st, a, d):
    return seqdata(ex, st, a[0], get_bytes(ex, st, a[0]), False)


@model(VB + r'::c?end\(\)( const)?$')
def _(ex, st, a, d):
    t = get_bytes(ex, st, a[0])
    n = mklen(t)
    if not isinstance(n, int):
        st.assume(z3.ULT(n, LIM))
    return seqdata(ex, st, a[0], t, False).add(n)


@model(r'(bool )?std::operator==<(unsigned )?char, std::allocator<(unsigned )?char> >\(' + VB + r' const&, ' + VB + r' const&\)$')
def _(ex, st, a, d):
    return norm(get_bytes(ex, st, a[0]) == get_bytes(ex, st, a[1]), 1)


@model(r'.*std::swap<(unsigned )?char, std::allocator<(unsigned )?char> >\(' + VB + r'&, ' + VB + r'&\)$|' + VB + r'::swap\(.*\)$')
def _(ex, st, a, d):
    x, y = get_bytes(ex, st, a[0]), get_bytes(ex, st, a[1])
    set_bytes(ex, st, a[0], y)
    set_bytes(ex, st, a[1], x)


# ------------------------------------------------------------------ C library
def hexval(c):
    """value of a hexadecimal digit (BV8), as BV32; 0 for anything else"""
    c = z3.ZeroExt(24, bv(c, 8))
    return z3.If(z3.And(z3.UGE(c, 48), z3.ULE(c, 57)), c - 48,
                 z3.If(z3.And(z3.UGE(c, 65), z3.ULE(c, 70)), c - 55,
                       z3.If(z3.And(z3.UGE(c, 97), z3.ULE(c, 102)), c - 87, z3.BitVecVal(0, 32))))


def ishex(c):
    c = bv(c, 8)
    return z3.Or(z3.And(z3.UGE(c, 48), z3.ULE(c, 57)), z3.And(z3.UGE(c, 65), z3.ULE(c, 70)),
                 z3.And(z3.UGE(c, 97), z3.ULE(c, 102)))


s2l = Spec('strtol10', [Str], B64)       # strtol / strtoul, base 10, as functions of the text
s2ul = Spec('strtoul10', [Str], B64)


@model(r'(__isoc23_)?strto(u?)l(l?)$')
def _(ex, st, a, d):
    base = a[2]
    t = ex.cstr(st, a[0])
    if a[1] is not NULL and not (isinstance(a[1], Ptr) and a[1].obj is None):
        raise Unsupported('strtol with an end pointer')
    if base == 10:
        f = s2ul if 'toul' in d else s2l
        return f(t)
    if base == 16:
        cs = []
        while t.decl().name() == 'Snoc':
            cs.append(t.arg(1))
            t = t.arg(0)
        if t.decl().name() != 'Nil' or not (1 <= len(cs) <= 7):
            raise Unsupported('strtol base 16 of unknown text')
        v = z3.BitVecVal(0, 64)
        ok = []
        for c in reversed(cs):
            ok.append(ishex(c))
            v = v * 16 + z3.ZeroExt(32, hexval(c))
        r, _ = ex.pv.prove(st.pc, z3.And(*ok))
        if r != 'unsat':
            return norm(z3.If(z3.And(*ok), v, fresh('strtol', z3.BitVecSort(64))), 64)     # not hexadecimal: any value
        return norm(v, 64)
    if isinstance(base, int):
        return z3.Function('strtol_base', z3.BitVecSort(64), Str, z3.BitVecSort(64))(z3.BitVecVal(base, 64), t)
    raise Unsupported('strtol base')


def hexdigit(v):
    """lower-case digit of a 4-bit value (BV8)"""
    return z3.If(z3.ULT(v, 10), v + 48, v + 87)


@model(r'snprintf$')
def _(ex, st, a, d):
    fmt = lit_of(ex.cstr(st, a[2]))
    size = a[1]
    if fmt == b'\\u%04x' and isinstance(size, int):
        v = bv(a[3], 32)
        if isinstance(a[3], int) and a[3] > 0xFFFF or not isinstance(a[3], int):
            # five or more digits would not fit the model
            r, _ = ex.pv.prove(st.pc, z3.ULE(v, 0xFFFF))
            if r != 'unsat':
                ex.oblige(st, '\\u escape has four digits', z3.ULE(v, 0xFFFF))
        ex.check_ptr(st, a[0], size, 'write')
        out = [92, 117] + [norm(hexdigit(z3.Extract(4 * k + 3, 4 * k, v) if False else z3.ZeroExt(4, z3.Extract(4 * k + 3, 4 * k, v))), 8)
                           for k in (3, 2, 1, 0)] + [0]
        if size < len(out):
            out = out[:size - 1] + [0] if size > 0 else []
        for k, b in enumerate(out):
            ex.put(st, a[0].obj, a[0].off + k, b, 1)
        return 6
    return NotImplemented


@model(r'__cxa_guard_acquire$')
def _(ex, st, a, d):
    return 1


@model(r'__cxa_guard_(release|abort)$|__cxa_atexit$')
def _(ex, st, a, d):
    return 0


@model(r'std::__throw_.*')
def _(ex, st, a, d):
    ex.fail(st, 'library precondition (%s)' % d.split('(')[0])
    raise DeadPath()
