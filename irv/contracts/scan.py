"""Contracts of the schema tokenizer (P17): InputStream and Tokenizer of source/proto3.cc over std::istream_iterator<char>.

T is the text of the schema (all characters the stream delivers).  The stream is at a position p: the index of the next
character to be delivered, whether or not one has been given back.  Tokens are functions of T and p.
"""
from .base import *
from .kinds import *
from .kinds import MODELS as _VM
from .gen import FieldFn
from ..exec import THROW
from ..stl import S
from . import gen
from .gen import nothing, cxa_alloc, cxa_throw, norm2
import os

true, false = z3.BoolVal(True), z3.BoolVal(False)
C0 = z3.BitVecVal(0, 64)
TEXT = z3.BitVecVal((1 << 31) - 8, 64)         # the line number of a longer text need not fit in an int (documented limit)


def sp(name, sorts, res, body):
    s = Spec(name, sorts, res)
    s.body = body
    return s


BITS = lambda v, n=8: z3.BitVecVal(v, n)
N_ = lambda T: slen(T)
inn = lambda T, p: z3.ULT(p, slen(T))
isc = lambda T, p, c: z3.And(inn(T, p), at(T, p) == ord(c))
rng = lambda c, a, b: z3.And(z3.UGE(c, ord(a)), z3.ULE(c, ord(b)))
letter_ = lambda c: z3.Or(rng(c, 'A', 'Z'), rng(c, 'a', 'z'), c == ord('_'))
digit_ = lambda c: rng(c, '0', '9')
white_ = lambda c: z3.Or(c == 32, c == 9, c == 10, c == 13)
letter = lambda T, p: z3.And(inn(T, p), letter_(at(T, p)))
digit = lambda T, p: z3.And(inn(T, p), digit_(at(T, p)))
word = lambda T, p: z3.And(inn(T, p), z3.Or(letter_(at(T, p)), digit_(at(T, p))))
white = lambda T, p: z3.And(inn(T, p), white_(at(T, p)))
TP, TPR = [Str, B64], B64
# ends of runs of characters
ws = sp('ws_end', TP, B64, lambda T, p: z3.If(white(T, p), ws(T, p + 1), p))
nend = sp('word_end', TP, B64, lambda T, p: z3.If(word(T, p), nend(T, p + 1), p))
iend = sp('digits_end', TP, B64, lambda T, p: z3.If(digit(T, p), iend(T, p + 1), p))
eol = sp('line_end', TP, B64, lambda T, p: z3.If(inn(T, p), z3.If(at(T, p) == 10, p + 1, eol(T, p + 1)), p))
closes = lambda T, p: z3.And(isc(T, p, '*'), isc(T, p + 1, '/'))
eoc = sp('comment_end', TP, B64, lambda T, p: z3.If(closes(T, p), p + 2, z3.If(inn(T, p), eoc(T, p + 1), p)))
open_ = sp('comment_open', TP, BOOL, lambda T, p: z3.And(z3.Not(closes(T, p)), z3.Or(z3.Not(inn(T, p)), open_(T, p + 1))))
send = sp('literal_end', TP, B64, lambda T, p: z3.If(z3.And(inn(T, p), at(T, p) != 34, at(T, p) != 10, at(T, p) != 0), send(T, p + 1), p))
sbad = lambda T, p: z3.Not(isc(T, send(T, p), '"'))
sub = sp('part', [Str, B64, B64], Str, lambda T, a, b: z3.If(z3.ULE(b, a), Nil, Snoc(sub(T, a, b - 1), at(T, b - 1))))
nm = lambda T, p: z3.If(letter(T, p), nend(T, p), p)
aend = sp('dotted_end', TP, B64, lambda T, e: z3.If(isc(T, e, '.'), z3.If(letter(T, e + 1), aend(T, nend(T, e + 1)), e + 1), e))
abad = sp('dotted_bad', TP, BOOL, lambda T, e: z3.And(isc(T, e, '.'), z3.Or(z3.Not(letter(T, e + 1)), abad(T, nend(T, e + 1)))))
# white space and comments before a token
cstart = lambda T, p: z3.And(isc(T, p, '/'), z3.Or(isc(T, p + 1, '/'), z3.And(isc(T, p + 1, '*'), z3.Not(open_(T, p + 2)))))
cend = lambda T, p: z3.If(isc(T, p + 1, '/'), eol(T, p + 2), eoc(T, p + 2))
lay = sp('layout_end', TP, B64, lambda T, p: z3.If(cstart(T, ws(T, p)), lay(T, cend(T, ws(T, p))), ws(T, p)))

SYMBOLS = {'=': 'EQUAL', '{': 'BEGIN', '}': 'END', ';': 'SCOLON', ',': 'COMMA', '<': 'LT', '>': 'GT', '[': 'LBRACKET', ']': 'RBRACKET'}
WORDS = {'message': 'MESSAGE', 'repeated': 'REPEATED', 'enum': 'ENUM', 'package': 'PACKAGE', 'syntax': 'SYNTAX', 'map': 'MAP', 'option': 'OPTION', 'true': 'TRUE', 'false': 'FALSE',
         'optional': 'OPTIONAL', **{t: 'T_' + t.upper() for t in ('string', 'double', 'float', 'bool', 'int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'fixed32', 'fixed64',
                                                                'sfixed32', 'sfixed64', 'bytes')}}
_codes = {}


def codes(mod):
    """the numbers of the tokens"""
    if id(mod) not in _codes:
        r = {}
        if os.path.exists(mod.path + '.macros'):
            for l in open(mod.path + '.macros'):
                m = re.match(r'#define TOKEN_(\w+)\s+\(?(\d+)\)?\s*$', l)
                if m:
                    r[m.group(1)] = int(m.group(2))
        for v in mod.md.values():
            m = re.search(r'DIEnumerator\(name: "TOKEN_(\w+)", value: (\d+)', v)
            if m:
                r[m.group(1)] = int(m.group(2))
        need = set(SYMBOLS.values()) | set(WORDS.values()) | {'EOF', 'NAME', 'QNAME', 'STRING', 'INTEGER'}
        if need - set(r):
            raise Unsupported('no numbers of tokens: %s' % sorted(need - set(r)))
        if len({r[n] for n in need}) != len(need):
            raise Unsupported('token numbers are not distinct')
        _codes[id(mod)] = (r, mod)
    return _codes[id(mod)][0]


_T = z3.Datatype('Tokens')
_T.declare('TK', ('tk_code', B32), ('tk_value', Str), ('tk_rest', _T))
_T.declare('TEOF')
_T.declare('TBAD')
Toks = _T.create()
TK, TEOF, TBAD = Toks.TK, Toks.TEOF, Toks.TBAD
# the numbers: of a word, which may be a keyword, and of a token that begins with a character; a dot stands for names with dots
word_code, char_code = Spec('word_code', [Str], B32), Spec('char_code', [B8], B32)


def numbers(mod):
    """give the two functions the numbers of the source"""
    K = codes(mod)

    def words(w):
        e = BITS(K['NAME'], 32)
        for t, n in WORDS.items():
            e = z3.If(w == strlit(t), BITS(K[n], 32), e)
        return e

    def chars_(c):
        e = BITS(K['EOF'], 32)
        for ch, n in list(SYMBOLS.items()) + [('"', 'STRING'), ('.', 'QNAME')]:
            e = z3.If(c == ord(ch), BITS(K[n], 32), e)
        return z3.If(digit_(c), BITS(K['INTEGER'], 32), e)
    word_code.body, char_code.body = words, chars_


tcode = sp('token_code', TP, B32, lambda T, q: z3.If(letter(T, q), z3.If(isc(T, nend(T, q), '.'), char_code(BITS(ord('.'))), word_code(sub(T, q, nend(T, q)))), char_code(at(T, q))))
tend = sp('token_end', TP, B64, lambda T, q: z3.If(z3.Not(inn(T, q)), q, z3.If(letter(T, q), aend(T, nend(T, q)), z3.If(digit(T, q), iend(T, q), z3.If(
    at(T, q) == 34, send(T, q + 1) + 1, q + 1)))))
tval = sp('token_value', TP, Str, lambda T, q: z3.If(z3.Or(letter(T, q), digit(T, q)), sub(T, q, tend(T, q)), z3.If(isc(T, q, '"'), sub(T, q + 1, tend(T, q) - 1), Nil)))
symbol = lambda c: z3.Or(*[c == ord(x) for x in SYMBOLS])
tbad = sp('token_bad', TP, BOOL, lambda T, q: z3.And(inn(T, q), z3.If(letter(T, q), abad(T, nend(T, q)), z3.If(digit(T, q), false, z3.If(
    at(T, q) == 34, sbad(T, q + 1), z3.Not(symbol(at(T, q))))))))

# the tokens of a text from a position on
toks = sp('tokens', TP, Toks, lambda T, p: z3.If(tbad(T, lay(T, p)), TBAD, z3.If(inn(T, lay(T, p)), TK(tcode(T, lay(T, p)), tval(T, lay(T, p)), toks(T, tend(T, lay(T, p)))), TEOF)))
for _s in (word_code, char_code, tcode, tval, tbad, tend):      # not recursive
    _s.fuel = 5
kb = lambda k: k == TBAD
kend = lambda k: k == TEOF
kv = lambda k: z3.If(Toks.is_TK(k), Toks.tk_value(k), Nil)
kr = lambda k: z3.If(Toks.is_TK(k), Toks.tk_rest(k), k)


def part_axioms(fs):
    """lemma Parts: two parts next to each other are one part; bounds of runs (lemma Runs)"""
    out = []
    A = apps(fs)
    parts = [e for e in A if e.decl().name() == 'part']
    for e in A:
        n = e.decl().name()
        if n == 'cat':
            seen = set()
            for y in parts:
                T, b, c = y.children()
                if e.arg(1).decl().name() == 'part' and not e.arg(1).eq(y):
                    continue
                for x in parts:
                    a = x.arg(1)
                    if x.arg(0).eq(T) and not (a.eq(b) and e.arg(1).eq(y)) and (a, b, c) not in seen:
                        seen.add((a, b, c))
                        out.append(sub(T, a, b) == sub.body(T, a, b))
                        out.append(z3.Implies(z3.And(e.arg(0) == sub(T, a, b), e.arg(1) == y, z3.ULE(a, b), z3.ULE(b, c)), e == sub(T, a, c)))
        elif n in ('ws_end', 'word_end', 'digits_end', 'line_end', 'comment_end', 'literal_end', 'dotted_end', 'layout_end', 'token_end'):
            T, p = e.children()
            out.append(z3.Implies(z3.And(z3.ULE(p, slen(T)), z3.ULT(slen(T), LIM)), z3.And(z3.ULE(p, e), z3.ULE(e, slen(T) + (1 if n == 'token_end' else 0)))))
            if n == 'ws_end':
                out.append(z3.Implies(z3.And(z3.ULE(p, slen(T)), z3.ULT(slen(T), LIM)), z3.Not(white(T, e))))
            if n == 'word_end':
                out.append(z3.Implies(z3.And(letter(T, p), z3.ULT(slen(T), LIM)), z3.ULT(p, e)))
    return out


AXIOMS = [part_axioms]


class Parts(Lemma):
    name = 'two parts next to each other are one part'
    fuel = 2

    def cases(self):
        T, a, b, c = fresh('T', Str), fresh('a', B64), fresh('b', B64), fresh('c', B64)
        P = lambda c: cat(sub(T, a, b), sub(T, b, c)) == sub(T, a, c)
        pre = [z3.ULE(a, b), z3.ULT(c, LIM)]
        yield 'nothing more', pre + [c == b], P(c)
        yield 'one more', pre + [z3.ULE(b, c), P(c)], P(c + 1)


class Runs(Lemma):
    """by induction on what is left of the text"""
    name = 'a run ends within the text'
    fuel = 2

    def cases(self):
        T, p = fresh('T', Str), fresh('p', B64)
        n = slen(T)
        small = [z3.ULT(n, LIM), z3.ULE(p, n)]
        B = lambda f, p: z3.Implies(z3.ULE(p, n), z3.And(z3.ULE(p, f(T, p)), z3.ULE(f(T, p), n)))
        for f in (ws, nend, iend, eol, eoc, send):
            yield f.name, small + [B(f, p + 1), B(f, p + 2)], B(f, p)
        NW = lambda p: z3.Implies(z3.ULE(p, n), z3.Not(white(T, ws(T, p))))
        yield 'no white space is left', small + [NW(p + 1)], NW(p)
        yield 'a word is not empty', small + [letter(T, p), B(nend, p + 1)], z3.ULT(p, nend(T, p))
        e = nend(T, p + 1)
        yield 'dotted_end', small + [B(nend, p + 1), z3.Implies(letter(T, p + 1), z3.ULT(p + 1, e)), B(aend, e)], B(aend, p)
        q = ws(T, p)
        c = cend(T, q)
        yield 'layout_end', small + [B(ws, p), B(eol, q + 2), B(eoc, q + 2), B(lay, c)], B(lay, p)
        B1 = lambda f, p: z3.Implies(z3.ULE(p, n), z3.And(z3.ULE(p, f(T, p)), z3.ULE(f(T, p), n + 1)))
        yield 'token_end', small + [B(nend, p), z3.Implies(letter(T, p), z3.ULT(p, nend(T, p))), B(aend, nend(T, p)), B(iend, p), B(send, p + 1)], B1(tend, p)


# ---------------------------------------------------------------- library: istream_iterator<char> (assumed)
class AbsIt(Abs):
    """kw: src is the stream object, None at the end; t is the index of the character it refers to"""
    kind = 'isit'

    def fresh(self, ex, st, name):
        return AbsIt(fresh('index', B64), **self.kw)


def it_get(ex, st, p):
    return ex.abs_at(st, p, 'isit')


def it_put(ex, st, p, t, src):
    ex.put(st, p.obj, p.off, AbsIt(t, src=src), 16)


def chars(st, oid):
    return st.ghost[('chars', oid)]


def it_end(ex, st, a, d):
    it_put(ex, st, a[0], C0, None)


def it_begin(ex, st, a, d):
    if not isinstance(a[1], Ptr) or ('chars', a[1].obj) not in st.ghost:
        raise Unsupported('iterator over something else')
    reads(ex, st, a[1].obj)
    it_put(ex, st, a[0], C0, a[1].obj)


def reads(ex, st, oid):
    ex.oblige(st, 'characters are read without skipping white space', z3.Not(st.ghost[('skipws', oid)]))


def it_copy(ex, st, a, d):
    x = it_get(ex, st, a[1])
    it_put(ex, st, a[0], x.t, x.kw['src'])
    return a[0]


def it_live(ex, st, x):
    if x.kw['src'] is None:
        ex.fail(st, 'iterator is not at the end')
        raise DeadPath()
    T = chars(st, x.kw['src'])
    ex.oblige(st, 'iterator is not at the end', z3.ULT(x.t, slen(T)))
    return T


def it_deref(ex, st, a, d):
    x = it_get(ex, st, a[0])
    T = it_live(ex, st, x)
    p = Ptr(ex.new_obj(st, 'character', 'raw', 1), 0)
    ex.put(st, p.obj, 0, norm(at(T, x.t), 8), 1)
    return p


def it_inc(ex, st, a, d):
    x = it_get(ex, st, a[0])
    it_live(ex, st, x)
    reads(ex, st, x.kw['src'])
    it_put(ex, st, a[0], x.t + 1, x.kw['src'])
    return a[0]


def it_eq(ex, st, a, d):
    x, y = it_get(ex, st, a[0]), it_get(ex, st, a[1])
    end = lambda v: true if v.kw['src'] is None else z3.UGE(v.t, slen(chars(st, v.kw['src'])))
    if x.kw['src'] is not None and y.kw['src'] is not None:
        raise Unsupported('iterators into the text compared')
    e = z3.simplify(end(x) == end(y))
    return norm(z3.Not(e) if 'operator!=' in d else e, 1)


def ex_new(ex, st, a, d):
    return None


IT = r'std::istream_iterator<char, char, std::char_traits<char>, long>'
MODELS = [(IT + r'::istream_iterator\(\)$', it_end), (IT + r'::istream_iterator\(std::basic_istream', it_begin), (IT + r'::(istream_iterator|operator=)\(' + IT + r' const&\)$', it_copy),
          (IT + r'::operator\*\(\) const$', it_deref), (IT + r'::operator\+\+\(\)$', it_inc), (r'(bool )?std::operator[!=]=(<.*>)?\(' + IT + r' const&, ' + IT + r' const&\)$', it_eq),
          (r'protogen::exception::(~?exception)\(', ex_new), (r'std::runtime_error::(~?runtime_error)\(', ex_new), (r'__cxa_allocate_exception$', cxa_alloc), (r'__cxa_throw$', cxa_throw),
          (r'__cxa_free_exception$', nothing)] + _VM


# ---------------------------------------------------------------- the objects
def mem(ex, rx, need):
    m = ex.mod.members(rx)
    if not m or set(m) != set(need):
        raise Unsupported('another layout: %s' % (m,))
    return m


L_IN = lambda ex: mem(ex, r'^_ZTSN8protogen11InputStreamI', ['cur_', 'end_', 'last_', 'line_', 'column_', 'ungot_'])
L_TOK = lambda ex: mem(ex, r'^_ZTSN8protogen5TokenE$', ['code', 'value', 'line', 'column'])
L_TZ = lambda ex: mem(ex, r'^_ZTSN8protogen9TokenizerI', ['current', 'ungot', 'is'])


def size_of(ex, rx):
    for k, v in ex.mod.md.items():
        if 'DICompositeType(' in v and 'FwdDecl' not in v:
            m = re.search(r'identifier: "([^"]*)"', v)
            if m and re.search(rx, m.group(1)):
                return int(re.search(r'size: (\d+)', v).group(1)) // 8
    raise Unsupported('no size for ' + rx)


def stream_ok(T, i, l, line, col, ungot):
    n, u = slen(T), ungot != 0
    return [('text', z3.ULT(n, TEXT)), ('index', z3.ULE(i, n)), ('flag', z3.ULE(ungot, 1)),
            ('last character', z3.Or(z3.And(l == -1, i == 0), z3.And(l == -2, i == n), z3.And(i != 0, l == z3.ZeroExt(24, at(T, i - 1))))),
            ('given back', z3.Implies(u, l >= 0)),
            ('line', z3.And(line >= 1, z3.ULE(z3.ZeroExt(32, line), z3.If(l >= 0, i, i + 1)))),
            ('column', z3.And(col >= 0, z3.ULE(z3.ZeroExt(32, col), i)))]


sok = sp('stream_ok', [Str, B64, B32, B32, B32, B8], BOOL, lambda *a: z3.And(*[f for _, f in stream_ok(*a)]))
sok.fuel = 5


class In:
    """an InputStream in a state"""

    def __init__(self, ex, st, p):
        self.ex, self.st, self.p = ex, st, p
        self.m = L_IN(ex)
        x = it_get(ex, st, p.add(self.m['cur_']))
        self.i, self.src = x.t, x.kw['src']
        self.T = chars(st, self.src)
        ld = lambda f, w: bv(ex.load(st, p.add(self.m[f]), ('i', w)), w)
        self.last, self.line, self.col, self.ungot = ld('last_', 32), ld('line_', 32), ld('column_', 32), ld('ungot_', 8)
        self.u = self.ungot != 0
        self.pos = z3.If(self.u, self.i - 1, self.i)

    def ok(self):
        return stream_ok(self.T, self.i, self.last, self.line, self.col, self.ungot)

    def sound(self):
        """the same, as one predicate"""
        return [('stream', sok(self.T, self.i, self.last, self.line, self.col, self.ungot))]

    def keys(self):
        return {(self.p.obj, self.p.off + self.m[f]) for f in self.m if f != 'end_'}

    def havoc(self, st):
        ex, m, p = self.ex, self.m, self.p
        it_put(ex, st, p.add(m['cur_']), fresh('index', B64), self.src)
        for f, w in (('last_', 32), ('line_', 32), ('column_', 32), ('ungot_', 8)):
            ex.put(st, p.obj, p.off + m[f], fresh(f, z3.BitVecSort(w)), w // 8)


def in_obj(ex, st, p=None):
    s = ex.new_obj(st, 'stream', 'std::istream', None)
    st.ghost[('chars', s)] = fresh('T', Str)
    st.ghost[('skipws', s)] = false
    m = L_IN(ex)
    if p is None:
        p = Ptr(ex.new_obj(st, 'is', 'raw', size_of(ex, r'^_ZTSN8protogen11InputStreamI')), 0)
    it_put(ex, st, p.add(m['cur_']), fresh('index', B64), s)
    it_put(ex, st, p.add(m['end_']), C0, None)
    for f, w in (('last_', 32), ('line_', 32), ('column_', 32), ('ungot_', 8)):
        ex.put(st, p.obj, p.off + m[f], fresh(f, z3.BitVecSort(w)), w // 8)
    return p


def put_token(ex, st, p):
    m = L_TOK(ex)
    for f in ('code', 'line', 'column'):
        ex.put(st, p.obj, p.off + m[f], fresh(f, B32), 4)
    t = fresh('value', Str)
    st.assume(z3.ULT(slen(t), LIM))
    ex.put(st, p.obj, p.off + m['value'], AbsStr(t), 32)


class Tk:
    """a Token in a state"""

    def __init__(self, ex, st, p):
        m = L_TOK(ex)
        self.code = bv(ex.load(st, p.add(m['code']), ('i', 32)), 32)
        self.value = ex.get_str(st, p.add(m['value']))

    @staticmethod
    def keys(ex, p):
        return {(p.obj, p.off + o) for o in L_TOK(ex).values()}


def tz_obj(ex, st):
    m = L_TZ(ex)
    p = Ptr(ex.new_obj(st, 'tokenizer', 'raw', size_of(ex, r'^_ZTSN8protogen9TokenizerI')), 0)
    put_token(ex, st, p.add(m['current']))
    ex.put(st, p.obj, m['ungot'], fresh('ungot', B8), 1)
    ex.put(st, p.obj, m['is'], in_obj(ex, st), 8)
    return p


def in_of(ex, st, tz):
    return ex.load(st, tz.add(L_TZ(ex)['is']), 'ptr')


def cur_of(ex, tz):
    return tz.add(L_TZ(ex)['current'])


def ungot_of(ex, st, tz):
    return bv(ex.load(st, tz.add(L_TZ(ex)['ungot']), ('i', 8)), 8)


class Scan(Contract):
    unit = 'proto3'
    fuel = 2
    on = 'stream'

    def setups(self, ex):
        numbers(ex.mod)
        st = State()
        p = in_obj(ex, st) if self.on == 'stream' else tz_obj(ex, st)
        yield '', st, self.res(ex, st) + [p] + self.more(ex, st)

    def res(self, ex, st):
        return []

    def more(self, ex, st):
        return []

    def this(self, c):
        return c.args[0]

    def at_in(self, c, st):
        p = self.this(c)
        return In(c.ex, st, p if self.on == 'stream' else in_of(c.ex, st, p))

    def a(self, c):
        return self.at_in(c, c.st0)

    def b(self, c):
        return self.at_in(c, c.st1)

    def pre(self, c):
        return self.a(c).ok()

    def havoc(self, c):
        x = self.a(c)
        x.havoc(c.st1)
        c.mods |= x.keys()

    def post(self, c):
        y = self.b(c)
        return y.ok() + self.more_post(c, self.a(c), y)

    exception = FieldFn.exception

    def loop_view(self, L):
        c = View(L.ex, L.ex.entry, L.st, L.st.frames[0].args)
        return c, self.a(c), self.at_in(c, L.st)


INS = r'^protogen::InputStream<std::istream_iterator<.*>::'
TZS = r'^protogen::Tokenizer<std::istream_iterator<.*>::'


class Get(Scan):
    name = 'InputStream::get'
    rx = INS + r'get\(\)$'

    def havoc(self, c):
        Scan.havoc(self, c)
        return fresh('ch', B32)

    def more_post(self, c, x, y):
        more = z3.ULT(x.pos, slen(x.T))
        return [('the next character, or -1', bv(c.ret, 32) == z3.If(more, z3.ZeroExt(24, at(x.T, x.pos)), BITS(-1, 32))),
                ('position', y.pos == z3.If(more, x.pos + 1, x.pos)), ('nothing given back', z3.Not(y.u)),
                ('last', y.last == z3.If(more, z3.ZeroExt(24, at(x.T, x.pos)), BITS(-2, 32)))]


class Unget(Scan):
    name = 'InputStream::unget'
    rx = INS + r'unget\(\)$'

    def pre(self, c):
        x = self.a(c)
        return x.ok() + [('nothing given back yet', z3.Or(z3.Not(x.u), x.last < 0))]

    def more_post(self, c, x, y):
        return [('position', y.pos == z3.If(x.last >= 0, x.pos - 1, x.pos)), ('last', y.last == x.last), ('given back', y.u == z3.Or(x.u, x.last >= 0))]


class SkipWs(Scan):
    name = 'InputStream::skipws'
    rx = INS + r'skipws\(\)$'
    uses = ('Get', 'Unget')

    def more_post(self, c, x, y):
        return [('white space is skipped', y.pos == ws(x.T, x.pos))]

    @property
    def loops(self):
        def inv(L):
            c, x, y = self.loop_view(L)
            return y.ok() + [('what is left', ws(y.T, y.pos) == ws(x.T, x.pos))]

        def left(L):
            y = self.loop_view(L)[2]
            return slen(y.T) - y.pos
        return [LoopSpec('characters', {}, inv, left)]


class ExpectC(Scan):
    name = 'InputStream::expect'
    rx = INS + r'expect\(int\)$'
    uses = ('Get', 'Unget')

    def more(self, ex, st):
        return [fresh('expected', B32)]

    def pre(self, c):
        return self.a(c).ok() + [('a character', bv(c.args[1], 32) >= 0)]

    def havoc(self, c):
        Scan.havoc(self, c)
        return fresh('found', BOOL)

    def more_post(self, c, x, y):
        hit = z3.And(z3.ULT(x.pos, slen(x.T)), z3.ZeroExt(24, at(x.T, x.pos)) == bv(c.args[1], 32))
        return [('found', norm2(c.ret) == hit), ('position', y.pos == z3.If(hit, x.pos + 1, x.pos))]


class Tz(Scan):
    """a method of Tokenizer"""
    on = 'tokenizer'
    uses = ('Get', 'Unget')
    result = None           # 'token' or 'string': where the result is put

    def res(self, ex, st):
        if self.result == 'token':
            return [Ptr(ex.new_obj(st, 'result', 'raw', size_of(ex, r'^_ZTSN8protogen5TokenE$')), 0)]
        return [Ptr(ex.new_obj(st, 'result', 'raw', 32), 0)] if self.result else []

    def this(self, c):
        return c.args[1 if self.result else 0]

    def havoc(self, c):
        Scan.havoc(self, c)
        if self.result == 'token':
            put_token(c.ex, c.st1, c.args[0])
            c.mods |= Tk.keys(c.ex, c.args[0])
        elif self.result == 'string':
            t = fresh('result', Str)
            c.st1.assume(z3.ULT(slen(t), LIM))
            c.ex.put(c.st1, c.args[0].obj, c.args[0].off, AbsStr(t), 32)
            c.mods |= {(c.args[0].obj, c.args[0].off)}

    def left(self, L):
        y = self.loop_view(L)[2]
        return slen(y.T) - y.pos

    def tok(self, c):
        return Tk(c.ex, c.st1, c.args[0])


def in_result(c, L):
    """the text read so far is in the token that will be returned"""
    p = c.args[0].add(L_TOK(c.ex)['value'])
    try:
        return L.ex.get_str(L.st, p)
    except Unsupported:
        return None


def both(name, inv, left, names):
    """the text read so far is a variable, or the text of the resulting token"""
    return [LoopSpec(name, {}, lambda L: inv(L, None), left), LoopSpec(name, dict(temp=('str', names)), lambda L: inv(L, L['temp']), left)]


TEMP = {'temp': ('str', ['temp', 'name', 'result', 'agg.result', 'nrvo', 'value'])}


class Name(Tz):
    name = 'Tokenizer::name'
    rx = TZS + r'name(\[abi:cxx11\])?\(\)$'
    result = 'string'

    def more_post(self, c, x, y):
        return [('position', y.pos == nm(x.T, x.pos)), ('the word', c.s1(c.args[0]) == sub(x.T, x.pos, nm(x.T, x.pos)))]

    @property
    def loops(self):
        def inv(L):
            c, x, y = self.loop_view(L)
            f = z3.Extract(0, 0, L['first']) == 1
            return y.ok() + [('what is left', z3.If(f, y.pos == x.pos, z3.And(letter(x.T, x.pos), nend(y.T, y.pos) == nend(x.T, x.pos)))),
                             ('read so far', L['temp'] == sub(x.T, x.pos, y.pos)), ('forward', z3.ULE(x.pos, y.pos))]
        return [LoopSpec('characters', dict(TEMP, first=('i8', ['first'])), inv, self.left)]


class QName(Tz):
    """a name or several with dots between them, at a letter"""
    name = 'Tokenizer::qname'
    cost = 40
    rx = TZS + r'qname\(int, int\)$'
    result = 'token'
    uses = ('Get', 'Unget', 'Name')
    fuel = 2
    join = True

    def more(self, ex, st):
        return [fresh('line', B32), fresh('column', B32)]

    def pre(self, c):
        x = self.a(c)
        return x.ok() + [('at a letter', letter(x.T, x.pos))]

    def throws(self, c):
        x = self.a(c)
        return abad(x.T, nend(x.T, x.pos))

    def more_post(self, c, x, y):
        t, e = self.tok(c), nend(x.T, x.pos)
        return [('position', y.pos == aend(x.T, e)), ('its text', t.value == sub(x.T, x.pos, aend(x.T, e))),
                ('its kind', t.code == z3.If(isc(x.T, e, '.'), BITS(codes(c.ex.mod)['QNAME'], 32), word_code(sub(x.T, x.pos, e))))]

    @property
    def loops(self):
        def inv(L):
            c, x, y = self.loop_view(L)
            e = nend(x.T, x.pos)
            K = codes(c.ex.mod)
            return y.ok() + [('end', aend(y.T, y.pos) == aend(x.T, e)), ('badness', abad(y.T, y.pos) == abad(x.T, e)), ('read so far', L['temp'] == sub(x.T, x.pos, y.pos)),
                             ('forward', z3.And(z3.ULT(x.pos, y.pos), z3.ULE(e, y.pos))),
                             ('dots', z3.And(z3.Implies(y.pos != e, isc(x.T, e, '.')), L['type'] == z3.If(y.pos == e, BITS(K['NAME'], 32), BITS(K['QNAME'], 32))))]
        return [LoopSpec('parts', dict(TEMP, type=('i32', ['type', 'code'])), inv, self.left)]


class Integer(Tz):
    name = 'Tokenizer::integer'
    rx = TZS + r'integer\(int, int, int\)$'
    result = 'token'

    def more(self, ex, st):
        return [fresh('first', B32), fresh('line', B32), fresh('column', B32)]

    def pre(self, c):
        x = self.a(c)
        return x.ok() + [('the first digit has been read', z3.And(z3.UGE(x.pos, 1), digit(x.T, x.pos - 1), bv(c.args[2], 32) == z3.ZeroExt(24, at(x.T, x.pos - 1))))]

    def more_post(self, c, x, y):
        t, q = self.tok(c), x.pos - 1
        return [('position', y.pos == iend(x.T, q)), ('its text', t.value == sub(x.T, q, iend(x.T, q))), ('its kind', t.code == codes(c.ex.mod)['INTEGER'])]

    @property
    def loops(self):
        def inv(L, t):
            c, x, y = self.loop_view(L)
            q = x.pos - 1
            t = in_result(c, L) if t is None else t
            return y.ok() + [('end', iend(y.T, y.pos) == iend(x.T, q)), ('read so far', false if t is None else t == sub(x.T, q, y.pos)), ('forward', z3.ULE(x.pos, y.pos))]
        return both('digits', inv, self.left, ['temp', 'text', 'digits', 'value'])


class LiteralString(Tz):
    name = 'Tokenizer::literalString'
    rx = TZS + r'literalString\(int, int\)$'
    result = 'token'

    def more(self, ex, st):
        return [fresh('line', B32), fresh('column', B32)]

    def throws(self, c):
        x = self.a(c)
        return sbad(x.T, x.pos)

    def more_post(self, c, x, y):
        t = self.tok(c)
        e = send(x.T, x.pos)
        return [('position', y.pos == e + 1), ('its text', t.value == sub(x.T, x.pos, e)), ('its kind', t.code == codes(c.ex.mod)['STRING'])]

    @property
    def loops(self):
        def inv(L, t):
            c, x, y = self.loop_view(L)
            t = in_result(c, L) if t is None else t
            return y.ok() + [('end', send(y.T, y.pos) == send(x.T, x.pos)), ('read so far', false if t is None else t == sub(x.T, x.pos, y.pos)), ('forward', z3.ULE(x.pos, y.pos))]
        return both('characters', inv, self.left, ['temp', 'text', 'value', 'literal'])


class Comment(Tz):
    """after the first slash"""
    name = 'Tokenizer::comment'
    rx = TZS + r'comment\(int, int\)$'
    result = 'token'
    uses = ('Get', 'Unget', 'ExpectC')

    def more(self, ex, st):
        return [fresh('line', B32), fresh('column', B32)]

    def throws(self, c):
        x = self.a(c)
        return z3.Not(z3.Or(isc(x.T, x.pos, '/'), z3.And(isc(x.T, x.pos, '*'), z3.Not(open_(x.T, x.pos + 1)))))

    def more_post(self, c, x, y):
        return [('position', y.pos == z3.If(isc(x.T, x.pos, '/'), eol(x.T, x.pos + 1), eoc(x.T, x.pos + 1)))]

    @property
    def loops(self):
        def line(L):
            c, x, y = self.loop_view(L)
            return y.ok() + [('it is a line comment', isc(x.T, x.pos, '/')), ('end', eol(y.T, y.pos) == eol(x.T, x.pos + 1)), ('forward', z3.ULT(x.pos, y.pos))]

        def block(L):
            c, x, y = self.loop_view(L)
            return y.ok() + [('it is a block comment', isc(x.T, x.pos, '*')), ('end', eoc(y.T, y.pos) == eoc(x.T, x.pos + 1)), ('is it closed', open_(y.T, y.pos) == open_(x.T, x.pos + 1)),
                             ('forward', z3.ULT(x.pos, y.pos))]
        return [LoopSpec('line', {}, line, self.left), LoopSpec('block', {}, block, self.left)]


class Next(Tz):
    """the next token, or the one given back"""
    name = 'Tokenizer::next'
    cost = 60
    rx = TZS + r'next\(\)$'
    result = 'token'
    uses = ('Get', 'Unget', 'SkipWs', 'QName', 'Integer', 'LiteralString', 'Comment')
    fuel = 2

    def state(self, c):
        x = self.a(c)
        return x, ungot_of(c.ex, c.st0, self.this(c)) != 0

    def pre(self, c):
        return self.a(c).sound() + [('flag', z3.ULE(ungot_of(c.ex, c.st0, self.this(c)), 1))]

    def throws(self, c):
        x, u = self.state(c)
        return z3.And(z3.Not(u), kb(toks(x.T, x.pos)))

    def havoc(self, c):
        Tz.havoc(self, c)
        p = cur_of(c.ex, self.this(c))
        put_token(c.ex, c.st1, p)
        c.mods |= Tk.keys(c.ex, p)
        o = L_TZ(c.ex)['ungot']
        c.ex.put(c.st1, self.this(c).obj, self.this(c).off + o, 0, 1)
        c.mods.add((self.this(c).obj, self.this(c).off + o))

    def post(self, c):
        x, y = self.a(c), self.b(c)
        u = self.state(c)[1]
        t, cur, old = self.tok(c), Tk(c.ex, c.st1, cur_of(c.ex, self.this(c))), Tk(c.ex, c.st0, cur_of(c.ex, self.this(c)))
        k = toks(x.T, x.pos)
        eof = codes(c.ex.mod)['EOF']
        return y.sound() + [('within the text', z3.And(z3.ULE(y.pos, slen(x.T)), z3.ULT(slen(x.T), TEXT))), ('kind', cur.code == z3.If(u, old.code, z3.If(kend(k), BITS(eof, 32), Toks.tk_code(k)))), ('text', cur.value == z3.If(u, old.value, kv(k))),
                ('only the end has the number of the end', z3.Implies(z3.And(z3.Not(u), cur.code == eof), kend(k))),
                ('the rest', toks(y.T, y.pos) == z3.If(u, k, kr(k))), ('forward', z3.If(u, y.pos == x.pos, z3.If(kend(k), z3.ULE(x.pos, y.pos), z3.ULT(x.pos, y.pos)))),
                ('what is returned', z3.And(t.code == cur.code, t.value == cur.value)), ('none is given back', ungot_of(c.ex, c.st1, self.this(c)) == 0)]

    @property
    def loops(self):
        def inv(L):
            c, x, y = self.loop_view(L)
            u = ungot_of(c.ex, L.st, self.this(c))
            return y.ok() + [('what is left', lay(y.T, y.pos) == lay(x.T, x.pos)), ('given back', z3.And(z3.ULE(u, 1), z3.Implies(u != 0, y.pos == x.pos))),
                             ('given back as before', u == ungot_of(c.ex, c.st0, self.this(c)))]
        return [LoopSpec('comments', {}, inv, self.left)]


class TzUnget(Tz):
    name = 'Tokenizer::unget'
    rx = TZS + r'unget\(\)$'

    def pre(self, c):
        return [('none is given back yet', ungot_of(c.ex, c.st0, self.this(c)) == 0)]

    def havoc(self, c):
        o = L_TZ(c.ex)['ungot']
        c.ex.put(c.st1, self.this(c).obj, self.this(c).off + o, 1, 1)
        c.mods.add((self.this(c).obj, self.this(c).off + o))

    def post(self, c):
        return [('the token is given back', ungot_of(c.ex, c.st1, self.this(c)) == 1)]


SCAN = ['scan.Get', 'scan.Unget', 'scan.SkipWs', 'scan.ExpectC', 'scan.Name', 'scan.QName', 'scan.Integer', 'scan.LiteralString', 'scan.Comment', 'scan.Next', 'scan.TzUnget']
LEMMAS = ['scan.Parts', 'scan.Runs']
