"""Contracts of json<T> for numbers, text and their wrappers: read, write, empty, clear, equal, swap (P01, P05-P09, P22)."""
from .base import *
from .strings import Writer, StringWrite
from .read import JRead, NumRead, ReadBool, NUMT, isid, tval, T, numvalue, T_ONLY, MODELS, AXIOMS, locale_state, d2s
from .fields import Num, Txt, TYPES, SORTS
from ..stl import itoa
from . import read as _read

J = r'^protogen\w*::json<'
STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'
DIG = {'float': 9, 'double': 17}      # std::numeric_limits<T>::max_digits10


def _numtext(ty, v):
    if ty == 'bool':
        return z3.If(v != 0, strlit('true'), strlit('false'))
    k, w, sg = NUMT[ty]
    if k == 'i':
        return itoa(z3.BV2Int(v, sg))
    return d2s(z3.BitVecVal(DIG[ty], 32), v if w == 64 else z3.fpFPToFP(z3.RNE(), v, z3.FPSort(11, 53)))


NTEXT = {}
for _t in SORTS:
    if _t in NUMT or _t == 'bool':
        NTEXT[_t] = Spec('numtext_' + _t.replace(' ', '_'), [SORTS[_t]], Str)
        NTEXT[_t].body = (lambda ty: lambda v: _numtext(ty, v))(_t)


def numtext(ty, v):
    """the text a number is written as"""
    return NTEXT[ty](v)


# ---------------------------------------------------------------- writing
class PlainWrite(Writer):
    """a writer that cannot fail"""
    fuel = 1
    L = None
    where = 'value'

    def setups(self, ex):
        st = State()
        p = self.ctx(ex, st)
        v = ex.new_obj(st, 'value', 'raw', self.L.w)
        self.L.put_plain(ex, st, Ptr(v, 0))
        if self.L.fp:
            locale_state(ex, st)
        yield '', st, [p, Ptr(v, 0)]

    def havoc(self, c):
        k = self.out(c, c.st0)
        c.mods.add(k)
        w = fresh('w', Str)
        c.aux['w'] = w
        c.st1.ghost[k] = mkcat(c.st0.ghost[k], w)
        return rt(c.ex).res['PGR_OK']

    def text(self, c):
        return numtext(self.L.ty, self.L.raw(c.ex, c.st0, c.args[1]))

    def post(self, c):
        return [('always succeeds', bv(c.ret, 32) == rt(c.ex).res['PGR_OK']), ('writes the number', self.w(c) == self.text(c))]


class FieldWrite(PlainWrite):
    def setups(self, ex):
        st = State()
        p = self.ctx(ex, st)
        v = ex.new_obj(st, 'value', 'raw', self.L.size(ex))
        self.L.put(ex, st, Ptr(v, 0))
        if self.L.fp:
            locale_state(ex, st)
        yield '', st, [p, Ptr(v, 0)]

    def pre(self, c):
        return [('the wrapper is valid', self.L.inv(c.ex, c.st0, c.args[1]))]

    def post(self, c):
        s = self.L.isset(c.ex, c.st0, c.args[1])
        return [('always succeeds', bv(c.ret, 32) == rt(c.ex).res['PGR_OK']),
                ('an unset field is written as null', z3.Implies(z3.Not(s), self.w(c) == strlit('null'))),
                ('a set field is written as its number', z3.Implies(s, self.w(c) == numtext(self.L.ty, self.L.val(c.ex, c.st0, c.args[1]))))]


class StrFieldWrite(Writer):
    name = 'json<string_field>::write'
    rx = J + r'protogen\w*::string_field, void>::write\('
    uses = ('strings.StringWrite', 'fields.StrEmpty')
    fuel = 1
    L = Txt()

    def setups(self, ex):
        st = State()
        p = self.ctx(ex, st)
        v = ex.new_obj(st, 'value', 'raw', self.L.size(ex))
        self.L.put(ex, st, Ptr(v, 0))
        yield '', st, [p, Ptr(v, 0)]

    def pre(self, c):
        return [('the wrapper is valid', self.L.inv(c.ex, c.st0, c.args[1]))]

    def post(self, c):
        s = self.L.isset(c.ex, c.st0, c.args[1])
        d = View(c.ex, c.st0, c.st1, [c.args[0], c.args[1].add(self.L.lay(c.ex)[0]['value_'])])
        d.ret, d.aux, d.mods = c.ret, c.aux, c.mods
        R = rt(c.ex)
        return [('an unset field is written as null', z3.Implies(z3.Not(s), z3.And(self.w(c) == strlit('null'), bv(c.ret, 32) == R.res['PGR_OK'], self.code(c) == self.code(c, True))))] + \
               [(n, z3.Implies(s, f)) for n, f in StringWrite().post(d)] + \
               [('OK or ERROR', z3.Or(bv(c.ret, 32) == R.res['PGR_OK'], bv(c.ret, 32) == R.res['PGR_ERROR']))]


# ---------------------------------------------------------------- reading
class StrRead(JRead):
    name = 'json<std::string>::read'
    rx = J + STR + r', void>::read\('

    def values(self, ex, st):
        v = ex.new_obj(st, 'value', 'raw', 32)
        rt(ex).strv(ex, st, Ptr(v, 0), 'value')
        yield '', Ptr(v, 0)

    def okf(self, t):
        return isid(t, 'STRING')

    def put(self, c):
        c.h_str(c.args[1])

    def value(self, c, t):
        return [('the value is the decoded text', c.s1(c.args[1]) == tval(T(t)))]

    def kept(self, c):
        return c.s1(c.args[1]) == c.s0(c.args[1])


class WrapRead(JRead):
    """json<wrapper>::read"""
    L = None
    keeps_on_error = False

    def values(self, ex, st):
        v = ex.new_obj(st, 'value', 'raw', self.L.size(ex))
        self.L.put(ex, st, Ptr(v, 0))
        if self.L.fp:
            locale_state(ex, st)
        yield '', Ptr(v, 0)

    def pre(self, c):
        return super().pre(c) + [('the wrapper is valid', self.L.inv(c.ex, c.st0, c.args[1]))]

    def put(self, c):
        self.L.put(c.ex, c.st1, c.args[1])
        c.mods |= self.L.keys(c.ex, c.args[1])

    def post(self, c):
        return super().post(c) + [('the wrapper stays valid', self.L.inv(c.ex, c.st1, c.args[1]))]

    def kept(self, c):
        L, x, p = self.L, c.ex, c.args[1]
        return z3.And(L.isset(x, c.st1, p) == L.isset(x, c.st0, p), L.val(x, c.st1, p) == L.val(x, c.st0, p))

    def value(self, c, t):
        L, x, p = self.L, c.ex, c.args[1]
        v = numvalue(L.ty, tval(T(t))) if L.ty != 'bool' else z3.If(isid(t, 'BTRUE'), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        return [('the field is set', L.isset(x, c.st1, p)), ('to the number written', L.val(x, c.st1, p) == v)]

    def okf(self, t):
        return isid(t, 'BTRUE', 'BFALSE') if self.L.ty == 'bool' else isid(t, 'NUMBER')


class StrFieldRead(WrapRead):
    name = 'json<string_field>::read'
    rx = J + r'protogen\w*::string_field, void>::read\('
    L = Txt()
    uses = JRead.uses + ('StrRead', 'fields.StrAssignValue', 'fields.StrSetEmpty')
    nil_changes = True

    def okf(self, t):
        return isid(t, 'STRING')

    def value(self, c, t):
        L, x, p = self.L, c.ex, c.args[1]
        return [('the field is set', L.isset(x, c.st1, p)), ('to the decoded text', L.val(x, c.st1, p) == tval(T(t)))]

    def on_nil(self, c):
        return [('null unsets the field', z3.Not(self.L.isset(c.ex, c.st1, c.args[1])))]


# ---------------------------------------------------------------- empty, clear, equal, swap
class VM(Contract):
    """empty/clear/equal/swap of json<T> over an element kind K.
    K gives: size(ex), put(ex,st,p), inv, keys(ex,p), is-empty, equality and the zero value"""
    fuel = 1
    op = 'empty'
    K = None

    def setups(self, ex):
        n = 1 if self.op in ('empty', 'clear') else 2
        for al in ([False, True] if n == 2 else [False]):
            st = State()
            args = []
            for i in range(n):
                if al and i:
                    args.append(args[0])
                    continue
                o = ex.new_obj(st, 'ab'[i], 'raw', self.K.size(ex))
                self.K.put(ex, st, Ptr(o, 0))
                args.append(Ptr(o, 0))
            if getattr(self.K, 'fp', False):
                locale_state(ex, st)
            yield ' (aliased)' if al else '', st, args

    def pre(self, c):
        return [('value %d is valid' % i, self.K.inv(c.ex, c.st0, p)) for i, p in enumerate(c.args)]

    def havoc(self, c):
        if self.op in ('empty', 'equal'):
            return fresh('r', BOOL)
        for p in c.args:
            self.K.put(c.ex, c.st1, p)
            c.mods |= self.K.keys(c.ex, p)

    def post(self, c):
        K, x = self.K, c.ex
        if self.op == 'empty':
            return [('true exactly when it holds nothing', tobool(c.ret) == K.isempty(x, c.st0, c.args[0]))]
        if self.op == 'equal':
            return [('true exactly when both hold the same', tobool(c.ret) == K.equal(x, c.st0, c.args[0], c.st0, c.args[1]))]
        out = [('value %d stays valid' % i, K.inv(x, c.st1, p)) for i, p in enumerate(c.args)]
        if self.op == 'clear':
            return out + [('nothing is left', K.isempty(x, c.st1, c.args[0])), ('as new', K.isnew(x, c.st1, c.args[0]))]
        a, b = c.args
        return out + [('the first holds what the second held', K.same(x, c.st1, a, c.st0, b)),
                      ('the second holds what the first held', K.same(x, c.st1, b, c.st0, a))]


class Wrap:
    """a wrapper as a value"""

    def __init__(self, L):
        self.L, self.fp = L, L.fp
        self.size, self.put, self.inv, self.keys = L.size, L.put, L.inv, L.keys

    def isempty(self, x, st, p):
        return z3.Not(self.L.isset(x, st, p))
    isnew = isempty

    def equal(self, x, s0, p, s1, q):
        L = self.L
        a, b = L.isset(x, s0, p), L.isset(x, s1, q)
        return z3.And(a == b, z3.Implies(a, L.same(L.val(x, s0, p), L.val(x, s1, q))))

    def same(self, x, s0, p, s1, q):
        L = self.L
        a, b = L.isset(x, s0, p), L.isset(x, s1, q)
        return z3.And(a == b, z3.Implies(a, L.val(x, s0, p) == L.val(x, s1, q)))


OPS = {'empty': 'Empty', 'clear': 'Clear', 'equal': 'Equal', 'swap': 'Swap'}
FM_OF = {'empty': 'Empty', 'clear': 'Clear', 'equal': 'EqField', 'swap': 'SwapField'}
WRITES, READS, WRAPOPS = [], [], []


def make(base, nm, **kw):
    cls = type(nm, (base,), kw)
    globals()[nm] = cls
    return 'values.' + nm


for sh, (ty, code) in TYPES.items():
    L = Num(ty)
    rd = {'Int': 'ReadInt', 'UInt': 'ReadUInt', 'Long': 'ReadLong', 'ULong': 'ReadULong', 'Float': 'ReadFloat', 'Double': 'ReadDouble', 'Bool': 'ReadBool'}[sh]
    fl = J + r'protogen\w*::field<%s>, void>::' % ty
    WRITES.append(make(PlainWrite, 'Write' + sh, name='json<%s>::write' % ty, rx=J + r'%s, void>::write\(' % ty, L=L))
    WRITES.append(make(FieldWrite, 'Write%sField' % sh, name='json<field<%s>>::write' % ty, rx=fl + r'write\(', L=L,
                       uses=('Write' + sh, 'fields.%sEmpty' % sh, 'fields.%sGet' % sh)))
    READS.append(make(WrapRead, 'Read%sField' % sh, name='json<field<%s>>::read' % ty, rx=fl + r'read\(', L=L,
                      uses=JRead.uses + ('read.' + rd, 'fields.%sAssignValue' % sh)))
    for op, o in OPS.items():
        WRAPOPS.append(make(VM, '%sField%s' % (sh, o), name='json<field<%s>>::%s' % (ty, op), rx=fl + op + r'\(', op=op, K=Wrap(L),
                            uses=('fields.%s%s' % (sh, FM_OF[op]),)))
for op, o in OPS.items():
    WRAPOPS.append(make(VM, 'StrField' + o, name='json<string_field>::' + op, rx=J + r'protogen\w*::string_field, void>::%s\(' % op, op=op, K=Wrap(Txt()),
                        uses=('fields.Str' + FM_OF[op],)))
READS += ['values.StrRead', 'values.StrFieldRead']
WRITES += ['values.StrFieldWrite']


# ---------------------------------------------------------------- the text of a number is read back as the number
from .token import numval, numend, isnumc, Tok, tid, tval, tend, ID, chars
from .strings import take
from ..stl import s2l, s2ul
from .read import s2d

alln = Spec('alln', [Str], BOOL)      # only characters a number token is made of
alln.body = lambda s: z3.If(s == Nil, True, z3.And(alln(init(s)), isnumc(z3.SignExt(24, last(s)))))


class NumToken(Lemma):
    """a text of number characters that starts as a number does, laid out in the input and followed by something
    else, is one NUMBER token with that text"""
    name = 'a written number is one token'
    fuel = 1
    opaque = ('numval', 'numend', 'T')

    def cases(self):
        w, k, i = fresh('w', Str), fresh('k', B64), fresh('i', B64)
        s, c = fresh('s', Str), fresh('c', B8)
        pos = z3.Function('npos', B64, INT)
        z = z3.BitVecVal(0, 64)
        n = slen(w)
        small = [z3.ULT(n, LIM)]
        # every character of such a text is a number character (induction on the text)
        ch = lambda t, j: z3.Implies(z3.And(alln(t), z3.ULT(j, slen(t))), isnumc(z3.SignExt(24, at(t, j))))
        yield 'characters: empty', [], ch(Nil, i)
        yield 'characters: one more', [z3.ULT(slen(s), LIM), ch(s, i)], ch(Snoc(s, c), i)
        lay = lambda j: z3.And(pk(pos(j)) == z3.SignExt(24, at(w, j)), nx(pos(j)) == pos(j + 1), rem(pos(j)) != 0)
        claim = lambda j: z3.And(numval(pos(z), Nil) == numval(pos(j), take(w, j)), numend(pos(z)) == numend(pos(j)))
        yield 'at the start', [take(w, z) == take.body(w, z)], claim(z)
        yield 'one more character', small + [z3.ULT(k, n), lay(k), claim(k), alln(w), ch(w, k), take(w, k + 1) == Snoc(take(w, k), at(w, k)),
                                             numval(pos(k), take(w, k)) == numval.body(pos(k), take(w, k)), numend(pos(k)) == numend.body(pos(k))], claim(k + 1)
        e = pos(n)
        done = [claim(n), take(w, n) == w, z3.Not(z3.And(rem(e) != 0, isnumc(pk(e)))), numval(e, take(w, n)) == numval.body(e, take(w, n)), numend(e) == numend.body(e)]
        yield 'at the end', small + done, z3.And(numval(pos(z), Nil) == w, numend(pos(z)) == e)
        T0 = T(pos(z))
        yield 'the token', small + [n != 0, lay(z), numval(pos(z), Nil) == w, numend(pos(z)) == e, T0 == T.body(pos(z)),
                                    z3.Or(at(w, z) == 45, z3.And(z3.UGE(at(w, z), 48), z3.ULE(at(w, z), 57)))], \
            z3.And(tid(T0) == ID('NUMBER'), tval(T0) == w, tend(T0) == e)


def number_texts(ty, v):
    """assumed of the library: to_string writes an optional sign and decimal digits, printf %.*g in the "C" locale a
    number of the C grammar (finite values), and strtol/strtoul/strtod read these texts back (for %.*g: with
    max_digits10 digits, nearest rounding)"""
    w = numtext(ty, v)
    f = at(w, z3.BitVecVal(0, 64))
    out = [w != Nil, alln(w), z3.Or(f == 45, z3.And(z3.UGE(f, 48), z3.ULE(f, 57))), z3.ULT(slen(w), 400)]
    k, wd, sg = NUMT[ty]
    if k == 'i':
        out += [(s2l if sg else s2ul)(w) == (v if wd == 64 else (z3.SignExt if sg else z3.ZeroExt)(32, v))]
    else:
        d = s2d(w)
        out += [d == v if wd == 64 else z3.fpFPToFP(z3.RNE(), d, z3.FPSort(8, 24)) == v]
    return out


class NumRoundTrip(Lemma):
    """over the library contract of the conversions: the value read from the text written is the value"""
    name = 'reading back a written number'
    fuel = 1
    types = ('int', 'unsigned int', 'long', 'unsigned long')

    def cases(self):
        for ty in self.types:
            v = fresh('v', SORTS[ty])
            fin = [z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v)))] if ty in ('float', 'double') else []
            w = numtext(ty, v)
            yield ty, fin + number_texts(ty, v), numvalue(ty, w) == v
        if 'int' in self.types:
            for b in ('true', 'false'):
                ps = [fresh('p', INT)]
                for _ in b:
                    ps.append(nx(ps[-1]))
                e = ps[-1]
                hy = [z3.And(pk(ps[j]) == ord(x), rem(ps[j]) != 0) for j, x in enumerate(b)]
                hy += [z3.Not(z3.And(rem(e) != 0, z3.Or(z3.And(pk(e) >= 65, pk(e) <= 90), z3.And(pk(e) >= 97, pk(e) <= 122))))]
                t = T(ps[0])
                from .token import wordval, wordend
                a = Nil
                for j in range(len(ps)):
                    hy += [wordval(ps[j], a) == wordval.body(ps[j], a), wordend(ps[j]) == wordend.body(ps[j])]
                    if j < len(b):
                        a = Snoc(a, z3.BitVecVal(ord(b[j]), 8))
                yield b, hy + [t == T.body(ps[0])], z3.And(tid(t) == ID('BTRUE' if b == 'true' else 'BFALSE'), tend(t) == e)
    opaque = ('T', 'wordval', 'wordend')


class FloatRoundTrip(NumRoundTrip):
    name = 'reading back a written float or double'
    types = ('float', 'double')
