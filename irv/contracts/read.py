"""Contracts of the json<T>::read functions, over the token stream (P03, P05-P07, P10-P13)."""
from .base import *
from .token import *
from .token import AXIOMS, _more
from ..stl import s2l, s2ul, itoa, get_bytes, AbsBytes, set_bytes


def std(d):
    return d


class JRead(OnTokens):
    """read(ctx, value): args[0] is the context, args[1] the value"""
    uses = ('token.Next', 'token.Expect', 'token.TokError')
    fuel = 1
    opaque = T_ONLY

    def tok_of(self, c):
        return c.ex.load(c.st0, c.args[0].add(rt(c.ex).ctx['tok']), 'ptr')

    def ctx(self, ex, st):
        setids(ex)
        R = rt(ex)
        oid = ex.new_obj(st, 'ctx', 'raw', R.size(r'12json_contextE$'))
        p = Ptr(oid, 0)
        R.put_params(ex, st, p.add(R.ctx['params']))
        tk = R.tokenizer(ex, st, p.add(R.ctx['params'] + R.par['error']))
        self.on_token(ex, st, tk)
        ex.put(st, oid, R.ctx['tok'], tk, 8)
        ex.put(st, oid, R.ctx['os'], NULL, 8)
        return p

    def setups(self, ex):
        st = State()
        p = self.ctx(ex, st)
        for lb, v in self.values(ex, st):
            yield lb, st, [p, v]

    def values(self, ex, st):
        raise NotImplementedError

    def okf(self, t):
        raise NotImplementedError

    def nilf(self, t):
        return isid(t, 'NIL')

    def end(self, t):
        return tend(T(t))

    def badat(self, t):
        return t

    def put(self, c):
        """frame of the value"""
        raise NotImplementedError

    def value(self, c, t):
        """what the value is after a successful read"""
        raise NotImplementedError

    def kept(self, c):
        """the value is unchanged"""
        raise NotImplementedError

    def split(self, c):
        t = self.t0(c)
        return [('ok', self.okf(t)), ('nil', self.nilf(t)), ('bad', z3.Not(z3.Or(self.okf(t), self.nilf(t))))]

    def havoc(self, c):
        t = self.t0(c)
        if c.case in ('ok', None):
            self.move(c, self.end(t))
        elif c.case == 'bad':
            self.move(c, self.badat(t))
        if c.case in ('bad', None):
            self.err_havoc(c)
        if c.case != 'nil' or self.nil_changes:
            self.put(c)
        R = rt(c.ex)
        return {'ok': R.res['PGR_OK'], 'nil': R.res['PGR_NIL'], 'bad': R.res['PGR_ERROR']}.get(c.case) if c.case else fresh('ret', B32)
    nil_changes = False
    keeps_on_error = True

    def post(self, c):
        R = rt(c.ex)
        t, t1 = self.t0(c), self.t1(c)
        r = bv(c.ret, 32)
        ok, nil = self.okf(t), self.nilf(t)
        bad = z3.Not(z3.Or(ok, nil))
        out = [('OK exactly for a value of the type', (r == R.res['PGR_OK']) == ok),
               ('NIL exactly for null', (r == R.res['PGR_NIL']) == z3.And(nil, z3.Not(ok))),
               ('returns OK, ERROR or NIL', z3.Or(*[r == R.res[k] for k in ('PGR_OK', 'PGR_ERROR', 'PGR_NIL')])),
               ('stands behind the value', z3.Implies(ok, t1 == self.end(t))),
               ('null is left in place', z3.Implies(z3.And(nil, z3.Not(ok)), t1 == t)),
               ('stands on the offending token', z3.Implies(bad, t1 == self.badat(t))),
               ('the error names the offending token', z3.Implies(bad, self.err_at(c, self.badat(t)))),
               ('no error is recorded otherwise', z3.Implies(z3.Not(bad), self.err_same(c)))]
        out += [(n, z3.Implies(ok, f)) for n, f in self.value(c, t)]
        out += [(n, z3.Implies(z3.And(nil, z3.Not(ok)), f)) for n, f in self.on_nil(c)]
        if self.keeps_on_error:
            out += [('the value is unchanged otherwise', z3.Implies(bad, self.kept(c)))]
        return out + self.inv(c, c.st1)

    def on_nil(self, c):
        return [('null leaves the value unchanged', self.kept(c))]


# ---------------------------------------------------------------- numbers
s2d = Spec('strtod_C', [Str], z3.FPSort(11, 53))      # strtod in the C locale
d2s = Spec('printf_g_C', [B32, z3.FPSort(11, 53)], Str)   # "%.*g" in the C locale

NUMT = {'int': ('i', 32, True), 'unsigned int': ('i', 32, False), 'long': ('i', 64, True), 'unsigned long': ('i', 64, False),
        'float': ('f', 32, True), 'double': ('f', 64, True)}


def numvalue(ty, text):
    k, w, sg = NUMT[ty]
    if k == 'f':
        v = s2d(text)
        return v if w == 64 else z3.fpFPToFP(z3.RNE(), v, z3.FPSort(8, 24))
    v = s2l(text) if sg else s2ul(text)
    return v if w == 64 else z3.Extract(31, 0, v)


class NumRead(JRead):
    ty = 'int'

    @property
    def name(self):
        return 'json<%s>::read' % self.ty

    @property
    def rx(self):
        return r'^protogen\w*::json<%s, void>::read\(' % self.ty

    def fresh(self, n):
        k, w, _ = NUMT[self.ty]
        return fresh(n, z3.BitVecSort(w) if k == 'i' else z3.FPSort(8, 24) if w == 32 else z3.FPSort(11, 53))

    def size(self):
        return NUMT[self.ty][1] // 8

    def values(self, ex, st):
        v = ex.new_obj(st, 'value', 'raw', self.size())
        ex.put(st, v, 0, self.fresh('v'), self.size())
        if NUMT[self.ty][0] == 'f':
            locale_state(ex, st)
        yield '', Ptr(v, 0)

    def rd(self, c, st, p):
        k, w, _ = NUMT[self.ty]
        ty = ('i', w) if k == 'i' else ('f', w)
        v = c.ex.load_raw(st, st.mem[p.obj], p.off, ty if k == 'i' else ('double',) if w == 64 else ('float',), w // 8)
        if v is UNDEF:
            return self.fresh('undefined')
        return bv(v, w) if k == 'i' else v

    def okf(self, t):
        return isid(t, 'NUMBER')

    def put(self, c):
        p = c.args[1]
        c.ex.put(c.st1, p.obj, p.off, self.fresh('v'), self.size())
        c.mods.add((p.obj, p.off))

    def value(self, c, t):
        return [('the value is the number written', self.rd(c, c.st1, c.args[1]) == numvalue(self.ty, tval(T(t))))]

    def kept(self, c):
        return self.rd(c, c.st1, c.args[1]) == self.rd(c, c.st0, c.args[1])


class ReadInt(NumRead): ty = 'int'
class ReadUInt(NumRead): ty = 'unsigned int'
class ReadLong(NumRead): ty = 'long'
class ReadULong(NumRead): ty = 'unsigned long'
class ReadFloat(NumRead): ty = 'float'
class ReadDouble(NumRead): ty = 'double'


class ReadBool(NumRead):
    ty = 'bool'
    name = 'json<bool>::read'
    rx = r'^protogen\w*::json<bool, void>::read\('

    def fresh(self, n):
        return fresh(n, B8)

    def size(self):
        return 1

    def values(self, ex, st):
        v = ex.new_obj(st, 'value', 'raw', 1)
        b = fresh('v', B8)
        st.assume(z3.ULE(b, 1))
        ex.put(st, v, 0, b, 1)
        yield '', Ptr(v, 0)

    def rd(self, c, st, p):
        v = c.ex.load_raw(st, st.mem[p.obj], p.off, ('i', 8), 1)
        return self.fresh('undefined') if v is UNDEF else bv(v, 8)

    def okf(self, t):
        return isid(t, 'BTRUE', 'BFALSE')

    def value(self, c, t):
        return [('the value is the keyword written', self.rd(c, c.st1, c.args[1]) == z3.If(isid(t, 'BTRUE'), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))]


# locale: ghost 'locale' is what uselocale last set; the C locale is one fixed object
CLOC = z3.BitVecVal(0xC10C, 64)


def locale_state(ex, st):
    l = fresh('locale', B64)
    st.assume(l != 0)
    st.ghost['locale'] = l


def m_newlocale(ex, st, a, d):
    nm = lit_of(ex.cstr(st, a[1]))
    if nm != b'C':
        ex.fail(st, 'the locale for numbers is "C"')
        raise DeadPath()
    return loc_obj(ex, st)


def loc_obj(ex, st):
    if 'C-locale' not in st.mem:
        st.mem['C-locale'] = Obj('C-locale', 'C-locale', 'locale', None, None)
    return Ptr('C-locale', 0)


def as_loc(st, p):
    return CLOC


def m_uselocale(ex, st, a, d):
    old = st.ghost.get('locale')
    if old is None:
        raise Unsupported('uselocale without a locale ghost')
    p = a[0]
    if p is NULL or (isinstance(p, Ptr) and p.obj is None):
        return old_ptr(ex, st, old)
    if isinstance(p, Ptr) and p.obj == 'C-locale':
        st.ghost['locale'] = CLOC
    elif isinstance(p, Ptr) and p.obj == 'old-locale':
        st.ghost['locale'] = st.mem['old-locale'].meta
    else:
        raise Unsupported('uselocale of an unknown locale')
    return old_ptr(ex, st, old)


def old_ptr(ex, st, v):
    if z3.simplify(v == CLOC).eq(z3.BoolVal(True)):
        return loc_obj(ex, st)
    if 'old-locale' in st.mem and not st.mem['old-locale'].meta.eq(v):
        raise Unsupported('second locale')
    if 'old-locale' not in st.mem:
        st.mem['old-locale'] = Obj('old-locale', 'old-locale', 'locale', None, None, v)
    return Ptr('old-locale', 0)


def m_strtod_l(ex, st, a, d):
    if not (isinstance(a[2], Ptr) and a[2].obj == 'C-locale'):
        ex.fail(st, 'numbers are read in the C locale')
        raise DeadPath()
    if not (isinstance(a[1], Ptr) and a[1].obj is None):
        raise Unsupported('strtod with an end pointer')
    return s2d(ex.cstr(st, a[0]))


def m_strtod(ex, st, a, d):
    ex.oblige(st, 'numbers are read in the C locale', st.ghost['locale'] == CLOC if 'locale' in st.ghost else z3.BoolVal(False))
    return s2d(ex.cstr(st, a[0]))


def m_snprintf_g(ex, st, a, d):
    fmt = lit_of(ex.cstr(st, a[2]))
    if fmt is None or not re.match(rb'^%\.(\*|\d+)g$', fmt):
        return NotImplemented
    if fmt == b'%.*g':
        prec, v = bv(a[3], 32), a[4]
    else:
        prec, v = z3.BitVecVal(int(fmt[2:-1]), 32), a[3]
    ex.oblige(st, 'numbers are written in the C locale', st.ghost['locale'] == CLOC if 'locale' in st.ghost else z3.BoolVal(False))
    if not isinstance(a[1], int) or not z3.is_bv_value(z3.simplify(prec)):
        raise Unsupported('snprintf %g')
    n = z3.simplify(prec).as_long()
    # sign, digits, point, e-308 and the terminator
    if a[1] < n + 9:
        ex.fail(st, 'the buffer holds every number of this precision')
        raise DeadPath()
    ex.check_ptr(st, a[0], a[1], 'write')
    o = st.w(a[0].obj)
    # the text in the buffer: one abstract C string
    for k in [k for k in o.cells if isinstance(k, int) and a[0].off <= k < a[0].off + a[1]]:
        del o.cells[k]
    o.cells[a[0].off] = (AbsCStr(d2s(prec, v)), a[1])
    return fresh('printed', B32)


class AbsCStr(Abs):
    kind = 'cstr'


def m_isnan(ex, st, a, d):
    return NotImplemented


MODELS = [(r'newlocale$', m_newlocale), (r'uselocale$', m_uselocale), (r'(__)?strtod_l$', m_strtod_l), (r'strtod$', m_strtod), (r'snprintf$', m_snprintf_g)]
