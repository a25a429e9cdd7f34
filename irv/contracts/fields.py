"""Contracts of the scalar and string wrappers (P09): a wrapper is an optional value."""
from .base import *
from .read import NUMT, JRead, NumRead, isid, tval, T, numvalue, T_ONLY, MODELS, AXIOMS, locale_state

TYPES = {'Int': ('int', 'i'), 'UInt': ('unsigned int', 'j'), 'Long': ('long', 'l'), 'ULong': ('unsigned long', 'm'),
         'Float': ('float', 'f'), 'Double': ('double', 'd'), 'Bool': ('bool', 'b')}
SORTS = {'int': B32, 'unsigned int': B32, 'long': B64, 'unsigned long': B64, 'float': z3.FPSort(8, 24), 'double': z3.FPSort(11, 53), 'bool': B8}


class Num:
    """layout and values of field<T>"""

    def __init__(self, ty):
        self.ty, self.sort = ty, SORTS[ty]
        self.w = self.sort.size() // 8 if z3.is_bv_sort(self.sort) else (4 if ty == 'float' else 8)
        self.fp = ty in ('float', 'double')
        code = [c for t, c in TYPES.values() if t == ty][0]
        self.ident = r'5fieldI%sE' % code
        self.cls = 'field<%s>' % ty

    def lay(self, ex):
        R = rt(ex)
        key = 'field' + self.ty
        if key not in R.__dict__:
            R.__dict__[key] = (R._m(ex.mod, self.ident), R.size(self.ident))
        return R.__dict__[key]

    def size(self, ex):
        return self.lay(ex)[1]

    def plain(self, st, n='v'):
        v = fresh(n, self.sort)
        if self.ty == 'bool':
            st.assume(z3.ULE(v, 1))
        if self.fp:
            st.assume(z3.Not(z3.fpIsNaN(v)))
        return v

    def zero(self):
        return z3.FPVal(0.0, self.sort) if self.fp else z3.BitVecVal(0, self.sort.size())

    def put(self, ex, st, p):
        """a wrapper in an arbitrary state satisfying the invariant"""
        m, _ = self.lay(ex)
        v, e = self.plain(st), fresh('empty', B8)
        st.assume(z3.ULE(e, 1))
        st.assume(z3.Implies(e != 0, v == self.zero()))
        ex.put(st, p.obj, p.off + m['value_'], v, self.w)
        ex.put(st, p.obj, p.off + m['empty_'], e, 1)

    def put_plain(self, ex, st, p):
        v = self.plain(st)
        ex.put(st, p.obj, p.off, v, self.w)

    def raw(self, ex, st, p):
        ty = ('i', self.w * 8) if not self.fp else ('float',) if self.w == 4 else ('double',)
        v = ex.load_raw(st, st.mem[p.obj], p.off, ty, self.w)
        if v is UNDEF:
            return fresh('undef', self.sort)
        return v if self.fp else bv(v, self.sort.size())

    def val(self, ex, st, p):
        return self.raw(ex, st, p.add(self.lay(ex)[0]['value_']))

    def isset(self, ex, st, p):
        v = ex.load_raw(st, st.mem[p.obj], p.off + self.lay(ex)[0]['empty_'], ('i', 8), 1)
        if v is UNDEF:
            return fresh('undef', BOOL)
        return bv(v, 8) == 0

    def inv(self, ex, st, p):
        m, _ = self.lay(ex)
        e = ex.load_raw(st, st.mem[p.obj], p.off + m['empty_'], ('i', 8), 1)
        if e is UNDEF:
            return z3.BoolVal(False)
        return z3.And(z3.Or(self.isset(ex, st, p), self.val(ex, st, p) == self.zero()), z3.ULE(bv(e, 8), 1))

    def keys(self, ex, p):
        m, _ = self.lay(ex)
        return {(p.obj, p.off + m['value_']), (p.obj, p.off + m['empty_'])}

    def same(self, a, b):
        return z3.fpEQ(a, b) if self.fp else a == b

    def scramble(self, ex, st, p):
        self.put(ex, st, p)

    def scramble_plain(self, ex, st, p):
        self.put_plain(ex, st, p)

    def ret_is(self, r, v):
        return (r == v) if self.fp else (tobool(r) == (v != 0) if self.ty == 'bool' else bv(r, self.sort.size()) == v)


class Txt:
    ty = 'string'
    cls = 'string_field'
    fp = False

    def lay(self, ex):
        R = rt(ex)
        if 'strfield' not in R.__dict__:
            R.__dict__['strfield'] = (R._m(ex.mod, r'12string_fieldE$'), R.size(r'12string_fieldE$'))
        return R.__dict__['strfield']

    def size(self, ex):
        return self.lay(ex)[1]

    def zero(self):
        return Nil

    def put(self, ex, st, p):
        m, _ = self.lay(ex)
        rt(ex).strv(ex, st, p.add(m['value_']), 'value')
        e = fresh('null', B8)
        st.assume(z3.ULE(e, 1))
        ex.put(st, p.obj, p.off + m['null_'], e, 1)

    def put_plain(self, ex, st, p):
        rt(ex).strv(ex, st, p, 'value')

    def raw(self, ex, st, p):
        return ex.get_str(st, p)

    def val(self, ex, st, p):
        return ex.get_str(st, p.add(self.lay(ex)[0]['value_']))

    def isset(self, ex, st, p):
        # unset: marked null and without text (text may be given to an unset one through operator*)
        v = ex.load_raw(st, st.mem[p.obj], p.off + self.lay(ex)[0]['null_'], ('i', 8), 1)
        if v is UNDEF:
            return fresh('undef', BOOL)
        return z3.Or(bv(v, 8) == 0, self.val(ex, st, p) != Nil)

    def inv(self, ex, st, p):
        v = ex.load_raw(st, st.mem[p.obj], p.off + self.lay(ex)[0]['null_'], ('i', 8), 1)
        return z3.BoolVal(False) if v is UNDEF else z3.ULE(bv(v, 8), 1)

    def keys(self, ex, p):
        m, _ = self.lay(ex)
        return {(p.obj, p.off + m['value_']), (p.obj, p.off + m['null_'])}

    def same(self, a, b):
        return a == b


class FM(Contract):
    """method of a wrapper.  shape: what the arguments are: S (this), F (another wrapper), P (plain value), C (C string), B (bool)
    spec(me) -> obligations, with me.set(k), me.val(k) before and me.set1(k), me.val1(k) after, me.r the result"""
    fuel = 1
    shape = 'S'
    const = ()
    spec = None
    L = None
    ctor = False

    def lab(self):
        return self.L

    def setups(self, ex):
        alias = [False] + ([True] if self.shape in ('SF', 'FF') and not self.ctor else [])
        for al in alias:
            st = State()
            args = []
            for i, ch in enumerate(self.shape):
                if ch in 'SF':
                    if al and i:
                        args.append(args[0])
                        continue
                    o = ex.new_obj(st, 'this' if ch == 'S' else 'that', 'raw', self.L.size(ex))
                    if not (self.ctor and i == 0):
                        self.L.put(ex, st, Ptr(o, 0))
                    args.append(Ptr(o, 0))
                elif ch == 'P':
                    o = ex.new_obj(st, 'value', 'raw', 32 if self.L.ty == 'string' else self.L.w)
                    self.L.put_plain(ex, st, Ptr(o, 0))
                    args.append(Ptr(o, 0))
                elif ch == 'B':
                    args.append(fresh('state', BOOL))
                elif ch == 'C':
                    o = ex.new_obj(st, 'cstr', 'raw', 1 << 20)
                    ex.put(st, o, 0, AbsCS(fresh('text', Str)), 1 << 20)
                    args.append(Ptr(o, 0))
            yield ' (aliased)' if al else '', st, args

    def pre(self, c):
        return [('wrapper %d is valid' % i, self.L.inv(c.ex, c.st0, c.args[i])) for i, ch in enumerate(self.shape) if ch in 'SF' and not (self.ctor and i == 0)]

    def havoc(self, c):
        for i, ch in enumerate(self.shape):
            if i in self.const:
                continue
            p = c.args[i]
            if ch in 'SF':
                self.L.put(c.ex, c.st1, p)
                c.mods |= self.L.keys(c.ex, p)
            elif ch == 'P':
                self.L.put_plain(c.ex, c.st1, p)
                c.mods.add((p.obj, p.off))
        return self.result(c)

    def result(self, c):
        return None

    def post(self, c):
        me = Me(self, c)
        out = [('wrapper %d stays valid' % i, self.L.inv(c.ex, c.st1, c.args[i])) for i, ch in enumerate(self.shape) if ch in 'SF']
        return out + type(self).spec(me)


class AbsCS(Abs):
    kind = 'cstr'


class Me:
    def __init__(self, con, c):
        self.con, self.c, self.L, self.r = con, c, con.L, c.ret

    def _is(self, st, k):
        return self.L.isset(self.c.ex, st, self.c.args[k])

    def _v(self, st, k):
        ch = self.con.shape[k]
        p = self.c.args[k]
        if ch == 'C':
            return self.c.ex.cstr(st, p)
        if ch == 'B':
            return tobool(p)
        return self.L.val(self.c.ex, st, p) if ch in 'SF' else self.L.raw(self.c.ex, st, p)

    def set(self, k=0): return self._is(self.c.st0, k)
    def set1(self, k=0): return self._is(self.c.st1, k)
    def val(self, k=0): return self._v(self.c.st0, k)
    def val1(self, k=0): return self._v(self.c.st1, k)

    def becomes(self, k, s, v):
        """wrapper k is set exactly when s, and then holds v"""
        return [('set or unset as it should be', self.set1(k) == s), ('holds the right value', z3.Implies(s, self.val1(k) == v))]


def same_opt(me):
    s, t = me.set(0), me.set(1)
    return z3.And(s == t, z3.Implies(s, me.L.same(me.val(0), me.val(1))))


def reftoval(self, c):
    return c.args[0].add(self.L.lay(c.ex)[0]['value_'])


def boolret(self, c):
    return fresh('r', BOOL)


METHODS = {
    'Default': (r'%s\(\)$', 'S', (), lambda me: me.becomes(0, z3.BoolVal(False), me.L.zero()), dict(ctor=True)),
    'Empty': (r'empty\(\) const$', 'S', (0,), lambda me: [('true exactly when unset', tobool(me.r) == z3.Not(me.set()))], dict(result=boolret)),
    'Clear': (r'clear\(\)$', 'S', (), lambda me: me.becomes(0, z3.BoolVal(False), me.L.zero()), {}),
    'AssignField': (r'operator=\(protogen\w*::%s const&\)$', 'SF', (1,), lambda me: me.becomes(0, me.set(1), me.val(1)), {}),
    'AssignValue': (r'operator=\(%s const&\)$', 'SP', (1,), lambda me: me.becomes(0, z3.BoolVal(True), me.val(1)), {}),
    'SwapField': (r'swap\(protogen\w*::%s&\)$', 'SF', (), lambda me: me.becomes(0, me.set(1), me.val(1)) + me.becomes(1, me.set(0), me.val(0)), {}),
    'SwapValue': (r'swap\(%s&\)$', 'SP', (), lambda me: me.becomes(0, z3.BoolVal(True), me.val(1)) +
                  [('the value receives what the wrapper held', z3.Implies(me.set(0), me.val1(1) == me.val(0)))], {}),
    'EqField': (r'operator==\(protogen\w*::%s const&\) const$', 'SF', (0, 1), lambda me: [('true exactly when both are unset or hold the same', tobool(me.r) == same_opt(me))], dict(result=boolret)),
    'NeField': (r'operator!=\(protogen\w*::%s const&\) const$', 'SF', (0, 1), lambda me: [('the opposite of ==', tobool(me.r) == z3.Not(same_opt(me)))], dict(result=boolret)),
    'EqValue': (r'operator==\(%s const&\) const$', 'SP', (0, 1), lambda me: [('true exactly when set to the value', tobool(me.r) == z3.And(me.set(), me.L.same(me.val(0), me.val(1))))], dict(result=boolret)),
    'NeValue': (r'operator!=\(%s const&\) const$', 'SP', (0, 1), lambda me: [('true for a set one with another value', z3.Implies(me.set(), tobool(me.r) == z3.Not(me.L.same(me.val(0), me.val(1)))))], dict(result=boolret)),
}
NUMBER = []
STRING = []


def make(nm, L, rx, shape, const, spec, kw):
    d = dict(name='%s %s' % (L.cls, nm), rx=rx, shape=shape, const=const, spec=spec, L=L)
    d.update(kw)
    cls = type(nm, (FM,), d)
    globals()[nm] = cls
    return cls


for sh, (ty, code) in TYPES.items():
    L = Num(ty)
    esc = re.escape(L.cls).replace('\\ ', ' ')
    for m, (rx, shape, const, spec, kw) in METHODS.items():
        if m == 'Default':
            r = r'^protogen\w*::%s::field\(\)$' % esc
        elif '%s' in rx:
            r = r'^protogen\w*::%s::' % esc + rx % (ty if 'Value' in m else esc)
        else:
            r = r'^protogen\w*::%s::' % esc + rx
        make(sh + m, L, r, shape, const, spec, kw)
        NUMBER.append('fields.' + sh + m)
    make(sh + 'Get', L, r'^protogen\w*::%s::operator %s\(\) const$' % (esc, ty), 'S', (0,),
         lambda me: [('gives the value held', z3.Implies(me.set(), me.L.ret_is(me.r, me.val())))],
         dict(result=lambda self, c: fresh('r', BOOL if self.L.ty == 'bool' else self.L.sort)))
    NUMBER.append('fields.' + sh + 'Get')

SV = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'
L = Txt()
for m, (rx, shape, const, spec, kw) in METHODS.items():
    if m == 'Default':
        r = r'^protogen\w*::string_field::string_field\(\)$'
    elif '%s' in rx:
        r = r'^protogen\w*::string_field::' + rx % (SV if 'Value' in m else 'string_field')
    else:
        r = r'^protogen\w*::string_field::' + rx
    make('Str' + m, L, r, shape, const, spec, kw)
    STRING.append('fields.Str' + m)
P = r'^protogen\w*::string_field::'
TRUE = z3.BoolVal(True)
for nm, rx, shape, const, spec, kw in (
        ('StrCopy', r'string_field\(protogen\w*::string_field const&\)$', 'SF', (1,), lambda me: me.becomes(0, me.set(1), me.val(1)), dict(ctor=True)),
        ('StrMove', r'string_field\(protogen\w*::string_field&&\)$', 'SF', (), lambda me: me.becomes(0, me.set(1), me.val(1)), dict(ctor=True)),
        ('StrFromValue', r'string_field\(%s const&\)$' % SV, 'SP', (1,), lambda me: me.becomes(0, TRUE, me.val(1)), dict(ctor=True)),
        ('StrFromChars', r'string_field\(char const\*\)$', 'SC', (1,), lambda me: me.becomes(0, TRUE, me.val(1)), dict(ctor=True)),
        ('StrAssignChars', r'operator=\(char const\*\)$', 'SC', (1,), lambda me: me.becomes(0, TRUE, me.val(1)), {}),
        ('StrEqChars', r'operator==\(char const\*\) const$', 'SC', (0, 1), lambda me: [('true exactly when set to the value', tobool(me.r) == z3.And(me.set(), me.val(0) == me.val(1)))], dict(result=boolret)),
        ('StrNeChars', r'operator!=\(char const\*\) const$', 'SC', (0, 1), lambda me: [('true for a set one with another value', z3.Implies(me.set(), tobool(me.r) == (me.val(0) != me.val(1))))], dict(result=boolret)),
        ('StrSetEmpty', r'empty\(bool\)$', 'SB', (), lambda me: [('unset on true', z3.Implies(me.val(1), z3.Not(me.set1()))), ('set on false, the value kept', z3.Implies(z3.Not(me.val(1)), z3.And(me.set1(), me.val1() == me.val())))], {}),
        ('StrRef', r'operator\*(\[abi:cxx11\])?\(\)$', 'S', (0,), lambda me: [('refers to the value', ref(me))], dict(result=reftoval)),
        ('StrCRef', r'operator\*(\[abi:cxx11\])?\(\) const$', 'S', (0,), lambda me: [('refers to the value', ref(me))], dict(result=reftoval)),
        ('StrConv', r'operator %s&\(\)$' % SV, 'S', (0,), lambda me: [('refers to the value', ref(me))], dict(result=reftoval)),
        ('StrCConv', r'operator %s const&\(\) const$' % SV, 'S', (0,), lambda me: [('refers to the value', ref(me))], dict(result=reftoval))):
    make(nm, L, P + rx, shape, const, spec, kw)
    STRING.append('fields.' + nm)


def ref(me):
    p = me.r
    q = me.c.args[0].add(me.L.lay(me.c.ex)[0]['value_'])
    return z3.BoolVal(isinstance(p, Ptr) and p.obj == q.obj and same(p.off, q.off))
