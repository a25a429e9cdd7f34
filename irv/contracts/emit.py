"""Contracts of the printing part of the generator (P21, P22, P23): what is printed for a message is a function of its
fields, read from left to right.  Texts between the names come from source/cpp/code.txt (or the literals named here)."""
from .gen import *
from .gen import MODELS as _GM
from . import gen, obf
from .printer import layout, printer, literal
from ..stl import itoa

_txt = {}


def section(name):
    """bytes of a section of the template file"""
    if not _txt:
        cur = None
        for l in open(os.path.join(REPO, 'source', 'cpp', 'code.txt'), encoding='latin-1').read().split('\n'):
            m = re.match(r'--- (\w+)\s*$', l)
            if m:
                cur = m.group(1)
                _txt[cur] = ''
            elif l.startswith('------'):
                cur = None
            elif cur:
                _txt[cur] += l + '\n'
    if name not in _txt:
        raise Unsupported('no template ' + name)
    return _txt[name].encode('latin-1')


def tp(o, name, *vals):
    """o with the template printed"""
    return literal(o, section(name), list(vals))


def say(o, text, *vals):
    return literal(o, text.encode(), list(vals))


def dec(v):
    v = z3.simplify(v)
    return strlit(str(v.as_signed_long())) if z3.is_bv_value(v) else itoa(z3.BV2Int(v, True))


# ---------------------------------------------------------------- the state of the generator
CTX = ['printer', 'root', 'number_names', 'obfuscate_strings', 'cpp_use_lists']


def context(ex, st):
    m = members(ex, '16GeneratorContext')
    if set(m) != set(CTX):
        raise Unsupported('another context')
    o = ex.new_obj(st, 'stream', 'std::ostream', None)
    ex.out0 = st.ghost[('sink', o)] = fresh('out', Str)
    c = Ptr(ex.new_obj(st, 'context', 'raw', sizeof(ex, '16GeneratorContext')), 0)
    for f in CTX[2:]:
        ex.put(st, c.obj, m[f], B1(fresh(f, BOOL)), 1)
    ex.put(st, c.obj, m['printer'], printer(ex, st, o), 8)
    r = Ptr(ex.new_obj(st, 'root', 'raw', sizeof(ex, '6Proto3')), 0)
    put_root(ex, st, r)
    ex.put(st, c.obj, m['root'], r, 8)
    return c


def put_root(ex, st, r):
    m = members(ex, '6Proto3')
    if set(m) != {'messages', 'options', 'fileName'}:
        raise Unsupported('another schema')
    REFS.put(ex, st, r.add(m['messages']))
    OptsK().put(ex, st, r.add(m['options']))
    StringK().put(ex, st, r.add(m['fileName']))


class Ctx:
    """the context in a state"""

    def __init__(self, ex, st, p):
        self.ex, self.st, self.p, self.m = ex, st, p, members(ex, '16GeneratorContext')

    def flag(self, f):
        v = self.ex.load(self.st, self.p.add(self.m[f]), ('i', 8))
        return z3.simplify(bv(v, 8) != 0)

    def sink(self):
        pr = self.ex.load(self.st, self.p.add(self.m['printer']), 'ptr')
        return gen.sink(self.ex, self.st, self.ex.load(self.st, pr.add(layout(self.ex)['out_']), 'ptr'))

    def out(self):
        return self.st.ghost[self.sink()]

    def root(self):
        return self.ex.load(self.st, self.p.add(self.m['root']), 'ptr')

    def messages(self):
        return self.root().add(members(self.ex, '6Proto3')['messages'])

    def filename(self):
        return self.ex.get_str(self.st, self.root().add(members(self.ex, '6Proto3')['fileName']))


num, obfus, lists = 'number_names', 'obfuscate_strings', 'cpp_use_lists'


class Emit(Gen):
    """a function that prints: f(ctx, message, ...)"""
    uses = ('printer.PrintValues', 'printer.PrintText')
    join = False
    extra = ''          # s: a string, b: a bool
    fuel = 3

    def setups(self, ex):
        st = State()
        c = context(ex, st)
        m = fresh('message', INT)
        st.assume(m != 0)
        yield '', st, [c, message(ex, st, m)] + [self.obj(ex, st, StringK()) if x == 's' else fresh('flag', BOOL) for x in self.extra]

    def x0(self, c):
        return Ctx(c.ex, c.st0, c.args[0])

    def m(self, c):
        """the message"""
        return message_of(c.ex, c.args[1])

    def seq(self, c):
        return mfields(self.m(c))

    def havoc(self, c):
        k = self.x0(c).sink()
        c.st1.ghost[k] = fresh('out', Str)
        c.mods.add(k)

    def post(self, c):
        return [('what is printed', Ctx(c.ex, c.st1, c.args[0]).out() == self.printed(c))]

    def printed(self, c):
        return self.text(c, self.x0(c).out())

    exception = FieldFn.exception


at_ = lambda V, i: FIELDS.q.at(V, i)
flen = lambda V: FIELDS.q.len(V)


class EachField(Emit):
    """header, an item for every field, footer; another text for a message without fields"""
    key = None
    empty = None        # body when there is nothing

    def item(self, o, f):
        return tp(o, self.key + '__ITEM', fname(f))

    def init(self, ex):
        Emit.init(self, ex) if hasattr(Emit, 'init') else None

    def items(self):
        k = 'items_' + type(self).__name__
        if k not in _specs:
            s = Spec(k, [Str, FIELDS.sort, B64], Str)
            s.body = lambda o, V, i: z3.If(z3.UGE(i, flen(V)), o, s(self.item(o, at_(V, i)), V, i + 1))
            _specs[k] = s
        return _specs[k]

    def footer(self, o):
        return tp(o, self.key + '__FOOTER')

    def whole(self, o, V, ty):
        return spec('text_' + type(self).__name__, [Str, FIELDS.sort, Str], Str, lambda s, o, V, ty: z3.If(
            flen(V) == 0, tp(o, self.key + '__EMPTY', ty), self.footer(self.items()(tp(o, self.key + '__HEADER', ty), V, C0))))(o, V, ty)

    def text(self, c, o):
        return self.whole(o, self.seq(c), c.s0(c.args[2]))

    @property
    def loops(self):
        def inv(L):
            c = View(L.ex, L.st0, L.st, L.st.frames[0].args)
            V, ty = self.seq(c), c.s0(c.args[2])
            return [('what is left', self.items()(L['out'], V, position(L)) == self.items()(tp(L.ex.out0, self.key + '__HEADER', ty), V, C0))]
        return field_loops('fields', {'out': ('ghost:sink', [])}, inv, lambda L: flen(self.seq(View(L.ex, L.st0, L.st, L.st.frames[0].args))))


_specs = {}


def spec(k, sorts, res, body):
    if k not in _specs:
        s = Spec(k, sorts, res)
        s.body = lambda *a: body(s, *a)
        _specs[k] = s
    return _specs[k]


def make(nm):
    key = 'CODE_JSON__' + nm.upper()
    return type(nm.capitalize(), (EachField,), dict(name='generate_function__' + nm, rx=r'^protogen::generate_function__%s\(' % nm, key=key, extra='s'))


Empty, Clear, Equal, Swap = make('empty'), make('clear'), make('equal'), make('swap')


# ---------------------------------------------------------------- what only the persistent fields get
def label(f, n):
    """the JSON name of a field"""
    return z3.If(n, itoa(z3.BV2Int(findex(f), True)), jname(f))


def quoted(x):
    return Snoc(cat(strlit('"'), x), z3.BitVecVal(34, 8))


class EachPersistent(EachField):
    """the same for the fields that are not transient, numbered from 0; nothing if there are none"""
    uses = EachField.uses + ('gen.IsTransient',)
    named = False       # the JSON names are looked at
    unique = False

    def cfg(self, ex, st, args):
        x = Ctx(ex, st, args[0])
        return (x.flag(num), x.flag(obfus))

    def items(self):
        def body(s, o, V, i, k, n, b):
            f = at_(V, i)
            t = transient(f)
            return z3.If(z3.UGE(i, flen(V)), o, s(z3.If(t, o, self.pitem(o, f, k, n, b)), V, i + 1, z3.If(t, k, k + 1) if self.numbered else k, n, b))
        return spec('items_' + type(self).__name__, [Str, FIELDS.sort, B64, B32, BOOL, BOOL], Str, body)

    def ty(self, c):
        return c.s0(c.args[2])

    def header(self, o, ty, n, b):
        return tp(o, self.key + '__HEADER', ty)

    def nothing(self, o, ty):
        return tp(o, self.key + '__EMPTY', ty)

    def whole(self, o, V, ty, p, n, b):
        return spec('text_' + type(self).__name__, [Str, FIELDS.sort, Str, BOOL, BOOL, BOOL], Str, lambda s, o, V, ty, p, n, b: z3.If(
            z3.Or(flen(V) == 0, z3.Not(p)), self.nothing(o, ty),
            self.footer(self.items()(self.header(o, ty, n, b), V, C0, z3.BitVecVal(0, 32), n, b))))(o, V, ty, p, n, b)

    def refused(self, mod, V, p, n):
        """the message is refused when this is printed"""
        return spec('refused_' + type(self).__name__, [FIELDS.sort, BOOL, BOOL], BOOL, lambda s, V, p, n: z3.And(
            flen(V) != 0, p, self.refuse(mod, V, C0, n, NAMES.nil)))(V, p, n)

    def text(self, c, o):
        return self.whole(o, self.seq(c), self.ty(c), norm2(c.args[-1]), *self.cfg(c.ex, c.st0, c.args))

    def bad(self, mod):
        def body(s, V, i, n):
            f = at_(V, i)
            r = bad_transient(mod, f)
            if self.named:
                r = z3.Or(r, z3.And(z3.Not(transient(f)), bad_name(mod, f)))
            return z3.And(z3.ULT(i, flen(V)), z3.Or(r, s(V, i + 1, n)))
        return spec('refused_names' if self.named else 'refused_options', [FIELDS.sort, B64, BOOL], BOOL, body)

    def refuse(self, mod, V, i, n, names):
        return self.bad(mod)(V, i, n)

    def throws(self, c):
        n, b = self.cfg(c.ex, c.st0, c.args)
        return self.refused(c.ex.mod, self.seq(c), norm2(c.args[-1]), n)

    def roles(self):
        return {'out': ('ghost:sink', [])}

    numbered = True

    @property
    def loops(self):
        def inv(L):
            c = View(L.ex, L.st0, L.st, L.st.frames[0].args)
            n, b = self.cfg(L.ex, L.st0, c.args)
            V, f = self.seq(c), self.items()
            if self.numbered and 'count' not in L.role_names():
                raise Unsupported('which counter')
            k = L['count'] if self.numbered else z3.BitVecVal(0, 32)
            r = [('what is left', f(L['out'], V, position(L), k, n, b) == f(self.header(L.ex.out0, self.ty(c), n, b), V, C0, z3.BitVecVal(0, 32), n, b)),
                 ('what is still refused', self.refuse(L.ex.mod, V, position(L), n, L['names'].t if self.unique else NAMES.nil) == self.refuse(L.ex.mod, V, C0, n, NAMES.nil))]
            return r
        return field_loops('fields', self.roles(), inv, lambda L: flen(self.seq(View(L.ex, L.st0, L.st, L.st.frames[0].args))))


class ReadField(EachPersistent):
    name = 'generate_function__read_field'
    rx = r'^protogen::generate_function__read_field\('
    key = 'CODE_JSON__READ_FIELD'
    extra = 'sb'

    def pitem(self, o, f, k, n, b):
        return tp(o, self.key + '__ITEM', dec(k), fname(f))


class Write(EachPersistent):
    name = 'generate_function__write'
    rx = r'^protogen::generate_function__write\('
    key = 'CODE_JSON__WRITE'
    extra = 'sb'
    named = True
    numbered = False
    uses = EachPersistent.uses + ('gen.JsonName', 'gen.ObfuscatedLiteral', 'printer.Print')

    def pitem(self, o, f, k, n, b):
        x = label(f, n)
        return tp(o, self.key + '__ITEM', fname(f), z3.If(b, Snoc(cat(strlit('reveal('), obf_literal(x)), z3.BitVecVal(41, 8)), quoted(x)))


NAMES = seq(StringK())
among = Spec('among', [NAMES.sort, Str], BOOL)
among.body = lambda l, x: z3.And(l != NAMES.nil, z3.Or(NAMES.back(l) == x, among(NAMES.front(l), x)))


class AbsNames(Abs):
    kind = 'names'

    def fresh(self, ex, st, name):
        return AbsNames(fresh('names', NAMES.sort))


def set_new(ex, st, a, d):
    ex.put(st, a[0].obj, a[0].off, AbsNames(NAMES.nil), 56)


def set_insert(ex, st, a, d):
    l, x = ex.abs_at(st, a[0], 'names').t, ex.get_str(st, a[1])
    there = among(l, x)
    ex.put(st, a[0].obj, a[0].off, AbsNames(z3.If(there, l, NAMES.snoc(l, x))), 56)
    return Agg([Ptr(ex.new_obj(st, 'node', 'raw', 8), 0), norm(B1(z3.Not(there)), 8)])


def set_count(ex, st, a, d):
    return z3.If(among(ex.abs_at(st, a[0], 'names').t, ex.get_str(st, a[1])), z3.BitVecVal(1, 64), C0)


SET = r'std::unordered_set<' + STRT + r', std::hash<.*>::'
MODELS = [(SET + r'unordered_set\(\)$', set_new), (SET + r'~unordered_set\(\)$', gen.nothing), (SET + r'insert\(' + STRT + r'( const&|&&)\)$', set_insert),
          (SET + r'count\(', set_count)] + _GM


class Index(EachPersistent):
    name = 'generate_function__index'
    rx = r'^protogen::generate_function__index\('
    key = 'CODE_JSON__INDEX'
    extra = 'b'
    unique = True
    uses = EachPersistent.uses + ('gen.JsonName', 'gen.ObfuscatedLiteral', 'printer.Print')

    def roles(self):
        return {'out': ('ghost:sink', []), 'names': ('abs:names', ['names'])}

    def ty(self, c):
        return Nil

    def header(self, o, ty, n, b):
        return z3.If(b, tp(o, self.key + '__HEADER_OBF'), tp(o, self.key + '__HEADER'))

    def nothing(self, o, ty):
        return tp(o, self.key + '__EMPTY')

    def pitem(self, o, f, k, n, b):
        x = label(f, n)
        return tp(o, self.key + '__ITEM', z3.If(b, obf_literal(x), quoted(x)), dec(k))

    def refuse(self, mod, V, i, n, names):
        return spec('refused_index', [FIELDS.sort, B64, BOOL, NAMES.sort], BOOL, refusal(lambda f: bad_transient(mod, f), lambda f: bad_name(mod, f)))(V, i, n, names)


def refusal(bad_t, bad_n):
    """a field from i on has a wrong option, or the JSON name of one before it"""
    def body(s, V, i, n, names):
        f = at_(V, i)
        t = transient(f)
        return z3.And(z3.ULT(i, flen(V)), z3.Or(bad_t(f), z3.And(z3.Not(t), z3.Or(bad_n(f), among(names, label(f, n)))), s(V, i + 1, n, z3.If(t, names, NAMES.snoc(names, label(f, n))))))
    return body


class Distinct(Lemma):
    """what index() does not refuse has distinct JSON names"""
    name = 'distinct fields have distinct JSON names'
    fuel = 2

    def cases(self):
        F = FIELD.sort
        bt, bn = z3.Function('bad_t', F, BOOL), z3.Function('bad_n', F, BOOL)
        V, i, j, n, names, x = fresh('V', FIELDS.sort), fresh('i', B64), fresh('j', B64), fresh('n', BOOL), fresh('names', NAMES.sort), fresh('x', Str)
        R = lambda i, names: spec('refused_index_', [FIELDS.sort, B64, BOOL, NAMES.sort], BOOL, refusal(bt, bn))(V, i, n, names)
        acc = lambda i: spec('names_before', [FIELDS.sort, B64, BOOL], NAMES.sort, lambda s, V, i, n: z3.If(i == 0, NAMES.nil, z3.If(
            transient(at_(V, i - 1)), s(V, i - 1, n), NAMES.snoc(s(V, i - 1, n), label(at_(V, i - 1), n)))))(V, i, n)
        f, g = at_(V, i), at_(V, j)
        nx = lambda f, names: z3.If(transient(f), names, NAMES.snoc(names, label(f, n)))
        small = [z3.ULT(flen(V), LIM), z3.ULT(i, flen(V)), z3.ULT(j, flen(V))]
        P = lambda i, names: z3.Implies(z3.And(z3.Not(R(i, names)), z3.ULE(i, j), z3.Not(transient(g))), z3.Not(among(names, label(g, n))))
        yield 'a name met before is refused, here', small + [i == j], P(i, names)
        yield 'a name met before is refused, later', small + [z3.ULT(i, j), P(i + 1, nx(f, names))], P(i, names)
        yield 'names before, none', small + [z3.Not(R(C0, NAMES.nil))], z3.Not(R(C0, acc(C0)))
        yield 'names before, one more', small + [z3.Not(R(i, acc(i)))], z3.Not(R(i + 1, acc(i + 1)))
        yield 'two fields', small + [z3.ULT(i, j), z3.Not(R(i, acc(i))), z3.Not(transient(f)), z3.Not(transient(g)), P(i + 1, nx(f, acc(i)))], label(f, n) != label(g, n)


# ---------------------------------------------------------------- namespaces and structures
def _ns(s, o, p, i, name, opening):
    c = at(p, i)
    block = z3.If(opening, say(o, 'namespace $1$ {\n', name), say(o, '} // namespace $1$\n', name))
    return z3.If(z3.UGE(i, slen(p)), o, z3.If(c == 46, s(block, p, i + 1, Nil, opening), s(o, p, i + 1, Snoc(name, c), opening)))


def ns_from(*a):
    return spec('namespaces', [Str, Str, B64, Str, BOOL], Str, _ns)(*a)


def ns(o, p, opening):
    """the parts of package p opened or closed, one after the other"""
    return spec('package', [Str, Str, BOOL], Str, lambda s, o, p, b: z3.If(p == Nil, o, ns_from(o, Snoc(p, z3.BitVecVal(46, 8)), C0, Nil, b)))(o, p, opening)


class Namespace(Emit):
    name = 'generateNamespace'
    rx = r'^protogen::generateNamespace\('
    extra = 'b'

    def text(self, c, o):
        return ns(o, mpkg(self.m(c)), norm2(c.args[2]))

    @property
    def loops(self):
        def inv(L):
            c = View(L.ex, L.st0, L.st, L.st.frames[0].args)
            p, b = Snoc(mpkg(self.m(c)), z3.BitVecVal(46, 8)), norm2(c.args[2])
            return ([('package', L['package'] == p)] if 'package' in L.role_names() else []) + [('what is left', ns_from(L['out'], p, position(L), L['name'], b) == ns_from(L.ex.out0, p, C0, Nil, b))]
        ro = {'out': ('ghost:sink', []), 'name': ('str', ['name', 'part', 'current'])}
        return field_loops('characters', dict(ro, package=('str', ['package', 'path'])), inv, lambda L: slen(L['package']), False) + field_loops(
            'characters', ro, inv, lambda L: slen(mpkg(self.m(View(L.ex, L.st0, L.st, L.st.frames[0].args)))), False)


def struct_items(o, V, i, b):
    return spec('members', [Str, FIELDS.sort, B64, BOOL], Str, lambda s, o, V, i, b: z3.If(z3.UGE(i, flen(V)), o, s(
        say(o, '\t\t$1$ $2$;\n', type_text(ftype(at_(V, i)), b), fname(at_(V, i))), V, i + 1, b)))(o, V, i, b)


def bad_types(mod, V, i):
    return spec('refused_types', [FIELDS.sort, B64], BOOL, lambda s, V, i: z3.And(z3.ULT(i, flen(V)), z3.Or(z3.Not(good_type(mod, ftype(at_(V, i)))), s(V, i + 1))))(V, i)


def struct_text(o, m, l):
    def body(s, o, m, l):
        h = say(ns(o, mpkg(m), true), '\tstruct $1$_type\n\t{\n', mname(m))
        return ns(say(struct_items(h, mfields(m), C0, l), '\t};\n'), mpkg(m), false)
    return spec('struct', [Str, INT, BOOL], Str, body)(o, m, l)


class Struct(Emit):
    """the structure that holds the fields"""
    name = 'generateModel (message)'
    rx = r'^protogen::generateModel\(protogen::GeneratorContext&, protogen::Message'
    uses = Emit.uses + ('Namespace', 'gen.FieldType')
    opaque = ('type_text', 'package')

    def header(self, o, c):
        return say(ns(o, mpkg(self.m(c)), true), '\tstruct $1$_type\n\t{\n', mname(self.m(c)))

    def text(self, c, o):
        return struct_text(o, self.m(c), self.x0(c).flag(lists))

    def throws(self, c):
        return bad_types(c.ex.mod, self.seq(c), C0)

    @property
    def loops(self):
        def inv(L):
            c = View(L.ex, L.st0, L.st, L.st.frames[0].args)
            V, b = self.seq(c), self.x0(c).flag(lists)
            return [('what is left', struct_items(L['out'], V, position(L), b) == struct_items(self.header(L.ex.out0, c), V, C0, b)),
                    ('what is still refused', bad_types(L.ex.mod, V, position(L)) == bad_types(L.ex.mod, V, C0))]
        return field_loops('fields', {'out': ('ghost:sink', [])}, inv, lambda L: flen(self.seq(View(L.ex, L.st0, L.st, L.st.frames[0].args))), False)


# ---------------------------------------------------------------- a message
def type_name(m):
    return spec('type_name', [INT], Str, lambda s, m: mkcat(cat(strlit('::', pkg_text(mpkg(m))), mname(m)), strlit('_type')))(m)


def entity_name(m):
    return spec('entity_name', [INT], Str, lambda s, m: cat(strlit('::', pkg_text(mpkg(m))), mname(m)))(m)


def persistent(V, i):
    return spec('persistent', [FIELDS.sort, B64], BOOL, lambda s, V, i: z3.And(z3.ULT(i, flen(V)), z3.Or(z3.Not(transient(at_(V, i))), s(V, i + 1))))(V, i)


def bad_first(mod, V, i):
    """a transient option of another type, before the first persistent field"""
    return spec('refused_first', [FIELDS.sort, B64], BOOL, lambda s, V, i: z3.And(z3.ULT(i, flen(V)), z3.Or(
        bad_transient(mod, at_(V, i)), z3.And(transient(at_(V, i)), s(V, i + 1)))))(V, i)


SER = [ReadField(), Write(), Empty(), Clear(), Equal(), Swap(), Index()]
OPAQUE = ('type_name', 'entity_name', 'package', 'text_Package', 'package_text', 'items_members') + tuple('text_' + type(x).__name__ for x in SER) + tuple('refused_' + type(x).__name__ for x in SER)


def ver(mod):
    return strlit(config(mod)[2])


def _serializer(mod):
    def body(s, o, m, n, b):
        V, ty, p = mfields(m), type_name(m), persistent(mfields(m), C0)
        o = tp(o, 'CODE_JSON_MODEL__HEADER', ver(mod), ty)
        for x in SER:
            o = x.whole(o, V, ty if not isinstance(x, Index) else Nil, p, n, b) if isinstance(x, EachPersistent) else x.whole(o, V, ty)
        return tp(o, 'CODE_JSON_MODEL__FOOTER', ver(mod))
    return spec('serializer', [Str, INT, BOOL, BOOL], Str, body)


def refused_serializer(mod, m, n):
    def body(s, m, n):
        V, p = mfields(m), persistent(mfields(m), C0)
        return z3.Or(bad_first(mod, V, C0), *[x.refused(mod, V, p, n) for x in SER if isinstance(x, EachPersistent)])
    return spec('refused_serializer', [INT, BOOL], BOOL, body)(m, n)


class Serializer(Emit):
    """the serializer of the structure"""
    name = 'generateModelWrapper'
    rx = r'^protogen::generateModelWrapper\('
    uses = Emit.uses + ('gen.NativePackage', 'gen.IsTransient') + tuple(type(x).__name__ for x in SER)
    opaque = OPAQUE[1:]

    def text(self, c, o):
        x = self.x0(c)
        return _serializer(c.ex.mod)(o, self.m(c), x.flag(num), x.flag(obfus))

    def throws(self, c):
        return refused_serializer(c.ex.mod, self.m(c), self.x0(c).flag(num))

    @property
    def loops(self):
        def inv(L):
            c = View(L.ex, L.st0, L.st, L.st.frames[0].args)
            V = self.seq(c)
            found = z3.Extract(0, 0, L['found']) == 1 if 'found' in L.role_names() else false
            return [('is there a persistent field', z3.Or(found, persistent(V, position(L))) == persistent(V, C0)),
                    ('what is still refused', z3.And(z3.Not(found), bad_first(L.ex.mod, V, position(L))) == bad_first(L.ex.mod, V, C0))]
        n = lambda L: flen(self.seq(View(L.ex, L.st0, L.st, L.st.frames[0].args)))
        return field_loops('fields', {'found': ('i8', ['is_persistent', 'persistent', 'found'])}, inv, n, False) + field_loops('fields', {}, inv, n, False)


class Entity(Emit):
    name = 'generateEntity'
    rx = r'^protogen::generateEntity\('
    uses = Emit.uses + ('gen.NativePackage', 'Namespace')
    opaque = OPAQUE[1:]

    def text(self, c, o):
        m = self.m(c)
        return entity(c.ex.mod, o, m)


def entity(mod, o, m):
    return spec('entity', [Str, INT], Str, lambda s, o, m: ns(tp(ns(o, mpkg(m), true), 'CODE_ENTITY', mname(m), type_name(m), ver(mod)), mpkg(m), false))(o, m)


class EntityJson(Emit):
    name = 'generateEntityWrapper'
    rx = r'^protogen::generateEntityWrapper\('
    uses = Emit.uses + ('gen.NativePackage',)
    opaque = OPAQUE[2:]

    def text(self, c, o):
        return entity_json(c.ex.mod, o, self.m(c))


def entity_json(mod, o, m):
    return spec('entity_json', [Str, INT], Str, lambda s, o, m: tp(o, 'CODE_ENTITY_JSON', entity_name(m), type_name(m), ver(mod)))(o, m)


def max_fields(mod):
    for v in mod.md.values():
        m = re.search(r'name: "MAX_FIELDS".*extraData: \w+ (\d+)', v)
        if m:
            return int(m.group(1))
    for v in mod.globals:
        if 'MAX_FIELDS' in v:
            g = mod.global_init(v)
            if g and g[2] and g[2][0] == 'int':
                return g[2][1]
    raise Unsupported('no MAX_FIELDS')


def message_text(mod, o, m, n, b, l):
    def body(s, o, m, n, b, l):
        o = say(o, '\n//\n// $1$\n//\n', mname(m))
        o = _serializer(mod)(struct_text(o, m, l), m, n, b)
        return entity_json(mod, entity(mod, o, m), m)
    return spec('message_text', [Str, INT, BOOL, BOOL, BOOL], Str, body)(o, m, n, b, l)


def refused_message(mod, m, n):
    return spec('refused_message', [INT, BOOL], BOOL, lambda s, m, n: z3.Or(z3.UGT(flen(mfields(m)), max_fields(mod)), bad_types(mod, mfields(m), C0),
                                                                          refused_serializer(mod, m, n)))(m, n)


class MessageText(Emit):
    """structure, serializer, class of a message"""
    name = 'generateMessage'
    rx = r'^protogen::generateMessage\('
    uses = Emit.uses + ('Struct', 'Serializer', 'Entity', 'EntityJson')
    opaque = OPAQUE + ('struct', 'serializer', 'refused_serializer', 'entity', 'entity_json', 'refused_types')

    def text(self, c, o):
        x = self.x0(c)
        return message_text(c.ex.mod, o, self.m(c), x.flag(num), x.flag(obfus), x.flag(lists))

    def throws(self, c):
        return refused_message(c.ex.mod, self.m(c), self.x0(c).flag(num))


EMIT = ['emit.Empty', 'emit.Clear', 'emit.Equal', 'emit.Swap', 'emit.ReadField', 'emit.Write', 'emit.Index', 'emit.Namespace', 'emit.Struct',
        'emit.Serializer', 'emit.Entity', 'emit.EntityJson', 'emit.MessageText', 'L:emit.Distinct']
