"""Contracts of the generator's C++ back end: names and types (P20, P21, P23), printing of messages (P21-P23), order of messages (P19).

A schema is a mathematical value: fields are records, a message is an identity (INT, 0 is null) whose name, package,
fields and options are functions of it.
"""
from .base import *
from .kinds import *
from .kinds import EXTRA_KINDS
from .printer import MODELS as _PM, prt, literal, SV, sink
from .strings import take, TakeAll
from ..build import REPO
from ..exec import THROW
from ..stl import S, itoa
from . import obf
import os

true, false = z3.BoolVal(True), z3.BoolVal(False)
C0 = z3.BitVecVal(0, 64)
B1 = lambda b: z3.If(b, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))


def members(ex, ident):
    r = ex.mod.members(r'^_ZTSN8protogen%sE$' % ident)
    if not r:
        raise Unsupported('no debug information for ' + ident)
    return r


def sizeof(ex, ident):
    for k, v in ex.mod.md.items():
        if 'DICompositeType(' in v and 'FwdDecl' not in v and 'identifier: "_ZTSN8protogen%sE"' % ident in v:
            return int(re.search(r'size: (\d+)', v).group(1)) // 8
    raise Unsupported('no size for ' + ident)


# ---------------------------------------------------------------- the schema as a value
class IntK(Kind):
    sort, tag, ty = B32, 'i32', 'i32'

    def size(self, ex):
        return 4

    def load(self, ex, st, p):
        return bv(ex.load(st, p, ('i', 32)), 32)

    def store(self, ex, st, p, t):
        ex.put(st, p.obj, p.off, t, 4)

    def new(self):
        return z3.BitVecVal(0, 32)


class FlagK(Kind):
    sort, tag, ty = BOOL, 'flag', 'flag'

    def size(self, ex):
        return 1

    def load(self, ex, st, p):
        return bv(ex.load(st, p, ('i', 8)), 8) != 0

    def store(self, ex, st, p, t):
        ex.put(st, p.obj, p.off, B1(t), 1)

    def new(self):
        return false


class AbsRef(Abs):
    kind = 'ref'


class RefK(Kind):
    sort, tag, ty = INT, 'ref', 'ref'

    def size(self, ex):
        return 16

    def load(self, ex, st, p):
        return ex.abs_at(st, p, 'ref').t

    def store(self, ex, st, p, t):
        ex.put(st, p.obj, p.off, AbsRef(t), 16)

    def new(self):
        return z3.IntVal(0)

    def teq(self, a, b):
        return a == b


_E = z3.Datatype('Entry')
_E.declare('Entry', ('ekey', Str), ('etype', B32), ('evalue', Str))        # without the line, which is for messages of errors only
Entry = _E.create()
_O = z3.Datatype('Opts')
_O.declare('NoOpts')
_O.declare('Opt', ('rest', _O), ('entry', Entry))
Opts = _O.create()
has = Spec('opt_has', [Opts, Str], BOOL)
has.body = lambda o, k: z3.If(o == Opts.NoOpts, false, z3.Or(Entry.ekey(Opts.entry(o)) == k, has(Opts.rest(o), k)))
got = Spec('opt_get', [Opts, Str], Entry)
got.body = lambda o, k: z3.If(z3.Or(o == Opts.NoOpts, Entry.ekey(Opts.entry(o)) == k), Opts.entry(o), got(Opts.rest(o), k))


class AbsOpts(Abs):
    kind = 'opts'

    def fresh(self, ex, st, name):
        return AbsOpts(fresh('options', Opts))


class OptsK(Kind):
    sort, tag, ty = Opts, 'opts', 'opts'

    def size(self, ex):
        return 56

    def load(self, ex, st, p):
        return ex.abs_at(st, p, 'opts').t

    def store(self, ex, st, p, t):
        ex.put(st, p.obj, p.off, AbsOpts(t), 56)

    def new(self):
        return Opts.NoOpts


_rec = {}


class RecK(Kind):
    ty = 'record'

    def __init__(self, ident, fields):
        self.ident, self.fields, self.tag = ident, fields, 'g_' + ident
        if ident not in _rec:
            d = z3.Datatype('G_' + ident)
            d.declare('G_' + ident, *[('%s_%s' % (ident, f), k.sort) for f, k in fields])
            _rec[ident] = d.create()
        self.sort = _rec[ident]
        self.mk = getattr(self.sort, 'G_' + ident)

    def get(self, t, *path):
        k = self
        for f in path:
            t = getattr(k.sort, '%s_%s' % (k.ident, f))(t)
            k = dict(k.fields)[f]
        return t

    def size(self, ex):
        return sizeof(ex, self.ident)

    def each(self, ex, p):
        m = members(ex, self.ident)
        if set(m) != {f for f, _ in self.fields}:
            raise Unsupported('%s has other members' % self.ident)
        return [(f, k, p.add(m[f])) for f, k in self.fields]

    def load(self, ex, st, p):
        return self.mk(*[k.load(ex, st, q) for f, k, q in self.each(ex, p)])

    def store(self, ex, st, p, t):
        for f, k, q in self.each(ex, p):
            a = self.get(t, f)
            k.store(ex, st, q, z3.simplify(a) if z3.is_app(t) and t.decl().eq(self.mk) else a)

    def keys(self, ex, p):
        return {x for f, k, q in self.each(ex, p) for x in k.keys(ex, q)}

    def new(self):
        return self.mk(*[k.new() for _, k in self.fields])


INFO = RecK('8TypeInfo', [('id', IntK()), ('qname', StringK()), ('ref', RefK()), ('repeated', FlagK()), ('optional', FlagK())])
FIELD = RecK('5Field', [('type', INFO), ('name', StringK()), ('index', IntK()), ('options', OptsK())])
ENTRY = RecK('11OptionEntry', [('name', StringK()), ('type', IntK()), ('value', StringK()), ('line', IntK())])
FIELDS = VecK(FIELD)
REFS = VecK(RefK())
EXTRA_KINDS.update({'protogen::Field': FIELD, 'std::shared_ptr<protogen::Message>': RefK()})
fname, findex, ftype = (lambda f: FIELD.get(f, 'name')), (lambda f: FIELD.get(f, 'index')), (lambda f: FIELD.get(f, 'type'))
mfields = z3.Function('mfields', INT, FIELDS.sort)
mname = z3.Function('mname', INT, Str)
mpkg = z3.Function('mpkg', INT, Str)
mopts = z3.Function('mopts', INT, Opts)


def put_message(ex, st, p, m):
    o = members(ex, '7Message')
    n = FIELDS.q.len(mfields(m))
    st.assume(z3.ULT(n, LIM))
    FIELDS.store(ex, st, p.add(o['fields']), mfields(m))
    StringK().store(ex, st, p.add(o['name']), mname(m))
    StringK().store(ex, st, p.add(o['package']), mpkg(m))
    OptsK().store(ex, st, p.add(o['options']), mopts(m))


def message(ex, st, m):
    """the message with identity m, in memory; not to be written to"""
    key = 'message:%d' % m.get_id()
    ex.consts[key] = m
    if key not in st.mem:
        o = Obj(key, key, 'ro', sizeof(ex, '7Message'), None, None)
        st.mem[key] = o
        put_message(ex, st, Ptr(key, 0), m)
    return Ptr(key, 0)


def message_of(ex, p):
    t = ex.consts.get(p.obj) if isinstance(p, Ptr) and p.obj else None
    if t is None or p.off != 0:
        raise Unsupported('message of unknown identity')
    return t


# ---------------------------------------------------------------- library: shared_ptr, unordered_map of options, exceptions (assumed)
def ref_deref(ex, st, a, d):
    t = RefK().load(ex, st, a[0])
    ex.oblige(st, 'pointer to a message is not null', t != 0)
    return message(ex, st, t)


def ref_copy(ex, st, a, d):
    t = RefK().load(ex, st, a[1])
    if 'shared_ptr(std::shared_ptr<protogen::Message>&&' in d or 'operator=(std::shared_ptr<protogen::Message>&&' in d:
        RefK().store(ex, st, a[1], z3.IntVal(0))
    RefK().store(ex, st, a[0], t)
    return a[0]


def ref_null(ex, st, a, d):
    RefK().store(ex, st, a[0], z3.IntVal(0))
    return a[0]


def ref_isnull(ex, st, a, d):
    t = RefK().load(ex, st, a[0])
    return norm(t != 0 if 'operator!=' in d or 'operator bool' in d else t == 0, 1)


def ref_eq(ex, st, a, d):
    e = RefK().load(ex, st, a[0]) == RefK().load(ex, st, a[1])
    return norm(z3.Not(e) if 'operator!=' in d else e, 1)


def opts_count(ex, st, a, d):
    o, k = OptsK().load(ex, st, a[0]), ex.get_str(st, a[1])
    return z3.If(has(o, k), z3.BitVecVal(1, 64), C0)


def opts_at(ex, st, a, d):
    o, k = OptsK().load(ex, st, a[0]), ex.get_str(st, a[1])
    ex.oblige(st, 'option is there', has(o, k))
    e = got(o, k)
    p = Ptr(ex.new_obj(st, 'entry', 'ro', ENTRY.size(ex)), 0)
    ENTRY.store(ex, st, p, ENTRY.mk(Entry.ekey(e), Entry.etype(e), Entry.evalue(e), fresh('line', B32)))
    return p


def opts_end_(ex, st, p):
    k = 'end of the options %s %s' % (p.obj, p.off)
    if k not in st.mem:
        st.mem[k] = Obj(k, k, 'ro', 0, None, None)
    return Ptr(k, 0)


def opts_end(ex, st, a, d):
    return opts_end_(ex, st, a[0])


def opts_find(ex, st, a, d):
    o, k = OptsK().load(ex, st, a[0]), ex.get_str(st, a[1])
    e = got(o, k)
    t, u = st.clone(), st.clone()
    t.assume(has(o, k))
    u.assume(z3.Not(has(o, k)))
    p = Ptr(ex.new_obj(t, 'entry', 'ro', 32 + ENTRY.size(ex)), 0)
    StringK().store(ex, t, p, k)
    ENTRY.store(ex, t, p.add(32), ENTRY.mk(Entry.ekey(e), Entry.etype(e), Entry.evalue(e), fresh('line', B32)))
    return [(x, y) for x, y in ((t, p), (u, opts_end_(ex, u, a[0]))) if ex.feasible(x)]


def node_ptr(ex, st, a, d):
    return ex.load(st, a[0], 'ptr')


def node_copy(ex, st, a, d):
    ex.put(st, a[0].obj, a[0].off, ex.load(st, a[1], 'ptr'), 8)


def node_cmp(ex, st, a, d):
    x, y = ex.load(st, a[0], 'ptr'), ex.load(st, a[1], 'ptr')
    return int((x.obj == y.obj) == ('operator==' in d))


def opts_copy(ex, st, a, d):
    OptsK().store(ex, st, a[0], OptsK().load(ex, st, a[1]))
    return a[0]


def opts_new(ex, st, a, d):
    OptsK().store(ex, st, a[0], Opts.NoOpts)


def nothing(ex, st, a, d):
    return None


def cxa_alloc(ex, st, a, d):
    return Ptr(ex.new_obj(st, 'exception', 'raw', a[0] if isinstance(a[0], int) else None), 0)


def cxa_throw(ex, st, a, d):
    ti = a[1]
    n = ti.obj[1:] if isinstance(ti, Ptr) and isinstance(ti.obj, str) else None
    st.ghost['exc'] = (a[0].obj, (n,) if n else None)
    return [(st, THROW)]


def ss_new(ex, st, a, d):
    st.ghost[('sink', a[0].obj)] = Nil


def ss_str(ex, st, a, d):
    k = sink(ex, st, a[1])
    ex.set_str(st, a[0], st.ghost[k])


def strings_of(ex, st, a, d):
    """vector of strings from a list of them"""
    if not isinstance(a[2], int):
        return NotImplemented
    t = SV.q.nil
    for i in range(a[2]):
        t = SV.q.snoc(t, ex.get_str(st, a[1].add(32 * i)))
    SV.store(ex, st, a[0], t)


SST = r'std::__cxx11::basic_stringstream<char, std::char_traits<char>, std::allocator<char> >'
SP = r'std::shared_ptr<protogen::Message>'
OM = r'std::unordered_map<' + STRT + r', protogen::OptionEntry, .*>::'
MODELS = [(r'std::__shared_ptr_access<protogen::Message, .*>::operator(->|\*)\(\) const$', ref_deref),
          (SP + r'::(shared_ptr|operator=)\(' + SP + r'( const&|&&)\)$', ref_copy), (SP + r'::shared_ptr\((decltype\(nullptr\)|std::nullptr_t)?\)$', ref_null),
          (SP + r'::~shared_ptr\(\)$', nothing), (r'std::__shared_ptr<protogen::Message, .*>::operator bool\(\) const$', ref_isnull),
          (r'(bool )?std::operator(==|!=) ?<protogen::Message>\(' + SP + r' const&, (decltype\(nullptr\)|std::nullptr_t)\)$', ref_isnull),
          (r'(bool )?std::operator(==|!=) ?<protogen::Message, protogen::Message>\(' + SP + r' const&, ' + SP + r' const&\)$', ref_eq),
          (OM + r'count\(', opts_count), (OM + r'find\(', opts_find), (OM + r'c?end\(', opts_end), (r'std::__detail::operator(==|!=)\(std::__detail::_Node_iterator_base<', node_cmp),
          (r'std::__detail::_Node_(const_)?iterator<.*::operator(->|\*)\(', node_ptr), (r'std::__detail::_Node_const_iterator<.*::_Node_const_iterator\(std::__detail::_Node_iterator<', node_copy), (OM + r'at\(', opts_at), (OM + r'(unordered_map|operator=)\(std::unordered_map<.* const&\)$', opts_copy),
          (OM + r'unordered_map\(\)$', opts_new), (OM + r'~unordered_map\(\)$', nothing),
          (r'protogen::exception::(~?exception)\(', nothing), (r'__cxa_allocate_exception$', cxa_alloc), (r'__cxa_throw$', cxa_throw),
          (r'__cxa_free_exception$', nothing), (SST + r'::basic_stringstream\(\)$', ss_new), (SST + r'::~basic_stringstream\(\)$', nothing),
          (SST + r'::str\(\) const$', ss_str), (r'std::vector<' + STRT + r', .*>::vector\(std::initializer_list<' + STRT, strings_of)] + _PM


# ---------------------------------------------------------------- small functions
class Gen(Contract):
    unit = 'cppgen'
    fuel = 2

    def obj(self, ex, st, k, name='arg'):
        p = Ptr(ex.new_obj(st, name, 'raw', k.size(ex)), 0)
        k.put(ex, st, p)
        return p

    def res(self, ex, st):
        """place of a std::string result"""
        return Ptr(ex.new_obj(st, 'result', 'raw', 32), 0)

    def ret_str(self, c, t=None):
        s = t if t is not None else fresh('result', Str)
        c.ex.put(c.st1, c.args[0].obj, c.args[0].off, AbsStr(s), 32)
        c.mods |= {(c.args[0].obj, k) for k in c.st1.mem[c.args[0].obj].cells}

    def result(self, c):
        return c.s1(c.args[0])


class StrFn(Gen):
    """function of a string to a string, reading it from left to right"""

    def setups(self, ex):
        st = State()
        yield '', st, [self.res(ex, st), self.obj(ex, st, StringK())]

    def havoc(self, c):
        self.ret_str(c)

    def arg(self, c):
        return c.s0(c.args[1])

    def post(self, c):
        s = self.arg(c)
        c.st1.assume(take(s, slen(s)) == s)         # lemma strings.TakeAll
        return [('the result', self.result(c) == self.value(s))]

    @property
    def loops(self):
        def inv(L):
            s = L.ex.get_str(L.st, L.st.frames[0].args[1])
            return [('so far', L['name'] == self.part(take(s, position(L))))]
        return field_loops('characters', {'name': ('str', ['name', 'out', 'result', 'agg.result', 'nrvo'])}, inv,
                         lambda L: slen(L.ex.get_str(L.st, L.st.frames[0].args[1])), False)


nat = Spec('native_package', [Str], Str)
nat.body = lambda s: z3.If(s == Nil, strlit(' ::'), z3.If(last(s) == ord('.'), strlit('::', nat(init(s))), Snoc(nat(init(s)), last(s))))


class NativePackage(StrFn):
    name = 'nativePackage'
    rx = r'^protogen::nativePackage\('

    def part(self, s):
        return nat(s)

    def value(self, s):
        return pkg_text(s)


grd = Spec('guard_name', [Str], Str)


def _grd(s):
    c = last(s)
    ok = z3.Or(z3.And(z3.UGE(c, 65), z3.ULE(c, 90)), z3.And(z3.UGE(c, 97), z3.ULE(c, 122)), z3.And(z3.UGE(c, 48), z3.ULE(c, 57)), c == 95)
    return z3.If(s == Nil, strlit('GUARD_'), Snoc(grd(init(s)), z3.If(ok, c, z3.BitVecVal(95, 8))))


grd.body = _grd


class MakeGuard(StrFn):
    name = 'makeGuard'
    rx = r'^protogen::makeGuard\('

    def part(self, s):
        return grd(s)
    value = part


# ---------------------------------------------------------------- types of fields (P20)
SCALAR = {'DOUBLE': 'double', 'FLOAT': 'float', 'INT32': 'int32_t', 'INT64': 'int64_t', 'UINT32': 'uint32_t', 'UINT64': 'uint64_t',
          'SINT32': 'int32_t', 'SINT64': 'int64_t', 'FIXED32': 'uint32_t', 'FIXED64': 'uint64_t', 'SFIXED32': 'int32_t', 'SFIXED64': 'int64_t',
          'BOOL': 'bool', 'STRING': None, 'BYTES': None, 'MESSAGE': None}
_cfg = {}


def config(mod):
    """the numbers of the types and the version, from the module"""
    if id(mod) not in _cfg:
        ids = {}
        for v in mod.md.values():
            m = re.search(r'DIEnumerator\(name: "TYPE_(\w+)", value: (\d+)', v)
            if m:
                ids[m.group(1)] = int(m.group(2))
        if set(ids) != set(SCALAR):
            raise Unsupported('other types: %s' % sorted(ids))
        opts = {}
        for v in mod.md.values():
            m = re.search(r'DIEnumerator\(name: "(IDENTIFIER|STRING|INTEGER|BOOLEAN)", value: (\d+)', v)
            if m:
                opts[m.group(1)] = int(m.group(2))
        ver = {m.group(1) for t in mod.globals.values() for m in [re.search(r'c"(_\d+_\d+_\d+)\\00"', t)] if m}
        if len(ver) != 1:
            raise Unsupported('version suffix not unique')
        _cfg[id(mod)] = (ids, opts, ver.pop(), mod)
    return _cfg[id(mod)][:3]


def val(t, b, n=8):
    return z3.BitVecVal(t, n) if isinstance(t, int) else t


def qualified(m):
    """name of the class of message m, in its namespace"""
    return cat(strlit('::', pkg_text(mpkg(m))), mname(m))


pkg_text = Spec('package_text', [Str], Str)
pkg_text.body = lambda s: z3.If(s == Nil, strlit(' '), nat(s))
type_text = Spec('type_text', [INFO.sort, BOOL], Str)
cat_ = mkcat


def type_body(mod):
    ids, _, ver = config(mod)

    def body(t, lists):
        i = INFO.get(t, 'id')
        v = strlit('bool')
        one = strlit('bool')
        for n, c in SCALAR.items():
            x = strlit(c) if c else strlit('protogen%s::string_field' % ver) if n == 'STRING' else strlit('std::vector<uint8_t>') if n == 'BYTES' else qualified(INFO.get(t, 'ref'))
            v = z3.If(i == ids[n], x, v)
            one = z3.If(i == ids[n], Snoc(mkcat(strlit('protogen%s::field<' % ver), x), z3.BitVecVal(62, 8)) if c else x, one)
        rep = Snoc(cat(z3.If(lists, strlit('std::list<'), strlit('std::vector<')), v), z3.BitVecVal(62, 8))
        return z3.If(INFO.get(t, 'repeated'), rep, one)
    return body


def good_type(mod, t):
    ids, _, _ = config(mod)
    i = INFO.get(t, 'id')
    return z3.Or(z3.And(i == ids['MESSAGE'], INFO.get(t, 'ref') != 0), *[i == ids[n] for n in ids if n != 'MESSAGE'])


class FieldFn(Gen):
    """function of a field, by the type of the field"""
    first = 1
    types = tuple(SCALAR)

    def init(self, ex):
        type_text.body = type_body(ex.mod)

    def setups(self, ex):
        ids, _, _ = config(ex.mod)
        for n in self.types + ('',):
            for rest in self.rest(n):
                st = State()
                f = self.obj(ex, st, FIELD)
                q = f.add(members(ex, '5Field')['type']).add(members(ex, '8TypeInfo')['id'])
                if n:
                    ex.put(st, q.obj, q.off, ids[n], 4)
                else:
                    st.assume(z3.And(*[bv(ex.load(st, q, ('i', 32)), 32) != v for v in ids.values()]))
                yield ' (%s %s)' % (n or 'another type', rest), st, [self.res(ex, st), f] + rest

    def rest(self, n):
        return [[]]

    def info(self, c):
        return FIELD.get(FIELD.load(c.ex, c.st0, c.args[1]), 'type')

    def throws(self, c):
        return z3.Not(good_type(c.ex.mod, self.info(c)))

    def havoc(self, c):
        self.ret_str(c)

    def exception(self, ex, st):
        return (ex.new_obj(st, 'exception', 'raw', None), ('_ZTIN8protogen9exceptionE',))


class NativeType(FieldFn):
    """the value type of a field"""
    name = 'nativeType'
    rx = r'^protogen::nativeType(\[abi:cxx11\])?\('
    uses = ('NativePackage',)
    types = tuple(n for n in SCALAR if n != 'STRING')

    def pre(self, c):
        return [('no string field', INFO.get(self.info(c), 'id') != config(c.ex.mod)[0]['STRING'])]

    def post(self, c):
        ids, _, _ = config(c.ex.mod)
        t = self.info(c)
        out = []
        for n, x in SCALAR.items():
            if n != 'STRING':
                y = strlit(x) if x else strlit('uint8_t') if n == 'BYTES' else qualified(INFO.get(t, 'ref'))
                out.append(('type of ' + n.lower(), z3.Implies(INFO.get(t, 'id') == ids[n], self.result(c) == y)))
        return out


class FieldType(FieldFn):
    name = 'fieldNativeType'
    rx = r'^protogen::fieldNativeType(\[abi:cxx11\])?\('
    uses = ('NativeType', 'NativePackage')

    def rest(self, n):
        return [[0], [1]]

    def post(self, c):
        return [('the documented type', self.result(c) == type_text(self.info(c), norm2(c.args[2])))]


def norm2(v):
    return z3.BoolVal(bool(v)) if isinstance(v, int) else v if z3.is_bool(v) else v != 0


# ---------------------------------------------------------------- options (P21)
def option(o, k):
    return has(o, strlit(k)), got(o, strlit(k))


TRUE = strlit('true')
is_true = Spec('option_is_true', [Opts, Str], BOOL)         # the option is there and true
is_true.body = lambda o, k: z3.And(has(o, k), Entry.evalue(got(o, k)) == TRUE)
wrong = Spec('option_of_another_type', [Opts, Str, B32], BOOL)
wrong.body = lambda o, k, t: z3.And(has(o, k), Entry.etype(got(o, k)) != t)


class GetOption(Gen):
    ty = 'STRING'
    throw = FieldFn.exception

    def setups(self, ex):
        st = State()
        a = [self.obj(ex, st, OptsK()), self.obj(ex, st, StringK())]
        yield '', st, ([self.res(ex, st)] if self.ty == 'STRING' else []) + a + self.default(ex, st)

    def default(self, ex, st):
        return [self.obj(ex, st, StringK())]

    def opts(self, c):
        a = c.args[1:] if self.ty == 'STRING' else c.args
        return OptsK().load(c.ex, c.st0, a[0]), c.s0(a[1]), a[2]

    def throws(self, c):
        o, k, d = self.opts(c)
        return wrong(o, k, z3.BitVecVal(config(c.ex.mod)[1][self.ty], 32))
    exception = FieldFn.exception

    def havoc(self, c):
        self.ret_str(c)

    def post(self, c):
        o, k, d = self.opts(c)
        return [('the value of the option, or the default', self.result(c) == z3.If(has(o, k), Entry.evalue(got(o, k)), c.s0(d)))]


class GetOptionStr(GetOption):
    name = 'get_option (string)'
    rx = r'^protogen::get_option(\[abi:cxx11\])?\(.*' + STRT + r' const&, ' + STRT + r' const&\)$'


class GetOptionBool(GetOption):
    name = 'get_option (bool)'
    rx = r'^protogen::get_option\(.*' + STRT + r' const&, bool\)$'
    ty = 'BOOLEAN'

    def default(self, ex, st):
        return [fresh('default', BOOL)]

    def havoc(self, c):
        return fresh('value', BOOL)

    def post(self, c):
        o, k, d = self.opts(c)
        return [('the value of the option, or the default', norm2(c.ret) == z3.If(has(o, k), Entry.evalue(got(o, k)) == TRUE, norm2(d)))]


fopts = lambda f: FIELD.get(f, 'options')
transient = lambda f: is_true(fopts(f), strlit('transient'))
badchar = lambda c: z3.Or(c == 34, c == 39, c == 92, z3.ULT(c, 32))
badfrom = Spec('bad_from', [Str, B64], BOOL)        # a character that no name may contain, at i or later
badfrom.body = lambda s, i: z3.And(z3.ULT(i, slen(s)), z3.Or(badchar(at(s, i)), badfrom(s, i + 1)))
badname = lambda s: badfrom(s, C0)
jname = Spec('json_name', [FIELD.sort], Str)
jname.body = lambda f: z3.If(option(fopts(f), 'name')[0], Entry.evalue(option(fopts(f), 'name')[1]), fname(f))


def bad_transient(mod, f):
    return wrong(fopts(f), strlit('transient'), z3.BitVecVal(config(mod)[1]['BOOLEAN'], 32))


def bad_name(mod, f):
    return z3.Or(wrong(fopts(f), strlit('name'), z3.BitVecVal(config(mod)[1]['STRING'], 32)), badname(jname(f)))


class IsTransient(Gen):
    name = 'is_transient'
    rx = r'^protogen::is_transient\('
    uses = ('GetOptionBool',)
    fuel = 2

    def setups(self, ex):
        st = State()
        yield '', st, [self.obj(ex, st, FIELD)]

    def field(self, c):
        return FIELD.load(c.ex, c.st0, c.args[0])

    def throws(self, c):
        return bad_transient(c.ex.mod, self.field(c))
    exception = FieldFn.exception

    def havoc(self, c):
        return fresh('value', BOOL)

    def post(self, c):
        return [('transient exactly when the option says so', norm2(c.ret) == transient(self.field(c)))]


class JsonName(Gen):
    name = 'get_json_name'
    rx = r'^protogen::get_json_name(\[abi:cxx11\])?\('
    uses = ('GetOptionStr',)

    def setups(self, ex):
        st = State()
        yield '', st, [self.res(ex, st), self.obj(ex, st, FIELD)]

    def field(self, c):
        return FIELD.load(c.ex, c.st0, c.args[1])

    def throws(self, c):
        return bad_name(c.ex.mod, self.field(c))
    exception = FieldFn.exception

    def havoc(self, c):
        self.ret_str(c)

    def post(self, c):
        return [('the name option, or the name of the field', self.result(c) == jname(self.field(c)))]

    @property
    def loops(self):
        def inv(L):
            n = L['name']
            return [('good so far', badname(n) == badfrom(n, position(L)))]
        return field_loops('characters', {'name': ('str', ['name', 'out', 'result', 'agg.result', 'nrvo'])}, inv, lambda L: slen(L['name']), False)


class ObfuscatedLiteral(Gen):
    """std::string("<escapes>", <length>)"""
    name = 'obfuscated_literal'
    rx = r'^protogen::obfuscated_literal(\[abi:cxx11\])?\('
    uses = ('obf.Obfuscate', 'printer.Print')

    def setups(self, ex):
        st = State()
        yield '', st, [self.res(ex, st), self.obj(ex, st, StringK())]

    def havoc(self, c):
        self.ret_str(c)

    def post(self, c):
        return [('an expression for the obfuscated text', self.result(c) == obf_literal(c.s0(c.args[1])))]


obf_literal = Spec('obfuscated_literal', [Str], Str)
obf_literal.body = lambda s: mkcat(cat(strlit('", ', cat(strlit('std::string("'), obf.obf(s, obf.mask(s), slen(s)))), itoa(z3.BV2Int(slen(s), False))), strlit(')'))


SMALL = ['gen.NativePackage', 'gen.MakeGuard', 'gen.NativeType', 'gen.FieldType', 'gen.ObfuscatedLiteral']
OPTIONS = ['gen.GetOptionStr', 'gen.GetOptionBool', 'gen.IsTransient', 'gen.JsonName']
