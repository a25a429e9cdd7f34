"""The kinds of value a message is made of: scalars, wrappers, bytes, repeated fields, messages.

A kind says how a value lies in memory and what it is as a mathematical value (a term of `sort`): a wrapper is
an option, a repeated field a sequence, a message a record of its fields.  Library contracts of std::vector over
elements of a kind are at the end.
"""
from .base import *
from .fields import Num, Txt, TYPES, SORTS
from .base64 import BytesK
from ..stl import get_bytes, set_bytes, AbsBytes, split_args
from ..build import HERE as _HERE
import os

C64 = lambda n: z3.BitVecVal(n, 64)
_opts = {}


def opt(sort):
    k = str(sort)
    if k not in _opts:
        d = z3.Datatype('Opt_%d' % len(_opts))
        n = len(_opts)
        d.declare('None%d' % n)
        d.declare('Some%d' % n, ('the%d' % n, sort))
        o = d.create()
        o.none, o.some, o.is_some, o.the = getattr(o, 'None%d' % n), getattr(o, 'Some%d' % n), getattr(o, 'is_Some%d' % n), getattr(o, 'the%d' % n)
        _opts[k] = o
    return _opts[k]


class Kind:
    """leaf kinds give load, store, teq, tempty, new"""
    fp = False

    def isempty(self, x, st, p):
        return self.tempty(self.load(x, st, p))

    def isnew(self, x, st, p):
        return self.load(x, st, p) == self.new()

    def equal(self, x, s0, p, s1, q):
        return self.teq(self.load(x, s0, p), self.load(x, s1, q))

    def same(self, x, s0, p, s1, q):
        return self.load(x, s0, p) == self.load(x, s1, q)

    def inv(self, x, st, p):
        return z3.BoolVal(True)

    def keys(self, ex, p):
        return {(p.obj, p.off)}

    def any(self, st):
        """an arbitrary valid value"""
        return fresh(self.tag, self.sort)

    def put(self, ex, st, p):
        self.store(ex, st, p, self.any(st))


class PlainK(Kind):
    """a bare number or bool (element of a repeated field)"""

    def __init__(self, ty):
        self.L, self.ty = Num(ty), ty
        self.sort, self.fp, self.tag = self.L.sort, self.L.fp, 'n_' + ty.replace(' ', '_')

    def size(self, ex):
        return self.L.w

    def load(self, ex, st, p):
        return self.L.raw(ex, st, p)

    def store(self, ex, st, p, t):
        ex.put(st, p.obj, p.off, t, self.L.w)

    def any(self, st):
        return self.L.plain(st)

    def teq(self, a, b):
        return self.L.same(a, b)

    def new(self):
        return self.L.zero()

    def valid(self, t):
        return z3.ULE(t, 1) if self.ty == 'bool' else z3.Not(z3.fpIsNaN(t)) if self.fp else z3.BoolVal(True)


class WrapK(Kind):
    """field<T> or string_field: an option"""

    def __init__(self, ty):
        self.L, self.ty = (Txt() if ty == 'string' else Num(ty)), ty
        self.vsort = Str if ty == 'string' else self.L.sort
        self.o, self.fp, self.tag = opt(self.vsort), self.L.fp, 'o_' + ty.replace(' ', '_')
        self.sort = self.o

    def size(self, ex):
        return self.L.size(ex)

    def put(self, ex, st, p):
        self.L.put(ex, st, p)

    def inv(self, ex, st, p):
        return self.L.inv(ex, st, p)

    def keys(self, ex, p):
        return self.L.keys(ex, p)

    def load(self, ex, st, p):
        return z3.If(self.L.isset(ex, st, p), self.o.some(self.L.val(ex, st, p)), self.o.none)

    def store(self, ex, st, p, t):
        m, _ = self.L.lay(ex)
        s = self.o.is_some(t)
        if self.ty == 'string':
            v = z3.If(s, self.o.the(t), Nil)
            st.assume(z3.ULT(slen(v), LIM))
            ex.put(st, p.obj, p.off + m['value_'], AbsStr(v), 32)
            ex.put(st, p.obj, p.off + m['null_'], z3.If(s, z3.BitVecVal(0, 8), z3.BitVecVal(1, 8)), 1)
            return
        v = z3.If(s, self.o.the(t), self.L.zero())
        if self.ty == 'bool':
            st.assume(z3.ULE(v, 1))
        if self.fp:
            st.assume(z3.Not(z3.fpIsNaN(v)))
        ex.put(st, p.obj, p.off + m['value_'], v, self.L.w)
        ex.put(st, p.obj, p.off + m['empty_'], z3.If(s, z3.BitVecVal(0, 8), z3.BitVecVal(1, 8)), 1)

    def tempty(self, t):
        return z3.Not(self.o.is_some(t))

    def teq(self, a, b):
        return z3.And(self.o.is_some(a) == self.o.is_some(b), z3.Implies(self.o.is_some(a), self.L.same(self.o.the(a), self.o.the(b))))

    def new(self):
        return self.o.none

    def isempty(self, x, st, p):
        return z3.Not(self.L.isset(x, st, p))
    isnew = isempty

    def equal(self, x, s0, p, s1, q):
        L = self.L
        a, b = L.isset(x, s0, p), L.isset(x, s1, q)
        return z3.And(a == b, z3.Implies(a, L.same(L.val(x, s0, p), L.val(x, s1, q))))

    def same(self, x, s0, p, s1, q):
        L = self.L
        a, b = L.isset(x, s0, p), L.isset(x, s1, q)
        return z3.And(a == b, z3.Implies(a, L.val(x, s0, p) == L.val(x, s1, q)))


class BlobK(Kind):
    """bytes"""
    sort, tag, ty = Str, 'bytes', 'bytes'

    def size(self, ex):
        return 24

    def any(self, st):
        t = fresh('bytes', Str)
        st.assume(z3.ULT(slen(t), LIM))
        return t

    def load(self, ex, st, p):
        return get_bytes(ex, st, p)

    def store(self, ex, st, p, t):
        st.assume(z3.ULT(slen(t), LIM))
        ex.put(st, p.obj, p.off, AbsBytes(t), 24)

    def tempty(self, t):
        return t == Nil

    def teq(self, a, b):
        return a == b

    def new(self):
        return Nil


class Seq:
    """sequences of values of a kind, as terms"""

    def __init__(self, ek):
        self.ek = ek
        n = 'Seq_' + ek.tag
        d = z3.Datatype(n)
        d.declare('Nil_' + ek.tag)
        d.declare('Snoc_' + ek.tag, ('front_' + ek.tag, d), ('back_' + ek.tag, ek.sort))
        s = d.create()
        self.sort = s
        self.nil = getattr(s, 'Nil_' + ek.tag)
        self.snoc, self.front, self.back = getattr(s, 'Snoc_' + ek.tag), getattr(s, 'front_' + ek.tag), getattr(s, 'back_' + ek.tag)
        self.len = Spec('len_' + ek.tag, [s], B64)
        self.at = Spec('at_' + ek.tag, [s, B64], ek.sort)
        self.eq = Spec('eq_' + ek.tag, [s, s], BOOL)
        self.len.body = lambda t: z3.If(t == self.nil, C64(0), self.len(self.front(t)) + 1)
        self.at.body = lambda t, i: z3.If(i == self.len(self.front(t)), self.back(t), self.at(self.front(t), i))
        self.eq.body = lambda a, b: z3.If(z3.Or(a == self.nil, b == self.nil), z3.And(a == self.nil, b == self.nil),
                                          z3.And(self.eq(self.front(a), self.front(b)), ek.teq(self.back(a), self.back(b))))


_seqs = {}


def seq(ek):
    if ek.tag not in _seqs:
        _seqs[ek.tag] = Seq(ek)
    return _seqs[ek.tag]


class SeqCell(AbsVec):
    def fresh(self, ex, st, name):
        k = self.kw['k']
        return SeqCell(k.any(st), k=k)

    def same(self, o):
        return type(self) is type(o) and self.t.eq(o.t)


class VecK(Kind):
    def __init__(self, ek):
        self.ek, self.q = ek, seq(ek)
        self.sort, self.tag, self.ty, self.fp = self.q.sort, 'v_' + ek.tag, 'repeated', ek.fp

    def size(self, ex):
        return 40 if getattr(self.ek, 'ty', '') == 'bool' else 24

    def any(self, st):
        t = fresh(self.tag, self.sort)
        st.assume(z3.ULT(self.q.len(t), LIM))
        return t

    def load(self, ex, st, p):
        a = ex.abs_at(st, p, 'vec')
        if a.kw['k'].tag != self.tag:
            raise Unsupported('vector of another element type')
        return a.t

    def store(self, ex, st, p, t):
        ex.put(st, p.obj, p.off, SeqCell(t, k=self), self.size(ex))

    def tempty(self, t):
        return t == self.q.nil

    def teq(self, a, b):
        return self.q.eq(a, b)

    def new(self):
        return self.q.nil


class MsgK(Kind):
    """a message: the record of its fields.  `shift` is the offset of the fields in the entity"""

    def __init__(self, name, fields, entity=False):
        self.mname, self.fields, self.entity = name, fields, entity
        self.tag, self.ty = 'm_' + name, 'message'
        self.fp = any(k.fp for _, k, _, _ in fields)
        if name not in _recs:
            d = z3.Datatype('Rec_' + name)
            d.declare('Rec_' + name, *[('%s_%s' % (name, f), k.sort) for f, k, _, _ in fields])
            _recs[name] = d.create()
        self.sort = _recs[name]
        self.mk = getattr(self.sort, 'Rec_' + name) if fields else getattr(self.sort, 'Rec_' + name)

    def get(self, t, f):
        t = t if not (z3.is_app(t) and t.decl().name() == 'Rec_' + self.mname and t.num_args()) else t
        a = getattr(self.sort, '%s_%s' % (self.mname, f))(t)
        return z3.simplify(a) if z3.is_app(t) and t.decl().name() == 'Rec_' + self.mname else a

    def lay(self, ex):
        R = rt(ex)
        key = ('msg', self.mname)
        if not hasattr(R, '_msg'):
            R._msg = {}
        if key not in R._msg:
            n, m = len(self.mname), len(self.mname) + 5
            ty = r'^_ZTSN2vf%d%s_typeE$' % (m, self.mname)
            en = r'^_ZTSN2vf%d%sE$' % (n, self.mname)
            size, esize = R.size(ty), R.size(en)
            mem = R._m(ex.mod, ty) if self.fields else {}
            if {f for f, _, _, _ in self.fields} != set(mem):
                raise Unsupported('message %s has other fields: %s' % (self.mname, sorted(mem)))
            if esize != size + 8 and self.fields:
                raise Unsupported('layout of entity ' + self.mname)
            R._msg[key] = (mem, size, esize)
        return R._msg[key]

    def off(self, ex, f):
        return self.lay(ex)[0][f] + (8 if self.entity else 0)

    def size(self, ex):
        return self.lay(ex)[2 if self.entity else 1]

    def each(self, ex, p):
        return [(f, k, p.add(self.off(ex, f))) for f, k, _, _ in self.fields]

    def put(self, ex, st, p):
        for f, k, q in self.each(ex, p):
            k.put(ex, st, q)
        self.vptr(ex, st, p)

    def vptr(self, ex, st, p):
        if self.entity:
            g = [n for n in ex.mod.globals if n == '_ZTVN2vf%d%sE' % (len(self.mname), self.mname)]
            if not g:
                raise Unsupported('no virtual table of ' + self.mname)
            ex.put(st, p.obj, p.off, Ptr(ex.global_obj(st, g[0]), 16), 8)

    def load(self, ex, st, p):
        if not self.fields:
            return self.mk
        return self.mk(*[k.load(ex, st, q) for f, k, q in self.each(ex, p)])

    def store(self, ex, st, p, t):
        for f, k, q in self.each(ex, p):
            k.store(ex, st, q, self.get(t, f))
        self.vptr(ex, st, p)

    def inv(self, ex, st, p):
        return z3.And(*[k.inv(ex, st, q) for f, k, q in self.each(ex, p)])

    def keys(self, ex, p):
        return {x for f, k, q in self.each(ex, p) for x in k.keys(ex, q)}

    def tempty(self, t):
        return z3.And(*[k.tempty(self.get(t, f)) for f, k, _, _ in self.fields])

    def teq(self, a, b):
        return z3.And(*[k.teq(self.get(a, f), self.get(b, f)) for f, k, _, _ in self.fields])

    def new(self):
        return self.mk(*[k.new() for _, k, _, _ in self.fields]) if self.fields else self.mk

    def isempty(self, x, st, p):
        return z3.And(*[k.isempty(x, st, q) for f, k, q in self.each(x, p)])

    def isnew(self, x, st, p):
        return z3.And(*[k.isnew(x, st, q) for f, k, q in self.each(x, p)])

    def equal(self, x, s0, p, s1, q):
        return z3.And(*[k.equal(x, s0, a, s1, b) for (f, k, a), (_, _, b) in zip(self.each(x, p), self.each(x, q))])

    def same(self, x, s0, p, s1, q):
        return z3.And(*[k.same(x, s0, a, s1, b) for (f, k, a), (_, _, b) in zip(self.each(x, p), self.each(x, q))])


_recs = {}

# ---------------------------------------------------------------- the schema, as the specification reads it
PROTO = {'int32': 'int', 'sint32': 'int', 'sfixed32': 'int', 'uint32': 'unsigned int', 'fixed32': 'unsigned int', 'int64': 'long', 'sint64': 'long',
         'sfixed64': 'long', 'uint64': 'unsigned long', 'fixed64': 'unsigned long', 'float': 'float', 'double': 'double', 'bool': 'bool'}


def schema(path):
    """messages in order: name -> [(field, type, repeated, JSON name, transient)]"""
    src = open(path).read()
    out = {}
    for m in re.finditer(r'message (\w+)\s*\{([^}]*)\}', src):
        fs = []
        for f in re.finditer(r'(repeated )?(\w+) (\w+) = \d+\s*(?:\[([^\]]*)\])?;', m.group(2)):
            o = f.group(4) or ''
            n = re.search(r'name = "([^"]*)"', o)
            fs.append((f.group(3), f.group(2), bool(f.group(1)), n.group(1) if n else f.group(3), 'transient = true' in o))
        out[m.group(1)] = fs
    return out


def kinds_of(sch):
    """MsgK of every message: fields as (name, kind, JSON name, transient)"""
    types, ents = {}, {}
    for name, fs in sch.items():
        l = []
        for f, ty, rep, js, tr in fs:
            if ty in PROTO:
                k = PlainK(PROTO[ty]) if rep else WrapK(PROTO[ty])
            elif ty == 'string':
                k = WrapK('string')
            elif ty == 'bytes':
                k = BlobK()
            else:
                k = ents[ty]
            l.append((f, VecK(k) if rep else k, js, tr))
        types[name] = MsgK(name, l)
        ents[name] = MsgK(name, l, True)
    return types, ents


SCHEMA = schema(os.path.join(_HERE, 'schemas', 'all.proto'))
TYPE, ENT = kinds_of(SCHEMA)
STRT = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'
VU8 = 'std::vector<unsigned char, std::allocator<unsigned char> >'


class StringK(Kind):
    """a std::string (generator)"""
    sort, tag, ty = Str, 'str', 'std::string'

    def size(self, ex):
        return 32

    def any(self, st):
        t = fresh('s', Str)
        st.assume(z3.ULT(slen(t), LIM))
        return t

    def load(self, ex, st, p):
        return ex.get_str(st, p)

    def store(self, ex, st, p, t):
        st.assume(z3.ULT(slen(t), LIM))
        ex.put(st, p.obj, p.off, AbsStr(t), 32)

    def tempty(self, t):
        return t == Nil

    def teq(self, a, b):
        return a == b

    def new(self):
        return Nil


EXTRA_KINDS = {}       # further element types, by demangled name


def kind_of(el):
    el = el.strip()
    if el in EXTRA_KINDS:
        return EXTRA_KINDS[el]
    if el in SORTS:
        return PlainK(el)
    if re.match(r'protogen\w*::string_field$', el):
        return WrapK('string')
    if el == VU8:
        return BlobK()
    m = re.match(r'vf::(\w+)$', el)
    if m and m.group(1) in ENT:
        return ENT[m.group(1)]
    if re.match(STRT + '$', el):
        return StringK()
    return None


# ---------------------------------------------------------------- std::vector over elements of a kind (assumed)
def vec_el(d, at=0):
    """element type of the first std::vector<...> in d from position `at` on"""
    i = d.index('std::vector<', at) + len('std::vector<')
    return split_args(d[i:_close(d, i)])[0]


def _close(d, i):
    n = 1
    j = i
    while n:
        n += d[j] == '<'
        n -= d[j] == '>'
        j += 1
    return j - 1


class VecData:
    """elements of a vector: iterators point here, offsets count elements"""

    def __init__(self, term, k, owner=None):
        self.term, self.k, self.owner = term, k, owner

    def load(self, ex, st, p, rt, size):
        raise Unsupported('raw read of vector elements')
    store = load


def vecdata(ex, st, owner, a):
    key = 'vec:%s:%s:%d' % (owner.obj, owner.off, a.t.get_id())
    ex.consts[key] = a.t
    if key not in st.mem:
        st.mem[key] = Obj(key, key, 'sdata', None, None, VecData(a.t, a.kw['k'], owner))
    return Ptr(key, 0)


def vlen(st, a):
    n = a.kw['k'].q.len(a.t)
    if a.t.decl().name() == a.kw['k'].q.nil.decl().name():
        return 0
    st.assume(z3.ULT(n, LIM))
    return norm(n, 64)


def element(ex, st, it):
    """the element an iterator stands on, as an object of its own"""
    if not isinstance(it, Ptr) or it.obj is None or not isinstance(st.mem[it.obj].meta, VecData):
        raise Unsupported('iterator into something else')
    v = st.mem[it.obj].meta
    t = v.term
    live = ex.consts.get('live elements')           # elements that may be written to: the vector as it is now
    if live is not None:
        t = live(ex, st, v)
    n = v.k.q.len(t)
    ex.oblige(st, 'element within the vector', z3.ULT(bv(it.off, 64), n))
    e = v.k.q.at(t, bv(it.off, 64))
    o = ex.new_obj(st, 'element', 'raw', max(1, v.k.ek.size(ex)))
    v.k.ek.store(ex, st, Ptr(o, 0), e)
    if hasattr(v.k.ek, 'valid'):
        st.assume(v.k.ek.valid(e))
    st.w(o).kind = 'copy'           # of the element: not to be written to
    ex.consts['element:' + o] = (v, it.off, t)
    return Ptr(o, 0)


def vec_method(ex, st, a, d):
    el = vec_el(d)
    ek = kind_of(el)
    if ek is None:
        return NotImplemented
    m = d[_close(d, d.index('std::vector<') + 12) + 3:]
    K = VecK(ek)
    cell = lambda p: ex.abs_at(st, p, 'vec')
    setv = lambda p, t: ex.set_abs(st, p, SeqCell(t, k=K), K.size(ex))
    if re.match(r'vector\((std::allocator<.*> const&)?\)$', m):
        return setv(a[0], K.q.nil)
    if m == '~vector()':
        return None
    if re.match(r'(vector|operator=)\(std::vector<.* const&\)$', m):
        setv(a[0], cell(a[1]).t)
        return a[0]
    if re.match(r'(vector|operator=)\(std::vector<.*&&\)$', m):
        t = cell(a[1]).t
        if not same(a[0], a[1]):
            setv(a[1], K.q.nil)
        setv(a[0], t)
        return a[0]
    if m == 'size() const':
        return vlen(st, cell(a[0]))
    if m == 'empty() const':
        t = cell(a[0]).t
        n = vlen(st, cell(a[0]))
        st.assume((t == K.q.nil) == (bv(n, 64) == 0))
        return norm(t == K.q.nil, 1)
    if m == 'clear()':
        return setv(a[0], K.q.nil)
    if m.startswith('reserve('):
        return None
    if m.startswith('push_back('):
        e = norm2(a[1]) if m == 'push_back(bool)' else ek.load(ex, st, a[1])
        setv(a[0], K.q.snoc(cell(a[0]).t, e))
        return None
    if re.match(r'c?begin\(\)( const)?$', m):
        p = vecdata(ex, st, a[0], cell(a[0]))
    elif re.match(r'c?end\(\)( const)?$', m):
        p = vecdata(ex, st, a[0], cell(a[0])).add(vlen(st, cell(a[0])))
    elif re.match(r'(operator\[\]|at)\(unsigned long\)( const)?$', m):
        if getattr(ek, 'ty', '') == 'bool':
            if 'const' not in m:
                return NotImplemented
            e = element(ex, st, vecdata(ex, st, a[0], cell(a[0])).add(a[1]))
            return norm(ek.load(ex, st, e) != 0, 1)
        return element(ex, st, vecdata(ex, st, a[0], cell(a[0])).add(a[1]))
    elif re.match(r'(back|front)\(\)( const)?$', m):
        n = vlen(st, cell(a[0]))
        return element(ex, st, vecdata(ex, st, a[0], cell(a[0])).add(addoff(n, -1) if m[0] == 'b' else 0))
    elif re.match(r'swap\(', m):
        x, y = cell(a[0]).t, cell(a[1]).t
        setv(a[0], y)
        return setv(a[1], x)
    else:
        return NotImplemented
    return Agg([p, 0]) if getattr(ek, 'ty', '') == 'bool' else p


def norm2(v):
    return z3.BitVecVal(int(v), 8) if isinstance(v, int) else z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if z3.is_bool(v) else v


def it_at(ex, st, p):
    v = ex.load(st, p, 'ptr')
    if not isinstance(v, Ptr) or v.obj is None or not isinstance(st.mem[v.obj].meta, VecData):
        return None
    return v


def it_method(ex, st, a, d):
    v = it_at(ex, st, a[0])
    if v is None:
        return NotImplemented
    m = re.search(r'::(operator(\*|->|\+\+|--))\((int)?\)( const)?$', d)
    if not m:
        return NotImplemented
    op = m.group(2)
    if op in ('*', '->'):
        e = element(ex, st, v)
        if 'Bit' in d:
            return norm(ex.load(st, e, ('i', 8)) != 0 if is_sym(ex.load(st, e, ('i', 8))) else int(ex.load(st, e, ('i', 8)) != 0), 1)
        return e
    n = st.mem[v.obj].meta
    n = bv(vlen(st, SeqCell(n.term, k=n.k)), 64)
    ex.oblige(st, 'iterator stays within the vector', z3.ULT(bv(v.off, 64), n) if op == '++' else bv(v.off, 64) != 0)
    ex.put(st, a[0].obj, a[0].off, v.add(1 if op == '++' else -1), 8)
    if m.group(3):
        return Agg([v, 0]) if 'Bit' in d else v
    return a[0]


def it_compare(ex, st, a, d):
    x, y = it_at(ex, st, a[0]), it_at(ex, st, a[1])
    if x is None or y is None:
        return NotImplemented
    if x.obj != y.obj:
        raise Unsupported('iterators of different vectors or states')
    e = bv(x.off, 64) == bv(y.off, 64)
    return norm(z3.Not(e) if 'operator!=' in d else e, 1)


def vec_eq(ex, st, a, d):
    ek = kind_of(vec_el(d, d.index('(std::vector<')))
    if ek is None:
        return NotImplemented
    e = seq(ek).eq(ex.abs_at(st, a[0], 'vec').t, ex.abs_at(st, a[1], 'vec').t)
    return norm(z3.Not(e) if 'operator!=<' in d else e, 1)


def vec_swap(ex, st, a, d):
    if kind_of(vec_el(d, d.index('(std::vector<'))) is None:
        return NotImplemented
    x, y = ex.abs_at(st, a[0], 'vec'), ex.abs_at(st, a[1], 'vec')
    ex.set_abs(st, a[0], y, y.kw['k'].size(ex))
    ex.set_abs(st, a[1], x, x.kw['k'].size(ex))


NB = r'std::vector<(?!unsigned char,|char,)'
MODELS = [(NB, vec_method),
          (r'(bool )?std::operator(==|!=)<.*\(' + NB, vec_eq),
          (r'(void )?(std::)?.*std::swap<.*\(' + NB, vec_swap),
          (r'__gnu_cxx::__normal_iterator<.*::operator(\*|->|\+\+|--)\(', it_method),
          (r'std::_Bit_(const_)?iterator::operator(\*|\+\+|--)\(', it_method),
          (r'(bool )?__gnu_cxx::operator(!=|==)<', it_compare),
          (r'std::operator(!=|==)\(std::_Bit_iterator_base const&', it_compare)]
