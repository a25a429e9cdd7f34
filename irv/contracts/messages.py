"""Contracts of repeated fields and messages as values: empty, clear, equal, swap, copies (P22)."""
from .base import *
from .kinds import *
from .kinds import MODELS as _VM
from .values import VM, J, OPS
from .read import locale_state, MODELS as _LM, AXIOMS

MODELS = _VM + list(_LM)
# every kind of repeated field in the schemas: name, C++ element type, kind
ELEMS = [('Int', 'int'), ('ULong', 'unsigned long'), ('Double', 'double'), ('Bool', 'bool'), ('Str', r'protogen\w*::string_field'),
         ('Blob', VU8), ('Inner', 'vf::Inner')]
SAMPLE = {r'protogen\w*::string_field': 'protogen::string_field'}


def vecrx(el):
    """demangled std::vector<el, ...>, as a regular expression"""
    return r'std::vector<' + el + r', std::allocator<' + el + r' ?> >'


SUF = {'empty': r'empty\(', 'clear': r'clear\(', 'equal': r'equal\(', 'swap': r'swap\('}
VECOPS, MSGOPS, COPIES = [], [], []
LEAF = {'empty': 'Empty', 'clear': 'Clear', 'equal': 'Equal', 'swap': 'Swap'}
SHORT = {ty: sh for sh, (ty, _) in TYPES.items()}


def make(base, nm, lst, **kw):
    globals()[nm] = type(nm, (base,), kw)
    if lst is not None:
        lst.append('messages.' + nm)
    return nm


for nm, el in ELEMS:
    K = VecK(kind_of(SAMPLE.get(el, el)))
    for op, o in OPS.items():
        uses = ()
        if op == 'equal' and nm == 'Str':
            uses = ('fields.StrEqField',)
        if op == 'equal' and nm == 'Inner':
            uses = ('EqInner',)
        make(VM, 'Vec%s%s' % (nm, o), VECOPS, name='json<vector<%s>>::%s' % (SAMPLE.get(el, el), op), rx=J + vecrx(el) + r', void>::' + SUF[op], op=op, K=K, uses=uses)


def leaf_uses(k, op):
    o = LEAF[op]
    if isinstance(k, WrapK):
        return 'values.%sField%s' % ('Str' if k.ty == 'string' else SHORT[k.ty], o)
    if isinstance(k, BlobK):
        return 'base64.' + o
    if isinstance(k, VecK):
        return 'Vec%s%s' % ([n for n, e in ELEMS if kind_of(SAMPLE.get(e, e)).tag == k.ek.tag][0], o)
    return 'Msg%s%s' % (k.mname, o)


class MsgVM(VM):
    fuel = 1


for name, K in TYPE.items():
    for op, o in OPS.items():
        uses = tuple(sorted({leaf_uses(k, op) for _, k, _, _ in K.fields}))
        make(MsgVM, 'Msg%s%s' % (name, o), MSGOPS, name='json<%s_type>::%s' % (name, op), rx=J + r'vf::%s_type, void>::' % name + SUF[op], op=op, K=K, uses=uses)


class EntityVM(Contract):
    """the methods of the message itself"""
    fuel = 1
    K = None
    op = 'empty'

    def setups(self, ex):
        for al in ([False, True] if self.op in ('equal', 'swap') else [False]):
            st = State()
            o = ex.new_obj(st, 'this', 'raw', self.K.size(ex))
            self.K.put(ex, st, Ptr(o, 0))
            if self.K.fp:
                locale_state(ex, st)
            args = [Ptr(o, 0)]
            if self.op in ('equal', 'swap'):
                if al:
                    args.append(Ptr(o, 8))
                else:
                    T_ = TYPE[self.K.mname]
                    q = ex.new_obj(st, 'that', 'raw', T_.size(ex))
                    T_.put(ex, st, Ptr(q, 0))
                    args.append(Ptr(q, 0))
            yield ' (aliased)' if al else '', st, args

    def havoc(self, c):
        if self.op in ('empty', 'equal'):
            return fresh('r', BOOL)
        self.K.put(c.ex, c.st1, c.args[0])
        c.mods |= self.K.keys(c.ex, c.args[0])
        if self.op == 'swap':
            T_ = TYPE[self.K.mname]
            T_.put(c.ex, c.st1, c.args[1])
            c.mods |= T_.keys(c.ex, c.args[1])

    def pre(self, c):
        return [('valid', self.K.inv(c.ex, c.st0, c.args[0]))] + ([('valid argument', TYPE[self.K.mname].inv(c.ex, c.st0, c.args[1]))] if len(c.args) > 1 else [])

    def post(self, c):
        K, x, T_ = self.K, c.ex, TYPE[self.K.mname]
        a = c.args[0]
        me = a.add(8)
        if self.op == 'empty':
            return [('true exactly when every field is unset or empty', tobool(c.ret) == T_.isempty(x, c.st0, me))]
        if self.op == 'equal':
            return [('true exactly when all fields are equal', tobool(c.ret) == T_.equal(x, c.st0, me, c.st0, c.args[1]))]
        if self.op == 'clear':
            return [('nothing is left', T_.isempty(x, c.st1, me)), ('as a fresh one', T_.isnew(x, c.st1, me)), ('stays valid', K.inv(x, c.st1, a))]
        return [('the first holds what the second held', T_.same(x, c.st1, me, c.st0, c.args[1])), ('the second holds what the first held', T_.same(x, c.st1, c.args[1], c.st0, me))]


ENTOPS = []
for name, K in ENT.items():
    if not K.fields:
        continue
    for op, o in OPS.items():
        make(EntityVM, 'Ent%s%s' % (name, o), ENTOPS, name='%s::%s' % (name, op), K=K, op=op, uses=('Msg%s%s' % (name, o),),
             rx=r'^vf::%s::%s\(%s\)%s$' % (name, op, '' if op in ('empty', 'clear') else r'vf::%s_type( const)?&' % name, ' const' if op in ('empty', 'equal') else ''))


class EqInner(EntityVM):
    """what std::vector uses to compare messages"""
    name = 'message<Inner>::operator=='
    rx = r'^protogen\w*::message<vf::Inner_type, .*>::operator==\('
    op = 'equal'
    K = ENT['Inner']
    uses = ('EntInnerEqual',)


class Construct(Contract):
    """a message as constructed: nothing set; or a copy of another"""
    fuel = 1
    K = None
    copy = False

    def setups(self, ex):
        st = State()
        o = ex.new_obj(st, 'this', 'raw', self.K.size(ex))
        args = [Ptr(o, 0)]
        if self.copy:
            q = ex.new_obj(st, 'that', 'raw', self.K.size(ex))
            self.K.put(ex, st, Ptr(q, 0))
            args.append(Ptr(q, 0))
        if self.K.fp:
            locale_state(ex, st)
        yield '', st, args

    def pre(self, c):
        return [('valid', self.K.inv(c.ex, c.st0, c.args[1]))] if self.copy else []

    def havoc(self, c):
        self.K.put(c.ex, c.st1, c.args[0])
        c.mods |= self.K.keys(c.ex, c.args[0]) | {(c.args[0].obj, '*')}

    def post(self, c):
        K, x = self.K, c.ex
        if self.copy:
            return [('holds what the other holds', K.same(x, c.st1, c.args[0], c.st0, c.args[1])), ('valid', K.inv(x, c.st1, c.args[0]))]
        return [('nothing is set', K.isempty(x, c.st1, c.args[0])), ('as new', K.isnew(x, c.st1, c.args[0])), ('valid', K.inv(x, c.st1, c.args[0]))]


for name, K in ENT.items():
    if not K.fields:
        continue
    fu = sorted({'fields.%sDefault' % ('Str' if k.ty == 'string' else SHORT[k.ty]) for k in [f[1] for f in K.fields] if isinstance(k, WrapK)})
    make(Construct, 'New' + name, COPIES, name='%s::%s()' % (name, name), rx=r'^vf::%s::%s\(\)$' % (name, name), K=K, uses=tuple(fu))
    make(Construct, 'Copy' + name, COPIES, name='%s::%s(const &)' % (name, name), rx=r'^vf::%s::%s\(vf::%s const&\)$' % (name, name, name), K=K, copy=True,
         uses=('fields.StrCopy',) if any(isinstance(k, WrapK) and k.ty == 'string' for _, k, _, _ in K.fields) else ())
