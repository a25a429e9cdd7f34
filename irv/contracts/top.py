"""Contracts of the generator from a parsed schema to the whole header (P19, P21-P23): sort, inclusions, model, generate."""
import hashlib
from .order import *
from .order import MODELS as _OM, AXIOMS as _OA, order_axioms
from . import emit, gen, order
from .emit import spec, message_text, refused_message, tp, say, num, obfus, lists, CTX, put_root, OPAQUE
from .printer import layout, literal
from .gen import members, sizeof, grd

MODELS = list(_OM)
REFUSED = z3.Function('refused', BOOL, BOOL)      # some message of the schema is refused (there is a known message that is)


def refused_axioms(fs):
    return [z3.Implies(z3.And(e, known(e.arg(0))), REFUSED(e.arg(1))) for e in apps(fs) if e.decl().name() == 'refused_message']


AXIOMS = _OA + [refused_axioms]
SORTED = ('in_list', 'ordered', 'placed', 'all_known')


class SortAll(Emit):
    """brings the messages of the schema into order"""
    name = 'sort (schema)'
    rx = r'^protogen::sort\(protogen::GeneratorContext'
    uses = ('order.Sort',)
    may = True

    def setups(self, ex):
        st = State()
        yield '', st, [context(ex, st)]

    def before(self, c):
        return REFS.load(c.ex, c.st0, self.x0(c).messages())

    def after(self, c):
        return REFS.load(c.ex, c.st1, self.x0(c).messages())

    def pre(self, c):
        return [('the messages belong to the schema', allknown(self.before(c)))]

    def throws(self, c):
        return CYCLIC

    def havoc(self, c):
        o = fresh('sorted', L_)
        c.st1.assume(z3.ULT(q.len(o), LIM))
        p = self.x0(c).messages()
        REFS.store(c.ex, c.st1, p, o)
        c.mods |= {(p.obj, k) for k in c.st1.mem[p.obj].cells if p.off <= k < p.off + 24}

    def havoc_throw(self, c):
        pass

    def post(self, c):
        M, S = self.before(c), self.after(c)
        return [('in order, none twice', ordered(S)), ('every message of the schema is there', doneR(M, S, q.len(M))), ('nothing else is there', allknown(S))]

    def post_throw(self, c):
        return []

    @property
    def loops(self):
        def view(L):
            return View(L.ex, L.st0, L.st, L.st.frames[0].args)

        def inv(L):
            c = view(L)
            M = self.before(c)
            S, P = L['output'].t, L['pending'].t
            if L['output'].kw['k'].tag != REFS.tag:
                return [('list of messages', false)]
            return [('position', z3.ULE(position(L), q.len(M))), ('nothing pending', P == NilR), ('in order', ordered(S)), ('only messages of the schema', allknown(S)),
                    ('those so far are there', doneR(M, S, position(L)))]
        return field_loops('messages', {'output': ('abs:vec', ['messages', 'output', 'sorted']), 'pending': ('abs:refs', ['pending'])}, inv,
                           lambda L: q.len(self.before(view(L))), False)


# ---------------------------------------------------------------- which parts of the run-time library are included
def kinds_of(mod):
    t = config(mod)[0]
    v = lambda n: z3.BitVecVal(t[n], 32)
    tid = lambda f: INFO.get(ftype(f), 'id')
    is_num = lambda f: z3.And(tid(f) >= min(t[n] for n in SCALAR if SCALAR[n]), tid(f) <= max(t[n] for n in SCALAR if SCALAR[n]))
    return [('array', lambda f: INFO.get(ftype(f), 'repeated')), ('base64', lambda f: tid(f) == v('BYTES')), ('number', is_num), ('string', lambda f: tid(f) == v('STRING'))]


def has_f(mod, k, V, i):
    p = dict(kinds_of(mod))[k]
    return spec('has_%s_field' % k, [FIELDS.sort, B64], BOOL, lambda s, V, i: z3.And(z3.ULT(i, flen(V)), z3.Or(p(at_(V, i)), s(V, i + 1))))(V, i)


def has_m(mod, k, M, i):
    return spec('has_%s' % k, [L_, B64], BOOL, lambda s, M, i: z3.And(z3.ULT(i, q.len(M)), z3.Or(has_f(mod, k, mfields(q.at(M, i)), C0), s(M, i + 1))))(M, i)


def runtime(mod, fn):
    """the text of a file of the run-time library, as it is to be in the output"""
    out = ''
    for l in open(os.path.join(REPO, 'source', 'cpp', fn), encoding='latin-1', newline='').read().split('\n')[:-1]:
        if l.startswith('#') and 'AUTO-REMOVE' in l:
            continue
        out += l.replace('_X_Y_Z', config(mod)[2]) + '\n'
    return (out + '\n').encode('latin-1')


def inclusions(mod, o, M):
    def body(s, o, M):
        o = literal(literal(o, runtime(mod, 'protogen.hh'), []), runtime(mod, 'json.hh'), [])
        for k in ('array', 'base64', 'number', 'string'):
            o = z3.If(has_m(mod, k, M, C0), literal(o, runtime(mod, 'json-%s.hh' % k), []), o)
        return o
    return spec('inclusions', [Str, L_], Str, body)(o, M)


bit = lambda v: z3.Extract(0, 0, v) == 1


class Inclusions(Emit):
    """the parts of the run-time library that are needed"""
    name = 'generateInclusions'
    rx = r'^protogen::generateInclusions\('
    setups, before = SortAll.setups, SortAll.before
    pre = SortAll.pre
    throws = Contract.throws

    def text(self, c, o):
        return inclusions(c.ex.mod, o, self.before(c))

    KEYS = [('array', 'has_array'), ('base64', 'has_base64'), ('number', 'has_number'), ('string', 'has_string')]

    @property
    def loops(self):
        flags = {k: ('i8', [h, k]) for k, h in self.KEYS}

        def outer(L):
            M = self.before(View(L.ex, L.st0, L.st, L.st.frames[0].args))
            return [('flag ' + k, z3.Or(bit(L[k]), has_m(L.ex.mod, k, M, position(L))) == has_m(L.ex.mod, k, M, C0)) for k, _ in self.KEYS]

        def inner(L):
            if self.current(L) is None:
                return [('a message', false)]
            V = mfields(self.current(L))
            return [('flag ' + k, z3.Or(bit(L[k]), has_f(L.ex.mod, k, V, position(L))) == z3.Or(bit(L.ent(k)), has_f(L.ex.mod, k, V, C0))) for k, _ in self.KEYS]
        nM = lambda L: q.len(self.before(View(L.ex, L.st0, L.st, L.st.frames[0].args)))
        return field_loops('fields', dict(flags, message=('ptr', ['message'])), inner, lambda L: flen(mfields(self.current(L))) if self.current(L) is not None else C0, False) + field_loops('messages', flags, outer, nM, False)

    def current(self, L):
        c = L.st.mem[L['message'].obj].cells.get(L['message'].off) if isinstance(L['message'].off, int) else None
        if c is not None and isinstance(c[0], Abs) and c[0].kind == 'ref':
            return c[0].t
        return L.ex.consts.get(L['message'].obj) if str(L['message'].obj).startswith('message:') else None



# ---------------------------------------------------------------- the whole header
def messages_text(mod, o, S, i, n, b, l):
    return spec('messages_text', [Str, L_, B64, BOOL, BOOL, BOOL], Str, lambda s, o, S, i, n, b, l: z3.If(
        z3.UGE(i, q.len(S)), o, s(message_text(mod, o, q.at(S, i), n, b, l), S, i + 1, n, b, l)))(o, S, i, n, b, l)


def refused_any(mod, S, i, n):
    return spec('refused_any', [L_, B64, BOOL], BOOL, lambda s, S, i, n: z3.And(z3.ULT(i, q.len(S)), z3.Or(refused_message(mod, q.at(S, i), n), s(S, i + 1, n))))(S, i, n)


def version(mod):
    """what cmake.hh says"""
    vs = {m.group(1) for t in mod.globals.values() for m in [re.search(r'c"(\d+\.\d+\.\d+)\\00"', t)] if m}
    if len(vs) != 1:
        raise Unsupported('version not unique')
    return strlit(vs.pop())


def model_header(mod, o, fn):
    return tp(o, 'CODE_HEADER', version(mod), fn, grd(fn))


def model(mod, o, fn, S, n, b, l):
    return spec('model', [Str, Str, L_, BOOL, BOOL, BOOL], Str, lambda s, o, fn, S, n, b, l: say(messages_text(mod, model_header(mod, o, fn), S, C0, n, b, l), '#endif // $1$\n', grd(fn)))(o, fn, S, n, b, l)


class Model(Emit):
    """the header without the run-time library: every message in order, once"""
    name = 'generateModel'
    rx = r'^protogen::generateModel\(protogen::GeneratorContext&\)$'
    uses = Emit.uses + ('SortAll', 'emit.MessageText', 'gen.MakeGuard')
    opaque = OPAQUE + ('message_text', 'refused_message') + SORTED
    may = True
    setups, before, after, pre = SortAll.setups, SortAll.before, SortAll.after, SortAll.pre

    def flags(self, c):
        x = self.x0(c)
        return x.flag(num), x.flag(obfus), x.flag(lists)

    def throws(self, c):
        return z3.Or(CYCLIC, REFUSED(self.x0(c).flag(num)))

    def havoc(self, c):
        Emit.havoc(self, c)
        SortAll.havoc(self, c)
    havoc_throw = havoc

    def header(self, c, o):
        return model_header(c.ex.mod, o, self.x0(c).filename())

    def post(self, c):
        S = self.after(c)
        return SortAll.post(self, c) + [
            ('what is printed', Ctx(c.ex, c.st1, c.args[0]).out() == model(c.ex.mod, self.x0(c).out(), self.x0(c).filename(), S, *self.flags(c))),
            ('no message is refused', z3.Not(refused_any(c.ex.mod, S, C0, self.flags(c)[0])))]

    @property
    def loops(self):
        def now(L):
            c = View(L.ex, L.ex.entry, L.st, L.st.frames[0].args)
            return c, self.after(c)

        def inv(L):
            c, S = now(L)
            f = self.flags(c)
            return [('what is left', messages_text(L.ex.mod, L['out'], S, position(L), *f) == messages_text(L.ex.mod, self.header(c, L.ex.out0), S, C0, *f)),
                    ('what is still refused', refused_any(L.ex.mod, S, position(L), f[0]) == refused_any(L.ex.mod, S, C0, f[0]))]
        return field_loops('messages', {'out': ('ghost:sink', [])}, inv, lambda L: q.len(now(L)[1]), False)


class Generate(Emit):
    """a schema to the text of the header"""
    name = 'CppGenerator::generate'
    rx = r'^protogen::CppGenerator::generate\('
    uses = ('printer.MakePrinter', 'gen.GetOptionBool', 'Inclusions', 'Model')
    opaque = OPAQUE + ('message_text', 'refused_message', 'model', 'inclusions', 'refused_any') + SORTED
    may = True

    def setups(self, ex):
        st = State()
        o = ex.new_obj(st, 'stream', 'std::ostream', None)
        ex.out0 = st.ghost[('sink', o)] = fresh('out', Str)
        r = Ptr(ex.new_obj(st, 'root', 'raw', sizeof(ex, '6Proto3')), 0)
        put_root(ex, st, r)
        yield '', st, [Ptr(ex.new_obj(st, 'generator', 'raw', 8), 0), r, Ptr(o, 0)]

    def messages(self, c):
        return c.args[1].add(members(c.ex, '6Proto3')['messages'])

    def before(self, c):
        return REFS.load(c.ex, c.st0, self.messages(c))

    def after(self, c):
        return REFS.load(c.ex, c.st1, self.messages(c))

    pre = SortAll.pre

    def opts(self, c):
        return OptsK().load(c.ex, c.st0, c.args[1].add(members(c.ex, '6Proto3')['options']))

    def flags(self, c):
        return [is_true(self.opts(c), strlit(k)) for k in ('number_names', 'obfuscate_strings', 'cpp_use_lists')]

    def throws(self, c):
        bool_ = z3.BitVecVal(config(c.ex.mod)[1]['BOOLEAN'], 32)
        return z3.Or(CYCLIC, REFUSED(self.flags(c)[0]), *[wrong(self.opts(c), strlit(k), bool_) for k in ('number_names', 'obfuscate_strings', 'cpp_use_lists')])

    def out(self, c):
        return gen.sink(c.ex, c.st0, c.args[2])

    def havoc(self, c):
        k = self.out(c)
        c.st1.ghost[k] = fresh('out', Str)
        c.mods.add(k)
        o = fresh('sorted', L_)
        c.st1.assume(z3.ULT(q.len(o), LIM))
        p = self.messages(c)
        REFS.store(c.ex, c.st1, p, o)
        c.mods |= {(p.obj, k) for k in c.st1.mem[p.obj].cells if p.off <= k < p.off + 24}
    havoc_throw = havoc

    def post(self, c):
        S, o = self.after(c), c.st0.ghost[self.out(c)]
        f = self.flags(c)
        fn = c.ex.get_str(c.st0, c.args[1].add(members(c.ex, '6Proto3')['fileName']))
        return SortAll.post(self, c) + [
            ('what is printed', c.st1.ghost[self.out(c)] == model(c.ex.mod, inclusions(c.ex.mod, o, self.before(c)), fn, S, *f)),
            ('no message is refused', z3.Not(refused_any(c.ex.mod, S, C0, f[0])))]

    loops = ()


TOP = ['top.SortAll', 'top.Inclusions', 'top.Model', 'top.Generate']
