"""Contract of the program (P24): main, from its arguments to its exit status."""
from .base import *
from .kinds import *
from . import gen, scan, schema
from .gen import members, sizeof, FIELDS, REFS, OptsK, Opts, nothing, FieldFn, sink
from .schema import Fs, Ms, fq, mq, pfields, Heap, PARSED, sc_bad, sc_msgs, sc_opts, uaf, rH, toks, building, live_fields
from .scan import sp
from .read import AbsCStr
from ..exec import THROW

true, false = z3.BoolVal(True), z3.BoolVal(False)
Z = z3.BitVecVal(0, 64)
FILE = z3.Function('content_of_file', Str, Str)
REAL = z3.Function('full_path', Str, Str)
SORTED = z3.Function('sorted_fields', Fs, Fs)
GEN = z3.Function('header', Str, Str, Ms, Heap, Opts, Str)
REFUSED = z3.Function('generator_refuses', Str, Ms, Heap, Opts, BOOL)
sH = sp('heap_sorted', [Ms, B64, Heap], Heap, lambda M, i, H: z3.If(i == 0, H, z3.Store(sH(M, i - 1, H), mq.at(M, i - 1), SORTED(z3.Select(sH(M, i - 1, H), mq.at(M, i - 1))))))
COUT, CERR = '@_ZSt4cout', '@_ZSt4cerr'
CAN = {w: z3.Const('can_' + w, BOOL) for w in ('open_input', 'read_input', 'open_output', 'resolve')}       # what the system does


# ---------------------------------------------------------------- library: file streams, exit (assumed)
def table(ex, st, o):
    v = ex.new_obj(st, 'table of a stream', 'raw', 24)
    ex.put(st, v, 0, 0, 8)
    ex.put(st, o, 0, Ptr(v, 24), 8)


def in_open(ex, st, a, d):
    o, p = a[0].obj, ex.cstr(st, a[1])
    table(ex, st, o)
    T = FILE(p)
    st.assume(z3.ULT(slen(T), scan.TEXT))
    st.ghost[('chars', o)] = T
    st.ghost[('skipws', o)] = true
    st.ghost[('good', o)] = CAN['open_input']


def in_bad(ex, st, a, d):
    if ('chars', a[0].obj) not in st.ghost:
        return NotImplemented
    return norm(z3.Not(CAN['read_input']), 1)


def is_good(ex, st, a, d):
    for k in ('good', 'ok'):
        if (k, a[0].obj) in st.ghost:
            return norm(st.ghost[(k, a[0].obj)], 1)
    return NotImplemented


def not_good(ex, st, a, d):
    r = is_good(ex, st, a, d)
    return r if r is NotImplemented else 1 - r if isinstance(r, int) else norm(z3.Not(r) if z3.is_bool(r) else r ^ 1, 1)


def is_open(ex, st, a, d):
    o = a[0].obj
    if ('path', o) in st.ghost:
        return norm(CAN['open_output'], 1)
    return norm(st.ghost[('good', o)], 1) if ('good', o) in st.ghost else NotImplemented


def out_new(ex, st, a, d):
    o = a[0].obj
    table(ex, st, o)
    st.ghost[('sink', o)] = Nil
    st.ghost[('ok', o)] = true
    st.ghost[('pending', o)] = false


def out_open(ex, st, a, d):
    o, p, mode = a[0].obj, ex.cstr(st, a[1]), a[2]
    if not isinstance(mode, int):
        raise Unsupported('open mode')
    st.ghost[('ok', o)] = CAN['open_output']
    st.ghost[('path', o)] = p
    st.ghost[('sink', o)] = fresh('what_was_there', Str) if mode & 1 or mode & 8 else Nil       # app, in


def less_ok(ex, st, o):
    st.ghost[('ok', o)] = z3.And(st.ghost[('ok', o)], fresh('written', BOOL))


def out_flush(ex, st, a, d):
    if ('ok', a[0].obj) not in st.ghost:
        return NotImplemented
    less_ok(ex, st, a[0].obj)
    st.ghost[('pending', a[0].obj)] = false
    return a[0]


def exit_(ex, st, a, d):
    st.ghost['status'] = bv(a[0], 32)
    st.ghost['exc'] = (ex.new_obj(st, 'exit', 'raw', None), ('exit',))
    return [(st, THROW)]


def realpath(ex, st, a, d):
    p = ex.cstr(st, a[0])
    t, u = st.clone(), st.clone()
    t.assume(CAN['resolve'])
    u.assume(z3.Not(CAN['resolve']))
    w = REAL(p)
    t.assume(z3.ULT(slen(w), z3.BitVecVal(4096, 64)))
    ex.check_ptr(t, a[1], 4096, 'write')
    ex.put(t, a[1].obj, a[1].off, AbsCStr(w), 4096)
    return [(t, a[1]), (u, NULL)]


def cause(ex, st, a, d):
    t = fresh('cause', Str)
    st.assume(z3.ULT(slen(t), LIM))
    ex.set_str(st, a[0], t)


def os_int(ex, st, a, d):
    k = sink(ex, st, a[0])
    w = fresh('digits', Str)
    st.assume(w != Nil)
    st.ghost[k] = mkcat(st.ghost[k], w)
    return a[0]


def os_manip(ex, st, a, d):
    return a[0]


def sort_fields(ex, st, a, d):
    x, y = a[0], a[1]
    if not (isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj and isinstance(st.mem[x.obj].meta, VecData)):
        return NotImplemented
    v = st.mem[x.obj].meta
    if v.k.tag != FIELDS.tag or v.owner.obj not in ex.consts:
        return NotImplemented
    F = live_fields(ex, st, v)
    ex.oblige(st, 'the whole vector is sorted', z3.And(bv(x.off, 64) == 0, bv(y.off, 64) == fq.len(F)))
    if any(k.startswith('message:') and k != v.owner.obj for k in st.mem):
        raise Unsupported('two messages at a time')
    G = SORTED(F)
    st.assume(fq.len(G) == fq.len(F))
    st.w(v.owner.obj).kind = 'raw'
    FIELDS.store(ex, st, v.owner, G)
    st.w(v.owner.obj).kind = 'copy'
    st.ghost['fields'] = z3.Store(st.ghost['fields'], ex.consts[v.owner.obj], G)


FS = r'std::basic_%sstream<char, std::char_traits<char> >::'
IOS = r'std::basic_ios<char, std::char_traits<char> >::'
OS = r'std::basic_ostream<char, std::char_traits<char> >::'
MODELS = [(FS % 'if' + r'basic_ifstream\(char const\*, std::_Ios_Openmode\)$', in_open), (FS % 'if' + r'(~basic_ifstream|close)\(\)$', nothing), (IOS + r'bad\(\) const$', in_bad), (IOS + r'(good|operator bool)\(\) const$', is_good), (IOS + r'(fail|operator!)\(\) const$', not_good), (FS % '[io]f' + r'is_open\(\)( const)?$', is_open),
          (FS % 'of' + r'basic_ofstream\(\)$', out_new), (FS % 'of' + r'open\(char const\*, std::_Ios_Openmode\)$', out_open), (FS % 'of' + r'~basic_ofstream\(\)$', nothing),
          (FS % 'of' + r'close\(\)$', out_flush), (OS + r'flush\(\)$', out_flush), (r'^exit$', exit_), (r'^realpath$', realpath), (r'protogen::exception::cause(\[abi:cxx11\])?\(\) const$', cause),
          (OS + r'operator<<\((unsigned )?(int|long)\)$', os_int), (OS + r'operator<<\(std::basic_ostream<.*>& \(\*\)\(', os_manip), (r'^(void std::(stable_)?sort<__gnu_cxx::__normal_iterator<protogen::Field\*|_ZSt4sortIN9__gnu_cxx17__normal_iteratorIPN8protogen5Field)', sort_fields)] + schema.MODELS
AXIOMS = [schema.identity_axioms]


def exception(self, ex, st):
    n, _ = FieldFn.exception(self, ex, st)
    for o in range(8, 64, 4):           # line and column among them
        ex.put(st, n, o, fresh('number', B32), 4)
    return n, ('_ZTIN8protogen9exceptionE',)


class ParseFile(schema.Whole):
    assumed = 'schema.Whole'
    exception = exception


class GenerateTo(Contract):
    """CppGenerator::generate: proved as top.Generate"""
    name = 'CppGenerator::generate'
    assumed = 'top.Generate'
    assumes = 'what CppGenerator::generate prints and whether it refuses is a function of the schema (its specification, top.Generate, is one)'
    rx = r'^protogen::CppGenerator::generate\('
    unit = 'main'
    exception = exception

    def tree(self, c, st):
        m, p = members(c.ex, '6Proto3'), c.args[1]
        return c.ex.get_str(st, p.add(m['fileName'])), REFS.load(c.ex, st, p.add(m['messages'])), st.ghost['fields'], OptsK().load(c.ex, st, p.add(m['options']))

    def out(self, c):
        return sink(c.ex, c.st0, c.args[2])

    def throws(self, c):
        return REFUSED(*self.tree(c, c.st0))

    def havoc(self, c):
        k = self.out(c)
        c.st1.ghost[k] = fresh('out', Str)
        p = c.args[1].add(members(c.ex, '6Proto3')['messages'])
        REFS.put(c.ex, c.st1, p)
        o = c.args[2].obj
        less_ok(c.ex, c.st1, o)
        c.st1.ghost[('pending', o)] = true
        c.mods |= {k, ('ok', o), ('pending', o), (p.obj, p.off)}

    def post(self, c):
        return [('what is printed', c.st1.ghost[self.out(c)] == GEN(c.st0.ghost[self.out(c)], *self.tree(c, c.st0)))]


class Main(Contract):
    name = 'main'
    unit = 'main'
    rx = r'^main$'
    uses = ('ParseFile', 'GenerateTo')
    fuel = 2
    opaque = ('tokens', 'schema_bad', 'schema_messages', 'schema_options', 'unresolved_in', 'heap_resolved', 'messages_ok', 'all_references_within', 'identities', 'stream_ok')
    may = True

    def setups(self, ex):
        for n in (2, 3, None):
            st = State()
            for g in (COUT, CERR):
                st.mem[g] = Obj(g, g, 'raw', 272, None, None)
                table(ex, st, g)
                st.ghost[('sink', g)] = Nil
                st.ghost[('ok', g)] = true
                st.ghost[('pending', g)] = false
            st.ghost['fields'] = PARSED
            ex.consts['live elements'] = live_fields
            v = ex.new_obj(st, 'argv', 'raw', 32)
            self.paths = []
            for i in range(3):
                t = z3.Const('argv%d' % i, Str)
                st.assume(z3.ULT(slen(t), LIM))
                o = ex.new_obj(st, 'argument', 'raw', None)
                ex.put(st, o, 0, AbsCStr(t), 1)
                ex.put(st, v, 8 * i, Ptr(o, 0) if i < (n or 0) else NULL, 8)
            ex.put(st, v, 24, NULL, 8)
            argc = n
            if n is None:
                argc = fresh('argc', B32)
                st.assume(z3.And(argc >= 0, argc != 2, argc != 3))
            yield ' (%s arguments)' % ('wrong number of' if n is None else n - 1), st, [argc, Ptr(v, 0)]

    def parts(self, c):
        return []

    def facts(self, c):
        n = c.args[0]
        path = z3.Const('argv1', Str)
        k = toks(FILE(path), Z)
        M = sc_msgs(k, mq.nil, Nil)
        H = sH(M, mq.len(M), rH(M, mq.len(M)))
        tree = (REAL(path), M, H, sc_opts(k, mq.nil, Nil, Opts.NoOpts))
        acc = z3.And(z3.Not(sc_bad(k, mq.nil, Nil)), z3.Not(uaf(M, Z)), z3.Not(REFUSED(*tree)))
        out = COUT if n == 2 else ([g[1] for g in c.st1.ghost if g[0] == 'path'] or [None])[0] if n == 3 else None
        return acc, GEN(Nil, *tree), out

    def err(self, c):
        return c.st1.ghost[('sink', CERR)]

    def throws(self, c):
        return true

    def post_throw(self, c):
        g = c.st1.ghost
        if g['exc'][1] != ('exit',):
            return [('ends in an orderly way', false)]
        _, _, out = self.facts(c)
        why = [true if c.args[0] not in (2, 3) else false, z3.Not(CAN['open_input']), z3.Not(CAN['read_input']), z3.Not(CAN['resolve'])]
        if c.args[0] == 3:
            why.append(z3.Not(CAN['open_output']))
        if out is not None:
            why.append(z3.Not(g[('ok', out)]))
        return [('exit status', z3.Extract(7, 0, g['status']) != 0), ('a message', self.err(c) != Nil), ('a reason', z3.Or(*why))]

    def havoc(self, c):
        c.mods |= {g for g in c.st0.ghost}

    def post(self, c):
        g = c.st1.ghost
        acc, text, out = self.facts(c)
        ok = z3.Extract(7, 0, bv(c.ret, 32)) == 0
        r = [('a message unless all is well', z3.Or(ok, self.err(c) != Nil)), ('a reason unless all is well', z3.Or(ok, z3.Not(acc)))]
        if out is None or ('ok', out) not in g:
            return r + [('not all is well', z3.Not(ok))]
        r += [('the schema was accepted', z3.Implies(ok, acc)), ('it was read', z3.Implies(ok, z3.And(CAN['open_input'], CAN['read_input']))),
              ('the header was written', z3.Implies(ok, g[('sink', out)] == text)), ('up to its end', z3.Implies(ok, z3.And(g[('ok', out)], z3.Not(g[('pending', out)]))))]
        if out != COUT:
            r += [('to the file that was asked for', z3.Implies(ok, g[('path', out)] == z3.Const('argv2', Str))), ('nothing else on the output', z3.Implies(ok, g[('sink', COUT)] == Nil))]
        return r + [('no message', z3.Implies(ok, self.err(c) == Nil))]

    @property
    def loops(self):
        def now(L):
            for k, o in L.st.mem.items():
                if o.name == 'proto':
                    return REFS.load(L.ex, L.st, Ptr(k, members(L.ex, '6Proto3')['messages']))
            raise Unsupported('which schema')

        def inv(L):
            return [('sorted so far', L.st.ghost['fields'] == sH(now(L), position(L), rH(now(L), mq.len(now(L)))))]
        return field_loops('messages', {}, inv, lambda L: mq.len(now(L)), False)


PROG = ['prog.Main']
