"""Contracts of the ordering of messages (P19): every message comes once, after all messages its fields refer to; an
exception only when there is a circular reference.

A message is `known` when it belongs to the schema (parsing resolves every reference to a message of the schema): known
messages have identities 1..N and refer to known messages only."""
from .gen import *
from .gen import MODELS as _GM
from . import gen
from .emit import Emit, Ctx, context, field_loops, position, at_, flen

q = REFS.q
NilR, SnocR, front, back = q.nil, q.snoc, q.front, q.back
L_ = q.sort
N = z3.Const('messages_in_schema', INT)
known = z3.Function('known', INT, BOOL)
reach = z3.Function('reach', INT, INT, BOOL)
CYCLIC = z3.Const('circular', BOOL)
ref = lambda f: INFO.get(ftype(f), 'ref')


def sp(name, sorts, res, body):
    s = Spec(name, sorts, res)
    s.body = body
    return s


inl = sp('in_list', [L_, INT], BOOL, lambda L, x: z3.And(L != NilR, z3.Or(back(L) == x, inl(front(L), x))))
infrom = sp('in_list_from', [L_, B64, INT], BOOL, lambda L, i, x: z3.And(z3.ULT(i, q.len(L)), z3.Or(q.at(L, i) == x, infrom(L, i + 1, x))))
prefix = sp('prefix', [L_, L_], BOOL, lambda A, B: z3.Or(A == B, z3.And(B != NilR, prefix(A, front(B)))))
okref = lambda L, r: z3.Or(r == 0, inl(L, r))
done = sp('refs_before', [FIELDS.sort, L_, B64], BOOL, lambda V, L, i: z3.Or(i == 0, z3.And(done(V, L, i - 1), okref(L, ref(at_(V, i - 1))))))
doneR = sp('placed', [L_, L_, B64], BOOL, lambda M, L, i: z3.Or(i == 0, z3.And(doneR(M, L, i - 1), inl(L, q.at(M, i - 1)))))
ordered = sp('ordered', [L_], BOOL, lambda L: z3.Or(L == NilR, z3.And(ordered(front(L)), z3.Not(inl(front(L), back(L))),
                                                                   done(mfields(back(L)), front(L), flen(mfields(back(L)))))))
allknown = sp('all_known', [L_], BOOL, lambda L: z3.Or(L == NilR, z3.And(known(back(L)), allknown(front(L)))))
allreach = sp('all_reach', [L_, INT], BOOL, lambda P, m: z3.Or(P == NilR, z3.And(reach(back(P), m), allreach(front(P), m))))
disj = sp('none_of', [L_, L_], BOOL, lambda P, L: z3.Or(P == NilR, z3.And(z3.Not(inl(L, back(P))), disj(front(P), L))))
free = sp('not_pending', [L_, INT], INT, lambda P, n: z3.If(n <= 0, 0, free(P, n - 1) + z3.If(inl(P, n), 0, 1)))
remove = sp('without', [L_, INT], L_, lambda L, x: z3.If(L == NilR, NilR, z3.If(back(L) == x, front(L), SnocR(remove(front(L), x), back(L)))))
before = sp('before', [L_, INT], L_, lambda L, m: z3.If(L == NilR, NilR, z3.If(back(L) == m, front(L), before(front(L), m))))


# ---------------------------------------------------------------- facts about schemas (assumed), lemmas (proved below)
def schema_facts(m, i):
    """about field i of message m"""
    r = ref(at_(mfields(m), i))
    there = z3.And(z3.ULT(i, flen(mfields(m))), r != 0)
    return there, r


def order_axioms(fs):
    out = []
    A = {}
    for e in apps(fs):
        A.setdefault(e.decl().name(), {})[e.get_id()] = e
    g = lambda n: list(A.get(n, {}).values())
    kn, rc = [], []
    for e in subterms(fs):
        if e.decl().name() == 'known':
            kn.append(e)
            out.append(z3.Implies(e, z3.And(e.arg(0) >= 1, e.arg(0) <= N)))
        elif e.decl().name() == 'reach':
            rc.append(e)
            if e.arg(0).eq(e.arg(1)):
                out.append(z3.Implies(e, CYCLIC))
    fields = [(e.arg(0).arg(0), e.arg(1)) for e in g(FIELDS.q.at.name) if e.arg(0).decl().name() == 'mfields']
    for m, i in fields:
        there, r = schema_facts(m, i)
        out.append(z3.Implies(z3.And(there, known(m)), z3.And(known(r), r >= 1, r <= N)))
        out.append(z3.Implies(there, reach(m, r)))
        for e in g('all_reach'):
            if e.arg(1).eq(m):
                out.append(z3.Implies(z3.And(there, e), allreach(e.arg(0), r)))          # lemma Reaches
    for e in g('all_reach'):
        P, m = e.children()
        out.append(z3.Implies(z3.And(e, inl(P, m)), z3.And(reach(m, m), CYCLIC)))           # lemma Circle
    pre = [e for e in g('prefix') if not e.arg(0).eq(e.arg(1))]
    for e in pre:
        a, b = e.children()
        for x in g('in_list'):
            if x.arg(0).eq(a):
                out.append(z3.Implies(z3.And(e, x), inl(b, x.arg(1))))                     # lemma Stays
        for x in g('refs_before'):
            if x.arg(1).eq(a):
                out.append(z3.Implies(z3.And(e, x), done(x.arg(0), b, x.arg(2))))           # lemma DoneStays
        for x in g('placed'):
            if x.arg(1).eq(a):
                out.append(z3.Implies(z3.And(e, x), doneR(x.arg(0), b, x.arg(2))))          # lemma DoneStays
        for x in pre:
            if x.arg(0).eq(b):
                out.append(z3.Implies(z3.And(e, x), prefix(a, x.arg(1))))                  # lemma Further
    for e in g('none_of'):
        P, L = e.children()
        if L.decl().name() == q.snoc.name():
            out.append(z3.Implies(z3.And(disj(P, L.arg(0)), z3.Not(inl(P, L.arg(1)))), e))   # lemma Apart
    for e in g('not_pending'):
        P, n = e.children()
        out.append(e >= 0)                                                               # lemma Fewer
        if P.decl().name() == q.snoc.name():
            m = P.arg(1)
            out.append(z3.Implies(z3.And(z3.Not(inl(P.arg(0), m)), m >= 1, m <= n), e < free(P.arg(0), n)))
    for e in g('in_list_from'):
        if e.arg(1).eq(C0) or z3.is_bv_value(z3.simplify(e.arg(1))):
            out.append(z3.Implies(z3.ULT(q.len(e.arg(0)), LIM), infrom(e.arg(0), C0, e.arg(2)) == inl(e.arg(0), e.arg(2))))      # lemma Found
    for e in g(q.at.name):
        L, i = e.children()
        out.append(z3.Implies(z3.And(allknown(L), z3.ULT(i, q.len(L)), z3.ULT(q.len(L), LIM)), known(e)))                     # lemma Known
        out.append(z3.Implies(known(e), z3.And(e >= 1, e <= N)))
    return out


def subterms(fs):
    seen, st, out = set(), list(fs), []
    while st:
        e = st.pop()
        if e.get_id() in seen or not z3.is_app(e):
            continue
        seen.add(e.get_id())
        out.append(e)
        st.extend(e.children())
    return out


AXIOMS = [order_axioms]


class Reaches(Lemma):
    name = 'what is pending reaches the next message too'
    fuel = 2

    def cases(self):
        P, m, r, b = fresh('P', L_), fresh('m', INT), fresh('r', INT), fresh('b', INT)
        step = lambda a: z3.Implies(z3.And(reach(a, m), reach(m, r)), reach(a, r))
        yield 'nothing pending', [], allreach(NilR, r)
        yield 'one more', [z3.Implies(z3.And(allreach(P, m), reach(m, r)), allreach(P, r)), step(b), reach(m, r), allreach(SnocR(P, b), m)], allreach(SnocR(P, b), r)


class Circle(Lemma):
    name = 'a pending message that is met again reaches itself'
    fuel = 2

    def cases(self):
        P, m, b = fresh('P', L_), fresh('m', INT), fresh('b', INT)
        yield 'nothing pending', [], z3.Not(inl(NilR, m))
        yield 'one more', [z3.Implies(z3.And(allreach(P, m), inl(P, m)), reach(m, m)), allreach(SnocR(P, b), m), inl(SnocR(P, b), m)], reach(m, m)


class Stays(Lemma):
    name = 'a longer list holds what the shorter one holds'
    fuel = 2

    def cases(self):
        A, B, x, b = fresh('A', L_), fresh('B', L_), fresh('x', INT), fresh('b', INT)
        P = lambda B: z3.Implies(z3.And(prefix(A, B), inl(A, x)), inl(B, x))
        yield 'empty', [], P(NilR)
        yield 'one more', [P(B)], P(SnocR(B, b))


class DoneStays(Lemma):
    name = 'references resolved in a list are resolved in a longer one'
    fuel = 2

    def cases(self):
        A, B, V, i, M = fresh('A', L_), fresh('B', L_), fresh('V', FIELDS.sort), fresh('i', B64), fresh('M', L_)
        for nm, D, e in (('fields', lambda L, i: done(V, L, i), lambda i: ref(at_(V, i))), ('messages', lambda L, i: doneR(M, L, i), lambda i: q.at(M, i))):
            S = lambda x: z3.Implies(inl(A, x), inl(B, x))           # Stays
            yield nm + ', none', [prefix(A, B)], D(B, C0)
            yield nm + ', one more', [prefix(A, B), z3.ULT(i, LIM), z3.Implies(D(A, i), D(B, i)), S(e(i)), D(A, i + 1)], D(B, i + 1)


class Further(Lemma):
    name = 'a prefix of a prefix is a prefix'
    fuel = 2

    def cases(self):
        A, B, C, c = fresh('A', L_), fresh('B', L_), fresh('C', L_), fresh('c', INT)
        P = lambda C: z3.Implies(z3.And(prefix(A, B), prefix(B, C)), prefix(A, C))
        yield 'empty', [], P(NilR)
        yield 'one more', [P(C)], P(SnocR(C, c))


class Apart(Lemma):
    name = 'adding what is not pending keeps the pending ones out'
    fuel = 2

    def cases(self):
        P, L, x, b = fresh('P', L_), fresh('L', L_), fresh('x', INT), fresh('b', INT)
        Q = lambda P: z3.Implies(z3.And(disj(P, L), z3.Not(inl(P, x))), disj(P, SnocR(L, x)))
        yield 'nothing pending', [], Q(NilR)
        yield 'one more', [Q(P)], Q(SnocR(P, b))


class Fewer(Lemma):
    name = 'one more pending message leaves fewer that are not'
    fuel = 2

    def cases(self):
        P, m, n = fresh('P', L_), fresh('m', INT), fresh('n', INT)
        yield 'not negative, no messages', [n <= 0], free(P, n) >= 0
        yield 'not negative, one more', [n > 0, free(P, n - 1) >= 0], free(P, n) >= 0
        # below m nothing changes, from m on it is one less
        same_ = lambda n: free(SnocR(P, m), n) == free(P, n)
        less = lambda n: free(SnocR(P, m), n) == free(P, n) - 1
        yield 'no messages', [n <= 0], same_(n)
        yield 'below it', [n > 0, n < m, same_(n - 1)], same_(n)
        yield 'itself', [n == m, n > 0, z3.Not(inl(P, m)), same_(n - 1)], less(n)
        yield 'above it', [n > m, n > 0, less(n - 1)], less(n)


class Found(Lemma):
    name = 'searching from the front finds what is in the list'
    fuel = 2

    def cases(self):
        L, x, b, i = fresh('L', L_), fresh('x', INT), fresh('b', INT), fresh('i', B64)
        n = q.len(L)
        S = SnocR(L, b)
        small = [z3.ULT(n, LIM)]
        P = lambda i: infrom(S, i, x) == z3.Or(infrom(L, i, x), b == x)
        yield 'elements before the last', small + [z3.ULT(i, n)], q.at(S, i) == q.at(L, i)
        yield 'at the end', small + [i == n], P(i), 3
        yield 'before the end', small + [z3.ULT(i, n), P(i + 1), q.at(S, i) == q.at(L, i)], P(i)
        yield 'empty list', [], infrom(NilR, C0, x) == inl(NilR, x)
        yield 'one more', small + [infrom(L, C0, x) == inl(L, x), P(C0)], infrom(S, C0, x) == inl(S, x)


class Known(Lemma):
    name = 'every element of a list of known messages is known'
    fuel = 2

    def cases(self):
        L, b, i = fresh('L', L_), fresh('b', INT), fresh('i', B64)
        P = lambda L: z3.Implies(z3.And(allknown(L), z3.ULT(i, q.len(L))), known(q.at(L, i)))
        yield 'empty', [], P(NilR)
        yield 'one more', [P(L), z3.ULT(q.len(L), LIM)], P(SnocR(L, b))


class NoCircle(Lemma):
    """in an ordered list every reference goes to a smaller index: there is no way round"""
    name = 'an ordered list has no circular reference'
    fuel = 2

    def cases(self):
        L, m, r, b, i, V, A, B, x = fresh('L', L_), fresh('m', INT), fresh('r', INT), fresh('b', INT), fresh('i', B64), fresh('V', FIELDS.sort), fresh('A', L_), fresh('B', L_), fresh('x', INT)
        j = fresh('j', B64)
        small = [z3.ULT(q.len(L), LIM), z3.ULT(j, LIM)]
        # all references resolved: each one is
        D = lambda j: z3.Implies(z3.And(done(V, L, j), z3.ULT(i, j)), okref(L, ref(at_(V, i))))
        yield 'no references', [], D(C0)
        yield 'one reference more', small + [D(j)], D(j + 1)
        # a reference of m is in the part before m
        E = lambda L: z3.Implies(z3.And(ordered(L), inl(L, m), z3.ULT(i, flen(mfields(m))), ref(at_(mfields(m), i)) == r, r != 0), inl(before(L, m), r))
        Dm = z3.Implies(z3.And(done(mfields(b), L, flen(mfields(b))), z3.ULT(i, flen(mfields(b)))), okref(L, ref(at_(mfields(b), i))))
        yield 'empty list', [], E(NilR)
        yield 'one message more', [E(L), Dm], E(SnocR(L, b))
        # what is before m has a smaller index
        idx = lambda L, m: q.len(before(L, m))
        yield 'shorter, empty', [], z3.ULE(q.len(before(NilR, m)), q.len(NilR))
        yield 'shorter', small + [z3.ULE(q.len(before(L, m)), q.len(L)), inl(L, m)], z3.ULT(q.len(before(SnocR(L, b), m)), q.len(SnocR(L, b)))
        W = lambda L: z3.Implies(inl(L, m), z3.ULT(idx(L, m), q.len(L)))
        yield 'index within the list, empty', [], W(NilR)
        yield 'index within the list', small + [W(L)], W(SnocR(L, b))
        In = lambda L: z3.Implies(inl(before(L, m), r), inl(L, r))
        yield 'before is within, empty', [], In(NilR)
        yield 'before is within', [In(L)], In(SnocR(L, b))
        I = lambda L: z3.Implies(z3.And(ordered(L), inl(L, m), inl(before(L, m), r)), z3.ULT(idx(L, r), idx(L, m)))
        yield 'smaller index, empty', [], I(NilR)
        yield 'smaller index', small + [I(L), In(L), z3.Implies(inl(L, r), z3.ULT(idx(L, r), q.len(L)))], I(SnocR(L, b))


# ---------------------------------------------------------------- library: unordered_set of messages (assumed)
class AbsRefs(Abs):
    kind = 'refs'

    def fresh(self, ex, st, name):
        return AbsRefs(fresh('pending', L_))


def pget(ex, st, p):
    return ex.abs_at(st, p, 'refs').t


def pput(ex, st, p, t):
    ex.put(st, p.obj, p.off, AbsRefs(t), 56)


def p_new(ex, st, a, d):
    pput(ex, st, a[0], NilR)


def p_count(ex, st, a, d):
    return z3.If(inl(pget(ex, st, a[0]), RefK().load(ex, st, a[1])), z3.BitVecVal(1, 64), C0)


def p_insert(ex, st, a, d):
    l, x = pget(ex, st, a[0]), RefK().load(ex, st, a[1])
    there = inl(l, x)
    if ex.pv.prove(st.pc, z3.Not(there))[0] == 'unsat':
        there = false
    pput(ex, st, a[0], SnocR(l, x) if there is false else z3.If(there, l, SnocR(l, x)))
    return Agg([Ptr(ex.new_obj(st, 'node', 'raw', 8), 0), norm(B1(z3.Not(there)), 8)])


def p_erase(ex, st, a, d):
    l, x = pget(ex, st, a[0]), RefK().load(ex, st, a[1])
    there = inl(l, x)
    if l.decl().name() == q.snoc.name() and l.arg(1).eq(x):
        pput(ex, st, a[0], l.arg(0))
    else:
        pput(ex, st, a[0], remove(l, x))
    return z3.If(there, z3.BitVecVal(1, 64), C0)


PS = r'std::unordered_set<std::shared_ptr<protogen::Message>, .*>::'
MODELS = [(PS + r'unordered_set\(\)$', p_new), (PS + r'~unordered_set\(\)$', gen.nothing), (PS + r'count\(', p_count), (PS + r'insert\(', p_insert),
          (PS + r'erase\(std::shared_ptr<protogen::Message> const&\)$', p_erase)] + _GM


def refobj(ex, st, name, t):
    p = Ptr(ex.new_obj(st, name, 'raw', 16), 0)
    RefK().store(ex, st, p, t)
    return p


def refs(ex, st, name):
    p = Ptr(ex.new_obj(st, name, 'raw', 24), 0)
    REFS.put(ex, st, p)
    return p


class Contains(Gen):
    name = 'contains'
    rx = r'^protogen::contains\('

    def setups(self, ex):
        st = State()
        yield '', st, [refs(ex, st, 'items'), refobj(ex, st, 'message', fresh('m', INT))]

    def havoc(self, c):
        return fresh('found', BOOL)

    def what(self, c):
        return REFS.load(c.ex, c.st0, c.args[0]), RefK().load(c.ex, c.st0, c.args[1])

    def post(self, c):
        L, m = self.what(c)
        return [('whether it is in the list', norm2(c.ret) == inl(L, m)), ('search', infrom(L, C0, m) == inl(L, m))]

    @property
    def loops(self):
        def inv(L):
            V, m = self.what(View(L.ex, L.st0, L.st, L.st.frames[0].args))
            return [('not found so far', infrom(V, position(L), m) == infrom(V, C0, m))]
        return field_loops('messages', {}, inv, lambda L: q.len(self.what(View(L.ex, L.st0, L.st, L.st.frames[0].args))[0]), False)


class Sort(Gen):
    """places a message after everything it refers to"""
    name = 'sort (message)'
    rx = r'^protogen::sort\(std::vector'
    uses = ('Contains', 'Sort')
    may = True
    fuel = 2

    def setups(self, ex):
        st = State()
        P = Ptr(ex.new_obj(st, 'pending', 'raw', 56), 0)
        pput(ex, st, P, fresh('pending', L_))
        m = fresh('message', INT)
        st.assume(m != 0)
        yield '', st, [refs(ex, st, 'output'), P, refobj(ex, st, 'message', m)]

    def what(self, c, st):
        return REFS.load(c.ex, st, c.args[0]), pget(c.ex, st, c.args[1]), RefK().load(c.ex, c.st0, c.args[2])

    def pre(self, c):
        o, P, m = self.what(c, c.st0)
        return [('the message is known', known(m)), ('placed messages are in order', ordered(o)), ('placed messages are known', allknown(o)),
                ('what is pending leads here', allreach(P, m)), ('nothing pending is placed', disj(P, o))]

    def rank(self, c):
        o, P, m = self.what(c, c.st0)
        return ('sort', [free(P, N)])

    def throws(self, c):
        return CYCLIC
    exception = FieldFn.exception

    def havoc(self, c):
        o = fresh('output', L_)
        c.st1.assume(z3.ULT(q.len(o), LIM))
        REFS.store(c.ex, c.st1, c.args[0], o)
        c.mods |= {(c.args[0].obj, c.args[0].off)}

    def havoc_throw(self, c):
        self.havoc(c)
        pput(c.ex, c.st1, c.args[1], fresh('pending', L_))

    def post(self, c):
        o, P, m = self.what(c, c.st1)
        o0, P0, _ = self.what(c, c.st0)
        return [('nothing placed is lost', prefix(o0, o)), ('the message is placed', inl(o, m)), ('in order', ordered(o)), ('all known', allknown(o)),
                ('nothing pending is placed', disj(P0, o))]

    @property
    def loops(self):
        def inv(L):
            c = View(L.ex, L.st0, L.st, L.st.frames[0].args)
            o, P, m = self.what(c, L.st)
            o0, P0, _ = self.what(c, L.ex.entry)
            V = mfields(m)
            return [('pending', P == SnocR(P0, m)), ('nothing placed is lost', prefix(o0, o)), ('in order', ordered(o)), ('all known', allknown(o)),
                    ('nothing pending is placed', disj(SnocR(P0, m), o)), ('references so far are placed', done(V, o, position(L)))]
        return field_loops('fields', {}, inv, lambda L: flen(mfields(RefK().load(L.ex, L.st0, L.st.frames[0].args[2]))), False)


ORDER = ['order.Contains', 'order.Sort', 'L:order.Reaches', 'L:order.Circle', 'L:order.Stays', 'L:order.DoneStays', 'L:order.Further', 'L:order.Apart', 'L:order.Fewer',
         'L:order.Found', 'L:order.Known', 'L:order.NoCircle']
