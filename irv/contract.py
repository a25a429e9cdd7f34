"""Function contracts: one object states precondition, frame and postcondition; the same
formulas are used to verify the body and to replace calls."""
import re, z3, time
from .sym import *
from .exec import *


class View:
    """pre- and post-state of one call"""

    def __init__(self, ex, st0, st1, args):
        self.ex, self.st0, self.st1, self.args = ex, st0, st1, args
        self.ret = None
        self.mods = set()
        self.aux = {}
        self.case = None

    # reading
    def s0(self, p):
        return self.ex.get_str(self.st0, p)

    def s1(self, p):
        return self.ex.get_str(self.st1, p)

    def i0(self, p, w):
        return self._i(self.st0, p, w)

    def i1(self, p, w):
        return self._i(self.st1, p, w)

    def _i(self, st, p, w):
        v = self.ex.load_raw(st, st.mem[p.obj], p.off, ('i', w), max(1, w // 8))
        if v is UNDEF:
            return fresh('undef', z3.BitVecSort(max(8, w)))
        return bv(v, max(8, w))

    def p0(self, p):
        return self.ex.load(self.st0, p, 'ptr')

    # frame
    def h_str(self, p):
        t = fresh('s', Str)
        self.st1.assume(z3.ULT(slen(t), LIM))
        self.ex.set_str(self.st1, p, t)
        self.mods.add((p.obj, p.off))
        return t

    def h_int(self, p, w):
        v = fresh('i', z3.BitVecSort(max(8, w)))
        self.ex.put(self.st1, p.obj, p.off, v, max(1, w // 8))
        self.mods.add((p.obj, p.off))
        return v

    def h_abs(self, p, a, size):
        self.ex.set_abs(self.st1, p, a, size)
        self.mods.add((p.obj, p.off))

    def h_ghost(self, k):
        v = self.st1.ghost[k]
        n = fresh('g', v.sort())
        self.st1.ghost[k] = n
        self.mods.add(k)
        return n


class Contract:
    """subclass and define: name, rx, setups, pre, havoc, post; optionally throws, loops, uses"""
    name = ''
    rx = None
    loops = ()
    uses = ()
    unit = 'rt'
    fuel = 2
    prop = ''
    merge = True
    variants, variant = 1, 0     # other invariants to try for the loops

    def matches(self, dem, name):
        c = self.__dict__.setdefault('_mc', {})
        if dem not in c:
            c[dem] = re.search(self.rx, dem) is not None
        return c[dem]

    def find(self, mod):
        return mod.find(self.rx)

    def setups(self, ex):
        raise NotImplementedError

    def pre(self, c):
        return []

    def havoc(self, c):
        return None

    def post(self, c):
        return []

    def throws(self, c):
        """None: never throws; otherwise the formula (over the pre-state) under which it throws"""
        return None

    def apply(self, ex, st, args):
        st0 = st.clone()
        c = View(ex, st0, st, args)
        for n, f in self.pre(c):
            ex.oblige(st, 'precondition of %s: %s' % (self.name, n), f)
        out = []
        r = self.rank(c)
        if r is not None and ex.entry_rank is not None and r[0] == ex.entry_rank[0]:
            ex.oblige(st, 'recursion ends: %s is called on something smaller' % self.name, lex_less(r[1], ex.entry_rank[1]))
        t = self.throws(c)
        if t is not None:
            ts = st.clone()
            ts.assume(t)
            if ex.feasible(ts):
                self.havoc_throw(View(ex, st0, ts, args))
                ts.ghost['exc'] = self.exception(ex, ts)
                out.append((ts, THROW))
            if not self.may:
                st.assume(z3.Not(t))
                if not ex.feasible(st):
                    return out
        cs = self.split(c)
        for nm, guard in cs:
            s1 = st if len(cs) == 1 else st.clone()
            if guard is not None:
                s1.assume(guard)
                if len(cs) > 1 and not ex.feasible(s1):
                    continue
            d = View(ex, st0, s1, args)
            d.case = nm
            d.ret = self.havoc(d)
            for n, f in self.post(d):
                s1.assume(f)
            out.append((s1, d.ret))
        return out

    may = False         # throws() is only necessary for an exception, not sufficient

    def havoc_throw(self, c):
        """what an exception leaves changed"""
        self.havoc(c)

    def split(self, c):
        """cases a call is split into: (name, guard over the pre-state)"""
        return [('', None)]

    def rank(self, c):
        """termination: (group, measure tuple); calls inside the group must decrease it"""
        return None

    def exception(self, ex, st):
        return (None, None)


class Result:
    def __init__(self, name):
        self.name = name
        self.obls = []
        self.unsupported = None
        self.paths = 0
        self.cover = []
        self.time = 0
        self.models = set()
        self.contracts = set()
        self.inlined = set()
        self.loops = []
        self.fn = None
        self.queries = 0
        self.solver_time = 0
        self.cvc5 = 0
        self.cvc5_disagree = []

    @property
    def failed(self):
        return [o for o in self.obls if o.status != 'unsat']

    @property
    def ok(self):
        return self.unsupported is None and self.obls and not self.failed and all(self.cover)


def verify(mod, con, uses, models, iface, timeout=20000, deadline=120, cross=False, axioms=(), pick=None, part=None):
    """verify the body of the function under `con` against its contract"""
    res = Result(con.name)
    t0 = time.time()
    try:
        names = [n for n in con.find(mod) if pick is None or pick(n)]
        if not names:
            raise Unsupported('no function matches the contract %s' % con.name)
        if len(names) > 1:
            raise Unsupported('%d functions match %s' % (len(names), con.name))
        name = names[0]
        res.fn = mod.demangle(name)
        fn = mod.func(name)
        pv = Prover(timeout, con.fuel, cross)
        pv.axioms = list(axioms)
        ex = Exec(mod, pv, uses, models, iface, time.time() + deadline)
        ex.target = con.name
        ex.target_name = name
        ex.join = getattr(con, 'join', False)
        pv.opaque = set(getattr(con, 'opaque', ()))
        if hasattr(con, 'init'):
            con.init(ex)
        for label, st, args in con.setups(ex):
            ex.loop_specs = list(con.loops)
            st0 = st.clone()
            c0 = View(ex, st0, st, args)
            for n, f in con.pre(c0):
                st.assume(f)
            if part is not None:        # the proof in parts: one case each, the last what is left
                g = con.parts(c0)
                st.assume(g[part] if part < len(g) else z3.Not(z3.Or(*g)))
            st0 = st.clone()
            ex.entry = st0
            ex.entry_rank = con.rank(View(ex, st0, st, args))
            # vacuity: the precondition must be satisfiable
            r, _ = pv.sat(st.pc)
            res.cover.append(r == 'sat' or r == 'unknown')
            if r == 'unsat':
                ex.obls.append(Obl(con.name, 'precondition is satisfiable' + label, '', 'sat'))
                continue
            # frame
            sm = st.clone()
            cm = View(ex, st0, sm, args)
            con.havoc(cm)
            mods = cm.mods
            ex.push(st, fn, args)
            ex.inlined.discard(name)
            outs = ex.explore(st, 1)
            nret = nthrow = 0
            for k, s, v in outs:
                res.paths += 1
                c = View(ex, st0, s, args)
                c.ret = v
                c.label = label
                cond = con.throws(c)
                if k == 'throw':
                    nthrow += cond is not None
                    ex.oblige(s, 'no exception%s' % label if cond is None else 'exception only when specified' + label,
                              z3.BoolVal(False) if cond is None else cond, assume=False)
                    if hasattr(con, 'post_throw'):
                        for n, f in con.post_throw(c):
                            ex.oblige(s, n + label, f, assume=False)
                    continue
                nret += 1
                if cond is not None and not con.may:
                    ex.oblige(s, 'exception when specified' + label, z3.Not(cond), assume=False)
                for n, f in con.post(c):
                    ex.oblige(s, n + label, f, assume=False)
                frame(ex, con, st0, s, mods, label)
            # reachability: some path returns
            res.cover.append(nret + nthrow > 0)
            if not nret + nthrow:
                ex.obls.append(Obl(con.name, 'some path returns' + label, '', 'sat'))
    except Unsupported as e:
        res.unsupported = str(e)
    except DeadPath:
        res.unsupported = 'dead path at top level'
    except (KeyError, IndexError, TypeError, AttributeError, AssertionError, z3.Z3Exception, IRError) as e:
        import traceback
        res.unsupported = 'internal: %s: %s' % (type(e).__name__, traceback.format_exc()[-int(__import__("os").environ.get("TB","600")):])
    try:
        res.obls = ex.obls
        res.contracts = ex.used_contracts
        res.inlined = {mod.demangle(n) for n in ex.inlined}
        res.loops = ex.loop_report
        res.queries = pv.queries
        res.solver_time = pv.time
        res.cvc5 = pv.cvc5_checked
        res.cvc5_disagree = pv.cvc5_disagree
    except NameError:
        pass
    res.models = set(models.used) if models else set()
    res.time = time.time() - t0
    return res


def frame(ex, con, st0, s, mods, label):
    for oid, o in st0.mem.items():
        if oid.startswith('@') or o.kind == 'sdata':
            continue
        p = s.mem.get(oid)
        if p is None or p is o:
            continue
        for k in set(o.cells) | set(p.cells):
            if (oid, k) in mods or (oid, '*') in mods:
                continue
            x, y = o.cells.get(k), p.cells.get(k)
            if x is not None and y is not None and same(x[0], y[0]):
                continue
            if x is None and y is None:
                continue
            if x is not None and y is not None:
                a, b = x[0], y[0]
                if isinstance(a, Abs) and isinstance(b, Abs) and a.kind == b.kind and is_sym(a.t) and is_sym(b.t):
                    ex.oblige(s, 'frame: %s+%s unchanged%s' % (o.name, k, label), a.t == b.t, assume=False)
                    continue
                if isinstance(a, (int, z3.ExprRef)) and isinstance(b, (int, z3.ExprRef)) and x[1] == y[1]:
                    w = x[1] * 8
                    if not (is_sym(a) and not z3.is_bv(a)) and not (is_sym(b) and not z3.is_bv(b)):
                        ex.oblige(s, 'frame: %s+%s unchanged%s' % (o.name, k, label), bv(a, w) == bv(b, w), assume=False)
                        continue
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                    ex.oblige(s, 'frame: %s+%s unchanged%s' % (o.name, k, label), bv(a.off, 64) == bv(b.off, 64), assume=False)
                    continue
            ex.oblige(s, 'frame: %s+%s unchanged%s' % (o.name, k, label), z3.BoolVal(False), assume=False)
    for g, v in st0.ghost.items():
        if g in mods:
            continue
        w = s.ghost.get(g)
        if not same(v, w):
            ex.oblige(s, 'frame: %s unchanged%s' % (g, label), v == w if is_sym(v) else z3.BoolVal(False), assume=False)


class Lemma:
    """a fact about the specification functions, proved by explicit induction: cases() gives
    (name, hypotheses, goal[, fuel]); the induction hypothesis is among the hypotheses of the step, applied
    to a structurally smaller argument or a smaller measure"""
    name = ''
    uses = ()
    fuel = 2

    def cases(self):
        raise NotImplementedError


def prove_lemma(lem, timeout=20000, axioms=(), cross=False):
    res = Result('lemma ' + lem.name)
    res.fn = '(lemma)'
    t0 = time.time()
    pv = Prover(timeout, lem.fuel, cross)
    pv.axioms = list(axioms) + list(getattr(lem, 'axioms', ()))        # lemmas it rests on
    pv.opaque = set(getattr(lem, 'opaque', ()))
    try:
        for cs in lem.cases():
            nm, hyps, goal = cs[:3]
            fu = cs[3] if len(cs) > 3 else lem.fuel
            r, m = pv.prove(list(hyps), goal, fu)
            res.obls.append(Obl('lemma ' + lem.name, nm, '', r, m))
            # the hypotheses must not be contradictory
            rr, _ = pv.sat(list(hyps), fu)
            res.cover.append(rr != 'unsat')
    except Unsupported as e:
        res.unsupported = str(e)
    res.paths = len(res.obls)
    res.queries, res.solver_time, res.cvc5, res.cvc5_disagree = pv.queries, pv.time, pv.cvc5_checked, pv.cvc5_disagree
    res.time = time.time() - t0
    return res
