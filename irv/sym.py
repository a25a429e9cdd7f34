"""Logic layer: sorts, specification functions with definitional unfolding, and the prover.

Verification conditions are quantifier-free.  A recursive specification function
is an uninterpreted symbol; the prover adds its defining equation for every
application that occurs in the condition, `fuel` levels deep.  An equation is
true of the mathematical function, so adding (or not adding) instances is sound
for proving.
"""
import z3, time, subprocess, os, tempfile

B8 = z3.BitVecSort(8)
B32 = z3.BitVecSort(32)
B64 = z3.BitVecSort(64)
INT = z3.IntSort()
BOOL = z3.BoolSort()

_S = z3.Datatype('Str')
_S.declare('Nil')
_S.declare('Snoc', ('init', _S), ('last', B8))
Str = _S.create()
Nil, Snoc, init, last = Str.Nil, Str.Snoc, Str.init, Str.last

LIM = 1 << 31      # assumed bound on the length of any string, vector or document

_cnt = [0]


def fresh(name, sort):
    _cnt[0] += 1
    return z3.Const('%s!%d' % (name, _cnt[0]), sort)


def bv(v, w):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    return v


def tobool(v):
    if isinstance(v, (bool, int)):
        return z3.BoolVal(bool(v))
    return v


def strlit(b, base=None):
    if isinstance(b, str):
        b = b.encode('latin-1')
    t = Nil if base is None else base
    for c in b:
        t = Snoc(t, z3.BitVecVal(c, 8))
    return t


def lit_of(t):
    """bytes of a fully concrete Str term, or None"""
    out = bytearray()
    t = z3.simplify(t)
    while True:
        if t.decl().name() == 'Nil':
            return bytes(out[::-1])
        if t.decl().name() != 'Snoc':
            return None
        c = t.arg(1)
        if not z3.is_bv_value(c):
            return None
        out.append(c.as_long())
        t = t.arg(0)


class Spec:
    reg = {}

    def __init__(self, name, args, ret, body=None):
        self.name, self.body = name, body
        self.f = z3.Function(name, *(list(args) + [ret]))
        Spec.reg[self.f.get_id()] = self
        self.structural = None
        self.strict = False
        self.fuel = None

    def __call__(self, *a):
        return self.f(*a)


def spec(name, args, ret):
    def deco(body):
        s = Spec(name, args, ret)
        s.body = body
        return s
    return deco


slen = Spec('slen', [Str], B64)
slen.body = lambda s: z3.If(s == Nil, z3.BitVecVal(0, 64), slen(init(s)) + 1)
at = Spec('at', [Str, B64], B8)
at.body = lambda s, i: z3.If(z3.Not(z3.Or(s == Nil)), z3.If(i == slen(init(s)), last(s), at(init(s), i)), z3.BitVecVal(0, 8))
cat = Spec('cat', [Str, Str], Str)
cat.body = lambda a, b: z3.If(b == Nil, a, Snoc(cat(a, init(b)), last(b)))


slen.structural = at.structural = 0
cat.structural = 1


def mkcat(a, b):
    """concatenation, unrolled where the second operand has visible structure"""
    if a.decl().name() == 'Nil':
        return b
    b = z3.simplify(b)
    if b.decl().name() == 'Nil':
        return a
    if b.decl().name() == 'Snoc':
        return Snoc(mkcat(a, b.arg(0)), b.arg(1))
    if b.decl().eq(cat.f):      # to the left (lemma schema.CatAssoc)
        return mkcat(mkcat(a, b.arg(0)), b.arg(1))
    return cat(a, b)


def mklen(s):
    n = 0
    while s.decl().name() == 'Snoc':
        n += 1
        s = s.arg(0)
    if s.decl().name() == 'Nil':
        return n
    return slen(s) + n if n else slen(s)


def mkat(s, i):
    if isinstance(i, int):
        l = lit_of(s)
        if l is not None and i < len(l):
            return l[i]
    return at(s, bv(i, 64))


def apps(fs, seen=None):
    """all applications of specification functions in the formulas"""
    out = []
    seen = set() if seen is None else seen
    st = list(fs)
    while st:
        e = st.pop()
        k = e.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_app(e):
            if e.num_args() and e.decl().get_id() in Spec.reg:
                out.append(e)
            st.extend(e.children())
        elif z3.is_quantifier(e):
            st.append(e.body())
    return out


def visible(t):
    return z3.is_app(t) and t.decl().name() in ('Nil', 'Snoc')


def unfold(fs, fuel, opaque=()):
    """definitional equations for the applications in fs.  A function marked `structural` (index of the
    argument it recurses on) is unfolded as far as that argument's structure is visible, and beyond that
    only within the fuel; one marked `strict` is not unfolded beyond it."""
    defs = []
    seen = set()
    done = set()
    cur = list(fs)
    level = 0
    pend = []
    while True:
        new = []
        for a in apps(cur, seen) + pend:
            if a.get_id() in done:
                continue
            s = Spec.reg[a.decl().get_id()]
            if s.body is None or s.name in opaque:
                continue
            new.append((a, s))
        pend = []
        go = []
        for a, s in new:
            if s.structural is not None and visible(a.arg(s.structural)):
                go.append((a, s))
            elif s.strict:
                continue
            elif level < (fuel if s.fuel is None else s.fuel):
                pend.append(a)
        if not go:
            if not pend:
                break
            level += 1
            go = [(a, Spec.reg[a.decl().get_id()]) for a in pend]
            pend = []
        cur = []
        for a, s in go:
            done.add(a.get_id())
            d = z3.simplify(a == s.body(*a.children()))
            defs.append(d)
            cur.append(d)
            if s is slen and not visible(a.arg(0)):
                x = a.arg(0)
                defs.append(z3.Implies(z3.And(x != Nil, z3.ULT(a, LIM)), z3.ULT(slen(init(x)), LIM)))
            _keep.append(a)
    return defs


_keep = []
LOG = os.environ.get('IRV_SLOW')      # a file to note slow queries in


class Prover:
    def __init__(self, timeout=20000, fuel=2, cross=False):
        self.timeout, self.fuel, self.cross = timeout, fuel, cross
        self.time = 0.0
        self.queries = 0
        self.cvc5_checked = 0
        self.cvc5_disagree = []
        self.opaque = set()
        self.patience = 90.0       # seconds of further attempts at what stays unknown (a loaded machine, an unlucky order of search)
        self.axioms = []      # functions: list of formulas -> list of extra instances

    def _solver(self, fs, fuel, timeout):
        s = z3.SolverFor('ALL') if False else z3.Solver()
        s.set('timeout', timeout)
        s.add(*fs)
        if fuel:
            ds = unfold(fs, fuel, self.opaque)
            for ax in self.axioms:
                ds += ax(list(fs) + ds)
            s.add(*ds)
        return s

    def feasible(self, fs, fuel=0):
        t = time.time()
        s = self._solver(fs, fuel, 2000)
        r = s.check()
        self.time += time.time() - t
        return r != z3.unsat

    def sat(self, fs, fuel=None):
        t = time.time()
        s = self._solver(fs, self.fuel if fuel is None else fuel, self.timeout)
        r = s.check()
        self.time += time.time() - t
        return str(r), (s.model() if r == z3.sat else None)

    def prove(self, pc, goal, fuel=None):
        """('unsat'|'sat'|'unknown', model)"""
        self.queries += 1
        goal = tobool(goal)
        g = z3.simplify(goal)
        if z3.is_true(g):
            return 'unsat', None
        t = time.time()
        fs = list(pc) + [z3.Not(goal)]
        fu = self.fuel if fuel is None else fuel
        r = None
        for f in ([fu] if fu <= 1 else [1, fu]):
            s = self._solver(fs, f, self.timeout)
            r = s.check()
            if r == z3.unsat:
                break
        if r == z3.unknown:
            s2 = self._solver(fs, fu, self.timeout * 2)
            s2.set('random_seed', 7)
            r = s2.check()
            if r == z3.unknown:
                r2 = cvc5_check(s2.to_smt2(), 20)
                if r2 == 'unsat':
                    r = z3.unsat
            s = s2
            for seed, f in ((11, fu), (23, 1), (5, fu), (42, fu)):
                if r != z3.unknown or self.patience <= 0:
                    break
                t1 = time.time()
                s3 = self._solver(fs, min(f, fu), int(1000 * min(30.0, max(1.0, self.patience))))
                s3.set('random_seed', seed)
                r3 = s3.check()
                self.patience -= time.time() - t1
                if r3 == z3.unsat:
                    r, s = r3, s3
        if LOG and time.time() - t > 4:
            with open(LOG, 'a') as lf:
                lf.write('%.1f %s %s\n' % (time.time() - t, r, str(g)[:150].replace('\n', ' ')))
        if r == z3.unsat and self.cross:
            self.cvc5_checked += 1
            rr = cvc5_check(s.to_smt2(), 10)
            if rr == 'sat':
                self.cvc5_disagree.append(str(goal)[:200])
        self.time += time.time() - t
        return str(r), (s.model() if r == z3.sat else None)


def cvc5_check(smt2, secs):
    fd, p = tempfile.mkstemp(suffix='.smt2')
    try:
        os.write(fd, ('(set-logic ALL)\n' + smt2).encode())
        os.close(fd)
        r = subprocess.run(['cvc5', '--tlimit=%d' % (secs * 1000), p], capture_output=True, text=True, timeout=secs + 5)
        o = r.stdout.strip().split('\n')[0]
        return o if o in ('sat', 'unsat') else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(p)
