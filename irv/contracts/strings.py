"""Contracts of the JSON string reader and writer (P01-P04)."""
from .base import *
from ..stl import ishex, hexval, hexdigit

# ---------------------------------------------------------------- decoding
_D = z3.Datatype('Dec')
_D.declare('Bad')
_D.declare('Good', ('dval', Str), ('dend', INT))
Dec = _D.create()

SHORT = {34: 34, 92: 92, 47: 47, 98: 8, 102: 12, 114: 13, 110: 10, 116: 9}


def utf8(a, cp):
    """text a followed by the UTF-8 encoding of the code point (BV32, below 0x110000)"""
    b = lambda k, hi, msk: hi | z3.Extract(7, 0, z3.LShR(cp, k)) & msk
    one = Snoc(a, z3.Extract(7, 0, cp))
    two = Snoc(Snoc(a, b(6, 0xC0, 0x1F)), b(0, 0x80, 0x3F))
    three = Snoc(Snoc(Snoc(a, b(12, 0xE0, 0x0F)), b(6, 0x80, 0x3F)), b(0, 0x80, 0x3F))
    four = Snoc(Snoc(Snoc(Snoc(a, b(18, 0xF0, 0x07)), b(12, 0x80, 0x3F)), b(6, 0x80, 0x3F)), b(0, 0x80, 0x3F))
    return z3.If(z3.ULT(cp, 0x80), one, z3.If(z3.ULT(cp, 0x800), two, z3.If(z3.ULT(cp, 0x10000), three, four)))


def hex4(q):
    """positions and digits of the four characters after q: (all hexadecimal, value, last position)"""
    ps = []
    p = q
    for _ in range(4):
        p = nx(p)
        ps.append(p)
    cs = [pk(p) for p in ps]
    isd = lambda c: z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 70), z3.And(c >= 97, c <= 102))
    v = z3.BitVecVal(0, 32)
    for c in cs:
        v = v * 16 + hexval(z3.Extract(7, 0, c))
    return z3.And(*[isd(c) for c in cs]), v, ps[3]


# DU(q, lead, acc): q is the position of the u of an escape; what follows it is decoded
# D(p, lead, acc): p is the position of the next character of the literal
D = Spec('D', [INT, B32, Str], Dec)


def DU(q, l, a):
    ok, v, e = hex4(q)
    lead = z3.And(z3.UGE(v, 0xD800), z3.ULE(v, 0xDBFF))
    trail = z3.And(z3.UGE(v, 0xDC00), z3.ULE(v, 0xDFFF))
    full = z3.BitVecVal(0x10000, 32) + (l - 0xD800) * 1024 + (v - 0xDC00)
    nolead = z3.If(trail, Dec.Bad, z3.If(lead, D(nx(e), v, a), D(nx(e), z3.BitVecVal(0, 32), utf8(a, v))))
    haslead = z3.If(trail, D(nx(e), z3.BitVecVal(0, 32), utf8(a, full)), Dec.Bad)
    return z3.If(ok, z3.If(l == 0, nolead, haslead), Dec.Bad)


def _dbody(p, l, a):
    c = pk(p)
    p2 = nx(p)
    c2 = pk(p2)
    zero = z3.BitVecVal(0, 32)
    esc = z3.If(c2 == 117, DU(p2, l, a), Dec.Bad)
    for k, v in SHORT.items():
        esc = z3.If(z3.And(c2 == k, l == 0), D(nx(p2), zero, Snoc(a, z3.BitVecVal(v, 8))), esc)
    return z3.If(c == 92, esc,
                 z3.If(z3.Or(l != 0, c == 0), Dec.Bad,
                       z3.If(c == 34, Dec.Good(a, nx(p)), D(nx(p), zero, Snoc(a, z3.Extract(7, 0, c))))))


D.body = _dbody


class ParseEscape(Contract):
    name = 'tokenizer::parse_escaped_utf8'
    rx = r'^protogen\w*::internal::tokenizer::parse_escaped_utf8\('
    fuel = 1

    def setups(self, ex):
        st = State()
        R = rt(ex)
        tk = R.tokenizer(ex, st)
        v = ex.new_obj(st, 'value', 'raw', 32)
        R.strv(ex, st, Ptr(v, 0), 'value')
        l = ex.new_obj(st, 'lead', 'raw', 4)
        ex.put(st, l, 0, fresh('lead', B32), 4)
        yield '', st, [tk, Ptr(v, 0), Ptr(l, 0)]

    def _q(self, c, st):
        return st.ghost[('q', rt(c.ex).input_of(c.ex, st, c.args[0]))]

    def pre(self, c):
        l = c.i0(c.args[2], 32)
        return [('lead is 0 or a lead surrogate', z3.Or(l == 0, z3.And(z3.UGE(l, 0xD800), z3.ULE(l, 0xDBFF))))]

    def havoc(self, c):
        c.h_ghost(('q', rt(c.ex).input_of(c.ex, c.st0, c.args[0])))
        c.h_str(c.args[1])
        c.h_int(c.args[2], 32)
        return fresh('ok', BOOL)

    def post(self, c):
        q, q1 = self._q(c, c.st0), self._q(c, c.st1)
        a, a1 = c.s0(c.args[1]), c.s1(c.args[1])
        l, l1 = c.i0(c.args[2], 32), c.i1(c.args[2], 32)
        ok, v, e = hex4(q)
        lead = z3.And(z3.UGE(v, 0xD800), z3.ULE(v, 0xDBFF))
        trail = z3.And(z3.UGE(v, 0xDC00), z3.ULE(v, 0xDFFF))
        full = z3.BitVecVal(0x10000, 32) + (l - 0xD800) * 1024 + (v - 0xDC00)
        good = z3.And(ok, trail == (l != 0))
        r = tobool(c.ret)
        return [('accepts exactly the valid escapes', r == good),
                ('stops at the last digit', z3.Implies(r, q1 == e)),
                ('never moves backwards', rem(q1) <= rem(q)),
                ('lead recorded', z3.Implies(r, l1 == z3.If(lead, v, 0))),
                ('text of the code point appended',
                 z3.Implies(r, a1 == z3.If(lead, a, z3.If(trail, utf8(a, full), utf8(a, v))))),
                ]


class ParseString(Contract):
    name = 'tokenizer::parse_string'
    rx = r'^protogen\w*::internal::tokenizer::parse_string\('
    fuel = 2
    uses = ('ParseEscape',)

    def setups(self, ex):
        st = State()
        R = rt(ex)
        tk = R.tokenizer(ex, st)
        out = ex.new_obj(st, 'result', 'raw', R.size_token)
        yield '', st, [Ptr(out, 0), tk]

    def _q(self, c, st):
        return st.ghost[('q', rt(c.ex).input_of(c.ex, st, c.args[1]))]

    def havoc(self, c):
        c.h_ghost(('q', rt(c.ex).input_of(c.ex, c.st0, c.args[1])))
        TokView(c, c.args[0]).havoc()

    def post(self, c):
        q, q1 = self._q(c, c.st0), self._q(c, c.st1)
        t = TokView(c, c.args[0])
        ids = rt(c.ex).ids
        r = D(nx(q), z3.BitVecVal(0, 32), Nil)
        good = z3.And(pk(q) == 34, Dec.is_Good(r))
        return [('a valid literal gives a string token', z3.Implies(good, t.id1() == ids['STRING'])),
                ('an invalid literal gives no token', z3.Implies(z3.Not(good), t.id1() == ids['NONE'])),
                ('the value is what the literal denotes', t.val1() == z3.If(good, Dec.dval(r), Nil)),
                ('input continues after the closing quote', z3.Implies(good, q1 == Dec.dend(r))),
                ('input advances', z3.Implies(pk(q) == 34, rem(q1) < rem(q))),
                ('line of the opening quote', t.line1() == ln(q)),
                ('column of the opening quote', t.col1() == cl(q))]

    @property
    def loops(self):
        def inv(L):
            q = L['q']
            q0 = L.ent('q')
            lead = L['lead']
            z = z3.BitVecVal(0, 32)
            return [('rest of the literal denotes the same', D(nx(q), lead, L['value']) == D(nx(q0), L.ent('lead'), L.ent('value'))),
                    ('lead', z3.Or(lead == 0, z3.And(z3.UGE(lead, 0xD800), z3.ULE(lead, 0xDBFF)))),
                    ('progress', z3.Or(q == q0, rem(q) < rem(q0)))]
        return [LoopSpec('string content', {'q': ('ghost:q', []), 'lead': ('i32', ['lead']), 'value': ('str', ['value'])},
                         inv, lambda L: rem(L['q']), fn=r'parse_string')]


# ---------------------------------------------------------------- the literal as an automaton (RFC 8259, section 7)
_L = z3.Datatype('LS')
_L.declare('LS', ('mode', INT), ('lead', B32), ('hexv', B32), ('acc', Str), ('ascii', BOOL))
LS = _L.create()
M_START, M_TEXT, M_ESC, M_HEX, M_END, M_ERR = 0, 1, 2, 3, 7, 8      # 3..6: hexadecimal digits still to come 4..1
LERR = LS.LS(z3.IntVal(M_ERR), z3.BitVecVal(0, 32), z3.BitVecVal(0, 32), Nil, z3.BoolVal(False))
LSTART = LS.LS(z3.IntVal(M_START), z3.BitVecVal(0, 32), z3.BitVecVal(0, 32), Nil, z3.BoolVal(True))


def lstep(s, c):
    """state after one more byte"""
    z = z3.BitVecVal(0, 32)
    asc = z3.And(LS.ascii(s), z3.ULT(c, 128))
    st = lambda m, lead, hv, acc: LS.LS(z3.IntVal(m) if isinstance(m, int) else m, lead, hv, acc, asc)
    m, lead, acc = LS.mode(s), LS.lead(s), LS.acc(s)
    text = z3.If(c == 92, st(M_ESC, lead, z, acc),
                 z3.If(z3.Or(lead != 0, z3.ULT(c, 32)), LERR,
                       z3.If(c == 34, st(M_END, z, z, acc), st(M_TEXT, z, z, Snoc(acc, c)))))
    esc = LERR
    for k, v in SHORT.items():
        esc = z3.If(z3.And(c == k, lead == 0), st(M_TEXT, z, z, Snoc(acc, z3.BitVecVal(v, 8))), esc)
    esc = z3.If(c == 117, st(M_HEX, lead, z, acc), esc)
    hv = LS.hexv(s) * 16 + hexval(c)
    trail = z3.And(z3.UGE(hv, 0xDC00), z3.ULE(hv, 0xDFFF))
    islead = z3.And(z3.UGE(hv, 0xD800), z3.ULE(hv, 0xDBFF))
    full = z3.BitVecVal(0x10000, 32) + (lead - 0xD800) * 1024 + (hv - 0xDC00)
    done = z3.If(lead != 0, z3.If(trail, st(M_TEXT, z, z, utf8(acc, full)), LERR),
                 z3.If(trail, LERR, z3.If(islead, st(M_TEXT, hv, z, acc), st(M_TEXT, z, z, utf8(acc, hv)))))
    hexs = z3.If(ishex(c), z3.If(m == M_HEX + 3, done, st(m + 1, lead, hv, acc)), LERR)
    return z3.If(m == M_TEXT, text, z3.If(m == M_ESC, esc, z3.If(z3.And(m >= M_HEX, m <= M_HEX + 3), hexs,
                 z3.If(z3.And(m == M_START, c == 34), st(M_TEXT, z, z, Nil), LERR))))


F = Spec('F', [Str], LS)                 # state after the text
F.body = lambda o: z3.If(o == Nil, LSTART, lstep(F(init(o)), last(o)))
F.structural = 0
F.strict = True

take = Spec('take', [Str, B64], Str)     # first i bytes
take.body = lambda s, i: z3.If(i == 0, Nil, Snoc(take(s, i - 1), at(s, i - 1)))
take.fuel = 5

# VU(s, i): the bytes of s from i on are valid UTF-8 (RFC 3629, section 4)
VU = Spec('VU', [Str, B64], BOOL)


def _vu(s, i):
    n = slen(s)
    b = [at(s, i + k) for k in range(4)]
    has = lambda k: z3.ULT(i + k, n)
    rng = lambda x, lo, hi: z3.And(z3.UGE(x, lo), z3.ULE(x, hi))
    tail = lambda x: rng(x, 0x80, 0xBF)
    one = z3.ULE(b[0], 0x7F)
    two = z3.And(rng(b[0], 0xC2, 0xDF), has(1), tail(b[1]))
    three = z3.And(has(2), tail(b[2]), z3.Or(z3.And(b[0] == 0xE0, rng(b[1], 0xA0, 0xBF)),
                                              z3.And(z3.Or(rng(b[0], 0xE1, 0xEC), rng(b[0], 0xEE, 0xEF)), tail(b[1])),
                                              z3.And(b[0] == 0xED, rng(b[1], 0x80, 0x9F))))
    four = z3.And(has(3), tail(b[2]), tail(b[3]), z3.Or(z3.And(b[0] == 0xF0, rng(b[1], 0x90, 0xBF)),
                                                         z3.And(rng(b[0], 0xF1, 0xF3), tail(b[1])),
                                                         z3.And(b[0] == 0xF4, rng(b[1], 0x80, 0x8F))))
    return z3.If(i == n, True, z3.If(one, VU(s, i + 1), z3.If(two, VU(s, i + 2), z3.If(three, VU(s, i + 3),
                 z3.If(four, VU(s, i + 4), False)))))


VU.body = _vu


class Writer(Contract):
    """shape shared by the json<T>::write functions: the text appended is w"""
    arg = 1

    def ctx(self, ex, st):
        R = rt(ex)
        oid = ex.new_obj(st, 'ctx', 'raw', R.size(r'12json_contextE$'))
        out = R.ostream(ex, st)
        st.ghost[('out', out)] = Nil
        p = Ptr(oid, 0)
        ex.put(st, oid, R.ctx['tok'], NULL, 8)
        ex.put(st, oid, R.ctx['os'], Ptr(out, 0), 8)
        R.put_params(ex, st, p.add(R.ctx['params']))
        return p

    def out(self, c, st):
        R = rt(c.ex)
        return ('out', c.ex.load(st, c.args[0].add(R.ctx['os']), 'ptr').obj)

    def par(self, c, name):
        R = rt(c.ex)
        return c.i0(c.args[0].add(R.ctx['params'] + R.par[name]), 8) != 0

    def code(self, c, before=False):
        R = rt(c.ex)
        p = c.args[0].add(R.ctx['params'] + R.par['error'] + R.err['code'])
        return c.i0(p, 32) if before else c.i1(p, 32)

    def havoc_error(self, c):
        R = rt(c.ex)
        p = c.args[0].add(R.ctx['params'] + R.par['error'])
        for f in ('code', 'line', 'column'):
            c.h_int(p.add(R.err[f]), 32)
        c.h_str(p.add(R.err['message']))

    def havoc(self, c):
        k = self.out(c, c.st0)
        c.mods.add(k)
        w = fresh('w', Str)
        c.aux['w'] = w
        c.st1.ghost[k] = mkcat(c.st0.ghost[k], w)
        self.havoc_error(c)
        return fresh('ret', B32)

    def w(self, c):
        return c.aux['w'] if 'w' in c.aux else c.st1.ghost[self.out(c, c.st1)]

    def status(self, c, ok):
        """the usual outcome: OK exactly when ok, otherwise ERROR with an error code"""
        R = rt(c.ex)
        r = bv(c.ret, 32)
        return [('returns OK exactly when it should', (r == R.res['PGR_OK']) == ok),
                ('returns OK or ERROR', z3.Or(r == R.res['PGR_OK'], r == R.res['PGR_ERROR'])),
                ('an error is reported', z3.Implies(r != R.res['PGR_OK'], self.code(c) != R.codes['PGERR_OK'])),
                ('no error is reported without one', z3.Implies(r == R.res['PGR_OK'], self.code(c) == self.code(c, True)))]


class StringWrite(Writer):
    name = 'json<std::string>::write'
    rx = r'^protogen\w*::json<std::__cxx11::basic_string<.*>, void>::write\('
    fuel = 1

    def setups(self, ex):
        st = State()
        p = self.ctx(ex, st)
        v = ex.new_obj(st, 'value', 'raw', 32)
        s = rt(ex).strv(ex, st, Ptr(v, 0), 'value')
        yield '', st, [p, Ptr(v, 0)]

    def post(self, c):
        s = c.s0(c.args[1])
        asc = self.par(c, 'ensure_ascii')
        R = rt(c.ex)
        w = self.w(c)
        ok = bv(c.ret, 32) == R.res['PGR_OK']
        f = F(w)
        return self.status(c, z3.Implies(asc, VU(s, z3.BitVecVal(0, 64)))) + [
            ('the text is one complete string literal', z3.Implies(ok, LS.mode(f) == M_END)),
            ('the literal denotes the value', z3.Implies(ok, LS.acc(f) == take(s, slen(s)))),
            ('ASCII only on request', z3.Implies(z3.And(ok, asc), LS.ascii(f))),
            ('the error is an invalid value', z3.Implies(z3.And(z3.Not(ok), self.code(c, True) == 0),
                                                        self.code(c) == R.codes['PGERR_INVALID_VALUE']))]

    @property
    def loops(self):
        z = z3.BitVecVal(0, 32)

        def inv(L):
            s, i, o = L['value'], L['i'], L['out']
            f = F(o)
            asc = self.par(L.view, 'ensure_ascii')
            return [('index in range', z3.ULE(i, slen(s))),
                    ('text so far denotes the bytes so far', z3.And(LS.mode(f) == M_TEXT, LS.lead(f) == 0, LS.acc(f) == take(s, i))),
                    ('ASCII so far', z3.Implies(asc, LS.ascii(f))),
                    ('valid so far', z3.Implies(asc, VU(s, i) == VU(s, z3.BitVecVal(0, 64))))]
        return [LoopSpec('bytes of the value', {'value': ('str', ['value']), 'i': ('i64', ['i']), 'out': ('ghost:out', [])}, inv,
                         lambda L: slen(L['value']) - L['i'])]


# ---------------------------------------------------------------- lemmas
class TakeAll(Lemma):
    """take(s, length of s) = s"""
    name = 'a text is its own longest prefix'

    def cases(self):
        s, c, i = fresh('s', Str), fresh('c', B8), fresh('i', B64)
        n = slen(s)
        small = [z3.ULT(n, LIM)]
        pre = lambda j: take(Snoc(s, c), j) == take(s, j)
        z = z3.BitVecVal(0, 64)
        yield 'prefix of an extension, length 0', small, pre(z)
        yield 'prefix of an extension, step', small + [z3.ULT(i, n), pre(i)], pre(i + 1)
        yield 'empty text', [], take(Nil, slen(Nil)) == Nil
        yield 'one more byte', small + [take(s, n) == s, pre(n)], take(Snoc(s, c), slen(Snoc(s, c))) == Snoc(s, c)


# char-level decoder: continue from automaton state st at position p
Dm = Spec('Dm', [INT, LS], Dec)
Dm.body = lambda p, st: z3.If(LS.mode(st) == M_END, Dec.Good(LS.acc(st), p),
                              z3.If(LS.mode(st) == M_ERR, Dec.Bad, Dm(nx(p), lstep(st, z3.Extract(7, 0, pk(p))))))


class DecodeAgrees(Lemma):
    """whatever the automaton accepts, the decoder of the contract of parse_string decodes to the same value"""
    name = 'decoding follows the literal automaton'

    def cases(self):
        p, l, a, asc = fresh('p', INT), fresh('l', B32), fresh('a', Str), fresh('asc', BOOL)
        z = z3.BitVecVal(0, 32)

        def text(lead, acc, fl):
            return LS.LS(z3.IntVal(M_TEXT), lead, z, acc, fl)

        def claim(q, lead, acc, fl):
            r = Dm(q, text(lead, acc, fl))
            return z3.Implies(Dec.is_Good(r), D(q, lead, acc) == r)
        lead_ok = z3.Or(l == 0, z3.And(z3.UGE(l, 0xD800), z3.ULE(l, 0xDBFF)))
        ps = [p]
        for _ in range(6):
            ps.append(nx(ps[-1]))
        c = [z3.Extract(7, 0, pk(q)) for q in ps]
        fl = asc
        fls = []
        for k in range(6):
            fl = z3.And(fl, z3.ULT(c[k], 128))
            fls.append(fl)
        goal = claim(p, l, a, asc)

        def chain(k):
            """Dm unfolded over the first k characters"""
            st = text(l, a, asc)
            out = []
            for j in range(k):
                nst = lstep(st, c[j])
                r = Dm(ps[j], st)
                out.append(r == z3.If(LS.mode(st) == M_END, Dec.Good(LS.acc(st), ps[j]), z3.If(LS.mode(st) == M_ERR, Dec.Bad, Dm(ps[j + 1], nst))))
                st = nst
            out.append(Dm(ps[k], st) == Dm.body(ps[k], st))
            return out, st
        ch1, s1 = chain(1)
        plain = [c[0] != 92]
        yield 'plain character or closing quote', [lead_ok] + plain + ch1 + [
            z3.Implies(LS.mode(s1) == M_TEXT, z3.Implies(rem(ps[1]) < rem(p), claim_st(ps[1], s1)))], goal
        ch2, s2 = chain(2)
        yield 'short escape', [lead_ok, c[0] == 92, c[1] != 117] + ch2 + [
            z3.Implies(LS.mode(s2) == M_TEXT, z3.Implies(rem(ps[2]) < rem(p), claim_st(ps[2], s2)))], goal
        ch6, s6 = chain(6)
        bad = []
        for k in range(2, 6):
            chk, sk = chain(k + 1)
            yield 'escape broken at digit %d' % (k - 1), [lead_ok, c[0] == 92, c[1] == 117, z3.Not(ishex(c[k]))] + [ishex(c[j]) for j in range(2, k)] + chk, goal
        yield 'unicode escape', [lead_ok, c[0] == 92, c[1] == 117] + [ishex(c[j]) for j in range(2, 6)] + ch6 + [
            z3.Implies(LS.mode(s6) == M_TEXT, z3.Implies(rem(ps[6]) < rem(p), claim_st(ps[6], s6)))], goal
    opaque = ('Dm',)
    fuel = 1


def claim_st(q, st):
    r = Dm(q, st)
    return z3.Implies(Dec.is_Good(r), D(q, LS.lead(st), LS.acc(st)) == r)


class RoundTrip(Lemma):
    """a text the automaton accepts, laid out in the input, is decoded to the value it denotes"""
    name = 'reading back what was written'
    fuel = 1

    def cases(self):
        w, k = fresh('w', Str), fresh('k', B64)
        pos = z3.Function('pos', B64, INT)
        z = z3.BitVecVal(0, 64)
        n = slen(w)
        lay = lambda j: z3.And(z3.Extract(7, 0, pk(pos(j))) == at(w, j), nx(pos(j)) == pos(j + 1))
        st = lambda j: F(take(w, j))
        claim = lambda j: z3.Implies(LS.mode(st(j)) != M_ERR, Dm(pos(z), LSTART) == Dm(pos(j), st(j)))
        yield 'at the start', [take(w, z) == take.body(w, z), F(Nil) == LSTART], claim(z)
        # F of one more byte, by definition of F and take
        tk = take(w, k + 1) == Snoc(take(w, k), at(w, k))
        fd = F(Snoc(take(w, k), at(w, k))) == lstep(F(take(w, k)), at(w, k))
        yield 'one more byte', [z3.ULT(k, n), z3.ULT(n, LIM), lay(k), tk, fd, claim(k),
                                Dm(pos(k), st(k)) == Dm.body(pos(k), st(k))], claim(k + 1)
        T = Dm(pos(z), LSTART)
        t = LS.LS(z3.IntVal(M_TEXT), z3.BitVecVal(0, 32), z3.BitVecVal(0, 32), Nil, z3.BoolVal(True))
        v = LS.acc(st(n))
        yield 'the whole text', [z3.UGT(n, 0), z3.ULT(n, LIM), claim(n), lay(z), LS.mode(st(n)) == M_END, at(w, z) == 34,
                                 Dm(pos(n), st(n)) == Dm.body(pos(n), st(n)), T == Dm.body(pos(z), LSTART),
                                 claim_st(nx(pos(z)), lstep(LSTART, at(w, z)))], \
            z3.And(z3.Extract(7, 0, pk(pos(z))) == 34, D(nx(pos(z)), z3.BitVecVal(0, 32), Nil) == Dec.Good(v, pos(n)))
        # a text the automaton accepts starts with a quote
        s, c = fresh('s', Str), fresh('c', B8)
        q = lambda x: z3.Or(x == Nil, at(x, z) == 34, LS.mode(F(x)) == M_ERR)
        yield 'accepted text starts with a quote (empty)', [], z3.And(q(Nil), LS.mode(F(Nil)) == M_START)
        yield 'accepted text starts with a quote (step)', [z3.ULT(slen(s), LIM), F(Nil) == LSTART, q(s)], q(Snoc(s, c))
    opaque = ('Dm',)
