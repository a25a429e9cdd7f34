"""Contracts of the bytes fields (P05): standard base64 with padding, strict decoding."""
from .base import *
from .strings import Writer, take, TakeAll, F, LS, M_TEXT, LSTART
from .read import JRead, isid, tval, T, T_ONLY, MODELS, AXIOMS
from .values import PlainWrite, VM
from ..stl import AbsBytes, get_bytes, set_bytes

V = r'^protogen\w*::json<std::vector<unsigned char, std::allocator<unsigned char> >, void>::'
Z = z3.BitVecVal(0, 64)


def C(n):
    return z3.BitVecVal(n, 64)


def sym(v):
    """symbol of a 6-bit value (BV8)"""
    return z3.If(z3.ULT(v, 26), v + 65, z3.If(z3.ULT(v, 52), v + 71, z3.If(z3.ULT(v, 62), v - 4, z3.If(v == 62, z3.BitVecVal(43, 8), z3.BitVecVal(47, 8)))))


def val(c):
    """value of a symbol; 64 for the padding, 255 for anything else (BV8)"""
    rng = lambda a, b: z3.And(z3.UGE(c, a), z3.ULE(c, b))
    k = lambda n: z3.BitVecVal(n, 8)
    return z3.If(rng(65, 90), c - 65, z3.If(rng(97, 122), c - 71, z3.If(rng(48, 57), c + 4, z3.If(c == 43, k(62), z3.If(c == 47, k(63), z3.If(c == 61, k(64), k(255)))))))


def group(a, b, c):
    """the four 6-bit values of three bytes"""
    m = lambda x, n: x & z3.BitVecVal(n, 8)
    return [z3.LShR(a, 2), (m(a, 3) << 4) | z3.LShR(b, 4), (m(b, 15) << 2) | z3.LShR(c, 6), m(c, 63)]


def byte3(v):
    """the three bytes of four 6-bit values"""
    return [(v[0] << 2) | z3.LShR(v[1], 4), (v[1] << 4) | z3.LShR(v[2], 2), (v[2] << 6) | v[3]]


def snocs(t, cs):
    for c in cs:
        t = Snoc(t, c)
    return t


# enc(b, s, i): the text b followed by the base64 of the first i bytes of s, for i a multiple of 3
enc = Spec('b64enc', [Str, Str, B64], Str)
enc.body = lambda b, s, i: z3.If(z3.ULT(i, 3), b, snocs(enc(b, s, i - 3), [sym(v) for v in group(at(s, i - 3), at(s, i - 2), at(s, i - 1))]))
QUOTE = z3.BitVecVal(34, 8)
PAD = z3.BitVecVal(61, 8)
Q = Snoc(Nil, QUOTE)


def whole(s):
    """the number of bytes in whole groups"""
    n = slen(s)
    return n - z3.URem(n, C(3))


def tail64(s, m, r):
    """the symbols of the last r bytes, from m on"""
    z = z3.BitVecVal(0, 8)
    if r == 0:
        return []
    if r == 1:
        return [sym(v) for v in group(at(s, m), z, z)][:2] + [PAD, PAD]
    return [sym(v) for v in group(at(s, m), at(s, m + 1), z)][:3] + [PAD]


_R = z3.Datatype('B64')
_R.declare('NoBytes')
_R.declare('Bytes', ('data', Str))
R64 = _R.create()
NoBytes, Bytes, data = R64.NoBytes, R64.Bytes, R64.data

# dec(t, k, acc): what follows from position k on, decoded after acc
dec = Spec('b64dec', [Str, B64, Str], R64)


def _dec(t, k, a):
    n = slen(t)
    v = [val(at(t, k + j)) for j in range(4)]
    d = byte3(v)
    last = k + 4 == n
    p = [x == 64 for x in v]
    sy = [z3.ULT(x, 64) for x in v]
    full = z3.And(*sy)
    two = z3.And(sy[0], sy[1], sy[2], p[3], last)
    one = z3.And(sy[0], sy[1], p[2], p[3], last)
    return z3.If(k == n, Bytes(a), z3.If(z3.ULT(n - k, C(4)), NoBytes,
                 z3.If(full, dec(t, k + 4, snocs(a, d)), z3.If(two, dec(t, k + 4, snocs(a, d[:2])), z3.If(one, dec(t, k + 4, snocs(a, d[:1])), NoBytes)))))


dec.body = _dec


class BytesK:
    fp = False

    def size(self, ex):
        return 24

    def put(self, ex, st, p):
        t = fresh('bytes', Str)
        st.assume(z3.ULT(slen(t), LIM))
        ex.put(st, p.obj, p.off, AbsBytes(t), 24)

    def inv(self, ex, st, p):
        return z3.BoolVal(True)

    def keys(self, ex, p):
        return {(p.obj, p.off)}

    def isempty(self, x, st, p):
        return get_bytes(x, st, p) == Nil
    isnew = isempty

    def equal(self, x, s0, p, s1, q):
        return get_bytes(x, s0, p) == get_bytes(x, s1, q)
    same = equal


class Write(PlainWrite):
    name = 'json<bytes>::write'
    rx = V + r'write\('

    def setups(self, ex):
        st = State()
        p = self.ctx(ex, st)
        v = ex.new_obj(st, 'value', 'raw', 24)
        BytesK().put(ex, st, Ptr(v, 0))
        yield '', st, [p, Ptr(v, 0)]

    def post(self, c):
        s = get_bytes(c.ex, c.st0, c.args[1])
        n, m = slen(s), whole(s)
        e = enc(Q, s, m)
        w = self.w(c)
        return [('always succeeds', bv(c.ret, 32) == rt(c.ex).res['PGR_OK']),
                ('whole groups only', z3.Implies(n == m, w == Snoc(e, QUOTE))),
                ('one byte at the end', z3.Implies(n == m + 1, w == snocs(e, tail64(s, m, 1) + [QUOTE]))),
                ('two bytes at the end', z3.Implies(n == m + 2, w == snocs(e, tail64(s, m, 2) + [QUOTE]))),
                ('never more than two', z3.ULE(n - m, C(2)))]

    @property
    def loops(self):
        def inv(L):
            s, i = L['value'].t, L['i']
            return [('index in range', z3.ULE(i, slen(s))), ('whole groups', z3.URem(i, C(3)) == 0),
                    ('text so far', L['out'] == enc(Q, s, i))]
        return [LoopSpec('groups of three bytes', {'value': ('abs:bytes', ['value']), 'i': ('i64', ['i']), 'out': ('ghost:out', [])}, inv,
                         lambda L: slen(L['value'].t) - L['i'])]


class Symbol(Contract):
    """value of one symbol"""
    name = 'json<bytes>::b64_int'
    rx = V + r'b64_int\('
    fuel = 0

    def setups(self, ex):
        yield '', State(), [fresh('ch', B32)]

    def havoc(self, c):
        return fresh('v', B32)

    def post(self, c):
        ch = bv(c.args[0], 32)
        ok = z3.And(z3.ULE(ch, 127), val(z3.Extract(7, 0, ch)) != 255)
        return [('the value of the symbol, negative for anything else', z3.If(ok, bv(c.ret, 32) == z3.ZeroExt(24, val(z3.Extract(7, 0, ch))), bv(c.ret, 32) < 0))]


class Read(JRead):
    name = 'json<bytes>::read'
    rx = V + r'read\('
    keeps_on_error = False
    uses = JRead.uses + ('Symbol',)

    def values(self, ex, st):
        v = ex.new_obj(st, 'value', 'raw', 24)
        BytesK().put(ex, st, Ptr(v, 0))
        yield '', Ptr(v, 0)

    def result(self, c, t):
        return dec(tval(T(t)), Z, get_bytes(c.ex, c.st0, c.args[1]))

    def split(self, c):
        t = self.t0(c)
        ok = z3.And(isid(t, 'STRING'), R64.is_Bytes(self.result(c, t)))
        return [('ok', ok), ('nil', self.nilf(t)), ('bad', z3.Not(z3.Or(ok, self.nilf(t))))]

    def post(self, c):
        t = self.t0(c)
        ok = z3.And(isid(t, 'STRING'), R64.is_Bytes(self.result(c, t)))
        self.okf = lambda t: ok
        return super().post(c)

    def okf(self, t):
        raise Unsupported('result depends on the value')

    def put(self, c):
        BytesK().put(c.ex, c.st1, c.args[1])
        c.mods.add((c.args[1].obj, c.args[1].off))

    def value(self, c, t):
        return [('the decoded bytes follow what was there', get_bytes(c.ex, c.st1, c.args[1]) == data(self.result(c, t)))]

    def kept(self, c):
        return get_bytes(c.ex, c.st1, c.args[1]) == get_bytes(c.ex, c.st0, c.args[1])

    @property
    def loops(self):
        def at(L):
            return bv(L['ptr'].off, 64) if 'ptr' in L.role_names() else L['i']

        def inv(L):
            t = L['text']
            k = at(L)
            e = L.ent('value').t
            return [('position in range', z3.ULE(k, slen(t))), ('what follows decodes alike', dec(t, k, L['value'].t) == dec(t, Z, e))]
        R = {'value': ('abs:bytes', ['value']), 'text': ('str', ['text'])}
        return [LoopSpec('groups of four symbols', dict(R, **r), inv, lambda L: slen(L['text']) - at(L), moving=('ptr', 'i'))
                for r in ({'ptr': ('ptr', ['ptr'])}, {'i': ('i64', ['i', 'pos'])})]


class RoundTrip(Lemma):
    """decoding the base64 of s gives s"""
    name = 'base64 is decoded to the bytes encoded'
    fuel = 1
    opaque = ('b64dec', 'b64enc')

    def cases(self):
        s, k, b = fresh('s', Str), fresh('k', B64), fresh('base', Str)
        i, m = fresh('i', B64), fresh('m', B64)      # group numbers
        n = slen(s)
        small = [z3.ULT(n, LIM)]
        B = lambda x: z3.ULT(x, LIM)
        g = lambda i: [sym(v) for v in group(at(s, 3 * i), at(s, 3 * i + 1), at(s, 3 * i + 2))]
        E = lambda b, m: enc(b, s, 3 * m)
        G4 = lambda b, m: snocs(E(b, m), g(m))
        yield 'text: no group', [], enc.body(b, s, Z) == b
        yield 'text: one more group', [B(m)], enc.body(b, s, 3 * m + 3) == G4(b, m)
        # length of the text (base Nil)
        yield 'length: no group', [E(Nil, Z) == Nil], slen(E(Nil, Z)) == 0
        ln_ = lambda m: slen(E(Nil, m)) == 4 * m
        yield 'length: one more group', [B(m), ln_(m)], slen(G4(Nil, m)) == 4 * (m + 1)
        # group i of the text of m groups
        sy = lambda t, m: z3.Implies(z3.ULT(i, m), z3.And(*[at(t, 4 * i + j) == x for j, x in enumerate(g(i))]))
        yield 'symbols: no group', [], sy(Nil, Z)
        yield 'symbols: one more group', [B(m), B(i), ln_(m), sy(E(Nil, m), m)], sy(G4(Nil, m), m + 1)
        # the four values give the bytes back
        x, y, z = [fresh('b', B8) for _ in range(3)]
        v = group(x, y, z)
        yield 'symbols decode to their values', [], z3.And(*[val(sym(u)) == u for u in v] + [z3.ULT(u, 64) for u in v])
        yield 'values decode to their bytes', [], z3.And(*[u == w for u, w in zip(byte3(v), (x, y, z))])
        # decoding the whole text: m groups and r further bytes
        tk = lambda q: take(s, q + 1) == Snoc(take(s, q), at(s, q))
        facts = lambda a, b, c: [z3.And(val(sym(u)) == u, z3.ULT(u, 64)) for u in group(a, b, c)] + [u == w for u, w in zip(byte3(group(a, b, c)), (a, b, c))]
        W = fresh('W', Str)
        claim = lambda i: dec(W, Z, Nil) == dec(W, 4 * i, take(s, 3 * i))
        dd = lambda i: dec(W, 4 * i, take(s, 3 * i)) == dec.body(W, 4 * i, take(s, 3 * i))
        three = lambda i: facts(at(s, 3 * i), at(s, 3 * i + 1), at(s, 3 * i + 2))
        yield 'decoding: start', [take(s, Z) == Nil], claim(Z)
        yield 'decoding: one more group', [B(i), B(m), z3.ULT(i, m), z3.UGE(slen(W), 4 * m), z3.ULE(slen(W), 4 * m + 4), claim(i), dd(i), sy(W, m)] + three(i) + [tk(3 * i), tk(3 * i + 1), tk(3 * i + 2)], claim(i + 1)
        zb = z3.BitVecVal(0, 8)
        end = dec(W, slen(W), s) == dec.body(W, slen(W), s)
        for r in (0, 1, 2):
            base = small + [B(m), n == 3 * m + r, claim(m), dd(m), take(s, n) == s, slen(W) == 4 * m + (4 if r else 0), end]
            base += [tk(3 * m + j) for j in range(r)] + [at(W, 4 * m + j) == u for j, u in enumerate(tail64(s, 3 * m, r))]
            if r:
                base += facts(at(s, 3 * m), at(s, 3 * m + 1) if r == 2 else zb, zb)
            yield 'decoding: %d bytes left' % r, base, dec(W, Z, Nil) == Bytes(s)
            # the text written: its length, its last symbols, its groups
            X = snocs(E(Nil, m), tail64(s, 3 * m, r))
            yield 'text with %d bytes left: length' % r, [B(m), ln_(m)], slen(X) == 4 * m + (4 if r else 0)
            if r:
                yield 'text with %d bytes left: last symbols' % r, [B(m), ln_(m)], z3.And(*[at(X, 4 * m + j) == u for j, u in enumerate(tail64(s, 3 * m, r))])
            yield 'text with %d bytes left: groups' % r, [B(m), B(i), ln_(m), sy(E(Nil, m), m)], sy(X, m)
            yield 'whole groups with %d bytes left' % r, [B(m), n == 3 * m + r], whole(s) == 3 * m


class Literal(Lemma):
    """base64 between quotes is a string literal that denotes the base64 text"""
    name = 'base64 text is its own string literal'
    fuel = 1
    opaque = ('b64enc',)

    def cases(self):
        from .strings import M_END
        s, m = fresh('s', Str), fresh('m', B64)
        st = lambda t: F(t)
        ok = lambda t, d: z3.And(LS.mode(F(t)) == M_TEXT, LS.lead(F(t)) == 0, LS.acc(F(t)) == d, LS.ascii(F(t)))
        eq, en = enc(Q, s, 3 * m), enc(Nil, s, 3 * m)
        yield 'the opening quote', [F(Nil) == LSTART], ok(Q, Nil)
        g = [sym(v) for v in group(at(s, 3 * m), at(s, 3 * m + 1), at(s, 3 * m + 2))]
        yield 'one more group', [ok(eq, en)], ok(snocs(eq, g), snocs(en, g))
        for r in (0, 1, 2):
            t = tail64(s, 3 * m, r)
            w = snocs(eq, t + [QUOTE])
            yield 'the end, %d bytes left' % r, [ok(eq, en)], z3.And(LS.mode(F(w)) == M_END, LS.acc(F(w)) == snocs(en, t), LS.ascii(F(w)))


ALL = ['base64.Symbol', 'base64.Write', 'base64.Read']
for _op, _o in (('empty', 'Empty'), ('clear', 'Clear'), ('equal', 'Equal'), ('swap', 'Swap')):
    globals()[_o] = type(_o, (VM,), dict(name='json<bytes>::' + _op, rx=V + _op + r'\(', op=_op, K=BytesK()))
    ALL.append('base64.' + _o)
