"""Contracts of the tokenizer (P11-P13 and everything that reads): the token that starts at an input position."""
from .base import *
from .strings import D, Dec, ParseString, ParseEscape

IDS = dict(NONE=0, EOS=1, OBJS=2, OBJE=3, COLON=4, COMMA=5, STRING=6, ARRS=7, ARRE=8, NIL=9, BTRUE=10, BFALSE=11, NUMBER=12)

_T = z3.Datatype('Tok')
_T.declare('Tok', ('tid', B32), ('tval', Str), ('tline', B32), ('tcol', B32), ('tend', INT))
Tok = _T.create()
tid, tval, tline, tcol, tend = Tok.tid, Tok.tval, Tok.tline, Tok.tcol, Tok.tend


def ID(n):
    return z3.BitVecVal(IDS[n], 32)


def chars(c, s):
    return z3.Or(*[c == ord(x) for x in s])


def isnumc(c):
    return z3.Or(z3.And(c >= 48, c <= 57), chars(c, '.eE+-'))


def isalphac(c):
    return z3.Or(z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122))


def low8(c):
    return z3.Extract(7, 0, c)


# the longest run of number characters / letters from q on: its end, and its text after acc
numend = Spec('numend', [INT], INT)
numend.body = lambda q: z3.If(z3.And(rem(q) != 0, isnumc(pk(q))), numend(nx(q)), q)
numval = Spec('numval', [INT, Str], Str)
numval.body = lambda q, a: z3.If(z3.And(rem(q) != 0, isnumc(pk(q))), numval(nx(q), Snoc(a, low8(pk(q)))), a)
wordend = Spec('wordend', [INT], INT)
wordend.body = lambda q: z3.If(z3.And(rem(q) != 0, isalphac(pk(q))), wordend(nx(q)), q)
wordval = Spec('wordval', [INT, Str], Str)
wordval.body = lambda q, a: z3.If(z3.And(rem(q) != 0, isalphac(pk(q))), wordval(nx(q), Snoc(a, low8(pk(q)))), a)

T = Spec('T', [INT], Tok)        # the first token at or after position q


def _tbody(q):
    c = pk(q)
    mk = lambda i, v, e: Tok.Tok(ID(i), v, ln(q), cl(q), e)
    w = wordval(q, Nil)
    word = mk('NONE', Nil, wordend(q))
    for t, i in (('true', 'BTRUE'), ('false', 'BFALSE'), ('null', 'NIL')):
        word = z3.If(w == strlit(t), mk(i, Nil, wordend(q)), word)
    d = D(nx(q), z3.BitVecVal(0, 32), Nil)
    r = z3.If(chars(c, '-0123456789'), mk('NUMBER', numval(q, Nil), numend(q)), word)
    r = z3.If(c == 34, z3.If(Dec.is_Good(d), mk('STRING', Dec.dval(d), Dec.dend(d)), mk('NONE', Nil, q)), r)
    for ch, i in (('{', 'OBJS'), ('}', 'OBJE'), ('[', 'ARRS'), (']', 'ARRE'), (':', 'COLON'), (',', 'COMMA')):
        r = z3.If(c == ord(ch), mk(i, Nil, nx(q)), r)
    r = z3.If(chars(c, ' \t\r\n'), T(nx(q)), r)
    return z3.If(rem(q) == 0, mk('EOS', Nil, q), r)


T.body = _tbody
T.fuel = 1


def token_axioms(fs):
    """consequence of the contract of next(): a token that is neither the end nor invalid takes up input (lemma Progress)"""
    out = []
    for e in apps(fs):
        if e.decl().name() == 'T':
            q = e.arg(0)
            t = T(q)
            out += [rem(tend(t)) >= 0,
                    z3.Implies(z3.And(tid(t) != ID('NONE'), tid(t) != ID('EOS')), rem(tend(t)) < rem(q)),
                    z3.Implies(tid(t) == ID('EOS'), rem(tend(t)) == 0), z3.ULE(tid(t), max(IDS.values())), z3.ULT(slen(tval(t)), LIM)]
    return out


def setids(ex):
    IDS.update(rt(ex).ids)


class TokContract(Contract):
    """method of the tokenizer; args[i] is the tokenizer"""
    tk = 0

    def init(self, ex):
        setids(ex)

    def state(self, ex):
        st = State()
        setids(ex)
        return st, rt(ex).tokenizer(ex, st)

    def qk(self, c):
        return ('q', rt(c.ex).input_of(c.ex, c.st0, c.args[self.tk]))

    def q0(self, c):
        return c.st0.ghost[self.qk(c)]

    def q1(self, c):
        return c.st1.ghost[self.qk(c)]

    def setups(self, ex):
        st, tk = self.state(ex)
        yield '', st, [tk]

    def cur(self, c):
        return TokView(c, rt(c.ex).cur(c.args[self.tk]))

    def tpk(self, c):
        return ('t', c.args[self.tk].obj, c.args[self.tk].off)


class ParseNumber(TokContract):
    name = 'tokenizer::parse_number'
    rx = r'^protogen\w*::internal::tokenizer::parse_number\('
    tk = 1

    def setups(self, ex):
        st, tk = self.state(ex)
        out = ex.new_obj(st, 'result', 'raw', rt(ex).size_token)
        yield '', st, [Ptr(out, 0), tk]

    def havoc(self, c):
        c.h_ghost(self.qk(c))
        TokView(c, c.args[0]).havoc()

    def post(self, c):
        q, q1, t = self.q0(c), self.q1(c), TokView(c, c.args[0])
        return [('a number token', t.id1() == ID('NUMBER')),
                ('its text is the longest run of number characters', t.val1() == numval(q, Nil)),
                ('input continues after it', q1 == numend(q)),
                ('input advances', z3.Implies(z3.And(rem(q) > 0, isnumc(pk(q))), rem(q1) < rem(q))),
                ('input never moves backwards', rem(q1) <= rem(q)),
                ('line of the first digit', t.line1() == ln(q)), ('column of the first digit', t.col1() == cl(q))]

    @property
    def loops(self):
        def inv(L):
            q, q0 = L['q'], L.ent('q')
            return [('text', numval(q, L['value']) == numval(q0, L.ent('value'))), ('end', numend(q) == numend(q0)),
                    ('progress', z3.Or(q == q0, rem(q) < rem(q0))), ('first', z3.Implies(q == q0, L['value'] == L.ent('value')))]
        return [LoopSpec('characters of the number', {'q': ('ghost:q', []), 'value': ('str', ['value'])}, inv, lambda L: rem(L['q']))]


class ParseIdentifier(TokContract):
    name = 'tokenizer::parse_identifier'
    rx = r'^protogen\w*::internal::tokenizer::parse_identifier(\[abi:cxx11\])?\('
    tk = 1

    def setups(self, ex):
        st, tk = self.state(ex)
        out = ex.new_obj(st, 'result', 'raw', 32)
        yield '', st, [Ptr(out, 0), tk]

    def havoc(self, c):
        c.h_ghost(self.qk(c))
        c.h_str(c.args[0])

    def post(self, c):
        q, q1 = self.q0(c), self.q1(c)
        return [('its text is the longest run of letters', c.s1(c.args[0]) == wordval(q, Nil)),
                ('input continues after it', q1 == wordend(q)),
                ('input advances', z3.Implies(z3.And(rem(q) > 0, isalphac(pk(q))), rem(q1) < rem(q))),
                ('input never moves backwards', rem(q1) <= rem(q))]

    @property
    def loops(self):
        def inv(L):
            q, q0 = L['q'], L.ent('q')
            return [('text', wordval(q, L['value']) == wordval(q0, L.ent('value'))), ('end', wordend(q) == wordend(q0)),
                    ('progress', z3.Or(q == q0, rem(q) < rem(q0)))]
        return [LoopSpec('letters of the word', {'q': ('ghost:q', []), 'value': ('str', ['value'])}, inv, lambda L: rem(L['q']))]


def is_token(v, t, cells='1'):
    """the token in memory is the token t"""
    i, s, l, c = (v.id1(), v.val1(), v.line1(), v.col1()) if cells == '1' else (v.id0(), v.val0(), v.line0(), v.col0())
    return z3.And(i == tid(t), s == tval(t), l == tline(t), c == tcol(t))


class Next(TokContract):
    name = 'tokenizer::next'
    rx = r'^protogen\w*::internal::tokenizer::next\('
    uses = ('strings.ParseString', 'ParseNumber', 'ParseIdentifier')
    fuel = 1

    def havoc(self, c):
        c.h_ghost(self.qk(c))
        self.cur(c).havoc()
        k = self.tpk(c)
        if k in c.st1.ghost:
            # ghost code of next(): the current token is the one at the old position
            c.st1.ghost[k] = self.q0(c)
            c.mods.add(k)
        return rt(c.ex).cur(c.args[0])

    def post(self, c):
        q, q1, v = self.q0(c), self.q1(c), self.cur(c)
        t = T(q)
        return [('kind of the token', v.id1() == tid(t)),
                ('text of the token', v.val1() == tval(t)),
                ('line of the token', v.line1() == tline(t)),
                ('column of the token', v.col1() == tcol(t)),
                ('input continues after the token', z3.Implies(tid(t) != ID('NONE'), q1 == tend(t))),
                ('a token takes up input', z3.Implies(z3.And(tid(t) != ID('NONE'), tid(t) != ID('EOS')), rem(q1) < rem(q))),
                ('the end is the end of the input', z3.Implies(tid(t) == ID('EOS'), rem(q1) == 0)),
                ('input never moves backwards', rem(q1) <= rem(q)),
                ('returns the current token', ptr_eq(c.ret, rt(c.ex).cur(c.args[0])))]

    @property
    def loops(self):
        def inv(L):
            q, q0 = L['q'], L.ent('q')
            return [('same first token', T(q) == T(q0)), ('progress', z3.Or(q == q0, rem(q) < rem(q0)))]
        return [LoopSpec('blanks', {'q': ('ghost:q', [])}, inv, lambda L: rem(L['q']), fn=r'::next\(')] + list(ParseNumber().loops) + list(ParseIdentifier().loops) + list(ParseString().loops) + [
                LoopSpec('blanks, apart', {'q': ('ghost:q', [])}, inv, lambda L: rem(L['q']))]


def ptr_eq(a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
        return bv(a.off, 64) == bv(b.off, 64)
    return z3.BoolVal(False)


class Progress(Lemma):
    """every token that is neither the end nor invalid ends further on (used as an axiom about T)"""
    name = 'tokens take up input'
    fuel = 1

    def cases(self):
        q, l, a = fresh('q', INT), fresh('l', B32), fresh('a', Str)
        p = lambda f: z3.Implies(z3.And(rem(q) != 0, rem(nx(q)) < rem(q)), f)
        # runs
        yield 'number', [rem(numend(nx(q))) <= rem(nx(q))], rem(numend(q)) <= rem(q)
        yield 'number, first character', [rem(numend(nx(q))) <= rem(nx(q)), rem(q) != 0, isnumc(pk(q))], rem(numend(q)) < rem(q)
        yield 'word', [rem(wordend(nx(q))) <= rem(nx(q))], rem(wordend(q)) <= rem(q)
        yield 'word, first character', [rem(wordend(nx(q))) <= rem(nx(q)), rem(q) != 0, isalphac(pk(q))], rem(wordend(q)) < rem(q)

        # string literal: D ends further on (induction on rem, hypotheses for the positions its body continues at)
        def claim(p, l, a):
            r = D(p, l, a)
            return z3.Implies(Dec.is_Good(r), rem(Dec.dend(r)) < rem(p))
        body = D.body(q, l, a)
        hyps = []
        for e in apps([body]):
            if e.decl().name() == 'D':
                r = e
                hyps.append(z3.Implies(rem(e.arg(0)) < rem(q), z3.Implies(Dec.is_Good(r), rem(Dec.dend(r)) < rem(e.arg(0)))))
        from .strings import hex4
        yield 'string literal', hyps, claim(q, l, a)
        d = D(nx(q), z3.BitVecVal(0, 32), Nil)
        t = T(q)
        good = lambda t, q: z3.And(z3.Implies(z3.And(tid(t) != ID('NONE'), tid(t) != ID('EOS')), rem(tend(t)) < rem(q)),
                                   z3.Implies(tid(t) == ID('EOS'), rem(tend(t)) == 0))
        yield 'token', [z3.Implies(Dec.is_Good(d), rem(Dec.dend(d)) < rem(nx(q))), rem(numend(nx(q))) <= rem(nx(q)), rem(wordend(nx(q))) <= rem(nx(q)),
                        numend(q) == numend.body(q), wordend(q) == wordend.body(q), wordval(q, Nil) == wordval.body(q, Nil),
                        z3.Implies(rem(nx(q)) < rem(q), good(T(nx(q)), nx(q)))], good(t, q)
    opaque = ()


AXIOMS = []


# ---------------------------------------------------------------- the token stream
# ghost ('t', tokenizer): the position whose first token is the current one

class OnTokens(TokContract):
    """function that works on the token stream"""

    def state(self, ex):
        st, tk = super().state(ex)
        self.on_token(ex, st, tk)
        return st, tk

    def on_token(self, ex, st, tk):
        """the tokenizer stands on the token at some position t"""
        R = rt(ex)
        t = fresh('t', INT)
        st.ghost[('t', tk.obj, tk.off)] = t
        self.put_cur(ex, st, tk, t)
        q = st.ghost[('q', R.input_of(ex, st, tk))]
        st.assume(z3.Implies(tid(T(t)) != ID('NONE'), q == tend(T(t))))
        st.assume(rem(q) <= rem(t))

    def put_cur(self, ex, st, tk, t):
        R = rt(ex)
        o = R.token
        p = R.cur(tk)
        for f, g in (('id', tid), ('line', tline), ('column', tcol)):
            ex.put(st, p.obj, p.off + o[f], g(T(t)), 4)
        ex.put(st, p.obj, p.off + o['value'], AbsStr(tval(T(t))), 32)

    def tok_of(self, c):
        return c.args[self.tk]

    def tkey(self, c):
        p = self.tok_of(c)
        return ('t', p.obj, p.off)

    def t0(self, c):
        return c.st0.ghost[self.tkey(c)]

    def t1(self, c):
        return c.st1.ghost[self.tkey(c)]

    def qkey(self, c):
        return ('q', rt(c.ex).input_of(c.ex, c.st0, self.tok_of(c)))

    def inv(self, c, st):
        """the current token in memory is the token at t, and the input stands behind it"""
        R = rt(c.ex)
        v = TokView(View(c.ex, st, st, c.args), R.cur(self.tok_of(c)))
        t = st.ghost[self.tkey(c)]
        q = st.ghost[self.qkey(c)]
        return [('the current token is the one at the ghost position', is_token(v, T(t))),
                ('the input stands behind the current token', z3.Implies(tid(T(t)) != ID('NONE'), q == tend(T(t)))),
                ('the input is not before the current token', rem(q) <= rem(t))]

    def pre(self, c):
        return self.inv(c, c.st0)

    def move(self, c, t=None):
        """frame: the token stream moves on, to t if given"""
        R = rt(c.ex)
        p = R.cur(self.tok_of(c))
        c.h_ghost(self.tkey(c))
        c.h_ghost(self.qkey(c))
        if t is not None:
            c.st1.ghost[self.tkey(c)] = t
        for f in ('id', 'line', 'column', 'value'):
            c.mods.add((p.obj, p.off + R.token[f]))
        self.put_cur(c.ex, c.st1, self.tok_of(c), c.st1.ghost[self.tkey(c)])

    # errors
    def errp(self, c):
        return rt(c.ex).err_of(c.ex, c.st0, self.tok_of(c))

    def err_havoc(self, c):
        R = rt(c.ex)
        p = self.errp(c)
        for f in ('code', 'line', 'column'):
            c.h_int(p.add(R.err[f]), 32)
        c.h_str(p.add(R.err['message']))

    def ecode(self, c, k):
        R = rt(c.ex)
        p = self.errp(c).add(R.err['code'])
        return c.i0(p, 32) if k == 0 else c.i1(p, 32)

    def err_same(self, c):
        R, p = rt(c.ex), self.errp(c)
        return z3.And(*[c.i0(p.add(R.err[f]), 32) == c.i1(p.add(R.err[f]), 32) for f in ('code', 'line', 'column')] +
                      [c.s0(p.add(R.err['message'])) == c.s1(p.add(R.err['message']))])

    def err_at(self, c, t):
        """an error is recorded at the token at t, unless there was one before"""
        R, p = rt(c.ex), self.errp(c)
        new = z3.And(self.ecode(c, 1) != R.codes['PGERR_OK'], c.i1(p.add(R.err['line']), 32) == tline(T(t)),
                     c.i1(p.add(R.err['column']), 32) == tcol(T(t)))
        return z3.If(self.ecode(c, 0) == R.codes['PGERR_OK'], new, self.err_same(c))


class Construct(OnTokens):
    name = 'tokenizer::tokenizer'
    rx = r'^protogen\w*::internal::tokenizer::tokenizer\('
    uses = ('Next',)
    fuel = 1

    def setups(self, ex):
        st = State()
        setids(ex)
        R = rt(ex)
        inp = R.istream(ex, st)
        par = R.params(ex, st)
        t = ex.new_obj(st, 'tokenizer', 'raw', R.size(r'9tokenizerE$'))
        st.ghost[('t', t, 0)] = fresh('t', INT)
        yield '', st, [Ptr(t, 0), Ptr(inp, 0), par]

    def pre(self, c):
        return []

    def qkey(self, c):
        return ('q', c.args[1].obj)

    def havoc(self, c):
        R = rt(c.ex)
        tk = c.args[0]
        q0 = c.st0.ghost[('q', c.args[1].obj)]
        c.st1.ghost[self.tkey(c)] = q0
        c.mods.add(self.tkey(c))
        c.h_ghost(('q', c.args[1].obj))
        self.put_cur(c.ex, c.st1, tk, q0)
        c.ex.put(c.st1, tk.obj, tk.off + R.tok['input_'], c.args[1], 8)
        c.ex.put(c.st1, tk.obj, tk.off + R.tok['error_'], c.args[2].add(R.par['error']), 8)
        for k in c.st1.mem[tk.obj].cells:
            c.mods.add((tk.obj, k))

    def post(self, c):
        R = rt(c.ex)
        tk = c.args[0]
        return [('stands on the first token of the input', self.t1(c) == c.st0.ghost[('q', c.args[1].obj)])] + self.inv(c, c.st1) + [
            ('reads from the given input', ptr_eq(c.ex.load(c.st1, tk.add(R.tok['input_']), 'ptr'), c.args[1])),
            ('reports to the given parameters', ptr_eq(c.ex.load(c.st1, tk.add(R.tok['error_']), 'ptr'), c.args[2].add(R.par['error'])))]


class Expect(OnTokens):
    name = 'tokenizer::expect'
    rx = r'^protogen\w*::internal::tokenizer::expect\('
    uses = ('Next',)
    fuel = 1

    def setups(self, ex):
        st, tk = self.state(ex)
        ty = fresh('type', B32)
        st.assume(ty != IDS['NONE'])
        yield '', st, [tk, ty]

    def pre(self, c):
        return super().pre(c) + [('a valid kind of token is expected', bv(c.args[1], 32) != IDS['NONE'])]

    def split(self, c):
        e = tid(T(self.t0(c))) == bv(c.args[1], 32)
        return [('yes', e), ('no', z3.Not(e))]

    def havoc(self, c):
        if c.case == 'no':
            return 0
        self.move(c, tend(T(self.t0(c))))
        return 1 if c.case == 'yes' else fresh('found', BOOL)

    def post(self, c):
        t, t1 = self.t0(c), self.t1(c)
        r = tobool(c.ret)
        return [('true exactly when the current token is of that kind', r == (tid(T(t)) == bv(c.args[1], 32))),
                ('moves to the following token', z3.Implies(r, t1 == tend(T(t)))),
                ('does not move otherwise', z3.Implies(z3.Not(r), z3.And(t1 == t, self.q1(c) == self.q0(c))))] + self.inv(c, c.st1)


class TokError(OnTokens):
    name = 'tokenizer::error'
    rx = r'^protogen\w*::internal::tokenizer::error\('
    fuel = 1

    def setups(self, ex):
        st, tk = self.state(ex)
        m = ex.new_obj(st, 'msg', 'raw', 32)
        rt(ex).strv(ex, st, Ptr(m, 0), 'msg')
        code = fresh('code', B32)
        yield '', st, [tk, code, Ptr(m, 0)]

    def pre(self, c):
        return super().pre(c) + [('the code says that there is an error', bv(c.args[1], 32) != rt(c.ex).codes['PGERR_OK'])]

    def havoc(self, c):
        self.err_havoc(c)
        return fresh('ret', B32)

    def post(self, c):
        R, p = rt(c.ex), self.errp(c)
        first = self.ecode(c, 0) == R.codes['PGERR_OK']
        return [('the first error is kept', z3.Implies(z3.Not(first), self.err_same(c))),
                ('error at the current token', self.err_at(c, self.t0(c))),
                ('the code is recorded', z3.Implies(first, self.ecode(c, 1) == bv(c.args[1], 32))),
                ('the message is recorded', z3.Implies(first, c.s1(p.add(R.err['message'])) == c.s0(c.args[2]))),
                ('returns ERROR', bv(c.ret, 32) == R.res['PGR_ERROR'])]


# ---------------------------------------------------------------- skipping
_K = z3.Datatype('Skip')
_K.declare('Stuck', ('sat', INT))
_K.declare('Past', ('spos', INT))
Skip = _K.create()

iv = Spec('iv', [INT], Skip)        # skip one value
ia = Spec('ia', [INT], Skip)        # skip the rest of an array, after [ or ,
io = Spec('io', [INT], Skip)        # skip the rest of an object, after { or ,


def isid(t, *names):
    return z3.Or(*[tid(T(t)) == ID(n) for n in names])


def _iv(t):
    n = tend(T(t))
    return z3.If(isid(t, 'STRING', 'NUMBER', 'NIL', 'BTRUE', 'BFALSE'), z3.If(isid(n, 'NONE', 'EOS'), Skip.Stuck(n), Skip.Past(n)),
                 z3.If(isid(t, 'OBJS'), io(n), z3.If(isid(t, 'ARRS'), ia(n), Skip.Stuck(t))))


def _more(r, again, close):
    p = Skip.spos(r)
    return z3.If(Skip.is_Stuck(r), r, z3.If(isid(p, 'COMMA'), again(tend(T(p))), z3.If(isid(p, close), Skip.Past(tend(T(p))), Skip.Stuck(p))))


def _io(t):
    c = tend(T(t))
    v = tend(T(c))
    return z3.If(isid(t, 'OBJE'), Skip.Past(tend(T(t))), z3.If(isid(t, 'STRING'), z3.If(isid(c, 'COLON'), _more(iv(v), io, 'OBJE'), Skip.Stuck(c)), Skip.Stuck(t)))


iv.body = _iv
ia.body = lambda t: z3.If(isid(t, 'ARRE'), Skip.Past(tend(T(t))), _more(iv(t), ia, 'ARRE'))
io.body = _io
T_ONLY = ('T', 'numval', 'numend', 'wordval', 'wordend', 'D')


class IgnoreBase(OnTokens):
    fuel = 2
    opaque = T_ONLY
    order = 0
    spec = None

    def of(self, t):
        raise NotImplementedError

    def split(self, c):
        r = self.of(self.t0(c))
        return [('ok', Skip.is_Past(r)), ('bad', Skip.is_Stuck(r))]

    def rank(self, c):
        return 'ignore', [rem(self.t0(c)), z3.IntVal(self.order)]

    def havoc(self, c):
        r = self.of(self.t0(c))
        self.move(c, Skip.spos(r) if c.case == 'ok' else Skip.sat(r) if c.case == 'bad' else None)
        if c.case != 'ok':
            self.err_havoc(c)
        return fresh('ret', B32)

    def post(self, c):
        R = rt(c.ex)
        r = self.of(self.t0(c))
        t1 = self.t1(c)
        ret = bv(c.ret, 32)
        ok = Skip.is_Past(r)
        return [('succeeds exactly when one whole value follows', (ret == R.res['PGR_OK']) == ok),
                ('returns OK or ERROR', z3.Or(ret == R.res['PGR_OK'], ret == R.res['PGR_ERROR'])),
                ('stands behind the value', z3.Implies(ok, t1 == Skip.spos(r))),
                ('stands on the offending token', z3.Implies(z3.Not(ok), t1 == Skip.sat(r))),
                ('the error names the offending token', z3.Implies(z3.Not(ok), self.err_at(c, t1))),
                ('no error is recorded otherwise', z3.Implies(ok, self.err_same(c))),
                ('tokens are taken up', rem(t1) <= rem(self.t0(c))),
                ('a value takes up a token', z3.Implies(ok, rem(t1) < rem(self.t0(c))))] + self.inv(c, c.st1)

    def loop(self, spec, fn, name):
        def inv(L):
            c = L.view
            c = View(L.ex, L.st, L.st, L.st.frames[0].args)
            c.st0, c.st1 = L.st, L.st
            me = self
            t, t0 = L['t'], L.ent('t')
            e = View(L.ex, L.st0, L.st, L.st.frames[0].args)
            return [('the rest is skipped alike', spec(t) == spec(t0)), ('progress', z3.Or(t == t0, rem(t) < rem(t0))),
                    ('no error so far', me.err_same(e))] + me.inv(c, L.st)
        return LoopSpec(name, {'t': ('ghost:t', [])}, inv, lambda L: rem(L['t']), fn=fn)

    @property
    def loops(self):
        return [self.loop(ia, r'ignore_(array|value)', 'elements skipped'), self.loop(io, r'ignore_(object|value)', 'members skipped')]


class IgnoreArray(IgnoreBase):
    name = 'tokenizer::ignore_array'
    rx = r'^protogen\w*::internal::tokenizer::ignore_array\('
    uses = ('Next', 'Expect', 'TokError', 'IgnoreValue', 'IgnoreArray', 'IgnoreObject')
    order = 0

    def of(self, t):
        return z3.If(isid(t, 'ARRS'), ia(tend(T(t))), Skip.Stuck(t))


class IgnoreObject(IgnoreBase):
    name = 'tokenizer::ignore_object'
    rx = r'^protogen\w*::internal::tokenizer::ignore_object\('
    uses = ('Next', 'Expect', 'TokError', 'IgnoreValue', 'IgnoreArray', 'IgnoreObject')
    order = 0

    def of(self, t):
        return z3.If(isid(t, 'OBJS'), io(tend(T(t))), Skip.Stuck(t))


class IgnoreValue(IgnoreBase):
    name = 'tokenizer::ignore_value'
    rx = r'^protogen\w*::internal::tokenizer::ignore(_value)?\('
    uses = ('Next', 'Expect', 'TokError', 'IgnoreValue', 'IgnoreArray', 'IgnoreObject')
    order = 1

    def find(self, mod):
        return [n for n in mod.find(self.rx) if 'ignore_value' in mod.demangle(n)]

    def of(self, t):
        return iv(t)


AXIOMS = [token_axioms]
