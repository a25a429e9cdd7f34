"""Layout does not matter (P17): lemmas about the specification of the tokenizer (scan.py), by induction.

T is a text and V the text with something inserted at b: V has d characters more, agrees with T before b, and from b + d on is
what T is from b on.  What is inserted is layout: blanks, line breaks and complete comments.  The hypotheses say this only of
the positions an induction step looks at.  The tokens of a text, from a position on, are tokens(T, p); the tokenizer's
contract (scan.Next) says that one call delivers the first of them and moves on to the rest.
"""
from .scan import *
from .scan import lay, toks

complete = lambda T, p, e: z3.And(cstart(T, p), z3.ULE(cend(T, p), e), z3.Or(z3.Not(isc(T, p + 1, '/')), at(T, cend(T, p) - 1) == 10))
blank = sp('layout', [Str, B64, B64], BOOL, lambda T, p, e: z3.Or(p == e, z3.And(z3.ULT(p, e), z3.Or(z3.And(white(T, p), blank(T, p + 1, e)), z3.And(complete(T, p, e), blank(T, cend(T, p), e))))))
between = sp('between_tokens', [Str, B64, B64], BOOL, lambda T, p, b: z3.And(z3.ULE(p, b), z3.Or(blank(T, p, b), z3.And(
    z3.ULT(lay(T, p), b), z3.Not(tbad(T, lay(T, p))), z3.ULE(tend(T, lay(T, p)), b), between(T, tend(T, lay(T, p)), b)))))


class Layout(Lemma):
    fuel = 2
    axioms = (part_axioms,)         # lemmas scan.Parts and scan.Runs

    def texts(self):
        self.T, self.V, self.b, self.d = fresh('T', Str), fresh('V', Str), fresh('b', B64), fresh('d', B64)
        n = slen(self.T)
        return [z3.ULT(n, TEXT), z3.ULT(self.d, TEXT), z3.ULE(self.b, n), slen(self.V) == n + self.d]

    def after(self, *ps):
        return [z3.Implies(z3.And(z3.ULE(self.b, p), z3.ULT(p, slen(self.T))), at(self.V, p + self.d) == at(self.T, p)) for p in ps]

    def before(self, *ps):
        return [z3.Implies(z3.ULT(p, self.b), at(self.V, p) == at(self.T, p)) for p in ps]


class Shift(Layout):
    """from b on, everything is d characters further on, and the same"""
    name = 'tokens depend only on the text from there on'

    def cases(self):
        H = self.texts()
        T, V, b, d = self.T, self.V, self.b, self.d
        p = fresh('p', B64)
        H += [z3.ULE(b, p), z3.ULE(p, slen(T) + 4)] + self.after(p, p + 1)
        F = lambda f, p: f(V, p + d) == f(T, p) + d
        Q = lambda f, p: f(V, p + d) == f(T, p)
        for f in (ws, nend, iend, eol, eoc, send):
            yield f.name, H + [F(f, p + 1), F(f, p + 2)], F(f, p), 1
        yield open_.name, H + [Q(open_, p + 1), Q(open_, p + 2)], Q(open_, p), 1
        e = nend(T, p + 1)
        yield aend.name, H + [F(nend, p + 1), F(aend, e)], F(aend, p), 1
        yield abad.name, H + [F(nend, p + 1), Q(abad, e)], Q(abad, p), 1


class ShiftTokens(Layout):
    """lemma Shift for the ends of runs of characters gives it for layout, tokens and their values"""
    name = 'values and ends of tokens depend only on the text from there on'

    def cases(self):
        H = self.texts()
        T, V, b, d = self.T, self.V, self.b, self.d
        p = fresh('p', B64)
        H += [z3.ULE(b, p), z3.ULE(p, slen(T) + 4)] + self.after(p, p + 1)
        F = lambda f, p: f(V, p + d) == f(T, p) + d
        Q = lambda f, p: f(V, p + d) == f(T, p)
        q = ws(T, p)
        yield lay.name, H + self.after(q, q + 1) + [z3.ULE(b, q), z3.ULE(q, slen(T) + 4), F(ws, p), F(eol, q + 2), F(eoc, q + 2), Q(open_, q + 2), F(lay, cend(T, q))], F(lay, p), 1
        e, a, i, s = nend(T, p), aend(T, nend(T, p)), iend(T, p), send(T, p + 1)
        R = [F(nend, p), F(aend, e), F(iend, p), F(send, p + 1), Q(abad, e)]
        yield tend.name, H + R, F(tend, p), 1
        yield tbad.name, H + R + self.after(s) + [z3.ULE(b, s)], Q(tbad, p), 1
        x, y = fresh('x', B64), fresh('y', B64)
        S = lambda y: sub(V, x + d, y + d) == sub(T, x, y)
        yield sub.name, H + self.after(y - 1) + [z3.ULE(b, x), z3.ULT(x, TEXT), z3.ULE(y, slen(T)), z3.Implies(z3.ULT(x, y), S(y - 1))], S(y), 1
        sub_ = lambda x, y: z3.Implies(z3.ULE(y, slen(T)), sub(V, x + d, y + d) == sub(T, x, y))
        R += [sub_(p, e), sub_(p, tend(T, p)), sub_(p + 1, tend(T, p) - 1), z3.Not(tbad(T, p)), z3.ULE(tend(T, p), slen(T)), F(tend, p), z3.ULE(e, slen(T)), z3.ULE(b, e)] + self.after(e)
        yield 'the kind of a token', H + R + [inn(T, p)], tcode(V, p + d) == tcode(T, p), 1
        yield tval.name, H + R + [inn(T, p)], Q(tval, p), 1
        q = lay(T, p)
        D = z3.And(inn(T, q), z3.Not(tbad(T, q)))
        yield 'a token that is not bad ends within the text', H + [inn(T, p), z3.Not(tbad(T, p))], z3.ULE(tend(T, p), slen(T))
        yield toks.name, H + [z3.ULE(p, slen(T)), F(lay, p), Q(tbad, q), z3.Implies(D, z3.And(tcode(V, q + d) == tcode(T, q), Q(tval, q), F(tend, q), Q(toks, tend(T, q))))], Q(toks, p), 1


class Skipped(Layout):
    """tokens begin after the layout; so those read from before it are those read from after it"""
    name = 'layout is skipped'

    def cases(self):
        T, p, e = fresh('T', Str), fresh('p', B64), fresh('e', B64)
        H = [z3.ULT(slen(T), TEXT), z3.ULE(e, slen(T))]
        G = lambda p: z3.Implies(blank(T, p, e), lay(T, p) == lay(T, e))
        yield 'from a position of it', H + [G(p + 1), G(cend(T, p))], G(p)
        r = fresh('r', B64)
        yield 'the tokens', H + [lay(T, p) == lay(T, r)], toks(T, p) == toks(T, r), 1


class Prefix(Layout):
    """what ends before b, or at b where a blank or a comment follows, is the same in both texts"""
    name = 'tokens before the insertion stay'

    def cases(self):
        H = self.texts()
        T, V, b, d = self.T, self.V, self.b, self.d
        p = fresh('p', B64)
        H += [z3.Or(white(V, b), isc(V, b, '/')), z3.UGT(d, 0), z3.ULE(p, b)] + self.before(p, p + 1)
        E = lambda f, p, c: z3.Implies(z3.And(z3.ULE(p, b), c(f(T, p), b)), f(V, p) == f(T, p))
        le, lt = z3.ULE, z3.ULT
        for f in (nend, iend):
            yield f.name, H + [E(f, p + 1, le)], E(f, p, le), 1
        yield ws.name, H + [E(ws, p + 1, lt)], E(ws, p, lt), 1
        yield send.name, H + [E(send, p + 1, lt)], E(send, p, lt), 1
        end = lambda p: z3.Implies(z3.And(z3.ULE(p, b), z3.ULE(eol(T, p), b), z3.Or(z3.ULT(eol(T, p), b), z3.And(z3.ULT(p, eol(T, p)), at(T, eol(T, p) - 1) == 10))), eol(V, p) == eol(T, p))
        yield eol.name, H + self.before(b - 1) + [end(p + 1), z3.ULE(p, eol(T, p)), z3.ULE(eol(T, p + 1), slen(T)), z3.Implies(z3.ULT(p, slen(T)), z3.ULE(p + 1, eol(T, p + 1)))], end(p), 2
        com = lambda p: z3.Implies(z3.And(z3.ULE(p, b), z3.ULE(eoc(T, p), b), z3.Not(open_(T, p))), z3.And(eoc(V, p) == eoc(T, p), z3.Not(open_(V, p))))
        yield eoc.name, H + [com(p + 1), z3.Implies(z3.ULE(p + 1, slen(T)), z3.ULE(p + 1, eoc(T, p + 1)))], com(p), 1
        e = nend(T, p + 1)
        dot = lambda e: z3.Implies(z3.And(z3.ULE(e, b), z3.ULE(aend(T, e), b), z3.Not(abad(T, e))), z3.And(aend(V, e) == aend(T, e), z3.Not(abad(V, e))))
        up = [z3.Implies(letter(T, p + 1), z3.ULT(p + 1, e)), z3.Implies(z3.ULE(e, slen(T)), z3.ULE(e, aend(T, e))), z3.Implies(z3.ULE(p + 1, slen(T)), z3.ULE(e, slen(T)))]
        yield aend.name, H + up + [E(nend, p + 1, le), dot(e)], dot(p), 1
        # a token at p
        e, s = nend(T, p), send(T, p + 1)
        ok = [z3.ULT(p, b), z3.Not(tbad(T, p)), z3.ULE(tend(T, p), b)]
        R = [E(nend, p, le), E(iend, p, le), E(send, p + 1, lt), dot(e), z3.ULE(e, aend(T, e)), z3.Implies(letter(T, p), z3.ULT(p, e)), z3.ULE(p + 1, s), z3.ULE(s, slen(T)), z3.ULE(e, slen(T))] + self.before(s, e)
        yield tend.name, H + ok + R, z3.And(tend(V, p) == tend(T, p), z3.Not(tbad(V, p)))
        x, y = fresh('x', B64), fresh('y', B64)
        S = lambda y: sub(V, x, y) == sub(T, x, y)
        yield sub.name, H + self.before(y - 1) + [z3.ULE(y, b), z3.Implies(z3.ULT(x, y), S(y - 1))], S(y), 1
        sub_ = lambda x, y: z3.Implies(z3.ULE(y, b), sub(V, x, y) == sub(T, x, y))
        R += [tend(V, p) == tend(T, p), sub_(p, e), sub_(p, tend(T, p)), sub_(p + 1, tend(T, p) - 1)]
        yield 'the kind of a token', H + ok + R, tcode(V, p) == tcode(T, p)
        yield tval.name, H + ok + R, tval(V, p) == tval(T, p)
        # the layout before a token that begins before b
        q, l = ws(T, p), lay(T, p)
        L = lambda p: z3.Implies(z3.And(z3.ULE(p, b), z3.ULT(lay(T, p), b), z3.Not(isc(T, lay(T, p), '/'))), lay(V, p) == lay(T, p))
        c = cend(T, q)
        up = [z3.ULE(p, q), z3.ULE(q, slen(T)), z3.Implies(cstart(T, q), z3.And(z3.ULE(q + 2, c), z3.ULE(c, slen(T)), z3.ULE(c, lay(T, c))))]
        yield lay.name, H + self.before(q, q + 1) + up + [E(ws, p, lt), end(q + 2), com(q + 2), L(c)], L(p), 1
        c = cend(T, p)
        W = lambda p: z3.Implies(blank(T, p, b), blank(V, p, b))
        R = H + self.before(c - 1) + [W(p + 1), W(c), z3.Implies(cstart(T, p), z3.ULE(p + 2, c))]
        line, block = isc(T, p + 1, '/'), isc(T, p + 1, '*')
        yield 'layout: a line comment', R + [line, end(p + 2)], W(p), 1
        yield 'layout: a block comment', R + [block, z3.Not(line), com(p + 2)], W(p), 1
        yield 'layout: no comment', R + [z3.Not(line), z3.Not(block)], W(p), 1


class Insert(Layout):
    """the same tokens, whatever layout is inserted between two of them, before the first or after the last"""
    name = 'inserted layout does not change the tokens'

    def cases(self):
        H = self.texts()
        T, V, b, d = self.T, self.V, self.b, self.d
        p = fresh('p', B64)
        H += [z3.UGT(d, 0), blank(V, b, b + d)]
        yield 'what is inserted begins with a blank or a comment', H, z3.Or(white(V, b), isc(V, b, '/'))
        H += [z3.ULE(p, b), between(T, p, b)]
        same = lambda p: toks(V, p) == toks(T, p)
        # lemma Skipped for both texts, lemma Prefix (layout), lemma Shift
        sk = lambda X, p, e: z3.Implies(blank(X, p, e), lay(X, p) == lay(X, e))
        tk = lambda X, p, r: z3.Implies(lay(X, p) == lay(X, r), toks(X, p) == toks(X, r))
        yield 'in the layout', H + [blank(T, p, b), blank(V, p, b), sk(T, p, b), sk(V, p, b), sk(V, b, b + d), tk(T, p, b), tk(V, p, b), tk(V, b, b + d), toks(V, b + d) == toks(T, b)], same(p), 1
        q = lay(T, p)
        tok = z3.Implies(z3.And(z3.ULT(q, b), z3.Not(tbad(T, q)), z3.ULE(tend(T, q), b)),
                         z3.And(lay(V, p) == q, tend(V, q) == tend(T, q), z3.Not(tbad(V, q)), tcode(V, q) == tcode(T, q), tval(V, q) == tval(T, q)))
        ih = z3.Implies(between(T, tend(T, q), b), same(tend(T, q)))
        yield 'at a token', H + [z3.Not(blank(T, p, b)), tok, ih], same(p), 1
        yield 'a token that is not bad does not begin with a slash', [inn(T, q), z3.Not(tbad(T, q))], z3.Not(isc(T, q, '/'))


LAYOUT = ['layout.Shift', 'layout.ShiftTokens', 'layout.Skipped', 'layout.Prefix', 'layout.Insert']
