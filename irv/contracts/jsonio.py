"""Contracts of repeated fields and messages as JSON: write and read (P08, P10, P11, P21).

wtext(k, t, sn, asc) is the text a value t of kind k is written as, wok whether it can be written; the text of a
string is named by `stext` (its relation to the string is proved in strings.py).  rd(k, t, old) is what reading a
value of kind k at token t into a value `old` gives: ok, null or an offending token.
"""
from .base import *
from .kinds import *
from .kinds import MODELS as _VM
from .strings import Writer, VU
from .read import JRead, isid, tval, T, numvalue, locale_state, MODELS as _LM, AXIOMS, T_ONLY
from .token import tend, tid, tline, tcol, iv, Skip, ID, setids
from . import values, base64
from .values import numtext, J
from .messages import ELEMS, SAMPLE, vecrx, leaf_uses, SHORT

true, false = z3.BoolVal(True), z3.BoolVal(False)
stext = Spec('stext', [BOOL, Str], Str)
stext.body = None
C0 = z3.BitVecVal(0, 64)


def cats(t, *xs):
    for x in xs:
        t = strlit(x, t) if isinstance(x, str) else z3.If(false, t, t) if x is None else mkcat(t, x)
    return t


# ---------------------------------------------------------------- what is written
def b64text(s):
    n, m = slen(s), base64.whole(s)
    e = base64.enc(base64.Q, s, m)
    return z3.If(n == m, Snoc(e, base64.QUOTE), z3.If(n == m + 1, base64.snocs(e, base64.tail64(s, m, 1) + [base64.QUOTE]),
                                                      base64.snocs(e, base64.tail64(s, m, 2) + [base64.QUOTE])))


_wspec = {}


def wspec(k):
    """(text, ok) specification functions of a repeated field or message kind"""
    tag = k.tag
    if tag in _wspec:
        return _wspec[tag]
    if isinstance(k, VecK):
        q, ek = k.q, k.ek
        jt = Spec('jt_' + tag, [q.sort, B64, BOOL, BOOL], Str)       # '[' and the first n elements
        ja = Spec('ja_' + tag, [q.sort, B64, BOOL, BOOL], BOOL)      # the elements from i on can be written
        _wspec[tag] = (jt, ja)

        def body(t, n, sn, asc):
            lead = z3.If(n == 1, strlit('['), strlit(',', jt(t, n - 1, sn, asc)))
            return z3.If(n == 0, strlit('['), cat(lead, wtext(ek, q.at(t, n - 1), sn, asc)))
        jt.body = body
        ja.body = lambda t, i, sn, asc: z3.If(z3.UGE(i, q.len(t)), true, z3.And(wok(ek, q.at(t, i), sn, asc), ja(t, i + 1, sn, asc)))
    else:
        wm = Spec('wm_' + k.mname, [k.sort, BOOL, BOOL], Str)
        wk = Spec('wk_' + k.mname, [k.sort, BOOL, BOOL], BOOL)
        _wspec[tag] = (wm, wk)
        wm.body = lambda m, sn, asc: msg_text(k, m, sn, asc)
        wk.body = lambda m, sn, asc: z3.And(*[z3.Implies(z3.Or(sn, z3.Not(f.tempty(k.get(m, n)))), wok(f, k.get(m, n), sn, asc)) for n, f, js, tr in k.fields if not tr])
    return _wspec[tag]


ORDER = {}       # order of the members, from the layout of the generated struct


def in_order(k):
    o = ORDER.get(k.mname)
    fs = [f for f in k.fields if not f[3]]
    return sorted(fs, key=lambda f: o[f[0]]) if o else fs


def msg_text(k, m, sn, asc):
    out, first = strlit('{'), true
    for n, f, js, tr in in_order(k):
        v = k.get(m, n)
        inc = z3.Or(sn, z3.Not(f.tempty(v)))
        lead = z3.If(first, strlit('"' + js + '":', out), strlit(',"' + js + '":', out))
        out = z3.If(inc, cat(lead, wtext(f, v, sn, asc)), out)
        first = z3.And(first, z3.Not(inc))
    return strlit('}', out)


def wtext(k, t, sn, asc):
    if isinstance(k, PlainK):
        return numtext(k.ty, t)
    if isinstance(k, WrapK):
        return z3.If(k.o.is_some(t), stext(asc, k.o.the(t)) if k.ty == 'string' else numtext(k.ty, k.o.the(t)), strlit('null'))
    if isinstance(k, BlobK):
        return b64text(t)
    if isinstance(k, VecK):
        return Snoc(wspec(k)[0](t, k.q.len(t), sn, asc), z3.BitVecVal(93, 8))
    return wspec(k)[0](t, sn, asc)


def wok(k, t, sn, asc):
    if isinstance(k, WrapK) and k.ty == 'string':
        return z3.Implies(z3.And(k.o.is_some(t), asc), VU(k.o.the(t), C0))
    if isinstance(k, VecK):
        return wspec(k)[1](t, C0, sn, asc)
    if isinstance(k, MsgK):
        return wspec(k)[1](t, sn, asc)
    return true


class StrText(values.StrFieldWrite):
    """json<string_field>::write with its text named: proved as values.StrFieldWrite, except that the text is a
    function of the string and of ensure_ascii"""
    assumed = 'values.StrFieldWrite'
    assumes = 'the text json<std::string>::write appends is a function of the string and of ensure_ascii (it is called in no other state)'

    def post(self, c):
        L, p = self.L, c.args[1]
        s = L.isset(c.ex, c.st0, p)
        ok = bv(c.ret, 32) == rt(c.ex).res['PGR_OK']
        return super().post(c) + [('the text', z3.Implies(z3.And(s, ok), self.w(c) == stext(self.par(c, 'ensure_ascii'), L.val(c.ex, c.st0, p))))]


class KWrite(Writer):
    """write of a repeated field or message"""
    fuel = 1
    K = None

    def init(self, ex):
        ORDER.clear()
        for k in TYPE.values():
            if k.fields:
                ORDER[k.mname] = k.lay(ex)[0]

    def setups(self, ex):
        st = State()
        p = self.ctx(ex, st)
        v = ex.new_obj(st, 'value', 'raw', self.K.size(ex))
        self.K.put(ex, st, Ptr(v, 0))
        if self.K.fp:
            locale_state(ex, st)
        yield '', st, [p, Ptr(v, 0)]

    def pre(self, c):
        return [('the value is valid', self.K.inv(c.ex, c.st0, c.args[1]))]

    def flags(self, c):
        return self.par(c, 'serialize_null'), self.par(c, 'ensure_ascii')

    def post(self, c):
        t = self.K.load(c.ex, c.st0, c.args[1])
        sn, asc = self.flags(c)
        ok = bv(c.ret, 32) == rt(c.ex).res['PGR_OK']
        return self.status(c, wok(self.K, t, sn, asc)) + [('what is written', z3.Implies(ok, self.w(c) == wtext(self.K, t, sn, asc)))]


def code_same(me, L):
    """no error was recorded since the call"""
    a = L.st.frames[0].args
    return me.code(View(L.ex, L.st0, L.st, a)) == me.code(View(L.ex, L.st0, L.st, a), True)


class VecWrite(KWrite):
    variants = 2            # the comma is written after an element, or before the next one

    @property
    def loops(self):
        me, q = self, self.K.q
        jt, ja = wspec(self.K)

        def inv(pos):
            def f(L):
                a = L.st.frames[0].args
                t = me.K.load(L.ex, L.st, a[1])
                sn, asc = me.flags(View(L.ex, L.st, L.st, a))
                k, n = pos(L), q.len(t)
                now = jt(t, k, sn, asc)
                if me.variant == 0:
                    now = z3.If(z3.And(z3.UGT(k, 0), z3.ULT(k, n)), strlit(',', now), now)
                r = [('index in range', z3.ULE(k, n)), ('text so far', L['out'] == now),
                     ('what is left', ja(t, k, sn, asc) == ja(t, C0, sn, asc)), ('no error so far', code_same(me, L))]
                if 'count' in L._b:
                    r.append(('counter', L['count'] == z3.If(L.ent('count') == 0, k, n - k)))
                if 'first' in L._b:         # set, or cleared, by the first element
                    b = lambda v: z3.Extract(0, 0, bv(v, 8))
                    e = b(L.ent('first'))
                    r.append(('first element', b(L['first']) == z3.If(k == C0, e, ~e)))
                return r
            return f
        its = ['it', '__begin', '__begin1', '__begin2', '__begin3']
        ms = lambda pos: lambda L: q.len(me.K.load(L.ex, L.st, L.st.frames[0].args[1])) - pos(L)
        iti, ii = (lambda L: bv(L['it'].off, 64)), (lambda L: L['i'])
        R = {'out': ('ghost:out', [])}
        out = []
        mv = ('it', 'i', 'count', 'first')
        for first in (True, False):
            f = {'first': ('i8', ['first'])} if first else {}
            out += [LoopSpec('elements written', dict(R, it=('ptr', its), count=('i64', ['i']), **f), inv(iti), ms(iti), moving=mv),
                    LoopSpec('elements written (iterator)', dict(R, it=('ptr', its), **f), inv(iti), ms(iti), moving=mv),
                    LoopSpec('elements written (index)', dict(R, i=('i64', ['i']), **f), inv(ii), ms(ii), moving=mv)]
        return out


class MsgWrite(KWrite):
    join = True

    @property
    def opaque(self):
        return tuple(s.f.name() for k, p in _wspec.items() if k != self.K.tag for s in p) + ('F', 'VU', 'take', 'cat', 'slen', 'at', 'b64enc') + tuple(s.f.name() for s in values.NTEXT.values())


VECWRITE, MSGWRITE, VECREAD, MSGREAD = [], [], [], []


def make(base, nm, lst, **kw):
    kw['cost'] = len(getattr(kw.get('K'), 'fields', ())) + (50 if 'Msg' in base.__name__ else 0)
    globals()[nm] = type(nm, (base,), kw)
    lst.append('jsonio.' + nm)


def rw_use(k, op):
    """contract of json<k>::op, as a use"""
    if isinstance(k, PlainK):
        return 'values.Write' + SHORT[k.ty] if op == 'Write' else 'read.Read' + SHORT[k.ty]
    if isinstance(k, WrapK):
        if k.ty == 'string':
            return 'StrText' if op == 'Write' else 'values.StrFieldRead'
        return 'values.%s%sField' % (op, SHORT[k.ty])
    if isinstance(k, BlobK):
        return 'base64.' + op
    if isinstance(k, VecK):
        return 'Vec%s%s' % ([n for n, e in VECS if kind_of(SAMPLE.get(e, e)).tag == k.ek.tag][0], op)
    return 'Msg%s%s' % (k.mname, op)


VECS = ELEMS + [('Pair', 'vf::Pair')]
for nm, el in VECS:
    K = VecK(kind_of(SAMPLE.get(el, el)))
    wspec(K)
    make(VecWrite, 'Vec%sWrite' % nm, VECWRITE, name='json<vector<%s>>::write' % SAMPLE.get(el, el), rx=J + vecrx(el) + r', void>::write\(', K=K, uses=(rw_use(K.ek, 'Write'),))
for name, K in TYPE.items():
    wspec(K)
    u = {rw_use(k, 'Write') for _, k, _, tr in K.fields if not tr} | {'messages.' + x if '.' not in x else x for x in (leaf_uses(k, 'empty') for _, k, _, tr in K.fields if not tr)}
    make(MsgWrite, 'Msg%sWrite' % name, MSGWRITE, name='json<%s_type>::write' % name, rx=J + r'vf::%s_type, void>::write\(' % name, K=K, uses=tuple(sorted(u)))

MODELS = _VM + list(_LM)


# ---------------------------------------------------------------- what is read
class R:
    """outcome of reading a value: ok -> val, standing at end; null -> nval, standing where it stood; else stuck at `at`"""

    def __init__(self, ok, val, end, null, nval, at):
        self.ok, self.val, self.end, self.null, self.nval, self.at = ok, val, end, null, nval, at


_rspec = {}


def rdt(tag, sort):
    d = z3.Datatype('Rd_' + tag)
    d.declare('Done_' + tag, ('val_' + tag, sort), ('end_' + tag, INT))
    d.declare('Null_' + tag, ('nval_' + tag, sort))
    d.declare('Stuck_' + tag, ('at_' + tag, INT))
    D = d.create()
    g = lambda n: getattr(D, n + '_' + tag)
    D.done, D.nul, D.stuck = g('Done'), g('Null'), g('Stuck')
    D.view = lambda r: R(g('is_Done')(r), g('val')(r), g('end')(r), g('is_Null')(r), g('nval')(r), g('at')(r))
    return D


class RSpec:
    """reading of a repeated field (whole: rd, elements: more) or of a message (rd, members: more, one member: field)"""


def rspec(k):
    if k.tag in _rspec:
        return _rspec[k.tag]
    s = _rspec[k.tag] = RSpec()
    tag = k.tag
    s.D = D = rdt(tag, k.sort)
    nxt = lambda t: tend(T(t))
    s.rd = Spec('rd_' + tag, [INT, k.sort], D)
    s.more = Spec('more_' + tag, [INT, k.sort], D)
    opens, closes = ('ARRS', 'ARRE') if isinstance(k, VecK) else ('OBJS', 'OBJE')
    s.rd.body = lambda t, old: z3.If(isid(t, 'NIL'), D.nul(old), z3.If(z3.Not(isid(t, opens)), D.stuck(t),
                                     z3.If(isid(nxt(t), closes), D.done(old, nxt(nxt(t))), s.more(nxt(t), old))))
    then = lambda p, v: z3.If(isid(p, 'COMMA'), s.more(nxt(p), v), z3.If(isid(p, closes), D.done(v, nxt(p)), D.stuck(p)))
    if isinstance(k, VecK):
        def more(t, acc):
            r = rd(k.ek, t, k.ek.new())
            return z3.If(r.ok, then(r.end, k.q.snoc(acc, r.val)), z3.If(r.null, then(nxt(t), acc), D.stuck(r.at)))
        s.more.body = more
        return s
    s.field = Spec('field_' + tag, [Str, INT, k.sort], D)

    def more(t, m):
        c = nxt(t)
        v = nxt(c)
        r = D.view(s.field(tval(T(t)), v, m))
        sk = iv(v)
        return z3.If(z3.Not(isid(t, 'STRING')), D.stuck(t), z3.If(z3.Not(isid(c, 'COLON')), D.stuck(c),
                     z3.If(r.ok, then(r.end, r.val), z3.If(r.null, z3.If(Skip.is_Past(sk), then(Skip.spos(sk), r.nval), D.stuck(Skip.sat(sk))), D.stuck(r.at)))))
    s.more.body = more

    def field(name, t, m):
        out = D.nul(m)
        for f, fk, js, tr in k.fields:
            if tr:
                continue
            r = rd(fk, t, k.get(m, f))
            put = lambda v: k.mk(*[v if g == f else k.get(m, g) for g, _, _, _ in k.fields])
            out = z3.If(name == strlit(js), z3.If(r.ok, D.done(put(r.val), r.end), z3.If(r.null, D.nul(put(r.nval)), D.stuck(r.at))), out)
        return out
    s.field.body = field
    return s


def rd(k, t, old):
    nil, end = isid(t, 'NIL'), tend(T(t))
    if isinstance(k, (PlainK, WrapK)):
        if k.ty == 'string':
            return R(isid(t, 'STRING'), k.o.some(tval(T(t))), end, nil, k.o.none, t)
        if k.ty == 'bool':
            ok, v = isid(t, 'BTRUE', 'BFALSE'), z3.If(isid(t, 'BTRUE'), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        else:
            ok, v = isid(t, 'NUMBER'), numvalue(k.ty, tval(T(t)))
        return R(ok, v if isinstance(k, PlainK) else k.o.some(v), end, nil, old, t)
    if isinstance(k, BlobK):
        d = base64.dec(tval(T(t)), base64.Z, old)
        return R(z3.And(isid(t, 'STRING'), base64.R64.is_Bytes(d)), base64.data(d), end, nil, old, t)
    s = rspec(k)
    return s.D.view(s.rd(t, old))


class KRead(JRead):
    """read of a repeated field or message into what is there"""
    K = None
    fuel = 1
    which = 'rd'

    def values(self, ex, st):
        o = ex.new_obj(st, 'value', 'raw', self.K.size(ex))
        self.K.put(ex, st, Ptr(o, 0))
        if self.K.fp:
            locale_state(ex, st)
        yield '', Ptr(o, 0)

    vi = 1

    def r(self, c):
        return rd(self.K, self.t0(c), self.K.load(c.ex, c.st0, c.args[self.vi]))

    def pre(self, c):
        return super().pre(c) + [('the value is valid', self.K.inv(c.ex, c.st0, c.args[self.vi]))]

    def split(self, c):
        r = self.r(c)
        return [('ok', r.ok), ('nil', z3.And(r.null, z3.Not(r.ok))), ('bad', z3.Not(z3.Or(r.ok, r.null)))]

    def havoc(self, c):
        r = self.r(c)
        p = c.args[self.vi]
        if c.case in ('ok', None):
            self.move(c, r.end)
        elif c.case == 'bad':
            self.move(c, r.at)
        if c.case in ('bad', None):
            self.err_havoc(c)
        if c.case == 'ok':
            self.K.store(c.ex, c.st1, p, r.val)
        elif c.case == 'nil':
            self.K.store(c.ex, c.st1, p, r.nval)
        else:
            self.K.put(c.ex, c.st1, p)
        c.mods |= self.K.keys(c.ex, p)
        G = rt(c.ex).res
        return {'ok': G['PGR_OK'], 'nil': G['PGR_NIL'], 'bad': G['PGR_ERROR']}.get(c.case) if c.case else fresh('ret', B32)

    def post(self, c):
        G = rt(c.ex).res
        K, t, t1, r = self.K, self.t0(c), self.t1(c), self.r(c)
        p = c.args[self.vi]
        ret = bv(c.ret, 32)
        ok, nil = r.ok, z3.And(r.null, z3.Not(r.ok))
        bad = z3.Not(z3.Or(ok, nil))
        now = K.load(c.ex, c.st1, p)
        out = [('OK exactly for a well-formed value', (ret == G['PGR_OK']) == ok), ('NIL exactly for null', (ret == G['PGR_NIL']) == nil),
               ('returns OK, ERROR or NIL', z3.Or(*[ret == G[x] for x in ('PGR_OK', 'PGR_ERROR', 'PGR_NIL')])),
               ('stands behind the value', z3.Implies(ok, t1 == r.end)), ('null is left in place', z3.Implies(nil, t1 == t)),
               ('stands on the offending token', z3.Implies(bad, t1 == r.at)), ('the error names the offending token', z3.Implies(bad, self.err_at(c, r.at))),
               ('no error is recorded otherwise', z3.Implies(z3.Not(bad), self.err_same(c))),
               ('the value is what the document says', z3.Implies(ok, now == r.val)), ('after null', z3.Implies(nil, now == r.nval)),
               ('tokens are taken up', rem(t1) <= rem(t)), ('a value takes up a token', z3.Implies(ok, rem(t1) < rem(t))),
               ('the value stays valid', K.inv(c.ex, c.st1, p))]
        return out + self.inv(c, c.st1)

    def rest(self, spec, fn, name):
        """loop over what remains of the array or object"""
        def inv(L):
            a = L.st.frames[0].args
            c = View(L.ex, L.st, L.st, a)
            e = View(L.ex, L.st0, L.st, a)
            p = a[self.vi]
            t, t0 = L['t'], L.ent('t')
            return [('the rest is read alike', spec(t, self.K.load(L.ex, L.st, p)) == spec(t0, self.K.load(L.ex, L.st0, p))),
                    ('progress', z3.Or(t == t0, rem(t) < rem(t0))), ('no error so far', self.err_same(e)), ('value valid', self.K.inv(L.ex, L.st, p))] + self.inv(c, L.st)
        return LoopSpec(name, {'t': ('ghost:t', [])}, inv, lambda L: rem(L['t']), fn=fn)


def others(tag, *own):
    """specification functions not unfolded in the proof about the kind `tag`"""
    out = list(T_ONLY) + ['iv', 'ia', 'io', 'b64dec']
    for k, s in _rspec.items():
        for n in ('rd', 'more', 'field'):
            if hasattr(s, n) and (k != tag or n not in own):
                out.append(getattr(s, n).f.name())
    return tuple(out)


class VecRead(KRead):
    @property
    def opaque(self):
        # null elements are skipped as one token, so what is null has to be known
        e = _rspec.get(self.K.ek.tag)
        return tuple(x for x in others(self.K.tag, 'rd', 'more') if e is None or x != e.rd.f.name())

    @property
    def loops(self):
        return [self.rest(rspec(self.K).more, r'::read\(', 'elements read')]


class MsgRead(KRead):
    @property
    def opaque(self):
        return others(self.K.tag, 'rd', 'more')

    @property
    def loops(self):
        return [self.rest(rspec(self.K).more, r'read_object|::read\(', 'members read')]


class MsgField(KRead):
    """read_field(ctx, name, value)"""
    vi = 2

    @property
    def opaque(self):
        return others(self.K.tag, 'field') + ('slen', 'at', 'cat')

    def setups(self, ex):
        for lb, st, (p, v) in super().setups(ex):
            n = ex.new_obj(st, 'name', 'raw', 32)
            rt(ex).strv(ex, st, Ptr(n, 0), 'name')
            yield lb, st, [p, Ptr(n, 0), v]

    def r(self, c):
        s = rspec(self.K)
        return s.D.view(s.field(c.s0(c.args[1]), self.t0(c), self.K.load(c.ex, c.st0, c.args[2])))


for nm, el in VECS:
    K = VecK(kind_of(SAMPLE.get(el, el)))
    rspec(K)
    new = {'Int': (), 'Str': ('fields.StrDefault',), 'Inner': ('messages.NewInner',), 'Pair': ('messages.NewPair',)}.get(nm, ())
    make(VecRead, 'Vec%sRead' % nm, VECREAD, name='json<vector<%s>>::read' % SAMPLE.get(el, el), rx=J + vecrx(el) + r', void>::read\(', K=K, uses=JRead.uses + (rw_use(K.ek, 'Read'),) + new)
for name, K in TYPE.items():
    rspec(K)
    make(MsgField, 'Msg%sField' % name, MSGREAD, name='json<%s_type>::read_field' % name, rx=J + r'vf::%s_type, void>::read_field\(' % name, K=K,
         uses=tuple(sorted({rw_use(k, 'Read') for _, k, _, tr in K.fields if not tr})))
    make(MsgRead, 'Msg%sRead' % name, MSGREAD, name='json<%s_type>::read' % name, rx=J + r'vf::%s_type, void>::read\(' % name, K=K,
         uses=JRead.uses + ('token.IgnoreValue', 'Msg%sField' % name))


# ---------------------------------------------------------------- std::unordered_map<std::string, int> built from a list (assumed)
class MapCell(Abs):
    kind = 'map'

    def same(self, o):
        return self is o


UM = r'std::unordered_map<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >, int, .*>::'


def map_ctor(ex, st, a, d):
    p, n = a[1], a[2]
    if not isinstance(n, int) or not isinstance(p, Ptr) or not isinstance(p.off, int):
        raise Unsupported('map from a list of unknown length')
    ents = []
    for i in range(n):
        e = p.add(40 * i)
        ents.append((ex.get_str(st, e), ex.load(st, e.add(32), ('i', 32))))
    oid = ex.new_obj(st, 'mapdata', 'sdata', None)
    ex.put(st, a[0].obj, a[0].off, MapCell(None, ents=ents, end=oid), 56)
    return None


def map_find(ex, st, a, d):
    m = ex.abs_at(st, a[0], 'map')
    key = ex.get_str(st, a[1])
    out = []
    for k, v in m.kw['ents']:
        s = st.clone()
        s.assume(key == k)
        if ex.feasible(s):
            o = ex.new_obj(s, 'entry', 'raw', 40)
            ex.put(s, o, 0, AbsStr(k), 32)
            ex.put(s, o, 32, v, 4)
            out.append((s, Ptr(o, 0)))
        st.assume(key != k)
    if ex.feasible(st):
        out.append((st, Ptr(m.kw['end'], 0)))
    return out


def map_end(ex, st, a, d):
    return Ptr(ex.abs_at(st, a[0], 'map').kw['end'], 0)


def node_ptr(ex, st, a, d):
    return ex.load(st, a[0], 'ptr')


def node_cmp(ex, st, a, d):
    x, y = ex.load(st, a[0], 'ptr'), ex.load(st, a[1], 'ptr')
    return int((x.obj == y.obj) == ('operator==' in d))


MODELS = [(UM + r'unordered_map\(std::initializer_list<', map_ctor), (UM + r'find\(', map_find), (UM + r'c?end\(', map_end),
          (r'std::__detail::operator(==|!=)\(std::__detail::_Node_iterator_base<', node_cmp),
          (r'std::__detail::_Node_(const_)?iterator<.*::operator(->|\*)\(', node_ptr)] + MODELS


# ---------------------------------------------------------------- whole documents
class Doc(Contract):
    """deserialize/serialize of an object on the stream interfaces"""
    fuel = 1
    K = None            # kind of the object
    V = None            # kind of the value in it, `at` bytes behind its start
    at = 0

    def setups(self, ex):
        for lb in ('', ' (no parameters)'):
            st = State()
            setids(ex)
            o = ex.new_obj(st, 'object', 'raw', self.K.size(ex))
            self.K.put(ex, st, Ptr(o, 0))
            if self.K.fp:
                locale_state(ex, st)
            yield lb, st, [Ptr(o, 0), Ptr(self.io(ex, st), 0), rt(ex).params(ex, st) if not lb else NULL]

    def v(self, c):
        return c.args[0].add(self.at)

    def pre(self, c):
        return [('the object is valid', self.K.inv(c.ex, c.st0, c.args[0]))]

    def p(self, c):
        return c.args[2] if c.args[2].obj is not None else None

    def err(self, c, f):
        R = rt(c.ex)
        return c.i1(self.p(c).add(R.par['error'] + R.err[f]), 32)

    def frame(self, c):
        if self.p(c):
            R = rt(c.ex)
            e = self.p(c).add(R.par['error'])
            for f in ('code', 'line', 'column'):
                c.h_int(e.add(R.err[f]), 32)
            c.h_str(e.add(R.err['message']))

    def codes(self, c, ok):
        if not self.p(c):
            return []
        return [('the error code says whether it failed', (self.err(c, 'code') == rt(c.ex).codes['PGERR_OK']) == ok)]


class DocRead(Doc):
    @property
    def opaque(self):
        return others('')

    def io(self, ex, st):
        return rt(ex).istream(ex, st)

    def r(self, c):
        return rd(self.V, c.st0.ghost[('q', c.args[1].obj)], self.V.load(c.ex, c.st0, self.v(c)))

    def havoc(self, c):
        self.V.put(c.ex, c.st1, self.v(c))
        c.mods |= self.K.keys(c.ex, c.args[0])
        c.h_ghost(('q', c.args[1].obj))
        self.frame(c)
        return fresh('ret', BOOL)

    def post(self, c):
        r, K = self.r(c), self.V
        ret, now = tobool(c.ret), K.load(c.ex, c.st1, self.v(c))
        t = c.st0.ghost[('q', c.args[1].obj)]
        at = z3.If(r.null, t, r.at)
        out = [('true exactly for a well-formed document of the right kind', ret == r.ok), ('the object is what the document says', z3.Implies(r.ok, now == r.val)),
               ('null is no document but leaves its mark', z3.Implies(z3.And(r.null, z3.Not(r.ok)), now == r.nval)),
               ('the object stays valid', self.K.inv(c.ex, c.st1, c.args[0]))] + self.codes(c, r.ok)
        if self.p(c):
            out.append(('the error names the position of the offending token', z3.Implies(z3.Not(r.ok), z3.And(self.err(c, 'line') == tline(T(at)), self.err(c, 'column') == tcol(T(at))))))
        return out


class DocWrite(Doc):
    @property
    def opaque(self):
        return tuple(s.f.name() for k, p in _wspec.items() for s in p) + ('F', 'VU', 'take', 'slen', 'at', 'b64enc') + tuple(s.f.name() for s in values.NTEXT.values())
    init = KWrite.init

    def io(self, ex, st):
        o = rt(ex).ostream(ex, st)
        st.ghost[('out', o)] = Nil
        return o

    def havoc(self, c):
        k = ('out', c.args[1].obj)
        w = c.aux['w'] = fresh('w', Str)
        c.mods.add(k)
        c.st1.ghost[k] = mkcat(c.st0.ghost[k], w)
        self.frame(c)
        return fresh('ret', BOOL)

    def post(self, c):
        R = rt(c.ex)
        flag = lambda n: c.i0(self.p(c).add(R.par[n]), 8) != 0 if self.p(c) else false
        sn, asc = flag('serialize_null'), flag('ensure_ascii')
        t = self.V.load(c.ex, c.st0, self.v(c))
        ok = wok(self.V, t, sn, asc)
        w = c.aux['w'] if 'w' in c.aux else c.st1.ghost[('out', c.args[1].obj)]
        return [('true exactly when the object can be written', tobool(c.ret) == ok), ('the document is written', z3.Implies(ok, w == wtext(self.V, t, sn, asc)))] + self.codes(c, ok)


DOCREAD, DOCWRITE = [], []
RU = ('token.Construct', 'token.TokError')
for name, E in ENT.items():
    make(DocRead, 'Doc%sRead' % name, DOCREAD, name='%s::deserialize(istream)' % name, rx=r'^vf::%s::deserialize\(protogen\w*::istream&' % name, K=E, V=TYPE[name], at=8,
         uses=RU + ('Msg%sRead' % name,))
    make(DocWrite, 'Doc%sWrite' % name, DOCWRITE, name='%s::serialize(ostream)' % name, rx=r'^vf::%s::serialize\(protogen\w*::ostream&' % name, K=E, V=TYPE[name], at=8,
         uses=('Msg%sWrite' % name,))
for nm, el in VECS:
    K = VecK(kind_of(SAMPLE.get(el, el)))
    m = {'Pair': r'IN2vf4PairES', 'Int': r'IiS'}.get(nm)
    if m:
        make(DocRead, 'Arr%sRead' % nm, DOCREAD, name='deserialize_array<%s>(istream)' % nm, rx=r'^_ZN\w*?17deserialize_arrayISt6vector' + m + r'.*EEEbR\w+_RNS_7istreamEPNS_10ParametersE$',
             K=K, V=K, uses=RU + ('Vec%sRead' % nm,))
        make(DocWrite, 'Arr%sWrite' % nm, DOCWRITE, name='serialize_array<%s>(ostream)' % nm, rx=r'^_ZN\w*?15serialize_arrayISt6vector' + m + r'.*EEEbRK\w+_RNS_7ostreamEPNS_10ParametersE$',
             K=K, V=K, uses=('Vec%sWrite' % nm,))
