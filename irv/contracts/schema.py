"""Contracts of the schema parser (P17, P18): from tokens to messages.

The parser is specified over the tokens still to come (a list, scan.toks), so that what it accepts and builds depends on
nothing else.  Messages are identities: the n-th message of a schema is n; its name, package, fields (as parsed, before
references to messages that come later are resolved) and options are functions of it, given when it joins the schema.
"""
from .base import *
from .kinds import *
from . import scan, gen
from .scan import chars, Toks, TK, TEOF, TBAD, toks, kb, kend, kv, kr, In, Tk, in_obj, put_token, tz_obj, in_of, cur_of, ungot_of, codes, numbers, mem, size_of, L_TZ, BITS, sp, Tz
from .gen import (members, sizeof, FIELD, INFO, ENTRY, FIELDS, REFS, RefK, OptsK, Opts, Entry, IntK, FlagK, fname, findex, ftype, mname, mpkg, mopts, nothing, cxa_alloc, cxa_throw, norm2,
                  ref_copy, ref_null, ref_isnull, ref_eq, SP, OM, FieldFn, AbsOpts)
from ..exec import THROW
from .printer import c_strtol
from ..stl import s2l

true, false = z3.BoolVal(True), z3.BoolVal(False)
Fs, Ms, Os = FIELDS.q.sort, REFS.q.sort, Opts
fq, mq = FIELDS.q, REFS.q
pfields = z3.Function('parsed_fields', INT, Fs)

# ---------------------------------------------------------------- the grammar, over lists of tokens
_mod = {}
K = lambda n: BITS(_mod['codes'][n], 32)
kc = lambda k: z3.If(Toks.is_TK(k), Toks.tk_code(k), K('EOF'))
kin = lambda k, *ns: z3.Or(*[kc(k) == K(n) for n in ns])
isk = lambda k, n: kc(k) == K(n)
TYPES = ['DOUBLE', 'FLOAT', 'INT32', 'INT64', 'UINT32', 'UINT64', 'SINT32', 'SINT64', 'FIXED32', 'FIXED64', 'SFIXED32', 'SFIXED64', 'BOOL', 'STRING', 'BYTES']
VALUES = {'TRUE': 'BOOLEAN', 'FALSE': 'BOOLEAN', 'NAME': 'IDENTIFIER', 'QNAME': 'IDENTIFIER', 'INTEGER': 'INTEGER', 'STRING': 'STRING'}


def grammar(mod):
    numbers(mod)
    ids, opts = {}, {}
    for v in mod.md.values():
        m = re.search(r'DIEnumerator\(name: "TYPE_(\w+)", value: (\d+)', v)
        if m:
            ids[m.group(1)] = int(m.group(2))
        m = re.search(r'DIEnumerator\(name: "(IDENTIFIER|STRING|INTEGER|BOOLEAN)", value: (\d+)', v)
        if m:
            opts[m.group(1)] = int(m.group(2))
    if not set(TYPES + ['MESSAGE']) <= set(ids) or set(opts) != set(VALUES.values()):
        raise Unsupported('other types')
    _mod.update(codes=codes(mod), types=ids, options=opts)


def cases(k, table, other):
    e = other
    for n, v in table:
        e = z3.If(isk(k, n), BITS(v, 32), e)
    return e


# an option: name = value
op_bad = sp('option_bad', [Toks], BOOL, lambda k: z3.Or(kb(k), z3.Not(kin(k, 'NAME', 'QNAME')), kb(kr(k)), z3.Not(isk(kr(k), 'EQUAL')), kb(kr(kr(k))), z3.Not(kin(kr(kr(k)), *VALUES))))
op_end = lambda k: kr(kr(kr(k)))
op_type = sp('option_type', [Toks], B32, lambda k: cases(k, [(n, _mod['options'][t]) for n, t in VALUES.items()], BITS(0, 32)))
op_entry = lambda k: Entry.Entry(kv(k), op_type(kr(kr(k))), kv(kr(kr(k))))
put = lambda o, e: Opts.Opt(o, e)
# an option of the schema or of a message, up to its semicolon
so_bad = lambda k: z3.Or(op_bad(k), kb(op_end(k)), z3.Not(isk(op_end(k), 'SCOLON')))
so_end = lambda k: kr(op_end(k))
# options of a field, up to the bracket
fo_next = lambda k: z3.If(isk(op_end(k), 'COMMA'), kr(op_end(k)), op_end(k))
fo_bad = sp('field_options_bad', [Toks], BOOL, lambda k: z3.Or(kb(k), z3.And(z3.Not(isk(k, 'RBRACKET')), z3.Or(op_bad(k), kb(op_end(k)), fo_bad(fo_next(k))))))
fo_end = sp('field_options_end', [Toks], Toks, lambda k: z3.If(isk(k, 'RBRACKET'), k, fo_end(fo_next(k))))
fo_opts = sp('field_options', [Toks, Os], Os, lambda k, o: z3.If(isk(k, 'RBRACKET'), o, fo_opts(fo_next(k), put(o, op_entry(k)))))
# messages by name
qual = lambda p, n: z3.If(p == Nil, n, cat(Snoc(p, BITS(ord('.'))), n))
qname = lambda m: qual(mpkg(m), mname(m))
findat = sp('find_message', [Ms, Str, B64], INT, lambda M, s, i: z3.If(z3.UGE(i, mq.len(M)), z3.IntVal(0), z3.If(qname(mq.at(M, i)) == s, mq.at(M, i), findat(M, s, i + 1))))
find = lambda M, s: findat(M, s, BITS(0, 64))
nid = sp('new_identity', [Ms], INT, lambda M: z3.If(M == mq.nil, z3.IntVal(1), nid(mq.front(M)) + 1))
plain = sp('identities', [Ms], BOOL, lambda M: z3.Or(M == mq.nil, z3.And(plain(mq.front(M)), mq.back(M) == nid(mq.front(M)))))
# a field
number = lambda s: z3.Extract(31, 0, s2l(s))
valid = lambda n: z3.And(n >= 1, n <= 536870911, z3.Or(n < 19000, n > 19999))
clash = sp('field_clashes', [Fs, B32, Str], BOOL, lambda F, i, n: z3.And(F != fq.nil, z3.Or(clash(fq.front(F), i, n), findex(fq.back(F)) == i, fname(fq.back(F)) == n)))
clashfrom = sp('field_clashes_from', [Fs, B32, Str, B64], BOOL, lambda F, n, s, i: z3.And(z3.ULT(i, fq.len(F)), z3.Or(findex(fq.at(F, i)) == n, fname(fq.at(F, i)) == s, clashfrom(F, n, s, i + 1))))
NAMES = ('NAME', 'MESSAGE', 'PACKAGE')
fd_t = lambda k: z3.If(kin(k, 'REPEATED', 'OPTIONAL'), kr(k), k)
fd_i = lambda k: kr(kr(kr(fd_t(k))))
fd_s = lambda k: kr(fd_i(k))
fd_semi = lambda k: z3.If(isk(fd_s(k), 'LBRACKET'), kr(fo_end(kr(fd_s(k)))), fd_s(k))


def fd_head_bad(k):
    t = fd_t(k)
    n = kr(t)
    e = kr(n)
    i = kr(e)
    return z3.Or(kb(t), z3.Not(kin(t, 'NAME', 'QNAME', *['T_' + x for x in TYPES])), kb(n), z3.Not(kin(n, *NAMES)), kb(e), z3.Not(isk(e, 'EQUAL')), kb(i), z3.Not(isk(i, 'INTEGER')), z3.Not(valid(s2l(kv(i)))))


fd_head = sp('field_head_bad', [Toks], BOOL, fd_head_bad)
fd_tail = sp('field_tail_bad', [Toks], BOOL, lambda s: z3.Or(kb(s), z3.And(isk(s, 'LBRACKET'), z3.Or(fo_bad(kr(s)), kb(kr(fo_end(kr(s)))))), z3.Not(isk(z3.If(isk(s, 'LBRACKET'), kr(fo_end(kr(s))), s), 'SCOLON'))))
fd_bad = sp('field_bad', [Toks, Fs], BOOL, lambda k, F: z3.Or(fd_head(k), fd_tail(fd_s(k)), clash(F, number(kv(fd_i(k))), kv(kr(fd_t(k))))))
fd_end = lambda k: kr(fd_semi(k))


def fd_info(k, M, p):
    t = fd_t(k)
    named = kin(t, 'NAME', 'QNAME')
    q = qual(p, kv(t))
    return INFO.mk(cases(t, [('T_' + n, _mod['types'][n]) for n in TYPES], BITS(_mod['types']['MESSAGE'], 32)), z3.If(named, q, Nil), z3.If(named, find(M, q), z3.IntVal(0)), isk(k, 'REPEATED'), isk(k, 'OPTIONAL'))


fd_val = sp('field', [Toks, Ms, Str], FIELD.sort, lambda k, M, p: FIELD.mk(fd_info(k, M, p), kv(kr(fd_t(k))), number(kv(fd_i(k))), z3.If(isk(fd_s(k), 'LBRACKET'), fo_opts(kr(fd_s(k)), Opts.NoOpts), Opts.NoOpts)))
# what is inside a message
mb_bad = sp('body_bad', [Toks, Fs, Ms, Str], BOOL, lambda k, F, M, p: z3.Or(kb(k), z3.And(z3.Not(isk(k, 'END')), z3.Or(kend(k), isk(k, 'EOF'), z3.If(
    isk(k, 'OPTION'), z3.Or(so_bad(kr(k)), mb_bad(so_end(kr(k)), F, M, p)), z3.Or(fd_bad(k, F), mb_bad(fd_end(k), fq.snoc(F, fd_val(k, M, p)), M, p)))))))
mb_end = sp('body_end', [Toks], Toks, lambda k: z3.If(isk(k, 'END'), kr(k), mb_end(z3.If(isk(k, 'OPTION'), so_end(kr(k)), fd_end(k)))))
mb_fields = sp('body_fields', [Toks, Fs, Ms, Str], Fs, lambda k, F, M, p: z3.If(isk(k, 'END'), F, z3.If(
    isk(k, 'OPTION'), mb_fields(so_end(kr(k)), F, M, p), mb_fields(fd_end(k), fq.snoc(F, fd_val(k, M, p)), M, p))))
mb_opts = sp('body_options', [Toks, Os], Os, lambda k, o: z3.If(isk(k, 'END'), o, z3.If(isk(k, 'OPTION'), mb_opts(so_end(kr(k)), put(o, op_entry(kr(k)))), mb_opts(fd_end(k), o))))
# a message, after the word
ms_bad = sp('message_bad', [Toks, Ms, Str], BOOL, lambda k, M, p: z3.Or(kb(k), z3.Not(kin(k, *NAMES)), kb(kr(k)), z3.Not(isk(kr(k), 'BEGIN')), mb_bad(kr(kr(k)), fq.nil, M, p), find(M, qual(p, kv(k))) != 0))
ms_end = lambda k: mb_end(kr(kr(k)))
ms_is = lambda m, k, M, p: z3.And(mname(m) == kv(k), mpkg(m) == p, pfields(m) == mb_fields(kr(kr(k)), fq.nil, M, p), mopts(m) == mb_opts(kr(kr(k)), Opts.NoOpts))
# package and syntax, after the word
pk_bad = lambda k: z3.Or(kb(k), z3.Not(kin(k, 'NAME', 'QNAME')), kb(kr(k)), z3.Not(isk(kr(k), 'SCOLON')))
pk_end = lambda k: kr(kr(k))
sy_bad = lambda k: z3.Or(kb(k), z3.Not(isk(k, 'EQUAL')), kb(kr(k)), z3.Not(isk(kr(k), 'STRING')), kb(kr(kr(k))), z3.Not(isk(kr(kr(k)), 'SCOLON')), kv(kr(k)) != strlit('proto3'))
sy_end = lambda k: kr(kr(kr(k)))
# a schema
SC = [Toks, Ms, Str]
sc_step = lambda k, M, p, go, end: z3.If(isk(k, 'MESSAGE'), go(ms_end(kr(k)), mq.snoc(M, nid(M)), p, 'm'), z3.If(isk(k, 'PACKAGE'), go(pk_end(kr(k)), M, kv(kr(k)), 'p'), z3.If(
    isk(k, 'SYNTAX'), go(sy_end(kr(k)), M, p, 's'), z3.If(isk(k, 'OPTION'), go(so_end(kr(k)), M, p, 'o'), z3.If(isk(k, 'COMMENT') if 'COMMENT' in _mod['codes'] else false, go(kr(k), M, p, 'c'), end)))))
sc_bad = sp('schema_bad', SC, BOOL, lambda k, M, p: z3.Or(kb(k), sc_step(k, M, p, lambda a, b, c, w: z3.Or(
    {'m': ms_bad(kr(k), M, p), 'p': pk_bad(kr(k)), 's': sy_bad(kr(k)), 'o': so_bad(kr(k)), 'c': false}[w], sc_bad(a, b, c)), z3.Not(isk(k, 'EOF')))))
sc_msgs = sp('schema_messages', SC, Ms, lambda k, M, p: sc_step(k, M, p, lambda a, b, c, w: sc_msgs(a, b, c), M))
sc_opts = sp('schema_options', SC + [Os], Os, lambda k, M, p, o: sc_step(k, M, p, lambda a, b, c, w: sc_opts(a, b, c, put(o, op_entry(kr(k))) if w == 'o' else o), o))
# what is true of what is accepted (P18)
okfields = sp('fields_ok', [Fs], BOOL, lambda F: z3.Or(F == fq.nil, z3.And(okfields(fq.front(F)), valid(findex(fq.back(F))), z3.Not(clash(fq.front(F), findex(fq.back(F)), fname(fq.back(F)))))))
okmsgs = sp('messages_ok', [Ms], BOOL, lambda M: z3.Or(M == mq.nil, z3.And(okmsgs(mq.front(M)), okfields(pfields(mq.back(M))), find(mq.front(M), qname(mq.back(M))) == 0)))
F_REF = lambda f: INFO.get(ftype(f), 'ref')
inM = sp('message_of', [Ms, INT], BOOL, lambda M, m: z3.And(M != mq.nil, z3.Or(mq.back(M) == m, inM(mq.front(M), m))))
refsin = sp('references_within', [Fs, Ms], BOOL, lambda F, M: z3.Or(F == fq.nil, z3.And(refsin(fq.front(F), M), z3.Or(F_REF(fq.back(F)) == 0, inM(M, F_REF(fq.back(F)))))))
allin = sp('all_references_within', [Ms], BOOL, lambda M: z3.Or(M == mq.nil, z3.And(allin(mq.front(M)), refsin(pfields(mq.back(M)), mq.front(M)))))
PARSE = ('tokens', 'stream_ok')


# references that are still open are resolved over the whole schema
is_open = lambda f: z3.And(INFO.get(ftype(f), 'id') == BITS(_mod['types']['MESSAGE'], 32), F_REF(f) == 0)
closed = lambda f, M: FIELD.mk(INFO.mk(*[z3.If(is_open(f), find(M, INFO.get(ftype(f), 'qname')), F_REF(f)) if n == 'ref' else INFO.get(ftype(f), n) for n, _ in INFO.fields]), fname(f), findex(f), FIELD.get(f, 'options'))
unknown = lambda f, M: z3.And(is_open(f), find(M, INFO.get(ftype(f), 'qname')) == 0)
upd = sp('update_field', [Fs, B64, FIELD.sort], Fs, lambda F, i, f: z3.If(F == fq.nil, fq.nil, z3.If(i == fq.len(F) - 1, fq.snoc(fq.front(F), f), fq.snoc(upd(fq.front(F), i, f), fq.back(F)))))
rs = sp('resolved_before', [Fs, Ms, B64], Fs, lambda F, M, j: z3.If(F == fq.nil, fq.nil, fq.snoc(rs(fq.front(F), M, j), z3.If(z3.ULT(fq.len(F) - 1, j), closed(fq.back(F), M), fq.back(F)))))
rsall = sp('resolved', [Fs, Ms], Fs, lambda F, M: z3.If(F == fq.nil, fq.nil, fq.snoc(rsall(fq.front(F), M), closed(fq.back(F), M))))
uf = sp('unresolved_from', [Fs, Ms, B64], BOOL, lambda F, M, j: z3.And(z3.ULT(j, fq.len(F)), z3.Or(unknown(fq.at(F, j), M), uf(F, M, j + 1))))
uaf = sp('unresolved_in', [Ms, B64], BOOL, lambda M, i: z3.And(z3.ULT(i, mq.len(M)), z3.Or(uf(pfields(mq.at(M, i)), M, BITS(0, 64)), uaf(M, i + 1))))
Heap = z3.ArraySort(INT, Fs)
PARSED = z3.Const('parsed', Heap)       # the fields of every message, as parsed
rH = sp('heap_resolved', [Ms, B64], Heap, lambda M, i: z3.If(i == 0, PARSED, z3.Store(rH(M, i - 1), mq.at(M, i - 1), rsall(pfields(mq.at(M, i - 1)), M))))


# ---------------------------------------------------------------- library: messages being built, the map of options (assumed)
def building(ex):
    return ex.consts.setdefault('building', {})


def msg_make(ex, st, a, d):
    m = fresh('message', INT)
    st.assume(m > 0)
    p = Ptr(ex.new_obj(st, 'message', 'raw', sizeof(ex, '7Message')), 0)
    MSG.store(ex, st, p, MSG.new())
    building(ex)[m.get_id()] = (m, p)
    RefK().store(ex, st, a[0], m)


def ref_deref(ex, st, a, d):
    t = z3.simplify(RefK().load(ex, st, a[0]))
    ex.oblige(st, 'pointer to a message is not null', t != 0)
    if t.get_id() in building(ex):
        return building(ex)[t.get_id()][1]
    key = 'message:%d' % t.get_id()
    ex.consts[key] = t
    if key not in st.mem:
        st.mem[key] = Obj(key, key, 'copy', sizeof(ex, '7Message'), None, None)
        o = members(ex, '7Message')
        st.w(key).kind = 'raw'
        if 'fields' in st.ghost:
            FIELDS.store(ex, st, Ptr(key, o['fields']), st.ghost['fields'][t])
        StringK().store(ex, st, Ptr(key, o['name']), mname(t))
        StringK().store(ex, st, Ptr(key, o['package']), mpkg(t))
        st.w(key).kind = 'copy'
    return Ptr(key, 0)


def msg_push(ex, st, a, d):
    """a message joins the schema: from now on it is not written to"""
    t = z3.simplify(RefK().load(ex, st, a[1]))
    M = REFS.load(ex, st, a[0])
    if t.get_id() not in building(ex):
        raise Unsupported('a message of unknown origin joins the schema')
    p = building(ex)[t.get_id()][1]
    if st.mem[p.obj].kind != 'raw':
        raise Unsupported('a message joins the schema twice')
    f, n, k, o = [MSG.get(MSG.load(ex, st, p), x) for x in ('fields', 'name', 'package', 'options')]
    for e in (t == nid(M), mname(t) == n, mpkg(t) == k, pfields(t) == f, mopts(t) == o):
        st.assume(e)
    st.w(p.obj).kind = 'copy'
    REFS.store(ex, st, a[0], mq.snoc(M, t))


def opts_slot(ex, st, a, d):
    """entries[name]: a place for an entry, to be assigned to as a whole"""
    k = ex.get_str(st, a[1])
    o = ex.new_obj(st, 'entry', 'copy', ENTRY.size(ex))
    ex.consts['slot:' + o] = (a[0], k, OptsK().load(ex, st, a[0]))
    return Ptr(o, 0)


def entry_assign(ex, st, a, d):
    s = ex.consts.get('slot:%s' % a[0].obj) if isinstance(a[0], Ptr) and isinstance(a[0].obj, str) else None
    if s is None:
        return NotImplemented
    p, k, o = s
    if not OptsK().load(ex, st, p).eq(o):
        raise Unsupported('entry of a map that has changed')
    e = ENTRY.load(ex, st, a[1])
    ex.oblige(st, 'an option is stored under its name', ENTRY.get(e, 'name') == k)
    OptsK().store(ex, st, p, put(o, Entry.Entry(k, ENTRY.get(e, 'type'), ENTRY.get(e, 'value'))))
    return a[0]


def live_fields(ex, st, v):
    """the fields of a message as they are now"""
    if v.k.tag != FIELDS.tag:
        return v.term
    t = FIELDS.load(ex, st, v.owner)
    ex.oblige(st, 'iterator into the vector as it is', fq.len(t) == fq.len(v.term))
    return t


def field_ref(ex, st, a, d):
    """assignment of a reference to a message: to the member of a field of a message too"""
    e = ex.consts.get('element:%s' % a[0].obj) if isinstance(a[0], Ptr) else None
    if e is None or 'fields' not in st.ghost:
        return ref_copy(ex, st, a, d)
    v, i, t = e
    at = members(ex, '5Field')['type'] + members(ex, '8TypeInfo')['ref']
    if v.k.tag != FIELDS.tag or a[0].off != at or v.owner.obj not in ex.consts:
        raise Unsupported('write to an element')
    if not FIELDS.load(ex, st, v.owner).eq(t):
        raise Unsupported('element of a vector that has changed')
    if any(k.startswith('message:') and k != v.owner.obj for k in st.mem):
        raise Unsupported('two messages at a time')
    st.w(a[0].obj).kind = 'raw'
    ref_copy(ex, st, a, d)
    st.w(a[0].obj).kind = 'copy'
    F = upd(t, bv(i, 64), FIELD.load(ex, st, Ptr(a[0].obj, 0)))
    st.w(v.owner.obj).kind = 'raw'
    FIELDS.store(ex, st, v.owner, F)
    st.w(v.owner.obj).kind = 'copy'
    st.ghost['fields'] = z3.Store(st.ghost['fields'], ex.consts[v.owner.obj], F)
    del ex.consts['element:' + a[0].obj]
    return a[0]


def flags(ex, st, a, d):
    f = fresh('flags', B32)
    st.assume((z3.Extract(12, 12, f) == 1) == st.ghost[('skipws', a[0].obj)])
    return f


def skip(ex, st, a, d):
    st.ghost[('skipws', a[0].obj)] = z3.BoolVal('noskipws' not in d)
    return a[0]


def fand(ex, st, a, d):
    return norm(bv(a[0], 32) & bv(a[1], 32), 32)


MSG = gen.RecK('7Message', [('fields', FIELDS), ('name', StringK()), ('package', StringK()), ('options', OptsK())])
TREE = gen.RecK('6Proto3', [('messages', REFS), ('options', OptsK()), ('fileName', StringK())])
MODELS = [(SP + r'::operator=\(' + SP + r'( const&|&&)\)$', field_ref), (r'std::ios_base::flags\(\) const$', flags), (r'std::(no)?skipws\(std::ios_base&\)$', skip), (r'std::operator&\(std::_Ios_Fmtflags, std::_Ios_Fmtflags\)$', fand),
          (r'__cxa_begin_catch$', lambda ex, st, a, d: a[0]), (r'__cxa_end_catch$', nothing),
          (r'^std::shared_ptr<.*> std::make_shared<protogen::Message>\(\)$', msg_make), (r'std::__shared_ptr_access<protogen::Message, .*>::operator(->|\*)\(\) const$', ref_deref),
          (r'std::vector<' + SP + r', .*>::push_back\(' + SP + r' ?(const&|&&)\)$', msg_push), (OM + r'operator\[\]\(', opts_slot),
          (r'protogen::OptionEntry::operator=\(protogen::OptionEntry ?(const&|&&)\)$', entry_assign)] + [m for m in gen.MODELS if m[1] is not c_strtol] + scan.MODELS

def identity_axioms(fs):
    """lemma Identities: the messages of a schema are not null"""
    out = []
    fs_at = [e for e in apps(fs) if e.decl().eq(mq.at.f)]
    for e in apps(fs):
        if e.decl().eq(mq.at.f):
            M, i = e.children()
            out.append(z3.Implies(z3.And(plain(M), z3.ULT(i, mq.len(M)), z3.ULT(mq.len(M), LIM)), z3.And(e > 0, e < nid(M))))
        elif e.decl().eq(cat.f):
            out.append(z3.Implies(e.arg(0) == Nil, e == e.arg(1)))          # lemma CatNil
        elif e.decl().eq(rH.f):
            M, n = e.children()
            for m in fs_at:
                if m.arg(0).eq(M):
                    out.append(z3.Implies(z3.And(plain(M), z3.ULE(n, m.arg(1)), z3.ULT(m.arg(1), mq.len(M)), z3.ULT(mq.len(M), LIM)), e[m] == pfields(m)))      # lemma HeapL
        elif e.decl().eq(rs.f):
            F, M, j = e.children()
            Z = z3.ULT(fq.len(F), LIM)
            out += [z3.Implies(j == 0, e == F), z3.Implies(z3.And(Z, j == fq.len(F)), e == rsall(F, M)), fq.len(e) == fq.len(F), z3.Implies(z3.And(Z, z3.ULT(j, fq.len(F))), fq.at(e, j) == fq.at(F, j)),
                    z3.Implies(z3.And(Z, z3.ULT(j, fq.len(F))), z3.And(upd(e, j, closed(fq.at(F, j), M)) == rs(F, M, j + 1), upd(e, j, fq.at(F, j)) == e))]        # lemma Resolving
        elif e.decl().eq(clash.f):
            out.append(z3.Implies(z3.ULT(fq.len(e.arg(0)), LIM), e == clashfrom(*e.children(), BITS(0, 64))))          # lemma FromFront
        elif e.decl().eq(mb_fields.f):
            k, F, M, p = e.children()
            out.append(z3.Implies(z3.And(z3.Or(F == fq.nil, okfields(F)), z3.Not(mb_bad(k, F, M, p))), okfields(e)))          # lemma FieldsOk
            out.append(z3.Implies(z3.And(z3.Or(F == fq.nil, refsin(F, M)), z3.Not(mb_bad(k, F, M, p)), z3.ULT(mq.len(M), LIM)), refsin(e, M)))      # lemma RefsIn
    return out


AXIOMS = scan.AXIOMS + [identity_axioms]


class Identities(Lemma):
    name = 'messages of a schema are not null'

    def cases(self):
        M, m, i = fresh('M', Ms), fresh('m', INT), fresh('i', B64)
        P = lambda M: z3.Implies(z3.And(plain(M), z3.ULT(i, mq.len(M)), z3.ULT(mq.len(M), LIM)), z3.And(mq.at(M, i) > 0, mq.at(M, i) < nid(M)))
        N = lambda M: nid(M) >= 1
        yield 'number of the next', [z3.Implies(M != mq.nil, N(mq.front(M)))], N(M)
        yield 'one more', [P(M), N(M), z3.ULT(mq.len(M), LIM)], P(mq.snoc(M, m))
        yield 'none', [M == mq.nil], P(M)


class CatNil(Lemma):
    name = 'nothing before a text is the text'

    def cases(self):
        s = fresh('s', Str)
        yield 'one more', [z3.Implies(s != Nil, cat(Nil, init(s)) == init(s))], cat(Nil, s) == s


class CatAssoc(Lemma):
    name = 'concatenation is associative'

    def cases(self):
        a, b, s = fresh('a', Str), fresh('b', Str), fresh('s', Str)
        A = lambda s: cat(a, cat(b, s)) == cat(cat(a, b), s)
        yield 'one more', [z3.Implies(s != Nil, A(init(s)))], A(s)


def some_numbers():
    _mod.setdefault('codes', {n: i for i, n in enumerate(sorted(set(scan.SYMBOLS.values()) | set(scan.WORDS.values()) | {'EOF', 'NAME', 'QNAME', 'STRING', 'INTEGER'}))})
    _mod.setdefault('types', {n: i for i, n in enumerate(TYPES + ['MESSAGE'])})
    _mod.setdefault('options', {n: i for i, n in enumerate(sorted(set(VALUES.values())))})


class Resolving(Lemma):
    name = 'resolving the fields one after the other'

    def cases(self):
        some_numbers()
        F, M, j, f, f2 = fresh('F', Fs), fresh('M', Ms), fresh('j', B64), fresh('f', FIELD.sort), fresh('f2', FIELD.sort)
        L, A = fq.len, fq.at
        small = lambda F: z3.ULT(L(F), LIM)
        N = lambda F: L(rs(F, M, j)) == L(F)
        yield 'length', [N(F)], N(fq.snoc(F, f))
        Z = lambda F: rs(F, M, BITS(0, 64)) == F
        yield 'none yet', [Z(F), small(F)], Z(fq.snoc(F, f))
        B = lambda F, j: z3.Implies(z3.ULE(L(F), j), rs(F, M, j) == rsall(F, M))
        yield 'all', [B(F, j), small(F)], B(fq.snoc(F, f), j)
        yield 'nothing to do', [F == fq.nil], z3.And(N(F), Z(F), B(F, j))
        T = lambda F: z3.Implies(z3.ULT(j, L(F)), A(rs(F, M, j), j) == A(F, j))
        yield 'those that come', [T(F), small(F), N(F)], T(fq.snoc(F, f))
        U = lambda F: z3.Implies(z3.ULT(j, L(F)), upd(rs(F, M, j), j, closed(A(F, j), M)) == rs(F, M, j + 1))
        yield 'one more', [U(F), B(F, j), B(F, j + 1), N(F), small(F)], U(fq.snoc(F, f))
        yield 'no field', [F == fq.nil], z3.And(T(F), U(F))
        W = lambda F: z3.Implies(z3.ULT(j, L(F)), upd(F, j, A(F, j)) == F)
        yield 'no change', [W(F), small(F)], W(fq.snoc(F, f))
        yield 'no change of none', [F == fq.nil], W(F)


class Found(Lemma):
    name = 'the message that is found is one of the schema and has that name'

    def cases(self):
        M, m, i, s, t = fresh('M', Ms), fresh('m', INT), fresh('i', B64), fresh('s', Str), fresh('t', Str)
        A = lambda M: z3.Implies(z3.ULT(i, mq.len(M)), inM(M, mq.at(M, i)))
        yield 'the last or before', [A(M), z3.ULT(mq.len(M), LIM)], A(mq.snoc(M, m))
        yield 'none', [M == mq.nil], A(M)
        F = lambda i: z3.Implies(findat(M, s, i) != 0, z3.And(inM(M, findat(M, s, i)), qname(findat(M, s, i)) == s))
        yield 'here or further', [F(i + 1), A(M), z3.ULT(mq.len(M), LIM)], F(i), 1
        S = lambda i: z3.Implies(z3.And(z3.ULE(i, mq.len(M)), m != 0), findat(mq.snoc(M, m), s, i) == z3.If(findat(M, s, i) != 0, findat(M, s, i), z3.If(qname(m) == s, m, z3.IntVal(0))))
        P = z3.Implies(z3.And(plain(M), z3.ULT(i, mq.len(M))), mq.at(M, i) > 0)       # lemma Identities
        yield 'it stays so when messages are added', [S(i + 1), P, plain(M), z3.ULT(mq.len(M), LIM)], S(i), 2


class RefsIn(Lemma):
    name = 'references of what is parsed lead to messages of the schema'
    fuel = 3

    def cases(self):
        some_numbers()
        k, F, M, p, m, f = fresh('k', Toks), fresh('F', Fs), fresh('M', Ms), fresh('p', Str), fresh('m', INT), fresh('f', FIELD.sort)
        q = qual(p, kv(fd_t(k)))
        found = z3.Implies(find(M, q) != 0, inM(M, find(M, q)))       # lemma Found
        P = lambda k, F: z3.Implies(z3.And(refsin(F, M), z3.Not(mb_bad(k, F, M, p))), refsin(mb_fields(k, F, M, p), M))
        yield 'by the next token', [P(so_end(kr(k)), F), P(fd_end(k), fq.snoc(F, fd_val(k, M, p))), found], P(k, F)
        W = lambda F: z3.Implies(refsin(F, M), refsin(F, mq.snoc(M, m)))
        yield 'in a larger schema too', [W(F)], W(fq.snoc(F, f))
        yield 'none', [F == fq.nil], W(F)
        i, t = fresh('i', B64), fresh('t', INT)
        G = lambda M: z3.Implies(z3.And(allin(M), z3.ULT(i, mq.len(M))), refsin(pfields(mq.at(M, i)), M))
        w = lambda F: z3.Implies(refsin(F, M), refsin(F, mq.snoc(M, m)))
        yield 'of every message', [G(M), w(pfields(mq.at(M, i))), w(pfields(m)), z3.ULT(mq.len(M), LIM)], G(mq.snoc(M, m)), 2
        yield 'no message', [M == mq.nil], G(M)


refsok = sp('references_lead_to_messages', [Fs, Ms], BOOL, lambda F, M: z3.Or(F == fq.nil, z3.And(refsok(fq.front(F), M), z3.Not(is_open(fq.back(F))), z3.Or(F_REF(fq.back(F)) == 0, inM(M, F_REF(fq.back(F)))))))


class Lead(Lemma):
    """with Heap and RefsIn: in a schema that is accepted every field of a message type refers to a message of the schema"""
    name = 'references lead to messages'

    def cases(self):
        some_numbers()
        F, M, f, i = fresh('F', Fs), fresh('M', Ms), fresh('f', FIELD.sort), fresh('i', B64)
        Z, L = BITS(0, 64), fq.len
        u = unknown(f, M)
        B = lambda i: z3.Implies(z3.ULE(i, L(F)), uf(fq.snoc(F, f), M, i) == z3.Or(uf(F, M, i), u))
        yield 'one field more', [B(i + 1), z3.ULT(L(F), LIM)], B(i)
        s = INFO.get(ftype(f), 'qname')
        found = z3.Implies(find(M, s) != 0, inM(M, find(M, s)))
        P = lambda F: z3.Implies(z3.And(refsin(F, M), z3.Not(uf(F, M, Z))), refsok(rsall(F, M), M))
        yield 'every field', [P(F), B(Z), found, z3.ULT(L(F), LIM)], P(fq.snoc(F, f)), 2
        yield 'no field', [F == fq.nil], P(F)
        g = fresh('g', FIELD.sort)
        T = lambda F, x: clash(rsall(F, M), findex(x), fname(x)) == clash(F, findex(x), fname(x))
        yield 'the same names and numbers', [T(F, f)], T(fq.snoc(F, g), f)
        yield 'the same validity', [okfields(rsall(F, M)) == okfields(F), T(F, g)], okfields(rsall(fq.snoc(F, g), M)) == okfields(fq.snoc(F, g))
        yield 'of none', [F == fq.nil], z3.And(T(F, f), okfields(rsall(F, M)) == okfields(F))
        n = fresh('n', B64)
        U = lambda i: z3.Implies(z3.And(z3.ULE(i, n), z3.ULT(n, mq.len(M)), z3.Not(uaf(M, i))), z3.Not(uf(pfields(mq.at(M, n)), M, Z)))
        yield 'of every message', [U(i + 1), z3.ULT(mq.len(M), LIM)], U(i), 1


class HeapL(Lemma):
    name = 'messages that come are as parsed'

    def cases(self):
        some_numbers()
        M, m, i, j, n = fresh('M', Ms), fresh('m', INT), fresh('i', B64), fresh('j', B64), fresh('n', B64)
        D = lambda M: z3.Implies(z3.And(plain(M), z3.ULT(j, i), z3.ULT(i, mq.len(M)), z3.ULT(mq.len(M), LIM)), mq.at(M, j) != mq.at(M, i))
        c = z3.Implies(z3.And(plain(M), z3.ULT(j, mq.len(M)), z3.ULT(mq.len(M), LIM)), z3.And(mq.at(M, j) > 0, mq.at(M, j) < nid(M)))       # lemma Identities
        yield 'apart', [D(M), c, z3.ULT(mq.len(M), LIM)], D(mq.snoc(M, m))
        yield 'none', [M == mq.nil], D(M)
        P = lambda n: z3.Implies(z3.And(plain(M), z3.ULE(n, i), z3.ULT(i, mq.len(M)), z3.ULT(mq.len(M), LIM)), z3.Select(rH(M, n), mq.at(M, i)) == pfields(mq.at(M, i)))
        d = z3.Implies(z3.And(plain(M), z3.ULT(n, i), z3.ULT(i, mq.len(M)), z3.ULT(mq.len(M), LIM)), mq.at(M, n) != mq.at(M, i))
        yield 'one more', [P(n), d, z3.ULT(n, LIM)], P(n + 1), 1
        yield 'to begin with', [z3.Select(PARSED, mq.at(M, i)) == pfields(mq.at(M, i))], P(BITS(0, 64))
        R = lambda n: z3.Implies(z3.And(plain(M), z3.ULT(i, n), z3.ULE(n, mq.len(M)), z3.ULT(mq.len(M), LIM)), z3.Select(rH(M, n), mq.at(M, i)) == rsall(pfields(mq.at(M, i)), M))
        e = z3.Implies(z3.And(plain(M), z3.ULT(i, n), z3.ULT(n, mq.len(M)), z3.ULT(mq.len(M), LIM)), mq.at(M, i) != mq.at(M, n))
        yield 'resolved', [R(n), e, z3.ULT(n, LIM)], R(n + 1), 1
        yield 'none resolved', [], R(BITS(0, 64))


class FieldsOk(Lemma):
    """by induction on the tokens"""
    name = 'a message that is accepted has valid and distinct fields'
    fuel = 3

    def cases(self):
        some_numbers()
        k, F, M, p = fresh('k', Toks), fresh('F', Fs), fresh('M', Ms), fresh('p', Str)
        P = lambda k, F: z3.Implies(z3.And(okfields(F), z3.Not(mb_bad(k, F, M, p))), okfields(mb_fields(k, F, M, p)))
        yield 'by the next token', [P(so_end(kr(k)), F), P(fd_end(k), fq.snoc(F, fd_val(k, M, p)))], P(k, F)


class FromFront(Lemma):
    name = 'looking for a clash from the front'

    def cases(self):
        F, g, i, n, s = fresh('F', Fs), fresh('g', FIELD.sort), fresh('i', B64), fresh('n', B32), fresh('s', Str)
        m = z3.Or(findex(g) == n, fname(g) == s)
        L = fq.len
        P = lambda i: z3.Implies(z3.ULE(i, L(F)), clashfrom(fq.snoc(F, g), n, s, i) == z3.Or(clashfrom(F, n, s, i), m))
        yield 'one more', [z3.ULT(L(F), LIM), P(i + 1)], P(i)
        Z = BITS(0, 64)
        Q = lambda F: clash(F, n, s) == clashfrom(F, n, s, Z)
        yield 'none', [F == fq.nil], Q(F)
        yield 'all', [z3.ULT(L(F), LIM), P(Z), Q(F)], Q(fq.snoc(F, g)), 1


class Distinct(Lemma):
    name = 'fields that are accepted have valid, distinct numbers and distinct names'

    def cases(self):
        F, g, i, j, n, s = fresh('F', Fs), fresh('g', FIELD.sort), fresh('i', B64), fresh('j', B64), fresh('n', B32), fresh('s', Str)
        L, A = fq.len, fq.at
        C = lambda F: z3.Implies(z3.And(z3.ULT(i, L(F)), z3.Not(clash(F, n, s))), z3.And(findex(A(F, i)) != n, fname(A(F, i)) != s))
        yield 'no clash', [C(F)], C(fq.snoc(F, g))
        yield 'no clash with none', [F == fq.nil], C(F)
        V = lambda F: z3.Implies(z3.And(okfields(F), z3.ULT(i, L(F))), valid(findex(A(F, i))))
        yield 'valid', [V(F)], V(fq.snoc(F, g))
        D = lambda F: z3.Implies(z3.And(okfields(F), z3.ULT(i, j), z3.ULT(j, L(F))), z3.And(findex(A(F, i)) != findex(A(F, j)), fname(A(F, i)) != fname(A(F, j))))
        c = lambda F: z3.Implies(z3.And(z3.ULT(i, L(F)), z3.Not(clash(F, findex(g), fname(g)))), z3.And(findex(A(F, i)) != findex(g), fname(A(F, i)) != fname(g)))
        yield 'distinct', [D(F), c(F)], D(fq.snoc(F, g))
        yield 'none', [F == fq.nil], z3.And(V(F), D(F))


# ---------------------------------------------------------------- the parser's state
class Ps:
    """state of the parser: ctx in a state"""

    def __init__(self, ex, st, ctx):
        self.m = m = mem(ex, r'^_ZTSN8protogen7ContextI', ['tokens', 'tree', 'is', 'package'])
        self.ctx = ctx
        self.tz = ex.load(st, ctx.add(m['tokens']), 'ptr')
        self.tree = ex.load(st, ctx.add(m['tree']), 'ptr')
        self.x = In(ex, st, in_of(ex, st, self.tz))
        self.flag = ungot_of(ex, st, self.tz)
        self.u = self.flag != 0
        self.cur = Tk(ex, st, cur_of(ex, self.tz))
        self.pkg = ex.get_str(st, ctx.add(m['package']))
        self.M = TREE.get(TREE.load(ex, st, self.tree), 'messages')
        self.o = TREE.get(TREE.load(ex, st, self.tree), 'options')
        self.rest = toks(self.x.T, self.x.pos)
        self.now = z3.If(self.cur.code == K('EOF'), TEOF, TK(self.cur.code, self.cur.value, self.rest))       # the current token and what follows
        self.k = z3.If(self.u, self.now, self.rest)         # what next() will give

    def ok(self, read=True):
        r = self.x.sound() + [('within the text', z3.And(z3.ULE(self.x.pos, slen(self.x.T)), z3.ULT(slen(self.x.T), scan.TEXT))), ('flag', z3.ULE(self.flag, 1)), ('text', z3.ULT(slen(self.cur.value), LIM)), ('package', z3.ULT(slen(self.pkg), LIM)), ('messages', z3.And(plain(self.M), z3.ULE(mq.len(self.M), self.x.pos)))]
        if read:
            r.append(('at the end nothing follows', z3.Implies(self.cur.code == K('EOF'), kend(self.rest))))
        return r


class Parse(Contract):
    unit = 'proto3'
    fuel = 3
    uses = ('scan.Next', 'scan.TzUnget')
    opaque = PARSE
    read = True         # a token has been read before
    exception = FieldFn.exception
    builds = ()         # what it changes besides the tokens: 'messages', 'options', 'package'
    ungot = False       # may one be given back on entry

    def setups(self, ex):
        grammar(ex.mod)
        st = State()
        m = mem(ex, r'^_ZTSN8protogen7ContextI', ['tokens', 'tree', 'is', 'package'])
        c = Ptr(ex.new_obj(st, 'ctx', 'raw', size_of(ex, r'^_ZTSN8protogen7ContextI')), 0)
        tz, tree = tz_obj(ex, st), Ptr(ex.new_obj(st, 'tree', 'raw', sizeof(ex, '6Proto3')), 0)
        REFS.put(ex, st, tree.add(members(ex, '6Proto3')['messages']))
        OptsK().put(ex, st, tree.add(members(ex, '6Proto3')['options']))
        StringK().put(ex, st, tree.add(members(ex, '6Proto3')['fileName']))
        ex.put(st, c.obj, m['tokens'], tz, 8)
        ex.put(st, c.obj, m['tree'], tree, 8)
        ex.put(st, c.obj, m['is'], in_of(ex, st, tz), 8)
        StringK().put(ex, st, c.add(m['package']))
        yield '', st, self.res(ex, st) + [c] + self.more(ex, st)

    def res(self, ex, st):
        return []

    def more(self, ex, st):
        return []

    def ctx(self, c):
        return c.args[0]

    def a(self, c):
        return Ps(c.ex, c.st0, self.ctx(c))

    def b(self, c):
        return Ps(c.ex, c.st1, self.ctx(c))

    def pre(self, c):
        x = self.a(c)
        return x.ok(self.read) + ([] if self.ungot else [('none is given back', x.flag == 0)])

    def havoc(self, c):
        ex, st, x = c.ex, c.st1, self.a(c)
        x.x.havoc(st)
        put_token(ex, st, cur_of(ex, x.tz))
        o = L_TZ(ex)['ungot']
        ex.put(st, x.tz.obj, x.tz.off + o, fresh('ungot', z3.BitVecSort(8)), 1)
        c.mods |= x.x.keys() | Tk.keys(ex, cur_of(ex, x.tz)) | {(x.tz.obj, x.tz.off + o)}
        t = members(ex, '6Proto3')
        for k, p in ((REFS, x.tree.add(t['messages'])), (OptsK(), x.tree.add(t['options'])), (StringK(), x.ctx.add(x.m['package']))):
            if {'vec': 'messages', 'opts': 'options', 'str': 'package'}[ex.abs_at(st, p).kind] in self.builds:
                k.put(ex, st, p)
                c.mods.add((p.obj, p.off))

    def post(self, c):
        x, y = self.a(c), self.b(c)
        return y.ok() + self.more_post(c, x, y) + ([('forward', z3.ULT(x.x.pos, y.x.pos))] if self.forward else [])
    forward = True

    def loop_view(self, L):
        c = View(L.ex, L.ex.entry, L.st, L.st.frames[0].args)
        return c, self.a(c), self.b(c)

    def left(self, L):
        y = self.loop_view(L)[2]
        return slen(y.x.T) - y.x.pos


PF = lambda n: r'^protogen::%s\(protogen::Context<' % n


class Option(Parse):
    name = 'parseOption'
    rx = PF('parseOption')
    ungot = True

    def res(self, ex, st):
        return [Ptr(ex.new_obj(st, 'result', 'raw', ENTRY.size(ex)), 0)]

    def ctx(self, c):
        return c.args[1]

    def throws(self, c):
        return op_bad(self.a(c).k)

    def havoc(self, c):
        Parse.havoc(self, c)
        ENTRY.put(c.ex, c.st1, c.args[0])
        c.mods |= ENTRY.keys(c.ex, c.args[0])

    def more_post(self, c, x, y):
        e = ENTRY.load(c.ex, c.st1, c.args[0])
        E = op_entry(x.k)
        return [('what follows', y.rest == op_end(x.k)), ('none is given back', y.flag == 0), ('name', ENTRY.get(e, 'name') == Entry.ekey(E)), ('type', ENTRY.get(e, 'type') == Entry.etype(E)),
                ('value', ENTRY.get(e, 'value') == Entry.evalue(E))]


class WithOptions(Parse):
    """(ctx, entries)"""
    uses = ('scan.Next', 'scan.TzUnget', 'Option')

    def more(self, ex, st):
        p = Ptr(ex.new_obj(st, 'entries', 'raw', 56), 0)
        OptsK().put(ex, st, p)
        return [p]

    def havoc(self, c):
        Parse.havoc(self, c)
        OptsK().put(c.ex, c.st1, c.args[1])
        c.mods.add((c.args[1].obj, c.args[1].off))

    def opts(self, c):
        return OptsK().load(c.ex, c.st0, c.args[1]), OptsK().load(c.ex, c.st1, c.args[1])


class FieldOptions(WithOptions):
    name = 'parseFieldOptions'
    rx = PF('parseFieldOptions')

    def throws(self, c):
        return fo_bad(self.a(c).k)

    def more_post(self, c, x, y):
        o0, o1 = self.opts(c)
        return [('at the bracket', z3.And(y.flag == 1, isk(y.k, 'RBRACKET'))), ('what follows', y.k == fo_end(x.k)), ('options', o1 == fo_opts(x.k, o0))]

    @property
    def loops(self):
        def inv(L):
            c, x, y = self.loop_view(L)
            o0, o1 = self.opts(c)
            return y.ok() + [('errors', fo_bad(y.k) == fo_bad(x.k)), ('end', fo_end(y.k) == fo_end(x.k)), ('options', fo_opts(y.k, o1) == fo_opts(x.k, o0)), ('forward', z3.If(y.u, z3.ULT(x.x.pos, y.x.pos), z3.ULE(x.x.pos, y.x.pos)))]
        return [LoopSpec('options', {}, inv, self.left)]


class StandardOption(WithOptions):
    name = 'parseStandardOption'
    rx = PF('parseStandardOption')

    def throws(self, c):
        return so_bad(self.a(c).k)

    def more_post(self, c, x, y):
        o0, o1 = self.opts(c)
        return [('what follows', y.rest == so_end(x.k)), ('none is given back', y.flag == 0), ('the option is stored', o1 == put(o0, op_entry(x.k)))]


class Find(Parse):
    name = 'findMessage'
    rx = PF('findMessage')
    forward = False
    uses = ()

    def res(self, ex, st):
        return [Ptr(ex.new_obj(st, 'result', 'raw', 16), 0)]

    def ctx(self, c):
        return c.args[1]

    def more(self, ex, st):
        p = Ptr(ex.new_obj(st, 'name', 'raw', 32), 0)
        StringK().put(ex, st, p)
        return [p]

    def pre(self, c):
        x = self.a(c)
        return [('messages', z3.And(plain(x.M), z3.ULT(mq.len(x.M), LIM)))]

    def havoc(self, c):
        RefK().put(c.ex, c.st1, c.args[0])
        c.mods.add((c.args[0].obj, c.args[0].off))

    def post(self, c):
        return [('the first message of that name, or none', RefK().load(c.ex, c.st1, c.args[0]) == find(self.a(c).M, c.s0(c.args[2])))]

    @property
    def loops(self):
        def inv(L):
            c, x, y = self.loop_view(L)
            s = c.s0(c.args[2])
            return [('not found so far', find(x.M, s) == findat(x.M, s, position(L)))]
        return field_loops('messages', {}, inv, lambda L: mq.len(self.loop_view(L)[1].M), False)


class FieldP(Parse):
    """the first token of the field is the current one"""
    name = 'parseField'
    nparts = 3
    cost = 70
    rx = PF('parseField')
    uses = ('scan.Next', 'scan.TzUnget', 'FieldOptions', 'Find')

    def more(self, ex, st):
        p = Ptr(ex.new_obj(st, 'message', 'raw', sizeof(ex, '7Message')), 0)
        for f, k, q in MSG.each(ex, p):
            k.put(ex, st, q)
        return [p]

    def pre(self, c):
        return Parse.pre(self, c) + [('fields', z3.ULE(fq.len(self.fields(c, c.st0)), self.a(c).x.pos))]

    def parts(self, c):
        return [isk(self.a(c).now, 'REPEATED'), isk(self.a(c).now, 'OPTIONAL')]

    def fields(self, c, st):
        return FIELDS.load(c.ex, st, c.args[1].add(members(c.ex, '7Message')['fields']))

    def package(self, c):
        return c.s0(c.args[1].add(members(c.ex, '7Message')['package']))

    def throws(self, c):
        return fd_bad(self.a(c).now, self.fields(c, c.st0))

    def havoc(self, c):
        Parse.havoc(self, c)
        p = c.args[1].add(members(c.ex, '7Message')['fields'])
        FIELDS.put(c.ex, c.st1, p)
        c.mods.add((p.obj, p.off))

    def more_post(self, c, x, y):
        F0, F1 = self.fields(c, c.st0), self.fields(c, c.st1)
        return [('what follows', y.rest == fd_end(x.now)), ('none is given back', y.flag == 0), ('the field is added', F1 == fq.snoc(F0, fd_val(x.now, x.M, self.package(c))))]

    @property
    def loops(self):
        def inv(L):
            c, x, y = self.loop_view(L)
            F = self.fields(c, c.st0)
            n, v = number(kv(fd_i(x.now))), kv(kr(fd_t(x.now)))
            return [('none so far', clash(F, n, v) == clashfrom(F, n, v, position(L)))]
        return field_loops('fields', {}, inv, lambda L: fq.len(self.fields(self.loop_view(L)[0], L.ex.entry)), False)


class Message(Parse):
    """the word "message" is the current token"""
    name = 'parseMessage'
    rx = PF('parseMessage')
    uses = ('scan.Next', 'scan.TzUnget', 'StandardOption', 'Find', 'FieldP')
    builds = ('messages',)
    cost = 60

    def pre(self, c):
        return Parse.pre(self, c) + [('at the word', isk(self.a(c).now, 'MESSAGE'))]

    def throws(self, c):
        x = self.a(c)
        return ms_bad(x.k, x.M, x.pkg)

    def more_post(self, c, x, y):
        m = nid(x.M)
        return [('what follows', y.rest == ms_end(x.k)), ('none is given back', y.flag == 0), ('not at the end', y.cur.code != K('EOF')), ('one message more', y.M == mq.snoc(x.M, m)), ('its name', mname(m) == kv(x.k)), ('its package', mpkg(m) == x.pkg),
                ('its fields', pfields(m) == mb_fields(kr(kr(x.k)), fq.nil, x.M, x.pkg)), ('its options', mopts(m) == mb_opts(kr(kr(x.k)), Opts.NoOpts)),
                ('valid and distinct', z3.Implies(okmsgs(x.M), okmsgs(y.M))), ('references', z3.Implies(allin(x.M), allin(y.M)))]

    @property
    def loops(self):
        def inv(L):
            c, x, y = self.loop_view(L)
            ps = [p for _, p in building(L.ex).values() if p.obj in L.st.mem]
            if len(ps) != 1:
                raise Unsupported('which message is being built')
            m = MSG.load(L.ex, L.st, ps[0])
            F, o = MSG.get(m, 'fields'), MSG.get(m, 'options')
            k = kr(kr(x.k))
            q = (x.M, x.pkg)
            return y.ok() + [('none is given back', y.flag == 0), ('fields so far', z3.ULE(fq.len(F), y.x.pos)), ('the message', z3.And(MSG.get(m, 'name') == kv(x.k), MSG.get(m, 'package') == x.pkg)), ('errors', mb_bad(y.k, F, *q) == mb_bad(k, fq.nil, *q)), ('end', mb_end(y.k) == mb_end(k)),
                             ('fields', mb_fields(y.k, F, *q) == mb_fields(k, fq.nil, *q)), ('options', mb_opts(y.k, o) == mb_opts(k, Opts.NoOpts)), ('forward', z3.ULT(x.x.pos, y.x.pos))]
        return [LoopSpec('body', {}, inv, self.left)]


class Package(Parse):
    name = 'parsePackage'
    rx = PF('parsePackage')
    builds = ('package',)

    def throws(self, c):
        return pk_bad(self.a(c).k)

    def more_post(self, c, x, y):
        return [('what follows', y.rest == pk_end(x.k)), ('none is given back', y.flag == 0), ('not at the end', y.cur.code != K('EOF')), ('package', y.pkg == kv(x.k))]


class Syntax(Parse):
    name = 'parseSyntax'
    rx = PF('parseSyntax')

    def throws(self, c):
        return sy_bad(self.a(c).k)

    def more_post(self, c, x, y):
        return [('what follows', y.rest == sy_end(x.k)), ('none is given back', y.flag == 0), ('not at the end', y.cur.code != K('EOF'))]


class Proto(Parse):
    name = 'parseProto'
    rx = PF('parseProto')
    read = False
    uses = ('scan.Next', 'scan.TzUnget', 'StandardOption', 'Message', 'Package', 'Syntax')
    builds = ('messages', 'options', 'package')

    def throws(self, c):
        x = self.a(c)
        return sc_bad(x.k, x.M, x.pkg)

    def more_post(self, c, x, y):
        return [('messages', y.M == sc_msgs(x.k, x.M, x.pkg)), ('options', y.o == sc_opts(x.k, x.M, x.pkg, x.o)), ('valid and distinct', z3.Implies(okmsgs(x.M), okmsgs(y.M))), ('references', z3.Implies(allin(x.M), allin(y.M)))]
    forward = False

    @property
    def loops(self):
        def inv(L):
            c, x, y = self.loop_view(L)
            return y.ok(False) + [('none is given back', y.flag == 0), ('errors', sc_bad(y.k, y.M, y.pkg) == sc_bad(x.k, x.M, x.pkg)), ('messages', sc_msgs(y.k, y.M, y.pkg) == sc_msgs(x.k, x.M, x.pkg)),
                                  ('options', sc_opts(y.k, y.M, y.pkg, y.o) == sc_opts(x.k, x.M, x.pkg, x.o)), ('valid and distinct', z3.Implies(okmsgs(x.M), okmsgs(y.M))), ('references', z3.Implies(allin(x.M), allin(y.M)))]
        return [LoopSpec('schema', {}, inv, self.left)]


class Whole(Contract):
    """Proto3::parse, into an empty schema"""
    name = 'Proto3::parse'
    unit = 'proto3'
    rx = r'^protogen::Proto3::parse\('
    uses = ('Proto', 'Find')
    fuel = 2
    opaque = ('tokens', 'schema_bad', 'schema_messages', 'schema_options')
    exception = FieldFn.exception

    def setups(self, ex):
        grammar(ex.mod)
        st = State()
        tree = Ptr(ex.new_obj(st, 'tree', 'raw', sizeof(ex, '6Proto3')), 0)
        t = members(ex, '6Proto3')
        REFS.store(ex, st, tree.add(t['messages']), mq.nil)
        OptsK().store(ex, st, tree.add(t['options']), Opts.NoOpts)
        StringK().put(ex, st, tree.add(t['fileName']))
        s = ex.new_obj(st, 'stream', 'raw', 280)
        v = ex.new_obj(st, 'table of the stream', 'raw', 24)        # its base is where it is
        ex.put(st, v, 0, 0, 8)
        ex.put(st, s, 0, Ptr(v, 24), 8)
        st.ghost[('chars', s)] = fresh('T', Str)
        st.ghost[('skipws', s)] = fresh('skipws', BOOL)
        st.ghost['fields'] = PARSED
        ex.consts['live elements'] = live_fields
        f = Ptr(ex.new_obj(st, 'file name', 'raw', 32), 0)
        StringK().put(ex, st, f)
        yield '', st, [tree, Ptr(s, 0), f]

    def T(self, c):
        return chars(c.st0, c.args[1].obj)

    def k(self, c):
        return toks(self.T(c), BITS(0, 64))

    def part(self, c, st, k, f):
        return k.load(c.ex, st, c.args[0].add(members(c.ex, '6Proto3')[f]))

    def pre(self, c):
        return [('text', z3.ULT(slen(self.T(c)), scan.TEXT)), ('nothing parsed yet', z3.And(self.part(c, c.st0, REFS, 'messages') == mq.nil, self.part(c, c.st0, OptsK(), 'options') == Opts.NoOpts))]

    def M(self, c):
        return sc_msgs(self.k(c), mq.nil, Nil)

    def throws(self, c):
        return z3.Or(sc_bad(self.k(c), mq.nil, Nil), uaf(self.M(c), BITS(0, 64)))

    def havoc(self, c):
        ex, st, t = c.ex, c.st1, members(c.ex, '6Proto3')
        for f, k in (('messages', REFS), ('options', OptsK()), ('fileName', StringK())):
            p = c.args[0].add(t[f])
            k.put(ex, st, p)
            c.mods.add((p.obj, p.off))
        st.ghost['fields'] = fresh('fields', Heap)
        c.mods.add('fields')

    def post(self, c):
        M = self.part(c, c.st1, REFS, 'messages')
        return [('messages', M == self.M(c)), ('options', self.part(c, c.st1, OptsK(), 'options') == sc_opts(self.k(c), mq.nil, Nil, Opts.NoOpts)),
                ('name of the file', self.part(c, c.st1, StringK(), 'fileName') == c.s0(c.args[2])), ('each is one', z3.And(plain(M), z3.ULT(mq.len(M), LIM))), ('valid and distinct', okmsgs(M)), ('references', allin(M)),
                ('references are resolved', c.st1.ghost['fields'] == rH(M, mq.len(M)))]

    def post_throw(self, c):
        k = ('skipws', c.args[1].obj)
        return [('white space is skipped as before', c.st1.ghost[k] == c.st0.ghost[k])]

    @property
    def loops(self):
        Z = BITS(0, 64)

        def view(L):
            c = View(L.ex, L.ex.entry, L.st, L.st.frames[0].args)
            return c, self.part(c, L.st, REFS, 'messages'), position(L)

        def inv(L):
            c, M, i = view(L)
            return [('unresolved', uaf(M, i) == uaf(M, Z)), ('resolved so far', L.st.ghost['fields'] == rH(M, i))]

        def msg(L):
            ks = [k for k in L.st.mem if k.startswith('message:')]
            if not ks:      # none has been looked at yet: the one a local variable refers to
                for n, o, _ in reversed([a for f in L.st.frames for a in f.allocas]):
                    p = L.st.mem[o].cells.get(0, (None,))[0] if o in L.st.mem and not n.startswith('__') else None
                    if not isinstance(p, Ptr) or p.obj not in L.st.mem:
                        continue
                    d, i, _ = L.ex.consts.get('element:%s' % p.obj) or (L.st.mem[p.obj].meta, p.off, None)
                    if isinstance(d, VecData) and d.k.tag == REFS.tag:
                        m = z3.simplify(mq.at(d.term, bv(i, 64)))
                        return m, L.st.ghost['fields'][m]
            if len(ks) != 1:
                raise Unsupported('which message')
            return L.ex.consts[ks[0]], FIELDS.load(L.ex, L.st, Ptr(ks[0], members(L.ex, '7Message')['fields']))

        def inv2(L):
            c, M, j = view(L)
            m, F = msg(L)
            if not m.decl().eq(mq.at.f):
                raise Unsupported('which message')
            P = pfields(m)
            return [('unresolved', uf(P, M, j) == uf(P, M, Z)), ('resolved so far', F == rs(P, M, j)),
                    ('in the message', L.st.ghost['fields'] == z3.Store(rH(M, m.arg(1)), m, F))]
        return field_loops('fields', {}, inv2, lambda L: fq.len(pfields(msg(L)[0])), False) + field_loops('messages', {}, inv, lambda L: mq.len(view(L)[1]), False)

SCHEMA = ['schema.Option', 'schema.FieldOptions', 'schema.StandardOption', 'schema.Find', 'schema.FieldP', 'schema.Message', 'schema.Package', 'schema.Syntax', 'schema.Proto', 'schema.Whole']
LEMMAS = ['schema.Identities', 'schema.CatNil', 'schema.CatAssoc', 'schema.FromFront', 'schema.FieldsOk', 'schema.Distinct', 'schema.Resolving', 'schema.HeapL', 'schema.Found', 'schema.RefsIn', 'schema.Lead']
