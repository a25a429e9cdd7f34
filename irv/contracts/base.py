"""The abstract stream interface and the shape of the runtime objects.

istream (protogen::istream) is an abstract class.  Its contract: a position q (ghost), from which
pk(q) is the character there (0 at the end), nx(q) the next position, eofp(q) the end test, ln(q) and
cl(q) the line and column.  rem(q) >= 0 is the number of characters left.  iterator_istream is proved
to implement it (contracts/streams.py); everything that reads JSON is proved against the interface.

ostream (protogen::ostream): a ghost text `out` to which every operator<< appends.
"""
import re, z3
from ..sym import *
from ..exec import *
from ..contract import *

pk = Spec('pk', [INT], B32)
nx = Spec('nx', [INT], INT)
eofp = Spec('eofp', [INT], BOOL)
ln = Spec('ln', [INT], B32)
cl = Spec('cl', [INT], B32)
rem = Spec('rem', [INT], INT)
POS = {s.name for s in (pk, nx, eofp, ln, cl, rem)}


def stream_axioms(fs):
    """instances of the interface's laws for every position mentioned"""
    out = []
    done = set()
    for e in apps(fs):
        if e.decl().name() in POS:
            q = e.arg(0)
            if q.get_id() in done:
                continue
            done.add(q.get_id())
            r = rem(q)
            c = pk(q)
            out += [r >= 0, eofp(q) == (r == 0),
                    z3.Implies(r == 0, z3.And(c == 0, nx(q) == q)),
                    z3.Implies(r > 0, rem(nx(q)) < r), rem(nx(q)) >= 0,
                    z3.And(c >= -128, c <= 127)]
    return out


def stream_slots(mod, cls, sig):
    """virtual table slots of a class of the runtime, by method signature"""
    key = ('slots', cls)
    if not hasattr(mod, '_slots'):
        mod._slots = {}
    if key not in mod._slots:
        r = {}
        found = []
        for k, v in mod.md.items():
            if 'DISubprogram(' in v and 'virtualIndex:' in v and 'PureVirtual' in v:
                m = re.search(r'linkageName: "([^"]*)"', v)
                if m:
                    found.append((m.group(1), v))
        import subprocess
        dem = subprocess.run(['c++filt'], input='\n'.join(n for n, _ in found), capture_output=True, text=True).stdout.split('\n')
        for (n, v), d in zip(found, dem):
            if True:
                q = re.match(r'protogen[\w]*::%s::(.*)$' % cls, d)
                if q:
                    r[q.group(1)] = int(re.search(r'virtualIndex: (\d+)', v).group(1))
        mod._slots[key] = r
    for k, v in mod._slots[key].items():
        if re.match(sig, k):
            return v
    raise Unsupported('no virtual function %s in %s' % (sig, cls))


def istream_call(ex, st, oid, slot, args):
    sl = lambda s: stream_slots(ex.mod, 'istream', s)
    q = st.ghost[('q', oid)]
    if slot == sl(r'peek\('):
        return [(st, norm(pk(q), 32))]
    if slot == sl(r'next\('):
        st.ghost[('q', oid)] = nx(q)
        return [(st, None)]
    if slot == sl(r'eof\('):
        return [(st, norm(eofp(q), 1))]
    if slot == sl(r'line\('):
        return [(st, norm(ln(q), 32))]
    if slot == sl(r'column\('):
        return [(st, norm(cl(q), 32))]
    raise Unsupported('virtual call %d on istream' % slot)


STRSIG = r'operator<<\(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > const&\)'


def ostream_call(ex, st, oid, slot, args):
    sl = lambda s: stream_slots(ex.mod, 'ostream', s)
    o = st.ghost[('out', oid)]
    if slot == sl(STRSIG):
        t = ex.get_str(st, args[1])
    elif slot in (sl(r'operator<<\(char const\*\)'), sl(r'operator<<\(char\*\)')):
        t = ex.cstr(st, args[1])
    elif slot == sl(r'operator<<\(char\)'):
        if args[1] is UNDEF:
            ex.fail(st, 'write of an uninitialised character')
            raise DeadPath()
        st.ghost[('out', oid)] = Snoc(o, bv(args[1], 8))
        return [(st, args[0])]
    else:
        raise Unsupported('virtual call %d on ostream' % slot)
    st.ghost[('out', oid)] = mkcat(o, t)
    return [(st, args[0])]


IFACE = {'istream': istream_call, 'ostream': ostream_call}


class RT:
    """offsets of the runtime classes, read from the debug information of the current build"""

    def __init__(self, mod):
        self.mod = mod
        M = lambda rx: self._m(mod, rx)
        self.token = M(r'^_ZTSN14?protogen.*8internal5tokenE$')
        self.tok = M(r'^_ZTSN.*protogen.*8internal9tokenizerE$')
        self.err = M(r'^_ZTSN.*protogen\w*9ErrorInfoE$')
        self.par = M(r'^_ZTSN.*protogen\w*10ParametersE$')
        self.ctx = M(r'^_ZTSN.*protogen\w*12json_contextE$')
        self.ids = self.enum('token_id', r'8internal8token_idE')
        self.codes = self.enum('error_code', r'10error_codeE')
        self.res = self.enum('parse_error', r'11parse_errorE')
        self.size_token = self.size(r'internal5tokenE$')

    def _m(self, mod, rx):
        r = mod.members(rx.replace('N14?', 'N.*'))
        if not r:
            raise Unsupported('no debug information for ' + rx)
        return r

    def size(self, rx):
        for k, v in self.mod.md.items():
            if 'DICompositeType(' in v and 'FwdDecl' not in v:
                m = re.search(r'identifier: "([^"]*)"', v)
                if m and re.search(rx, m.group(1)):
                    return int(re.search(r'size: (\d+)', v).group(1)) // 8
        raise Unsupported('no size for ' + rx)

    def enum(self, name, rx):
        for k, v in self.mod.md.items():
            if 'DW_TAG_enumeration_type' in v and 'name: "%s"' % name in v:
                e = int(re.search(r'elements: !(\d+)', v).group(1))
                r = {}
                for x in re.findall(r'!(\d+)', self.mod.md[e]):
                    d = self.mod.md[int(x)]
                    n = re.search(r'DIEnumerator\(name: "([^"]*)", value: (-?\d+)', d)
                    if n:
                        r[n.group(1)] = int(n.group(2))
                return r
        raise Unsupported('no enumeration ' + name)

    # objects -----------------------------------------------------------
    def istream(self, ex, st):
        oid = ex.new_obj(st, 'input', 'istream', None)
        st.ghost[('q', oid)] = fresh('q', INT)
        return oid

    def ostream(self, ex, st):
        oid = ex.new_obj(st, 'output', 'ostream', None)
        o = fresh('out', Str)
        st.ghost[('out', oid)] = o
        return oid

    def strv(self, ex, st, p, name='s'):
        t = fresh(name, Str)
        st.assume(z3.ULT(slen(t), LIM))
        ex.put(st, p.obj, p.off, AbsStr(t), 32)
        return t

    def put_token(self, ex, st, p, name='tok'):
        o = self.token
        for f in ('id', 'line', 'column'):
            ex.put(st, p.obj, p.off + o[f], fresh(name + '_' + f, B32), 4)
        self.strv(ex, st, p.add(o['value']), name + '_value')

    def put_error(self, ex, st, p):
        o = self.err
        for f in ('code', 'line', 'column'):
            ex.put(st, p.obj, p.off + o[f], fresh('err_' + f, B32), 4)
        self.strv(ex, st, p.add(o['message']), 'err_msg')

    def params(self, ex, st, name='params'):
        oid = ex.new_obj(st, name, 'raw', self.size(r'10ParametersE$'))
        p = Ptr(oid, 0)
        self.put_params(ex, st, p)
        return p

    def put_params(self, ex, st, p):
        for f, off in self.par.items():
            if f == 'error':
                self.put_error(ex, st, p.add(off))
            else:
                b = fresh('par_' + f, B8)
                st.assume(z3.ULE(b, 1))
                ex.put(st, p.obj, p.off + off, b, 1)

    def tokenizer(self, ex, st, errp=None):
        inp = self.istream(ex, st)
        if errp is None:
            e = ex.new_obj(st, 'error', 'raw', self.size(r'9ErrorInfoE$'))
            errp = Ptr(e, 0)
            self.put_error(ex, st, errp)
        t = ex.new_obj(st, 'tokenizer', 'raw', self.size(r'9tokenizerE$'))
        p = Ptr(t, 0)
        self.put_token(ex, st, p.add(self.tok['current_']), 'cur')
        ex.put(st, t, self.tok['input_'], Ptr(inp, 0), 8)
        ex.put(st, t, self.tok['error_'], errp, 8)
        return p

    # access ------------------------------------------------------------
    def input_of(self, ex, st, tk):
        return ex.load(st, tk.add(self.tok['input_']), 'ptr').obj

    def err_of(self, ex, st, tk):
        return ex.load(st, tk.add(self.tok['error_']), 'ptr')

    def cur(self, tk):
        return tk.add(self.tok['current_'])


def rt(ex):
    if not hasattr(ex.mod, '_rt'):
        ex.mod._rt = RT(ex.mod)
    return ex.mod._rt


class TokView:
    """a token in memory, before and after"""

    def __init__(self, c, p):
        self.c, self.p, self.o = c, p, rt(c.ex).token

    def id0(self): return self.c.i0(self.p.add(self.o['id']), 32)
    def id1(self): return self.c.i1(self.p.add(self.o['id']), 32)
    def val0(self): return self.c.s0(self.p.add(self.o['value']))
    def val1(self): return self.c.s1(self.p.add(self.o['value']))
    def line0(self): return self.c.i0(self.p.add(self.o['line']), 32)
    def line1(self): return self.c.i1(self.p.add(self.o['line']), 32)
    def col0(self): return self.c.i0(self.p.add(self.o['column']), 32)
    def col1(self): return self.c.i1(self.p.add(self.o['column']), 32)

    def havoc(self):
        for f in ('id', 'line', 'column'):
            self.c.h_int(self.p.add(self.o[f]), 32)
        self.c.h_str(self.p.add(self.o['value']))


# ------------------------------------------------------------------ loops over a sequence
def position(L):
    return bv(L['it'].off if isinstance(L['it'], Ptr) else L['it'], 64)


def field_loops(name, roles, inv, n, counter=True):
    """a loop over a vector by iterator or by index, with or without a counter of its own"""
    out = []

    def all_(L):
        r = [('position', z3.ULE(position(L), n(L)))]
        if 'count' in L.role_names():
            r.append(('counter', z3.And(L['count'] >= 0, z3.ULE(z3.ZeroExt(32, L['count']), position(L)))))
        return r + inv(L)
    for kind, hints in (('ptr', ['__begin', 'it', '__begin1', '__begin2']), ('i64', ['i', 'j', 'k', 'n', 'index'])):
        for cnt in ((True, False) if counter else (False,)):
            ro = dict(roles, it=(kind, hints))
            if cnt:
                ro['count'] = ('i32', ['i', 'n', 'count', 'idx'])
            out.append(LoopSpec(name, ro, all_, lambda L: n(L) - position(L), moving=('it',)))
    return out
