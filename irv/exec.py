"""Symbolic execution of LLVM IR between cut points: generates the proof obligations.

A function under contract is executed path by path from its precondition.  Calls
to functions under contract are replaced by the callee's contract, calls to the
standard library by the assumed contracts in stl.py, every other function is
executed in place.  A loop whose exit condition is concrete is executed
completely; any other loop is cut at its header with an invariant.
"""
import z3, re, copy, time
from .sym import *
from .llir import IRError


class Unsupported(Exception):
    """the verifier cannot handle a construct: the function is not proved"""


class PeekStop(Exception):
    def __init__(self, concrete):
        self.concrete = concrete


class _Undef:
    def __repr__(self):
        return 'undef'


UNDEF = _Undef()


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)

    def add(self, n):
        return Ptr(self.obj, addoff(self.off, n))


NULL = Ptr(None, 0)


def addoff(a, n):
    if isinstance(a, int) and isinstance(n, int):
        return a + n
    r = z3.simplify(bv(a, 64) + bv(n, 64))
    return sgn(r.as_long()) if z3.is_bv_value(r) else r


def sgn(v, w=64):
    return v - (1 << w) if v >= 1 << (w - 1) else v


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class VTab:
    """address of the virtual table (slot) of an abstract object"""
    __slots__ = ('obj', 'slot')

    def __init__(self, obj, slot=0):
        self.obj, self.slot = obj, slot


class VFn:
    __slots__ = ('obj', 'slot')

    def __init__(self, obj, slot):
        self.obj, self.slot = obj, slot


class Abs:
    """abstract value of a library object kept in one memory cell"""
    kind = 'abs'

    def __init__(self, t, **kw):
        self.t = t
        self.kw = kw

    def same(self, o):
        return type(self) is type(o) and (self.t is o.t or (hasattr(self.t, 'eq') and self.t.eq(o.t))) and self.kw == o.kw


class AbsStr(Abs):
    kind = 'str'


class AbsVec(Abs):
    """vector/list: t is a term of kw['sort'] handled by a sequence theory object in kw['th']"""
    kind = 'vec'


class AbsObj(Abs):
    kind = 'obj'


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = list(v)


class Obj:
    __slots__ = ('id', 'name', 'kind', 'size', 'cells', 'default', 'meta')

    def __init__(self, id, name, kind, size, default=None, meta=None):
        self.id, self.name, self.kind, self.size = id, name, kind, size
        self.cells = {}
        self.default = default
        self.meta = meta

    def clone(self):
        o = Obj(self.id, self.name, self.kind, self.size, self.default, self.meta)
        o.cells = dict(self.cells)
        return o


class Frame:
    __slots__ = ('fn', 'block', 'idx', 'loc', 'prev', 'ret_dst', 'fresh', 'unroll', 'inv', 'allocas', 'args')

    def __init__(self, fn):
        self.fn = fn
        self.block = fn.blocks and fn.entry
        self.idx = 0
        self.loc = {}
        self.prev = None
        self.ret_dst = None
        self.fresh = False
        self.unroll = {}
        self.inv = None
        self.allocas = []
        self.args = None

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn, f.block, f.idx, f.prev, f.ret_dst, f.fresh = self.fn, self.block, self.idx, self.prev, self.ret_dst, self.fresh
        f.loc = dict(self.loc)
        f.unroll = dict(self.unroll)
        f.inv = self.inv
        f.allocas = list(self.allocas)
        f.args = self.args
        return f


class State:
    __slots__ = ('frames', 'mem', 'owned', 'pc', 'ghost', 'steps', 'notes', 'hold', 'arrived')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.owned = set()
        self.pc = []
        self.ghost = {}
        self.steps = 0
        self.notes = []
        self.hold = False
        self.arrived = False

    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.owned = set()
        self.owned = set()
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.steps = self.steps
        s.notes = list(self.notes)
        s.hold = self.hold
        s.arrived = self.arrived
        return s

    def w(self, oid):
        if oid not in self.owned:
            self.mem[oid] = self.mem[oid].clone()
            self.owned.add(oid)
        return self.mem[oid]

    def assume(self, f):
        f = tobool(f)
        g = z3.simplify(f)
        if not z3.is_true(g):
            self.pc.append(f)


class Obl:
    __slots__ = ('fn', 'name', 'where', 'status', 'model', 'goal', 'pc')

    def __init__(self, fn, name, where, status, model=None, goal=None, pc=None):
        self.fn, self.name, self.where, self.status, self.model = fn, name, where, status, model
        self.goal, self.pc = goal, pc


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def norm(v, w):
    """normalize an integer value: python int if concrete"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v & ((1 << w) - 1)
    v = z3.simplify(v)
    if w == 1 and z3.is_bool(v):
        if z3.is_true(v):
            return 1
        if z3.is_false(v):
            return 0
        return v
    if z3.is_bv_value(v):
        return v.as_long()
    return v


def asbv(v, w):
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


class Exec:
    MAXSTEPS = 200000
    MAXSTATES = 6000

    def __init__(self, mod, prover, contracts=(), models=None, iface=None, deadline=None):
        self.mod, self.pv = mod, prover
        self.contracts = list(contracts)      # applied at call sites
        self.models = models                  # stl models: f(ex, st, dem, name, args, rt) -> list of (st, ret) or None
        self.iface = iface or {}              # virtual calls on abstract objects, by object kind
        self.obls = []
        self.ids = 0
        self.peeking = None
        self.loop_specs = []
        self.used_models = set()
        self.used_contracts = set()
        self.inlined = set()
        self.target = None
        self.nstates = 0
        self.globals_cache = {}
        self.deadline = deadline
        self.loop_report = []
        self.throw_mode = 'allow'
        self.consts = {}
        self.join = False
        self._ccache = {}
        self.entry_rank = None

    # ------------------------------------------------------------- memory
    def new_obj(self, st, name, kind='raw', size=None, default=None, meta=None):
        self.ids += 1
        oid = '%s#%d' % (name, self.ids)
        st.mem[oid] = Obj(oid, name, kind, size, default, meta)
        st.owned.add(oid)
        return oid

    def where(self, st):
        if not st.frames:
            return '?'
        out = []
        for f in reversed(st.frames[-3:]):
            i = f.fn.blocks[f.block][min(f.idx, len(f.fn.blocks[f.block]) - 1)]
            nm = self.mod.demangle(f.fn.name)
            out.append('%s:%s' % (re.sub(r'\(.*', '', nm)[-70:], self.mod.line_of(i.dbg)))
        return ' < '.join(out)

    def oblige(self, st, name, goal, assume=True):
        if self.peeking is not None:
            st.assume(goal)
            return True
        goal = tobool(goal)
        g = z3.simplify(goal)
        if z3.is_true(g):
            self.obls.append(Obl(self.target, name, self.where(st), 'unsat'))
            return True
        r, model = self.pv.prove(st.pc, goal)
        o = Obl(self.target, name, self.where(st), r, model, goal, list(st.pc) if r != 'unsat' else None)
        self.obls.append(o)
        if assume:
            st.pc.append(goal)
        return r == 'unsat'

    def fail(self, st, name):
        """an obligation that does not hold if this point is reachable"""
        return self.oblige(st, name, z3.BoolVal(False))

    def global_obj(self, st, name):
        oid = '@' + name
        if oid in st.mem:
            return oid
        gi = self.mod.global_init(name)
        if gi is None:
            raise Unsupported('global ' + name)
        const, ty, val = gi
        o = Obj(oid, name, 'global', self.mod.sizeof(ty) if val is not None else None, None, dict(const=const))
        if val is not None:
            self.fill(st, o, 0, ty, val)
        st.mem[oid] = o
        st.owned.add(oid)
        return oid

    def fill(self, st, o, off, ty, val):
        ty = self.mod.resolve(ty)
        k = val[0]
        if k == 'cstr':
            for i, b in enumerate(val[1]):
                o.cells[off + i] = (b, 1)
        elif k == 'zero':
            if ty[0] == 'arr':
                sz = self.mod.sizeof(ty[2])
                if ty[1] * sz > 4096:
                    raise Unsupported('large zero array')
                for i in range(ty[1]):
                    self.fill(st, o, off + i * sz, ty[2], ('zero', ty[2]))
            elif ty[0] == 'struct':
                for e, p in zip(ty[1], self.mod.layout(ty)[2]):
                    self.fill(st, o, off + p, e, ('zero', e))
            elif ty == 'ptr':
                o.cells[off] = (NULL, 8)
            elif ty in ('float', 'double'):
                o.cells[off] = (z3.FPVal(0.0, fpsort(ty)), self.mod.sizeof(ty))
            else:
                o.cells[off] = (0, self.mod.sizeof(ty))
        elif k == 'agg':
            if ty[0] == 'arr':
                sz = self.mod.sizeof(ty[2])
                for i, (t, v) in enumerate(val[1]):
                    self.fill(st, o, off + i * sz, t, v)
            else:
                for (t, v), p in zip(val[1], self.mod.layout(ty)[2]):
                    self.fill(st, o, off + p, t, v)
        elif k == 'undef':
            pass
        elif k in ('glob', 'cgep', 'null', 'int', 'fp', 'fphex', 'ccast', 'cbin'):
            if k == 'glob' and val[1] not in self.mod.globals:
                o.cells[off] = (Fn(val[1]), 8)
            else:
                o.cells[off] = (self.const(st, ty, val), self.mod.sizeof(ty))
        else:
            raise Unsupported('initializer ' + k)

    def const(self, st, ty, val):
        k = val[0]
        if k == 'int':
            t = self.mod.resolve(ty)
            return val[1] & ((1 << t[1]) - 1)
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            t = self.mod.resolve(ty)
            if t == 'ptr':
                return NULL
            if t[0] == 'i':
                return 0
            if t[0] == 'struct':
                return Agg([self.const(st, e, ('zero', e)) for e in t[1]])
        if k == 'glob':
            n = val[1]
            if n in self.mod.funcs or n in self.mod.decls:
                return Fn(n)
            if n not in self.mod.globals:
                raise Unsupported('global ' + n)
            return Ptr(self.global_obj(st, n), 0)
        if k == 'cgep':
            (bt, base) = val[2][0]
            p = self.const(st, bt, base)
            return self.gep(st, val[1], p, [(t, self.const(st, t, v)) for t, v in val[2][1:]], False)
        if k == 'fp':
            return z3.FPVal(val[1], fpsort(val[2]))
        if k == 'fphex':
            import struct
            h = val[1]
            if re.match(r'0x[KLMHR]', h):
                raise Unsupported('fp literal')
            d = struct.unpack('>d', int(h, 16).to_bytes(8, 'big'))[0]
            return z3.FPVal(d, fpsort(val[2]))
        if k == 'agg':
            return Agg([self.const(st, t, v) for t, v in val[1]])
        raise Unsupported('constant ' + k)

    def val(self, st, ty, v):
        k = v[0]
        if k == 'loc':
            try:
                return st.frames[-1].loc[v[1]]
            except KeyError:
                raise Unsupported('undefined local ' + v[1])
        return self.const(st, ty, v)

    def gep(self, st, ty, p, idx, inb=True):
        t = ty
        off = 0
        first = True
        for (it, iv) in idx:
            if iv is UNDEF:
                self.fail(st, 'uninitialised index')
                raise Unsupported('undef index')
            if first:
                sz = self.mod.sizeof(t)
                first = False
            else:
                rt = self.mod.resolve(t)
                if rt[0] == 'struct':
                    off = addoff(off, self.mod.layout(rt)[2][iv])
                    t = rt[1][iv]
                    continue
                t = rt[2]
                sz = self.mod.sizeof(t)
            w = self.mod.resolve(it)[1]
            if isinstance(iv, int):
                off = addoff(off, sgn(iv, w) * sz)
            else:
                e = iv if w == 64 else z3.SignExt(64 - w, iv)
                off = addoff(off, e * sz if sz != 1 else e)
        if isinstance(p, VTab):
            return VTab(p.obj, p.slot + off // 8)
        if not isinstance(p, Ptr):
            raise Unsupported('gep on %r' % (p,))
        if p.obj is None:
            if isinstance(off, int) and off == 0:
                return p
            self.fail(st, 'null pointer arithmetic')
            raise Unsupported('gep on null')
        return Ptr(p.obj, addoff(p.off, off))

    def check_ptr(self, st, p, size, what):
        if p is UNDEF:
            self.fail(st, what + ' through uninitialised pointer')
            raise Unsupported('undef pointer')
        if not isinstance(p, Ptr):
            raise Unsupported('%s through %r' % (what, p))
        if p.obj is None:
            self.fail(st, what + ' through null pointer')
            raise DeadPath()
        o = st.mem.get(p.obj)
        if o is None:
            raise Unsupported('dangling object %s' % p.obj)
        if o.kind == 'freed':
            self.fail(st, what + ' of freed memory')
            raise DeadPath()
        if o.size is not None:
            if isinstance(p.off, int) and isinstance(o.size, int):
                if not (0 <= p.off and p.off + size <= o.size):
                    self.fail(st, what + ' within bounds')
                    raise DeadPath()
            else:
                off, sz = bv(p.off, 64), bv(o.size, 64)
                self.oblige(st, what + ' within bounds', z3.And(z3.ULE(off, sz), z3.ULE(bv(size, 64), sz - off)))
        return o

    def load(self, st, p, ty):
        rt = self.mod.resolve(ty)
        size = self.mod.sizeof(rt)
        if isinstance(p, VTab):
            if rt == ('i', 64):
                return 0        # offset of a virtual base: the object and its bases are one
            return VFn(p.obj, p.slot)
        if isinstance(p, Ptr) and p.obj in st.mem and hasattr(st.mem[p.obj].meta, 'load'):
            return st.mem[p.obj].meta.load(self, st, p, rt, size)
        o = self.check_ptr(st, p, size, 'read')
        if o.kind in self.iface:
            if isinstance(p.off, int) and p.off == 0 and rt == 'ptr':
                return VTab(p.obj)
            raise Unsupported('load from abstract ' + o.kind)
        return self.load_raw(st, o, p.off, rt, size)

    def load_raw(self, st, o, off, rt, size):
        if rt[0] == 'struct':
            return Agg([self.load_raw(st, o, off + q, self.mod.resolve(e), self.mod.sizeof(e))
                        for e, q in zip(rt[1], self.mod.layout(rt)[2])])
        if isinstance(off, int):
            c = o.cells.get(off)
            if c is not None and c[1] == size:
                v = c[0]
                if isinstance(v, Abs):
                    raise Unsupported('raw read of library object %s at %s' % (v.kind, o.name))
                if isinstance(v, int) and rt == ('i', 1):
                    return v & 1
                if rt == 'ptr' and isinstance(v, int) and v == 0:
                    return NULL
                return v
            if c is None and o.default is not None and not self.overlap(o, off, size):
                if rt == 'ptr':
                    return NULL
                if rt in ('float', 'double'):
                    return z3.FPVal(0.0, fpsort(rt))
                return o.default
            if c is None and not self.overlap(o, off, size):
                return UNDEF
            # compose from smaller cells
            if rt[0] == 'i' and size <= 8:
                bs = []
                for k in range(size):
                    b = self.byte_at(o, off + k)
                    if b is None:
                        raise Unsupported('mixed-size read of %s' % o.name)
                    if b is UNDEF:
                        return UNDEF
                    bs.append(b)
                if all(isinstance(b, int) for b in bs):
                    return sum(b << (8 * k) for k, b in enumerate(bs))
                return norm(z3.Concat(*[bv(b, 8) for b in reversed(bs)]), 8 * size)
            raise Unsupported('mixed read of %s' % o.name)
        # symbolic offset in an object with uniform cells
        if not o.cells or o.size is None or o.size > 1024:
            raise Unsupported('symbolic offset in %s' % o.name)
        res = None
        w = size * 8
        for k in sorted(o.cells):
            v, s = o.cells[k]
            if s != size or not (isinstance(v, int) or z3.is_bv(v)):
                if k % size == 0 and s != size:
                    raise Unsupported('symbolic offset over mixed cells in %s' % o.name)
                continue
            v = bv(v, w)
            res = v if res is None else z3.If(bv(off, 64) == k, v, res)
        if res is None:
            raise Unsupported('symbolic offset in %s' % o.name)
        return res

    def overlap(self, o, off, size):
        for k in range(off - 31, off + size):
            c = o.cells.get(k)
            if c is not None and k + c[1] > off:
                return True
        return False

    def byte_at(self, o, off):
        for k in range(off, off - 8, -1):
            c = o.cells.get(k)
            if c is not None:
                if k + c[1] <= off:
                    break
                v = c[0]
                if v is UNDEF:
                    return UNDEF
                if isinstance(v, int):
                    return (v >> (8 * (off - k))) & 255
                if z3.is_bv(v):
                    j = off - k
                    return z3.Extract(8 * j + 7, 8 * j, v)
                return None
        if o.default is not None:
            return o.default & 255
        return UNDEF

    def store(self, st, p, v, ty):
        rt = self.mod.resolve(ty)
        size = self.mod.sizeof(rt)
        if isinstance(p, Ptr) and p.obj in st.mem and hasattr(st.mem[p.obj].meta, 'store'):
            return st.mem[p.obj].meta.store(self, st, p, v, rt, size)
        o = self.check_ptr(st, p, size, 'write')
        if o.kind == 'global' and o.meta and o.meta.get('const'):
            self.fail(st, 'write to a constant')
            raise DeadPath()
        if o.kind == 'ro':
            self.fail(st, 'frame: write to %s' % o.name)
            raise DeadPath()
        if o.kind in self.iface:
            raise Unsupported('store to abstract ' + o.kind)
        self.put(st, p.obj, p.off, v, size)

    def put(self, st, oid, off, v, size):
        if st.mem[oid].kind == 'copy':
            raise Unsupported('write to %s through a reference' % st.mem[oid].name)
        o = st.w(oid)
        if isinstance(v, Agg):
            raise Unsupported('aggregate store')
        if not isinstance(off, int):
            # symbolic store into uniform cells
            if o.size is None or o.size > 512:
                raise Unsupported('symbolic store to %s' % o.name)
            for k in range(0, o.size - size + 1, size):
                c = o.cells.get(k)
                old = c[0] if c else (o.default if o.default is not None else None)
                if old is None or isinstance(old, (Ptr, Abs)) or old is UNDEF:
                    raise Unsupported('symbolic store to %s' % o.name)
                o.cells[k] = (norm(z3.If(bv(off, 64) == k, bv(v, size * 8), bv(old, size * 8)), size * 8), size)
            return
        c = o.cells.get(off)
        if c is None or c[1] != size:
            for k in list(o.cells):
                s = o.cells[k][1]
                if k < off + size and off < k + s:
                    cv = o.cells[k][0]
                    # split partially overwritten integer cells into bytes
                    if (isinstance(cv, int) or z3.is_bv(cv)) and s <= 8 and not (off <= k and k + s <= off + size):
                        del o.cells[k]
                        for j in range(s):
                            if not (off <= k + j < off + size):
                                b = (cv >> (8 * j)) & 255 if isinstance(cv, int) else z3.Extract(8 * j + 7, 8 * j, cv)
                                o.cells[k + j] = (b, 1)
                    else:
                        del o.cells[k]
        o.cells[off] = (v, size)

    def memcpy(self, st, d, s, n):
        if not isinstance(n, int):
            raise Unsupported('memcpy of symbolic size')
        if n == 0:
            return
        so = self.check_ptr(st, s, n, 'read')
        self.check_ptr(st, d, n, 'write')
        if not isinstance(s.off, int) or not isinstance(d.off, int):
            raise Unsupported('memcpy at symbolic offset')
        if hasattr(so.meta, 'load') or hasattr(st.mem[d.obj].meta, 'store'):
            raise Unsupported('memcpy on library data')
        cells = {}
        k = s.off
        while k < s.off + n:
            c = so.cells.get(k)
            if c is not None and k + c[1] <= s.off + n:
                cells[k - s.off] = c
                k += c[1]
            else:
                b = self.byte_at(so, k)
                if b is None:
                    raise Unsupported('memcpy of partial cell')
                if b is not UNDEF:
                    cells[k - s.off] = (b, 1)
                k += 1
        o = st.w(d.obj)
        for k in list(o.cells):
            if k < d.off + n and d.off < k + o.cells[k][1]:
                del o.cells[k]
        if o.default is not None and len(cells) * 1 < n:
            pass
        for k, c in cells.items():
            o.cells[d.off + k] = c

    # ------------------------------------------------------------- abstract cells
    def abs_at(self, st, p, kind=None):
        o = self.check_ptr(st, p, 1, 'access')
        if hasattr(o.meta, 'abs_at'):
            return o.meta.abs_at(self, st, p)
        if not isinstance(p.off, int):
            raise Unsupported('library object at symbolic offset')
        c = o.cells.get(p.off)
        if c is None or not isinstance(c[0], Abs):
            raise Unsupported('no library object at %s+%s' % (o.name, p.off))
        if kind and c[0].kind != kind:
            raise Unsupported('library object is %s, not %s' % (c[0].kind, kind))
        return c[0]

    def set_abs(self, st, p, a, size):
        o = self.check_ptr(st, p, size, 'access')
        if hasattr(o.meta, 'set_abs'):
            return o.meta.set_abs(self, st, p, a)
        if o.kind == 'ro' or (o.kind == 'global' and o.meta and o.meta.get('const')):
            self.fail(st, 'frame: write to %s' % o.name)
            raise DeadPath()
        if not isinstance(p.off, int):
            raise Unsupported('library object at symbolic offset')
        self.put(st, p.obj, p.off, a, size)

    def get_str(self, st, p):
        return self.abs_at(st, p, 'str').t

    def set_str(self, st, p, t):
        self.set_abs(st, p, AbsStr(z3.simplify(t) if False else t), 32)

    def cstr(self, st, p, limit=4096):
        """Str term of the NUL-terminated string at p"""
        o = self.check_ptr(st, p, 1, 'read')
        if hasattr(o.meta, 'cstr'):
            return o.meta.cstr(self, st, p)
        if not isinstance(p.off, int):
            raise Unsupported('C string at symbolic offset')
        c = o.cells.get(p.off)
        if c is not None and isinstance(c[0], Abs) and c[0].kind == 'cstr':
            return c[0].t
        t = Nil
        off = p.off
        for _ in range(limit):
            if o.size is not None and off >= o.size:
                self.fail(st, 'C string within bounds')
                raise DeadPath()
            b = self.byte_at(o, off)
            if b is None or b is UNDEF:
                raise Unsupported('C string in %s' % o.name)
            if isinstance(b, int):
                if b == 0:
                    return t
            else:
                # must be provably non-zero
                r, _ = self.pv.prove(st.pc, b != 0)
                if r != 'unsat':
                    r, _ = self.pv.prove(st.pc, b == 0)
                    if r == 'unsat':
                        return t
                    raise Unsupported('C string of unknown length')
            t = Snoc(t, bv(b, 8))
            off += 1
        raise Unsupported('C string too long')

    # ------------------------------------------------------------- exploration
    def feasible(self, st):
        return self.pv.feasible(st.pc)

    def explore(self, st0, base, region=None):
        """run until the frame at depth `base` returns (or the region is left); list of (kind, state, value)"""
        outs = []
        work = [st0]
        while work:
            if len(work) > 1 and self.peeking is None:
                ks = [self.order(s) for s in work]
                i = min(range(len(work)), key=lambda j: ks[j])
                st = work[i]
                same_place = [j for j in range(len(work)) if j != i and ks[j] == ks[i]] if st.hold else []
                drop = {i}
                for j in same_place:
                    if work[j].hold:
                        m = self.merge(st, work[j])
                        if m is not None:
                            st = m
                            drop.add(j)
                work = [w for j, w in enumerate(work) if j not in drop]
            else:
                st = work.pop()
            st.hold = False
            self.nstates += 1
            if self.nstates > self.MAXSTATES:
                raise Unsupported('too many paths')
            try:
                r = self.run(st, base, region)
            except DeadPath:
                continue
            for x in r:
                if isinstance(x, State):
                    work.append(x)
                else:
                    outs.append(x)
        return outs

    def order(self, st):
        return tuple((f.fn.rpo.get(f.block, 0), f.idx) for f in st.frames)

    def merge(self, a, b):
        """one state for two that stand at the same place, or None"""
        if len(a.frames) != len(b.frames):
            return None
        for f, g in zip(a.frames, b.frames):
            if f.fn is not g.fn or f.block != g.block or f.idx != g.idx or f.unroll != g.unroll or f.fresh != g.fresh:
                return None
            if len(f.allocas) != len(g.allocas) or any(x[1] != y[1] for x, y in zip(f.allocas, g.allocas)):
                return None
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n].eq(b.pc[n]):
            n += 1
        ca = z3.And(*a.pc[n:]) if len(a.pc) - n != 1 else a.pc[n]
        cb = z3.And(*b.pc[n:]) if len(b.pc) - n != 1 else b.pc[n]
        full = self.join
        m = a.clone()
        m.hold = True
        cond = z3.FreshBool('way')
        m.pc = a.pc[:n] + [z3.If(cond, ca, cb)]
        for f, g in zip(m.frames, b.frames):
            phis = {}
            for ins in f.fn.blocks[f.block]:
                if ins.op != 'phi':
                    break
                phis[ins.dst] = self.mod.resolve(ins.a[0])
            for k in list(f.loc):
                if k not in g.loc:
                    del f.loc[k]
                elif not same(f.loc[k], g.loc[k]):
                    t = phis.get(k)
                    if t is None:
                        del f.loc[k]
                        continue
                    x, y = f.loc[k], g.loc[k]
                    if t == ('i', 1) and x is not UNDEF and y is not UNDEF:
                        f.loc[k] = norm(z3.If(cond, tobool(x), tobool(y)), 1)
                        continue
                    v = self.ite(cond, x, y, t[1] // 8 if t[0] == 'i' else 8)
                    if v is None:
                        return None
                    f.loc[k] = v
        for g in set(a.ghost) | set(b.ghost):
            x, y = a.ghost.get(g), b.ghost.get(g)
            if not same(x, y):
                if not full or not is_sym(x) or not is_sym(y):
                    return None
                m.ghost[g] = z3.If(cond, x, y)
        live = set()
        for oid in set(a.mem) | set(b.mem):
            o, p = a.mem.get(oid), b.mem.get(oid)
            if o is p:
                continue
            if o is None or p is None:
                if oid.startswith('@') or (o or p).kind == 'sdata':
                    if o is None:
                        m.mem[oid] = p
                    continue
                # an object that only one of the two ever had: unreachable after the join unless something points to it
                if o is None:
                    m.mem[oid] = p
                continue
            if o.kind != p.kind or o.size is not p.size and o.size != p.size or o.default != p.default:
                return None
            for k in set(o.cells) | set(p.cells):
                x, y = o.cells.get(k), p.cells.get(k)
                if x is y:
                    continue
                if x is None or y is None:
                    if o.default is not None:
                        return None
                    # uninitialised on one side: stays uninitialised
                    m.w(oid).cells.pop(k, None)
                    continue
                if x[1] != y[1]:
                    return None
                if same(x[0], y[0]):
                    continue
                if not full and not (x[0] is UNDEF or y[0] is UNDEF):
                    return None
                v = self.ite(cond, x[0], y[0], x[1])
                if v is None:
                    return None
                m.w(oid).cells[k] = (v, x[1])
        return m

    def ite(self, c, x, y, size):
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.obj != y.obj:
                return None
            return Ptr(x.obj, norm(z3.If(c, bv(x.off, 64), bv(y.off, 64)), 64))
        if isinstance(x, Abs) and type(x) is type(y) and is_sym(x.t) and is_sym(y.t) and x.t.sort() == y.t.sort() and x.kw == y.kw:
            return type(x)(z3.If(c, x.t, y.t), **x.kw)
        if isinstance(x, int) and isinstance(y, int):
            return z3.If(c, z3.BitVecVal(x, 8 * size), z3.BitVecVal(y, 8 * size))
        if is_sym(x) or is_sym(y):
            s = x.sort() if is_sym(x) else y.sort()
            if s == BOOL:
                return z3.If(c, tobool(x), tobool(y))
            if z3.is_bv_sort(s):
                x, y = bv(x, s.size()), bv(y, s.size())
            if is_sym(x) and is_sym(y) and x.sort() == y.sort():
                return z3.If(c, x, y)
        return None

    def run(self, st, base, region):
        while True:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time limit')
            fr = st.frames[-1]
            if fr.fresh:
                fr.fresh = False
                depth = len(st.frames)
                if region is not None and depth == region[0]:
                    if fr.block == region[1]:
                        return [('back', st, None)]
                    if fr.block not in region[2]:
                        fr.fresh = True
                        return [('exit', st, None)]
                loops = fr.fn.loops
                if fr.block in loops:
                    body = loops[fr.block]
                    r = self.at_header(st, fr, body)
                    if r is not None:
                        # list of states that left the loop (positioned at fresh block starts)
                        return r
                elif self.peeking is None and not st.hold and st.arrived and len(fr.fn.preds[fr.block]) > 1:
                    st.arrived = False
                    st.hold = True
                    fr.fresh = True
                    return [st]
            ins = fr.fn.blocks[fr.block][fr.idx]
            st.steps += 1
            if st.steps > self.MAXSTEPS:
                raise Unsupported('too many steps')
            if self.peeking is not None:
                self.peeking[2] -= 1
                if self.peeking[2] < 0:
                    raise PeekStop(False)
            r = self.step(st, fr, ins, base, region)
            if r is not None:
                return r

    def goto(self, st, fr, target):
        fr.prev = fr.block
        fr.block = target
        st.arrived = True
        fr.idx = 0
        fr.fresh = True
        # phis read simultaneously
        blk = fr.fn.blocks[target]
        vals = []
        for i in blk:
            if i.op != 'phi':
                break
            for v, lab in i.a[1]:
                if lab == fr.prev:
                    vals.append((i.dst, self.val(st, i.a[0], v)))
                    break
            else:
                raise Unsupported('phi')
            fr.idx += 1
        for d, v in vals:
            fr.loc[d] = v

    def at_header(self, st, fr, body):
        """None: go on executing (unroll).  Otherwise a list of states/outcomes."""
        if self.peeking is not None:
            if len(st.frames) == self.peeking[0]:
                raise PeekStop(False)      # nested loop before the exit test
            return None
        h = fr.block
        conc = self.peek_exit(st, fr, body)
        if conc:
            n = fr.unroll.get(h, 0) + 1
            if n > 400:
                raise Unsupported('loop unrolled too often')
            fr.unroll[h] = n
            return None
        fr.unroll.pop(h, None)
        return self.cut(st, h, body)

    def peek_exit(self, st, fr, body):
        s = st.clone()
        save = self.obls, self.nstates
        self.obls = []
        self.peeking = [len(st.frames), body, 3000]
        try:
            s.frames[-1].fresh = False
            outs = self.explore(s, len(s.frames))
            return False
        except PeekStop as e:
            return e.concrete
        except (Unsupported, DeadPath):
            return False
        finally:
            self.peeking = None
            self.obls, self.nstates = save

    # ------------------------------------------------------------- loops
    def cut(self, st, h, body):
        depth = len(st.frames)
        fr = st.frames[-1]
        line = self.mod.line_of(fr.fn.blocks[h][0].dbg)
        specs = [s for s in self.loop_specs if s.applies(self, st, fr, h)]
        best = None
        late = []           # bindings under which the invariant does not hold initially: only if there is nothing else

        def choices():
            for named in (True, False):     # variables of the expected names first
                for sp in specs:
                    for bind, n in sp.bindings(self, st, depth, body):
                        if n == named:
                            yield sp, bind, True
            for sp, bind in late[:1]:
                yield sp, bind, False
        for _ in (0,):
            for sp, bind, quick in choices():
                mark = len(self.obls)
                mark_states = self.nstates
                try:
                    exits = self.try_loop(st, h, body, depth, sp, bind, quick, best[0] if best else None)
                except InitFails:
                    del self.obls[mark:]
                    late.append((sp, bind))
                    continue
                except Unsupported as e:
                    del self.obls[mark:]
                    if best is None:
                        best = (10 ** 6, None, None, sp, e)
                    continue
                mine = self.obls[mark:]
                del self.obls[mark:]
                bad = sum(1 for o in mine if o.status != 'unsat')
                if best is None or bad < best[0]:
                    best = (bad, mine, exits, sp, None)
                if bad == 0:
                    break
            if best and best[0] == 0:
                break
        if best is None:
            raise Unsupported('loop without an invariant in %s line %s' % (self.mod.demangle(fr.fn.name)[:80], line))
        if best[1] is None:
            raise best[4]
        self.obls.extend(best[1])
        self.loop_report.append('%s:%s invariant %s' % (re.sub(r'\(.*', '', self.mod.demangle(fr.fn.name)), line, best[3].name))
        return best[2]

    def only_read(self, fr, key, body):
        """a local variable that nothing in the loop changes"""
        nm = next((n for n, o, _ in fr.allocas if o == key[0]), None)
        if nm is None:
            return False
        rx = re.compile(re.escape(nm if nm.startswith('%') else '%' + nm) + r'(?![\w.])')
        for b in body:
            for i in fr.fn.blocks[b]:
                if i.op == 'load' or not rx.search(i.text):
                    continue
                f = i.a[1] if i.op in ('call', 'invoke') else None
                d = self.mod.demangle(str(f).lstrip('@')) if f is not None else ''
                if not re.search(r'\) const$|operator(==|!=|<=?|>=?|-|\*|->|\[\])(<.*>)?\(', d):
                    return False
        return True

    def try_loop(self, st, h, body, depth, sp, bind, quick=False, limit=None):
        start = len(self.obls)
        havoc = set()
        gh = set()
        for _ in range(12):
            mark = len(self.obls)
            L = LoopCtx(self, st, depth, bind)
            entry = st.clone()
            entry_m = len(self.obls)
            for n, f in sp.inv(L.at(entry, entry)):
                self.oblige(entry, 'loop invariant holds initially: ' + n, f, assume=False)
                if quick and self.obls[-1].status != 'unsat':
                    raise InitFails()
            hs = st.clone()
            self.havoc(hs, havoc, gh)
            hs.frames[-1].fresh = False
            C = L.at(hs, st)
            for n, f in sp.inv(C):
                hs.assume(f)
            base_state = hs.clone()
            meas0 = sp.measure(C)
            # phis at header have been evaluated in goto(); treat header phi as havocked
            outs = self.explore(hs, 0, (depth, h, body))
            new, newg = set(), set()
            exits = []
            backs = []
            for k, s, v in outs:
                if k == 'back':
                    backs.append(s)
                    self.diff(base_state, s, new, newg)
                elif k == 'exit':
                    exits.append(s)
                else:
                    exits.append((k, s, v))
            if new - havoc or newg - gh:
                havoc |= new
                gh |= newg
                del self.obls[mark:]
                continue
            for s in backs:
                CB = L.at(s, st)
                for n, f in sp.inv(CB):
                    self.oblige(s, 'loop invariant preserved: ' + n, f, assume=False)
                    if limit is not None and sum(1 for o in self.obls[start:] if o.status != 'unsat') >= limit:
                        raise Unsupported('worse than another choice')
                m1 = sp.measure(CB)
                if meas0 is not None:
                    self.oblige(s, 'loop measure decreases', lex_less(m1, meas0), assume=False)
            return exits
        raise Unsupported('loop havoc set does not stabilise')

    def havoc(self, st, cells, gh):
        for oid, off in cells:
            o = st.mem.get(oid)
            if o is None:
                continue
            if off == 'phi':
                continue
            c = o.cells.get(off)
            if c is None:
                if o.default is not None and isinstance(o.default, int):
                    # byte default
                    st.w(oid).cells[off] = (fresh('hv_' + o.name, B8), 1)
                continue
            v, size = c
            st.w(oid).cells[off] = (self.fresh_like(st, v, size, o.name), size)
        for g in gh:
            if isinstance(g, tuple) and g[0] == 'phi':
                fr = st.frames[g[1]]
                fr.loc[g[2]] = self.fresh_like(st, fr.loc[g[2]], None, g[2])
                continue
            v = st.ghost[g]
            st.ghost[g] = fresh('hv_%s' % (g if isinstance(g, str) else g[0]), v.sort()) if is_sym(v) else v

    def fresh_like(self, st, v, size, name):
        if v is UNDEF:
            return UNDEF
        if isinstance(v, Ptr):
            if v.obj is None:
                raise Unsupported('loop modifies a pointer that is null at entry')
            return Ptr(v.obj, fresh('hvp_' + name, B64))
        if isinstance(v, AbsStr):
            t = fresh('hvs_' + name, Str)
            st.assume(z3.ULT(slen(t), LIM))
            return AbsStr(t)
        if isinstance(v, Abs):
            if hasattr(v, 'fresh'):
                return v.fresh(self, st, name)
            raise Unsupported('loop modifies library object ' + v.kind)
        if isinstance(v, int):
            return fresh('hv_' + name, z3.BitVecSort(size * 8)) if size else fresh('hv_' + name, BOOL)
        if z3.is_bool(v):
            return fresh('hv_' + name, BOOL)
        return fresh('hv_' + name, v.sort())

    def diff(self, a, b, cells, gh):
        """cells of objects of `a` that differ in `b`"""
        for oid, o in a.mem.items():
            p = b.mem.get(oid)
            if p is o or p is None:
                continue
            if p.kind != o.kind:
                cells.add((oid, 'kind'))
                raise Unsupported('loop frees an object')
            for k in set(o.cells) | set(p.cells):
                x, y = o.cells.get(k), p.cells.get(k)
                if x is None or y is None:
                    if x is None and o.default is None:
                        continue           # uninitialised at the header: stays so
                    cells.add((oid, k))
                elif not same(x[0], y[0]):
                    cells.add((oid, k))
        for g, v in a.ghost.items():
            if not same(v, b.ghost.get(g)):
                gh.add(g)
        # header phis and other locals that change: only phi results of the header matter
        fr = a.frames[-1]
        fb = b.frames[len(a.frames) - 1]
        for i in fr.fn.blocks[fb.block]:
            if i.op != 'phi':
                break
            if i.dst in fr.loc and not same(fr.loc[i.dst], fb.loc.get(i.dst)):
                gh.add(('phi', len(a.frames) - 1, i.dst))

    # ------------------------------------------------------------- instructions
    def step(self, st, fr, ins, base, region):
        op = ins.op
        a = ins.a
        loc = fr.loc
        if op == 'alloca':
            t, n = a
            size = self.mod.sizeof(t)
            if n is not None:
                k = self.val(st, *n)
                if not isinstance(k, int):
                    raise Unsupported('alloca of symbolic size')
                size *= k
            # one object per alloca and frame; names are kept for readability of reports
            oid = self.new_obj(st, ins.dst, 'raw', size)
            st.mem[oid].meta = None
            fr.allocas.append((ins.dst, oid, t))
            loc[ins.dst] = Ptr(oid, 0)
        elif op == 'load':
            t, (pt, p) = a
            loc[ins.dst] = self.load(st, self.val(st, pt, p), t)
        elif op == 'store':
            (t, v), (pt, p) = a
            self.store(st, self.val(st, pt, p), self.val(st, t, v), t)
        elif op == 'getelementptr':
            t, (bt, b), idx, inb = a
            loc[ins.dst] = self.gep(st, t, self.val(st, bt, b), [(it, self.val(st, it, iv)) for it, iv in idx], inb)
        elif op == 'br':
            c, x, y = a
            if c is None:
                self.goto(st, fr, x)
                return None
            v = self.val(st, ('i', 1), c)
            return self.branch(st, fr, v, x, y)
        elif op == 'switch':
            return self.switch(st, fr, a)
        elif op in ('call', 'invoke'):
            return self.call(st, fr, ins, base, region)
        elif op == 'ret':
            v = None if a[0] is None else self.val(st, *a[0])
            return self.ret(st, v, base, region)
        elif op == 'icmp':
            loc[ins.dst] = self.icmp(st, a[0], a[1], self.val(st, a[1], a[2]), self.val(st, a[1], a[3]))
        elif op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'sdiv', 'udiv', 'srem', 'urem'):
            loc[ins.dst] = self.binop(st, op, a[0], self.val(st, a[0], a[1]), self.val(st, a[0], a[2]), a[3])
        elif op in ('zext', 'sext', 'trunc'):
            loc[ins.dst] = self.cast(st, op, a[0], self.val(st, a[0], a[1]), a[2])
        elif op == 'ptrtoint':
            p = self.val(st, a[0], a[1])
            loc[ins.dst] = p      # kept as a pointer; only differences of pointers are supported
        elif op == 'bitcast' or op == 'freeze':
            loc[ins.dst] = self.val(st, a[0], a[1])
        elif op == 'select':
            c = self.val(st, *a[0])
            x, y = self.val(st, *a[1]), self.val(st, *a[2])
            if isinstance(c, int):
                loc[ins.dst] = x if c else y
            elif same(x, y):
                loc[ins.dst] = x
            elif isinstance(x, (Ptr, Agg)) or isinstance(y, (Ptr, Agg)):
                s2 = st.clone()
                st.assume(c)
                loc[ins.dst] = x
                fr.idx += 1
                s2.assume(z3.Not(c))
                s2.frames[-1].loc[ins.dst] = y
                s2.frames[-1].idx += 1
                if self.peeking is not None:
                    raise PeekStop(False)
                return [s for s in (st, s2) if self.feasible(s)]
            else:
                t = self.mod.resolve(a[1][0])
                if t[0] == 'i' and t[1] == 1:
                    loc[ins.dst] = norm(z3.If(c, tobool(x), tobool(y)), 1)
                elif t[0] == 'i':
                    loc[ins.dst] = norm(z3.If(c, bv(x, t[1]), bv(y, t[1])), t[1])
                else:
                    loc[ins.dst] = z3.If(c, x, y)
        elif op == 'extractvalue':
            v = self.val(st, *a[0])
            for i in a[1]:
                v = v.v[i]
            loc[ins.dst] = v
        elif op == 'insertvalue':
            t, v = a[0]
            ag = self.val(st, t, v)
            ag = Agg(ag.v) if isinstance(ag, Agg) else Agg([UNDEF] * len(self.mod.resolve(t)[1]))
            if len(a[2]) != 1:
                raise Unsupported('nested insertvalue')
            ag.v[a[2][0]] = self.val(st, *a[1])
            loc[ins.dst] = ag
        elif op == 'unreachable':
            self.fail(st, 'unreachable code is not reached')
            raise DeadPath()
        elif op == 'fcmp':
            loc[ins.dst] = self.fcmp(a[0], self.val(st, a[1], a[2]), self.val(st, a[1], a[3]))
        elif op == 'fpext' or op == 'fptrunc':
            v = self.val(st, a[0], a[1])
            loc[ins.dst] = z3.fpFPToFP(z3.RNE(), v, fpsort(a[2]))
        elif op == 'landingpad':
            exc = st.ghost.get('exc')
            if exc is None:
                raise Unsupported('landing pad without exception')
            loc[ins.dst] = Agg([Ptr(exc[0], 0), self.selector(st, exc, a[2])])
        elif op == 'resume':
            return self.unwind(st, base, region)
        elif op == 'phi':
            pass
        else:
            raise Unsupported('instruction %s' % ins.text[:120])
        fr.idx += 1
        return None

    def selector(self, st, exc, clauses):
        for t, v in clauses:
            if v[0] == 'null':
                return 1
            if v[0] == 'glob' and exc[1] is not None and v[1] in exc[1]:
                return 1000 + sorted(self.mod.globals).index(v[1])
        return 0

    def branch(self, st, fr, v, x, y):
        if v is UNDEF:
            self.fail(st, 'branch on an uninitialised value')
            raise DeadPath()
        if not isinstance(v, int):
            v = norm(v, 1)
        pk = self.peeking
        if pk is not None and len(st.frames) == pk[0]:
            if (x not in pk[1]) != (y not in pk[1]):
                raise PeekStop(isinstance(v, int))
        if isinstance(v, int):
            self.goto(st, fr, x if v else y)
            return None
        if x == y:
            self.goto(st, fr, x)
            return None
        s2 = st.clone()
        st.pc.append(v)
        s2.pc.append(z3.Not(v))
        f1 = self.feasible(st)
        f2 = self.feasible(s2)
        if f1 and f2:
            if pk is not None:
                raise PeekStop(False)
            self.goto(s2, s2.frames[-1], y)
            self.goto(st, fr, x)
            return [st, s2]
        if f1:
            self.goto(st, fr, x)
            return None
        if f2:
            self.goto(s2, s2.frames[-1], y)
            return [s2]
        raise DeadPath()

    def switch(self, st, fr, a):
        t, v, d, cases = a
        v = self.val(st, t, v)
        w = self.mod.resolve(t)[1]
        if v is UNDEF:
            self.fail(st, 'switch on an uninitialised value')
            raise DeadPath()
        v = norm(v, w)
        if isinstance(v, int):
            for c, lab in cases:
                if c & ((1 << w) - 1) == v:
                    self.goto(st, fr, lab)
                    return None
            self.goto(st, fr, d)
            return None
        if self.peeking is not None:
            raise PeekStop(False)
        groups = {}
        for c, lab in cases:
            groups.setdefault(lab, []).append(c)
        out = []
        for lab, cs in groups.items():
            s = st.clone()
            s.pc.append(z3.Or(*[v == z3.BitVecVal(c, w) for c in cs]))
            if self.feasible(s):
                self.goto(s, s.frames[-1], lab)
                out.append(s)
        st.pc.append(z3.And(*[v != z3.BitVecVal(c, w) for c, _ in cases]))
        if self.feasible(st):
            self.goto(st, fr, d)
            out.append(st)
        if not out:
            raise DeadPath()
        return out

    def icmp(self, st, pred, ty, x, y):
        t = self.mod.resolve(ty)
        if x is UNDEF or y is UNDEF:
            self.fail(st, 'comparison of an uninitialised value')
            raise DeadPath()
        if t == 'ptr' or isinstance(x, (Ptr, Fn)) or isinstance(y, (Ptr, Fn)):
            return self.pcmp(st, pred, x, y)
        w = t[1]
        if isinstance(x, int) and isinstance(y, int):
            if pred[0] == 's':
                x, y = sgn(x, w), sgn(y, w)
            return int({'eq': x == y, 'ne': x != y, 'ugt': x > y, 'uge': x >= y, 'ult': x < y, 'ule': x <= y,
                        'sgt': x > y, 'sge': x >= y, 'slt': x < y, 'sle': x <= y}[pred])
        if w == 1:
            x, y = tobool(x), tobool(y)
            if pred == 'eq':
                return norm(x == y, 1)
            if pred == 'ne':
                return norm(x != y, 1)
            raise Unsupported('i1 compare')
        x, y = bv(x, w), bv(y, w)
        f = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
             'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'sgt': lambda: x > y, 'sge': lambda: x >= y,
             'slt': lambda: x < y, 'sle': lambda: x <= y}[pred]()
        return norm(f, 1)

    def pcmp(self, st, pred, x, y):
        if isinstance(x, Fn) or isinstance(y, Fn):
            if isinstance(x, Fn) and isinstance(y, Fn):
                e = int(x.name == y.name)
            else:
                e = 0
            return e if pred == 'eq' else 1 - e
        if not isinstance(x, Ptr) or not isinstance(y, Ptr):
            raise Unsupported('pointer comparison')
        if x.obj != y.obj:
            if pred in ('eq', 'ne'):
                if isinstance(x.obj, str) and isinstance(y.obj, str):
                    ox, oy = st.mem.get(x.obj), st.mem.get(y.obj)
                    mx, my = getattr(ox, 'meta', None), getattr(oy, 'meta', None)
                    if hasattr(mx, 'ptr_eq'):
                        e = mx.ptr_eq(self, st, x, y)
                        if e is not None:
                            return e if pred == 'eq' else norm(z3.Not(tobool(e)), 1)
                return 0 if pred == 'eq' else 1
            self.fail(st, 'ordering of unrelated pointers')
            raise DeadPath()
        p = {'ugt': 'sgt', 'uge': 'sge', 'ult': 'slt', 'ule': 'sle'}.get(pred, pred)
        a, b = x.off, y.off
        if isinstance(a, int) and isinstance(b, int):
            return int({'eq': a == b, 'ne': a != b, 'sgt': a > b, 'sge': a >= b, 'slt': a < b, 'sle': a <= b}[p])
        a, b = bv(a, 64), bv(b, 64)
        return norm({'eq': lambda: a == b, 'ne': lambda: a != b, 'sgt': lambda: a > b, 'sge': lambda: a >= b,
                     'slt': lambda: a < b, 'sle': lambda: a <= b}[p](), 1)

    def binop(self, st, op, ty, x, y, flags):
        t = self.mod.resolve(ty)
        if x is UNDEF or y is UNDEF:
            self.fail(st, 'use of an uninitialised value')
            raise DeadPath()
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if op == 'sub' and isinstance(x, Ptr) and isinstance(y, Ptr):
                if x.obj != y.obj:
                    self.fail(st, 'difference of unrelated pointers')
                    raise DeadPath()
                if isinstance(x.off, int) and isinstance(y.off, int):
                    return (x.off - y.off) & ((1 << 64) - 1)
                return norm(bv(x.off, 64) - bv(y.off, 64), 64)
            raise Unsupported('pointer arithmetic')
        w = t[1]
        if w == 1:
            X, Y = tobool(x), tobool(y)
            f = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}.get(op)
            if f is None:
                raise Unsupported('i1 ' + op)
            return norm(f(X, Y), 1)
        if op in ('shl', 'lshr', 'ashr'):
            if isinstance(y, int):
                if y >= w:
                    self.fail(st, 'shift amount in range')
                    raise DeadPath()
            else:
                self.oblige(st, 'shift amount in range', z3.ULT(y, w))
        if op in ('sdiv', 'udiv', 'srem', 'urem'):
            if isinstance(y, int):
                if y == 0:
                    self.fail(st, 'division by zero')
                    raise DeadPath()
            else:
                self.oblige(st, 'division by zero', y != 0)
        if isinstance(x, int) and isinstance(y, int):
            sx, sy = sgn(x, w), sgn(y, w)
            if op == 'add':
                r, rs = x + y, sx + sy
            elif op == 'sub':
                r, rs = x - y, sx - sy
            elif op == 'mul':
                r, rs = x * y, sx * sy
            elif op == 'shl':
                r = rs = x << y
                rs = None
            elif op == 'lshr':
                r, rs = x >> y, None
            elif op == 'ashr':
                r, rs = sx >> y, None
            elif op == 'and':
                r, rs = x & y, None
            elif op == 'or':
                r, rs = x | y, None
            elif op == 'xor':
                r, rs = x ^ y, None
            elif op == 'udiv':
                r, rs = x // y, None
            elif op == 'urem':
                r, rs = x % y, None
            elif op == 'sdiv':
                q = abs(sx) // abs(sy)
                r, rs = (q if (sx < 0) == (sy < 0) else -q), None
            elif op == 'srem':
                m = abs(sx) % abs(sy)
                r, rs = (-m if sx < 0 else m), None
            if 'nsw' in flags and rs is not None and not (-(1 << (w - 1)) <= rs < 1 << (w - 1)):
                self.fail(st, 'no signed overflow')
                raise DeadPath()
            return r & ((1 << w) - 1)
        X, Y = bv(x, w), bv(y, w)
        if 'nsw' in flags:
            if op == 'add':
                self.oblige(st, 'no signed overflow', z3.And(z3.BVAddNoOverflow(X, Y, True), z3.BVAddNoUnderflow(X, Y)))
            elif op == 'sub':
                self.oblige(st, 'no signed overflow', z3.And(z3.BVSubNoOverflow(X, Y), z3.BVSubNoUnderflow(X, Y, True)))
            elif op == 'mul':
                self.oblige(st, 'no signed overflow', z3.And(z3.BVMulNoOverflow(X, Y, True), z3.BVMulNoUnderflow(X, Y)))
        r = {'add': lambda: X + Y, 'sub': lambda: X - Y, 'mul': lambda: X * Y, 'shl': lambda: X << Y,
             'lshr': lambda: z3.LShR(X, Y), 'ashr': lambda: X >> Y, 'and': lambda: X & Y, 'or': lambda: X | Y,
             'xor': lambda: X ^ Y, 'udiv': lambda: z3.UDiv(X, Y), 'urem': lambda: z3.URem(X, Y),
             'sdiv': lambda: X / Y, 'srem': lambda: z3.SRem(X, Y)}[op]()
        return norm(r, w)

    def cast(self, st, op, t1, v, t2):
        a, b = self.mod.resolve(t1)[1], self.mod.resolve(t2)[1]
        if v is UNDEF:
            return UNDEF
        if isinstance(v, (Ptr, Fn)):
            raise Unsupported('cast of pointer')
        if isinstance(v, int):
            if op == 'sext':
                v = sgn(v, a)
            return v & ((1 << b) - 1)
        if op == 'trunc':
            if b == 1:
                return norm(z3.Extract(0, 0, v) == 1, 1)
            return norm(z3.Extract(b - 1, 0, v), b)
        if z3.is_bool(v):
            one = z3.BitVecVal(1 if op == 'zext' else -1, b)
            return norm(z3.If(v, one, z3.BitVecVal(0, b)), b)
        return norm((z3.ZeroExt if op == 'zext' else z3.SignExt)(b - a, v), b)

    def fcmp(self, pred, x, y):
        f = {'oeq': z3.fpEQ, 'ogt': z3.fpGT, 'oge': z3.fpGEQ, 'olt': z3.fpLT, 'ole': z3.fpLEQ}.get(pred)
        if f:
            return norm(f(x, y), 1)
        if pred == 'une':
            return norm(z3.Not(z3.fpEQ(x, y)), 1)
        if pred == 'one':
            return norm(z3.And(z3.Not(z3.fpIsNaN(x)), z3.Not(z3.fpIsNaN(y)), z3.Not(z3.fpEQ(x, y))), 1)
        raise Unsupported('fcmp ' + pred)

    # ------------------------------------------------------------- calls
    def ret(self, st, v, base, region):
        st.frames[-1].loc = {}
        depth = len(st.frames)
        fr = st.frames.pop()
        for _, oid, _t in fr.allocas:
            if oid in st.mem:
                del st.mem[oid]
                st.owned.discard(oid)
        if not st.frames:
            return [('ret', st, v)]
        caller = st.frames[-1]
        ins = caller.fn.blocks[caller.block][caller.idx]
        if ins.dst is not None:
            caller.loc[ins.dst] = v
        if ins.op == 'invoke':
            self.goto(st, caller, ins.a[3])
        else:
            caller.idx += 1
        if region is not None and depth == region[0]:
            return [('exit', st, None)]
        return None

    def unwind(self, st, base, region):
        """an exception leaves the current frame"""
        depth = len(st.frames)
        fr = st.frames.pop()
        for _, oid, _t in fr.allocas:
            if oid in st.mem:
                del st.mem[oid]
                st.owned.discard(oid)
        return self.raise_in(st, base, region, depth)

    def raise_in(self, st, base, region, depth=None):
        """propagate st.ghost['exc'] from the current top frame's call instruction"""
        while True:
            if not st.frames:
                return [('throw', st, None)]
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.block][fr.idx]
            if ins.op == 'invoke':
                self.goto(st, fr, ins.a[4])
                if region is not None and depth is not None and len(st.frames) < region[0]:
                    return [('exit', st, None)]
                return [st]
            depth = len(st.frames)
            st.frames.pop()
            for _, oid, _t in fr.allocas:
                if oid in st.mem:
                    del st.mem[oid]
                    st.owned.discard(oid)

    def call(self, st, fr, ins, base, region):
        rt, callee, args = ins.a[0], ins.a[1], ins.a[2]
        f = self.val(st, 'ptr', callee)
        if isinstance(f, VFn):
            o = st.mem[f.obj]
            av = [self.val(st, t, v) for t, v, _ in args]
            res = self.iface[o.kind](self, st, f.obj, f.slot, av)
            return self.finish_call(st, fr, ins, res, base, region)
        if not isinstance(f, Fn):
            raise Unsupported('indirect call')
        name = f.name
        if name.startswith('llvm.'):
            return self.intrinsic(st, fr, ins, name, args)
        av = [self.val(st, t, v) for t, v, _ in args]
        # byval arguments: copy
        for i, (t, v, at) in enumerate(args):
            if 'byval' in at:
                raise Unsupported('byval argument')
        dem = self.mod.demangle(name)
        for c in self.contracts:
            if c.matches(dem, name) and not (name == self.target_name and len(st.frames) == 0):
                self.used_contracts.add(c.name)
                res = c.apply(self, st, av)
                return self.finish_call(st, fr, ins, res, base, region)
        res = self.models(self, st, dem, name, av, rt) if self.models else None
        if res is not None:
            return self.finish_call(st, fr, ins, res, base, region)
        fn = self.mod.func(name)
        if fn is None:
            raise Unsupported('call to external function ' + dem[:120])
        if fn.blocks and fn.irreducible:
            raise Unsupported('irreducible control flow in ' + dem[:80])
        if len(st.frames) > 60:
            raise Unsupported('call depth')
        if sum(1 for q in st.frames if q.fn is fn) > 3:
            raise Unsupported('recursion without a contract: ' + dem[:80])
        self.push(st, fn, av)
        return None

    def push(self, st, fn, av):
        if self.peeking is None:
            self.inlined.add(fn.name)
        nf = Frame(fn)
        nf.args = list(av)
        k = 0
        for (t, nm, at), v in zip(fn.params, av):
            nf.loc[nm if nm is not None else str(k)] = v
            k += 1
        nf.fresh = True
        nf.block = fn.blocks and fn.entry
        st.frames.append(nf)

    def finish_call(self, st, fr, ins, res, base, region):
        """res: list of (state, value) or (state, ThrowMark)"""
        out = []
        single = len(res) == 1
        for s, v in res:
            top = s.frames[-1]
            if v is THROW:
                r = self.raise_in(s, base, region)
                out.extend(r)
                single = False
                continue
            if ins.dst is not None:
                top.loc[ins.dst] = v
            if ins.op == 'invoke':
                self.goto(s, top, ins.a[3])
            else:
                top.idx += 1
            if single and s is st:
                return None
            out.append(s)
        if not out:
            raise DeadPath()
        if self.peeking is not None and len(out) > 1:
            raise PeekStop(False)
        return out

    def intrinsic(self, st, fr, ins, name, args):
        av = None
        if name.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.experimental.noalias', 'llvm.assume')):
            pass
        elif name.startswith('llvm.memset'):
            d, b, n = [self.val(st, t, v) for t, v, _ in args[:3]]
            if not isinstance(n, int) or not isinstance(b, int):
                raise Unsupported('memset')
            if n:
                self.check_ptr(st, d, n, 'write')
                o = st.w(d.obj)
                if not isinstance(d.off, int):
                    raise Unsupported('memset at symbolic offset')
                for k in list(o.cells):
                    if k < d.off + n and d.off < k + o.cells[k][1]:
                        del o.cells[k]
                if d.off == 0 and n == o.size and b == 0:
                    o.default = 0
                else:
                    for k in range(n):
                        o.cells[d.off + k] = (b, 1)
        elif name.startswith(('llvm.memcpy', 'llvm.memmove')):
            d, s, n = [self.val(st, t, v) for t, v, _ in args[:3]]
            self.memcpy(st, d, s, n)
        elif name.startswith('llvm.umax') or name.startswith('llvm.umin'):
            x, y = [self.val(st, t, v) for t, v, _ in args[:2]]
            w = self.mod.resolve(args[0][0])[1]
            c = self.icmp(st, 'ugt' if 'umax' in name else 'ult', args[0][0], x, y)
            fr.loc[ins.dst] = (x if c else y) if isinstance(c, int) else norm(z3.If(c, bv(x, w), bv(y, w)), w)
        elif name.startswith('llvm.eh.typeid.for'):
            g = args[0][1]
            fr.loc[ins.dst] = 1000 + sorted(self.mod.globals).index(g[1])
        elif name.startswith('llvm.fabs'):
            fr.loc[ins.dst] = z3.fpAbs(self.val(st, args[0][0], args[0][1]))
        elif name == 'llvm.trap':
            self.fail(st, 'trap is not reached')
            raise DeadPath()
        else:
            raise Unsupported('intrinsic ' + name)
        if ins.op == 'invoke':
            self.goto(st, fr, ins.a[3])
        else:
            fr.idx += 1
        return None


class DeadPath(Exception):
    pass


class _Throw:
    pass


THROW = _Throw()


def fpsort(t):
    return z3.Float32() if t == 'float' else z3.Float64()


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj == b.obj and same(a.off, b.off)
    if isinstance(a, Abs) and isinstance(b, Abs):
        return a.same(b)
    if is_sym(a) and is_sym(b):
        return a.eq(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, Fn) and isinstance(b, Fn):
        return a.name == b.name
    if isinstance(a, VTab) and isinstance(b, VTab):
        return a.obj == b.obj and a.slot == b.slot
    if isinstance(a, Agg) and isinstance(b, Agg):
        return all(same(x, y) for x, y in zip(a.v, b.v))
    return False


def lex_less(m1, m0):
    """lexicographic decrease of Int tuples, each component bounded below by 0"""
    if not isinstance(m1, (list, tuple)):
        m1, m0 = [m1], [m0]
    r = z3.BoolVal(False)
    for a, b in reversed(list(zip(m1, m0))):
        if z3.is_bv(a):
            lt, eq = z3.ULT(a, b), a == b
        else:
            lt, eq = z3.And(a < b, b >= 0), a == b
        r = z3.Or(lt, z3.And(eq, r))
    return r


class LoopCtx:
    """gives a loop invariant access to the roles it talks about"""

    def __init__(self, ex, st, depth, bind):
        self.ex, self.depth, self.bind = ex, depth, bind

    def at(self, cur, ent):
        c = LoopView()
        c.ex, c.st, c.st0 = self.ex, cur, ent
        c._b = self.bind
        return c


class InitFails(Exception):
    pass


class LoopView:
    def __getitem__(self, role):
        return self._get(self.st, role)

    def ent(self, role):
        return self._get(self.st0, role)

    def _get(self, st, role):
        b = self._b[role]
        return b(self.ex, st)

    @property
    def view(self):
        """the state at the header, seen from the function under contract"""
        from .contract import View
        return View(self.ex, self.st, self.st, self.st.frames[0].args)

    @property
    def g(self):
        return self.st.ghost

    @property
    def g0(self):
        return self.st0.ghost


class LoopSpec:
    """name; roles: {role: (kind, [hint names])}; inv(L) -> [(name, formula)]; measure(L) -> Int/BV term or tuple"""

    def __init__(self, name, roles, inv, measure=None, fn=None, maxbind=12, moving=()):
        self.name, self.roles, self._inv, self._measure, self.fn, self.maxbind, self.moving = name, roles, inv, measure, fn, maxbind, moving

    def applies(self, ex, st, fr, h):
        return self.fn is None or re.search(self.fn, ex.mod.demangle(fr.fn.name)) is not None

    def inv(self, L):
        return self._inv(L)

    def measure(self, L):
        return self._measure(L) if self._measure else None

    def bindings(self, ex, st, depth, body):
        cands = []
        for role, (kind, hints) in self.roles.items():
            c = find_role(ex, st, depth, kind, hints)
            if role in self.moving:
                c = [x for x in c if not ex.only_read(st.frames[depth - 1], x[0], body)]
            if not c:
                return
            cands.append((role, c))
        n = 0
        import itertools
        combos = itertools.product(*[range(len(c)) for _, c in cands])
        combos = sorted(combos, key=sum)
        for combo in combos:
            keys = [c[i][0] for (_, c), i in zip(cands, combo)]
            if len(set(keys)) != len(keys):
                continue
            n += 1
            if n > self.maxbind:
                return
            yield {role: c[i][1] for (role, c), i in zip(cands, combo)}, all(c[i][2] for (_, c), i in zip(cands, combo))


WIDTH = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}


def find_role(ex, st, depth, kind, hints):
    """places that hold a value of the kind, hinted names first; each is (key, getter(ex, state))"""
    if kind.startswith('ghost:'):
        return [(k, (lambda k: lambda ex, s: s.ghost[k])(k), True) for k in st.ghost if isinstance(k, tuple) and k[0] == kind[6:]]
    out = []
    seen = set()

    def add(rank, key, get):
        if key not in seen:
            seen.add(key)
            out.append((rank, key, get))

    def cell_ok(v, size):
        if kind in WIDTH:
            return (isinstance(v, int) or z3.is_bv(v)) and size * 8 == max(8, WIDTH[kind])
        if kind == 'str':
            return isinstance(v, AbsStr)
        if kind == 'ptr':
            return isinstance(v, Ptr) and v.obj is not None
        if kind.startswith('abs:'):
            return isinstance(v, Abs) and v.kind == kind[4:]
        return False

    def getter(oid, off):
        def g(ex, s):
            o = s.mem[oid]
            c = o.cells.get(off)
            if c is None:
                return None
            v, size = c
            if kind in WIDTH:
                return bv(v, size * 8)
            if kind == 'str':
                return v.t
            return v
        return g

    k = 0
    for d in range(depth - 1, -1, -1):
        fr = st.frames[d]
        for nm, oid, _t in fr.allocas:
            o = st.mem.get(oid)
            if o is None:
                continue
            base = re.sub(r'\.addr$', '', re.sub(r'\d+$', '', nm))
            rank = (hints.index(base) if base in hints else 50) + 100 * (depth - 1 - d)
            for off, (v, size) in list(o.cells.items()):
                kk = -k if base in hints else k         # of two variables of the same name the later, inner one
                if cell_ok(v, size):
                    add((rank, kk), (oid, off), getter(oid, off))
                # one level of indirection (references)
                if isinstance(v, Ptr) and v.obj in st.mem and isinstance(v.off, int) and kind != 'ptr':
                    q = st.mem[v.obj]
                    c = q.cells.get(v.off)
                    if c is not None and cell_ok(*c):
                        add((rank, kk), (v.obj, v.off), getter(v.obj, v.off))
                k += 1
        # SSA values (header phis)
        if d == depth - 1:
            for nm, v in fr.loc.items():
                pass
    out.sort(key=lambda x: x[0])
    return [(key, g, not hints or rank[0] % 100 < 50) for rank, key, g in out]


LoopView.role_names = lambda self: set(self._b)
