"""Symbolic executor for LLVM IR (see irparse).  Doubles are exact reals when symbolic and IEEE
doubles when concrete; integers are mathematical integers when symbolic; memory is a set of byte
addressed objects.  Path forking happens in State.decide()."""
import math
import random
import re
import struct
import time
from fractions import Fraction
import z3
from . import irparse as ir
from .sym import (R, rv, issym, Intervals, Norm, TooBig, Solver, Stats, RS, IS, INF, val_float,
                  term_vars)

NAN = float('nan')


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class PathEnd(Exception):
    def __init__(self, kind, info=''):
        self.kind = kind
        self.info = info


class MemErr(Exception):
    pass


class Unsupported(Exception):
    pass


class Ptr:
    __slots__ = ('o', 'f')

    def __init__(self, o, f):
        self.o = o
        self.f = f

    def __eq__(self, x):
        return isinstance(x, Ptr) and x.o == self.o and x.f == self.f

    def __hash__(self):
        return hash((self.o, self.f))

    def __repr__(self):
        return 'Ptr(%d,%r)' % (self.o, self.f)


class FnPtr:
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __eq__(self, x):
        return isinstance(x, FnPtr) and x.name == self.name and x.fn is self.fn

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'Fn(%s)' % self.name


NULL = Ptr(0, 0)


class FBits:
    """integer view of a symbolic double"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Obj:
    __slots__ = ('size', 'cells', 'fills', 'default', 'shared', 'name', 'alive', 'kind')

    def __init__(self, size, name, default='uninit', kind='heap'):
        self.size = size
        self.cells = {}
        self.fills = []
        self.default = default
        self.shared = False
        self.name = name
        self.kind = kind

    def copy(self):
        o = Obj.__new__(Obj)
        o.size = self.size
        o.cells = dict(self.cells)
        o.fills = list(self.fills)
        o.default = self.default
        o.shared = False
        o.name = self.name
        o.kind = self.kind
        return o


class Frame:
    __slots__ = ('fn', 'ops', 'ip', 'regs', 'allocas', 'dst', 'blk', 'va')

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.ops = self.ops
        f.ip = self.ip
        f.regs = list(self.regs)
        f.allocas = list(self.allocas)
        f.dst = self.dst
        f.blk = self.blk
        f.va = self.va
        return f


def wrap(v, n):
    m = 1 << n
    v &= m - 1
    if v >> (n - 1):
        v -= m
    return v


class State:
    __slots__ = ('frames', 'mem', 'pc', 'dec', 'inputs', 'memo', 'acos', 'squares', 'trig',
                 'events', 'monos', 'tags', 'depth', 'checks', 'user', 'logs', 'nforks')

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        for o in self.mem.values():
            o.shared = True
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.dec = dict(self.dec)
        s.inputs = list(self.inputs)
        s.memo = dict(self.memo)
        s.acos = dict(self.acos)
        s.squares = dict(self.squares)
        s.trig = list(self.trig)
        s.logs = list(self.logs)
        s.events = list(self.events)
        s.monos = {k: list(v) for k, v in self.monos.items()}
        s.tags = list(self.tags)
        s.depth = self.depth
        s.checks = set(self.checks)
        s.user = dict(self.user)
        s.nforks = self.nforks + 1
        return s


class Violation:
    def __init__(self, label, kind, inputs, values, info, model=None):
        self.label = label
        self.kind = kind          # 'check' | 'memory' | 'domain'
        self.inputs = inputs
        self.values = values      # list of concrete input values in creation order
        self.info = info


class Engine:
    def __init__(self, modules, opts=None):
        self.opts = {'q_timeout': 1500, 'p_timeout': 8000, 'm_timeout': 4000, 'max_paths': 20000, 'time': 300,
                     'max_per_label': 4, 'max_steps': 60_000_000, 'unknown_prune': False}
        if opts:
            self.opts.update(opts)
        self.modules = modules
        self.stats = Stats()
        self.solver = Solver(self.stats)
        self.iv = Intervals()
        self.nobj = 0
        self.ext = {}            # external functions by name
        self.glob = {}           # external globals by name
        self.extalias = {}
        for m in modules:
            for n, v in m.aliases.items():
                if v[0] == 'g' and n not in self.extalias:
                    self.extalias[n] = (m, v[1])
            for n, f in m.functions.items():
                if not f.internal and n not in self.ext:
                    self.ext[n] = f
            for n, g in m.globals.items():
                if not g.internal and not g.external and n not in self.glob:
                    self.glob[n] = g
        self.violations = []
        self.nviol = {}
        self.samples = []
        self.fix = {}
        self.undecided = {}
        self.bmemo = {}
        self.reached = {}
        self.discharged = {}
        self.paths = 0
        self.ended = {}
        self.steps = 0
        self.concrete = None     # list of concrete input values (validation / replay mode)
        self.gen = None
        self.observed = []
        self.fn_used = set()
        self.unsupported = {}
        self.path_hook = None
        self.init_mem = {}
        self.fresh = 0
        self.base_state = None
        self.incomplete = None
        from . import models
        self.model_fns = dict(models.FORCED)
        self._anon = {}
        self.forced_unknown = 0
        self.names = {}

    # ------------------------------------------------------------ set up
    def new_obj(self, mem, size, name, default='uninit', kind='heap'):
        self.nobj += 1
        mem[self.nobj] = Obj(size, name, default, kind)
        return self.nobj

    def lookup_fn(self, mod, name):
        f = mod.functions.get(name)
        if f is not None and f.internal:
            return f
        if name in mod.aliases:
            v = mod.aliases[name]
            if v[0] == 'g':
                return self.lookup_fn(mod, v[1])
        f2 = self.ext.get(name)
        if f2 is not None:
            return f2
        if f is None and name in self.extalias:
            m2, v = self.extalias[name]
            return self.lookup_fn(m2, v)
        return f

    def global_ptr(self, mod, name):
        g = mod.globals.get(name)
        if g is None or not g.internal:
            g2 = self.glob.get(name)
            if g2 is not None:
                g = g2
        if g is not None:
            if g.obj is None:
                ini = None if g.external else g.mod.global_init(g)
                self.nobj += 1
                g.obj = self.nobj
                if g.external:
                    # unresolved external data (libstdc++ objects): opaque
                    o = Obj(4096, name, 'uninit', 'global')
                    if name in ('_ZSt4cout', '_ZSt4cerr', '_ZSt4clog', '_ZSt3cin'):
                        # inline manipulators reach the virtual base through the virtual table
                        o.default = 'zero'
                        vt = Obj(64, name + '.vtable', 'zero', 'global')
                        vt.cells[0] = (8, 16)
                        self.nobj += 1
                        self.init_mem[self.nobj] = vt
                        o.cells[0] = (8, Ptr(self.nobj, 24))
                else:
                    o = Obj(g.mod.size(g.type), name, 'zero', 'global')
                self.init_mem[g.obj] = o
                if ini is not None:
                    self._init(o, 0, g.type, ini, g.mod)
            return Ptr(g.obj, 0)
        f = self.lookup_fn(mod, name)
        return FnPtr(name, f)

    def _init(self, o, off, ty, v, mod):
        t = mod.resolve(ty)
        k = v[0]
        if k in ('z', 'u'):
            return
        if k == 'str':
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, wrap(b, 8))
            return
        if k == 'agg':
            if t[0] == 'arr':
                s = mod.size(t[2])
                for i, (et, ev) in enumerate(v[1]):
                    self._init(o, off + i * s, et, ev, mod)
            else:
                for i, (et, ev) in enumerate(v[1]):
                    self._init(o, off + mod.field_off(t, i), et, ev, mod)
            return
        val = self.const(v, ty, mod)
        if val == 0 and not isinstance(val, (Ptr, FnPtr)):
            return
        o.cells[off] = (mod.size(ty), val)

    def const(self, v, ty, mod):
        k = v[0]
        if k == 'c':
            x = v[1]
            if ty[0] == 'i' and ty[1] == 1:
                return bool(x)
            if ty[0] == 'i':
                return wrap(int(x), ty[1])
            return x
        if k == 'null':
            return NULL
        if k == 'z':
            return zero_of(mod, ty)
        if k == 'u':
            return undef_of(mod, ty)
        if k == 'g':
            return self.global_ptr(mod, v[1])
        if k == 'agg':
            return tuple(self.const(ev, et, mod) for et, ev in v[1])
        if k == 'ce':
            op = v[1]
            if op == 'gep':
                base = self.const(v[3], ('ptr',), mod)
                off = 0
                t = v[2]
                for i, (it, iv_) in enumerate(v[4]):
                    n = self.const(iv_, it, mod)
                    if i == 0:
                        off += n * mod.size(t)
                    else:
                        t = mod.resolve(t)
                        if t[0] == 'arr' or t[0] == 'vec':
                            t = t[2]
                            off += n * mod.size(t)
                        else:
                            off += mod.field_off(t, n)
                            t = t[1][n]
                return Ptr(base.o, base.f + off)
            if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
                return self.const(v[3], v[2], mod)
            if op == 'icmp':
                a = self.const(v[4], v[3], mod)
                b = self.const(v[5], v[3], mod)
                if v[2] == 'eq':
                    return a == b
                if v[2] == 'ne':
                    return not (a == b)
            if op == 'bin':
                a = self.const(v[4], v[3], mod)
                b = self.const(v[5], v[3], mod)
                if v[2] == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                    return a.f - b.f
                if v[2] == 'add' and isinstance(a, Ptr) and isinstance(b, int):
                    return Ptr(a.o, a.f + b)
        raise Unsupported('const %r' % (v,))

    # ------------------------------------------------------------ memory
    def obj_for(self, st, p):
        if not isinstance(p, Ptr):
            raise MemErr('access through non-pointer %r' % (p,))
        o = st.mem.get(p.o)
        if o is None:
            o = self.init_mem.get(p.o)
            if o is not None:
                o.shared = True
                st.mem[p.o] = o
                return o
            if p.o == 0:
                raise MemErr('null pointer access')
            raise MemErr('access to freed or dead object')
        return o

    def load(self, st, p, size, want):
        """want: 'i' n | 'f' | 'f32' | 'p'"""
        o = self.obj_for(st, p)
        f = p.f
        c = o.cells.get(f)
        if c is not None and c[0] == size:
            return self.conv(c[1], want, size)
        if f < 0 or f + size > o.size:
            raise MemErr('out of bounds load at offset %d size %d of object %s[%d]' % (f, size, o.name, o.size))
        return self.load_slow(st, p, o, size, want)

    def fill_kind(self, o, f):
        for a, b, k in reversed(o.fills):
            if a <= f < b:
                return k
        return o.default

    def load_slow(self, st, p, o, size, want):
        f = p.f
        over = False
        for q in range(f - 15, f + size):
            c = o.cells.get(q)
            if c is not None and q + c[0] > f:
                over = True
                break
        if not over:
            k = self.fill_kind(o, f)
            if k == 'zero':
                if want == 'f' or want == 'f32':
                    return 0.0
                if want == 'p':
                    return NULL
                if want == 'i1':
                    return False
                return 0
            if isinstance(k, int):
                return self.frombytes(bytes([k & 255] * size), want)
            # uninitialised: fresh unconstrained value, remembered
            self.fresh += 1
            nm = 'uninit!%s!%d' % (o.name, self.fresh)
            if self.concrete is not None:
                st.tags.append(('uninit', o.name, f))
                v = 0.0 if want in ('f', 'f32') else (NULL if want == 'p' else 0)
            elif want in ('f', 'f32'):
                v = z3.Real(nm)
                st.tags.append(('uninit', o.name, f))
            elif want == 'p':
                return UNDEF
            else:
                v = z3.Int(nm)
                st.tags.append(('uninit', o.name, f))
                n = size * 8
                st.pc.append(v >= -(1 << (n - 1)))
                st.pc.append(v < (1 << (n - 1)))
            self.wr(st, p)
            st.mem[p.o].cells[f] = (size, v)
            return self.conv(v, want, size)
        bs = self.getbytes(st, o, f, size)
        return self.frombytes(bs, want)

    def getbytes(self, st, o, f, n):
        out = bytearray()
        q = f
        while q < f + n:
            found = False
            for s in range(0, 16):
                c = o.cells.get(q - s)
                if c is not None and c[0] > s:
                    b = self.tobytes(c[1], c[0])
                    take = min(c[0] - s, f + n - q)
                    out += b[s:s + take]
                    q += take
                    found = True
                    break
            if not found:
                k = self.fill_kind(o, q)
                if k == 'zero':
                    out.append(0)
                elif isinstance(k, int):
                    out.append(k & 255)
                else:
                    out.append(0)
                    st.tags.append(('uninit', o.name, q))
                q += 1
        return bytes(out)

    @staticmethod
    def tobytes(v, size):
        if v is True or v is False:
            v = int(v)
        if type(v) is int:
            return (v & ((1 << (8 * size)) - 1)).to_bytes(size, 'little')
        if type(v) is float:
            if size == 8:
                return struct.pack('<d', v)
            if size == 4:
                return struct.pack('<f', v)
        if v is NULL or v == NULL:
            return b'\0' * size
        raise Unsupported('byte view of %r' % (v,))

    @staticmethod
    def frombytes(b, want):
        if want == 'f':
            if len(b) == 8:
                return struct.unpack('<d', b)[0]
        if want == 'f32':
            return struct.unpack('<f', b)[0]
        n = int.from_bytes(b, 'little', signed=True)
        if want == 'p':
            if n == 0:
                return NULL
            raise Unsupported('pointer from bytes')
        if want == 'i1':
            return bool(n & 1)
        return n

    def conv(self, v, want, size):
        if want == 'f':
            if type(v) is float:
                return v
            if type(v) is int:
                return struct.unpack('<d', struct.pack('<q', v))[0] if size == 8 else float(v)
            if isinstance(v, FBits):
                return v.v
            if issym(v) and v.sort() == IS:
                raise Unsupported('symbolic int read as double')
            return v
        if want == 'f32':
            if type(v) is int:
                return struct.unpack('<f', struct.pack('<i', v))[0]
            if isinstance(v, FBits):
                return v.v
            return v
        if want == 'p':
            if isinstance(v, (Ptr, FnPtr)) or v is UNDEF:
                return v
            if type(v) is int:
                return NULL if v == 0 else Ptr(-1, v)
            return v
        if want == 'i1':
            if v is True or v is False:
                return v
            if type(v) is int:
                return bool(v & 1)
            return self.to_bool(v)
        # integer
        if type(v) is int:
            return v
        if v is True or v is False:
            return int(v)
        if type(v) is float:
            if size == 8:
                return struct.unpack('<q', struct.pack('<d', v))[0]
            return struct.unpack('<i', struct.pack('<f', v))[0]
        if issym(v):
            if v.sort() == RS:
                return FBits(v)
            if z3.is_bool(v):
                return self.from_bool(v)
        return v

    def to_bool(self, v):
        b = self._anon.get(v.get_id())
        if b is not None:
            return b[1]
        return v % 2 != 0

    def from_bool(self, b):
        e = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        self._anon[e.get_id()] = (e, b)
        return e

    def wr(self, st, p):
        o = st.mem[p.o]
        if o.shared:
            o = o.copy()
            st.mem[p.o] = o
        return o

    def store(self, st, p, size, v):
        o = self.obj_for(st, p)
        if o.shared:
            o = o.copy()
            st.mem[p.o] = o
        f = p.f
        c = o.cells.get(f)
        if c is None or c[0] != size:
            if f < 0 or f + size > o.size:
                raise MemErr('out of bounds store at offset %d size %d of object %s[%d]' % (f, size, o.name, o.size))
            self.clear(st, o, f, size)
        o.cells[f] = (size, v)

    def clear(self, st, o, f, n):
        """remove cells overlapping [f,f+n), keeping the bytes outside"""
        cells = o.cells
        if n > 64 and n > len(cells):
            ks = [q for q in cells if q + cells[q][0] > f and q < f + n]
        else:
            ks = []
            for q in range(f - 15, f + n):
                c = cells.get(q)
                if c is not None and q + c[0] > f:
                    ks.append(q)
        for q in ks:
            s, v = cells.pop(q)
            if q < f or q + s > f + n:
                b = self.tobytes(v, s)
                for i in range(s):
                    if not (f <= q + i < f + n):
                        cells[q + i] = (1, wrap(b[i], 8))

    def memcpy(self, st, d, s, n):
        if n == 0:
            return
        so = self.obj_for(st, s)
        if s.f < 0 or s.f + n > so.size:
            raise MemErr('out of bounds memcpy read of %s' % so.name)
        do = self.obj_for(st, d)
        if d.f < 0 or d.f + n > do.size:
            raise MemErr('out of bounds memcpy write of %s' % do.name)
        a = s.f
        items = []
        if len(so.cells) < n:
            for q, c in so.cells.items():
                if q + c[0] > a and q < a + n:
                    items.append((q, c))
        else:
            for q in range(a - 15, a + n):
                c = so.cells.get(q)
                if c is not None and q + c[0] > a:
                    items.append((q, c))
        new = []
        for q, (sz, v) in items:
            if q >= a and q + sz <= a + n:
                new.append((q - a, sz, v))
            else:
                b = self.tobytes(v, sz)
                for i in range(sz):
                    if a <= q + i < a + n:
                        new.append((q + i - a, 1, wrap(b[i], 8)))
        fills = [(max(x, a) - a, min(y, a + n) - a, k) for x, y, k in so.fills if x < a + n and y > a]
        default = so.default
        o = self.wr(st, d)
        self.clear(st, o, d.f, n)
        if n >= 8 or default != o.default or fills:
            o.fills = [x for x in o.fills if not (x[0] >= d.f and x[1] <= d.f + n)]
            if default != o.default or o.fills or fills:
                o.fills.append((d.f, d.f + n, default))
            for x, y, k in fills:
                o.fills.append((d.f + x, d.f + y, k))
        for q, sz, v in new:
            o.cells[d.f + q] = (sz, v)

    def memset(self, st, d, val, n):
        if n == 0:
            return
        o = self.obj_for(st, d)
        if d.f < 0 or d.f + n > o.size:
            raise MemErr('out of bounds memset of %s' % o.name)
        o = self.wr(st, d)
        self.clear(st, o, d.f, n)
        k = 'zero' if val == 0 else int(val) & 255
        if d.f == 0 and n == o.size:
            o.fills = []
            o.default = k
        else:
            o.fills = [x for x in o.fills if not (x[0] >= d.f and x[1] <= d.f + n)]
            o.fills.append((d.f, d.f + n, k))

    def cstring(self, st, p, limit=4096):
        out = bytearray()
        o = self.obj_for(st, p)
        for i in range(limit):
            b = self.load(st, Ptr(p.o, p.f + i), 1, 'i')
            if type(b) is not int:
                raise Unsupported('symbolic string')
            if b == 0:
                return out.decode('latin1')
            out.append(b & 255)
        raise Unsupported('string too long')

    # ------------------------------------------------------------ symbols and decisions
    def decide(self, st, c):
        """truth value of a condition on this path; forks when both values are feasible"""
        if c is True or c is False:
            return c
        if c is UNDEF:
            raise Unsupported('branch on undef')
        i = c.get_id()
        d = st.dec.get(i)
        if d is not None:
            return d[0]
        r = self.iv.cond(c)
        if r is None:
            c2 = z3.simplify(c)
            if z3.is_true(c2):
                r = True
            elif z3.is_false(c2):
                r = False
            else:
                r = self.iv.cond(c2)
        else:
            self.stats.interval += 1
        if r is not None:
            st.dec[i] = (r, c)
            return r
        a, _ = self.solver.check(st.pc, [c], self.opts['q_timeout'])
        if a == 'unsat':
            st.dec[i] = (False, c)
            return False
        b, _ = self.solver.check(st.pc, [z3.Not(c)], self.opts['q_timeout'])
        if b == 'unsat':
            st.dec[i] = (True, c)
            return True
        if a == 'unknown' or b == 'unknown':
            rr = self.refined(st, c)
            if rr is not None:
                st.dec[i] = (rr, c)
                self.stats.interval += 1
                return rr
            n2 = self.normalise(st, c, 4000)
            if n2 is not None:
                s2 = z3.simplify(n2)
                if z3.is_true(s2) or z3.is_false(s2):
                    rr = z3.is_true(s2)
                    st.dec[i] = (rr, c)
                    self.stats.norm += 1
                    return rr
            self.forced_unknown += 1
        raise Fork(c)

    def bound_of(self, c):
        """(variable id, lo, hi) implied by a constraint on a single variable, or None"""
        r = self.bmemo.get(c.get_id())
        if r is not None:
            return r[0]
        out = None
        neg = False
        x = c
        while x.decl().kind() == z3.Z3_OP_NOT:
            neg = not neg
            x = x.arg(0)
        k = x.decl().kind()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and len(term_vars(x)) == 1:
            nm = Norm({})
            nm.LIMIT = 50
            try:
                n, d = nm.conv(R(x.arg(0)) - R(x.arg(1)))
            except (TooBig, RecursionError):
                n, d = {}, {1: 1}
            if not d and len(n) <= 2:
                ms = [m for m in n if m]
                if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and ms[0][0][0] in term_vars(x):
                    co = n[ms[0]]
                    b = float(-n.get((), 0) / co)
                    up = (k in (z3.Z3_OP_LE, z3.Z3_OP_LT)) != neg
                    if co < 0:
                        up = not up
                    out = (ms[0][0][0], -INF, math.nextafter(b, INF)) if up else (ms[0][0][0], math.nextafter(b, -INF), INF)
        self.bmemo[c.get_id()] = (out, c)
        return out

    def refined(self, st, c):
        """decide c by intervals narrowed by this path's single-variable constraints"""
        vs = term_vars(c)
        over = {}
        for p in st.pc:
            b = self.bound_of(p)
            if b is None or b[0] not in vs:
                continue
            lo, hi = over.get(b[0], self.iv.b.get(b[0], (-INF, INF)))
            over[b[0]] = (max(lo, b[1]), min(hi, b[2]))
        if not over or all(self.iv.b.get(v) == w for v, w in over.items()):
            return None
        iv = Intervals()
        iv.b = dict((v, self.iv.b[v]) for v in vs if v in self.iv.b)
        iv.b.update(over)
        r = iv.cond(c)
        if r is None:
            r = iv.cond(z3.simplify(c))
        return r

    def concretize(self, st, e):
        if type(e) is int or not issym(e):
            if isinstance(e, FBits):
                raise Unsupported('float bits as integer')
            return e
        if z3.is_bool(e):
            return int(self.decide(st, e))
        k = ('conc', e.get_id())
        if k in st.memo:
            return st.memo[k][0]
        s = z3.simplify(e)
        if z3.is_int_value(s):
            return s.as_long()
        lo, hi = self.iv.ev(s)
        if hi - lo <= 4096:
            a, b = math.ceil(lo - 1e-9), math.floor(hi + 1e-9)
            while a < b:
                m = (a + b) // 2
                if self.decide(st, e <= m):
                    b = m
                else:
                    a = m + 1
            st.memo[k] = (a, e)
            return a
        for v in st.memo.get(('cand', e.get_id()), ((), None))[0]:
            if self.decide(st, e == v):
                st.memo[k] = (v, e)
                return v
        pin = z3.Int('pin!%d' % e.get_id())
        r, m = self.solver.check(st.pc + [pin == e], [pin == e], self.opts['p_timeout'], model=True)
        if r == 'unsat':
            raise PathEnd('infeasible')
        if m is None:
            raise Unsupported('cannot concretise')
        v = m.eval(pin, model_completion=True).as_long()
        old = st.memo.get(('cand', e.get_id()), ((), None))[0]
        st.memo[('cand', e.get_id())] = (old + (v,), e)
        if self.decide(st, e == v):
            st.memo[k] = (v, e)
            return v
        return self.concretize(st, e)

    def trunc_real(self, st, x, n=32):
        """C conversion of a symbolic real to an integer"""
        k = ('trunc', x.get_id())
        if k in st.memo:
            return st.memo[k][0]
        lo, hi = self.iv.ev(x)
        if hi - lo <= 512:
            a, b = int(math.floor(lo)), int(math.floor(hi))
            # find floor(x) by bisection on thresholds
            while a < b:
                m = (a + b + 1) // 2
                if self.decide(st, x < m):
                    b = m - 1
                else:
                    a = m
            if a < 0 and self.decide(st, x != a):
                a += 1
            st.memo[k] = (a, x)
            return a
        if self.decide(st, x >= 0):
            self.fresh += 1
            v = z3.Int('trunc!%d' % self.fresh)
            st.pc += [z3.ToReal(v) <= x, x < z3.ToReal(v) + 1]
            self.iv.setb(v, max(0.0, math.floor(lo)) if lo > -INF else 0.0, math.floor(hi) if hi < INF else INF)
        else:
            self.fresh += 1
            v = z3.Int('trunc!%d' % self.fresh)
            st.pc += [z3.ToReal(v) >= x, x > z3.ToReal(v) - 1]
            self.iv.setb(v, math.floor(lo) if lo > -INF else -INF, 0.0)
        st.memo[k] = (v, x)
        return v

    def floor_real(self, st, x):
        k = ('floor', x.get_id())
        if k in st.memo:
            return st.memo[k][0]
        lo, hi = self.iv.ev(x)
        if hi - lo <= 512:
            a, b = int(math.floor(lo)), int(math.floor(hi))
            while a < b:
                m = (a + b + 1) // 2
                if self.decide(st, x < m):
                    b = m - 1
                else:
                    a = m
            st.memo[k] = (a, x)
            return a
        self.fresh += 1
        v = z3.Int('floor!%d' % self.fresh)
        st.pc += [z3.ToReal(v) <= x, x < z3.ToReal(v) + 1]
        self.iv.setb(v, math.floor(lo) if lo > -INF else -INF, math.floor(hi) if hi < INF else INF)
        st.memo[k] = (v, x)
        return v

    def model_for(self, name, fn):
        m = self.model_fns.get(name)
        if m is not None:
            return m
        from . import models
        if models.STREAM.match(name):
            m = models.stream_model(name)
            self.model_fns[name] = m
            return m
        if fn is not None and fn.body is not None:
            return None
        return models.find(name)

    def next_concrete(self, kind, name, lo, hi, i):
        if i < len(self.concrete):
            v = self.concrete[i]
            return int(v) if kind == 'int' else float(v)
        raise PathEnd('inputs exhausted')

    def sym_real(self, st, name, lo, hi, strict_hi=False, strict_lo=False):
        v = z3.Real(name)
        if lo > -INF:
            st.pc.append(v > rv(lo) if strict_lo else v >= rv(lo))
        if hi < INF:
            st.pc.append(v < rv(hi) if strict_hi else v <= rv(hi))
        self.iv.setb(v, lo, hi)
        return v

    def aux(self, st, pre, lo=-INF, hi=INF):
        self.fresh += 1
        v = z3.Real('%s!%d' % (pre, self.fresh))
        self.iv.setb(v, lo, hi)
        if lo > -INF:
            st.pc.append(v >= rv(lo))
        if hi < INF:
            st.pc.append(v <= rv(hi))
        return v

    # ------------------------------------------------------------ proving
    def prove(self, st, goal, timeout=None):
        """goal: z3 Bool.  returns ('unsat'|'sat'|'unknown', model)"""
        g = z3.simplify(goal)
        if z3.is_true(g):
            return ('unsat', None)
        r = self.iv.cond(g)
        if r is True:
            self.stats.interval += 1
            return ('unsat', None)
        if self.refined(st, goal) is True:
            self.stats.interval += 1
            return ('unsat', None)
        neg = z3.Not(goal)
        t = timeout or self.opts['p_timeout']
        n2 = self.normalise(st, neg)
        if n2 is not None:
            s2 = z3.simplify(n2)
            if z3.is_false(s2):
                self.stats.norm += 1
                return ('unsat', None)
            r = self.iv.cond(s2)
            if r is False:
                self.stats.norm += 1
                return ('unsat', None)
            vs = term_vars(n2)
            bc = [c for c in st.pc if term_vars(c) <= vs and len(term_vars(c)) == 1]
            if len(bc) < len(st.pc):
                # goal with the bounds of its own variables only (unsat is conclusive)
                res, m = self.solver.check(bc, [n2], t // 4, model=True, full=True)
                if res == 'unsat':
                    return (res, None)
            res, m = self.solver.check(st.pc, [n2], t // 2, model=True)
            if res != 'unknown':
                return (res, m)
        res, m = self.solver.check(st.pc, [neg], t, model=True)
        return (res, m)

    def normalise(self, st, neg, limit=None):
        """rewrite arithmetic atoms of a boolean as (polynomial cmp 0) when denominators have a
        known sign"""
        nm = Norm(st.squares)
        if limit:
            nm.LIMIT = limit
        try:
            return self._norm_bool(st, neg, nm)
        except TooBig:
            return None
        except RecursionError:
            return None

    def _norm_bool(self, st, c, nm):
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT:
            x = self._norm_bool(st, c.arg(0), nm)
            return None if x is None else z3.Not(x)
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            xs = [self._norm_bool(st, x, nm) for x in c.children()]
            if any(x is None for x in xs):
                return None
            return z3.And(xs) if k == z3.Z3_OP_AND else z3.Or(xs)
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and z3.is_arith(c.arg(0)):
            a, b = c.arg(0), c.arg(1)
            d = (R(a) - R(b))
            n, den = nm.conv(d)
            q = nm.constant((n, den))
            if q is not None:
                return z3.BoolVal({z3.Z3_OP_LE: q <= 0, z3.Z3_OP_LT: q < 0, z3.Z3_OP_GE: q >= 0,
                                   z3.Z3_OP_GT: q > 0, z3.Z3_OP_EQ: q == 0}[k])
            np = nm.to_z3(n)
            sgn = 1
            for f, pw in den.items():
                dz = nm.to_z3(nm.facs[f])
                lo, hi = self.iv.ev(dz)
                if lo > 0:
                    continue
                if hi < 0:
                    sgn *= -1 if pw % 2 else 1
                    continue
                r1, _ = self.solver.check(st.pc, [dz <= 0], 1500)
                if r1 == 'unsat':
                    continue
                r1, _ = self.solver.check(st.pc, [dz >= 0], 1500)
                if r1 == 'unsat':
                    sgn *= -1 if pw % 2 else 1
                    continue
                if pw % 2 == 0:
                    r1, _ = self.solver.check(st.pc, [dz == 0], 1500)
                    if r1 == 'unsat':
                        continue
                return None
            z = z3.RealVal(0)
            if k == z3.Z3_OP_EQ:
                return np == z
            if sgn < 0:
                np = -np
            return {z3.Z3_OP_LE: lambda: np <= z, z3.Z3_OP_LT: lambda: np < z,
                    z3.Z3_OP_GE: lambda: np >= z, z3.Z3_OP_GT: lambda: np > z}[k]()
        return c

    def check_goal(self, st, goal, label, info='', strong=None):
        """goal: python bool or z3 Bool.  strong: a condition implying the negation of goal with a
        margin, preferred when a counterexample is built"""
        if goal is True:
            self.discharged[label] = self.discharged.get(label, 0) + 1
            return True
        if self.concrete is not None:
            self.violations.append(Violation(label, 'check', list(st.inputs), None, info))
            return False
        if goal is False:
            r0, _ = self.solver.check(st.pc, [], self.opts['p_timeout'], full=True)
            if r0 == 'unsat':
                raise PathEnd('infeasible')
            res, m = 'sat', None
        else:
            res, m = self.prove(st, goal)
        if res == 'unsat':
            self.discharged[label] = self.discharged.get(label, 0) + 1
            return True
        n = self.nviol.get(label, 0)
        if res == 'unknown':
            u = self.undecided.setdefault(label, [0, []])
            u[0] += 1
            if len(u[1]) < 3:
                u[1].append(info)
        if n >= self.opts['max_per_label']:
            return None if res == 'unknown' else False
        self.nviol[label] = n + 1
        sets = []
        if strong is not None:
            sets.append([strong])
        if goal is not False:
            sets.append([z3.Not(goal)])
        sets.append([])
        vals = []
        for ex in sets:
            if res == 'unknown' and not ex:
                continue
            vs = self.model_inputs(st, ex)
            for v in vs:
                if v not in vals:
                    vals.append(v)
            if vs and res != 'unknown' and len(vals) >= 2:
                break
        for ex in sets[:1]:
            for v in self.pinned_inputs(st, ex):
                if v not in vals:
                    vals.append(v)
                    if res == 'unknown':
                        res = 'sat'
                        self.undecided[label][0] -= 1
                        if not self.undecided[label][0]:
                            del self.undecided[label]
        if not vals and res == 'unknown':
            vals = self.model_inputs(st, [])
        kind = 'check' if res == 'sat' else 'candidate'
        if vals:
            self.violations.append(Violation(label, kind, list(st.inputs), vals, info))
        elif res == 'sat':
            u = self.undecided.setdefault(label, [0, []])
            u[0] += 1
        return None if res == 'unknown' else False

    def model_inputs(self, st, extra):
        """candidate concrete input vectors satisfying the path condition and extra"""
        res, fm = self.solver.check(st.pc, extra, self.opts['m_timeout'], model=True, full=True)
        if fm is None:
            return []
        out = []
        for inv in (True, False):
            c = self.vals_from(st, fm, inv)
            if c is not None and c not in out:
                out.append(c)
        return out

    def pinned_inputs(self, st, extra, rounds=8, want=3):
        """counterexamples with most inputs pinned to generic values: the solver decides the rest"""
        rng = random.Random(len(st.pc) * 7919 + len(st.inputs))
        syms = [v for k, n, v in st.inputs if issym(v) and k in ('real', 'rand')]
        if not syms:
            return []
        out = []
        for i in range(rounds):
            nf = min(len(syms), (1, 0, 2, 3, 0, 2, 4, 1)[i % 8])
            free = set(v.get_id() for v in rng.sample(syms, nf))
            pins = []
            for v in syms:
                if v.get_id() in free:
                    continue
                lo, hi = self.iv.b.get(v.get_id(), (-INF, INF))
                if not (lo > -INF and hi < INF):
                    continue
                x = Fraction(lo) + Fraction(rng.randint(50, 950), 1000) * (Fraction(hi) - Fraction(lo))
                pins.append((v, z3.RealVal(str(x))))
            cs = []
            for c in list(extra) + st.pc:
                c = z3.simplify(z3.substitute(c, *pins))
                if z3.is_true(c):
                    continue
                cs.append(c)
                if z3.is_false(c):
                    break
            if cs and z3.is_false(cs[-1]):
                continue
            res, m = self.solver.check([], cs, 1500, model=True, full=True)
            if m is None:
                continue
            pv = {v.get_id(): val_float(x) for v, x in pins}
            for inv in (True, False):
                c = self.vals_from(st, m, inv, pv)
                if c is not None and c not in out:
                    out.append(c)
            if len(out) >= want:
                break
        return out

    def vals_from(self, st, m, invert, over=None):
        over = dict(over or {})
        if invert:
            # make inputs consistent with the trig / log atoms of the model
            for arg, c, s in st.trig:
                vs = term_vars(arg)
                iv = [v for v in (x[2] for x in st.inputs) if issym(v) and v.get_id() in vs]
                if len(vs) != 1 or len(iv) != 1:
                    continue
                cv = val_float(m.eval(c, model_completion=True))
                sv = val_float(m.eval(s, model_completion=True))
                if cv is None or sv is None:
                    continue
                th = math.atan2(float(sv), float(cv))
                v = iv[0]
                a0 = val_float(z3.simplify(z3.substitute(arg, (v, z3.RealVal(0)))))
                a1 = val_float(z3.simplify(z3.substitute(arg, (v, z3.RealVal(1)))))
                if a0 is None or a1 is None or a1 == a0:
                    continue
                lo, hi = self.iv.b.get(v.get_id(), (-INF, INF))
                for k in range(-3, 4):
                    x = (th + 2 * math.pi * k - float(a0)) / float(a1 - a0)
                    if lo <= x <= hi:
                        over[v.get_id()] = Fraction(x)
                        break
            for arg, L in st.logs:
                if issym(arg) and arg.get_id() in set(x[2].get_id() for x in st.inputs if issym(x[2])):
                    lv = val_float(m.eval(L, model_completion=True))
                    if lv is not None:
                        try:
                            x = math.exp(float(lv))
                        except OverflowError:
                            continue
                        lo, hi = self.iv.b.get(arg.get_id(), (-INF, INF))
                        if lo <= x <= hi:
                            over[arg.get_id()] = Fraction(x)
        vals = []
        for kind, name, v in st.inputs:
            if not issym(v):
                vals.append(v)
                continue
            if v.get_id() in over:
                f = over[v.get_id()]
            else:
                f = val_float(m.eval(v, model_completion=True))
            if f is None:
                return None
            if kind == 'int':
                vals.append(int(f))
            else:
                x = float(f)
                lo, hi = self.iv.b.get(v.get_id(), (-INF, INF))
                x = min(max(x, lo), hi)
                if kind == 'rand' and x >= 1.0:
                    x = math.nextafter(1.0, 0.0)
                vals.append(x)
        return vals

    # ------------------------------------------------------------ run
    def initial_state(self):
        st = State()
        st.frames = []
        st.mem = {}
        st.pc = []
        st.dec = {}
        st.inputs = []
        st.memo = {}
        st.acos = {}
        st.squares = {}
        st.trig = []
        st.logs = []
        st.events = []
        st.monos = {}
        st.tags = []
        st.depth = 0
        st.checks = set()
        st.user = {}
        st.nforks = 0
        return st

    def push(self, st, fn, args, dst, va=None):
        if fn.code is None:
            from .decode import decode
            decode(self, fn)
        self.fn_used.add(fn.name)
        fr = Frame()
        fr.fn = fn
        fr.regs = list(fn.tmpl)
        for i, a in enumerate(args[:len(fn.params)]):
            fr.regs[i] = a
        fr.allocas = []
        fr.dst = dst
        fr.ip = 0
        fr.blk = 0
        fr.ops = fn.code[0]
        fr.va = args[len(fn.params):]
        st.frames.append(fr)
        if len(st.frames) > 400:
            raise Unsupported('call depth')

    def run_ctors(self, st):
        for m in reversed(self.modules):
            g = m.globals.get('llvm.global_ctors')
            if g is None:
                continue
            ini = m.global_init(g)
            if ini[0] != 'agg':
                continue
            for t, v in ini[1]:
                nm = v[1][1][1]
                if nm[0] != 'g':
                    continue
                f = self.lookup_fn(m, nm[1])
                self.push(st, f, [], None)
                self.loop(st, len(st.frames) - 1)

    def loop(self, st, base):
        """run until the frame stack drops to base"""
        frames = st.frames
        while len(frames) > base:
            fr = frames[-1]
            ops = fr.ops
            i = fr.ip
            n0 = i
            try:
                while True:
                    if ops[i](st, fr):
                        break
                    i += 1
            except BaseException:
                fr2 = frames[-1]
                if fr2 is fr and fr.ops is ops:
                    fr.ip = i
                raise
            self.steps += i - n0 + 1

    def explore(self, entry):
        t0 = time.time()
        st = self.initial_state()
        save = self.concrete
        f = self.ext.get(entry)
        if f is None:
            raise Unsupported('no entry ' + entry)
        self.run_ctors(st)
        self.push(st, f, [], None)
        work = [st]
        while work:
            if time.time() - t0 > self.opts['time']:
                self.incomplete = 'time budget (%ds), %d states pending' % (self.opts['time'], len(work))
                break
            if self.paths >= self.opts['max_paths']:
                self.incomplete = 'path budget'
                break
            if self.steps > self.opts['max_steps']:
                self.incomplete = 'step budget'
                break
            st = work.pop()
            try:
                self.loop(st, 0)
                self.finish(st, 'return')
            except Fork as fk:
                c = fk.cond
                s2 = st.clone()
                st.dec[c.get_id()] = (True, c)
                st.pc.append(c)
                s2.dec[c.get_id()] = (False, c)
                s2.pc.append(z3.Not(c))
                work.append(s2)
                work.append(st)
            except PathEnd as e:
                self.finish(st, e.kind, e.info)
            except MemErr as e:
                self.memory_violation(st, str(e))
                self.finish(st, 'memory', str(e))
            except Unsupported as e:
                self.unsupported[str(e)] = self.unsupported.get(str(e), 0) + 1
                self.finish(st, 'unsupported', str(e))
        self.wall = time.time() - t0

    def memory_violation(self, st, msg):
        where = ''
        for fr in reversed(st.frames):
            where += fr.fn.name + ' < '
        info = msg + ' in ' + where[:300]
        lab = 'memory-safety:' + (st.frames[-1].fn.name if st.frames else '')
        if self.concrete is not None:
            self.violations.append(Violation(lab, 'memory', st.inputs, None, info))
            return
        res, m = self.solver.check(st.pc, [], self.opts['p_timeout'], model=True, full=True)
        if res == 'unsat':
            return
        n = self.nviol.get(lab, 0)
        if n >= self.opts['max_per_label']:
            return
        self.nviol[lab] = n + 1
        if m is not None:
            vals = self.model_inputs(st, [])
            self.violations.append(Violation(lab, 'memory', list(st.inputs), vals, info))
        else:
            u = self.undecided.setdefault(lab, [0, []])
            u[0] += 1
            u[1].append(info)

    def finish(self, st, kind, info=''):
        self.paths += 1
        self.ended[kind] = self.ended.get(kind, 0) + 1
        if kind == 'return' or kind == 'exit' or kind == 'stop':
            for t in st.checks:
                self.reached[t] = self.reached.get(t, 0) + 1
            if self.path_hook:
                self.path_hook(self, st)
            if len(self.samples) < 2 and self.concrete is None:
                self.samples.append({'path_inputs': ['%s %s' % (k, n) for k, n, v in st.inputs][:12],
                                     'n_inputs': len(st.inputs), 'path_conditions': len(st.pc),
                                     'decisions': [str(c)[:100] + '=' + str(v) for v, c in list(st.dec.values())[:5]]})


def zero_of(mod, ty):
    t = mod.resolve(ty)
    if t[0] == 'i':
        return False if t[1] == 1 else 0
    if t[0] in ('f64', 'f32', 'f80'):
        return 0.0
    if t[0] == 'ptr':
        return NULL
    if t[0] == 'st':
        return tuple(zero_of(mod, e) for e in t[1])
    if t[0] in ('arr', 'vec'):
        return tuple(zero_of(mod, t[2]) for _ in range(t[1]))
    raise Unsupported('zero %r' % (t,))


def undef_of(mod, ty):
    t = mod.resolve(ty)
    if t[0] == 'st':
        return tuple(undef_of(mod, e) for e in t[1])
    if t[0] in ('arr', 'vec'):
        return tuple(undef_of(mod, t[2]) for _ in range(t[1]))
    if t[0] == 'i' and t[1] > 1:
        return 0
    if t[0] in ('f64', 'f32'):
        return 0.0
    return UNDEF


