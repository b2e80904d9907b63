"""Decode a parsed LLVM IR function into Python closures.

Every operand is an index into the frame's register list; constants are preloaded in the
register template, so an operand fetch is one list index."""
import struct
import z3
from . import irparse as ir
from .irparse import P, tokenize, unq
from .sym import R, rv, issym, IS, RS, INF
from . import symex as sx
from .symex import Ptr, FnPtr, NULL, UNDEF, FBits, Unsupported, PathEnd, wrap, MemErr

NAN = float('nan')
BINOPS = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or',
          'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc',
         'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
         'inbounds', 'disjoint', 'nneg', 'volatile', 'nusw'}


def want_of(t):
    if t[0] == 'f64' or t[0] == 'f80':
        return 'f'
    if t[0] == 'f32':
        return 'f32'
    if t[0] == 'ptr':
        return 'p'
    if t == ('i', 1):
        return 'i1'
    return 'i'


class Dec:
    def __init__(self, eng, fn):
        self.e = eng
        self.fn = fn
        self.mod = fn.mod
        self.reg = {}
        self.tmpl = [None] * len(fn.params)
        self.cmap = {}
        cnt = 0
        for i, (t, nm) in enumerate(fn.params):
            if nm is None:
                nm = str(cnt)
                cnt += 1
            elif nm.isdigit():
                cnt = int(nm) + 1
            self.reg[nm] = i

    def rg(self, name):
        i = self.reg.get(name)
        if i is None:
            i = len(self.tmpl)
            self.tmpl.append(None)
            self.reg[name] = i
        return i

    def op(self, v, ty):
        """index of an operand"""
        if v[0] == 'l':
            return self.rg(v[1])
        c = self.e.const(v, self.mod.resolve(ty) if ty[0] == 'named' else ty, self.mod)
        self.tmpl.append(c)
        return len(self.tmpl) - 1

    def constop(self, c):
        self.tmpl.append(c)
        return len(self.tmpl) - 1

    def run(self):
        fn = self.fn
        bl = ir.split_blocks(fn)
        self.lab = {l: i for i, (l, _) in enumerate(bl)}
        parsed = []
        self.phis = {}
        for bi, (l, ins) in enumerate(bl):
            for s in ins:
                if ' = phi ' in s:
                    p = P(tokenize(s))
                    d = self.rg(unq(p.next()[1]))
                    p.exp('=')
                    p.exp('phi')
                    while p.peek()[1] in FLAGS:
                        p.next()
                    ty = p.type()
                    while True:
                        p.exp('[')
                        v = self.op(p.value(ty), ty)
                        p.exp(',')
                        src = unq(p.next()[1])
                        p.exp(']')
                        self.phis.setdefault((self.lab[src], bi), []).append((d, v))
                        if not p.acc(','):
                            break
        code = [[] for _ in bl]
        fn.code = code
        self.code = code
        for bi, (l, ins) in enumerate(bl):
            self.bi = bi
            ops = code[bi]
            self.ops = ops
            for s in ins:
                if ' = phi ' in s:
                    continue
                try:
                    self.ins(s)
                except (ir.IRError, Unsupported, KeyError) as ex:
                    msg = 'decode: %s: %s' % (ex, s[:120])

                    def bad(st, fr, msg=msg):
                        raise Unsupported(msg)
                    ops.append(bad)
        fn.tmpl = self.tmpl
        fn.nregs = len(self.tmpl)

    # -------------------------------------------------------- control
    def jump(self, dest):
        """closure performing the jump from the current block to dest"""
        mv = self.phis.get((self.bi, dest), ())
        tgt = self.code[dest]
        if not mv:
            def j(fr):
                fr.ops = tgt
                fr.ip = 0
                fr.blk = dest
                return True
        elif len(mv) == 1:
            d, v = mv[0]

            def j(fr):
                r = fr.regs
                r[d] = r[v]
                fr.ops = tgt
                fr.ip = 0
                fr.blk = dest
                return True
        else:
            ds = [d for d, v in mv]
            vs = [v for d, v in mv]

            def j(fr):
                r = fr.regs
                xs = [r[v] for v in vs]
                for d, x in zip(ds, xs):
                    r[d] = x
                fr.ops = tgt
                fr.ip = 0
                fr.blk = dest
                return True
        return j

    def label(self, p):
        p.exp('label')
        return self.lab[unq(p.next()[1])]

    def ins(self, s):
        p = P(tokenize(s))
        dst = None
        if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
            dst = self.rg(unq(p.next()[1]))
            p.next()
        k, opn = p.next()
        e = self.e
        ops = self.ops
        if opn in ('tail', 'musttail', 'notail'):
            k, opn = p.next()
        if opn == 'br':
            if p.peek()[1] == 'label':
                j = self.jump(self.label(p))
                ops.append(lambda st, fr: j(fr))
                return
            ty = p.type()
            c = self.op(p.value(ty), ty)
            p.exp(',')
            j1 = self.jump(self.label(p))
            p.exp(',')
            j2 = self.jump(self.label(p))

            def br(st, fr):
                v = fr.regs[c]
                if v is not True and v is not False:
                    v = e.decide(st, v)
                return j1(fr) if v else j2(fr)
            ops.append(br)
            return
        if opn == 'ret':
            ty = p.type()
            src = None
            if ty != ('void',):
                src = self.op(p.value(ty), ty)

            def ret(st, fr):
                v = fr.regs[src] if src is not None else None
                for o in fr.allocas:
                    st.mem.pop(o, None)
                st.frames.pop()
                if st.frames and fr.dst is not None:
                    st.frames[-1].regs[fr.dst] = v
                elif fr.dst == -1:
                    st.user['ret'] = v
                return True
            ops.append(ret)
            return
        if opn == 'switch':
            ty = p.type()
            v = self.op(p.value(ty), ty)
            p.exp(',')
            d = self.jump(self.label(p))
            p.exp('[')
            tab = {}
            while not p.acc(']'):
                t2 = p.type()
                cv = e.const(p.value(t2), t2, self.mod)
                p.exp(',')
                tab[int(cv)] = self.jump(self.label(p))

            def sw(st, fr):
                x = fr.regs[v]
                if issym(x):
                    if z3.is_bool(x):
                        x = int(e.decide(st, x))
                    else:
                        for cv in tab:
                            if e.decide(st, x == cv):
                                return tab[cv](fr)
                        return d(fr)
                j = tab.get(int(x))
                return j(fr) if j is not None else d(fr)
            ops.append(sw)
            return
        if opn == 'unreachable':
            def unr(st, fr):
                raise PathEnd('unreachable')
            ops.append(unr)
            return
        if opn in ('resume', 'landingpad', 'cleanupret', 'catchswitch'):
            def lp(st, fr):
                raise Unsupported('exception handling')
            ops.append(lp)
            return
        if opn == 'call' or opn == 'invoke':
            self.call(p, dst, opn == 'invoke')
            return
        if opn == 'alloca':
            if p.peek()[1] == 'inalloca':
                p.next()
            ty = p.type()
            size = self.mod.size(ty)
            cnt = None
            if p.acc(','):
                if p.peek()[1] != 'align':
                    t2 = p.type()
                    cnt = self.op(p.value(t2), t2)
            nm = self.fn.name

            def alloca(st, fr):
                n = size
                if cnt is not None:
                    n = size * e.concretize(st, fr.regs[cnt])
                o = e.new_obj(st.mem, n, nm, 'uninit', 'stack')
                fr.allocas.append(o)
                fr.regs[dst] = Ptr(o, 0)
            ops.append(alloca)
            return
        if opn == 'load':
            while p.peek()[1] in ('volatile', 'atomic'):
                p.next()
            ty = p.type()
            p.exp(',')
            p.type()
            a = self.op(p.value(('ptr',)), ('ptr',))
            rt = self.mod.resolve(ty)
            if rt[0] in ('st', 'arr', 'vec'):
                parts = []
                n = len(rt[1]) if rt[0] == 'st' else rt[1]
                for i in range(n):
                    et = self.mod.resolve(rt[1][i] if rt[0] == 'st' else rt[2])
                    off = self.mod.field_off(rt, i) if rt[0] == 'st' else i * self.mod.size(et)
                    if et[0] in ('st', 'arr', 'vec'):
                        raise Unsupported('nested aggregate load')
                    parts.append((off, self.mod.size(et), want_of(et)))

                def ldagg(st, fr):
                    q = fr.regs[a]
                    fr.regs[dst] = tuple(e.load(st, Ptr(q.o, q.f + o), s, w) for o, s, w in parts)
                ops.append(ldagg)
                return
            size = self.mod.size(ty)
            w = want_of(rt)

            def load(st, fr):
                fr.regs[dst] = e.load(st, fr.regs[a], size, w)
            ops.append(load)
            return
        if opn == 'store':
            while p.peek()[1] in ('volatile', 'atomic'):
                p.next()
            ty = p.type()
            v = self.op(p.value(ty), ty)
            p.exp(',')
            p.type()
            a = self.op(p.value(('ptr',)), ('ptr',))
            rt = self.mod.resolve(ty)
            if rt[0] in ('st', 'arr', 'vec'):
                parts = []
                n = len(rt[1]) if rt[0] == 'st' else rt[1]
                for i in range(n):
                    et = self.mod.resolve(rt[1][i] if rt[0] == 'st' else rt[2])
                    off = self.mod.field_off(rt, i) if rt[0] == 'st' else i * self.mod.size(et)
                    parts.append((off, self.mod.size(et)))

                def stagg(st, fr):
                    q = fr.regs[a]
                    for (o, s), x in zip(parts, fr.regs[v]):
                        e.store(st, Ptr(q.o, q.f + o), s, x)
                ops.append(stagg)
                return
            size = self.mod.size(ty)

            def store(st, fr):
                r = fr.regs
                e.store(st, r[a], size, r[v])
            ops.append(store)
            return
        if opn == 'getelementptr':
            while p.peek()[1] in FLAGS:
                p.next()
            bt = p.type()
            p.exp(',')
            p.type()
            a = self.op(p.value(('ptr',)), ('ptr',))
            const = 0
            dyn = []
            t = bt
            first = True
            while p.acc(','):
                it = p.type()
                v = p.value(it)
                if first:
                    sz = self.mod.size(t)
                    first = False
                else:
                    t = self.mod.resolve(t)
                    if t[0] in ('arr', 'vec'):
                        t = t[2]
                        sz = self.mod.size(t)
                    else:
                        n = e.const(v, it, self.mod)
                        const += self.mod.field_off(t, n)
                        t = t[1][n]
                        continue
                if v[0] == 'l':
                    dyn.append((self.rg(v[1]), sz))
                else:
                    const += e.const(v, it, self.mod) * sz

            def base_fix(x):
                if x is UNDEF:
                    raise MemErr('address computed from uninitialised pointer')
                raise Unsupported('gep on %r' % (x,))
            if not dyn:
                def gep0(st, fr):
                    r = fr.regs
                    q = r[a]
                    if type(q) is not Ptr:
                        base_fix(q)
                    r[dst] = Ptr(q.o, q.f + const)
                ops.append(gep0)
            elif len(dyn) == 1:
                i1, s1 = dyn[0]

                def gep1(st, fr):
                    r = fr.regs
                    q = r[a]
                    if type(q) is not Ptr:
                        base_fix(q)
                    x = r[i1]
                    if type(x) is not int:
                        x = e.concretize(st, x)
                    r[dst] = Ptr(q.o, q.f + const + x * s1)
                ops.append(gep1)
            else:
                def gepn(st, fr):
                    r = fr.regs
                    q = r[a]
                    if type(q) is not Ptr:
                        base_fix(q)
                    off = q.f + const
                    for i, s_ in dyn:
                        x = r[i]
                        if type(x) is not int:
                            x = e.concretize(st, x)
                        off += x * s_
                    r[dst] = Ptr(q.o, off)
                ops.append(gepn)
            return
        if opn in BINOPS:
            while p.peek()[1] in FLAGS:
                p.next()
            ty = p.type()
            a = self.op(p.value(ty), ty)
            p.exp(',')
            b = self.op(p.value(ty), ty)
            if ty[0] == 'vec':
                raise Unsupported('vector op')
            ops.append(self.binop(opn, ty, dst, a, b))
            return
        if opn == 'fneg':
            while p.peek()[1] in FLAGS:
                p.next()
            ty = p.type()
            a = self.op(p.value(ty), ty)

            def fneg(st, fr):
                fr.regs[dst] = -fr.regs[a]
            ops.append(fneg)
            return
        if opn == 'icmp':
            pred = p.next()[1]
            ty = p.type()
            a = self.op(p.value(ty), ty)
            p.exp(',')
            b = self.op(p.value(ty), ty)
            ops.append(self.icmp(pred, ty, dst, a, b))
            return
        if opn == 'fcmp':
            while p.peek()[1] in FLAGS:
                p.next()
            pred = p.next()[1]
            ty = p.type()
            a = self.op(p.value(ty), ty)
            p.exp(',')
            b = self.op(p.value(ty), ty)

            def fcmp(st, fr):
                r = fr.regs
                r[dst] = fcmp_(pred, r[a], r[b])
            ops.append(fcmp)
            return
        if opn in CASTS:
            while p.peek()[1] in FLAGS:
                p.next()
            ft = p.type()
            a = self.op(p.value(ft), ft)
            p.exp('to')
            tt = p.type()
            ops.append(self.cast(opn, ft, tt, dst, a))
            return
        if opn == 'select':
            while p.peek()[1] in FLAGS:
                p.next()
            ct = p.type()
            c = self.op(p.value(ct), ct)
            p.exp(',')
            t1 = p.type()
            a = self.op(p.value(t1), t1)
            p.exp(',')
            t2 = p.type()
            b = self.op(p.value(t2), t2)
            isb = t1 == ('i', 1)

            def sel(st, fr):
                r = fr.regs
                v = r[c]
                if v is not True and v is not False:
                    if isb:
                        x, y = r[a], r[b]
                        # logical and/or of conditions without forking
                        if y is False and (x is True or issym(x)):
                            r[dst] = v if x is True else z3.And(v, x)
                            return
                        if x is True and (y is False or issym(y)):
                            r[dst] = v if y is False else z3.Or(v, y)
                            return
                    v = e.decide(st, v)
                r[dst] = r[a] if v else r[b]
            ops.append(sel)
            return
        if opn == 'extractvalue':
            ty = p.type()
            a = self.op(p.value(ty), ty)
            idx = []
            while p.acc(','):
                idx.append(int(p.next()[1]))

            def ev(st, fr):
                x = fr.regs[a]
                for i in idx:
                    x = x[i]
                fr.regs[dst] = x
            ops.append(ev)
            return
        if opn == 'insertvalue':
            ty = p.type()
            a = self.op(p.value(ty), ty)
            p.exp(',')
            t2 = p.type()
            b = self.op(p.value(t2), t2)
            idx = []
            while p.acc(','):
                idx.append(int(p.next()[1]))
            if len(idx) != 1:
                raise Unsupported('nested insertvalue')
            i0 = idx[0]

            def iv(st, fr):
                x = list(fr.regs[a])
                x[i0] = fr.regs[b]
                fr.regs[dst] = tuple(x)
            ops.append(iv)
            return
        if opn == 'freeze':
            ty = p.type()
            a = self.op(p.value(ty), ty)

            def fz(st, fr):
                fr.regs[dst] = fr.regs[a]
            ops.append(fz)
            return
        if opn == 'fence':
            return
        if opn == 'atomicrmw':
            while p.peek()[1] in ('volatile',):
                p.next()
            kind = p.next()[1]
            p.type()
            a = self.op(p.value(('ptr',)), ('ptr',))
            p.exp(',')
            ty = p.type()
            b = self.op(p.value(ty), ty)
            size = self.mod.size(ty)

            def rmw(st, fr):
                r = fr.regs
                old = e.load(st, r[a], size, 'i')
                x = r[b]
                new = {'add': lambda: old + x, 'sub': lambda: old - x, 'xchg': lambda: x}[kind]()
                e.store(st, r[a], size, new)
                r[dst] = old
            ops.append(rmw)
            return
        raise Unsupported('instruction ' + opn)

    # -------------------------------------------------------- arithmetic
    def binop(self, opn, ty, dst, a, b):
        e = self.e
        if opn[0] == 'f':
            f = {'fadd': fadd, 'fsub': fsub, 'fmul': fmul, 'fdiv': fdiv}.get(opn)
            if f is None:
                from .models import frem

                def rem(st, fr):
                    fr.regs[dst] = frem(e, st, fr.regs[a], fr.regs[b])
                return rem
            if opn == 'fdiv':
                def fd(st, fr):
                    r = fr.regs
                    r[dst] = fdiv(e, st, r[a], r[b])
                return fd
            if opn == 'fmul':
                def fm(st, fr):
                    r = fr.regs
                    x, y = r[a], r[b]
                    if type(x) is float and type(y) is float:
                        r[dst] = x * y
                    else:
                        r[dst] = fmul(e, st, x, y)
                return fm
            if opn == 'fadd':
                def fa(st, fr):
                    r = fr.regs
                    x, y = r[a], r[b]
                    if type(x) is float and type(y) is float:
                        r[dst] = x + y
                    else:
                        r[dst] = fadd(x, y)
                return fa

            def fs(st, fr):
                r = fr.regs
                x, y = r[a], r[b]
                if type(x) is float and type(y) is float:
                    r[dst] = x - y
                else:
                    r[dst] = fsub(x, y)
            return fs
        n = ty[1]
        if n == 1:
            def b1(st, fr):
                r = fr.regs
                r[dst] = boolop(e, st, opn, r[a], r[b])
            return b1
        m1 = 1 << (n - 1)
        if opn == 'add':
            def add(st, fr):
                r = fr.regs
                x, y = r[a], r[b]
                if type(x) is int and type(y) is int:
                    v = x + y
                    r[dst] = v if -m1 <= v < m1 else wrap(v, n)
                else:
                    r[dst] = isym(e, st, 'add', x, y, n)
            return add
        if opn == 'sub':
            def sub(st, fr):
                r = fr.regs
                x, y = r[a], r[b]
                if type(x) is int and type(y) is int:
                    v = x - y
                    r[dst] = v if -m1 <= v < m1 else wrap(v, n)
                else:
                    r[dst] = isym(e, st, 'sub', x, y, n)
            return sub

        def gen(st, fr):
            r = fr.regs
            x, y = r[a], r[b]
            if type(x) is int and type(y) is int:
                r[dst] = iop(opn, x, y, n)
            else:
                r[dst] = isym(e, st, opn, x, y, n)
        return gen

    def icmp(self, pred, ty, dst, a, b):
        e = self.e
        n = ty[1] if ty[0] == 'i' else 64

        def ic(st, fr):
            r = fr.regs
            x, y = r[a], r[b]
            if type(x) is int and type(y) is int:
                r[dst] = icmp_(pred, x, y, n)
                return
            r[dst] = icmp_sym(e, st, pred, x, y, n)
        return ic

    def cast(self, opn, ft, tt, dst, a):
        e = self.e
        if opn in ('bitcast', 'addrspacecast'):
            if ft[0] == tt[0]:
                def bc(st, fr):
                    fr.regs[dst] = fr.regs[a]
                return bc
            w = want_of(tt)
            s = self.mod.size(tt)

            def bc2(st, fr):
                fr.regs[dst] = e.conv(fr.regs[a], w, s)
            return bc2
        if opn in ('ptrtoint', 'inttoptr'):
            def pi(st, fr):
                x = fr.regs[a]
                if opn == 'ptrtoint' and x == NULL:
                    x = 0
                if opn == 'inttoptr' and type(x) is int:
                    x = NULL if x == 0 else Ptr(-1, x)
                fr.regs[dst] = x
            return pi
        if opn in ('fpext', 'fptrunc'):
            tr = opn == 'fptrunc' and tt == ('f32',)

            def fe(st, fr):
                x = fr.regs[a]
                if tr and type(x) is float and x == x and abs(x) < 3e38:
                    x = struct.unpack('<f', struct.pack('<f', x))[0]
                fr.regs[dst] = x
            return fe
        if opn in ('sitofp', 'uitofp'):
            n = ft[1]
            u = opn == 'uitofp'

            def si(st, fr):
                x = fr.regs[a]
                if x is True or x is False:
                    x = (1.0 if u else -1.0) if x else 0.0
                elif type(x) is int:
                    if u and x < 0:
                        x += 1 << n
                    x = float(x)
                elif issym(x):
                    if z3.is_bool(x):
                        x = (1.0 if u else -1.0) if e.decide(st, x) else 0.0
                    else:
                        x = z3.ToReal(x)
                fr.regs[dst] = x
            return si
        if opn in ('fptosi', 'fptoui'):
            n = tt[1]

            def fi(st, fr):
                x = fr.regs[a]
                if type(x) is float:
                    if x != x or x in (INF, -INF) or abs(x) >= 2.0 ** (n - (1 if opn == 'fptosi' else 0)):
                        st.tags.append(('fptosi-range', fr.fn.name))
                        fr.regs[dst] = -(1 << (n - 1))
                    else:
                        fr.regs[dst] = wrap(int(x), n)
                else:
                    fr.regs[dst] = e.trunc_real(st, x, n)
            return fi
        nf = ft[1]
        nt = tt[1]
        if opn == 'zext':
            def zx(st, fr):
                x = fr.regs[a]
                if type(x) is int:
                    if x < 0:
                        x += 1 << nf
                    x = x if nt > nf else wrap(x, nt)
                elif x is True:
                    x = 1
                elif x is False:
                    x = 0
                elif issym(x):
                    if z3.is_bool(x):
                        x = e.from_bool(x)
                    elif e.decide(st, x < 0):
                        x = x + (1 << nf)
                fr.regs[dst] = x
            return zx
        if opn == 'sext':
            def sx_(st, fr):
                x = fr.regs[a]
                if x is True:
                    x = -1
                elif x is False:
                    x = 0
                elif issym(x) and z3.is_bool(x):
                    x = -1 if e.decide(st, x) else 0
                fr.regs[dst] = x
            return sx_
        if opn == 'trunc':
            def tr(st, fr):
                x = fr.regs[a]
                if type(x) is int:
                    x = bool(x & 1) if nt == 1 else wrap(x, nt)
                elif isinstance(x, FBits):
                    raise Unsupported('trunc of float bits')
                elif issym(x):
                    if nt == 1:
                        x = e.to_bool(x)
                    else:
                        h = 1 << (nt - 1)
                        if not e.decide(st, z3.And(x >= -h, x < h)):
                            x = e.concretize(st, x)
                            x = wrap(x, nt)
                fr.regs[dst] = x
            return tr
        raise Unsupported(opn)

    # -------------------------------------------------------- calls
    def call(self, p, dst, invoke):
        e = self.e
        p.skip_attrs()
        while p.peek()[1] in FLAGS:
            p.next()
        p.skip_attrs()
        rt = p.type()
        if rt[0] == 'fn':
            rt = rt[1]
        k, v = p.next()
        args = []
        callee = None
        if k == 'glob':
            callee = ('g', unq(v))
        elif k == 'loc':
            callee = ('l', self.rg(unq(v)))
        elif v == 'asm':
            def asm(st, fr):
                raise Unsupported('inline asm')
            self.ops.append(asm)
            return
        else:
            raise Unsupported('callee ' + v)
        p.exp('(')
        byval = []
        if not p.acc(')'):
            while True:
                if p.peek()[1] == 'metadata':
                    # debug metadata: ignore the call
                    return
                t = p.type()
                j = p.i
                p.skip_attrs()
                if any(x[1] == 'byval' for x in p.t[j:p.i]):
                    q = P(p.t[j:p.i])
                    while q.peek()[1] != 'byval':
                        q.next()
                    q.next()
                    q.exp('(')
                    byval.append((len(args), self.mod.size(q.type())))
                args.append(self.op(p.value(t), t))
                if p.acc(')'):
                    break
                p.exp(',')
        jn = None
        if invoke:
            while p.peek()[1] != 'to':
                p.next()
            p.next()
            jn = self.jump(self.label(p))
        ops = self.ops
        idx = len(ops)
        if callee[0] == 'g':
            name = callee[1]
            fn = e.lookup_fn(self.mod, name)
            model = e.model_for(name, fn)
            if model is not None:
                if model is SKIP:
                    if jn:
                        ops.append(lambda st, fr: jn(fr))
                    return

                def cm(st, fr):
                    r = fr.regs
                    x = model(e, st, [r[i] for i in args])
                    if x is REDIRECT:
                        fr.ip = idx + 1
                        fn2, a2 = st.user.pop('redirect')
                        e.push(st, fn2, a2, dst)
                        return True
                    if dst is not None:
                        r[dst] = x
                ops.append(cm)
            elif fn is None or fn.body is None:
                def miss(st, fr):
                    raise Unsupported('call of external function ' + name)
                ops.append(miss)
            else:
                def cf(st, fr):
                    r = fr.regs
                    fr.ip = idx + 1
                    av = [r[i] for i in args]
                    if byval:
                        copy_byval(e, st, fr, av, byval)
                    e.push(st, fn, av, dst)
                    return True
                ops.append(cf)
        else:
            ci = callee[1]

            def cp(st, fr):
                r = fr.regs
                f = r[ci]
                if not isinstance(f, FnPtr):
                    raise MemErr('call through %r' % (f,))
                av = [r[i] for i in args]
                model = e.model_for(f.name, f.fn)
                if model is not None:
                    x = model(e, st, av) if model is not SKIP else None
                    if x is REDIRECT:
                        fr.ip = idx + 1
                        fn2, a2 = st.user.pop('redirect')
                        e.push(st, fn2, a2, dst)
                        return True
                    if dst is not None:
                        r[dst] = x
                    return False
                if f.fn is None:
                    raise Unsupported('call of external function ' + f.name)
                fr.ip = idx + 1
                if byval:
                    copy_byval(e, st, fr, av, byval)
                e.push(st, f.fn, av, dst)
                return True
            ops.append(cp)
        if jn:
            ops.append(lambda st, fr: jn(fr))


class _S:
    pass


SKIP = _S()
REDIRECT = _S()


def copy_byval(e, st, fr, av, byval):
    for i, n in byval:
        o = e.new_obj(st.mem, n, 'byval', 'uninit', 'stack')
        fr.allocas.append(o)
        e.memcpy(st, Ptr(o, 0), av[i], n)
        av[i] = Ptr(o, 0)


# ------------------------------------------------------------ value level operations
def bad(x):
    return type(x) is float and (x != x or x == INF or x == -INF)


def fadd(x, y):
    if type(x) is float and type(y) is float:
        return x + y
    if bad(x):
        return x
    if bad(y):
        return y
    if type(x) is float and x == 0.0:
        return y
    if type(y) is float and y == 0.0:
        return x
    return R(x) + R(y)


def fsub(x, y):
    if type(x) is float and type(y) is float:
        return x - y
    if bad(x):
        return x
    if bad(y):
        return -y
    if type(y) is float and y == 0.0:
        return x
    if type(x) is float and x == 0.0:
        return -y
    return R(x) - R(y)


def fmul(e, st, x, y):
    if type(x) is float and type(y) is float:
        return x * y
    if bad(x) or bad(y):
        if bad(y):
            x, y = y, x
        if x != x:
            return NAN
        if e.decide(st, y == 0):
            return NAN
        return x if e.decide(st, y > 0) else -x
    if type(x) is float:
        if x == 0.0:
            return 0.0
        if x == 1.0:
            return y
    if type(y) is float:
        if y == 0.0:
            return 0.0
        if y == 1.0:
            return x
    return R(x) * R(y)


def fdiv(e, st, x, y):
    if type(y) is float:
        if type(x) is float:
            if y != 0.0:
                try:
                    return x / y
                except OverflowError:
                    return INF
            if x == 0.0 or x != x:
                return NAN
            import math
            s = math.copysign(1.0, x) * math.copysign(1.0, y)
            return s * INF
        if y != y:
            return NAN
        if y in (INF, -INF):
            return 0.0
        if y == 0.0:
            if e.decide(st, x == 0):
                return NAN
            return INF if e.decide(st, x > 0) else -INF
        if y == 1.0:
            return x
        return R(x) / R(y)
    if e.decide(st, y == 0):
        st.tags.append(('div0', st.frames[-1].fn.name if st.frames else ''))
        return fdiv(e, st, x, 0.0)
    if bad(x):
        if x != x:
            return NAN
        return x if e.decide(st, y > 0) else -x
    if type(x) is float and x == 0.0:
        return 0.0
    return R(x) / y


def fcmp_(pred, x, y):
    if type(x) is float and type(y) is float:
        if x != x or y != y:
            return pred[0] == 'u' and pred != 'ueq' or pred in ('uno', 'ueq', 'true')
        if pred in ('ord',):
            return True
        if pred in ('uno',):
            return False
        c = pred[1:]
        return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[c]
    if (type(x) is float and x != x) or (type(y) is float and y != y):
        return pred[0] == 'u'
    if pred == 'ord':
        return True
    if pred == 'uno':
        return False
    c = pred[1:]
    if bad(x) or bad(y):
        # finite symbolic against an infinity
        xs = 0.0 if issym(x) else x
        ys = 0.0 if issym(y) else y
        return fcmp_(pred, xs, ys)
    x = R(x)
    y = R(y)
    if c == 'eq':
        return x == y
    if c == 'ne':
        return x != y
    if c == 'lt':
        return x < y
    if c == 'le':
        return x <= y
    if c == 'gt':
        return x > y
    return x >= y


def boolop(e, st, opn, x, y):
    if type(x) is bool and type(y) is bool:
        if opn == 'and':
            return x and y
        if opn == 'or':
            return x or y
        if opn in ('xor', 'add', 'sub'):
            return x != y
        raise Unsupported(opn + ' i1')
    if opn == 'and':
        if x is False or y is False:
            return False
        if x is True:
            return y
        if y is True:
            return x
        return z3.And(x, y)
    if opn == 'or':
        if x is True or y is True:
            return True
        if x is False:
            return y
        if y is False:
            return x
        return z3.Or(x, y)
    if opn == 'xor':
        if x is False:
            return y
        if y is False:
            return x
        if x is True:
            return z3.Not(y)
        if y is True:
            return z3.Not(x)
        return z3.Xor(x, y)
    raise Unsupported(opn + ' i1')


def iop(opn, x, y, n):
    m = (1 << n) - 1
    if opn == 'mul':
        return wrap(x * y, n)
    if opn == 'sdiv':
        if y == 0:
            raise MemErr('integer division by zero')
        q = abs(x) // abs(y)
        return wrap(q if (x < 0) == (y < 0) else -q, n)
    if opn == 'srem':
        if y == 0:
            raise MemErr('integer division by zero')
        q = abs(x) % abs(y)
        return q if x >= 0 else -q
    if opn == 'udiv':
        if y == 0:
            raise MemErr('integer division by zero')
        return wrap((x & m) // (y & m), n)
    if opn == 'urem':
        if y == 0:
            raise MemErr('integer division by zero')
        return wrap((x & m) % (y & m), n)
    if opn == 'shl':
        return wrap(x << (y & 63), n) if (y & m) < n else 0
    if opn == 'lshr':
        return wrap((x & m) >> (y & m), n) if (y & m) < n else 0
    if opn == 'ashr':
        return x >> (y & m) if (y & m) < n else (-1 if x < 0 else 0)
    if opn == 'and':
        return x & y
    if opn == 'or':
        return x | y
    if opn == 'xor':
        return x ^ y
    if opn == 'add':
        return wrap(x + y, n)
    if opn == 'sub':
        return wrap(x - y, n)
    raise Unsupported(opn)


def isym(e, st, opn, x, y, n):
    if isinstance(x, Ptr) or isinstance(y, Ptr):
        if opn == 'sub':
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                if x.o != y.o:
                    raise Unsupported('difference of unrelated pointers')
                return x.f - y.f
            if isinstance(x, Ptr):
                return Ptr(x.o, x.f - e.concretize(st, y))
            if isinstance(y, Ptr) and x == 0:
                raise Unsupported('negated pointer')
        if opn == 'add':
            if isinstance(x, Ptr) and not isinstance(y, Ptr):
                return Ptr(x.o, x.f + e.concretize(st, y))
            if isinstance(y, Ptr) and not isinstance(x, Ptr):
                return Ptr(y.o, y.f + e.concretize(st, x))
        if opn == 'and' and isinstance(x, Ptr) and type(y) is int:
            # alignment tests: objects are 16 aligned
            if 0 <= y < 16:
                return x.f & y
        raise Unsupported('pointer arithmetic ' + opn)
    if isinstance(x, FnPtr) or isinstance(y, FnPtr):
        raise Unsupported('function pointer arithmetic')
    if isinstance(x, FBits) or isinstance(y, FBits):
        raise Unsupported('float bit arithmetic')
    if x is UNDEF or y is UNDEF:
        raise Unsupported('undef operand')
    if x is True or x is False:
        x = int(x)
    if y is True or y is False:
        y = int(y)
    if issym(x) and z3.is_bool(x):
        x = e.from_bool(x)
    if issym(y) and z3.is_bool(y):
        y = e.from_bool(y)
    if opn == 'add':
        return x + y
    if opn == 'sub':
        return x - y
    if opn == 'mul':
        return x * y
    if opn == 'shl' and type(y) is int:
        return x * (1 << y)
    if opn in ('sdiv', 'srem') and type(y) is int and y > 0:
        if e.decide(st, x >= 0):
            return x / y if opn == 'sdiv' else x % y
        return -((-x) / y) if opn == 'sdiv' else -((-x) % y)
    if opn in ('udiv', 'urem') and type(y) is int and y > 0 and e.decide(st, x >= 0):
        return x / y if opn == 'udiv' else x % y
    if opn == 'and' and type(y) is int and y > 0 and (y & (y + 1)) == 0 and issym(x):
        return x % (y + 1)
    if opn in ('ashr', 'lshr') and type(y) is int and e.decide(st, x >= 0):
        return x / (1 << y)
    if opn == 'xor' and type(y) is int and y == -1:
        return -x - 1
    x = e.concretize(st, x)
    y = e.concretize(st, y)
    return iop(opn, x, y, n)


def icmp_(pred, x, y, n):
    if pred == 'eq':
        return x == y
    if pred == 'ne':
        return x != y
    if pred[0] == 'u':
        m = (1 << n) - 1
        x &= m
        y &= m
    c = pred[1:]
    if c == 'lt':
        return x < y
    if c == 'le':
        return x <= y
    if c == 'gt':
        return x > y
    return x >= y


def icmp_sym(e, st, pred, x, y, n):
    if isinstance(x, (Ptr, FnPtr)) or isinstance(y, (Ptr, FnPtr)):
        if type(x) is int:
            x = NULL if x == 0 else Ptr(-1, x)
        if type(y) is int:
            y = NULL if y == 0 else Ptr(-1, y)
        if x is UNDEF or y is UNDEF:
            raise MemErr('comparison of uninitialised pointer')
        if pred == 'eq':
            return x == y
        if pred == 'ne':
            return not (x == y)
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            kx = (x.o, x.f)
            ky = (y.o, y.f)
            return icmp_(pred[0].replace('u', 's') + pred[1:], (kx > ky) - (kx < ky), 0, 64)
        raise Unsupported('icmp of %r %r' % (x, y))
    if isinstance(x, bool):
        x = int(x) if not issym(y) or not z3.is_bool(y) else x
    if isinstance(y, bool):
        y = int(y) if not issym(x) or not z3.is_bool(x) else y
    if isinstance(x, FBits) or isinstance(y, FBits):
        # sign test of a double
        if isinstance(x, FBits) and type(y) is int and y in (0, -1):
            if pred == 'slt' and y == 0:
                return x.v < 0
            if pred == 'sgt' and y == -1:
                return x.v >= 0
        raise Unsupported('icmp on float bits')
    if x is UNDEF or y is UNDEF:
        raise MemErr('comparison of uninitialised value')
    if (issym(x) and z3.is_bool(x)) or (issym(y) and z3.is_bool(y)):
        if issym(x) and type(y) is int:
            y = bool(y)
        if issym(y) and type(x) is int:
            x = bool(x)
        if pred in ('eq', 'ne'):
            if type(y) is bool:
                r = x if y else z3.Not(x)
            elif type(x) is bool:
                r = y if x else z3.Not(y)
            else:
                r = x == y
            return r if pred == 'eq' else z3.Not(r)
        x = e.from_bool(x) if issym(x) else int(x)
        y = e.from_bool(y) if issym(y) else int(y)
    if type(x) is int and type(y) is int:
        return icmp_(pred, x, y, n)
    # comparison of a zero-extended condition with 0/1
    for u, v in ((x, y), (y, x)):
        if issym(u) and type(v) is int and pred in ('eq', 'ne'):
            b = e._anon.get(u.get_id())
            if b is not None:
                r = b[1] if v == 1 else (z3.Not(b[1]) if v == 0 else False)
                if r is False:
                    return pred == 'ne'
                return r if pred == 'eq' else z3.Not(r)
    if pred == 'eq':
        return x == y
    if pred == 'ne':
        return x != y
    if pred[0] == 'u':
        for v in (x, y):
            if issym(v):
                if not e.decide(st, v >= 0):
                    x = e.concretize(st, x)
                    y = e.concretize(st, y)
                    return icmp_(pred, x, y, n)
            elif v < 0:
                # huge unsigned constant
                big = v + (1 << n)
                x = big if v is x else x
                y = big if v is y else y
    c = pred[1:]
    if c == 'lt':
        return x < y
    if c == 'le':
        return x <= y
    if c == 'gt':
        return x > y
    return x >= y


def decode(eng, fn):
    Dec(eng, fn).run()
