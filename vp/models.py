"""Models of the functions outside the encoded code: memory, C library, math, iostreams, std::string
internals and the vp_* harness interface.

model(engine, state, args) -> return value.  A model may call engine.decide(), in which case the
call instruction is executed again after the fork: everything before the last decide() must be
idempotent (new auxiliary symbols are memoised in state.memo)."""
import math
import re
import struct
from fractions import Fraction
import z3
from .sym import R, rv, issym, IS, RS, INF
from .symex import (Ptr, FnPtr, NULL, UNDEF, FBits, Unsupported, PathEnd, MemErr, wrap)
from .decode import SKIP, REDIRECT, fmul, fdiv, fsub, fadd, bad

NAN = float('nan')
TABLE = {}
FORCED = {}
PATTERNS = []


def model(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def forced(*names):
    def d(f):
        for n in names:
            FORCED[n] = f
        return f
    return d


def find(name):
    m = TABLE.get(name)
    if m is not None:
        return m
    for rx, f in PATTERNS:
        if rx.match(name):
            return f
    return None


def pattern(rx):
    def d(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return d


for n in ('llvm.lifetime.start.p0', 'llvm.lifetime.end.p0', 'llvm.assume', '__cxa_atexit',
          'llvm.dbg.value', 'llvm.dbg.declare', 'llvm.experimental.noalias.scope.decl',
          '__cxa_guard_release', '__cxa_guard_abort', 'llvm.prefetch.p0', 'llvm.va_start',
          'llvm.va_end', 'fflush', 'setbuf'):
    TABLE[n] = SKIP


# ------------------------------------------------------------------ memory
def alloc(e, st, n, default='uninit', name='heap'):
    if issym(n):
        n = e.concretize(st, n)
    if n < 0 or n > (1 << 30):
        raise MemErr('allocation of %d bytes' % n)
    return Ptr(e.new_obj(st.mem, n, name, default), 0)


@model('_Znwm', '_Znam', 'malloc')
def m_new(e, st, a):
    return alloc(e, st, a[0], 'uninit', 'new@' + (st.frames[-1].fn.name if st.frames else ''))


@model('_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t')
def m_new_nt(e, st, a):
    return alloc(e, st, a[0])


@model('calloc')
def m_calloc(e, st, a):
    return alloc(e, st, a[0] * a[1], 'zero')


@model('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free')
def m_del(e, st, a):
    p = a[0]
    if p is UNDEF:
        raise MemErr('delete of uninitialised pointer')
    if p == NULL:
        return None
    if not isinstance(p, Ptr) or p.o not in st.mem:
        raise MemErr('delete of dead or invalid object %r' % (p,))
    if p.f != 0:
        raise MemErr('delete of interior pointer')
    if st.mem[p.o].kind != 'heap':
        raise MemErr('delete of non-heap object')
    del st.mem[p.o]


@model('realloc')
def m_realloc(e, st, a):
    raise Unsupported('realloc')


@pattern(r'llvm\.memcpy\.|llvm\.memmove\.|memcpy$|memmove$')
def m_memcpy(e, st, a):
    n = e.concretize(st, a[2])
    if n:
        e.memcpy(st, a[0], a[1], n)
    return a[0]


@pattern(r'llvm\.memset\.|memset$')
def m_memset(e, st, a):
    n = e.concretize(st, a[2])
    if n:
        e.memset(st, a[0], e.concretize(st, a[1]), n)
    return a[0]


@model('strlen')
def m_strlen(e, st, a):
    return len(e.cstring(st, a[0]))


@model('strcmp')
def m_strcmp(e, st, a):
    x, y = e.cstring(st, a[0]), e.cstring(st, a[1])
    return (x > y) - (x < y)


@model('strncmp')
def m_strncmp(e, st, a):
    x, y = e.cstring(st, a[0])[:a[2]], e.cstring(st, a[1])[:a[2]]
    return (x > y) - (x < y)


@model('memcmp', 'bcmp')
def m_memcmp(e, st, a):
    n = e.concretize(st, a[2])
    if n == 0:
        return 0
    x = e.getbytes(st, e.obj_for(st, a[0]), a[0].f, n)
    y = e.getbytes(st, e.obj_for(st, a[1]), a[1].f, n)
    return (x > y) - (x < y)


def puts_mem(e, st, p, b):
    for i, c in enumerate(b):
        e.store(st, Ptr(p.o, p.f + i), 1, wrap(c, 8))


@model('strcpy')
def m_strcpy(e, st, a):
    puts_mem(e, st, a[0], e.cstring(st, a[1]).encode('latin1') + b'\0')
    return a[0]


PH = '\x01[\xc0-\xfb]{2}'   # a value written into an input file by the harness


def ph_val(e, st, s):
    """value of a placeholder at the start of s: (value, length) or None; unknown when cut in pieces"""
    m = re.match(r'\s*(' + PH + ')', s)
    if m:
        t = m.group(1)
        return st.user[('fileval', (ord(t[1]) - 192) * 60 + ord(t[2]) - 192)], m.end()
    m = re.match('\\s*[\x01\xc0-\xfb]', s)
    if m:
        k = ('garbled', s)
        if k not in st.memo:
            st.memo[k] = (e.sym_real(st, 'garbled!%d@-1e6,1e6' % len(st.memo), -1e6, 1e6),)
        return st.memo[k][0], m.end()
    return None


def ph_int(e, st, v):
    if type(v) is int or (issym(v) and v.sort() == IS):
        return v
    return int(v) if type(v) is float else e.trunc_real(st, v, 32)


def ph_real(v):
    return v if type(v) is float or (issym(v) and v.sort() == RS) else toreal(v)


@model('strtod')
def m_strtod(e, st, a):
    s = e.cstring(st, a[0])
    h = ph_val(e, st, s)
    if h:
        if a[1] != NULL:
            e.store(st, a[1], 8, Ptr(a[0].o, a[0].f + h[1]))
        return ph_real(h[0])
    m = re.match(r'\s*[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?)', s)
    if a[1] != NULL:
        e.store(st, a[1], 8, Ptr(a[0].o, a[0].f + (m.end() if m else 0)))
    return float(m.group(0)) if m else 0.0


@model('atof')
def m_atof(e, st, a):
    return m_strtod(e, st, [a[0], NULL])


@model('strtol', '__isoc23_strtol', 'atoi')
def m_strtol(e, st, a):
    s = e.cstring(st, a[0])
    h = ph_val(e, st, s)
    if h:
        if len(a) > 1 and a[1] != NULL:
            e.store(st, a[1], 8, Ptr(a[0].o, a[0].f + h[1]))
        return ph_int(e, st, h[0])
    m = re.match(r'\s*[-+]?\d+', s)
    if len(a) > 1 and a[1] != NULL:
        e.store(st, a[1], 8, Ptr(a[0].o, a[0].f + (m.end() if m else 0)))
    return int(m.group(0)) if m else 0


@model('llvm.objectsize.i64.p0')
def m_objsize(e, st, a):
    return -1


@pattern(r'llvm\.expect\.')
def m_expect(e, st, a):
    return a[0]


@pattern(r'llvm\.is\.constant\.')
def m_isconst(e, st, a):
    return False


@pattern(r'llvm\.abs\.i')
def m_iabs(e, st, a):
    x = a[0]
    if type(x) is int:
        return abs(x)
    return x if e.decide(st, x >= 0) else -x


@model('abs', 'labs')
def m_abs(e, st, a):
    return m_iabs(e, st, a)


@pattern(r'llvm\.(smax|umax)\.i')
def m_smax(e, st, a):
    x, y = a
    if type(x) is int and type(y) is int:
        return max(x, y)
    return x if e.decide(st, x >= y) else y


@pattern(r'llvm\.(smin|umin)\.i')
def m_smin(e, st, a):
    x, y = a
    if type(x) is int and type(y) is int:
        return min(x, y)
    return x if e.decide(st, x <= y) else y


@pattern(r'llvm\.ctlz\.i64')
def m_ctlz(e, st, a):
    x = e.concretize(st, a[0]) & ((1 << 64) - 1)
    return 64 - x.bit_length()


@pattern(r'llvm\.(u|s)(mul|add|sub)\.with\.overflow\.i(\d+)')
def m_ovf(e, st, a):
    raise Unsupported('overflow intrinsic')


def _mk(n, op, nb):
    def f(e, st, a):
        x, y = e.concretize(st, a[0]), e.concretize(st, a[1])
        m = (1 << nb) - 1
        if n == 'u':
            x &= m
            y &= m
        r = {'mul': x * y, 'add': x + y, 'sub': x - y}[op]
        lo, hi = (0, m) if n == 'u' else (-(1 << (nb - 1)), (1 << (nb - 1)) - 1)
        return (wrap(r, nb), not (lo <= r <= hi))
    return f


for n_ in 'us':
    for op_ in ('mul', 'add', 'sub'):
        for nb_ in (32, 64):
            TABLE['llvm.%s%s.with.overflow.i%d' % (n_, op_, nb_)] = _mk(n_, op_, nb_)


@model('__cxa_guard_acquire')
def m_guard(e, st, a):
    if e.load(st, a[0], 1, 'i') == 0:
        e.store(st, a[0], 1, 1)
        return 1
    return 0


@model('exit', '_exit', 'abort', '_ZSt9terminatev', '__assert_fail', 'quick_exit')
def m_exit(e, st, a):
    c = a[0] if a else 134
    st.events.append(('exit', c))
    raise PathEnd('exit', str(c))


@pattern(r'_ZSt\d+__throw_|__cxa_throw|__cxa_rethrow|__cxa_call_unexpected')
def m_throw(e, st, a):
    st.events.append(('throw',))
    raise PathEnd('throw')


@model('__cxa_allocate_exception')
def m_exalloc(e, st, a):
    return alloc(e, st, a[0])


@model('time')
def m_time(e, st, a):
    return 1


@model('stat')
def m_stat(e, st, a):
    import os
    return 0 if os.path.exists(e.cstring(st, a[0])) else -1


@model('getenv')
def m_getenv(e, st, a):
    return NULL


# ------------------------------------------------------------------ math
def cf(f):
    """concrete application with IEEE special cases"""
    def g(*a):
        try:
            return f(*a)
        except OverflowError:
            return INF
        except ValueError:
            return NAN
    return g


def rnd_out(lo, hi, u=4):
    for _ in range(u):
        lo = math.nextafter(lo, -INF)
        hi = math.nextafter(hi, INF)
    return lo, hi


def fl(x):
    return x if type(x) is float else float(x)


def canon(e, st, x):
    """canonical representative of a term (so that equal polynomials share one function atom)"""
    k = ('canon', x.get_id())
    c = st.memo.get(k)
    if c is not None:
        return c[0]
    s = z3.simplify(x, som=True) if e.opts.get('canon', True) else x
    st.memo[k] = (s, x)
    return s


@pattern(r'llvm\.sqrt\.|sqrt$|sqrtf$')
def m_sqrt(e, st, a):
    x = a[0]
    if type(x) is float:
        if x != x:
            return x
        return math.sqrt(x) if x >= 0 else NAN
    k = ('sqrt', x.get_id())
    r = st.memo.get(k)
    if r is not None:
        return r[0]
    if e.decide(st, x < 0):
        st.tags.append(('sqrt-neg', st.frames[-1].fn.name))
        return NAN
    cx = canon(e, st, x)
    if z3.is_rational_value(cx):
        f = Fraction(cx.numerator_as_long(), cx.denominator_as_long())
        return math.sqrt(float(f))
    k2 = ('sqrt', cx.get_id())
    r = st.memo.get(k2)
    if r is None:
        nf = normal(e, st, x)
        if nf is not None:
            for v0, n0, d0, nm0 in st.user.get('sqrts', ()):
                if same(nf, (n0, d0, nm0)):
                    r = (v0, x)
                    st.memo[k2] = (v0, cx)
                    break
    if r is None:
        lo, hi = e.iv.ev(x)
        lo2, hi2 = e.iv.ev(cx)
        lo, hi = max(lo, lo2), min(hi, hi2)
        lo = max(lo, 0.0)
        slo = max(0.0, math.nextafter(math.sqrt(lo), -INF))
        shi = math.nextafter(math.sqrt(hi), INF) if hi < INF else INF
        v = e.aux(st, 'sqrt', slo, shi)
        st.pc.append(v * v == x)
        st.squares[v.get_id()] = x
        st.memo[k2] = (v, cx)
        if nf is not None:
            st.user['sqrts'] = st.user.get('sqrts', ()) + ((v, nf[0], nf[1], nf[2]),)
        r = (v, x)
    st.memo[k] = (r[0], x)
    return r[0]


def normal(e, st, x):
    """rational normal form (num, den, Norm) of a term, or None when it grows too large"""
    from .sym import Norm, TooBig
    nm = Norm(st.squares)
    nm.LIMIT = 400
    try:
        n, d = nm.conv(x)
    except (TooBig, RecursionError):
        return None
    return (n, d, nm)


def same(a, b):
    from .sym import TooBig
    nm = a[2]
    try:
        l = nm.pmulraw(a[0], b[2].expand(b[1]))
        r = nm.pmulraw(b[0], nm.expand(a[1]))
        n, d = nm.red(nm.padd(l, {m: -v for m, v in r.items()}), {})
    except (TooBig, RecursionError):
        return False
    return not n


def sincos(e, st, x):
    k = ('sc', x.get_id())
    r = st.memo.get(k)
    if r is not None:
        return r[0]
    y = st.acos.get(x.get_id())
    if y is not None:
        c = y
        s = m_sqrt(e, st, [R(1) - y * y]) if issym(y) else math.sqrt(1 - y * y)
        st.memo[k] = ((c, s), x)
        return (c, s)
    lo, hi = e.iv.ev(x)
    slo, shi, clo, chi = -1.0, 1.0, -1.0, 1.0
    if lo >= 0 and hi <= math.pi:
        slo = 0.0
    if lo >= -math.pi / 2 and hi <= math.pi / 2:
        clo = 0.0
    if lo >= 0 and hi <= math.pi:
        clo, chi = max(clo, math.cos(hi) - 1e-12), min(chi, math.cos(lo) + 1e-12)
    if lo >= -math.pi / 2 and hi <= math.pi / 2:
        slo, shi = max(slo, math.sin(lo) - 1e-12), min(shi, math.sin(hi) + 1e-12)
    c = e.aux(st, 'cos', clo, chi)
    s = e.aux(st, 'sin', slo, shi)
    st.pc.append(c * c + s * s == 1)
    st.squares[s.get_id()] = R(1) - c * c
    st.trig.append((x, c, s))
    st.memo[k] = ((c, s), x)
    return (c, s)


@pattern(r'llvm\.cos\.|cos$')
def m_cos(e, st, a):
    if type(a[0]) is float:
        return cf(math.cos)(a[0])
    return sincos(e, st, a[0])[0]


@pattern(r'llvm\.sin\.|sin$')
def m_sin(e, st, a):
    if type(a[0]) is float:
        return cf(math.sin)(a[0])
    return sincos(e, st, a[0])[1]


@pattern(r'tan$')
def m_tan(e, st, a):
    if type(a[0]) is float:
        return cf(math.tan)(a[0])
    c, s = sincos(e, st, a[0])
    return fdiv(e, st, s, c)


@model('acos')
def m_acos(e, st, a):
    x = a[0]
    if type(x) is float:
        return cf(math.acos)(x)
    k = ('acos', x.get_id())
    r = st.memo.get(k)
    if r is not None:
        return r[0]
    if e.decide(st, x > 1) or e.decide(st, x < -1):
        return NAN
    v = e.aux(st, 'acos', 0.0, math.nextafter(math.pi, 4))
    st.acos[v.get_id()] = x
    st.memo[k] = (v, x)
    return v


@model('asin')
def m_asin(e, st, a):
    x = a[0]
    if type(x) is float:
        return cf(math.asin)(x)
    raise Unsupported('asin')


@model('atan')
def m_atan(e, st, a):
    x = a[0]
    if type(x) is float:
        return math.atan(x)
    return uf(e, st, 'atan', x, math.atan, True, -math.pi / 2 - 1e-15, math.pi / 2 + 1e-15)


@model('atan2')
def m_atan2(e, st, a):
    y, x = a
    if type(x) is float and type(y) is float:
        return math.atan2(y, x)
    raise Unsupported('atan2')


def uf(e, st, name, x, f, inc, lo0, hi0, cond=None):
    """unary function approximated by: interval image, monotonicity between applications"""
    k = (name, x.get_id())
    r = st.memo.get(k)
    if r is not None:
        return r[0]
    cx = canon(e, st, x)
    k2 = (name, cx.get_id())
    r = st.memo.get(k2)
    if r is not None:
        st.memo[k] = (r[0], x)
        return r[0]
    nf = normal(e, st, x)
    if nf is not None:
        for v0, n0 in st.user.get('uf:' + name, ()):
            if same(nf, n0):
                st.memo[k2] = (v0, cx)
                st.memo[k] = (v0, x)
                return v0
    lo, hi = e.iv.ev(x)
    l2, h2 = e.iv.ev(cx)
    lo, hi = max(lo, l2), min(hi, h2)
    if inc:
        vlo, vhi = lo0, hi0
        if lo > -INF:
            try:
                vlo = max(lo0, rnd_out(f(lo), 0)[0])
            except (OverflowError, ValueError):
                pass
        if hi < INF:
            try:
                vhi = min(hi0, rnd_out(0, f(hi))[1])
            except (OverflowError, ValueError):
                pass
    else:
        vlo, vhi = lo0, hi0
    v = e.aux(st, name, vlo, vhi)
    lst = st.monos.setdefault(name, [])
    if inc:
        for x0, v0 in lst[-e.opts.get('mono', 6):]:
            st.pc.append((cx < x0) == (v < v0))
            st.pc.append((cx == x0) == (v == v0))
    lst.append((cx, v))
    if nf is not None:
        st.user['uf:' + name] = st.user.get('uf:' + name, ()) + ((v, nf),)
    st.memo[k2] = (v, cx)
    st.memo[k] = (v, x)
    return v


@pattern(r'llvm\.exp\.|exp$')
def m_exp(e, st, a):
    x = a[0]
    if type(x) is float:
        return cf(math.exp)(x)
    y = st.memo.get(('unlog', x.get_id()))
    if y is not None:
        return y[0]
    first = ('exp', x.get_id()) not in st.memo
    v = uf(e, st, 'exp', x, lambda t: math.exp(t), True, 0.0, INF)
    if first:
        st.pc.append(v > 0)
        st.pc.append(v >= 1 + x)
        st.memo[('unexp', v.get_id())] = (x, v)
        st.logs.append((v, x))
    return v


@pattern(r'llvm\.log\.|log$')
def m_log(e, st, a):
    x = a[0]
    if type(x) is float:
        if x == 0.0:
            return -INF
        return cf(math.log)(x)
    if e.decide(st, x <= 0):
        if e.decide(st, x == 0):
            return -INF
        return NAN
    y = st.memo.get(('unexp', x.get_id()))
    if y is not None:
        return y[0]
    first = ('log', x.get_id()) not in st.memo
    v = uf(e, st, 'log', x, lambda t: math.log(t) if t > 0 else -INF, True, -INF, INF)
    if first:
        st.pc.append(v <= R(x) - 1)
        st.memo[('unlog', v.get_id())] = (x, v)
        st.logs.append((x, v))
    return v


@model('sinh', 'cosh', 'tanh')
def m_hyp(e, st, a):
    raise Unsupported('hyperbolic')


def _hyp(name, f, inc, lo, hi):
    def g(e, st, a):
        if type(a[0]) is float:
            return cf(f)(a[0])
        return uf(e, st, name, a[0], f, inc, lo, hi)
    TABLE[name] = g


_hyp('sinh', math.sinh, True, -INF, INF)
_hyp('tanh', math.tanh, True, -1.0, 1.0)
_hyp('cosh', math.cosh, False, 1.0, INF)


@model('erf')
def m_erf(e, st, a):
    x = a[0]
    if type(x) is float:
        return math.erf(x)
    return uf(e, st, 'erf', x, math.erf, True, -1.0, 1.0)


@pattern(r'llvm\.pow\.|pow$|llvm\.powi\.')
def m_pow(e, st, a):
    x, y = a
    if type(y) is int:
        y = float(y)
    if type(x) is float and type(y) is float:
        try:
            r = math.pow(x, y)
            return r
        except OverflowError:
            return INF
        except ValueError:
            return INF if x == 0.0 else NAN
    if type(y) is float:
        if y == int(y) and abs(y) <= 12:
            n = int(abs(y))
            r = 1.0
            for _ in range(n):
                r = fmul(e, st, r, x)
            if y < 0:
                return fdiv(e, st, 1.0, r)
            return r
        if y == 0.5:
            return m_sqrt(e, st, [x])
        if e.decide(st, x < 0):
            return NAN
        if e.decide(st, x == 0):
            return 0.0 if y > 0 else INF
        for den in (2, 3, 4, 6):
            n = round(y * den)
            if n / den == y and 0 < abs(n) <= 12:
                k = ('root', den, x.get_id())
                r = st.memo.get(k)
                if r is None:
                    lo, hi = e.iv.ev(x)
                    lo = max(lo, 0.0)
                    vlo = max(0.0, lo ** (1.0 / den) * (1 - 1e-12))
                    vhi = hi ** (1.0 / den) * (1 + 1e-12) if hi < INF else INF
                    v = e.aux(st, 'root', vlo, vhi)
                    q = v
                    for _ in range(den - 1):
                        q = q * v
                    st.pc.append(q == x)
                    st.pc.append(v > 0)
                    if den == 2:
                        st.squares[v.get_id()] = x
                    r = (v, x)
                    st.memo[k] = r
                q = 1.0
                for _ in range(abs(n)):
                    q = fmul(e, st, q, r[0])
                return q if n > 0 else fdiv(e, st, 1.0, q)
        inc = y > 0
        k = ('pow%r' % y, x.get_id())
        first = k not in st.memo
        if inc:
            v = uf(e, st, 'pow%r' % y, x, lambda t: math.pow(max(t, 0.0), y), True, 0.0, INF)
        else:
            return fdiv(e, st, 1.0, m_pow(e, st, [x, -y]))
        if first:
            st.pc.append(v > 0)
        return v
    if type(x) is float:
        if x <= 0:
            raise Unsupported('pow of nonpositive base')
        v = uf(e, st, 'powb%r' % x, y, lambda t: math.pow(x, t), x > 1, 0.0, INF)
        return v
    k = ('pow2', x.get_id(), y.get_id())
    r = st.memo.get(k)
    if r is not None:
        return r[0]
    if e.decide(st, x <= 0):
        raise Unsupported('pow of nonpositive base')
    v = e.aux(st, 'pow', 0.0, INF)
    st.pc.append(v > 0)
    st.memo[k] = (v, x, y)
    return v


@pattern(r'llvm\.fabs\.|fabs$|fabsf$')
def m_fabs(e, st, a):
    x = a[0]
    if type(x) is float:
        return abs(x)
    return x if e.decide(st, x >= 0) else -x


@pattern(r'llvm\.maxnum\.|fmax$')
def m_fmax(e, st, a):
    x, y = a
    if type(x) is float and type(y) is float:
        if x != x:
            return y
        if y != y:
            return x
        return max(x, y)
    return x if e.decide(st, R(x) >= R(y)) else y


@pattern(r'llvm\.minnum\.|fmin$')
def m_fmin(e, st, a):
    x, y = a
    if type(x) is float and type(y) is float:
        if x != x:
            return y
        if y != y:
            return x
        return min(x, y)
    return x if e.decide(st, R(x) <= R(y)) else y


def toreal(v):
    return float(v) if type(v) is int else z3.ToReal(v)


@pattern(r'llvm\.floor\.|floor$')
def m_floor(e, st, a):
    x = a[0]
    if type(x) is float:
        return float(math.floor(x)) if not bad(x) else x
    return toreal(e.floor_real(st, x))


@pattern(r'llvm\.ceil\.|ceil$')
def m_ceil(e, st, a):
    x = a[0]
    if type(x) is float:
        return float(math.ceil(x)) if not bad(x) else x
    k = ('neg', x.get_id())
    if k not in st.memo:
        st.memo[k] = (-x, x)
    f = e.floor_real(st, st.memo[k][0])
    return toreal(-f)


@pattern(r'llvm\.round\.|round$|roundf$')
def m_round(e, st, a):
    x = a[0]
    if type(x) is float:
        if bad(x):
            return x
        return float(math.floor(abs(x) + 0.5)) * (1 if x >= 0 else -1)
    k = ('rnd', x.get_id())
    if k not in st.memo:
        st.memo[k] = (x + R(0.5), x)
    if e.decide(st, x >= 0):
        return toreal(e.floor_real(st, st.memo[k][0]))
    k = ('rndn', x.get_id())
    if k not in st.memo:
        st.memo[k] = (R(0.5) - x, x)
    return toreal(-e.floor_real(st, st.memo[k][0]))


@pattern(r'llvm\.trunc\.|trunc$')
def m_trunc(e, st, a):
    x = a[0]
    if type(x) is float:
        return float(math.trunc(x)) if not bad(x) else x
    return toreal(e.trunc_real(st, x))


@pattern(r'llvm\.copysign\.|copysign$')
def m_copysign(e, st, a):
    x, y = a
    if type(x) is float and type(y) is float:
        return math.copysign(x, y)
    ax = m_fabs(e, st, [x])
    neg = math.copysign(1, y) < 0 if type(y) is float else not e.decide(st, y >= 0)
    return -ax if neg else ax


@pattern(r'llvm\.fmuladd\.|llvm\.fma\.|fma$')
def m_fmuladd(e, st, a):
    return fadd(fmul(e, st, a[0], a[1]), a[2])


@pattern(r'llvm\.is\.fpclass\.')
def m_fpclass(e, st, a):
    x, m = a
    if type(x) is float:
        if x != x:
            return bool(m & 3)
        if x == INF:
            return bool(m & 0x200)
        if x == -INF:
            return bool(m & 4)
        return bool(m & (0x1f8))
    return bool(m & 0x1f8)


# functions that reduce to others
@pattern(r'hypot$|hypotf$')
def m_hypot(e, st, a):
    x, y = a
    if type(x) is float and type(y) is float:
        return math.hypot(x, y)
    return m_sqrt(e, st, [fadd(fmul(e, st, x, x), fmul(e, st, y, y))])


@model('cbrt')
def m_cbrt(e, st, a):
    x = a[0]
    if type(x) is float:
        return math.copysign(abs(x) ** (1 / 3.0), x)
    if e.decide(st, x < 0):
        return -m_pow(e, st, [-x, 1 / 3.0])
    if e.decide(st, x == 0):
        return 0.0
    return m_pow(e, st, [x, 1 / 3.0])


@model('log1p')
def m_log1p(e, st, a):
    return cf(math.log1p)(a[0]) if type(a[0]) is float else m_log(e, st, [1 + a[0]])


@model('expm1')
def m_expm1(e, st, a):
    return cf(math.expm1)(a[0]) if type(a[0]) is float else m_exp(e, st, a) - 1


@pattern(r'llvm\.log2\.|log2$')
def m_log2(e, st, a):
    if type(a[0]) is float:
        return cf(math.log2)(a[0]) if a[0] != 0 else -INF
    v = m_log(e, st, a)
    return v / math.log(2.0) if type(v) is float else v / R(math.log(2.0))


@pattern(r'llvm\.log10\.|log10$')
def m_log10(e, st, a):
    if type(a[0]) is float:
        return cf(math.log10)(a[0]) if a[0] != 0 else -INF
    v = m_log(e, st, a)
    return v / math.log(10.0) if type(v) is float else v / R(math.log(10.0))


@pattern(r'llvm\.exp2\.|exp2$')
def m_exp2(e, st, a):
    return m_pow(e, st, [2.0, a[0]])


@pattern(r'llvm\.(lround|llround)\.|l?lround$')
def m_lround(e, st, a):
    x = a[0]
    if type(x) is float:
        return int(math.floor(abs(x) + 0.5)) * (1 if x >= 0 else -1)
    v = m_round(e, st, a)
    return int(v) if type(v) is float else e.trunc_real(st, v)


@pattern(r'llvm\.(lrint|llrint)\.|l?lrint$')
def m_lrint(e, st, a):
    v = m_rint(e, st, a)
    return int(v) if type(v) is float else e.trunc_real(st, v)


@pattern(r'llvm\.(rint|nearbyint|roundeven)\.|rint$|nearbyint$')
def m_rint(e, st, a):
    x = a[0]
    if type(x) is float:
        return float(round(x)) if not bad(x) else x
    f = toreal(e.floor_real(st, x))
    d = x - R(f)
    if e.decide(st, d < R(0.5)):
        return f
    if e.decide(st, d > R(0.5)):
        return f + 1
    raise Unsupported('rounding a half')


def frem(e, st, x, y):
    if type(x) is float and type(y) is float:
        return math.fmod(x, y) if y != 0 and not bad(x) else NAN
    if e.decide(st, R(y) == 0):
        return NAN
    q = e.trunc_real(st, R(x) / R(y))
    return R(x) - R(toreal(q)) * R(y)


@model('fmod')
def m_fmod(e, st, a):
    return frem(e, st, a[0], a[1])


@model('fdim')
def m_fdim(e, st, a):
    x, y = a
    if type(x) is float and type(y) is float:
        return max(x - y, 0.0)
    return R(x) - R(y) if e.decide(st, R(x) > R(y)) else 0.0


@model('modf')
def m_modf(e, st, a):
    t = m_trunc(e, st, a)
    e.store(st, a[1], 8, t)
    return a[0] - t if type(a[0]) is float else a[0] - R(t)


@pattern(r'llvm\.ldexp\.|ldexp$|scalbn$')
def m_ldexp(e, st, a):
    return fmul(e, st, a[0], 2.0 ** e.concretize(st, a[1]))


# ------------------------------------------------------------------ output / input streams
@model('printf', 'puts', 'putchar')
def m_printf(e, st, a):
    rec_printf(e, st, 'stdout', a)
    return 0


def rec_printf(e, st, stream, a):
    f = e.cstring(st, a[0]) if isinstance(a[0], Ptr) else a[0]
    vals = []
    sp = re.findall(r'%[-+ 0#]*[0-9.]*[hlLqjzt]*([a-zA-Z%])', f) if isinstance(f, str) else []
    sp = [x for x in sp if x != '%']
    for i, v in enumerate(a[1:]):
        if i < len(sp) and sp[i] == 's' and isinstance(v, Ptr):
            v = e.cstring(st, v)
        vals.append(v)
    st.events.append(('printf', stream, f, tuple(vals)))


@model('fprintf')
def m_fprintf(e, st, a):
    rec_printf(e, st, repr(a[0]), a[1:])
    return 0


@model('fputs', 'fwrite', 'fputc')
def m_fputs(e, st, a):
    if isinstance(a[0], Ptr):
        s = e.cstring(st, a[0]) if len(a) == 2 else ''
    else:
        s = chr(a[0])
    st.events.append(('printf', repr(a[-1]), s, ()))
    return 1


@model('fopen')
def m_fopen(e, st, a):
    st.events.append(('fopen', e.cstring(st, a[0]), e.cstring(st, a[1])))
    p = alloc(e, st, 16)
    st.user[('outfile', repr(p))] = True
    return p


@model('fclose')
def m_fclose(e, st, a):
    return 0


def skey(p):
    return ('stream', p.o, p.f)


def oskey(e, st, p):
    """identity of an output stream (object name for globals)"""
    o = st.mem.get(p.o) or e.init_mem.get(p.o)
    nm = o.name if o is not None else '?'
    return (nm, p.o, p.f)


def emit(e, st, p, v):
    if isinstance(p, Ptr):
        st.events.append(('os', oskey(e, st, p), v))
        k = skey(p)
        if k in st.user:
            u = st.user[k]
            st.user[k] = u[:3] + (u[3] + (v,),) + u[4:]
    return p


STREAM = re.compile(
    r'_ZNSo|_ZNSi|_ZNKSo|_ZNKSi|_ZStls|_ZStrs|_ZSt4endl|_ZSt5flush|_ZSt4ends|_ZNKSt8ios_base|_ZNSt8ios_base|'
    r'_ZNSt9basic_ios|_ZNKSt9basic_ios|_ZNSt14basic_ofstream|_ZNKSt14basic_ofstream|'
    r'_ZNSt14basic_ifstream|_ZNKSt14basic_ifstream|_ZNSt13basic_fstream|_ZNSt13basic_filebuf|'
    r'_ZNKSt13basic_filebuf|_ZNSt7__cxx1118basic_stringstream|_ZNKSt7__cxx1118basic_stringstream|'
    r'_ZNSt7__cxx1119basic_ostringstream|_ZNKSt7__cxx1119basic_ostringstream|'
    r'_ZNSt7__cxx1119basic_istringstream|_ZNSt7__cxx1115basic_stringbuf|'
    r'_ZNSt15basic_streambuf|_ZSt16__ostream_insert|_ZSt7getline|_ZSt17__istream_extract|'
    r'_ZSt5fixedR|_ZSt10scientificR|_ZSt4leftR|_ZSt5rightR|_ZNSt6locale|_ZSt12setprecision|_ZSt4setw|_ZSt7setfill')


def new_stream(st, p, content=None, is_open=False):
    # (content, pos, state(eof=2 fail=4), out pieces, open)
    st.user[skey(p)] = (content, 0, 0, (), is_open)


def fake_vptr(e, st, p):
    """the offset of the virtual base is read through the virtual table: give it one"""
    try:
        v = e.new_obj(st.mem, 64, 'stream.vtable', 'zero')
        e.store(st, Ptr(v, 0), 8, 16)
        e.store(st, Ptr(p.o, p.f), 8, Ptr(v, 24))
    except MemErr:
        pass


def sget(st, p):
    return st.user.get(skey(p), (None, 0, 0, (), False))


def sset(st, p, **kw):
    u = list(sget(st, p))
    for k, v in kw.items():
        u[{'content': 0, 'pos': 1, 'state': 2, 'out': 3, 'open': 4}[k]] = v
    st.user[skey(p)] = tuple(u)


def openfile(e, st, p, name):
    st.events.append(('open', oskey(e, st, p), name))
    h = e.opts.get('files')
    data = st.user.get(('file', name))
    if data is not None:
        pass
    elif h is not None:
        data = h(name)
    else:
        try:
            with open(name, 'r', errors='replace') as f:
                data = f.read()
        except OSError:
            data = None
    if data is None:
        sset(st, p, content=None, state=4, open=False)
    else:
        sset(st, p, content=data, pos=0, state=0, open=True)


def take(st, p, rx):
    c, pos, state, out, op = sget(st, p)
    if c is None or state & 4:
        sset(st, p, state=state | 4)
        return None
    n = len(c)
    while pos < n and c[pos].isspace():
        pos += 1
    m = re.compile(rx).match(c, pos)
    if not m or m.end() == pos:
        sset(st, p, pos=pos, state=state | 4 | (2 if pos >= n else 0))
        return None
    pos = m.end()
    if pos >= n:
        state |= 2
    sset(st, p, pos=pos, state=state)
    return m.group(0)


NUM = r'[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?'


def stream_model(name):
    nm = name
    # constructors and destructors
    if re.match(r'_ZNSt14basic_[io]fstreamIcSt11char_traitsIcEEC[12]', nm) or \
       re.match(r'_ZNSt13basic_fstreamIcSt11char_traitsIcEEC[12]', nm):
        args = nm.split('C1E', 1)[-1].split('C2E', 1)[-1]
        out = 'ofstream' in nm

        def ctor(e, st, a):
            new_stream(st, a[0])
            fake_vptr(e, st, a[0])
            if args.startswith('PKc'):
                if out:
                    st.events.append(('open', oskey(e, st, a[0]), e.cstring(st, a[1])))
                    sset(st, a[0], open=True)
                else:
                    openfile(e, st, a[0], e.cstring(st, a[1]))
            elif args.startswith('RKNSt7__cxx11'):
                s = rdstr(e, st, a[1])
                if out:
                    st.events.append(('open', oskey(e, st, a[0]), s))
                    sset(st, a[0], open=True)
                else:
                    openfile(e, st, a[0], s)
        return ctor
    if re.match(r'_ZNSt7__cxx111[89]basic_[io]?stringstream', nm) and re.search(r'C[12]E', nm):
        def sctor(e, st, a):
            new_stream(st, a[0])
            fake_vptr(e, st, a[0])
            if 'C1ERKNS' in nm or 'C2ERKNS' in nm:
                sset(st, a[0], content=rdstr(e, st, a[1]))
        return sctor
    if re.search(r'D[012]Ev$', nm):
        return SKIP
    if re.match(r'_ZNSt14basic_ofstream.*4open', nm) or re.match(r'_ZNSt13basic_fstream.*4open', nm):
        def oo(e, st, a):
            s = rdstr(e, st, a[1]) if '4openERK' in nm else e.cstring(st, a[1])
            st.events.append(('open', oskey(e, st, a[0]), s))
            sset(st, a[0], open=True)
        return oo
    if re.match(r'_ZNSt14basic_ifstream.*4open', nm):
        def io(e, st, a):
            openfile(e, st, a[0], rdstr(e, st, a[1]) if '4openERK' in nm else e.cstring(st, a[1]))
        return io
    if re.match(r'_ZNSt14basic_[io]fstream.*5close', nm):
        def cl(e, st, a):
            sset(st, a[0], open=False)
        return cl
    if re.search(r'7is_openEv$', nm):
        return lambda e, st, a: sget(st, a[0])[4]
    if re.match(r'_ZNKSt9basic_ios.*(4fail|ntEv|ntEv$)', nm):
        return lambda e, st, a: bool(find_stream(st, a[0])[2] & 5)
    if re.match(r'_ZNKSt9basic_ios.*(cvbEv|cvPvEv)', nm):
        return lambda e, st, a: not (find_stream(st, a[0])[2] & 5)
    if re.match(r'_ZNKSt9basic_ios.*3eofEv', nm):
        return lambda e, st, a: bool(find_stream(st, a[0])[2] & 2)
    if re.match(r'_ZNKSt9basic_ios.*4goodEv', nm):
        return lambda e, st, a: find_stream(st, a[0])[2] == 0
    if re.match(r'_ZNSt9basic_ios.*5clearESt12_Ios_Iostate', nm):
        def clr(e, st, a):
            k = find_key(st, a[0])
            if k is not None:
                u = list(st.user[k])
                u[2] = a[1] if len(a) > 1 and type(a[1]) is int else 0
                st.user[k] = tuple(u)
        return clr
    if re.match(r'_ZNSirsERi$|_ZNSirsERj$|_ZNSirsERl$|_ZNSirsERm$', nm):
        sz = 8 if nm[-1] in 'lm' else 4

        def ri(e, st, a):
            t = take(st, a[0], PH + r'|[-+]?\d+')
            h = ph_val(e, st, t) if t else None
            e.store(st, a[1], sz, ph_int(e, st, h[0]) if h else int(t) if t is not None else 0)
            return a[0]
        return ri
    if re.match(r'_ZNSirsERd$|_ZNSi10_M_extractIdE', nm):
        def rd(e, st, a):
            t = take(st, a[0], PH + '|' + NUM)
            h = ph_val(e, st, t) if t else None
            e.store(st, a[1], 8, ph_real(h[0]) if h else float(t) if t is not None else 0.0)
            return a[0]
        return rd
    if re.match(r'_ZStrsIcSt11char_traitsIcESaIcEE', nm):
        def rs(e, st, a):
            t = take(st, a[0], r'\S+')
            if t is not None:
                wrstr(e, st, a[1], t)
            return a[0]
        return rs
    if re.match(r'_ZStrsISt11char_traitsIcE|_ZStrsIcSt11char_traitsIcEERSt13basic_istream|_ZSt17__istream_extract', nm):
        def rc(e, st, a):
            t = take(st, a[0], r'\S+')
            puts_mem(e, st, a[1], (t or '').encode('latin1') + b'\0')
            return a[0]
        return rc
    if nm.startswith('_ZSt7getline'):
        def gl(e, st, a):
            s = getl(st, a[0], chr(a[2]) if len(a) > 2 else '\n')
            wrstr(e, st, a[1], s or '')
            return a[0]
        return gl
    if re.match(r'_ZNSi7getlineEPcl', nm):
        def gl2(e, st, a):
            s = getl(st, a[0], chr(a[3]) if len(a) > 3 else '\n') or ''
            puts_mem(e, st, a[1], s[:a[2] - 1].encode('latin1') + b'\0')
            return a[0]
        return gl2
    if nm.startswith('_ZNSi5seekg') or nm.startswith('_ZNSi5tellg') or nm.startswith('_ZNSi4read') \
       or nm.startswith('_ZNSi3get') or nm.startswith('_ZNSi4peek'):
        def un(e, st, a):
            raise Unsupported(nm)
        return un
    if nm.startswith('_ZNSi6ignore'):
        return lambda e, st, a: a[0]
    # string stream contents
    if re.match(r'_ZNKSt7__cxx111[89]basic_[io]?stringstream.*3strEv', nm):
        def sstr(e, st, a):
            t = ''.join(fmt_piece(x) for x in sget(st, a[1])[3])
            initstr(e, st, a[0], t)
        return sstr
    if re.match(r'_ZNSt7__cxx111[89]basic_[io]?stringstream.*3strERK', nm):
        def sset_(e, st, a):
            sset(st, a[0], content=rdstr(e, st, a[1]), pos=0, state=0, out=())
        return sset_
    # insertion
    if nm.startswith('_ZSt16__ostream_insert'):
        def oi(e, st, a):
            return emit(e, st, a[0], ''.join(chr(e.load(st, Ptr(a[1].o, a[1].f + i), 1, 'i') & 255)
                                             for i in range(e.concretize(st, a[2]))))
        return oi
    if nm.startswith('_ZStlsIcSt11char_traitsIcESaIcEE'):
        return lambda e, st, a: emit(e, st, a[0], rdstr(e, st, a[1]))
    if re.match(r'_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PK[ac]$|_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKc', nm):
        return lambda e, st, a: emit(e, st, a[0], e.cstring(st, a[1]))
    if re.match(r'_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_[cah]$|_ZNSo3putEc|_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_[Sc]', nm):
        return lambda e, st, a: emit(e, st, a[0], chr(a[1] & 255) if type(a[1]) is int else a[1])
    if re.match(r'_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St', nm):
        return lambda e, st, a: a[0]        # manipulators setw / setprecision / setfill
    if re.match(r'_ZNSolsE[ijlmsdfxyhbt]$|_ZNSo9_M_insertI[dlmxyb]E', nm):
        return lambda e, st, a: emit(e, st, a[0], a[1])
    if re.match(r'_ZNSolsEPFR', nm):
        def manip(e, st, a):
            if isinstance(a[1], FnPtr) and 'endl' in a[1].name:
                emit(e, st, a[0], '\n')
            return a[0]
        return manip
    if nm.startswith('_ZSt4endl'):
        return lambda e, st, a: emit(e, st, a[0], '\n')
    if re.match(r'_ZSt12setprecision|_ZSt4setw|_ZSt7setfill', nm):
        return lambda e, st, a: a[0]
    if re.match(r'_ZNSt8ios_base4InitC', nm):
        return SKIP
    if re.match(r'_ZNSt8ios_base(4setf|9precision|5width|5flags)', nm):
        return lambda e, st, a: 0
    if re.match(r'_ZNKSt9basic_ios.*(5widen|4fill)', nm) or re.match(r'_ZNSt9basic_ios.*4fill', nm):
        return lambda e, st, a: 10
    return lambda e, st, a: a[0] if a else None


def find_key(st, p):
    """an ios subobject sits at some offset inside its stream object"""
    if skey(p) in st.user:
        return skey(p)
    best = None
    for k in st.user:
        if isinstance(k, tuple) and k[0] == 'stream' and k[1] == p.o and k[2] <= p.f:
            if best is None or k[2] > best[2]:
                best = k
    return best


def find_stream(st, p):
    k = find_key(st, p)
    return st.user[k] if k is not None else (None, 0, 0, (), False)


def getl(st, p, delim='\n'):
    c, pos, state, out, op = sget(st, p)
    if c is None or state:
        sset(st, p, state=state | 4)
        return None
    if pos >= len(c):
        sset(st, p, state=state | 6)
        return None
    j = c.find(delim, pos)
    if j < 0:
        s = c[pos:]
        sset(st, p, pos=len(c), state=state | 2)
        return s
    sset(st, p, pos=j + 1)
    return c[pos:j]


def fmt_piece(x):
    if isinstance(x, str):
        return x
    if isinstance(x, float):
        return '%g' % x
    if issym(x):
        raise Unsupported('symbolic value in string stream')
    return str(x)


# ------------------------------------------------------------------ std::string
def rdstr(e, st, p):
    d = e.load(st, p, 8, 'p')
    n = e.load(st, Ptr(p.o, p.f + 8), 8, 'i')
    n = e.concretize(st, n)
    if n == 0:
        return ''
    return e.getbytes(st, e.obj_for(st, d), d.f, n).decode('latin1')


def initstr(e, st, p, s):
    b = s.encode('latin1')
    if len(b) <= 15:
        d = Ptr(p.o, p.f + 16)
    else:
        d = alloc(e, st, len(b) + 1, 'uninit', 'string')
        e.store(st, Ptr(p.o, p.f + 16), 8, len(b))
    e.store(st, p, 8, d)
    e.store(st, Ptr(p.o, p.f + 8), 8, len(b))
    puts_mem(e, st, d, b + b'\0')


def wrstr(e, st, p, s):
    """replace the contents of an existing string"""
    d = e.load(st, p, 8, 'p')
    local = Ptr(p.o, p.f + 16)
    if d != local and isinstance(d, Ptr) and d.o in st.mem:
        del st.mem[d.o]
    initstr(e, st, p, s)


S_ = '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'


@forced(S_ + '9_M_createERmm')
def s_create(e, st, a):
    n = e.concretize(st, e.load(st, a[1], 8, 'i'))
    return alloc(e, st, n + 1, 'uninit', 'string')


@forced(S_ + '9_M_assignERKS4_')
def s_assign(e, st, a):
    wrstr(e, st, a[0], rdstr(e, st, a[1]))


@forced(S_ + '9_M_appendEPKcm')
def s_append(e, st, a):
    n = e.concretize(st, a[2])
    t = e.getbytes(st, e.obj_for(st, a[1]), a[1].f, n).decode('latin1') if n else ''
    wrstr(e, st, a[0], rdstr(e, st, a[0]) + t)
    return a[0]


@forced(S_ + '10_M_replaceEmmPKcm')
def s_replace(e, st, a):
    s = rdstr(e, st, a[0])
    n = e.concretize(st, a[4])
    t = e.getbytes(st, e.obj_for(st, a[3]), a[3].f, n).decode('latin1') if n else ''
    pos, ln = a[1], a[2]
    wrstr(e, st, a[0], s[:pos] + t + s[pos + ln:])
    return a[0]


@forced(S_ + '14_M_replace_auxEmmmc')
def s_replace_aux(e, st, a):
    s = rdstr(e, st, a[0])
    wrstr(e, st, a[0], s[:a[1]] + chr(a[4] & 255) * a[3] + s[a[1] + a[2]:])
    return a[0]


@forced(S_ + '7reserveEm', S_ + '7reserveEv')
def s_reserve(e, st, a):
    return None


def bytes_at(e, st, p, n):
    return e.getbytes(st, e.obj_for(st, p), p.f, n).decode('latin1') if n else ''


@forced(S_ + '12_M_constructEmc')
def s_construct_nc(e, st, a):
    initstr(e, st, a[0], chr(a[2] & 255) * e.concretize(st, a[1]))


@forced(S_ + '4swapERS4_')
def s_swap(e, st, a):
    x, y = rdstr(e, st, a[0]), rdstr(e, st, a[1])
    wrstr(e, st, a[0], y)
    wrstr(e, st, a[1], x)


@forced(S_ + '6resizeEmc')
def s_resize(e, st, a):
    s, n = rdstr(e, st, a[0]), e.concretize(st, a[1])
    wrstr(e, st, a[0], (s + chr(a[2] & 255) * max(n - len(s), 0))[:n])


@model('__errno_location')
def m_errno(e, st, a):
    if 'errno' not in st.user:
        st.user['errno'] = alloc(e, st, 4, 'zero', 'errno')
    return st.user['errno']


@model('_ZNSt8__detail15_List_node_base7_M_hookEPS0_')
def m_list_hook(e, st, a):
    """node layout: next @0, previous @8"""
    node, pos = a
    prev = e.load(st, Ptr(pos.o, pos.f + 8), 8, 'p')
    e.store(st, node, 8, pos)
    e.store(st, Ptr(node.o, node.f + 8), 8, prev)
    e.store(st, prev, 8, node)
    e.store(st, Ptr(pos.o, pos.f + 8), 8, node)


@model('_ZNSt8__detail15_List_node_base9_M_unhookEv')
def m_list_unhook(e, st, a):
    nxt = e.load(st, a[0], 8, 'p')
    prev = e.load(st, Ptr(a[0].o, a[0].f + 8), 8, 'p')
    e.store(st, prev, 8, nxt)
    e.store(st, Ptr(nxt.o, nxt.f + 8), 8, prev)


@forced(S_ + '8_M_eraseEmm')
def s_erase(e, st, a):
    s = rdstr(e, st, a[0])
    p, n = e.concretize(st, a[1]), e.concretize(st, a[2])
    wrstr(e, st, a[0], s[:p] + s[p + n:])


def _finder(name, f):
    """member functions find, rfind, find_*_of in their (pointer, position, length), (character, position)
    and (pointer, position) forms; -1 stands for npos"""
    K = '_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE%d%sE' % (len(name), name)

    def pos(e, st, v, s):
        v = e.concretize(st, v)
        return len(s) + 1 if v < 0 or v > len(s) else v

    def g(e, st, a):
        s = rdstr(e, st, a[0])
        n = e.concretize(st, a[3]) if len(a) > 3 else None
        t = bytes_at(e, st, a[1], n) if n is not None else e.cstring(st, a[1])
        return f(s, t, pos(e, st, a[2], s))

    def h(e, st, a):
        s = rdstr(e, st, a[0])
        return f(s, chr(a[1] & 255), pos(e, st, a[2], s))

    def q(e, st, a):
        s = rdstr(e, st, a[0])
        return f(s, rdstr(e, st, a[1]), pos(e, st, a[2], s))
    forced(K + 'PKcmm', K + 'PKcm')(g)
    forced(K + 'cm')(h)
    forced(K + 'RKS4_m')(q)


def _first(ok):
    return lambda s, t, p: next((i for i in range(p, len(s)) if ok(s[i], t)), -1)


def _last(ok):
    return lambda s, t, p: next((i for i in range(min(p, len(s) - 1), -1, -1) if ok(s[i], t)), -1)


_finder('find', lambda s, t, p: s.find(t, p) if p <= len(s) else -1)
_finder('rfind', lambda s, t, p: s.rfind(t, 0, min(p, len(s)) + len(t)))
_finder('find_first_of', _first(lambda c, t: c in t))
_finder('find_first_not_of', _first(lambda c, t: c not in t))
_finder('find_last_of', _last(lambda c, t: c in t))
_finder('find_last_not_of', _last(lambda c, t: c not in t))


@model('strcat')
def m_strcat(e, st, a):
    n = len(e.cstring(st, a[0]))
    puts_mem(e, st, Ptr(a[0].o, a[0].f + n), e.cstring(st, a[1]).encode('latin1') + b'\0')
    return a[0]


@model('strncpy')
def m_strncpy(e, st, a):
    n = e.concretize(st, a[2])
    b = e.cstring(st, a[1]).encode('latin1')[:n]
    puts_mem(e, st, a[0], b + b'\0' * (n - len(b)))
    return a[0]


def _at(a, i):
    return NULL if i < 0 else Ptr(a.o, a.f + i)


@model('strchr', 'index')
def m_strchr(e, st, a):
    return _at(a[0], (e.cstring(st, a[0]) + '\0').find(chr(a[1] & 255)))


@model('strrchr')
def m_strrchr(e, st, a):
    return _at(a[0], (e.cstring(st, a[0]) + '\0').rfind(chr(a[1] & 255)))


@model('strstr')
def m_strstr(e, st, a):
    return _at(a[0], e.cstring(st, a[0]).find(e.cstring(st, a[1])))


def cformat(e, st, f, v):
    """text of a printf format whose values are known"""
    v = list(v)
    out, pos = '', 0
    for m in re.finditer(r'%([-+ 0#]*)(\*|\d*)(?:\.(\*|\d*))?(?:[hlLqjzt]*)([diouxXeEfFgGcsp%])', f):
        out += f[pos:m.start()]
        pos = m.end()
        if m.group(4) == '%':
            out += '%'
            continue
        if '*' in (m.group(2), m.group(3)):
            raise Unsupported('format with *')
        x = v.pop(0)
        if issym(x) or x is UNDEF:
            raise Unsupported('symbolic value in a text buffer')
        k = m.group(4)
        sp = '%' + m.group(1) + m.group(2) + ('.' + m.group(3) if m.group(3) is not None else '')
        if k == 's':
            x = e.cstring(st, x)
        elif k == 'c':
            x, k = chr(x & 255), 's'
        elif k in 'di':
            k = 'd'
        out += (sp + k) % x
    return out + f[pos:]


@model('snprintf', '__snprintf_chk')
def m_snprintf(e, st, a):
    n = e.concretize(st, a[1])
    b = cformat(e, st, e.cstring(st, a[2]), a[3:]).encode('latin1')
    if n:
        puts_mem(e, st, a[0], b[:n - 1] + b'\0')
    return len(b)


@model('sprintf')
def m_sprintf(e, st, a):
    b = cformat(e, st, e.cstring(st, a[1]), a[2:]).encode('latin1')
    puts_mem(e, st, a[0], b + b'\0')
    return len(b)


@model('fflush', 'setvbuf', 'fsync')
def m_fflush(e, st, a):
    return 0


@pattern(r'llvm\.ctpop\.i')
def m_ctpop(e, st, a):
    return bin(e.concretize(st, a[0]) & ((1 << 64) - 1)).count('1')


# ------------------------------------------------------------------ std::map internals
def _rb(e, st, node):
    """node layout: color i32 @0, parent @8, left @16, right @24"""
    return [e.load(st, Ptr(node.o, node.f + k), 8, 'p') for k in (8, 16, 24)]


@model('_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base')
def rb_inc(e, st, a):
    x = a[0]
    p, l, r = _rb(e, st, x)
    if r != NULL:
        x = r
        while True:
            p, l, r = _rb(e, st, x)
            if l == NULL:
                return x
            x = l
    y = p
    while x == _rb(e, st, y)[2]:
        x = y
        y = _rb(e, st, y)[0]
    if _rb(e, st, x)[2] != y:
        x = y
    return x


@model('_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base')
def rb_dec(e, st, a):
    x = a[0]
    color = e.load(st, x, 4, 'i')
    p, l, r = _rb(e, st, x)
    if color == 0 and _rb(e, st, p)[0] == x:
        return r
    if l != NULL:
        y = l
        while True:
            r = _rb(e, st, y)[2]
            if r == NULL:
                return y
            y = r
    y = p
    while x == _rb(e, st, y)[1]:
        x = y
        y = _rb(e, st, y)[0]
    return y


@model('_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_')
def rb_ins(e, st, a):
    left, x, p, h = a
    P8 = lambda n, k: Ptr(n.o, n.f + k)
    e.store(st, P8(x, 8), 8, p)
    e.store(st, P8(x, 16), 8, NULL)
    e.store(st, P8(x, 24), 8, NULL)
    e.store(st, x, 4, 1)
    if left is True or left == 1:
        e.store(st, P8(p, 16), 8, x)
        if p == h:
            e.store(st, P8(h, 8), 8, x)
            e.store(st, P8(h, 24), 8, x)
        elif p == e.load(st, P8(h, 16), 8, 'p'):
            e.store(st, P8(h, 16), 8, x)
    else:
        e.store(st, P8(p, 24), 8, x)
        if p == e.load(st, P8(h, 24), 8, 'p'):
            e.store(st, P8(h, 24), 8, x)


# ------------------------------------------------------------------ harness interface
def name_of(e, st, p):
    return e.cstring(st, p)


def new_input(e, st, kind, name, lo, hi, strict=False):
    i = len(st.inputs)
    if e.concrete is not None:
        v = e.next_concrete(kind, name, lo, hi, i)
        st.inputs.append((kind, name, v))
        return v
    nm = '%s#%d' % (name, i)
    if lo is not None:
        nm += '@%r,%r' % (lo, hi)
    if kind == 'int':
        v = z3.Int(nm)
        st.pc += [v >= lo, v <= hi]
        e.iv.setb(v, float(lo), float(hi))
    else:
        v = e.sym_real(st, nm, lo, hi, strict_hi=strict)
    st.inputs.append((kind, name, v))
    return v


@forced('vp_real')
def vp_real(e, st, a):
    lo, hi = a[1], a[2]
    if type(lo) is not float or type(hi) is not float:
        raise Unsupported('vp_real with symbolic bounds')
    return new_input(e, st, 'real', name_of(e, st, a[0]), lo, hi)


@forced('vp_rand')
def vp_rand(e, st, a):
    return new_input(e, st, 'rand', 'rand', 0.0, 1.0, True)


@forced('vp_int')
def vp_int(e, st, a):
    return new_input(e, st, 'int', name_of(e, st, a[0]), e.concretize(st, a[1]), e.concretize(st, a[2]))


@forced('vp_choose')
def vp_choose(e, st, a):
    lo, hi = e.concretize(st, a[1]), e.concretize(st, a[2])
    if lo >= hi:
        return lo
    fx = e.fix.get(name_of(e, st, a[0]))
    if fx is not None and e.concrete is None:
        x = fx if type(fx) is int else fx[0]
        st.inputs.append(('int', name_of(e, st, a[0]), x))
        return x
    k = ('choose', len(st.inputs))
    r = st.memo.get(k)
    if r is None:
        if e.concrete is not None:
            return new_input(e, st, 'int', name_of(e, st, a[0]), lo, hi)
        n = len(st.inputs)
        v = new_input(e, st, 'int', name_of(e, st, a[0]), lo, hi)
        st.inputs.pop()
        st.memo[k] = (v,)
        r = (v,)
    x = e.concretize(st, r[0])
    st.inputs.append(('int', name_of(e, st, a[0]), x))
    return x


@forced('vp_assume')
def vp_assume(e, st, a):
    c = a[0]
    if type(c) is int:
        c = bool(c)
    if c is True:
        return
    if c is False:
        raise PathEnd('assume')
    if not z3.is_bool(c):
        c = e.to_bool(c)
    r = e.iv.cond(c)
    if r is True:
        return
    if r is False:
        raise PathEnd('assume')
    k = ('assumed', c.get_id())
    res, _ = e.solver.check(st.pc, [c], e.opts['q_timeout'])
    if res == 'unsat':
        raise PathEnd('assume')
    st.dec[c.get_id()] = (True, c)
    st.pc.append(c)


@forced('vp_check')
def vp_check(e, st, a):
    c = a[0]
    if type(c) is int:
        c = bool(c)
    lab = name_of(e, st, a[1])
    st.checks.add(lab)
    if not (c is True or c is False) and not z3.is_bool(c):
        c = e.to_bool(c)
    e.check_goal(st, c, lab)


@forced('vp_close')
def vp_close(e, st, a):
    x, y, tol = a[0], a[1], a[2]
    lab = name_of(e, st, a[3])
    st.checks.add(lab)
    if bad(x) or bad(y) or bad(tol):
        e.check_goal(st, False, lab, 'non-finite value')
        return
    if type(x) is float and type(y) is float and type(tol) is float:
        e.check_goal(st, abs(x - y) <= tol, lab, '%r vs %r' % (x, y))
        return
    d = fsub(x, y)
    if type(d) is float:
        e.check_goal(st, R(abs(d)) <= R(tol), lab, '')
        return
    t = R(tol)
    e.check_goal(st, z3.And(d <= t, -t <= d), lab, '', strong=z3.Or(d >= 1000 * t + R(1e-6), d <= -1000 * t - R(1e-6)))


@forced('vp_le')
def vp_le(e, st, a):
    """a <= b + tol"""
    x, y, tol = a[0], a[1], a[2]
    lab = name_of(e, st, a[3])
    st.checks.add(lab)
    if (type(x) is float and x != x) or (type(y) is float and y != y):
        e.check_goal(st, False, lab, 'NaN')
        return
    if bad(x) or bad(y):
        if type(x) is float and x == -INF or type(y) is float and y == INF:
            e.check_goal(st, True, lab)
        else:
            e.check_goal(st, False, lab, 'infinite')
        return
    if type(x) is float and type(y) is float and type(tol) is float:
        e.check_goal(st, x <= y + tol, lab, '%r <= %r' % (x, y))
        return
    e.check_goal(st, R(x) <= R(y) + R(tol), lab, '', strong=R(x) >= R(y) + 1000 * R(tol) + R(1e-6))


@forced('vp_reach')
def vp_reach(e, st, a):
    st.checks.add('reach:' + name_of(e, st, a[0]))


@forced('vp_observe')
def vp_observe(e, st, a):
    st.events.append(('observe', name_of(e, st, a[0]), a[1]))


@forced('vp_stop')
def vp_stop(e, st, a):
    raise PathEnd('stop')


@forced('vp_events_out')
def vp_events_out(e, st, a):
    """number of stream/printf/exit events so far (used to bracket a call)"""
    return len(st.events)


# ------------------------------------------------------------------ what was written to files
@forced('vp_out_open')
def vp_out_open(e, st, a):
    p = alloc(e, st, 16)
    st.user[('outfile', repr(p))] = True
    return p


@forced('vp_out_name')
def vp_out_name(e, st, a):
    p = alloc(e, st, 16)
    puts_mem(e, st, p, b'vp_out.0\0')
    return p


BAD = -1e300


def rounded(e, st, v, absolute=None, relative=None):
    """a number as read back from its decimal representation"""
    if e.concrete is not None or type(v) in (int, float):
        if type(v) is int:
            v = float(v)
        if type(v) is float:
            return float('%.*f' % (absolute, v)) if absolute is not None else float('%.*g' % (relative, v))
    d = e.aux(st, 'round', -0.5 * 10.0 ** -absolute if absolute is not None else -INF,
              0.5 * 10.0 ** -absolute if absolute is not None else INF)
    if absolute is None:
        h = rv(0.5 * 10.0 ** (1 - relative))
        st.pc.append(d <= z3.If(v >= 0, v, -v) * h)
        st.pc.append(d >= -z3.If(v >= 0, v, -v) * h)
    return z3.simplify(v + d)


def isint(v):
    return type(v) is int or (isinstance(v, z3.ExprRef) and z3.is_int(v))


def toreal(v):
    if isinstance(v, z3.ExprRef) and z3.is_int(v):
        return z3.ToReal(v)
    return float(v) if type(v) is int else v


def out_pieces(e, st, which='outpieces'):
    """text and values written to files (or the standard output), in order"""
    n0, pieces = st.user.get(which, (0, ()))
    std = which == 'stdout'
    opened = {ev[1] for ev in st.events if ev[0] == 'open'} if not std else \
        {ev[1] for ev in st.events if ev[0] == 'os' and ev[1][0] == '_ZSt4cout'}
    new = []
    for ev in st.events[n0:]:
        if ev[0] == 'printf' and (ev[1] == 'stdout' if std else st.user.get(('outfile', ev[1]))):
            f, vals, pos, i = ev[2], list(ev[3]), 0, 0
            for m in re.finditer(r'%([-+ 0#]*)(\d*)(?:\.(\d+))?[hlLqjzt]*([a-zA-Z%])', f):
                new.append(('t', f[pos:m.start()]))
                pos = m.end()
                c = m.group(4)
                if c == '%':
                    new.append(('t', '%'))
                    continue
                v = vals[i] if i < len(vals) else None
                i += 1
                prec = int(m.group(3)) if m.group(3) else 6
                if c in 'di' and v is not None and isint(v):
                    new.append(('v', toreal(v)))
                elif c in 'fF' and v is not None and not isint(v):
                    new.append(('v', rounded(e, st, v, absolute=prec)))
                elif c in 'eE' and v is not None and not isint(v):
                    new.append(('v', rounded(e, st, v, relative=prec + 1)))
                elif c in 'gG' and v is not None and not isint(v):
                    new.append(('v', rounded(e, st, v, relative=prec)))
                elif c == 's' and isinstance(v, str):
                    new.append(('t', v))
                else:
                    new.append(('v', BAD))
            new.append(('t', f[pos:]))
        elif ev[0] == 'os' and ev[1] in opened:
            v = ev[2]
            if isinstance(v, str):
                new.append(('t', v))
            elif isint(v):
                new.append(('v', toreal(v)))
            else:
                new.append(('v', rounded(e, st, v, relative=6)))
    pieces = pieces + tuple(new)
    st.user[which] = (len(st.events), pieces)
    return pieces


def out_lines(e, st):
    pieces = out_pieces(e, st)
    k = ('outlines', len(pieces))
    r = st.user.get(k)
    if r is not None:
        return r
    lines, line, tok = [], [], []

    def end():
        if tok:
            if len(tok) == 1 and tok[0][0] == 'v':
                line.append((tok[0][1], None))
            else:
                t = ''.join(x[1] if x[0] == 't' else '?' for x in tok)
                try:
                    line.append((float(t), t))
                except ValueError:
                    line.append((BAD, t))
            tok.clear()
    for x in pieces:
        if x[0] == 'v':
            tok.append(x)
            continue
        for c in x[1]:
            if c.isspace():
                end()
                if c == '\n':
                    lines.append(tuple(line))
                    line.clear()
            elif tok and tok[-1][0] == 't':
                tok[-1] = ('t', tok[-1][1] + c)
            else:
                tok.append(('t', c))
    end()
    r = (tuple(lines), tuple(line))
    st.user[k] = r
    return r


@forced('vp_out_lines')
def vp_out_lines(e, st, a):
    return len(out_lines(e, st)[0])


@forced('vp_out_tail')
def vp_out_tail(e, st, a):
    return len(out_lines(e, st)[1])


@forced('vp_out_cols')
def vp_out_cols(e, st, a):
    ls, i = out_lines(e, st)[0], e.concretize(st, a[0])
    return len(ls[i]) if 0 <= i < len(ls) else -1


@forced('vp_out')
def vp_out(e, st, a):
    ls, i, j = out_lines(e, st)[0], e.concretize(st, a[0]), e.concretize(st, a[1])
    if 0 <= i < len(ls) and 0 <= j < len(ls[i]):
        return ls[i][j][0]
    return BAD


@forced('vp_out_is')
def vp_out_is(e, st, a):
    ls, i, j = out_lines(e, st)[0], e.concretize(st, a[0]), e.concretize(st, a[1])
    return bool(0 <= i < len(ls) and 0 <= j < len(ls[i]) and ls[i][j][1] == e.cstring(st, a[2]))


# ------------------------------------------------------------------ std::mt19937
# kept abstract: the k-th number is a function of the seed and of k
MT = 'St23mersenne_twister_engineImLm32ELm624ELm397ELm31ELm2567483615ELm11ELm4294967295ELm7ELm2636928640ELm15ELm4022730752ELm18ELm1812433253EE'


def mt_set(e, st, p, seed):
    e.store(st, Ptr(p.o, p.f), 8, seed)
    e.store(st, Ptr(p.o, p.f + 8), 8, 0)


@forced('_ZN' + MT + 'C2Em', '_ZN' + MT + 'C1Em', '_ZN' + MT + '4seedEm')
def mt_seed(e, st, a):
    mt_set(e, st, a[0], a[1])


@forced('_ZN' + MT + 'C2Ev', '_ZN' + MT + 'C1Ev')
def mt_seed0(e, st, a):
    mt_set(e, st, a[0], 5489)


def mt_value(seed, k):
    m = 0xffffffff
    x = [seed & m]
    for i in range(1, 624):
        x.append((1812433253 * (x[-1] ^ (x[-1] >> 30)) + i) & m)
    out = []
    while len(out) < 2 * k + 2:
        for i in range(624):
            y = (x[i] & 0x80000000) | (x[(i + 1) % 624] & 0x7fffffff)
            x[i] = x[(i + 397) % 624] ^ (y >> 1) ^ (0x9908b0df if y & 1 else 0)
        for y in x:
            y ^= y >> 11
            y ^= (y << 7) & 0x9d2c5680
            y ^= (y << 15) & 0xefc60000
            y ^= y >> 18
            out.append(y)
    r = (out[2 * k] + out[2 * k + 1] * 4294967296.0) / 18446744073709551616.0
    return r if r < 1.0 else math.nextafter(1.0, 0.0)


@forced('_ZSt18generate_canonicalIdLm53E' + MT + 'ET_RT1_')
def mt_draw(e, st, a):
    p = a[0]
    seed = e.load(st, Ptr(p.o, p.f), 8, 'i')
    k = e.load(st, Ptr(p.o, p.f + 8), 8, 'i')
    e.store(st, Ptr(p.o, p.f + 8), 8, k + 1)
    if e.concrete is not None and type(seed) is int:
        return mt_value(seed, k)
    s = z3.IntVal(seed) if type(seed) is int else seed
    drawn = st.user.get(('mt', k), ())
    for s0, v0 in drawn:
        if s0.eq(s):
            return v0
    v = e.sym_real(st, 'mt!%d!%d' % (k, len(drawn)), 0.0, 1.0, strict_hi=True)
    for s0, v0 in drawn:
        st.pc.append(z3.Implies(s0 == s, v0 == v))
    st.user[('mt', k)] = drawn + ((s, v),)
    return v


@forced('vp_capture_stdout')
def vp_capture_stdout(e, st, a):
    st.user['stdout'] = (len(st.events), ())


def out_nums(e, st):
    t = ''.join(x[1] if x[0] == 't' else '\x01' for x in out_pieces(e, st, 'stdout'))
    vs = [x[1] for x in out_pieces(e, st, 'stdout') if x[0] == 'v']
    r = []
    for m in re.finditer(r'\x01|-?\d+(\.\d*)?([eE][-+]?\d+)?', t):
        r.append(vs.pop(0) if m.group(0) == '\x01' else float(m.group(0)))
    return r


@forced('vp_nums')
def vp_nums(e, st, a):
    return len(out_nums(e, st))


@forced('vp_num')
def vp_num(e, st, a):
    r, i = out_nums(e, st), e.concretize(st, a[0])
    return r[i] if 0 <= i < len(r) else BAD


# ------------------------------------------------------------------ input files written by the harness
def num_text(width, v):
    """the same layout as in native_rt.cpp"""
    if width == 0:
        return ' %.17g' % v
    room = width - 1 if width >= 6 else width
    t = ''
    if v != 0 and abs(v) < 1e-3 and width >= 9:
        t = '%.*e' % (room - 7, v)
    else:
        for p in range(12, -1, -1):
            t = '%.*f' % (p, v)
            if len(t) <= room:
                break
    return t.rjust(width)


def file_add(st, t):
    n = st.user.get(('filecur',))
    st.user[('file', n)] = st.user.get(('file', n), '') + t


def file_ph(st, width, v):
    k = st.user.get(('filen',), 0)
    st.user[('filen',)] = k + 1
    st.user[('fileval', k)] = v
    if 0 < width < 3:
        raise Unsupported('placeholder wider than its field')
    file_add(st, ('\x01' + chr(192 + k // 60) + chr(192 + k % 60)).rjust(width if width else 4))


@forced('vp_file')
def vp_file(e, st, a):
    n = name_of(e, st, a[0])
    st.user[('filecur',)] = n
    st.user[('file', n)] = ''


@forced('vp_file_text')
def vp_file_text(e, st, a):
    file_add(st, name_of(e, st, a[0]))


@forced('vp_file_num')
def vp_file_num(e, st, a):
    w = e.concretize(st, a[0])
    if type(a[1]) is float:
        t = num_text(w, a[1])
        file_add(st, t)
        return float(t)
    file_ph(st, w, a[1])
    return a[1]


@forced('vp_file_int')
def vp_file_int(e, st, a):
    w = e.concretize(st, a[0])
    if type(a[1]) is int:
        file_add(st, '%*d' % (w, a[1]) if w else ' %d' % a[1])
    else:
        file_ph(st, w, a[1])
    return a[1]
