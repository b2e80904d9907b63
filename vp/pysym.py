"""Symbolic execution of the Python package: the real source is executed by the interpreter with
solver terms in place of the numbers; every comparison of such a term forks the execution (by
re-execution along a decision prefix), and every obligation is put to the solver."""
import builtins
import io
import math
import os
import sys
import time
import types
import warnings
from fractions import Fraction

import numpy
import z3


class Unsupported(Exception):
    pass


class Stop(BaseException):
    """end of this path (assumption false)"""


CUR = None  # current symbolic context


def _num(x):
    """python/numpy number -> z3 term (exact), None if not a number"""
    if isinstance(x, (bool, numpy.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, (int, numpy.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, (float, numpy.floating)):
        x = float(x)
        if math.isnan(x) or math.isinf(x):
            raise Unsupported('nan or infinity in symbolic arithmetic')
        f = Fraction(x)
        return z3.RealVal(f.numerator) / z3.RealVal(f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    return None


def term(x):
    if isinstance(x, B):
        return z3.If(x.c, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, V):
        return x.e
    return _num(x)


def _r(e):
    return z3.ToReal(e) if e.sort() == z3.IntSort() else e


def wrap(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return V(e)


def _bin(f, rev=False):
    def g(self, o):
        b = term(o)
        if b is None:
            return NotImplemented
        a = term(self)
        if rev:
            a, b = b, a
        return f(a, b)
    return g


def _div(a, b):
    b = z3.simplify(_r(b))
    if not z3.is_rational_value(b):
        if CUR.decide(b == 0):
            raise ZeroDivisionError('division by zero')
    elif b.numerator_as_long() == 0:
        raise ZeroDivisionError('division by zero')
    return wrap(_r(a) / b)


def _pow(a, b):
    b = z3.simplify(_r(b))
    if not z3.is_rational_value(b):
        raise Unsupported('symbolic exponent')
    q = Fraction(b.numerator_as_long(), b.denominator_as_long())
    if q.denominator == 1 and 0 <= q <= 8:
        r = z3.RealVal(1)
        for _ in range(int(q)):
            r = r * _r(a)
        return wrap(r)
    if q == Fraction(1, 2):
        return CUR.sqrt(a)
    if q == Fraction(-1, 2):
        return _div(z3.RealVal(1), term(CUR.sqrt(a)))
    if q.denominator == 1 and q < 0:
        return _div(z3.RealVal(1), term(_pow(a, z3.RealVal(int(-q)))))
    raise Unsupported('power %s' % q)


class V:
    """a number"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    __add__ = _bin(lambda a, b: wrap(a + b))
    __radd__ = _bin(lambda a, b: wrap(a + b), True)
    __sub__ = _bin(lambda a, b: wrap(a - b))
    __rsub__ = _bin(lambda a, b: wrap(a - b), True)
    __mul__ = _bin(lambda a, b: wrap(a * b))
    __rmul__ = _bin(lambda a, b: wrap(a * b), True)
    __truediv__ = _bin(_div)
    __rtruediv__ = _bin(_div, True)
    __pow__ = _bin(_pow)
    __rpow__ = _bin(_pow, True)
    __lt__ = _bin(lambda a, b: B(a < b))
    __le__ = _bin(lambda a, b: B(a <= b))
    __gt__ = _bin(lambda a, b: B(a > b))
    __ge__ = _bin(lambda a, b: B(a >= b))

    def __eq__(self, o):
        b = term(o)
        return False if b is None else B(self.e == b)

    def __ne__(self, o):
        b = term(o)
        return True if b is None else B(self.e != b)

    __hash__ = None

    def __neg__(self):
        return wrap(-term(self))

    def __pos__(self):
        return self

    def __abs__(self):
        e = term(self)
        return wrap(z3.If(e >= 0, e, -e))

    def __floor__(self):
        e = term(self)
        return self if e.sort() == z3.IntSort() else wrap(z3.ToInt(e))

    def __trunc__(self):
        e = term(self)
        return self if e.sort() == z3.IntSort() else wrap(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))

    def __ceil__(self):
        e = term(self)
        return self if e.sort() == z3.IntSort() else wrap(-z3.ToInt(-e))

    floor = __floor__
    ceil = __ceil__

    def __floordiv__(self, o):
        q = self / o
        return q if isinstance(q, int) else q.__floor__()

    def __rfloordiv__(self, o):
        q = o / self
        return q if isinstance(q, int) else q.__floor__()

    def __mod__(self, o):
        return self - (self // o) * o

    def __index__(self):
        e = term(self)
        if e.sort() != z3.IntSort():
            raise TypeError("'float' object cannot be interpreted as an integer")
        return CUR.concretize(e)

    def __int__(self):
        t = self.__trunc__()
        return t if isinstance(t, int) else CUR.concretize(t.e)

    def __float__(self):
        raise Unsupported('conversion of an unknown to a machine float')

    def __bool__(self):
        return CUR.decide(term(self) != 0)

    def __format__(self, spec):
        return CUR.token(self)

    def __str__(self):
        return CUR.token(self)

    def __repr__(self):
        return CUR.token(self)

    def sqrt(self):
        return CUR.sqrt(term(self))

    def conjugate(self):
        return self

    def is_integer(self):
        return self == self.__floor__()

    def item(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, m):
        return self

    @property
    def real(self):
        return self


class B(V):
    """a truth value"""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = z3.simplify(c)

    @property
    def e(self):
        return term(self)

    def __bool__(self):
        return CUR.decide(self.c)

    def __and__(self, o):
        return B(z3.And(self.c, _b(o)))

    def __or__(self, o):
        return B(z3.Or(self.c, _b(o)))

    def __invert__(self):
        return B(z3.Not(self.c))

    __rand__ = __and__
    __ror__ = __or__


def _b(o):
    if isinstance(o, B):
        return o.c
    if isinstance(o, V):
        return o.e != 0
    return z3.BoolVal(bool(o))


# ---------------------------------------------------------------- the interpreter's view of numbers
class _Meta(type):
    def __instancecheck__(cls, o):
        if isinstance(o, V):
            return (term(o).sort() == z3.IntSort()) == (cls is vint)
        return builtins.isinstance(o, cls._base)

    def __subclasscheck__(cls, o):
        return issubclass(o, cls._base) if not isinstance(o, _Meta) else cls is o


class vfloat(metaclass=_Meta):
    _base = float

    def __new__(cls, x=0.0):
        if isinstance(x, V):
            e = term(x)
            return V(_r(e)) if e.sort() == z3.IntSort() else x
        if builtins.isinstance(x, str):
            v = CUR.untoken(x.strip()) if CUR else None
            if v is not None:
                return vfloat(v) if builtins.isinstance(v, V) else float(v)
        if builtins.isinstance(x, numpy.ndarray) and x.dtype == object and x.size == 1:
            return vfloat(x.flat[0])
        return float(x)

    def __getattr__(cls, n):
        return getattr(float, n)


class vint(metaclass=_Meta):
    _base = int

    def __new__(cls, x=0, *a):
        if isinstance(x, V):
            return x.__trunc__()
        if builtins.isinstance(x, str):
            v = CUR.untoken(x.strip()) if CUR else None
            if v is not None:
                if term(v).sort() != z3.IntSort():
                    raise ValueError('invalid literal for int()')
                return v
        if builtins.isinstance(x, numpy.ndarray) and x.dtype == object and x.size == 1:
            return vint(x.flat[0])
        return int(x, *a)


FLOATS = (vfloat, float, numpy.float64, numpy.float32, numpy.longdouble, 'float', 'float64', 'f8', 'd')
INTS = (vint, int, numpy.int64, numpy.int32, numpy.intp, 'int', 'int64', 'i8')


def _dt(d):
    for f in FLOATS + INTS:
        if d is f or (builtins.isinstance(d, str) and d == f):
            return object
    if builtins.isinstance(d, numpy.dtype) and d.kind in 'fi':
        return object
    return d


class Shim(types.ModuleType):
    """numpy with exact (object) arrays in place of float arrays"""

    def __init__(self):
        super().__init__('numpy')
        self.__path__ = []
        self.float64 = self.double = self.float32 = self.longdouble = vfloat
        self.int64 = self.int32 = self.intp = self.int_ = vint

        def filled(val):
            def f(shape, dtype=None, *a, **k):
                if dtype is None or _dt(dtype) is object:
                    r = numpy.empty(shape, dtype=object)
                    r[...] = val
                    return r
                return numpy.full(shape, val, dtype=dtype)
            return f

        self.zeros = filled(0)
        self.ones = filled(1)
        self.empty = lambda shape, dtype=None, *a, **k: numpy.empty(shape, dtype=object) if dtype is None or _dt(
            dtype) is object else numpy.empty(shape, dtype=dtype)

        def full(shape, val, dtype=None, *a, **k):
            r = numpy.empty(shape, dtype=object)
            r[...] = val
            return r

        def like(f):
            return lambda a, dtype=None, *x, **k: f(numpy.shape(a), dtype if dtype is not None else (
                bool if numpy.asarray(a).dtype == bool else None))

        self.full = full
        self.zeros_like = like(self.zeros)
        self.ones_like = like(self.ones)
        self.empty_like = like(self.empty)

        def conv(f):
            def g(a, dtype=None, *x, **k):
                return f(a, *x, **k) if dtype is None else f(a, _dt(dtype), *x, **k)
            return g
        self.array = conv(numpy.array)
        self.asarray = conv(numpy.asarray)
        self.asanyarray = conv(numpy.asanyarray)

        def fromiter(it, dtype=None, count=-1, **k):
            l = list(it)
            if dtype is not None and _dt(dtype) is not object:
                return numpy.array(l, dtype=dtype)
            return objarr(l)
        self.fromiter = fromiter

        def red(f):
            def g(a, axis=None, dtype=None, **k):
                return f(a, axis=axis, **k)
            return g
        self.mean = red(numpy.mean)
        self.sum = red(numpy.sum)

        def average(a, axis=None, weights=None, **k):
            a = numpy.asarray(a)
            if weights is None:
                return numpy.mean(a, axis=axis)
            return numpy.sum(a * weights, axis=axis) / numpy.sum(weights, axis=axis)
        self.average = average

        def arange(*a, **k):
            if not any(isinstance(x, V) for x in a):
                return numpy.arange(*a, **k)
            lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
            q = (hi - lo) / st
            n = int(q.__ceil__()) if isinstance(q, V) else math.ceil(q)
            return objarr([lo + i * st for i in range(n)])
        self.arange = arange

        def linspace(lo, hi, num=50, **k):
            if not isinstance(lo, V) and not isinstance(hi, V):
                return numpy.linspace(lo, hi, num, **k)
            if k:
                raise Unsupported('linspace')
            return objarr([lo + (hi - lo) * Fraction(i, num - 1) for i in range(num)])
        self.linspace = linspace
        self.loadtxt = loadtxt
        self.genfromtxt = loadtxt
        self.savetxt = unsupported('savetxt')
        self.floor = lambda a: elem(a, lambda x: x.__floor__() if isinstance(x, V) else math.floor(x))
        self.ceil = lambda a: elem(a, lambda x: x.__ceil__() if isinstance(x, V) else math.ceil(x))
        self.isnan = lambda a: elem(a, lambda x: False if isinstance(x, V) else math.isnan(x), bool)
        self.isfinite = lambda a: elem(a, lambda x: True if isinstance(x, V) else math.isfinite(x), bool)
        self.einsum = unsupported('einsum')
        self.nan_to_num = lambda a, *x, **k: a

    def __getattr__(self, n):
        return getattr(numpy, n)


def unsupported(n):
    def f(*a, **k):
        raise Unsupported('numpy.' + n)
    return f


def objarr(l):
    r = numpy.empty(len(l), dtype=object)
    for i, x in enumerate(l):
        r[i] = x
    return r


def elem(a, f, dt=object):
    if builtins.isinstance(a, numpy.ndarray):
        r = numpy.empty(a.shape, dtype=dt)
        for i in numpy.ndindex(*a.shape):
            r[i] = f(a[i])
        return r
    return f(a)


def loadtxt(fname, dtype=None, comments='#', delimiter=None, converters=None, skiprows=0, usecols=None,
            unpack=False, ndmin=0, encoding=None, max_rows=None, **k):
    close = False
    if builtins.isinstance(fname, (str, os.PathLike)):
        f = open(fname)
        close = True
    else:
        f = fname
    rows = []
    for i, line in enumerate(f):
        if i < skiprows:
            continue
        line = line.split(comments)[0].strip() if comments else line.strip()
        if not line:
            continue
        w = line.split(delimiter)
        if usecols is not None:
            uc = [usecols] if builtins.isinstance(usecols, int) else usecols
            w = [w[c] for c in uc]
        rows.append([vfloat(x) for x in w])
        if max_rows is not None and len(rows) >= max_rows:
            break
    if close:
        f.close()
    if len(set(map(len, rows))) > 1:
        raise ValueError('the number of columns changed')
    r = numpy.empty((len(rows), len(rows[0]) if rows else 0), dtype=object)
    for i, x in enumerate(rows):
        for j, y in enumerate(x):
            r[i, j] = y
    if ndmin < 2 and (r.shape[0] == 1 or r.shape[1] == 1) and rows:
        r = r.reshape(-1) if r.size > 1 or ndmin == 1 else r.reshape(())
    return r.T if unpack else r


class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__('math')
        self.sqrt = lambda x: x.sqrt() if isinstance(x, V) else math.sqrt(x)
        self.fabs = abs
        self.floor = lambda x: x.__floor__() if isinstance(x, V) else math.floor(x)
        self.ceil = lambda x: x.__ceil__() if isinstance(x, V) else math.ceil(x)
        self.fsum = sum
        self.pow = lambda a, b: a ** b
        self.isnan = lambda x: False if isinstance(x, V) else math.isnan(x)
        self.isfinite = lambda x: True if isinstance(x, V) else math.isfinite(x)

        def hypot(*a):
            return (sum(x * x for x in a)) ** 0.5
        self.hypot = hypot

    def __getattr__(self, n):
        return getattr(math, n)


_CODE = {}


def load(path, symbolic):
    """execute the module's current source, return its namespace"""
    src = _CODE.get(path)
    if src is None:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with builtins.open(path) as f:
                src = _CODE[path] = compile(f.read(), path, 'exec')
    ns = {'__name__': 'cgmftk_under_check', '__file__': path}
    if symbolic:
        b = dict(builtins.__dict__)
        b['float'] = vfloat
        b['int'] = vint
        b['print'] = lambda *a, **k: None
        b['round'] = _unround
        ns['__builtins__'] = b
        save = {k: sys.modules.get(k) for k in ('numpy', 'math')}
        sys.modules['numpy'] = Shim()
        sys.modules['math'] = MathShim()
        try:
            exec(src, ns)
        finally:
            for k, v in save.items():
                if v is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = v
    else:
        ns['__builtins__'] = dict(builtins.__dict__, print=lambda *a, **k: None)
        exec(src, ns)
    return types.SimpleNamespace(**{k: v for k, v in ns.items() if not k.startswith('__')})


def _unround(x, n=None):
    if isinstance(x, V):
        raise Unsupported('round')
    return round(x) if n is None else round(x, n)


# ---------------------------------------------------------------- contexts
class Sym:
    symbolic = True

    def __init__(self, prefix, stats, timeout=8000):
        self.prefix = prefix
        self.pos = 0
        self.dec = []
        self.pending = []
        self.s = z3.Solver()
        self.s.set('timeout', timeout)
        self.timeout = timeout
        self.st = stats
        self.inputs = []
        self.sq = {}
        self.toks = {}
        self.tokid = {}
        self.labels = []
        self.viol = []
        self.und = []
        self.reached = set()
        self.unknown_branch = 0

    # -- solver
    def _check(self, *c):
        t = time.time()
        r = self.s.check(*c)
        self.st.queries += 1
        self.st.time += time.time() - t
        if r == z3.sat:
            self.st.sat += 1
        elif r == z3.unsat:
            self.st.unsat += 1
        else:
            self.st.unknown += 1
        return r

    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            t = self._check(c)
            if t == z3.unsat:
                v = False
            else:
                f = self._check(z3.Not(c))
                if t == z3.unknown or f == z3.unknown:
                    self.unknown_branch += 1
                v = True
                if f != z3.unsat:
                    self.pending.append(self.dec + [False])
        self.pos += 1
        self.dec.append(v)
        self.s.add(c if v else z3.Not(c))
        return v

    def concretize(self, e):
        while True:
            e1 = z3.simplify(e)
            if z3.is_int_value(e1):
                return e1.as_long()
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos]
                if v is True or v is False:
                    raise Unsupported('decision sequence')
                if v[1]:
                    self.pos += 1
                    self.dec.append(v)
                    self.s.add(e == v[0])
                    return v[0]
                self.pos += 1
                self.dec.append(v)
                self.s.add(e != v[0])
                continue
            if self._check() != z3.sat:
                raise Stop()
            v = self.s.model().eval(e, model_completion=True).as_long()
            if self._check(e != v) != z3.unsat:
                self.pending.append(self.dec + [(v, False)])
            self.pos += 1
            self.dec.append((v, True))
            self.s.add(e == v)
            return v

    def sqrt(self, a):
        a = z3.simplify(_r(a), som=True)
        if z3.is_rational_value(a):
            q = Fraction(a.numerator_as_long(), a.denominator_as_long())
            r = math.isqrt(q.numerator) if q >= 0 else -1
            d = math.isqrt(q.denominator)
            if r >= 0 and r * r == q.numerator and d * d == q.denominator:
                return wrap(z3.RealVal(str(Fraction(r, d))))
        k = a.sexpr()
        if k not in self.sq:
            if self.decide(a < 0):
                raise ValueError('square root of a negative number')
            v = z3.Real('sqrt%d' % len(self.sq))
            self.s.add(v >= 0, v * v == a)
            self.sq[k] = v
        return V(self.sq[k])

    # -- text
    def token(self, v):
        e = term(v)
        k = e.sexpr()
        if k not in self.tokid:
            self.tokid[k] = '@%d' % len(self.tokid)
            self.toks[self.tokid[k]] = v
        return self.tokid[k]

    def untoken(self, s):
        return self.toks.get(s)

    tok = token

    def tok(self, v):
        return self.token(v) if isinstance(v, V) else repr(v)

    # -- harness interface
    def real(self, name, lo, hi):
        v = z3.Real('%s#%d' % (name, len(self.inputs)))
        self.inputs.append(v)
        self.s.add(v >= _num(lo), v <= _num(hi))
        return V(v)

    def int(self, name, lo, hi):
        v = z3.Int('%s#%d' % (name, len(self.inputs)))
        self.inputs.append(v)
        self.s.add(v >= lo, v <= hi)
        return V(v)

    def choose(self, name, lo, hi):
        v = self.int(name, lo, hi)
        return self.concretize(v.e)

    def assume(self, c):
        c = _b(c)
        if z3.is_false(z3.simplify(c)):
            raise Stop()
        self.s.add(c)
        if self.pos >= len(self.prefix) and self._check() == z3.unsat:
            raise Stop()

    def check(self, c, label):
        c = z3.simplify(_b(c))
        if z3.is_true(c):
            self.st.norm += 1
            self.labels.append(label)
            return
        r = z3.sat if z3.is_false(c) else self._check(z3.Not(c))
        if r == z3.unsat:
            self.labels.append(label)
            return
        if r == z3.unknown:
            self.und.append(label)
            return
        self.viol.append((label, self.models(z3.Not(c))))

    def eq(self, a, b, label, tol=1e-9):
        if a is None or b is None or (not isinstance(a, V) and _num(a) is None):
            return self.check(False, label)
        d = z3.simplify(_r(term(a)) - _r(term(b)), som=True)
        if z3.is_rational_value(d):
            return self.check(abs(Fraction(d.numerator_as_long(), d.denominator_as_long())) <= tol, label)
        t = _num(float(tol))
        self.check(B(z3.And(d <= t, d >= -t)), label)

    def all(self, conds, label):
        cs = [z3.simplify(_b(x)) for x in conds]
        self.check(B(z3.And(*[x for x in cs if not z3.is_true(x)])) if cs else True, label)

    def near(self, a, b, tol=1e-9):
        d = _r(term(a)) - _r(term(b))
        t = _num(float(tol))
        return B(z3.And(d <= t, d >= -t))

    def count(self, conds):
        t = 0
        for x in conds:
            t = t + (x if isinstance(x, B) else int(bool(x)))
        return t

    def both(self, a, b):
        return B(z3.And(_b(a), _b(b)))

    def fsum(self, xs):
        t = 0
        for x in xs:
            t = t + x
        return t

    def ite(self, c, a, b):
        return wrap(z3.If(_b(c), _r(term(a)), _r(term(b))))

    def reach(self, label):
        self.reached.add('reach:' + label)

    def text(self, s):
        v = self.toks.get(s.strip())
        return v if v is not None else float(s)

    def models(self, *extra):
        """input vectors: first with coarse values (exact in floating point), then any"""
        out = []
        for scale in (64, 2 ** 20, None):
            self.s.push()
            try:
                self.s.add(*extra)
                if scale:
                    for i, v in enumerate(self.inputs):
                        if v.sort() == z3.RealSort():
                            self.s.add(v * scale == z3.ToReal(z3.Int('q%d' % i)))
                if self._check() == z3.sat:
                    m = self.s.model()
                    vals = []
                    for v in self.inputs:
                        x = m.eval(v, model_completion=True)
                        if z3.is_int_value(x):
                            vals.append(x.as_long())
                        elif z3.is_rational_value(x):
                            vals.append(float(Fraction(x.numerator_as_long(), x.denominator_as_long())))
                        else:
                            x = x.approx(20)
                            vals.append(float(Fraction(x.numerator_as_long(), x.denominator_as_long())))
                    out.append(vals)
            finally:
                self.s.pop()
            if out and scale == 64:
                break
        return out


class Conc:
    symbolic = False

    def __init__(self, vals):
        self.vals = list(vals)
        self.i = 0
        self.fails = []
        self.ok = []
        self.reached = set()
        self.obs = 0

    def _next(self):
        if self.i >= len(self.vals):
            raise Stop()
        v = self.vals[self.i]
        self.i += 1
        return v

    def real(self, name, lo, hi):
        v = float(self._next())
        if not (lo <= v <= hi):
            raise Stop()
        return v

    def int(self, name, lo, hi):
        v = int(self._next())
        if not (lo <= v <= hi):
            raise Stop()
        return v

    choose = int

    def assume(self, c):
        if not c:
            raise Stop()

    def tok(self, v):
        return repr(v)

    def text(self, s):
        return float(s)

    def check(self, c, label, info=''):
        if c:
            self.ok.append(label)
        else:
            self.fails.append((label, info))

    def eq(self, a, b, label, tol=1e-9):
        try:
            good = abs(float(a) - float(b)) <= tol + 1e-9 * abs(float(b))
        except (TypeError, ValueError):
            good = False
        self.check(good, label, 'got %r expected %r' % (a, b))

    def all(self, conds, label):
        conds = list(conds)
        self.check(all(conds), label, '%d of %d agree' % (sum(map(bool, conds)), len(conds)))

    def near(self, a, b, tol=1e-9):
        return abs(float(a) - float(b)) <= tol + 1e-9 * abs(float(b))

    def count(self, conds):
        return sum(1 for x in conds if x)

    def both(self, a, b):
        return bool(a) and bool(b)

    def fsum(self, xs):
        return sum(xs)

    def ite(self, c, a, b):
        return a if c else b

    def reach(self, label):
        self.reached.add('reach:' + label)


class Stats:
    def __init__(self):
        self.queries = self.sat = self.unsat = self.unknown = self.norm = 0
        self.time = 0.0


EXC = 'no exception is raised'


def explore(fn, budget, maxpaths=100000):
    """fn(ctx) is the scenario; returns a result dictionary"""
    global CUR
    st = Stats()
    t0 = time.time()
    stack = [[]]
    r = dict(paths=0, steps=0, ended={}, violations=[], discharged={}, undecided={}, unsupported={}, incomplete=None,
             reached={}, samples=[], vectors=[])
    while stack:
        if time.time() - t0 > budget or r['paths'] > maxpaths:
            r['incomplete'] = '%d open prefixes after %.0f s' % (len(stack), time.time() - t0)
            break
        c = Sym(stack.pop(), st)
        CUR = c
        end = 'return'
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                fn(c)
        except Stop:
            end = 'assume'
        except Unsupported as x:
            end = 'unsupported'
            r['unsupported'][str(x)[:150]] = r['unsupported'].get(str(x)[:150], 0) + 1
            r.setdefault('unsvec', []).extend(c.models()[:1])
        except RecursionError:
            raise
        except (Exception, SystemExit) as x:
            end = 'exception'
            import traceback
            tb = traceback.extract_tb(x.__traceback__)[-1]
            c.viol.append((EXC, c.models(), '%s: %s (%s:%s)' % (type(x).__name__, str(x)[:120], os.path.basename(tb.filename), tb.lineno)))
        finally:
            CUR = None
        stack.extend(c.pending)
        if end != 'assume':
            r['paths'] += 1
        r['steps'] += len(c.dec) + len(c.labels)
        r['ended'][end] = r['ended'].get(end, 0) + 1
        for l in c.labels:
            r['discharged'][l] = r['discharged'].get(l, 0) + 1
        for l in c.und:
            r['undecided'][l] = r['undecided'].get(l, 0) + 1
        for l in c.reached:
            r['reached'][l] = r['reached'].get(l, 0) + 1
        for v in c.viol:
            if sum(1 for x in r['violations'] if x[0] == v[0]) < 6:
                r['violations'].append((v[0], 'check', v[1], v[2] if len(v) > 2 else ''))
        if end == 'return' and len(r['vectors']) < 6 and r['paths'] % max(1, len(r['vectors']) * 7) == 0:
            CUR = c
            m = c.models()
            CUR = None
            r['vectors'] += m[:1]
            if m and len(r['samples']) < 2:
                r['samples'].append('path %d: %s' % (r['paths'], [round(x, 6) for x in m[0]][:12]))
        if len(r['violations']) >= 12:
            r['incomplete'] = 'enough violations'
            break
    r.update(wall=time.time() - t0, queries=st.queries, sat=st.sat, unsat=st.unsat, unknown=st.unknown, norm=st.norm,
             interval=0, qtime=st.time)
    return r


def concrete(fn, vals):
    c = Conc(vals)
    end = 'return'
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            fn(c)
    except Stop:
        end = 'assume'
    except (Exception, SystemExit) as x:
        import traceback
        tb = traceback.extract_tb(x.__traceback__)[-1]
        c.fails.append((EXC, '%s: %s (%s:%s)' % (type(x).__name__, str(x)[:200], os.path.basename(tb.filename), tb.lineno)))
        end = 'exception'
    return c, end
