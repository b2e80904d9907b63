"""Symbolic values, solver access, interval pre-check and polynomial normal form."""
import math
import time
from fractions import Fraction
import z3

z3.set_param('memory_max_size', 6000)
RS = z3.RealSort()
IS = z3.IntSort()
INF = float('inf')

_rv = {}


def rv(f):
    """float/int/Fraction -> exact z3 rational constant"""
    r = _rv.get(f)
    if r is None:
        fr = Fraction(f)
        r = z3.RealVal(str(fr.numerator) + '/' + str(fr.denominator)) if fr.denominator != 1 else z3.RealVal(fr.numerator)
        if len(_rv) < 200000:
            _rv[f] = r
    return r


def R(x):
    if isinstance(x, z3.ExprRef):
        if x.sort() == IS:
            return z3.ToReal(x)
        return x
    return rv(x)


def issym(x):
    return isinstance(x, z3.ExprRef)


def isbad(x):
    return type(x) is float and (x != x or x == INF or x == -INF)


# ---------------------------------------------------------------- intervals
class Intervals:
    """sound outward-rounded interval evaluation of z3 arithmetic terms"""

    def __init__(self):
        self.b = {}      # var ast id -> (lo, hi)
        self.memo = {}
        self.keep = []

    def setb(self, v, lo, hi):
        self.b[v.get_id()] = (lo, hi)
        self.keep.append(v)

    @staticmethod
    def out(lo, hi):
        if lo != lo:
            lo = -INF
        if hi != hi:
            hi = INF
        return (math.nextafter(lo, -INF), math.nextafter(hi, INF))

    def ev(self, e):
        i = e.get_id()
        r = self.memo.get(i)
        if r is not None:
            return r[0]
        r = self._ev(e)
        self.memo[i] = (r, e)
        return r

    def _ev(self, e):
        k = e.decl().kind()
        if z3.is_rational_value(e) or z3.is_int_value(e):
            f = Fraction(e.numerator_as_long(), e.denominator_as_long()) if z3.is_rational_value(e) else Fraction(e.as_long())
            try:
                x = float(f)
            except OverflowError:
                return (-INF, INF)
            if Fraction(x) == f:
                return (x, x)
            return self.out(x, x)
        if k == z3.Z3_OP_UNINTERPRETED and e.num_args() == 0:
            return self.b.get(e.get_id(), (-INF, INF))
        if k == z3.Z3_OP_ADD:
            lo = hi = 0.0
            pos = neg = True
            for c in e.children():
                a, b = self.ev(c)
                pos = pos and a >= 0
                neg = neg and b <= 0
                lo += a
                hi += b
                lo, hi = self.out(lo, hi)
            return (max(lo, 0.0) if pos else lo, min(hi, 0.0) if neg else hi)
        if k == z3.Z3_OP_SUB:
            ch = e.children()
            lo, hi = self.ev(ch[0])
            for c in ch[1:]:
                a, b = self.ev(c)
                ge = lo >= b
                le = hi <= a
                lo, hi = self.out(lo - b, hi - a)
                if ge:
                    lo = max(lo, 0.0)
                if le:
                    hi = min(hi, 0.0)
            return (lo, hi)
        if k == z3.Z3_OP_UMINUS:
            a, b = self.ev(e.arg(0))
            return (-b, -a)
        if k == z3.Z3_OP_MUL:
            ch = e.children()
            if len(ch) == 2 and ch[0].eq(ch[1]):
                a, b = self.ev(ch[0])
                if a >= 0:
                    r = self.out(a * a, b * b)
                elif b <= 0:
                    r = self.out(b * b, a * a)
                else:
                    r = self.out(0.0, max(a * a, b * b))
                return (max(r[0], 0.0), r[1])
            lo, hi = self.ev(ch[0])
            for c in ch[1:]:
                a, b = self.ev(c)
                ps = []
                for x in (lo, hi):
                    for y in (a, b):
                        p = 0.0 if (x == 0.0 or y == 0.0) else x * y
                        ps.append(p)
                l2, h2 = self.out(min(ps), max(ps))
                if min(ps) >= 0:
                    l2 = max(l2, 0.0)
                if max(ps) <= 0:
                    h2 = min(h2, 0.0)
                lo, hi = l2, h2
            return (lo, hi)
        if k == z3.Z3_OP_DIV:
            a, b = self.ev(e.arg(0))
            c, d = self.ev(e.arg(1))
            if c > 0 or d < 0:
                ps = []
                for x in (a, b):
                    for y in (c, d):
                        p = 0.0 if (x == 0.0 or y in (INF, -INF)) else x / y
                        ps.append(p)
                if INF in (a, b, c, d) or -INF in (a, b, c, d):
                    if b == INF or a == -INF:
                        return (-INF, INF)
                l2, h2 = self.out(min(ps), max(ps))
                if min(ps) >= 0:
                    l2 = max(l2, 0.0)
                if max(ps) <= 0:
                    h2 = min(h2, 0.0)
                return (l2, h2)
            return (-INF, INF)
        if k == z3.Z3_OP_TO_REAL:
            return self.ev(e.arg(0))
        if k == z3.Z3_OP_TO_INT:
            a, b = self.ev(e.arg(0))
            return (math.floor(a) if a > -INF else a, math.floor(b) if b < INF else b)
        if k == z3.Z3_OP_ITE:
            a, b = self.ev(e.arg(1))
            c, d = self.ev(e.arg(2))
            return (min(a, c), max(b, d))
        return (-INF, INF)

    def cond(self, c):
        """True / False / None"""
        k = c.decl().kind()
        if k == z3.Z3_OP_TRUE:
            return True
        if k == z3.Z3_OP_FALSE:
            return False
        if k == z3.Z3_OP_NOT:
            r = self.cond(c.arg(0))
            return None if r is None else (not r)
        if k == z3.Z3_OP_AND:
            rs = [self.cond(x) for x in c.children()]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
            return None
        if k == z3.Z3_OP_OR:
            rs = [self.cond(x) for x in c.children()]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ):
            a0, b0 = c.arg(0), c.arg(1)
            if not z3.is_arith(a0):
                return None
            a, b = self.ev(a0)
            x, y = self.ev(b0)
            if k == z3.Z3_OP_LE:
                return True if b <= x else (False if a > y else None)
            if k == z3.Z3_OP_LT:
                return True if b < x else (False if a >= y else None)
            if k == z3.Z3_OP_GE:
                return True if a >= y else (False if b < x else None)
            if k == z3.Z3_OP_GT:
                return True if a > y else (False if b <= x else None)
            if b < x or a > y:
                return False
            return None
        return None


# ---------------------------------------------------------------- polynomial normal form
class TooBig(Exception):
    pass


class Norm:
    """Rational functions num/den over atoms, with rewriting rules v*v -> polynomial for atoms
    introduced by sqrt / sin.  Used to simplify a difference before it is handed to the solver."""

    LIMIT = 20000

    def __init__(self, squares):
        # squares: atom id -> z3 term t with atom^2 == t
        self.sq = squares
        self.memo = {}
        self.atoms = {}
        self.sqmemo = {}
        self.fkeys = {}
        self.facs = []
        self.fpmemo = {}

    def atom(self, e):
        self.atoms[e.get_id()] = e
        return ({((e.get_id(), 1),): Fraction(1)}, {})

    def padd(self, a, b):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return r

    def pmulraw(self, a, b):
        r = {}
        if len(a) * len(b) > 20 * self.LIMIT:
            raise TooBig()
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                d = dict(m1)
                for x, p in m2:
                    d[x] = d.get(x, 0) + p
                m = tuple(sorted(d.items()))
                v = r.get(m, 0) + c1 * c2
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
        if len(r) > self.LIMIT:
            raise TooBig()
        return r

    # A value is (num, den): num a polynomial, den a tuple of (factor id, power); a factor is a
    # monic non-constant polynomial.
    def factor(self, p):
        """polynomial -> (constant, {factor id: power}); single monomials split into atoms"""
        if len(p) == 1:
            (m, c), = p.items()
            out = {}
            for x, k in m:
                out[self.fid({((x, 1),): Fraction(1)})] = k
            return c, out
        lead = p[min(p)]
        return lead, {self.fid({m: v / lead for m, v in p.items()}): 1}

    def fid(self, p):
        key = frozenset(p.items())
        i = self.fkeys.get(key)
        if i is None:
            i = len(self.facs)
            self.fkeys[key] = i
            self.facs.append(p)
        return i

    def fpow(self, f, k):
        r = self.fpmemo.get((f, k))
        if r is None:
            r = {(): Fraction(1)}
            for _ in range(k):
                r = self.pmulraw(r, self.facs[f])
            self.fpmemo[(f, k)] = r
        return r

    def expand(self, den):
        r = {(): Fraction(1)}
        for f, k in (den.items() if isinstance(den, dict) else den):
            r = self.pmulraw(r, self.fpow(f, k))
        return r

    def red(self, p, den):
        """apply square rewriting until no atom with a rule has power >= 2"""
        den = dict(den)
        while True:
            hit = None
            for m in p:
                for x, k in m:
                    if k >= 2 and self.sqval(x) is not None:
                        if hit is None or x > hit:
                            hit = x
            if hit is None:
                break
            num, nd = self.sqval(hit)
            parts = {}
            K = 0
            for m, c in p.items():
                d = dict(m)
                k = d.get(hit, 0)
                h = k // 2
                if h:
                    if k % 2:
                        d[hit] = 1
                    else:
                        del d[hit]
                    m = tuple(sorted(d.items()))
                K = max(K, h)
                q = parts.setdefault(h, {})
                q[m] = q.get(m, 0) + c
            r = {}
            for h, q in parts.items():
                for _ in range(h):
                    q = self.pmulraw(q, num)
                if K - h:
                    q = self.pmulraw(q, self.expand({f: k * (K - h) for f, k in nd.items()}))
                r = self.padd(r, q)
            for f, k in nd.items():
                den[f] = den.get(f, 0) + k * K
            p = r
            if len(p) > self.LIMIT:
                raise TooBig()
        p = {m: c for m, c in p.items() if c != 0}
        if not p:
            return ({}, {})
        return self.cancel(p, den)

    def cancel(self, p, den):
        """remove single-atom factors common to numerator and denominator"""
        for f in list(den):
            fp = self.facs[f]
            if len(fp) == 1:
                (m, c), = fp.items()
                x = m[0][0]
                k = min(dict(t).get(x, 0) for t in p)
                k = min(k, den[f])
                if k:
                    q = {}
                    for t, v in p.items():
                        d = dict(t)
                        d[x] -= k
                        if not d[x]:
                            del d[x]
                        q[tuple(sorted(d.items()))] = v
                    p = q
                    den[f] -= k
                    if not den[f]:
                        del den[f]
            elif len(p) == len(fp):
                lead = p[min(p)]
                if frozenset((m, v / lead) for m, v in p.items()) == frozenset(fp.items()):
                    p = {(): lead}
                    den[f] -= 1
                    if not den[f]:
                        del den[f]
        return (p, den)

    def sqval(self, x):
        if x in self.sqmemo:
            return self.sqmemo[x]
        r = None
        if x in self.sq:
            r = self.conv(self.sq[x])
        self.sqmemo[x] = r
        return r

    def vadd(self, a, b, sign=1):
        n1, d1 = a
        n2, d2 = b
        if sign < 0:
            n2 = {m: -v for m, v in n2.items()}
        if d1 == d2:
            n = self.padd(n1, n2)
            if not n:
                return ({}, {})
            return self.cancel(n, dict(d1)) if d1 else (n, d1)
        l = dict(d1)
        for f, k in d2.items():
            l[f] = max(l.get(f, 0), k)
        x1 = {f: k - d1.get(f, 0) for f, k in l.items() if k > d1.get(f, 0)}
        x2 = {f: k - d2.get(f, 0) for f, k in l.items() if k > d2.get(f, 0)}
        n = self.padd(self.pmulraw(n1, self.expand(x1)), self.pmulraw(n2, self.expand(x2)))
        return self.red(n, l)

    def vmul(self, a, b):
        n1, d1 = a
        n2, d2 = b
        d = dict(d1)
        for f, k in d2.items():
            d[f] = d.get(f, 0) + k
        # cancel whole factors before multiplying out
        return self.red(self.pmulraw(n1, n2), d)

    def vinv(self, b):
        n2, d2 = b
        if not n2:
            raise TooBig()
        c, fs = self.factor(n2)
        den = dict(d2)
        for f in list(fs):
            k = min(fs[f], den.get(f, 0))
            if k:
                den[f] -= k
                fs[f] -= k
        num = self.expand({f: k for f, k in den.items() if k})
        num = {m: v / c for m, v in num.items()}
        return (num, {f: k for f, k in fs.items() if k})

    def conv(self, e):
        i = e.get_id()
        r = self.memo.get(i)
        if r is None:
            r = self._conv(e)
            self.memo[i] = r
            self.atoms.setdefault(-i - 1, e)
        return r

    def _conv(self, e):
        if z3.is_rational_value(e):
            f = Fraction(e.numerator_as_long(), e.denominator_as_long())
            return ({(): f} if f else {}, {})
        if z3.is_int_value(e):
            f = Fraction(e.as_long())
            return ({(): f} if f else {}, {})
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
            ch = e.children()
            r = self.conv(ch[0])
            for c in ch[1:]:
                r = self.vadd(r, self.conv(c), -1 if k == z3.Z3_OP_SUB else 1)
            return r
        if k == z3.Z3_OP_UMINUS:
            n, d = self.conv(e.arg(0))
            return ({m: -v for m, v in n.items()}, d)
        if k == z3.Z3_OP_MUL:
            ch = e.children()
            r = self.conv(ch[0])
            for c in ch[1:]:
                r = self.vmul(r, self.conv(c))
            return r
        if k == z3.Z3_OP_DIV:
            a = self.conv(e.arg(0))
            b = self.conv(e.arg(1))
            if len(b[0]) == 1 and () in b[0] and not b[1]:
                c = b[0][()]
                return ({m: v / c for m, v in a[0].items()}, a[1])
            if a == b and a[0]:
                return ({(): Fraction(1)}, {})
            return self.vmul(a, self.vinv(b))
        if k == z3.Z3_OP_TO_REAL:
            return self.conv(e.arg(0))
        if k == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)) and e.arg(1).denominator_as_long() == 1:
            p = e.arg(1).numerator_as_long()
            if 0 <= p <= 8:
                r = ({(): Fraction(1)}, {})
                x = self.conv(e.arg(0))
                for _ in range(p):
                    r = self.vmul(r, x)
                return r
        return self.atom(e)

    def constant(self, v):
        """the value as a Fraction when it is constant, else None"""
        n, d = v
        if not n:
            return Fraction(0)
        if not d:
            return n[()] if len(n) == 1 and () in n else None
        try:
            x, y = self.red(self.expand(d), {})
        except TooBig:
            return None
        if y or not x:
            return None
        m0 = min(x)
        if m0 not in n or len(n) != len(x):
            return None
        q = n[m0] / x[m0]
        if all(n.get(m) == q * v for m, v in x.items()):
            return q
        return None

    def to_z3(self, p):
        if not p:
            return z3.RealVal(0)
        terms = []
        for m, c in p.items():
            fs = [z3.RealVal('%d/%d' % (c.numerator, c.denominator))]
            for x, k in m:
                a = self.atoms[x]
                if a.sort() == IS:
                    a = z3.ToReal(a)
                fs += [a] * k
            terms.append(z3.Product(fs) if len(fs) > 1 else fs[0])
        return z3.Sum(terms) if len(terms) > 1 else terms[0]


# ---------------------------------------------------------------- solver front end
_vars_memo = {}


def term_vars(e):
    """set of uninterpreted constants in e (ids)"""
    i = e.get_id()
    r = _vars_memo.get(i)
    if r is not None:
        return r[0]
    out = set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        xi = x.get_id()
        if xi in seen:
            continue
        seen.add(xi)
        m = _vars_memo.get(xi)
        if m is not None:
            out |= m[0]
            continue
        if x.num_args() == 0:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(xi)
        else:
            st.extend(x.children())
    out = frozenset(out)
    _vars_memo[i] = (out, e)
    return out


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.time = 0.0
        self.interval = 0
        self.norm = 0
        self.cached = 0


class Merged:
    """model of variable-disjoint parts"""

    def __init__(self, parts):
        self.parts = parts

    def eval(self, t, model_completion=True):
        vs = term_vars(t)
        for s, m in self.parts:
            if vs & s:
                t = m.eval(t, model_completion=vs <= s)
                if vs <= s:
                    return t
        if not z3.is_expr(t):
            return t
        free = term_vars(t)
        if free:
            if t.num_args() == 0:
                return z3.RealVal(0) if t.sort() == z3.RealSort() else z3.IntVal(0)
        return z3.simplify(t)


class Solver:
    def __init__(self, stats=None):
        self.stats = stats or Stats()
        self.cache = {}

    @staticmethod
    def slice(pc, seeds):
        """constraints of pc transitively sharing variables with seeds"""
        want = set()
        for s in seeds:
            want |= term_vars(s)
        rest = [(c, term_vars(c)) for c in pc]
        out = []
        changed = True
        while changed:
            changed = False
            nr = []
            for c, vs in rest:
                if vs & want:
                    out.append(c)
                    if not vs <= want:
                        want |= vs
                        changed = True
                    else:
                        want |= vs
                else:
                    nr.append((c, vs))
            rest = nr
        return out

    def check(self, pc, extra, timeout=3000, model=False, full=False):
        """returns ('sat'|'unsat'|'unknown', model or None)"""
        cs = list(pc) if full else self.slice(pc, extra)
        key = None
        if not model:
            key = frozenset([c.get_id() for c in cs] + [c.get_id() for c in extra])
            r = self.cache.get(key)
            if r is not None:
                self.stats.cached += 1
                return (r[0], None)
        t0 = time.time()
        if full:
            res, m = self._parts(cs + list(extra), timeout)
        else:
            res, m = self._run(cs, extra, timeout)
        self.stats.time += time.time() - t0
        self.stats.queries += 1
        setattr(self.stats, res, getattr(self.stats, res) + 1)
        if key is not None:
            self.cache[key] = (res, cs, extra)
        return (res, m if model else None)

    def _parts(self, cs, timeout):
        """solve variable-disjoint groups of constraints one by one"""
        groups = []
        for c in cs:
            vs = set(term_vars(c))
            mine = [c]
            keep = []
            for g in groups:
                if g[0] & vs:
                    vs |= g[0]
                    mine = g[1] + mine
                else:
                    keep.append(g)
            keep.append((vs, mine))
            groups = keep
        groups.sort(key=lambda g: len(g[1]))
        parts = []
        unk = False
        for vs, g in groups:
            r, m = self._run(g, [], timeout)
            if r == 'unsat':
                return (r, None)
            if r == 'unknown':
                unk = True
                break
            parts.append((vs, m))
        if unk:
            for vs, g in groups[len(parts) + 1:]:
                r, m = self._run(g, [], timeout)
                if r == 'unsat':
                    return (r, None)
            return ('unknown', None)
        return ('sat', Merged(parts))

    def _run(self, cs, extra, timeout):
        s = z3.Solver()
        s.set('timeout', int(timeout))
        for c in cs:
            s.add(c)
        for c in extra:
            s.add(c)
        try:
            r = s.check()
        except z3.Z3Exception:
            return ('unknown', None)
        if r == z3.sat:
            try:
                return ('sat', s.model())
            except z3.Z3Exception:
                return ('unknown', None)
        if r == z3.unsat:
            return ('unsat', None)
        return ('unknown', None)


def val_float(v):
    """z3 numeral (rational / algebraic) -> Fraction approximation"""
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(40)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None
