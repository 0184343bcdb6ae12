"""Float theories. A program float is Fl(ty, v); what v is depends on the theory in force.

FP : bit-precise z3 FloatingPoint values; the operations named in `uf` are uninterpreted (deterministic) functions.
S  : standard model of rounding. A value is (real s, unit u) and stands for s * res^u; every inexact operation adds
     an error term bounded by 2^-p relative (plus the underflow term). Exact operations add none.
R  : idealised real arithmetic (no rounding); transcendental functions are uninterpreted, with stated axioms.
"""
import z3
from fractions import Fraction
from mir import Unsupported

class Fl:
    __slots__ = ('ty', 'v', '_h')
    def __init__(self, ty, v):
        self.ty, self.v = ty, v
    def __repr__(self):
        return "Fl(%s,%s)" % (self.ty, self.v)

def rv(x):
    """Fraction/int/float -> z3 real numeral."""
    f = Fraction(x)
    return z3.RealVal(str(f.numerator)) / z3.RealVal(str(f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)

def rnum(x):
    f = Fraction(x)
    return z3.Q(f.numerator, f.denominator)

_fresh = [0]
def fresh_name(p):
    _fresh[0] += 1
    return "%s!%d" % (p, _fresh[0])

PREC = {'f32': (8, 24), 'f64': (11, 53)}

class Theory:
    name = '?'
    def __init__(self):
        self.comm = set()    # uninterpreted functions that do not depend on the order of their arguments
        self.axioms = {}     # defining variable id -> list of constraints (definitional)
        self.cache = {}

    # generic helpers
    def gt(self, a, b): return self.lt(b, a)
    def ge(self, a, b): return self.le(b, a)

class FP(Theory):
    name = 'FP'
    def __init__(self, uf=()):
        super().__init__()
        self.uf = set(uf)
        self.ufs = {}
    def sort(self, ty):
        return z3.FPSort(*PREC[ty])
    def fresh(self, ty, name='f'):
        return Fl(ty, z3.FP(fresh_name(name), self.sort(ty)))
    def const(self, x, ty):
        return Fl(ty, z3.FPVal(x, self.sort(ty)))
    def inf(self, ty, neg=False):
        return Fl(ty, z3.fpMinusInfinity(self.sort(ty)) if neg else z3.fpPlusInfinity(self.sort(ty)))
    def nan(self, ty):
        return Fl(ty, z3.fpNaN(self.sort(ty)))
    def from_bits(self, bits_int, ty):
        f = self._uf('from_bits_' + ty, [z3.IntSort()], self.sort(ty))
        return Fl(ty, f(bits_int))
    def _uf(self, name, dom, rng):
        if name not in self.ufs:
            self.ufs[name] = z3.Function(name, *(dom + [rng]))
        return self.ufs[name]
    def _bin(self, op, a, b, fn, comm=False):
        if a.ty != b.ty: raise Unsupported("mixed float widths")
        if op in self.uf:
            x, y = a.v, b.v
            f = self._uf(op + '_' + a.ty, [self.sort(a.ty)] * 2, self.sort(a.ty))
            if comm: self.comm.add(f.name())
            return Fl(a.ty, f(x, y))
        return Fl(a.ty, fn(a.v, b.v))
    def add(self, a, b): return self._bin('add', a, b, lambda x, y: z3.fpAdd(z3.RNE(), x, y), True)
    def sub(self, a, b): return self._bin('sub', a, b, lambda x, y: z3.fpSub(z3.RNE(), x, y))
    def mul(self, a, b): return self._bin('mul', a, b, lambda x, y: z3.fpMul(z3.RNE(), x, y), True)
    def div(self, a, b): return self._bin('div', a, b, lambda x, y: z3.fpDiv(z3.RNE(), x, y))
    def rem(self, a, b): return self._bin('rem', a, b, lambda x, y: z3.fpRem(x, y)) if 'rem' in self.uf else \
        self._u2('rem', a, b)
    def _u2(self, op, a, b):
        f = self._uf(op + '_' + a.ty, [self.sort(a.ty)] * 2, self.sort(a.ty))
        return Fl(a.ty, f(a.v, b.v))
    def neg(self, a): return Fl(a.ty, z3.fpNeg(a.v))
    def abs(self, a): return Fl(a.ty, z3.fpAbs(a.v))
    def lt(self, a, b): return z3.fpLT(a.v, b.v)
    def le(self, a, b): return z3.fpLEQ(a.v, b.v)
    def eq(self, a, b): return z3.fpEQ(a.v, b.v)
    def min(self, a, b):
        return Fl(a.ty, z3.If(z3.fpIsNaN(a.v), b.v, z3.If(z3.fpIsNaN(b.v), a.v, z3.If(z3.fpLT(b.v, a.v), b.v, a.v))))
    def max(self, a, b):
        return Fl(a.ty, z3.If(z3.fpIsNaN(a.v), b.v, z3.If(z3.fpIsNaN(b.v), a.v, z3.If(z3.fpLT(a.v, b.v), b.v, a.v))))
    def is_nan(self, a): return z3.fpIsNaN(a.v)
    def is_finite(self, a): return z3.Not(z3.Or(z3.fpIsNaN(a.v), z3.fpIsInf(a.v)))
    def is_sign_negative(self, a): return z3.fpIsNegative(a.v)
    def same(self, a, b):
        """Bit identity (all NaNs identified)."""
        return a.v == b.v
    def fn1(self, name, a):
        """round, floor, ceil, sqrt, exp, ln, cos, ... as deterministic functions"""
        modes = {'round': z3.RNA(), 'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ()}
        if name in modes and 'round' not in self.uf:
            return Fl(a.ty, z3.fpRoundToIntegral(modes[name], a.v))
        if name == 'sqrt' and 'sqrt' not in self.uf:
            return Fl(a.ty, z3.fpSqrt(z3.RNE(), a.v))
        return Fl(a.ty, self._uf(name + '_' + a.ty, [self.sort(a.ty)], self.sort(a.ty))(a.v))
    def fnn(self, name, args):
        return Fl(args[0].ty, self._uf('%s%d_%s' % (name, len(args), args[0].ty), [self.sort(x.ty) for x in args],
                                       self.sort(args[0].ty))(*[x.v for x in args]))
    def from_int(self, i, ty):
        if isinstance(i, int):
            return self.const(float(i), ty) if abs(i) <= 2 ** 24 else Fl(ty, z3.fpToFP(z3.RNE(), z3.RealVal(i), self.sort(ty)))
        i = z3.simplify(i)
        if z3.is_int_value(i): return self.from_int(i.as_long(), ty)
        if z3.is_app_of(i, z3.Z3_OP_ITE):
            x, y = (self.from_int(t, ty).v for t in (i.arg(1), i.arg(2)))
            return Fl(ty, z3.If(i.arg(0), x, y))
        return Fl(ty, self._uf('i2' + ty, [z3.IntSort()], self.sort(ty))(i))
    def to_int(self, a, rng):
        s = z3.simplify(a.v)
        if z3.is_fp_value(s) and not (s.isNaN() or s.isInf()):
            q = Fraction(str(z3.simplify(z3.fpToReal(s))).replace('?', ''))
            k = int(q) if q >= 0 else -int(-q)
            return max(rng[0], min(rng[1], k))
        if z3.is_app_of(a.v, z3.Z3_OP_ITE):
            x, y = (self.to_int(Fl(a.ty, t), rng) for t in (a.v.arg(1), a.v.arg(2)))
            return z3.If(a.v.arg(0), x, y)
        f = self._uf('toint_%s_%d' % (a.ty, rng[1].bit_length()), [self.sort(a.ty)], z3.IntSort())
        return f(a.v)
    def convert(self, a, ty):
        if a.ty == ty: return a
        return Fl(ty, z3.fpToFP(z3.RNE(), a.v, self.sort(ty)))
    def ite(self, c, a, b): return Fl(a.ty, z3.If(c, a.v, b.v))
    def const_of(self, a):
        """Concrete Fraction or None."""
        s = z3.simplify(a.v)
        if z3.is_fp_value(s) and not (s.isNaN() or s.isInf()):
            return Fraction(str(z3.simplify(z3.fpToReal(s))).replace('?', ''))
        return None

class R(Theory):
    """Idealised reals."""
    name = 'R'
    def __init__(self):
        super().__init__()
        self.ufs = {}
        self.sq = {}
    def _uf(self, name, n):
        if (name, n) not in self.ufs:
            self.ufs[(name, n)] = z3.Function('r_' + name, *([z3.RealSort()] * (n + 1)))
        return self.ufs[(name, n)]
    def fresh(self, ty, name='r'): return Fl(ty, z3.Real(fresh_name(name)))
    def const(self, x, ty): return Fl(ty, rnum(Fraction(x)))
    def inf(self, ty, neg=False): return Fl(ty, z3.Real('-INF' if neg else '+INF'))
    def nan(self, ty): return Fl(ty, z3.Real(fresh_name('NaN')))
    def add(self, a, b): return Fl(a.ty, a.v + b.v)
    def sub(self, a, b): return Fl(a.ty, a.v - b.v)
    def mul(self, a, b): return Fl(a.ty, a.v * b.v)
    def div(self, a, b): return Fl(a.ty, a.v / b.v)
    def rem(self, a, b): return Fl(a.ty, self._uf('rem', 2)(a.v, b.v))
    def neg(self, a): return Fl(a.ty, -a.v)
    def abs(self, a): return Fl(a.ty, z3.If(a.v >= 0, a.v, -a.v))
    def lt(self, a, b): return a.v < b.v
    def le(self, a, b): return a.v <= b.v
    def eq(self, a, b): return a.v == b.v
    def min(self, a, b): return Fl(a.ty, z3.If(b.v < a.v, b.v, a.v))
    def max(self, a, b): return Fl(a.ty, z3.If(a.v < b.v, b.v, a.v))
    def is_nan(self, a): return False
    def is_finite(self, a): return True
    def is_sign_negative(self, a): return a.v < 0
    def same(self, a, b): return a.v == b.v
    def fn1(self, name, a):
        v = a.v
        if name == 'floor': return Fl(a.ty, z3.ToReal(z3.ToInt(v)))
        if name == 'ceil': return Fl(a.ty, -z3.ToReal(z3.ToInt(-v)))
        if name == 'round':
            h = rnum(Fraction(1, 2))
            return Fl(a.ty, z3.If(v >= 0, z3.ToReal(z3.ToInt(v + h)), -z3.ToReal(z3.ToInt(h - v))))
        if name == 'trunc': return Fl(a.ty, z3.If(v >= 0, z3.ToReal(z3.ToInt(v)), -z3.ToReal(z3.ToInt(-v))))
        if name == 'sqrt':
            key = v.get_id()
            if key not in self.sq:
                n = z3.Real(fresh_name('sqrt'))
                self.sq[key] = (n, v)
                self.axioms[n.get_id()] = (n, [z3.Implies(v >= 0, z3.And(n >= 0, n * n == v))])
            return Fl(a.ty, self.sq[key][0])
        if name == 'to_radians':
            return Fl(a.ty, v * z3.Real('PI') / 180)
        return Fl(a.ty, self._uf(name, 1)(v))
    def fnn(self, name, args): return Fl(args[0].ty, self._uf(name, len(args))(*[x.v for x in args]))
    def from_int(self, i, ty): return Fl(ty, rnum(i) if isinstance(i, int) else z3.ToReal(i))
    def to_int(self, a, rng):
        v = z3.simplify(a.v)
        t = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        return z3.simplify(z3.If(t > rng[1], rng[1], z3.If(t < rng[0], rng[0], t)))
    def convert(self, a, ty): return Fl(ty, a.v)
    def ite(self, c, a, b): return Fl(a.ty, z3.If(c, a.v, b.v))
    def const_of(self, a):
        s = z3.simplify(a.v)
        return s.as_fraction() if z3.is_rational_value(s) else None

class S(Theory):
    """Standard rounding model with units: v = (real, units) with units a sorted tuple of (unit, exponent)."""
    name = 'S'
    U = {'f32': Fraction(1, 2 ** 24), 'f64': Fraction(1, 2 ** 53)}
    ETA = Fraction(1, 2 ** 48)   # underflow term, in units: 2^-150 / res with res >= 2^-100 gives 2^-50
    def __init__(self):
        super().__init__()
        self.kc = {}
        self.coarse = False
    def mk(self, ty, s, u=()): return Fl(ty, (s, tuple(u)))
    def fresh(self, ty, name='s', unit=()): return self.mk(ty, z3.Real(fresh_name(name)), unit)
    def const(self, x, ty): return self.mk(ty, rnum(Fraction(x)))
    def inf(self, ty, neg=False): raise Unsupported("infinity in the rounding model")
    def nan(self, ty): raise Unsupported("nan in the rounding model")
    @staticmethod
    def umul(a, b, sgn=1):
        d = dict(a)
        for k, e in b:
            d[k] = d.get(k, 0) + sgn * e
        return tuple(sorted((k, e) for k, e in d.items() if e))
    def _zero(self, s):
        t = z3.simplify(s)
        return z3.is_rational_value(t) and t.as_fraction() == 0
    def _unify(self, a, b):
        (x, u), (y, w) = a.v, b.v
        if u == w: return x, y, u
        if self._zero(x): return x, y, w
        if self._zero(y): return x, y, u
        raise Unsupported("mixed units in the rounding model")
    def _round(self, ty, op, s, key, absterm):
        s = z3.simplify(s)
        if z3.is_rational_value(s) and self._repr(s.as_fraction(), ty):
            return s
        k = (op, ty, s.get_id())
        if k not in self.cache:
            e = z3.Real(fresh_name('eps'))
            u = self.U[ty]
            if self.coarse:      # a weaker axiom that is cheaper for the solver: values up to 2^16
                self.axioms[e.get_id()] = (e, [z3.Or(s > 2 ** 16, s < -2 ** 16, z3.And(e <= rnum(Fraction(1, 128)), e >= rnum(Fraction(-1, 128))))])
            else:
                m = z3.If(s >= 0, s, -s) * rnum(u)
                if absterm: m = m + rnum(self.ETA)
                self.axioms[e.get_id()] = (e, [e <= m, e >= -m])
            self.cache[k] = (s + e, s, e)
        return self.cache[k][0]
    def _repr(self, q, ty):
        p = 24 if ty == 'f32' else 53
        n, d = abs(q.numerator), q.denominator
        if d & (d - 1): return False
        while n and n % 2 == 0: n //= 2
        return n.bit_length() <= p and d <= 2 ** 100
    def add(self, a, b):
        x, y, u = self._unify(a, b)
        if self._zero(x): return b
        if self._zero(y): return a
        return self.mk(a.ty, self._round(a.ty, 'add', x + y, None, False), u)
    def sub(self, a, b):
        x, y, u = self._unify(a, b)
        if self._zero(y): return a
        return self.mk(a.ty, self._round(a.ty, 'add', x - y, None, False), u)
    def _const(self, s):
        t = z3.simplify(s)
        return t.as_fraction() if z3.is_rational_value(t) else None
    def mul(self, a, b):
        (x, u), (y, w) = a.v, b.v
        cx, cy = self._const(x), self._const(y)
        if cx is None and cy is None:
            raise Unsupported("nonlinear product in the rounding model")
        un = self.umul(u, w)
        p = x * y
        for c, un1, o in ((cx, u, y), (cy, w, x)):
            if c is not None and not un1 and self._pow2(c):
                return self.mk(a.ty, z3.simplify(p), un)      # exact scaling by a power of two
        if cx == 0 or cy == 0: return self.mk(a.ty, rnum(0), un)
        return self.mk(a.ty, self._round(a.ty, 'mul' + str(un), p, None, True), un)
    def _pow2(self, c):
        c = abs(c)
        if c == 0: return True
        n, d = c.numerator, c.denominator
        return (n & (n - 1)) == 0 and (d & (d - 1)) == 0
    def div(self, a, b):
        (x, u), (y, w) = a.v, b.v
        cy = self._const(y)
        if cy is None or cy == 0:
            raise Unsupported("nonlinear quotient in the rounding model")
        un = self.umul(u, w, -1)
        if self._zero(x): return self.mk(a.ty, rnum(0))
        if not w and self._pow2(cy):
            return self.mk(a.ty, z3.simplify(x / rnum(cy)), un)
        if u == w and x.eq(y): return self.mk(a.ty, rnum(1))
        return self.mk(a.ty, self._round(a.ty, 'div' + str(un), x / rnum(cy), None, True), un)
    def rem(self, a, b): raise Unsupported("float remainder in the rounding model")
    def neg(self, a): return self.mk(a.ty, -a.v[0], a.v[1])
    def abs(self, a): return self.mk(a.ty, z3.If(a.v[0] >= 0, a.v[0], -a.v[0]), a.v[1])
    def lt(self, a, b):
        x, y, _ = self._unify(a, b); return x < y
    def le(self, a, b):
        x, y, _ = self._unify(a, b); return x <= y
    def eq(self, a, b):
        x, y, _ = self._unify(a, b); return x == y
    def min(self, a, b):
        x, y, u = self._unify(a, b); return self.mk(a.ty, z3.If(y < x, y, x), u)
    def max(self, a, b):
        x, y, u = self._unify(a, b); return self.mk(a.ty, z3.If(x < y, y, x), u)
    def is_nan(self, a): return False
    def is_finite(self, a): return True
    def is_sign_negative(self, a): return a.v[0] < 0
    def same(self, a, b):
        if a.v[1] != b.v[1] and not (self._zero(a.v[0]) and self._zero(b.v[0])): return False
        return a.v[0] == b.v[0]
    def intpart(self, kind, s):
        """Integer k = round/floor/ceil(s), as an Int variable with linear defining axioms."""
        s = z3.simplify(s)
        if z3.is_rational_value(s):
            q = s.as_fraction()
            fl = q.numerator // q.denominator
            if kind == 'floor': return fl
            if kind == 'ceil': return -((-q.numerator) // q.denominator)
            r = (abs(q) + Fraction(1, 2)); r = r.numerator // r.denominator
            if kind == 'round': return r if q >= 0 else -r
            t = abs(q).numerator // abs(q).denominator
            return t if q >= 0 else -t
        key = (kind, s.get_id())
        if key not in self.kc:
            k = z3.Int(fresh_name(kind))
            kr = z3.ToReal(k)
            h = rnum(Fraction(1, 2))
            if kind == 'floor': ax = [kr <= s, s < kr + 1]
            elif kind == 'ceil': ax = [kr - 1 < s, s <= kr]
            elif kind == 'trunc':
                ax = [z3.If(s >= 0, z3.And(kr <= s, s < kr + 1), z3.And(kr - 1 < s, s <= kr))]
            else:
                ax = [z3.If(s >= 0, z3.And(kr - h <= s, s < kr + h), z3.And(kr - h < s, s <= kr + h))]
            self.axioms[k.get_id()] = (k, ax)
            self.kc[key] = (k, s)
        return self.kc[key][0]
    def fn1(self, name, a):
        s, u = a.v
        if name in ('round', 'floor', 'ceil', 'trunc'):
            if u: raise Unsupported("rounding a dimensioned value")
            k = self.intpart(name, s)
            return self.mk(a.ty, rnum(k) if isinstance(k, int) else z3.ToReal(k))
        raise Unsupported("function %s in the rounding model" % name)
    def fnn(self, name, args): raise Unsupported("function %s in the rounding model" % name)
    def from_int(self, i, ty):
        p = 24 if ty == 'f32' else 53
        if isinstance(i, int):
            return self.mk(ty, self._round(ty, 'i2f', rnum(i), None, False))
        key = ('i2f', ty, i.get_id())
        if key not in self.cache:
            s = z3.ToReal(i)
            e = z3.Real(fresh_name('eps'))
            m = z3.If(s >= 0, s, -s) * rnum(self.U[ty])
            self.axioms[e.get_id()] = (e, [e <= m, e >= -m,
                                           z3.Implies(z3.And(i <= 2 ** p, i >= -2 ** p), e == 0)])
            self.cache[key] = (s + e, i, e)
        return self.mk(ty, self.cache[key][0])
    def to_int(self, a, rng):
        s, u = a.v
        if u: raise Unsupported("integer conversion of a dimensioned value")
        s = z3.simplify(s)
        if z3.is_app_of(s, z3.Z3_OP_TO_REAL):
            k = s.arg(0)
        else:
            k = self.intpart('trunc', s)
        if isinstance(k, int): return max(rng[0], min(rng[1], k))
        return z3.If(k > rng[1], rng[1], z3.If(k < rng[0], rng[0], k))
    def convert(self, a, ty):
        if a.ty == ty: return a
        if a.ty == 'f32': return Fl(ty, a.v)
        return self.mk(ty, self._round(ty, 'cvt', a.v[0], None, True), a.v[1])
    def ite(self, c, a, b):
        x, y, u = self._unify(a, b)
        return self.mk(a.ty, z3.If(c, x, y), u)
    def const_of(self, a):
        return self._const(a.v[0]) if not a.v[1] else None

class E(S):
    """Exact real arithmetic with units: the rounding model without rounding."""
    name = 'E'
    ANY = (('any', 1),)
    def __init__(self):
        super().__init__()
        self.dv, self.sq = {}, {}
    def _round(self, ty, op, s, key, absterm): return z3.simplify(s)
    def inf(self, ty, neg=False): return self.mk(ty, z3.Real('-INF' if neg else '+INF'), self.ANY)
    def _unify(self, a, b):
        (x, u), (y, w) = a.v, b.v
        if u == self.ANY: return x, y, w
        if w == self.ANY: return x, y, u
        return super()._unify(a, b)
    @staticmethod
    def _unit(a): return a.v[1]
    def mul(self, a, b):
        (x, u), (y, w) = a.v, b.v
        return self.mk(a.ty, z3.simplify(x * y), self.ANY if self.ANY in (u, w) else self.umul(u, w))
    def div(self, a, b):
        (x, u), (y, w) = a.v, b.v
        un = self.ANY if self.ANY in (u, w) else self.umul(u, w, -1)
        cy = self._const(y)
        if cy is not None and cy != 0: return self.mk(a.ty, z3.simplify(x / rnum(cy)), un)
        x, y = z3.simplify(x), z3.simplify(y)
        if x.eq(y): return self.mk(a.ty, rnum(1), un)     # 0/0 is outside of exact arithmetic
        key = (x.get_id(), y.get_id())
        if key not in self.dv:
            d = z3.Real(fresh_name('quot'))
            self.axioms[d.get_id()] = (d, [z3.Implies(y != 0, d * y == x)])
            self.dv[key] = (d, x, y)
        return self.mk(a.ty, self.dv[key][0], un)
    def fn1(self, name, a):
        s, u = a.v
        if name == 'sqrt':
            if any(e % 2 for _, e in u): raise Unsupported("square root of a unit")
            s = z3.simplify(s)
            if s.get_id() not in self.sq:
                n = z3.Real(fresh_name('sqrt'))
                self.axioms[n.get_id()] = (n, [z3.Implies(s >= 0, z3.And(n >= 0, n * n == s))])
                self.sq[s.get_id()] = (n, s)
            return self.mk(a.ty, self.sq[s.get_id()][0], tuple((k, e // 2) for k, e in u))
        return super().fn1(name, a)
    def from_int(self, i, ty): return self.mk(ty, rnum(i) if isinstance(i, int) else z3.ToReal(i))
