"""Linear abstraction of formulas: every product of two or more non-constant terms becomes an application of an uninterpreted
function, after expanding sums and lifting if-then-else out of products. The abstraction has every model of the formula (and
more), so unsatisfiability carries over."""
import z3
from fractions import Fraction as Q

class Lin:
    def __init__(self):
        R = z3.RealSort()
        self.mulf = z3.Function('mul!', R, R, R)
        self.divf = z3.Function('div!', R, R, R)
        self.memo, self.pmemo, self.keep, self.names = {}, {}, [], {}
    # ---- formulas
    def f(self, t):
        k = t.get_id()
        if k not in self.memo:
            self.keep.append(t)
            self.memo[k] = self._f(t)
            self.keep.append(self.memo[k])
        return self.memo[k]
    def _f(self, t):
        if z3.is_real(t) and z3.is_app(t): return self.num(t)
        if not z3.is_app(t): return t               # quantifiers and bound variables are left alone
        if t.num_args() == 0: return t
        ch = t.children()
        if any(z3.is_real(c) for c in ch) and t.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ):
            a, b = self.num(ch[0]), self.num(ch[1])
            return {z3.Z3_OP_LE: lambda: a <= b, z3.Z3_OP_LT: lambda: a < b, z3.Z3_OP_GE: lambda: a >= b, z3.Z3_OP_GT: lambda: a > b, z3.Z3_OP_EQ: lambda: a == b}[t.decl().kind()]()
        return t.decl()(*[self.f(c) for c in ch])
    # ---- numbers: polynomials over atoms
    def poly(self, t):
        """{tuple of atoms (sorted ids): coefficient}"""
        k = t.get_id()
        if k not in self.pmemo:
            self.keep.append(t)
            self.pmemo[k] = self._poly(t)
        return self.pmemo[k]
    def atom(self, t):
        self.names[t.get_id()] = t
        self.keep.append(t)
        return {(t.get_id(),): Q(1)}
    def _poly(self, t):
        if z3.is_rational_value(t): 
            v = Q(t.numerator_as_long(), t.denominator_as_long())
            return {(): v} if v else {}
        if z3.is_int_value(t): return {(): Q(t.as_long())} if t.as_long() else {}
        kd = t.decl().kind() if z3.is_app(t) else None
        if kd == z3.Z3_OP_ADD: return self.add([self.poly(c) for c in t.children()])
        if kd == z3.Z3_OP_SUB:
            ch = t.children()
            return self.add([self.poly(ch[0])] + [self.scale(self.poly(c), Q(-1)) for c in ch[1:]])
        if kd == z3.Z3_OP_UMINUS: return self.scale(self.poly(t.arg(0)), Q(-1))
        if kd == z3.Z3_OP_MUL:
            r = {(): Q(1)}
            for c in t.children(): r = self.times(r, self.poly(c))
            return r
        if kd == z3.Z3_OP_DIV:
            d = self.poly(t.arg(1))
            if set(d) == {()}: return self.scale(self.poly(t.arg(0)), 1 / d[()])
            return self.atom(self.divf(self.num(t.arg(0)), self.num(t.arg(1))))
        if kd == z3.Z3_OP_TO_REAL:
            x = t.arg(0)
            xk = x.decl().kind()
            R = z3.ToReal
            if z3.is_int_value(x): return self.poly(z3.RealVal(x.as_long()))
            if xk == z3.Z3_OP_ADD: return self.add([self.poly(R(c)) for c in x.children()])
            if xk == z3.Z3_OP_SUB: return self.add([self.poly(R(x.arg(0)))] + [self.scale(self.poly(R(c)), Q(-1)) for c in x.children()[1:]])
            if xk == z3.Z3_OP_UMINUS: return self.scale(self.poly(R(x.arg(0))), Q(-1))
            if xk == z3.Z3_OP_MUL:
                r = {(): Q(1)}
                for c in x.children(): r = self.times(r, self.poly(R(c)))
                return r
            if xk == z3.Z3_OP_ITE: return self.poly(z3.If(x.arg(0), R(x.arg(1)), R(x.arg(2))))
            return self.atom(R(self.f(x)) if not isinstance(x, z3.QuantifierRef) else t)
        if kd == z3.Z3_OP_ITE:
            self.names[t.get_id()] = t
            return {(t.get_id(),): Q(1)}
        if kd is None or t.num_args() == 0: return self.atom(t)
        return self.atom(t.decl()(*[self.f(c) for c in t.children()]))
    @staticmethod
    def add(ps):
        r = {}
        for p in ps:
            for m, c in p.items():
                c = r.get(m, Q(0)) + c
                if c: r[m] = c
                else: r.pop(m, None)
        return r
    @staticmethod
    def scale(p, k): return {m: c * k for m, c in p.items()} if k else {}
    def times(self, p, q):
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                k = tuple(sorted(m + n))
                v = r.get(k, Q(0)) + c * d
                if v: r[k] = v
                else: r.pop(k, None)
        return r
    def num(self, t):
        """The linear term of a real term."""
        key = ('n', t.get_id())
        if key not in self.memo:
            self.keep.append(t)
            self.memo[key] = self.out(self.poly(t))
            self.keep.append(self.memo[key])
        return self.memo[key]
    def out(self, p):
        ts = []
        for m, c in sorted(p.items()):
            x = self.mono(m)
            if x is None: ts.append(z3.RealVal(str(c)))
            else: ts.append(x if c == 1 else z3.RealVal(str(c)) * x)
        return z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else z3.RealVal(0)
    def mono(self, m):
        if not m: return None
        key = ('m', m)
        if key in self.memo: return self.memo[key]
        r = None
        for i, a in enumerate(m):
            t = self.names[a]
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                rest = m[:i] + m[i + 1:]
                br = [self.out(self.times({rest: Q(1)}, self.poly(t.arg(j)))) for j in (1, 2)]
                r = z3.If(self.f(t.arg(0)), br[0], br[1])
                break
        if r is None:
            ts = sorted((self.names[a] for a in m), key=lambda t: (t.decl().kind() != z3.Z3_OP_TO_REAL, t.get_id()))
            r = ts[0]
            for t in ts[1:]: r = self.mulf(r, t)
        self.memo[key] = r
        self.keep.append(r)
        return r
