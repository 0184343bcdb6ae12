"""Symbolic values. All values are immutable; memory maps allocation keys to values."""
import z3
from fl import Fl, fresh_name
from mir import Unsupported

class Adt:
    __slots__ = ('kind', 'f', 'name')
    def __init__(self, kind, f, name=None):
        self.kind, self.f, self.name = kind, tuple(f), name
    def __repr__(self): return "%s%r" % (self.kind, self.f)

class Enum:
    __slots__ = ('kind', 'd', 'pay')
    def __init__(self, kind, d, pay): self.kind, self.d, self.pay = kind, d, pay
    def __repr__(self): return "Enum(%s,%s,%r)" % (self.kind, self.d, self.pay)

class Ref:
    __slots__ = ('key', 'path')
    def __init__(self, key, path=()): self.key, self.path = key, tuple(path)
    def __repr__(self): return "&%s%s" % (self.key, self.path)

class Seq:
    """A sequence of symbolic length; at(i) gives the element value for any index expression."""
    __slots__ = ('n', 'at', 'tag')
    def __init__(self, n, at, tag=None): self.n, self.at, self.tag = n, at, tag
    def __repr__(self): return "Seq(%s)" % (self.n,)

class SetV:
    """A finite set of fixed-shape integer tuples, given by its membership predicate."""
    __slots__ = ('mem', 'tmpl', 'card', 'enum')
    def __init__(self, mem, tmpl=None, card=None): self.mem, self.tmpl, self.card, self.enum = mem, tmpl, card, None

class NdArr:
    __slots__ = ('shape', 'at', 'tag')
    def __init__(self, shape, at, tag=None): self.shape, self.at, self.tag = tuple(shape), at, tag
    def __repr__(self): return "NdArr%s" % (self.shape,)

class Opaque:
    __slots__ = ('kind', 'term')
    def __init__(self, kind, term): self.kind, self.term = kind, term
    def __repr__(self): return "Opaque(%s,%s)" % (self.kind, self.term)

class Special:
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n
POISON = Special('POISON')
UNIT = Adt('tuple', ())

VARIANTS = {'Option': ['None', 'Some'], 'Result': ['Ok', 'Err'], 'ControlFlow': ['Continue', 'Break'],
            'ErrorKind': ['NotFound', 'PermissionDenied', 'ConnectionRefused', 'ConnectionReset', 'ConnectionAborted', 'NotConnected', 'AddrInUse',
                          'AddrNotAvailable', 'BrokenPipe', 'AlreadyExists', 'WouldBlock', 'InvalidInput', 'InvalidData', 'TimedOut', 'WriteZero',
                          'Interrupted', 'Unsupported', 'UnexpectedEof', 'OutOfMemory', 'Other'], 'Entry': ['Occupied', 'Vacant'],
            'Ordering': ['Less', 'Equal', 'Greater'], 'IntErrorKind': None}

def vidx(kind, name): return VARIANTS[kind].index(name) - (1 if kind == 'Ordering' else 0)

def isz(x): return isinstance(x, z3.ExprRef)
def isint(x): return (isinstance(x, int) and not isinstance(x, bool)) or (isz(x) and x.sort() == z3.IntSort())
def isbool(x): return isinstance(x, bool) or (isz(x) and x.sort() == z3.BoolSort())

def some(x): return Enum('Option', 1, {'Some': (x,)})
NONE = Enum('Option', 0, {})
def ok(x): return Enum('Result', 0, {'Ok': (x,)})
def err(x): return Enum('Result', 1, {'Err': (x,)})
def tup(*xs): return Adt('tuple', xs)
def mat(*xs): return Adt('mat', xs)
def point(*xs): return Adt('Point', (Adt('mat', xs),))
def pcoords(p): return p.f[0].f

def b_and(*xs):
    ys = []
    for x in xs:
        if x is True: continue
        if x is False: return False
        ys.append(x)
    if not ys: return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)
def b_or(*xs):
    ys = []
    for x in xs:
        if x is False: continue
        if x is True: return True
        ys.append(x)
    if not ys: return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)
def b_not(x):
    if isinstance(x, bool): return not x
    return z3.Not(x)
def b_imp(a, b): return b_or(b_not(a), b)
def zb(x): return z3.BoolVal(x) if isinstance(x, bool) else x

def simp(c):
    """Bool -> python bool when it simplifies to a constant."""
    if isinstance(c, bool): return c
    s = z3.simplify(c)
    if z3.is_true(s): return True
    if z3.is_false(s): return False
    return c
def simpi(x):
    if isinstance(x, int): return x
    s = z3.simplify(x)
    return s.as_long() if z3.is_int_value(s) else s

def same(a, b):
    """Structural identity of values (syntactic; False means 'maybe different')."""
    if a is b: return True
    if isz(a) or isz(b):
        if isz(a) and isz(b): return a.eq(b)
        return False
    if isinstance(a, (int, bool, str)) and isinstance(b, (int, bool, str)): return a == b and type(a) == type(b)
    if isinstance(a, Fl) and isinstance(b, Fl):
        if a.ty != b.ty: return False
        if isinstance(a.v, tuple): return a.v[1] == b.v[1] and a.v[0].eq(b.v[0])
        return a.v.eq(b.v)
    if isinstance(a, Adt) and isinstance(b, Adt):
        return a.kind == b.kind and a.name == b.name and len(a.f) == len(b.f) and all(same(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Enum) and isinstance(b, Enum):
        return a.kind == b.kind and same(a.d, b.d) and set(a.pay) == set(b.pay) and \
            all(len(a.pay[k]) == len(b.pay[k]) and all(same(x, y) for x, y in zip(a.pay[k], b.pay[k])) for k in a.pay)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.key == b.key and len(a.path) == len(b.path) and all(same_pe(x, y) for x, y in zip(a.path, b.path))
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a.kind == b.kind and same(a.term, b.term)
    return False
def same_pe(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(same_pe(p, q) for p, q in zip(x, y))
    return same(x, y)

def ite(FT, c, a, b):
    """Merge two values; raises Unsupported when they have no common shape."""
    if c is True: return a
    if c is False: return b
    if same(a, b): return a
    if isbool(a) and isbool(b): return z3.If(c, zb(a), zb(b))
    if isint(a) and isint(b): return z3.If(c, z3.IntVal(a) if isinstance(a, int) else a, z3.IntVal(b) if isinstance(b, int) else b)
    if isinstance(a, Fl) and isinstance(b, Fl) and a.ty == b.ty: return FT.ite(c, a, b)
    if isinstance(a, Adt) and isinstance(b, Adt) and a.kind == b.kind and a.name == b.name and len(a.f) == len(b.f):
        return Adt(a.kind, [ite(FT, c, x, y) for x, y in zip(a.f, b.f)], a.name)
    if isinstance(a, Enum) and isinstance(b, Enum) and a.kind == b.kind:
        pay = {}
        for k in set(a.pay) | set(b.pay):
            if k in a.pay and k in b.pay:
                pay[k] = tuple(ite(FT, c, x, y) for x, y in zip(a.pay[k], b.pay[k]))
            else:
                pay[k] = a.pay.get(k, b.pay.get(k))
        return Enum(a.kind, ite(FT, c, a.d, b.d), pay)
    if isinstance(a, Seq) and isinstance(b, Seq):
        def at(i, a=a, b=b, c=c):
            if isinstance(a.n, int) and a.n == 0: return b.at(i)
            if isinstance(b.n, int) and b.n == 0: return a.at(i)
            return ite(FT, c, a.at(i), b.at(i))
        return Seq(ite(FT, c, a.n, b.n), at)
    if isinstance(a, SetV) and isinstance(b, SetV):
        return SetV(lambda k, a=a, b=b, c=c: b_or(b_and(c, a.mem(k)), b_and(z3.Not(c), b.mem(k))), a.tmpl or b.tmpl)
    if isinstance(a, NdArr) and isinstance(b, NdArr) and len(a.shape) == len(b.shape):
        return NdArr([ite(FT, c, x, y) for x, y in zip(a.shape, b.shape)],
                     lambda ix, a=a, b=b, c=c: ite(FT, c, a.at(ix), b.at(ix)))
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.kind == b.kind and isz(a.term) and isz(b.term) and a.term.sort() == b.term.sort():
        return Opaque(a.kind, z3.If(c, a.term, b.term))
    if isinstance(a, Ref) and isinstance(b, Ref) and a.key == b.key and len(a.path) == len(b.path):
        p = []
        for x, y in zip(a.path, b.path):
            if same_pe(x, y): p.append(x)
            elif isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 'e':
                p.append(('e', ite(FT, c, x[1], y[1])))
            else: raise Unsupported("merge of references")
        return Ref(a.key, p)
    raise Unsupported("merge of %r and %r" % (type(a).__name__, type(b).__name__))

def subst(v, pairs):
    """Substitute z3 variables in a value."""
    if isz(v): return z3.substitute(v, *pairs)
    if isinstance(v, (int, bool, str)) or v is POISON or v is None: return v
    if isinstance(v, Fl):
        if isinstance(v.v, tuple): return Fl(v.ty, (z3.substitute(v.v[0], *pairs), v.v[1]))
        return Fl(v.ty, z3.substitute(v.v, *pairs))
    if isinstance(v, Adt): return Adt(v.kind, [subst(x, pairs) for x in v.f], v.name)
    if isinstance(v, Enum): return Enum(v.kind, subst(v.d, pairs), {k: tuple(subst(x, pairs) for x in p) for k, p in v.pay.items()})
    if isinstance(v, Ref): return Ref(v.key, [subst_pe(x, pairs) for x in v.path])
    if isinstance(v, Seq): return Seq(subst(v.n, pairs), lambda i, v=v: subst(v.at(i), pairs), v.tag)
    if isinstance(v, SetV): return SetV(lambda k, v=v: subst(v.mem(k), pairs), v.tmpl)
    if isinstance(v, NdArr): return NdArr([subst(x, pairs) for x in v.shape], lambda ix, v=v: subst(v.at(ix), pairs))
    if isinstance(v, Opaque): return Opaque(v.kind, subst(v.term, pairs))
    return v
def subst_pe(x, pairs):
    if isinstance(x, tuple): return tuple(subst_pe(y, pairs) for y in x)
    return subst(x, pairs)

def leaves(v):
    """Scalar leaves of a fixed-shape value, in order."""
    if isinstance(v, (Adt,)):
        out = []
        for x in v.f: out += leaves(x)
        return out
    if isinstance(v, (int, bool, Fl)) or isz(v): return [v]
    raise Unsupported("leaves of %r" % (v,))
def rebuild(tmpl, it):
    if isinstance(tmpl, Adt): return Adt(tmpl.kind, [rebuild(x, it) for x in tmpl.f], tmpl.name)
    return next(it)

def fresh_seq(FT, tmpl, name='seq', cap=2 ** 60):
    """A fresh sequence whose elements have the shape of tmpl (array-backed per scalar leaf)."""
    n = z3.Int(fresh_name(name + '_n'))
    def mk(t, nm):
        if isinstance(t, Adt): 
            subs = [mk(x, nm + '.%d' % k) for k, x in enumerate(t.f)]
            return lambda i: Adt(t.kind, [s(i) for s in subs], t.name)
        if isinstance(t, Enum):
            fd = z3.Function(fresh_name(nm + '_d'), z3.IntSort(), z3.IntSort())
            subs = {k: [mk(x, nm + k) for x in p] for k, p in t.pay.items()}
            return lambda i: Enum(t.kind, fd(i), {k: tuple(s(i) for s in ss) for k, ss in subs.items()})
        if isinstance(t, Fl):
            if isinstance(t.v, tuple):
                f = z3.Function(fresh_name(nm), z3.IntSort(), z3.RealSort())
                return lambda i: Fl(t.ty, (f(i), t.v[1]))
            f = z3.Function(fresh_name(nm), z3.IntSort(), t.v.sort())
            return lambda i: Fl(t.ty, f(i))
        if isbool(t):
            f = z3.Function(fresh_name(nm), z3.IntSort(), z3.BoolSort())
            return lambda i: f(i)
        if isint(t):
            f = z3.Function(fresh_name(nm), z3.IntSort(), z3.IntSort())
            return lambda i: f(i)
        if isinstance(t, Opaque) and isz(t.term):
            f = z3.Function(fresh_name(nm), z3.IntSort(), t.term.sort())
            return lambda i: Opaque(t.kind, f(i))
        raise Unsupported("fresh sequence of %r" % (t,))
    g = mk(tmpl, name)
    return Seq(n, lambda i: g(z3.IntVal(i) if isinstance(i, int) else i)), [n >= 0] + ([n <= cap] if cap else [])   # what memory can hold

def seq_of(xs):
    xs = list(xs)
    def at(i):
        if isinstance(i, int): return xs[i]
        raise Unsupported("symbolic index into a literal sequence")
    s = Seq(len(xs), at)
    return s

def seq_store(FT, s, i, v):
    def at(j, s=s, i=i, v=v):
        c = simp(j == i) if (isz(i) or isz(j)) else (i == j)
        if c is True: return v
        if c is False: return s.at(j)
        return ite(FT, c, v, s.at(j))
    return Seq(s.n, at)

def seq_push(FT, s, v):
    n = s.n
    def at(j, s=s, v=v, n=n):
        if isinstance(n, int) and n == 0: return v
        c = simp(j == n) if (isz(n) or isz(j)) else (j == n)
        if c is True: return v
        if c is False: return s.at(j)
        return ite(FT, c, v, s.at(j))
    return Seq(simpi(n + 1), at)

def seq_concat(FT, a, b):
    if isinstance(a.n, int) and a.n == 0: return b
    def at(j, a=a, b=b):
        c = simp(j < a.n) if (isz(a.n) or isz(j)) else (j < a.n)
        if c is True: return a.at(j)
        if c is False: return b.at(simpi(j - a.n))
        if isinstance(b.n, int) and b.n == 0: return a.at(j)
        return ite(FT, c, a.at(j), b.at(j - a.n))
    return Seq(simpi(a.n + b.n), at)
