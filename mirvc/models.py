"""Contracts assumed for the dependencies (core, alloc, std, nalgebra, ndarray, approx): the trusted base.

dispatch() receives a call to a function outside of the crate and returns [(state, value)]. Everything here is an
assumption about code outside of /repo; the evidence lists which of these were used by a check."""
import re
import z3
from mir import Unsupported
from vals import *
from fl import Fl, fresh_name
import fl

class It:
    REF, VAL, SET = 'It_ref', 'It_val', 'It_set'

def D(ex, st, v):
    while isinstance(v, Ref): v = ex.deref(st, v)
    return v

def mat_of(v):
    """Column vector behind a Point or a mat."""
    if isinstance(v, Adt):
        if v.kind == 'Point': return v.f[0]
        if v.kind in ('mat', 'array'): return v
        if v.kind == 'Translation': return v.f[0]
    return None

def v_len(ex, st, v):
    v = D(ex, st, v)
    if isinstance(v, Seq): return v.n
    m = mat_of(v)
    if m is not None: return len(m.f)
    if isinstance(v, Adt) and v.kind == 'dmat': return simpi(v.f[0] * v.f[1].n)
    if isinstance(v, SetV):
        if v.tmpl is None: return 0
        return set_enum(ex, st, v).n
    if isinstance(v, NdArr): return ex.prod(st, v.shape)
    raise Unsupported("length of %r" % (v,))

def v_eq(ex, st, a, b):
    if isinstance(a, Ref): a = D(ex, st, a)
    if isinstance(b, Ref): b = D(ex, st, b)
    if isinstance(a, Fl) and isinstance(b, Fl): return simp(ex.FT.eq(a, b))
    if isbool(a) and isbool(b): return simp(zb(a) == zb(b))
    if isint(a) and isint(b): return simp(a == b) if isz(a) or isz(b) else a == b
    if isinstance(a, Adt) and isinstance(b, Adt):
        if a.kind in ('mat', 'array') and b.kind in ('mat', 'array') or a.kind == b.kind:
            if len(a.f) != len(b.f): return False
            if a.kind in ('char', 'strlit'): return a.name == b.name
            return b_and(*[v_eq(ex, st, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, Enum) and isinstance(b, Enum) and a.kind == b.kind:
        r = [v_eq(ex, st, a.d, b.d)]
        for i, nm in enumerate(VARIANTS[a.kind] or []):
            if nm in a.pay and nm in b.pay:
                r.append(b_imp(simp(a.d == i), b_and(*[v_eq(ex, st, x, y) for x, y in zip(a.pay[nm], b.pay[nm])])))
        return simp(b_and(*r))
    if isinstance(a, Seq) and isinstance(b, Seq) and isinstance(a.n, int) and isinstance(b.n, int):
        return a.n == b.n and b_and(*[v_eq(ex, st, a.at(i), b.at(i)) for i in range(a.n)])
    if isinstance(a, Opaque) and isinstance(b, Opaque) and isz(a.term) and isz(b.term) and a.term.sort() == b.term.sort():
        return a.term == b.term
    raise Unsupported("equality of %r and %r" % (type(a).__name__, type(b).__name__))

def local_eq(ex, st, a, b):
    """== through the crate's own PartialEq when there is one."""
    va = D(ex, st, a)
    if isinstance(va, Adt):
        fns = [f for f in ex.prog.by_method.get('eq', []) if f.selfhead == va.kind and f.trait == 'PartialEq']
        if len(fns) == 1:
            ra = a if isinstance(a, Ref) else ex.alloc(st, a)
            rb = b if isinstance(b, Ref) else ex.alloc(st, b)
            while isinstance(ex.deref(st, ra), Ref): ra = ex.deref(st, ra)
            while isinstance(ex.deref(st, rb), Ref): rb = ex.deref(st, rb)
            return ex.run(fns[0], [ra, rb], st)
    return [(st, v_eq(ex, st, a, b))]

def v_clone(ex, st, v): return D(ex, st, v)

# ---- arithmetic on values ----------------------------------------------------------------------------
def scal(ex, st, op, a, b):
    """[(state, value)] of a scalar operation, with overflow panics for the integers."""
    r = ex.binop(op, a, b)
    if isint(r) and op in ('Add', 'Sub', 'Mul'):
        c = simp(b_and(simp(r >= -2 ** 63), simp(r < 2 ** 63)))
        if c is not True:
            return [(s, r) for s in ex.check_or_panic(st, c, "attempt to %s with overflow" % op.lower())]
    return [(st, r)]

def elementwise(ex, st, op, xs, ys):
    outs = [(st, [])]
    for x, y in zip(xs, ys):
        nxt = []
        for s, acc in outs:
            for s2, v in scal(ex, s, op, x, y): nxt.append((s2, acc + [v]))
        outs = nxt
    return outs

def arith(ex, st, op, a, b):
    a, b = D(ex, st, a), D(ex, st, b)
    if isinstance(a, Fl) and isinstance(b, Fl) or (isint(a) and isint(b)): return scal(ex, st, op, a, b)
    ma, mb = mat_of(a), mat_of(b)
    if ma is not None and mb is not None and op in ('Add', 'Sub'):
        if len(ma.f) != len(mb.f): raise Unsupported("dimension mismatch")
        pa, pb = a.kind == 'Point', b.kind == 'Point'
        if pa and pb and op == 'Add': raise Unsupported("point + point")
        w = (lambda f: Adt('Point', (Adt('mat', f),))) if (pa and not pb) else (lambda f: Adt('mat', f))
        return [(s, w(f)) for s, f in elementwise(ex, st, op, ma.f, mb.f)]
    if ma is not None and mb is None and isinstance(b, (Fl, int)) or (ma is not None and isz(b)):
        if op in ('Mul', 'Div'):
            w = (lambda f: Adt('Point', (Adt('mat', f),))) if a.kind == 'Point' else (lambda f: Adt('mat', f))
            return [(s, w(f)) for s, f in elementwise(ex, st, op, ma.f, [b] * len(ma.f))]
    if mb is not None and ma is None and op == 'Mul' and isinstance(a, (Fl, int)):
        w = (lambda f: Adt('Point', (Adt('mat', f),))) if b.kind == 'Point' else (lambda f: Adt('mat', f))
        return [(s, w(f)) for s, f in elementwise(ex, st, op, [a] * len(mb.f), mb.f)]
    if op == 'Mul' and isinstance(a, Adt) and a.kind == 'smat':
        R, C, ent = a.f[0], a.f[1], a.f[2].f
        def apply(col):
            out = []
            for r in range(R):
                acc = None
                for c in range(C):
                    t = ex.FT.mul(ent[r * C + c], col[c])
                    acc = t if acc is None else ex.FT.add(acc, t)
                out.append(acc)
            return Adt('mat', out)
        if isinstance(b, Adt) and b.kind == 'dmat':
            if b.f[0] != C: raise Unsupported("matrix product dimensions")
            s = b.f[1]
            return [(st, Adt('dmat', (R, Seq(s.n, lambda i, s=s: apply(s.at(i).f)))))]
        if mb is not None and len(mb.f) == C: return [(st, apply(mb.f))]
    raise Unsupported("%s of %r and %r" % (op, a, b))

# ---- iterators ---------------------------------------------------------------------------------------
def mk_ref_iter(ex, st, r):
    """Iterator over the elements behind a reference, by reference."""
    v = ex.deref(st, r)
    while isinstance(v, Ref): r, v = v, ex.deref(st, v)
    if isinstance(v, Adt) and v.kind == 'Point': return Adt('It_ref', (Ref(r.key, r.path + (0,)), 0, len(v.f[0].f)))
    if isinstance(v, Adt) and v.kind in ('mat', 'array'): return Adt('It_ref', (r, 0, len(v.f)))
    if isinstance(v, Seq): return Adt('It_ref', (r, 0, v.n))
    if isinstance(v, SetV): return set_iter(ex, st, v)
    if isinstance(v, Enum) and v.kind == 'Option':
        if isinstance(v.d, int):
            if v.d == 0: return Adt('It_val', (seq_of([]), 0, 0))
            return Adt('It_val', (seq_of([Ref(r.key, r.path + (('v', 'Some', 0),))]), 0, 1))
    if isinstance(v, NdArr):
        raise Unsupported("iteration of an ndarray")
    raise Unsupported("iteration over a reference to %r" % (v,))

class SetEnum:
    """Ghost enumeration of a set in an arbitrary order without repetition."""
    def __init__(self, ex, sv):
        t = sv.tmpl
        self.sv = sv
        self.n = z3.Int(fresh_name('set_n'))
        k = len(leaves(t))
        self.e = [z3.Function(fresh_name('enum'), z3.IntSort(), z3.IntSort()) for _ in range(k)]
        self.idx = z3.Function(fresh_name('idx'), *([z3.IntSort()] * (k + 1)))
        self.tmpl = t
    def at(self, i): return rebuild(self.tmpl, iter([f(i) for f in self.e]))
    def facts_elem(self, i):
        """Element i is a member and its index is i."""
        x = tuple(f(i) for f in self.e)
        return [zb(self.sv.mem(x)), self.idx(*x) == i]
    def facts_key(self, x):
        """x is a member iff it occurs at its index."""
        i = self.idx(*x)
        return [zb(self.sv.mem(x)) == z3.And(i >= 0, i < self.n, *[f(i) == c for f, c in zip(self.e, x)])]

def set_enum(ex, st, v):
    if v.enum is None: v.enum = SetEnum(ex, v)
    en = v.enum
    st.pc.append(z3.And(en.n >= 0, en.n < 2 ** 60))      # an element takes at least 8 of at most 2^63 bytes
    for c in ex.skolem_cells: st.pc += en.facts_key(c)
    return en
def set_iter(ex, st, v):
    if v.tmpl is None:
        # never inserted into: the empty set
        return Adt('It_val', (seq_of([]), 0, 0))
    en = set_enum(ex, st, v)
    ex.set_enums.append(en)
    return Adt('It_set', (Opaque('setenum', en), 0, en.n))

def into_iter(ex, st, v):
    """IntoIterator::into_iter by value or by reference."""
    if isinstance(v, Ref):
        x = ex.deref(st, v)
        if isinstance(x, Ref): return into_iter(ex, st, x)
        if isinstance(x, Adt) and (x.kind.startswith('It_') or x.kind == 'Range'): return Adt('It_by', (v,))
        return mk_ref_iter(ex, st, v)
    if isinstance(v, Adt) and (v.kind.startswith('It_') or v.kind in ('Range', 'RangeInclusive')):
        if v.kind == 'RangeInclusive': return Adt('Range', (v.f[0], simpi(v.f[1] + 1)))
        if v.kind == 'It_chunks':
            a = seq_of_iter(ex, st, v)
            if a is not None: return Adt('It_val', (a, 0, a.n))
        return v
    if isinstance(v, Seq): return Adt('It_val', (v, 0, v.n))
    if isinstance(v, Adt) and v.kind in ('mat', 'array'): return Adt('It_val', (seq_of(v.f), 0, len(v.f)))
    if isinstance(v, SetV): 
        i = set_iter(ex, st, v)
        return Adt('It_cloned', (i,)) if i.kind == 'It_set' else i
    if isinstance(v, Enum) and v.kind == 'Option' and isinstance(v.d, int):
        return Adt('It_val', (seq_of(v.pay['Some']) if v.d else seq_of([]), 0, v.d))
    if isinstance(v, Opaque): return ex.ext.into_iter(ex, st, v)
    raise Unsupported("into_iter of %r" % (v,))

def pos_pe(i): return i if isinstance(i, int) else ('e', i)

def it_next(ex, st, it):
    """[(state, iterator', element or None)]"""
    k = it.kind
    if k == 'Range':
        a, b = it.f
        out = []
        for s, t in ex.branch(st, a < b):
            if t: out.append((s, Adt('Range', (simpi(a + 1), b)), a))
            else: out.append((s, it, None))
        return out
    if k == 'It_chunks':
        a = seq_of_iter(ex, st, it)
        if a is not None: return it_next(ex, st, Adt('It_val', (a, 0, a.n)))
    if k in ('It_ref', 'It_val', 'It_set'):
        src, pos, end = it.f
        out = []
        for s, t in ex.branch(st, pos < end):
            if not t: out.append((s, it, None)); continue
            if k == 'It_ref':
                e = Ref(src.key, src.path + (pos_pe(pos),))
            elif k == 'It_val': e = src.at(pos)
            else:
                en = src.term
                s.pc += en.facts_elem(pos)
                e = ex.alloc(s, en.at(pos))
                if ex.set_by_value: e = en.at(pos)
            out.append((s, Adt(k, (src, simpi(pos + 1), end)), e))
        return out
    if k == 'It_rev':
        src = it.f[0]
        if src.kind in ('It_ref', 'It_val'):
            o, pos, end = src.f
            out = []
            for s, t in ex.branch(st, pos < end):
                if not t: out.append((s, it, None)); continue
                e = simpi(end - 1)
                el = Ref(o.key, o.path + (pos_pe(e),)) if src.kind == 'It_ref' else o.at(e)
                out.append((s, Adt('It_rev', (Adt(src.kind, (o, pos, e)),)), el))
            return out
        if src.kind == 'Range':
            a, b = src.f
            out = []
            for s, t in ex.branch(st, a < b):
                if not t: out.append((s, it, None)); continue
                e = simpi(b - 1)
                out.append((s, Adt('It_rev', (Adt('Range', (a, e)),)), e))
            return out
        raise Unsupported("rev of " + src.kind)
    if k == 'It_by':
        out = []
        for s, i2, e in it_next(ex, st, ex.deref(st, it.f[0])):
            ex.store_ref(s, it.f[0], i2)
            out.append((s, it, e))
        return out
    if k == 'It_map':
        out = []
        for s, i2, e in it_next(ex, st, it.f[0]):
            n = Adt(k, (i2, it.f[1]))
            if e is None: out.append((s, n, None))
            else: out += [(s2, n, v) for s2, v in ex.call_closure(s, it.f[1], [e])]
        return out
    if k == 'It_cloned':
        return [(s, Adt(k, (i2,)), None if e is None else D(ex, s, e)) for s, i2, e in it_next(ex, st, it.f[0])]
    if k == 'It_enum':
        return [(s, Adt(k, (i2, simpi(it.f[1] + (1 if e is not None else 0)))), None if e is None else tup(it.f[1], e))
                for s, i2, e in it_next(ex, st, it.f[0])]
    if k == 'It_zip':
        out = []
        for s, a2, x in it_next(ex, st, it.f[0]):
            if x is None: out.append((s, Adt(k, (a2, it.f[1])), None)); continue
            for s2, b2, y in it_next(ex, s, it.f[1]):
                out.append((s2, Adt(k, (a2, b2)), None if y is None else tup(x, y)))
        return out
    if k == 'It_chain':
        out = []
        for s, a2, x in it_next(ex, st, it.f[0]):
            if x is not None: out.append((s, Adt(k, (a2, it.f[1])), x)); continue
            for s2, b2, y in it_next(ex, s, it.f[1]): out.append((s2, Adt(k, (a2, b2)), y))
        return out
    if k in ('It_take',):
        n = it.f[1]
        out = []
        for s, t in ex.branch(st, n > 0 if isz(n) else n > 0):
            if not t: out.append((s, it, None)); continue
            for s2, i2, e in it_next(ex, s, it.f[0]): out.append((s2, Adt(k, (i2, simpi(n - 1))), e))
        return out
    if k in ('It_filter_map', 'It_filter'):
        s0 = seq_of_iter(ex, st, it)
        if s0 is not None: return it_next(ex, st, Adt('It_val', (s0, 0, s0.n)))
        r = set_iter_of(ex, st, it)
        if r is not None:
            i2 = set_iter(ex, st, r[0])
            return it_next(ex, st, Adt('It_cloned', (i2,)) if r[1] else i2)
        n = it_len(ex, st, it.f[0])
        if isinstance(n, int):
            out, work = [], [(st, it.f[0])]
            while work:
                s, i = work.pop(0)
                for s2, i2, e in it_next(ex, s, i):
                    nn = Adt(k, (i2, it.f[1]))
                    if e is None: out.append((s2, nn, None)); continue
                    if k == 'It_filter':
                        r = ex.alloc(s2, e)
                        for s3, c in ex.call_closure(s2, it.f[1], [r]):
                            for s4, t in ex.branch(s3, c):
                                if t: out.append((s4, nn, e))
                                else: work.append((s4, i2))
                    else:
                        for s3, o in ex.call_closure(s2, it.f[1], [e]):
                            for s4, t in ex.branch(s3, simp(o.d == 1)):
                                if t: out.append((s4, nn, o.pay['Some'][0]))
                                else: work.append((s4, i2))
            return out
        raise Unsupported("filtering an iterator of symbolic length")
    if k == 'It_flat_map':
        s0 = seq_of_iter(ex, st, it)
        if s0 is not None: return it_next(ex, st, Adt('It_val', (s0, 0, s0.n)))
    if k == 'It_ext': return ex.ext.it_next(ex, st, it)
    raise Unsupported("next of " + k)

def it_len(ex, st, it):
    k = it.kind
    if k == 'Range':
        a, b = it.f
        if isinstance(a, int) and isinstance(b, int): return max(0, b - a)
        return z3.If(b > a, b - a, z3.IntVal(0))
    if k in ('It_ref', 'It_val', 'It_set'): return simpi(it.f[2] - it.f[1])
    if k in ('It_map', 'It_cloned', 'It_enum', 'It_rev'): return it_len(ex, st, it.f[0])
    if k == 'It_zip':
        a, b = it_len(ex, st, it.f[0]), it_len(ex, st, it.f[1])
        if a is None or b is None: return None
        if isinstance(a, int) and isinstance(b, int): return min(a, b)
        return simpi(z3.If(a < b, a, b))
    if k == 'It_chain':
        a, b = it_len(ex, st, it.f[0]), it_len(ex, st, it.f[1])
        return None if a is None or b is None else simpi(a + b)
    if k == 'It_take':
        a, b = it_len(ex, st, it.f[0]), it.f[1]
        if isinstance(a, int) and isinstance(b, int): return min(a, b)
        return None if a is None else simpi(z3.If(a < b, a, b))
    if k == 'It_by': return it_len(ex, st, ex.deref(st, it.f[0]))
    return None

def conc(x): return isinstance(x, int)

def set_filter(ex, st, v, clo, arg):
    """The elements of a set that a closure without effects accepts; None when that cannot be expressed."""
    if v.tmpl is None: return v
    xs = [z3.Int(fresh_name('rk')) for _ in leaves(v.tmpl)]
    s = st.fork()
    r = arg(s, rebuild(v.tmpl, iter(xs)))
    n0, np = fl._fresh[0], len(ex.panics)
    s.pc.append(zb(v.mem(tuple(xs))))
    outs = ex.call_closure(s, ex.alloc(s, clo, 'clo') if not isinstance(clo, Ref) else clo, [r])
    if len(outs) != 1 or fl._fresh[0] != n0 or any(k not in outs[0][0].mem or not (outs[0][0].mem[k] is x or same(outs[0][0].mem[k], x)) for k, x in st.mem.items()):
        del ex.panics[np:]
        return None
    keep = outs[0][1]
    return SetV(lambda x: b_and(v.mem(x), subst(keep, [(p, z3.IntVal(q) if conc(q) else q) for p, q in zip(xs, x)])), v.tmpl)

def set_iter_of(ex, st, it):
    """(set, are the elements values?) of an iterator over a whole set, possibly filtered."""
    if it.kind == 'It_set' and conc(it.f[1]) and it.f[1] == 0 and it.f[2] is it.f[0].term.n: return it.f[0].term.sv, len(it.f) > 3
    if it.kind == 'It_cloned':
        r = set_iter_of(ex, st, it.f[0])
        return None if r is None else (r[0], True)
    if it.kind == 'It_filter':
        r = set_iter_of(ex, st, it.f[0])
        if r is None: return None
        arg = (lambda s, e: ex.alloc(s, e)) if r[1] else (lambda s, e: ex.alloc(s, ex.alloc(s, e)))
        v = set_filter(ex, st, r[0], it.f[1], arg)
        return None if v is None else (v, r[1])
    return None

def seq_of_iter(ex, st, it):
    """The remaining elements as a lazily evaluated sequence, when the iterator is pure; else None."""
    k = it.kind
    if k in ('It_cloned', 'It_flat_map'): st = st.fork()       # what is read later is read in this state
    if k == 'It_val':
        s, p, e = it.f
        if p == 0 and conc(p): return s if s.n is e else Seq(e, s.at, s.tag)
        return Seq(simpi(e - p), lambda i: s.at(simpi(i + p)))
    if k == 'It_ref':
        r, p, e = it.f
        return Seq(simpi(e - p), lambda i: Ref(r.key, r.path + (pos_pe(simpi(i + p)),)))
    if k == 'Range':
        a, b = it.f
        return Seq(it_len(ex, st, it), lambda i: simpi(a + i))
    if k == 'It_cloned':
        s = values_seq(ex, it.f[0])
        if s is not None: return s
        s = seq_of_iter(ex, st, it.f[0])
        if s is None: return None
        g = s.tag
        tag = None
        if g and g[0] == 'grp': tag = ('grp', g[1], g[2], lambda q: [D(ex, st, x) for x in g[3](q)])
        return Seq(s.n, lambda i: D(ex, st, s.at(i)), tag)
    if k == 'It_enum':
        s = seq_of_iter(ex, st, it.f[0])
        return None if s is None else Seq(s.n, lambda i: tup(simpi(it.f[1] + i), s.at(i)))
    if k == 'It_zip':
        a, b = seq_of_iter(ex, st, it.f[0]), seq_of_iter(ex, st, it.f[1])
        if a is None or b is None: return None
        return Seq(it_len(ex, st, it), lambda i: tup(a.at(i), b.at(i)))
    if k == 'It_chain':
        a, b = seq_of_iter(ex, st, it.f[0]), seq_of_iter(ex, st, it.f[1])
        return None if a is None or b is None else seq_concat(ex.FT, a, b)
    if k == 'It_rev':
        a = seq_of_iter(ex, st, it.f[0])
        return None if a is None else Seq(a.n, lambda i: a.at(simpi(a.n - 1 - i)))
    if k == 'It_take':
        a = seq_of_iter(ex, st, it.f[0])
        return None if a is None else Seq(it_len(ex, st, it), a.at)
    if k == 'It_map':
        a = seq_of_iter(ex, st, it.f[0])
        if a is None: return None
        return pure_map(ex, st, a, it.f[1])
    if k == 'It_flat_map':
        a = seq_of_iter(ex, st, it.f[0])
        if a is None: return None
        m = pure_map(ex, st, a, it.f[1])
        if m is None: return None
        probe = m.at(z3.Int(fresh_name('fm')))
        def inner(v):
            x = into_iter(ex, st, v) if not (isinstance(v, Adt) and v.kind.startswith('It_')) else v
            return seq_of_iter(ex, st, x)
        p = inner(probe)
        if p is None or not conc(p.n) or p.n == 0: return None
        N = p.n
        def group(q):
            s = inner(m.at(q))
            return [s.at(j) for j in range(N)]
        def at(i):
            if conc(i): return group(i // N)[i % N]
            g = group(i / N)
            r = g[N - 1]
            if any(isinstance(x, Ref) for x in g): raise Unsupported("flattened references at a symbolic index")
            for j in range(N - 2, -1, -1): r = ite(ex.FT, i % N == j, g[j], r)
            return r
        return Seq(simpi(m.n * N), at, ('grp', N, m.n, group))
    if k in ('It_filter_map', 'It_filter'):
        a = seq_of_iter(ex, st, it.f[0])
        if a is None or conc(a.n): return None
        return periodic_filter(ex, st, a, it.f[1], k)
    if k == 'It_chunks':
        src, n, exact = it.f
        s = D(ex, st, src)
        if not conc(n): return None
        q = z3.Int(fresh_name('q'))
        r, _ = ex.proves(st.pc, s.n % n == 0)
        if r != 'proved': return None
        src = root(ex, st, src)
        def at(i): return Ref(src.key, src.path + (('s', simpi(i * n), n),))
        return Seq(simpi(s.n / n) if isz(s.n) else s.n // n, at)
    return None

def values_seq(ex, it):
    """The elements that an iterator over sets refers to."""
    if it.kind == 'It_set':
        en, p, e = it.f[0].term, it.f[1], it.f[2]
        return Seq(simpi(e - p), lambda i: en.at(simpi(p + i) if not conc(simpi(p + i)) else z3.IntVal(simpi(p + i))))
    if it.kind == 'It_cloned': return values_seq(ex, it.f[0])
    if it.kind == 'It_chain':
        a, b = values_seq(ex, it.f[0]), values_seq(ex, it.f[1])
        return None if a is None or b is None else seq_concat(ex.FT, a, b)
    return None

def with_var(ex, st, f):
    """Evaluate f(state, i) for a symbolic i; (i, outcomes, pure?)"""
    i = z3.Int(fresh_name('i'))
    n0 = fl._fresh[0]
    h0 = ex.heap
    s = st.fork()
    keys = set(s.mem)
    outs = f(s, i)
    pure = fl._fresh[0] == n0
    return i, outs, pure, keys

def pure_map(ex, st, a, clo):
    np = len(ex.panics)
    if conc(a.n) and a.n <= 16:
        vals, s = [], st.fork()
        before = dict(s.mem)
        for j in range(a.n):
            outs = ex.call_closure(s, clo, [a.at(j)])
            if len(outs) != 1 or len(outs[0][0].pc) != len(s.pc): del ex.panics[np:]; return None
            s, v = outs[0]
            v = purify(ex, s, v, before)
            if v is None: del ex.panics[np:]; return None
            vals.append(v)
        if any(k not in s.mem or not (s.mem[k] is x or same(s.mem[k], x)) for k, x in before.items()):
            del ex.panics[np:]
            return None
        return seq_of(vals)
    i = z3.Int(fresh_name('i'))
    s = st.fork()
    s.pc += [i >= 0, zb(simp(i < a.n))]
    n0 = fl._fresh[0]
    base = len(s.pc)
    before = dict(s.mem)
    try:
        outs = ex.call_closure(s, clo, [a.at(i)])
    except Unsupported:
        raise
    if len(outs) != 1 or fl._fresh[0] != n0:
        del ex.panics[np:]
        return None
    s2, v = outs[0]
    if any(k not in s2.mem or not (s2.mem[k] is x or same(s2.mem[k], x)) for k, x in before.items()):
        del ex.panics[np:]
        return None
    v = purify(ex, s2, v, before)
    if v is None:
        del ex.panics[np:]
        return None
    return Seq(a.n, lambda j: subst(v, [(i, z3.IntVal(j) if conc(j) else j)]))

def purify(ex, st, v, before):
    """Drop references into temporaries."""
    if isinstance(v, Ref):
        return v if v.key in before else None
    if isinstance(v, Adt):
        fs = [purify(ex, st, x, before) for x in v.f]
        return None if any(x is None for x in fs) else Adt(v.kind, fs, v.name)
    if isinstance(v, Enum):
        for p in v.pay.values():
            for x in p:
                if purify(ex, st, x, before) is None: return None
    return v

def periodic_filter(ex, st, a, clo, kind):
    for P in (1, 2, 3, 4, 5, 6, 8):
        q = z3.Int(fresh_name('q'))
        sel, okk = [], True
        if P > 1:
            r, _ = ex.proves(st.pc, a.n % P == 0)
            if r != 'proved': continue
        for r in range(P):
            s = st.fork()
            s.pc += [q >= 0, P * q + r < a.n]
            np, n0 = len(ex.panics), fl._fresh[0]
            e = a.at(P * q + r)
            if kind == 'It_filter':
                outs = ex.call_closure(s, clo, [ex.alloc(s, e)])
            else: outs = ex.call_closure(s, clo, [e])
            if len(outs) != 1 or fl._fresh[0] != n0: okk = False; break
            s2, v = outs[0]
            d = (simp(v.d == 1) if isz(v.d) else v.d == 1) if kind == 'It_filter_map' else simp(v)
            if not isinstance(d, bool):
                if ex.proves(s2.pc, d)[0] == 'proved': d = True
                elif ex.proves(s2.pc, b_not(d))[0] == 'proved': d = False
                else: okk = False; break
            if d: sel.append(v.pay['Some'][0] if kind == 'It_filter_map' else e)
        if not okk: continue
        K = len(sel)
        nq = simpi(a.n / P) if isz(a.n) else a.n // P
        if K == 0: return seq_of([])
        def group(x, sel=sel, q=q): return [subst(v, [(q, z3.IntVal(x) if conc(x) else x)]) for v in sel]
        def at(i, group=group, K=K):
            if conc(i): return group(i // K)[i % K]
            if K == 1: return group(i)[0]
            g = group(i / K)
            r = g[K - 1]
            for j in range(K - 2, -1, -1): r = ite(ex.FT, i % K == j, g[j], r)
            return r
        return Seq(simpi(nq * K), at, ('grp', K, nq, group))
    return None

def consume(ex, st, it, acc, step, label):
    """Fold: step(st, acc, elem) -> [(st, acc)]; [(state, acc)]. Symbolic lengths are cut with an inferred invariant."""
    n = it_len(ex, st, it)
    if conc(n) or (n is None and it.kind in ('It_filter', 'It_filter_map', 'It_take', 'It_chain', 'It_flat_map')
                   and conc(it_len(ex, st, it.f[0]))):
        out, work = [], [(st, it, acc)]
        while work:
            s, i, a = work.pop()
            for s2, i2, e in it_next(ex, s, i):
                if e is None: out.append((s2, a)); continue
                for s3, a2 in step(s2, a, e): work.append((s3, i2, a2))
        return out
    ri, ra = ex.alloc(st, it, 'iter'), ex.alloc(st, acc, 'acc')
    def body(h):
        backs, outs = [], []
        for s2, i2, e in it_next(ex, h, ex.deref(h, ri)):
            ex.store_ref(s2, ri, i2)
            if e is None: outs.append(('done', s2, None)); continue
            for s3, a2 in step(s2, ex.deref(s2, ra), e):
                ex.store_ref(s3, ra, a2)
                backs.append(s3)
        return backs, outs
    return [(s, ex.deref(s, ra)) for _, s, _ in ex.cut_loop(st, body, label)]

def elem_tmpl(ex, st, s):
    return s.at(0) if conc(s.n) and s.n > 0 else s.at(z3.Int(fresh_name('ti')))

def collect_seq(ex, st, it, label='collect'):
    """[(state, Seq)] of all the elements of an iterator."""
    s = seq_of_iter(ex, st, it)
    if s is not None: return [(st, s)]
    return consume(ex, st, it, Seq(0, lambda i: (_ for _ in ()).throw(Unsupported("empty"))),
                   lambda s2, a, e: [(s2, seq_push(ex.FT, a, e))], label)

# ---- dispatch ----------------------------------------------------------------------------------------
FIXED = {}
def model(*names):
    def deco(f):
        for n in names: FIXED[n] = f
        return f
    return deco

def dispatch(ex, c, args, st):
    m = c.method
    ex.models_used.add(short_callee(c))
    if ex.ext is not None:
        r = ex.ext.dispatch(ex, c, args, st)
        if r is not None: return r
    f = FIXED.get(m)
    if f is None: raise Unsupported("no contract for external function %s" % c.s[:160])
    r = f(ex, c, args, st)
    if r is None: raise Unsupported("no contract for external function %s on these values" % c.s[:160])
    return r

def short_callee(c):
    h = c.head or ''
    return '%s::%s' % (h, c.method) if h else c.method

def one(st, v): return [(st, v)]

@model('clone', 'cloned_value', 'to_owned', 'borrow', 'as_ref_value', 'into_owned', 'clone_owned')
def m_clone(ex, c, a, st): return one(st, D(ex, st, a[0]))

@model('deref', 'deref_mut', 'as_slice', 'as_mut_slice', 'as_ref', 'as_mut', 'borrow_mut', 'as_path', 'coords')
def m_deref(ex, c, a, st):
    v = ex.deref(st, a[0])
    if isinstance(v, Ref): return one(st, v)
    if isinstance(v, Enum) and v.kind == 'Option' and c.method in ('as_ref', 'as_mut'):
        if 'Some' not in v.pay: return one(st, NONE)
        return one(st, Enum('Option', v.d, {'Some': (Ref(a[0].key, a[0].path + (('v', 'Some', 0),)),)}))
    if isinstance(v, Adt) and v.kind == 'Point' and c.method.startswith('deref'): return one(st, Ref(a[0].key, a[0].path + (0,)))
    return one(st, a[0])

@model('from', 'into')
def m_from(ex, c, a, st):
    v = a[0]
    x = D(ex, st, v)
    target = c.headty if c.method == 'from' else (c.traitty if c.trait == 'Into' else '')
    if 'SliceOrIndex' in target:
        if isinstance(x, Adt) and x.kind == 'Range': return one(st, Adt('SliceRange', x.f))
        if isinstance(x, Adt) and x.kind == 'RangeTo': return one(st, Adt('SliceRange', (0, x.f[0])))
        if isinstance(x, Adt) and x.kind == 'RangeFrom': return one(st, Adt('SliceRange', (x.f[0], NONE)))
        if isinstance(x, Adt) and x.kind in ('RangeFull', 'unitvar', 'fnitem') and 'RangeFull' in (x.kind + str(x.name)):
            return one(st, Adt('SliceRange', (0, NONE)))
        return None
    if c.method == 'into':
        m = re.match(r'Into<(.*)>$', target)
        t = m.group(1) if m else ''
        if t.startswith('['):
            mm = mat_of(x)
            return one(st, Adt('array', mm.f)) if mm is not None else None
        target = t or c.headty
    h = re.sub(r"^&('\w+ )?(mut )?", '', target).split('<')[0].split('::')[-1]
    if h in ('Point', 'Cell') and mat_of(x) is not None:
        if isinstance(x, Adt) and x.kind == 'Point': return one(st, x)
        return one(st, Adt('Point', (Adt('mat', mat_of(x).f),)))
    if h in ('Matrix', 'Vector') and mat_of(x) is not None: return one(st, Adt('mat', mat_of(x).f))
    if h in ('f32', 'f64') and isinstance(x, Fl): return one(st, ex.FT.convert(x, h))
    if h in ('isize', 'i64', 'i32', 'usize', 'u64', 'u32', 'i16', 'u8', 'u16', 'i128'):
        if isbool(x): return one(st, ite(ex.FT, x, 1, 0))
        if isint(x): return one(st, x)
    if h == 'Translation' and mat_of(x) is not None: return one(st, Adt('Translation', (Adt('mat', mat_of(x).f),)))
    if h == 'Vec' and isinstance(x, (Seq, Adt)):
        return one(st, x if isinstance(x, Seq) else seq_of(x.f))
    if h in ('Option',): return one(st, some(v))
    if isinstance(v, (Seq, SetV, NdArr)): return one(st, v)
    return None

@model('index', 'index_mut')
def m_index(ex, c, a, st):
    r, i = a
    v = ex.deref(st, r)
    while isinstance(v, Ref): r, v = v, ex.deref(st, v)
    i = D(ex, st, i) if isinstance(i, Ref) else i
    if isinstance(v, NdArr):
        ix = nd_index(i)
        out = [st]
        cond = b_and(*[b_and(simp(x >= 0), simp(x < n)) for x, n in zip(ix, v.shape)])
        return [(s, Ref(r.key, r.path + (('n', tuple(ix)),))) for s in ex.check_or_panic(st, cond, "ndarray: index out of bounds")]
    if isinstance(v, Adt) and v.kind == 'ndview':
        ix = nd_index(i)
        base, off, shp = v.f[0], v.f[1].f, v.f[2].f
        cond = b_and(*[b_and(simp(x >= 0), simp(x < n)) for x, n in zip(ix, shp)])
        return [(s, Ref(base.key, base.path + (('n', tuple(simpi(x + o) for x, o in zip(ix, off))),)))
                for s in ex.check_or_panic(st, cond, "ndarray: index out of bounds")]
    if isinstance(v, Adt) and v.kind == 'smat':
        t = i
        if isinstance(t, Adt) and len(t.f) == 2 and all(conc(x) for x in t.f):
            return one(st, Ref(r.key, r.path + (2, t.f[0] * v.f[1] + t.f[1])))
        return None
    if isinstance(v, Adt) and v.kind == 'dmat':
        if isinstance(i, Adt) and len(i.f) == 2 and conc(i.f[0]):
            cond = b_and(i.f[0] < v.f[0], simp(i.f[1] >= 0), simp(i.f[1] < v.f[1].n))
            return [(s, Ref(r.key, r.path + (1, pos_pe(i.f[1]), i.f[0]))) for s in ex.check_or_panic(st, cond, "index out of bounds")]
        return None
    if isinstance(i, Adt) and i.kind in ('Range', 'RangeFrom', 'RangeTo', 'RangeFull') and isinstance(v, (Seq, Adt)):
        n = v_len(ex, st, v)
        lo = i.f[0] if i.kind in ('Range', 'RangeFrom') else 0
        hi = i.f[1] if i.kind == 'Range' else (i.f[0] if i.kind == 'RangeTo' else n)
        cond = b_and(simp(lo <= hi) if not (conc(lo) and conc(hi)) else lo <= hi, simp(hi <= n) if isz(hi) or isz(n) else hi <= n)
        out = []
        for s in ex.check_or_panic(st, cond, "range out of bounds"):
            if isinstance(v, Adt) and not (conc(lo) and conc(hi) and v.kind in ('array', 'mat')): return None
            out.append((s, Ref(r.key, r.path + (('s', lo, simpi(hi - lo)),))))
        return out
    if isinstance(v, Adt) and v.kind == 'Point': r, v = Ref(r.key, r.path + (0,)), v.f[0]
    if isinstance(i, Adt) and i.kind == 'tuple' and len(i.f) == 2: i = i.f[0]
    n = v_len(ex, st, v)
    if not isint(i): return None
    cond = b_and(simp(i >= 0) if isz(i) else i >= 0, simp(i < n) if isz(i) or isz(n) else i < n)
    return [(s, Ref(r.key, r.path + (pos_pe(i),))) for s in ex.check_or_panic(st, cond, "index out of bounds")]

def nd_index(i):
    if isinstance(i, Adt) and i.kind == 'Dim': i = i.f[0]
    if isinstance(i, Adt) and i.kind in ('array', 'tuple'): return list(i.f)
    if isint(i): return [i]
    raise Unsupported("ndarray index %r" % (i,))

@model('get_unchecked', 'uget')
def m_uget(ex, c, a, st): return m_index(ex, c, a, st)

@model('get', 'get_mut')
def m_get(ex, c, a, st):
    r = a[0]
    v = ex.deref(st, r)
    while isinstance(v, Ref): r, v = v, ex.deref(st, v)
    i = D(ex, st, a[1])
    if isinstance(v, NdArr):
        ix = nd_index(i)
        cond = simp(b_and(*[b_and(simp(x >= 0), simp(x < n)) for x, n in zip(ix, v.shape)]))
        return [(s, some(Ref(r.key, r.path + (('n', tuple(ix)),))) if t else NONE) for s, t in ex.branch(st, cond)]
    if isinstance(v, (Seq, Adt)) and isint(i):
        n = v_len(ex, st, v)
        p = (0,) if isinstance(v, Adt) and v.kind == 'Point' else ()
        return [(s, some(Ref(r.key, r.path + p + (pos_pe(i),))) if t else NONE) for s, t in
                ex.branch(st, simp(b_and(simp(zb(i >= 0)), simp(zb(i < n)))))]
    return None

@model('iter', 'iter_mut')
def m_iter(ex, c, a, st):
    v = ex.deref(st, a[0])
    if isinstance(v, Adt) and v.kind == 'dmat':
        raise Unsupported("iteration of a dynamic matrix")
    return one(st, mk_ref_iter(ex, st, a[0]))

@model('into_iter', 'drain')
def m_into_iter(ex, c, a, st):
    if c.method == 'drain':
        if isinstance(a[1], Adt) and a[1].kind != 'RangeFull' and a[1].name != 'RangeFull': return None
        v = D(ex, st, a[0])
        ex.store_ref(st, a[0], Seq(0, v.at))
        return one(st, Adt('It_val', (v, 0, v.n)))
    if isinstance(a[0], Ref) and isinstance(ex.deref(st, a[0]), Opaque): return one(st, ex.ext.into_iter(ex, st, a[0]))
    v = a[0]
    if isinstance(v, Enum) and v.kind == 'Option' and not isinstance(v.d, int):
        return [(s, Adt('It_val', (seq_of(v.pay['Some']) if t else seq_of([]), 0, int(t)))) for s, t in ex.branch(st, v.d == 1)]
    return one(st, into_iter(ex, st, v))

@model('call', 'call_mut', 'call_once')
def m_call(ex, c, a, st):
    if not (isinstance(a[1], Adt) and ('as Fn<' in c.s or 'as FnMut<' in c.s or 'as FnOnce<' in c.s)): return None
    return ex.call_closure(st, a[0], list(a[1].f))

@model('from_fn_generic')
def m_from_fn_generic(ex, c, a, st):
    if len(a) != 3 or a[0] != ex.N: return None
    c.method = 'from_fn'
    return m_from_vec(ex, c, a[1:], st)

@model('name')
def m_dim_name(ex, c, a, st):
    if a or c.trait != 'DimName': return None
    m = re.match(r'<(?:\w+::)*U(\d+) as', c.s)
    return one(st, int(m.group(1)) if m else ex.N)

@model('next')
def m_next(ex, c, a, st):
    r = a[0]
    it = ex.deref(st, r)
    while isinstance(it, Ref): r, it = it, ex.deref(st, it)
    out = []
    ex.set_by_value = 'IntoIter' in c.headty
    try:
        for s, i2, e in it_next(ex, st, it):
            ex.store_ref(s, r, i2)
            out.append((s, NONE if e is None else some(e)))
    finally: ex.set_by_value = False
    return out

@model('len', 'count_elems')
def m_len(ex, c, a, st):
    v = D(ex, st, a[0])
    if isinstance(v, Adt) and v.kind.startswith('It_') or isinstance(v, Adt) and v.kind == 'Range':
        n = it_len(ex, st, v)
        return None if n is None else one(st, n)
    return one(st, v_len(ex, st, v))

@model('is_empty')
def m_is_empty(ex, c, a, st):
    v = D(ex, st, a[0])
    if isinstance(v, SetV) and v.tmpl is None: return one(st, True)
    return one(st, simp(v_len(ex, st, v) == 0))

@model('origin')
def m_origin(ex, c, a, st):
    z = 0 if 'isize' in c.headty else ex.FT.const(0.0, 'f64' if 'f64' in c.headty else 'f32')
    n = 2 if re.search(r'\bU2\b', c.headty) else 3 if re.search(r'\bU3\b', c.headty) else ex.N
    return one(st, point(*[z] * n))

def dims_in(ex, ty):
    m = re.search(r'Matrix<\w+, (\w+), (\w+)', ty)
    if not m: return None
    def d(x):
        if re.fullmatch(r'U\d+', x): return int(x[1:])
        if x == 'Dynamic': return 'dyn'
        return ex.N
    return d(m.group(1)), d(m.group(2))

@model('zeros', 'repeat', 'from_element')
def m_zeros(ex, c, a, st):
    if c.method == 'zeros' and (c.head or '').startswith('Nd') or (c.trait == 'Dimension'):
        n = a[0]
        return one(st, Adt('Dim', (Adt('array', [0] * n),))) if conc(n) else None
    d = dims_in(ex, c.headty)
    if d and d[1] == 1 and d[0] != 'dyn':
        z = a[0] if a else (0 if 'isize' in c.headty else ex.FT.const(0.0, 'f64' if 'f64' in c.headty else 'f32'))
        return one(st, Adt('mat', [z] * d[0]))
    if 'ArrayBase' in c.headty: return None
    return None

@model('new')
def m_new(ex, c, a, st):
    h = c.head
    if h in ('Vec', 'VecDeque'): return one(st, empty_seq())
    if h == 'HashSet': return one(st, SetV(lambda k: False))
    if h in ('Point',): return one(st, point(*a))
    if h in ('Matrix',): 
        d = dims_in(ex, c.headty)
        if d and d[1] == 1: return one(st, Adt('mat', a))
        if d and len(a) == d[0] * d[1]: return one(st, Adt('smat', (d[0], d[1], Adt('mat', a))))
    if h == 'RangeInclusive': return one(st, Adt('RangeInclusive', a))
    if h in ('Arguments', 'Argument'): return one(st, Adt('fmt', ()))
    if h == 'Translation': return one(st, Adt('Translation', (Adt('mat', a),)))
    if h == 'Dynamic' and len(a) == 1: return one(st, a[0])
    return None

def empty_seq():
    def at(i): raise Unsupported("element of an empty sequence")
    return Seq(0, at)

@model('with_capacity', 'with_capacity_and_hasher')
def m_with_cap(ex, c, a, st):
    if c.head == 'HashSet': return one(st, SetV(lambda k: False))
    if c.head in ('Vec', 'VecDeque'): return one(st, empty_seq())
    return None

@model('reserve', 'shrink_to_fit', 'reserve_exact')
def m_reserve(ex, c, a, st): return one(st, UNIT)

@model('default')
def m_default(ex, c, a, st):
    if c.head == 'Relative':
        e = ex.FT.const(2.0 ** -23, 'f32')
        return one(st, Adt('Relative', (e, e)))
    if c.head == 'AbsDiff': return one(st, Adt('AbsDiff', (ex.FT.const(2.0 ** -23, 'f32'),)))
    if c.head in ('f32', 'f64'): return one(st, ex.FT.const(0.0, c.head))
    if c.head in ('isize', 'usize', 'i32', 'i64'): return one(st, 0)
    if c.head == 'bool': return one(st, False)
    if c.head == 'HashSet': return one(st, SetV(lambda k: False))
    if c.head == 'Vec': return one(st, empty_seq())
    return None

@model('max_value', 'min_value')
def m_maxval(ex, c, a, st):
    m = re.search(r'<impl ([iu])(8|16|32|64|size)>', c.s) or re.match(r'([iu])(8|16|32|64|size)$', c.headty or '')
    if a or not m: return None
    b = 64 if m.group(2) == 'size' else int(m.group(2))
    if m.group(1) == 'u': return one(st, 2 ** b - 1 if c.method == 'max_value' else 0)
    return one(st, 2 ** (b - 1) - 1 if c.method == 'max_value' else -2 ** (b - 1))

@model('default_epsilon', 'default_max_relative')
def m_eps(ex, c, a, st):
    return one(st, ex.FT.const(2.0 ** -23 if c.head == 'f32' else 2.0 ** -52, c.head))

@model('epsilon', 'max_relative')
def m_relset(ex, c, a, st):
    r = a[0]
    if isinstance(r, Adt) and r.kind == 'Relative':
        f = list(r.f); f[0 if c.method == 'epsilon' else 1] = a[1]
        return one(st, Adt('Relative', f))
    if isinstance(r, Adt) and r.kind == 'AbsDiff': return one(st, Adt('AbsDiff', (a[1],)))
    return None

def relative_eq(ex, x, y, eps, rel):
    FT = ex.FT
    if FT.name == 'FP':
        f = FT._uf('relative_eq', [FT.sort('f32')] * 4, z3.BoolSort())
        return z3.Or(FT.eq(x, y), f(x.v, y.v, eps.v, rel.v))
    d = FT.abs(FT.sub(x, y))
    big = FT.max(FT.abs(x), FT.abs(y))
    return z3.Or(FT.eq(x, y), FT.le(d, eps), FT.le(d, FT.mul(big, rel)))

def abs_diff_eq(ex, x, y, eps):
    FT = ex.FT
    if FT.name == 'FP':
        f = FT._uf('abs_diff_eq', [FT.sort('f32')] * 3, z3.BoolSort())
        return f(x.v, y.v, eps.v)
    return FT.le(FT.abs(FT.sub(x, y)), eps)

@model('relative_eq', 'abs_diff_eq', 'relative_ne', 'abs_diff_ne')
def m_releq(ex, c, a, st):
    x, y = D(ex, st, a[0]), D(ex, st, a[1])
    xs, ys = ([x], [y]) if isinstance(x, Fl) else (mat_of(x).f, mat_of(y).f)
    if c.method.startswith('relative'): r = b_and(*[relative_eq(ex, p, q, a[2], a[3]) for p, q in zip(xs, ys)])
    else: r = b_and(*[abs_diff_eq(ex, p, q, a[2]) for p, q in zip(xs, ys)])
    r = simp(r)
    return one(st, b_not(r) if c.method.endswith('_ne') else r)

@model('eq', 'ne')
def m_eq(ex, c, a, st):
    if len(a) == 3:
        rel = D(ex, st, a[0])
        x, y = D(ex, st, a[1]), D(ex, st, a[2])
        xs, ys = ([x], [y]) if isinstance(x, Fl) else (mat_of(x).f, mat_of(y).f)
        if rel.kind == 'Relative': r = b_and(*[relative_eq(ex, p, q, *rel.f) for p, q in zip(xs, ys)])
        else: r = b_and(*[abs_diff_eq(ex, p, q, *rel.f) for p, q in zip(xs, ys)])
        r = simp(r)
        return one(st, b_not(r) if c.method == 'ne' else r)
    return [(s, r if c.method == 'eq' else simp(b_not(r))) for s, r in local_eq(ex, st, a[0], a[1])]

def cmp_vals(ex, st, op, x, y):
    x, y = D(ex, st, x), D(ex, st, y)
    if isinstance(x, Fl) or isint(x): return ex.binop(op, x, y)
    mx, my = mat_of(x), mat_of(y)
    if mx is not None and isinstance(x, Adt) and x.kind in ('mat', 'Point'):
        # nalgebra's partial order is componentwise: for lt/le/gt/ge it compares all components
        return b_and(*[ex.binop(op, p, q) for p, q in zip(mx.f, my.f)]) if op in ('Lt', 'Gt', 'Le', 'Ge') else None
    return None

@model('lt', 'le', 'gt', 'ge')
def m_cmp(ex, c, a, st):
    r = cmp_vals(ex, st, c.method.capitalize(), a[0], a[1])
    return None if r is None else one(st, r)

@model('partial_cmp', 'cmp')
def m_pcmp(ex, c, a, st):
    x, y = D(ex, st, a[0]), D(ex, st, a[1])
    if isint(x):
        d = z3.If(x < y, z3.IntVal(-1), z3.If(x > y, z3.IntVal(1), z3.IntVal(0))) if isz(x) or isz(y) else (x > y) - (x < y)
        o = Enum('Ordering', simpi(d), {})
        return one(st, o if c.method == 'cmp' else some(o))
    if isinstance(x, Fl) and c.method == 'partial_cmp':
        FT = ex.FT
        lt, gt, eq = zb(FT.lt(x, y)), zb(FT.lt(y, x)), zb(FT.eq(x, y))
        o = Enum('Ordering', z3.If(lt, z3.IntVal(-1), z3.If(gt, z3.IntVal(1), z3.IntVal(0))), {})
        return one(st, Enum('Option', simpi(z3.If(z3.Or(lt, gt, eq), z3.IntVal(1), z3.IntVal(0))), {'Some': (o,)}))
    return None

for _n, _o in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mul'), ('div', 'Div')):
    def _mk(o):
        def f(ex, c, a, st): return arith(ex, st, o, a[0], a[1])
        return f
    FIXED[_n] = _mk(_o)
    def _mka(o):
        def f(ex, c, a, st):
            out = []
            for s, v in arith(ex, st, o, D(ex, st, a[0]), a[1]):
                ex.store_ref(s, root(ex, s, a[0]), v)
                out.append((s, UNIT))
            return out
        return f
    FIXED[_n + '_assign'] = _mka(_o)

@model('neg')
def m_neg(ex, c, a, st):
    v = D(ex, st, a[0])
    if isinstance(v, Fl): return one(st, ex.FT.neg(v))
    if isint(v): return one(st, simpi(-v))
    m = mat_of(v)
    if m is None: return None
    f = Adt('mat', [ex.FT.neg(x) if isinstance(x, Fl) else simpi(-x) for x in m.f])
    return one(st, Adt('Point', (f,)) if v.kind == 'Point' else f)

# floats and integers
for _n in ('round', 'floor', 'ceil', 'trunc', 'sqrt', 'exp', 'ln', 'cos', 'sin', 'tan', 'to_radians', 'to_degrees', 'exp_m1',
           'ln_1p', 'log10', 'log2', 'exp2', 'recip', 'cbrt', 'tanh', 'atan', 'acos', 'asin', 'fract'):
    def _mk1(n):
        def f(ex, c, a, st):
            v = a[0]
            if not isinstance(v, Fl): return None
            FT = ex.FT
            if n == 'recip': return one(st, FT.div(FT.const(1.0, v.ty), v))
            if n == 'fract': return one(st, FT.sub(v, FT.fn1('trunc', v)))
            return one(st, FT.fn1(n, v))
        return f
    FIXED[_n] = _mk1(_n)

@model('abs')
def m_abs(ex, c, a, st):
    v = a[0]
    if isinstance(v, Fl): return one(st, ex.FT.abs(v))
    if isint(v):
        if conc(v): return one(st, abs(v))
        return [(s, simpi(z3.If(v >= 0, v, -v))) for s in ex.check_or_panic(st, simp(v > -2 ** 63), "attempt to negate with overflow")]
    m = mat_of(D(ex, st, v))
    if m is None: return None
    if isinstance(m.f[0], Fl): return one(st, Adt('mat', [ex.FT.abs(x) for x in m.f]))
    return one(st, Adt('mat', [simpi(z3.If(x >= 0, x, -x)) if isz(x) else abs(x) for x in m.f]))

@model('signum')
def m_signum(ex, c, a, st):
    v = a[0]
    if isinstance(v, Fl):
        FT = ex.FT
        o = FT.ite(zb(FT.is_sign_negative(v)), FT.const(-1.0, v.ty), FT.const(1.0, v.ty))
        nan = simp(zb(FT.is_nan(v))) if not isinstance(FT.is_nan(v), bool) else FT.is_nan(v)
        return one(st, o if nan is False else FT.ite(nan, v, o))
    if conc(v): return one(st, (v > 0) - (v < 0))
    return one(st, z3.If(v > 0, z3.IntVal(1), z3.If(v < 0, z3.IntVal(-1), z3.IntVal(0))))

@model('is_nan', 'is_finite', 'is_infinite', 'is_sign_negative', 'is_sign_positive')
def m_isnan(ex, c, a, st):
    FT, v = ex.FT, D(ex, st, a[0])
    r = {'is_nan': lambda: FT.is_nan(v), 'is_finite': lambda: FT.is_finite(v),
         'is_infinite': lambda: b_not(b_or(FT.is_finite(v), FT.is_nan(v))), 'is_sign_negative': lambda: FT.is_sign_negative(v),
         'is_sign_positive': lambda: b_not(FT.is_sign_negative(v))}[c.method]()
    return one(st, simp(r))

@model('is_negative', 'is_positive')
def m_isneg(ex, c, a, st):
    v = a[0]
    return one(st, simp(v < 0 if c.method == 'is_negative' else v > 0) if isz(v) else (v < 0 if c.method == 'is_negative' else v > 0))

@model('min', 'max')
def m_minmax(ex, c, a, st):
    if len(a) == 1:
        m = mat_of(D(ex, st, a[0]))
        if m is None: return None
        r = m.f[0]
        for x in m.f[1:]:
            r = (ex.FT.min(r, x) if c.method == 'min' else ex.FT.max(r, x)) if isinstance(r, Fl) else \
                z3.If((r <= x) if c.method == 'min' else (r >= x), r, x)
        return one(st, r)
    x, y = a
    if isinstance(x, Fl): return one(st, ex.FT.min(x, y) if c.method == 'min' else ex.FT.max(x, y))
    if isint(x):
        if conc(x) and conc(y): return one(st, min(x, y) if c.method == 'min' else max(x, y))
        return one(st, simpi(z3.If((x <= y) if c.method == 'min' else (x >= y), x, y)))
    return None

@model('clamp')
def m_clamp(ex, c, a, st):
    x, lo, hi = a
    if isinstance(x, Fl):
        FT = ex.FT
        out = []
        for s in ex.check_or_panic(st, simp(FT.le(lo, hi)), "assertion failed: min <= max"):
            r = FT.ite(zb(FT.lt(x, lo)), lo, x)
            out.append((s, FT.ite(zb(FT.lt(hi, r)), hi, r)))
        return out
    return [(s, simpi(z3.If(x < lo, lo, z3.If(x > hi, hi, x)))) for s in ex.check_or_panic(st, simp(zb(lo <= hi)), "assertion failed: min <= max")]

@model('powi')
def m_powi(ex, c, a, st):
    v, n = a
    if conc(n) and 0 <= n <= 4:
        r = ex.FT.const(1.0, v.ty)
        for k in range(n): r = v if k == 0 else ex.FT.mul(r, v)
        return one(st, r)
    return None

@model('mul_add', 'hypot', 'powf', 'atan2')
def m_fnn(ex, c, a, st):
    if ex.FT.name == 'R' and c.method == 'mul_add': return one(st, ex.FT.add(ex.FT.mul(a[0], a[1]), a[2]))
    if ex.FT.name == 'R' and c.method == 'hypot':
        return one(st, ex.FT.fn1('sqrt', ex.FT.add(ex.FT.mul(a[0], a[0]), ex.FT.mul(a[1], a[1]))))
    return one(st, ex.FT.fnn(c.method, a))

@model('rem_euclid', 'div_euclid')
def m_euclid(ex, c, a, st):
    x, y = a
    if not isint(x): return None
    out = []
    for s in ex.check_or_panic(st, simp(y != 0) if isz(y) else y != 0, "attempt to divide by zero"):
        if conc(x) and conc(y):
            r = x % abs(y)
            out.append((s, r if c.method == 'rem_euclid' else (x - r) // y))
        else:
            X, Y = (z3.IntVal(v) if conc(v) else v for v in (x, y))
            out.append((s, simpi(X % Y if c.method == 'rem_euclid' else X / Y)))   # z3 integer division is Euclidean
    return out

@model('is_power_of_two')
def m_pow2(ex, c, a, st): return one(st, ex.pow2(a[0])) if isint(a[0]) else None

@model('rem')
def m_rem(ex, c, a, st): return [(st, ex.binop('Rem', D(ex, st, a[0]), D(ex, st, a[1])))]

@model('wrapping_add', 'wrapping_sub', 'wrapping_mul', 'saturating_add', 'saturating_sub', 'abs_diff', 'unsigned_abs', 'pow',
       'checked_add', 'checked_sub', 'checked_mul')
def m_intops(ex, c, a, st):
    from exe import wrap, RANGES
    m = re.search(r'<impl (\w+)>', c.s)
    ty = m.group(1) if m else 'isize'
    lo, hi = RANGES[ty]
    k, op = (c.method.split('_') + [''])[:2]
    if c.method == 'abs_diff': return one(st, simpi(z3.If(a[0] >= a[1], a[0] - a[1], a[1] - a[0])) if isz(a[0]) or isz(a[1]) else abs(a[0] - a[1]))
    if c.method == 'unsigned_abs': return one(st, simpi(z3.If(a[0] >= 0, a[0], -a[0])) if isz(a[0]) else abs(a[0]))
    if c.method == 'pow':
        if not conc(a[1]) or a[1] > 3: return None
        outs = [(st, 1)]
        for _ in range(a[1]): outs = [o for s, v in outs for o in scal(ex, s, 'Mul', v, a[0])]
        return outs
    r = {'add': lambda: a[0] + a[1], 'sub': lambda: a[0] - a[1], 'mul': lambda: a[0] * a[1]}[op]()
    r = simpi(r)
    if k == 'wrapping': return one(st, simpi(wrap(r, ty)))
    if k == 'saturating': return one(st, simpi(z3.If(r > hi, z3.IntVal(hi), z3.If(r < lo, z3.IntVal(lo), r))) if isz(r) else max(lo, min(hi, r)))
    c0 = simp(zb(b_and(r >= lo, r <= hi)))
    if c0 is True: return one(st, some(r))
    return one(st, Enum('Option', simpi(z3.If(zb(c0), z3.IntVal(1), z3.IntVal(0))), {'Some': (r,)}))

@model('swap', 'replace', 'take')
def m_memswap(ex, c, a, st):
    if c.head == 'mem' or c.segs[:1] == ['std'] or len(c.segs) >= 2 and c.segs[-2] == 'mem':
        x = ex.deref(st, a[0])
        if c.method == 'swap':
            y = ex.deref(st, a[1])
            ex.store_ref(st, a[0], y); ex.store_ref(st, a[1], x)
            return one(st, UNIT)
        if c.method == 'replace':
            ex.store_ref(st, a[0], a[1])
            return one(st, x)
        if isinstance(x, Seq): ex.store_ref(st, a[0], empty_seq()); return one(st, x)
        if isinstance(x, SetV): ex.store_ref(st, a[0], SetV(lambda k: False)); return one(st, x)
        return None
    v = a[0]
    if c.method == 'take':
        if isinstance(v, Ref):
            x = ex.deref(st, v)
            if isinstance(x, Enum) and x.kind == 'Option': ex.store_ref(st, v, NONE); return one(st, x)
        if isinstance(v, Adt): return one(st, Adt('It_take', (v, a[1])))
    if c.method == 'swap' and len(a) == 3:
        x = D(ex, st, a[0])
        i, j = a[1], a[2]
        if isinstance(x, Seq):
            vi, vj = x.at(i), x.at(j)
            ex.store_ref(st, a[0], seq_store(ex.FT, seq_store(ex.FT, x, i, vj), j, vi))
            return one(st, UNIT)
    return None

@model('size_of')
def m_size_of(ex, c, a, st):
    t = c.generics.strip()
    s = {'f32': 4, 'f64': 8, 'u8': 1, 'i32': 4, 'u32': 4, 'isize': 8, 'usize': 8, 'i64': 8, 'u64': 8}.get(t)
    return None if s is None else one(st, s)

# vectors and matrices
@model('map', 'zip_map', 'apply', 'zip_apply', 'map_with_location')
def m_map(ex, c, a, st):
    v = a[0]
    x = D(ex, st, v)
    if isinstance(x, Enum) and x.kind in ('Option', 'Result') and c.method == 'map':
        nm = 'Some' if x.kind == 'Option' else 'Ok'
        idx = VARIANTS[x.kind].index(nm)
        out = []
        for s, t in ex.branch(st, simp(x.d == idx) if isz(x.d) else x.d == idx):
            if not t: out.append((s, Enum(x.kind, 1 - idx, {k: p for k, p in x.pay.items() if k != nm})))
            else: out += [(s2, Enum(x.kind, idx, {nm: (r,)})) for s2, r in ex.call_closure(s, a[1], [x.pay[nm][0]])]
        return out
    if isinstance(x, Adt) and (x.kind.startswith('It_') or x.kind == 'Range'):
        return one(st, Adt('It_map', (x, ex.alloc(st, a[1], 'clo'))))
    if isinstance(x, Opaque): return one(st, Adt('It_map', (ex.ext.into_iter(ex, st, x), ex.alloc(st, a[1], 'clo'))))
    m = mat_of(x)
    if m is None: return None
    rc = ex.alloc(st, a[-1], 'clo')
    others = []
    if c.method.startswith('zip_'):
        o = mat_of(D(ex, st, a[1]))
        if len(o.f) != len(m.f): return None
        others = o.f
    outs = [(st, [])]
    for i, e in enumerate(m.f):
        nxt = []
        for s, acc in outs:
            if c.method == 'map_with_location': args = [i, 0, e]
            elif others: args = [e, others[i]]
            else: args = [e]
            for s2, r in ex.call_closure(s, rc, args): nxt.append((s2, acc + [r]))
        outs = nxt
    if c.method in ('apply', 'zip_apply'):
        res = []
        for s, f in outs:
            nv = Adt('mat', f) if x.kind != 'Point' else Adt('Point', (Adt('mat', f),))
            ex.store_ref(s, v, nv)
            res.append((s, UNIT))
        return res
    kind = 'array' if x.kind == 'array' else 'mat'
    return [(s, Adt('Point', (Adt('mat', f),)) if x.kind == 'Point' else Adt(kind, f)) for s, f in outs]

@model('from_vec', 'from_column_slice', 'from_row_slice', 'from_slice', 'from_fn', 'from_iterator')
def m_from_vec(ex, c, a, st):
    d = dims_in(ex, c.headty) or dims_in(ex, c.s)
    if c.head == 'Point' or (d is None and 'Point<' in c.s): d = (ex.N, 1); wrapp = True
    else: wrapp = False
    if d is None:
        if 'ArrayBase' in c.headty: return None
        return None
    R, C = d
    if c.method == 'from_fn':
        if R == 'dyn': return None
        rc = ex.alloc(st, a[-1], 'clo')
        if C == 'dyn' and len(a) == 2:
            def column(s, args):
                outs = [(s, [])]
                for i in range(R): outs = [(s3, acc + [r]) for s2, acc in outs for s3, r in ex.call_closure(s2, rc, [i, args[0]])]
                return [(s2, Adt('mat', acc)) for s2, acc in outs]
            it = Adt('It_map', (Adt('Range', (0, a[0])), ex.alloc(st, Adt('pyfn', (column,)), 'clo')))
            return [(s, Adt('dmat', (R, q))) for s, q in collect_seq(ex, st, it, 'columns')]
        if C != 1: return None
        outs = [(st, [])]
        for i in range(R): outs = [(s2, acc + [r]) for s, acc in outs for s2, r in ex.call_closure(s, rc, [i, 0])]
        return [(s, Adt('mat', f)) for s, f in outs]
    if C == 'dyn':
        if c.method != 'from_iterator':
            src = D(ex, st, a[-1])
            if c.method not in ('from_vec', 'from_column_slice'): return None
            outs = [(st, src)]
        else: outs = collect_seq(ex, st, into_iter(ex, st, a[1]))
        res = []
        for s, q in outs:
            n = a[0] if len(a) > 1 else ex.binop('Div', q.n, R)
            need = simpi(n * R)
            cond = simp(q.n >= need) if isz(q.n) or isz(need) else q.n >= need
            if c.method != 'from_iterator': cond = simp(q.n == need) if isz(q.n) or isz(need) else q.n == need
            for s2 in ex.check_or_panic(s, cond, "matrix init: not enough elements"):
                if q.tag and q.tag[0] == 'grp' and q.tag[1] == R:
                    g = q.tag[3]
                    res.append((s2, Adt('dmat', (R, Seq(n, lambda i, g=g: Adt('mat', g(i)))))))
                else:
                    res.append((s2, Adt('dmat', (R, Seq(n, lambda i, q=q: Adt('mat', [q.at(simpi(i * R + r)) for r in range(R)]))))))
        return res
    if R == 'dyn': return None
    K = R * C
    if c.method == 'from_iterator': outs = collect_seq(ex, st, into_iter(ex, st, a[0]))
    else:
        v = D(ex, st, a[0])
        outs = [(st, v if isinstance(v, Seq) else seq_of(mat_of(v).f))]
    res = []
    for s, q in outs:
        cond = simp(q.n >= K) if isz(q.n) else q.n >= K
        for s2 in ex.check_or_panic(s, cond, "matrix init: not enough elements"):
            m = Adt('mat', [q.at(i) for i in range(K)])
            if C != 1: return None
            res.append((s2, Adt('Point', (m,)) if wrapp else m))
    return res

def root(ex, st, r):
    while isinstance(ex.deref(st, r), Ref): r = ex.deref(st, r)
    return r

@model('column', 'row_col', 'column_mut')
def m_column(ex, c, a, st):
    v = D(ex, st, a[0])
    if isinstance(v, Adt) and v.kind == 'mat' and conc(a[1]) and a[1] == 0: return one(st, v if c.method == 'column' else root(ex, st, a[0]))
    if isinstance(v, Adt) and v.kind == 'dmat' and c.method != 'row_col':
        i = a[1]
        cond = simp(b_and(zb(i >= 0), zb(i < v.f[1].n)))
        if c.method == 'column': return [(s, v.f[1].at(i)) for s in ex.check_or_panic(st, cond, "matrix slicing out of bounds")]
        r = root(ex, st, a[0])
        return [(s, Ref(r.key, r.path + (1, pos_pe(i)))) for s in ex.check_or_panic(st, cond, "matrix slicing out of bounds")]
    return None

@model('set_column')
def m_set_column(ex, c, a, st):
    r = root(ex, st, a[0])
    v, i, w = ex.deref(st, r), a[1], mat_of(D(ex, st, a[2]))
    if not (isinstance(v, Adt) and v.kind == 'dmat') or w is None: return None
    out = []
    for s in ex.check_or_panic(st, simp(b_and(zb(i >= 0), zb(i < v.f[1].n), len(w.f) == v.f[0])), "matrix slicing out of bounds"):
        ex.store_ref(s, Ref(r.key, r.path + (1, pos_pe(i))), Adt('mat', w.f))
        out.append((s, UNIT))
    return out

@model('copy_from')
def m_copy_from(ex, c, a, st):
    r = root(ex, st, a[0])
    v, w = ex.deref(st, r), D(ex, st, a[1])
    if isinstance(v, Adt) and isinstance(w, Adt) and v.kind == w.kind == 'mat' and len(v.f) == len(w.f):
        ex.store_ref(st, r, w)
        return one(st, UNIT)
    return None

@model('fixed_rows')
def m_fixed_rows(ex, c, a, st):
    """The rows from a constant one on, as many as the type says; read only."""
    v, i = D(ex, st, a[0]), a[1]
    m = re.match(r'U(\d+)', c.generics.strip())
    if not (m and conc(i) and isinstance(v, Adt)): return None
    k = int(m.group(1))
    if v.kind == 'mat' and i + k <= len(v.f): return one(st, Adt('mat', v.f[i:i + k]))
    if v.kind == 'dmat' and i + k <= v.f[0]: return one(st, Adt('dmat', (k, Seq(v.f[1].n, lambda j: Adt('mat', v.f[1].at(j).f[i:i + k])))))
    return None

@model('column_iter', 'column_iter_mut')
def m_column_iter(ex, c, a, st):
    v = D(ex, st, a[0])
    if not (isinstance(v, Adt) and v.kind == 'dmat'): return None
    if c.method == 'column_iter': return one(st, Adt('It_val', (v.f[1], 0, v.f[1].n)))
    r = root(ex, st, a[0])
    return one(st, Adt('It_ref', (Ref(r.key, r.path + (1,)), 0, v.f[1].n)))

@model('add_scalar', 'add_scalar_mut')
def m_add_scalar(ex, c, a, st):
    v = D(ex, st, a[0])
    m = mat_of(v)
    if m is None: return None
    w = (lambda f: Adt('Point', (Adt('mat', f),))) if v.kind == 'Point' else (lambda f: Adt('mat', f))
    out = []
    for s, f in elementwise(ex, st, 'Add', m.f, [a[1]] * len(m.f)):
        if c.method == 'add_scalar': out.append((s, w(f)))
        else:
            ex.store_ref(s, root(ex, s, a[0]), w(f))
            out.append((s, UNIT))
    return out

@model('shape', 'nrows', 'ncols', 'dim', 'raw_dim')
def m_shape(ex, c, a, st):
    v = D(ex, st, a[0])
    if isinstance(v, Adt) and v.kind == 'dmat':
        R, n = v.f[0], v.f[1].n
        return one(st, {'shape': tup(R, n), 'nrows': R, 'ncols': n}[c.method])
    if isinstance(v, Adt) and v.kind == 'mat':
        return one(st, {'shape': tup(len(v.f), 1), 'nrows': len(v.f), 'ncols': 1}[c.method])
    if isinstance(v, Adt) and v.kind == 'smat':
        return one(st, {'shape': tup(*v.f[:2]), 'nrows': v.f[0], 'ncols': v.f[1]}[c.method])
    if isinstance(v, NdArr):
        if c.method == 'shape': return one(st, ex.alloc(st, Adt('array', v.shape)))
        if c.method == 'dim': return one(st, tup(*v.shape))
        if c.method == 'raw_dim': return one(st, Adt('Dim', (Adt('array', v.shape),)))
        if c.method in ('nrows', 'ncols') and len(v.shape) == 2: return one(st, v.shape[0 if c.method == 'nrows' else 1])
    return None

@model('insert_fixed_rows', 'remove_fixed_rows', 'insert_row', 'remove_row')
def m_rows(ex, c, a, st):
    v = D(ex, st, a[0])
    if not (isinstance(v, Adt) and v.kind == 'dmat' and conc(a[1])): return None
    k = 1 if c.method.endswith('_row') else int(re.match(r'U(\d+)', c.generics.strip()).group(1))
    R, s, i = v.f[0], v.f[1], a[1]
    if c.method.startswith('insert'):
        if i > R: ex.panic(st, "row insertion out of range"); return []
        x = a[2]
        return one(st, Adt('dmat', (R + k, Seq(s.n, lambda j: Adt('mat', s.at(j).f[:i] + (x,) * k + s.at(j).f[i:])))))
    if i + k > R: ex.panic(st, "row removal out of range"); return []
    return one(st, Adt('dmat', (R - k, Seq(s.n, lambda j: Adt('mat', s.at(j).f[:i] + s.at(j).f[i + k:])))))

@model('norm', 'norm_squared', 'dot', 'magnitude', 'magnitude_squared')
def m_norm(ex, c, a, st):
    m = mat_of(D(ex, st, a[0]))
    if m is None: return None
    o = mat_of(D(ex, st, a[1])) if c.method == 'dot' else m
    FT = ex.FT
    acc = None
    for x, y in zip(m.f, o.f):
        t = FT.mul(x, y)
        acc = t if acc is None else FT.add(acc, t)
    if c.method in ('norm', 'magnitude'): acc = FT.fn1('sqrt', acc)
    return one(st, acc)

@model('transpose', 'to_homogeneous')
def m_none(ex, c, a, st): return None

# sequences
@model('push', 'push_back')
def m_push(ex, c, a, st):
    v = D(ex, st, a[0])
    if not isinstance(v, Seq): return None
    ex.store_ref(st, a[0], seq_push(ex.FT, v, a[1]))
    return one(st, UNIT)

@model('pop')
def m_pop(ex, c, a, st):
    v = D(ex, st, a[0])
    out = []
    for s, t in ex.branch(st, simp(zb(v.n > 0))):
        if t:
            ex.store_ref(s, a[0], Seq(simpi(v.n - 1), v.at))
            out.append((s, some(v.at(simpi(v.n - 1)))))
        else: out.append((s, NONE))
    return out

@model('last', 'first', 'last_mut', 'first_mut')
def m_last(ex, c, a, st):
    v = D(ex, st, a[0])
    r = a[0]
    while isinstance(ex.deref(st, r), Ref): r = ex.deref(st, r)
    if not isinstance(v, Seq): return None
    out = []
    for s, t in ex.branch(st, simp(zb(v.n > 0))):
        i = 0 if c.method.startswith('first') else simpi(v.n - 1)
        out.append((s, some(Ref(r.key, r.path + (pos_pe(i),))) if t else NONE))
    return out

@model('clear', 'truncate')
def m_clear(ex, c, a, st):
    v = D(ex, st, a[0])
    if isinstance(v, Seq):
        if c.method == 'truncate':
            n = a[1]
            ex.store_ref(st, a[0], Seq(simpi(z3.If(n < v.n, n, v.n)) if isz(n) or isz(v.n) else min(n, v.n), v.at))
        else: ex.store_ref(st, a[0], Seq(0, v.at))
        return one(st, UNIT)
    if isinstance(v, SetV): ex.store_ref(st, a[0], SetV(lambda k: False, v.tmpl)); return one(st, UNIT)
    return None

@model('extend', 'extend_from_slice', 'append')
def m_extend(ex, c, a, st):
    v = D(ex, st, a[0])
    o = a[1]
    if isinstance(o, Enum) and o.kind == 'Option' and not isinstance(o.d, int):
        outs = []
        for s, t in ex.branch(st, o.d == 1): outs += m_extend(ex, c, [a[0], Enum('Option', int(t), o.pay)], s)
        return outs
    if isinstance(v, SetV):
        return _set_result(ex, st, a, into_set(ex, st, into_iter(ex, st, a[1]), v, 'extend'))
    if not isinstance(v, Seq): return None
    src = a[1]
    if c.method == 'append':
        w = D(ex, st, src)
        ex.store_ref(st, a[0], seq_concat(ex.FT, v, w))
        ex.store_ref(st, src, Seq(0, w.at))
        return one(st, UNIT)
    out = []
    for s, q in collect_seq(ex, st, into_iter(ex, st, src), 'extend'):
        if isinstance(src, Ref) and not isinstance(D(ex, s, src), Adt) or c.method == 'extend_from_slice':
            q = Seq(q.n, lambda i, q=q, s=s.fork(): D(ex, s, q.at(i)))
        ex.store_ref(s, a[0], seq_concat(ex.FT, v, q))
        out.append((s, UNIT))
    return out

def _set_result(ex, st, a, outs):
    res = []
    for s, v in outs:
        ex.store_ref(s, a[0], v)
        res.append((s, UNIT))
    return res

@model('from_elem')
def m_from_elem(ex, c, a, st):
    if 'ArrayBase' in c.headty:
        shp = nd_index(a[0])
        v = a[1]
        return one(st, NdArr(shp, lambda ix: v))
    v, n = a
    return one(st, Seq(n, lambda i: v, ('const', v)))

@model('to_vec', 'into_vec', 'into_boxed_slice')
def m_to_vec(ex, c, a, st):
    v = D(ex, st, a[0])
    if isinstance(v, Adt) and v.kind == 'Box': v = v.f[0]
    if isinstance(v, Seq): return one(st, v)
    m = mat_of(v)
    return None if m is None else one(st, seq_of(m.f))

# sets
def into_set(ex, st, it, v, label):
    """A set together with the elements of an iterator."""
    r = set_iter_of(ex, st, it) if isinstance(it, Adt) else None
    if r is not None:
        w = r[0]
        if w.tmpl is None: return [(st, v)]
        return [(st, SetV(lambda k: b_or(v.mem(k), w.mem(k)), v.tmpl or w.tmpl))]
    return consume(ex, st, it, v, lambda s, acc, e: [(s, set_insert(ex, s, acc, e))], label)

def key_of(ex, st, v): return tuple(leaves(D(ex, st, v)))

def set_insert(ex, st, sv, e):
    e = D(ex, st, e)
    k = tuple(leaves(e))
    def mem(x, k=k, sv=sv): return simp(b_or(b_and(*[simp(zb(p == q)) for p, q in zip(x, k)]), sv.mem(x)))
    return SetV(mem, sv.tmpl or e)

def set_remove(ex, st, sv, e):
    k = key_of(ex, st, e)
    def mem(x, k=k, sv=sv): return simp(b_and(b_not(b_and(*[simp(zb(p == q)) for p, q in zip(x, k)])), sv.mem(x)))
    return SetV(mem, sv.tmpl)

@model('insert')
def m_insert(ex, c, a, st):
    v = D(ex, st, a[0])
    if isinstance(v, SetV):
        k = key_of(ex, st, a[1])
        had = simp(zb(v.mem(k)))
        ex.store_ref(st, a[0], set_insert(ex, st, v, a[1]))
        return one(st, simp(b_not(had)))
    return None

@model('remove')
def m_remove(ex, c, a, st):
    v = D(ex, st, a[0])
    if isinstance(v, SetV):
        if v.tmpl is None: return one(st, False)
        had = simp(zb(v.mem(key_of(ex, st, a[1]))))
        ex.store_ref(st, a[0], set_remove(ex, st, v, a[1]))
        return one(st, had)
    return None

@model('contains')
def m_contains(ex, c, a, st):
    v = D(ex, st, a[0])
    if isinstance(v, SetV): return one(st, simp(zb(v.mem(key_of(ex, st, a[1])))))
    if isinstance(v, Adt) and v.kind in ('Range', 'RangeInclusive'):
        x = D(ex, st, a[1])
        lo, hi = v.f[0], v.f[1]
        return one(st, simp(b_and(ex.binop('Le', lo, x), ex.binop('Lt' if v.kind == 'Range' else 'Le', x, hi))))
    return None

@model('difference', 'union', 'intersection')
def m_setops(ex, c, a, st):
    v, w = D(ex, st, a[0]), D(ex, st, a[1])
    if not (isinstance(v, SetV) and isinstance(w, SetV)): return None
    f = {'difference': lambda x: b_and(v.mem(x), b_not(w.mem(x))), 'union': lambda x: b_or(v.mem(x), w.mem(x)),
         'intersection': lambda x: b_and(v.mem(x), w.mem(x))}[c.method]
    return one(st, set_iter(ex, st, SetV(f, v.tmpl or w.tmpl)))

@model('retain')
def m_retain(ex, c, a, st):
    v = D(ex, st, a[0])
    if not isinstance(v, SetV): return None
    if v.tmpl is None: return one(st, UNIT)
    w = set_filter(ex, st, v, a[1], lambda s, e: ex.alloc(s, e))
    if w is None: return None
    ex.store_ref(st, a[0], w)
    return one(st, UNIT)

# iterator adaptors and consumers
@model('zip')
def m_zip(ex, c, a, st):
    if len(a) == 2: return one(st, Adt('It_zip', (into_iter(ex, st, a[0]), into_iter(ex, st, a[1]))))

@model('enumerate')
def m_enum(ex, c, a, st): return one(st, Adt('It_enum', (into_iter(ex, st, a[0]), 0)))

@model('cloned', 'copied')
def m_cloned(ex, c, a, st):
    v = a[0]
    if isinstance(v, Enum):
        if 'Some' not in v.pay: return one(st, v)
        return one(st, Enum('Option', v.d, {'Some': (D(ex, st, v.pay['Some'][0]),)}))
    return one(st, Adt('It_cloned', (v,)))

@model('rev')
def m_rev(ex, c, a, st): return one(st, Adt('It_rev', (a[0],)))

@model('chain')
def m_chain(ex, c, a, st): return one(st, Adt('It_chain', (a[0], into_iter(ex, st, a[1]))))

@model('skip')
def m_skip(ex, c, a, st):
    s = seq_of_iter(ex, st, a[0])
    if s is None: return None
    n = a[1]
    k = simpi(z3.If(n < s.n, n, s.n)) if isz(n) or isz(s.n) else min(n, s.n)
    return one(st, Adt('It_val', (Seq(simpi(s.n - k), lambda i: s.at(simpi(i + k))), 0, simpi(s.n - k))))

@model('filter_map', 'filter', 'flat_map')
def m_filter(ex, c, a, st):
    return one(st, Adt('It_' + c.method, (into_iter(ex, st, a[0]), ex.alloc(st, a[1], 'clo'))))

@model('flatten')
def m_flatten(ex, c, a, st): return None

@model('chunks', 'chunks_exact')
def m_chunks(ex, c, a, st): return one(st, Adt('It_chunks', (a[0], a[1], c.method == 'chunks_exact')))

@model('by_ref')
def m_by_ref(ex, c, a, st): return one(st, Adt('It_by', (a[0],)))

@model('fold', 'try_fold')
def m_fold(ex, c, a, st):
    if c.method == 'try_fold': return None
    it, acc, clo = a
    m = mat_of(it) if isinstance(it, Adt) else None
    if m is not None: return None
    rc = ex.alloc(st, clo, 'clo')
    return consume(ex, st, it, acc, lambda s, x, e: ex.call_closure(s, rc, [x, e]), 'fold')

@model('for_each')
def m_for_each(ex, c, a, st):
    rc = ex.alloc(st, a[1], 'clo')
    return [(s, UNIT) for s, _ in consume(ex, st, a[0], UNIT, lambda s, x, e: [(s2, UNIT) for s2, _ in ex.call_closure(s, rc, [e])], 'for_each')]

@model('product', 'sum')
def m_product(ex, c, a, st):
    v = a[0]
    if isinstance(v, Ref): 
        m = mat_of(D(ex, st, v))
        it = Adt('It_val', (seq_of(m.f), 0, len(m.f)))
    else: it = v
    op = 'Mul' if c.method == 'product' else 'Add'
    n = it_len(ex, st, it)
    if not conc(n): return None
    g = c.generics.strip()
    isf = g in ('f32', 'f64')
    init = ex.FT.const(1.0 if op == 'Mul' else 0.0, g) if isf else (1 if op == 'Mul' else 0)
    if op == 'Mul' and not isf:
        # the sizes of allocations: the product of extents is assumed to fit (see DESIGN.md)
        return [(s, ex.prod(s, l)) for s, l in consume(ex, st, it, (), lambda s, acc, e: [(s, acc + (D(ex, s, e),))], c.method)]
    def step(s, acc, e):
        e = D(ex, s, e)
        if isinstance(e, Fl): return [(s, ex.binop(op, acc, e))]
        return scal(ex, s, op, acc, e)
    return consume(ex, st, it, init, step, c.method)

@model('all', 'any', 'position', 'find')
def m_all(ex, c, a, st):
    r = a[0]
    it = ex.deref(st, r) if isinstance(r, Ref) else r
    rc = ex.alloc(st, a[1], 'clo')
    n = it_len(ex, st, it)
    if not conc(n): return None
    work, out = [(st, it, 0)], []
    while work:
        s, i, k = work.pop(0)
        for s2, i2, e in it_next(ex, s, i):
            if e is None:
                out.append((s2, {'all': True, 'any': False}.get(c.method, NONE))); continue
            arg = ex.alloc(s2, e) if c.method == 'find' else e
            for s3, b in ex.call_closure(s2, rc, [arg]):
                if c.method in ('all', 'any'):
                    for s4, t in ex.branch(s3, b):
                        if t == (c.method == 'all'): work.append((s4, i2, k + 1))
                        else: out.append((s4, c.method == 'any'))
                else:
                    for s4, t in ex.branch(s3, b):
                        if t: out.append((s4, some(k if c.method == 'position' else e)))
                        else: work.append((s4, i2, k + 1))
    return ex.merge(st, out) if len(out) > 1 else out

@model('collect')
def m_collect(ex, c, a, st):
    g = c.generics.strip()
    it = a[0]
    if g.startswith(('Vec<', 'std::vec::Vec<', 'Box<[')): return collect_seq(ex, st, it)
    if g.startswith(('HashSet<', 'std::collections::HashSet<')):
        return into_set(ex, st, it, SetV(lambda k: False), 'collect')
    if g.startswith('Result<Vec<'): return collect_result(ex, st, it)
    return None

def collect_result(ex, st, it):
    """collect::<Result<Vec<_>, E>>: stops at the first error."""
    ri, ra = ex.alloc(st, it, 'iter'), ex.alloc(st, empty_seq(), 'acc')
    def body(h):
        backs, outs = [], []
        for s, i2, e in it_next(ex, h, ex.deref(h, ri)):
            ex.store_ref(s, ri, i2)
            if e is None: outs.append(('done', s, None)); continue
            for s2, t in ex.branch(s, simp(e.d == 0) if isz(e.d) else e.d == 0):
                if t:
                    ex.store_ref(s2, ra, seq_push(ex.FT, ex.deref(s2, ra), e.pay['Ok'][0]))
                    backs.append(s2)
                else: outs.append(('err', s2, e.pay['Err'][0]))
        return backs, outs
    n = it_len(ex, st, it)
    res = []
    if conc(n):
        work, fin = [st], []
        while work:
            b, o = body(work.pop())
            work += b; fin += o
    else: fin = ex.cut_loop(st, body, 'collect')
    for k, s, x in fin: res.append((s, ok(ex.deref(s, ra)) if k == 'done' else err(x)))
    return res

# Option and Result
def enum_split(ex, st, x, nm):
    idx = VARIANTS[x.kind].index(nm)
    return ex.branch(st, simp(x.d == idx) if isz(x.d) else x.d == idx)

@model('unwrap', 'expect', 'unwrap_or', 'unwrap_or_default', 'unwrap_or_else')
def m_unwrap(ex, c, a, st):
    x = a[0]
    if not isinstance(x, Enum): return None
    nm = 'Some' if x.kind == 'Option' else 'Ok'
    out = []
    for s, t in enum_split(ex, st, x, nm):
        if t: out.append((s, x.pay[nm][0]))
        elif c.method == 'unwrap_or': out.append((s, a[1]))
        elif c.method == 'unwrap_or_else':
            out += ex.call_closure(s, a[1], [] if x.kind == 'Option' else [x.pay['Err'][0]])
        elif c.method == 'unwrap_or_default': return None
        else: ex.panic(s, "called `%s::%s()` on a failure value" % (x.kind, c.method))
    return out

@model('is_some', 'is_none', 'is_ok', 'is_err')
def m_is(ex, c, a, st):
    x = D(ex, st, a[0])
    want = {'is_some': 1, 'is_none': 0, 'is_ok': 0, 'is_err': 1}[c.method]
    return one(st, simp(x.d == want) if isz(x.d) else x.d == want)

@model('branch')
def m_branch(ex, c, a, st):
    x = a[0]
    nm, bad = ('Some', 'None') if x.kind == 'Option' else ('Ok', 'Err')
    out = []
    for s, t in enum_split(ex, st, x, nm):
        if t: out.append((s, Enum('ControlFlow', 0, {'Continue': (x.pay[nm][0],)})))
        else: out.append((s, Enum('ControlFlow', 1, {'Break': (Enum(x.kind, VARIANTS[x.kind].index(bad), {k: p for k, p in x.pay.items() if k == bad}),)})))
    return out

@model('from_residual')
def m_from_residual(ex, c, a, st):
    x = a[0]
    return one(st, x)

@model('from_output')
def m_from_output(ex, c, a, st): return one(st, ok(a[0]) if 'Result' in c.headty else some(a[0]))

@model('map_err', 'or_else')
def m_map_err(ex, c, a, st):
    x = a[0]
    out = []
    for s, t in enum_split(ex, st, x, 'Ok'):
        if t: out.append((s, ok(x.pay['Ok'][0])))
        else:
            for s2, r in ex.call_closure(s, a[1], [x.pay['Err'][0]]): out.append((s2, err(r) if c.method == 'map_err' else r))
    return out

@model('and_then')
def m_and_then(ex, c, a, st):
    x = a[0]
    nm = 'Some' if x.kind == 'Option' else 'Ok'
    out = []
    for s, t in enum_split(ex, st, x, nm):
        if t: out += ex.call_closure(s, a[1], [x.pay[nm][0]])
        else: out.append((s, Enum(x.kind, VARIANTS[x.kind].index('None' if x.kind == 'Option' else 'Err'), {k: p for k, p in x.pay.items() if k != nm})))
    return out

@model('ok_or', 'ok', 'ok_or_else', 'err')
def m_ok_or(ex, c, a, st):
    x = a[0]
    out = []
    if c.method == 'ok': return [(s, some(x.pay['Ok'][0]) if t else NONE) for s, t in enum_split(ex, st, x, 'Ok')]
    if c.method == 'err': return [(s, NONE if t else some(x.pay['Err'][0])) for s, t in enum_split(ex, st, x, 'Ok')]
    for s, t in enum_split(ex, st, x, 'Some'):
        if t: out.append((s, ok(x.pay['Some'][0])))
        elif c.method == 'ok_or': out.append((s, err(a[1])))
        else: out += [(s2, err(e)) for s2, e in ex.call_closure(s, a[1], [])]
    return out

@model('get_or_insert_with', 'get_or_insert')
def m_goi(ex, c, a, st):
    x = ex.deref(st, a[0])
    out = []
    for s, t in enum_split(ex, st, x, 'Some'):
        if not t:
            if c.method == 'get_or_insert': vs = [(s, a[1])]
            else: vs = ex.call_closure(s, a[1], [])
        else: vs = [(s, None)]
        for s2, v in vs:
            if v is not None: ex.store_ref(s2, a[0], some(v))
            out.append((s2, Ref(a[0].key, a[0].path + (('v', 'Some', 0),))))
    return out

# ndarray
@model('Dim')
def m_dim(ex, c, a, st):
    return one(st, Adt('Dim', (Adt('array', a[0].f),)))

@model('from_shape_vec')
def m_from_shape_vec(ex, c, a, st):
    shp, q = nd_index(a[0]), a[1]
    tot = ex.prod(st, shp)
    for t in ex.products(q.n): st.pc.append(t == ex.prod(st, ex.factors(t)))
    out = []
    cond = simp(tot == q.n) if isz(tot) or isz(q.n) else tot == q.n
    for s, t in ex.branch(st, cond):
        if not t: out.append((s, err(Adt('ShapeError', ())))); continue
        if q.tag and q.tag[0] == 'const':
            v = q.tag[1]
            arr = NdArr(shp, lambda ix: v)
        else:
            def at(ix, q=q, shp=shp):
                f = 0
                for x, n in zip(ix, shp): f = f * n + x
                return q.at(simpi(f))
            arr = NdArr(shp, at)
        out.append((s, ok(arr)))
    return out

@model('next_dim')
def m_next_dim(ex, c, a, st): return one(st, Adt('PhantomData', ()))

@model('new_unchecked')
def m_new_unchecked(ex, c, a, st):
    if 'SliceInfo' in c.s: return one(st, Adt('SliceInfo', (a[0],)))
    return None

@model('slice', 'slice_mut')
def m_slice(ex, c, a, st):
    base = a[0]
    v = ex.deref(st, base)
    while isinstance(v, Ref): base, v = v, ex.deref(st, v)
    info = D(ex, st, a[1])
    rs = D(ex, st, info.f[0]).f
    if not isinstance(v, NdArr): return None
    outs = [(st, [], [])]
    for r, n in zip(rs, v.shape):
        nxt = []
        for s, off, shp in outs:
            if not (isinstance(r, Adt) and r.kind in ('SliceRange', 'Slice')): return None
            lo, hi = r.f[0], r.f[1]
            if isinstance(hi, Enum):
                if not conc(hi.d): return None
                hi = hi.pay['Some'][0] if hi.d else n
            if len(r.f) > 2 and not (conc(r.f[2]) and r.f[2] == 1): return None
            def neg(x):     # negative indices count from the end
                if conc(x): return x if x >= 0 else simpi(n + x)
                if ex.proves(s.pc, x >= 0)[0] == 'proved': return x
                return z3.If(x < 0, x + n, x)
            lo, hi = neg(lo), neg(hi)
            cond = b_and(simp(zb(lo >= 0)), simp(zb(hi >= lo)), simp(zb(hi <= n)))
            # ndarray clamps end < start to an empty slice
            hi2 = hi
            for s2 in ex.check_or_panic(s, simp(b_and(simp(zb(lo >= 0)), simp(zb(lo <= n)), simp(zb(hi >= 0)), simp(zb(hi <= n)))), "ndarray: slice out of bounds"):
                L = simpi(hi - lo)
                if not conc(L) and ex.proves(s2.pc, L >= 0)[0] != 'proved': L = z3.If(L >= 0, L, z3.IntVal(0))
                nxt.append((s2, off + [lo], shp + [L]))
        outs = nxt
    return [(s, Adt('ndview', (base, Adt('array', off), Adt('array', shp)))) for s, off, shp in outs]

@model('assign')
def m_assign(ex, c, a, st):
    w, r = D(ex, st, a[0]), D(ex, st, a[1])
    def view(x, ref):
        if isinstance(x, Adt) and x.kind == 'ndview': return x.f[0], x.f[1].f, x.f[2].f
        if isinstance(x, NdArr):
            q = ref
            while isinstance(ex.deref(st, q), Ref): q = ex.deref(st, q)
            return q, [0] * len(x.shape), x.shape
        return None
    W, R = view(w, a[0]), view(r, a[1])
    if W is None or R is None: return None
    cond = simp(b_and(*[simp(x == y) if isz(x) or isz(y) else x == y for x, y in zip(W[2], R[2])]))
    out = []
    for s in ex.check_or_panic(st, cond, "ndarray: could not broadcast array"):
        dst, src = ex.deref(s, W[0]), ex.deref(s, R[0])
        def at(ix, dst=dst, src=src):
            c0 = simp(b_and(*[b_and(simp(zb(x >= o)), simp(zb(x < o + n))) for x, o, n in zip(ix, W[1], W[2])]))
            if c0 is False: return dst.at(ix)
            sv = src.at(tuple(simpi(x - o + p) for x, o, p in zip(ix, W[1], R[1])))
            if c0 is True: return sv
            return ite(ex.FT, c0, sv, dst.at(ix))
        ex.store_ref(s, W[0], NdArr(dst.shape, at))
        out.append((s, UNIT))
    return out

@model('fill')
def m_fill(ex, c, a, st):
    v = D(ex, st, a[0])
    if isinstance(v, NdArr): ex.store_ref(st, a[0], NdArr(v.shape, lambda ix: a[1])); return one(st, UNIT)
    if isinstance(v, Seq): ex.store_ref(st, a[0], Seq(v.n, lambda i: a[1], ('const', a[1]))); return one(st, UNIT)
    return None

# panics and printing
@model('panic', 'panic_fmt', 'panic_display', 'assert_failed', 'panic_bounds_check', 'unwrap_failed', 'expect_failed', 'unreachable_display',
       'panic_explicit', 'begin_panic', 'panic_nounwind', 'panic_const_div_by_zero', 'unreachable')
def m_panic(ex, c, a, st):
    msg = c.method
    if a and isinstance(a[0], Adt) and a[0].kind == 'strlit': msg = a[0].name
    ex.panic(st, msg)
    return []

@model('_print', '_eprint', 'new_display', 'new_debug', 'new_v1', 'new_const', 'from_str', 'new_lower_exp', 'none', 'from_usize')
def m_print(ex, c, a, st): return one(st, Adt('fmt', ()))

@model('fixed_slice')
def m_fixed_slice(ex, c, a, st):
    """A block of a matrix at a constant place; read only."""
    v = D(ex, st, a[0])
    m = re.match(r'U(\d+), U(\d+)$', c.generics.strip())
    if not (m and isinstance(v, Adt) and v.kind == 'smat' and conc(a[1]) and conc(a[2])): return None
    R, C = int(m.group(1)), int(m.group(2))
    if a[1] + R > v.f[0] or a[2] + C > v.f[1]: return None
    ent = [v.f[2].f[(a[1] + i) * v.f[1] + a[2] + j] for i in range(R) for j in range(C)]
    return one(st, Adt('mat', ent) if C == 1 else Adt('smat', (R, C, Adt('mat', ent))))

@model('must_use', 'identity', 'black_box', 'convert_identity')
def m_id(ex, c, a, st):
    if not a and c.method == 'identity' and (c.head == 'Translation' or 'Translation<' in c.s):
        return one(st, Adt('Translation', (Adt('mat', [ex.FT.const(0.0, 'f64' if 'f64' in c.s else 'f32')] * (2 if re.search(r'\bU2\b', c.s) else 3)),)))
    return one(st, a[0]) if a else None

@model('split_at')
def m_split_at(ex, c, a, st):
    r = root(ex, st, a[0])
    v, k = ex.deref(st, r), a[1]
    if not isinstance(v, (Seq, Adt)): return None
    n = v_len(ex, st, v)
    return [(s, tup(Ref(r.key, r.path + (('s', 0, k),)), Ref(r.key, r.path + (('s', k, simpi(n - k)),))))
            for s in ex.check_or_panic(st, simp(b_and(zb(k >= 0), zb(k <= n))), "mid > len")]
