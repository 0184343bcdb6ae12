"""Contracts of the ray caster (C13, C14, C15)."""
from p_map import *
from lin import Lin

CELLMAX = 2 ** 60

def l1(a, b): return simpi(sum((z3.If(x >= y, x - y, y - x) for x, y in zip(a, b)), z3.IntVal(0)))
def between(x, a, b): return z3.Or(z3.And(a <= x, x <= b), z3.And(b <= x, x <= a))

def int_groups(u, ctx):
    """Groups of N integers that the loop changes, one per axis: cells."""
    g = {}
    for l in ctx.leaves:
        if isint(l.entry) and isinstance(l.path[-1], int): g.setdefault(l.path[:-1], {})[l.path[-1]] = l
    for p in g:
        def get(s, p=p):
            v = u.ex.load(s, p[0], p[1:])
            if len(leaves(v)) != u.N: raise Unsupported('shape')
            return leaves(v)
        yield '/'.join(str(x) for x in p), get
def float_groups(u, ctx):
    g = {}
    for l in ctx.leaves:
        if isinstance(l.entry, Fl) and isinstance(l.path[-1], int): g.setdefault(l.path[:-1], {})[l.path[-1]] = l
    for p in g:
        def get(s, p=p):
            v = leaves(u.ex.load(s, p[0], p[1:]))
            if len(v) != u.N: raise Unsupported('shape')
            return v
        yield '/'.join(str(x) for x in p), get
def seqs(u, ctx):
    """Lists of cells that the loop changes."""
    for l in ctx.leaves:
        if not isinstance(l.entry, Seq): continue
        def get(s, l=l):
            v = l.get(s)
            if not isinstance(v, Seq): raise Unsupported('shape')
            return v
        yield l.name, get

def chain_cands(u, o, e, k):
    """The invariants of a walk from cell o to cell e: k is any index."""
    def prov(ctx):
        out = []
        N = u.N
        for n, cur in int_groups(u, ctx):
            for i in range(N): out.append(('%s between the ends, axis %d' % (n, i), lambda s, cur=cur, i=i: between(cur(s)[i], o[i], e[i])))
            out.append((n + ' is not the end', lambda s, cur=cur: z3.Not(zb(cells_eq(cur(s), e)))))
            for m, seq in seqs(u, ctx):
                out.append(('%s has as many cells as %s is away' % (m, n), lambda s, cur=cur, seq=seq: seq(s).n == l1(o, cur(s)) + 1))
                out.append(('%s ends in %s' % (m, n), lambda s, cur=cur, seq=seq: cells_eq(leaves(seq(s).at(simpi(seq(s).n - 1))), cur(s))))
        for m, seq in seqs(u, ctx):
            def el(s, k=k, seq=seq): return leaves(seq(s).at(k))
            out.append((m + ': element k between the ends', lambda s, el=el, seq=seq: b_imp(z3.And(k >= 0, k < seq(s).n), b_and(*[between(x, a, b) for x, a, b in zip(el(s), o, e)]))))
            out.append((m + ': element k is k steps away', lambda s, el=el, seq=seq: b_imp(z3.And(k >= 0, k < seq(s).n), l1(o, el(s)) == k)))
            out.append((m + ': element k+1 is a neighbour', lambda s, el=el, seq=seq: b_imp(z3.And(k >= 0, k + 1 < seq(s).n), l1(el(s), leaves(seq(s).at(k + 1))) == 1)))
            out.append((m + ' starts at the origin', lambda s, seq=seq: b_and(seq(s).n >= 1, cells_eq(leaves(seq(s).at(0)), o))))
        return out
    return prov

def ray_inputs(u):
    org, end = u.pt('origin'), u.pt('end')
    b = u.bounds('bounds')
    res, ml = u.f32('resolution'), u.f32('max_len')
    return org, end, b, res, ml

def cell_of(u, p, b, res):
    """The cell of a point, by the real conversion."""
    s, v = u.call1('cell_from_point', [u.ref(p), u.ref(u.fld(b, 'min')), res])
    u.st = s
    return pcoords(v)

def c13(u):
    org, end, b, res, ml = ray_inputs(u)
    o, e = cell_of(u, org, b, res), cell_of(u, end, b, res)
    for x in list(o) + list(e): u.assume(z3.And(x >= -CELLMAX, x <= CELLMAX))
    u.ex.panics.clear()
    k = z3.Int(fresh_name('k'))
    u.assume(k >= 0)
    u.ex.cands.append(chain_cands(u, o, e, k))
    u.ex.variants.append(lambda ctx: [('distance of %s to the end' % n, lambda s, cur=cur: l1(cur(s), e)) for n, cur in int_groups(u, ctx)])
    u.reachable()
    outs = u.call('cast_ray', [u.ref(org), u.ref(end), u.ref(b), res, ml])
    if not outs: raise Unsupported("cast_ray never returns")
    same_c = zb(cells_eq(o, e))
    def cells(v):
        q_ = v.f[0]
        return Seq(0, lambda i: point(*o)) if isinstance(q_.n, int) and q_.n == 0 else q_
    def some_(v): return v.f[1].d == 1
    def endc(v): return leaves(v.f[1].pay['Some'][0]) if 'Some' in v.f[1].pay else o
    def each(v, g): return b_imp(z3.And(k >= 0, k < cells(v).n), g(leaves(cells(v).at(k))))
    u.ensure_all('origin and end in the same cell: no free cells and that end cell', outs, lambda s, v: b_imp(same_c, b_and(cells(v).n == 0, some_(v))))
    u.ensure_all('starts in the cell of the origin', outs, lambda s, v: b_imp(b_not(same_c), b_and(cells(v).n >= 1, cells_eq(leaves(cells(v).at(0)), o))))
    u.ensure_all('each further cell shares a face with the one before', outs, lambda s, v: b_imp(z3.And(k >= 0, k + 1 < cells(v).n), l1(leaves(cells(v).at(k)), leaves(cells(v).at(k + 1))) == 1))
    u.ensure_all('no cell repeats (cell k is k steps from the origin)', outs, lambda s, v: each(v, lambda c: l1(o, c) == k))
    u.ensure_all('every cell lies between the origin cell and the end cell', outs, lambda s, v: each(v, lambda c: b_and(*[between(x, a, b_) for x, a, b_ in zip(c, o, e)])))
    u.ensure_all('a reported end is the cell of the end point', outs, lambda s, v: b_imp(some_(v), cells_eq(endc(v), e)))
    u.ensure_all('a reported end is not among the free cells', outs, lambda s, v: b_imp(some_(v), each(v, lambda c: b_not(cells_eq(c, e)))))
    u.ensure_all('a reported end is a neighbour of the last cell', outs, lambda s, v: b_imp(b_and(some_(v), b_not(same_c)), l1(leaves(cells(v).at(simpi(cells(v).n - 1))), e) == 1))
    u.terminates()
    u.no_panic('never panics (cells up to 2^60)')

# ---- C15 -------------------------------------------------------------------------------------------
class Prefix:
    """A predicate over the prefixes of a sequence, by its recursion: false of the empty prefix, and of m + 1 elements iff it
    is true of m elements or step(m). Every use adds the unfolding at that point (a definition, not an assumption)."""
    def __init__(self, u, name, step):
        self.u, self.step, self.seen = u, step, {}
        self.f = z3.Function(fresh_name(name), z3.IntSort(), z3.BoolSort())
    def __call__(self, t):
        t = simpi(t)
        if isinstance(t, int) and t <= 0: return z3.BoolVal(False)
        t = z3.IntVal(t) if isinstance(t, int) else t
        if t.get_id() not in self.seen:
            self.seen[t.get_id()] = t
            p = simpi(t - 1)
            p = z3.IntVal(p) if isinstance(p, int) else p
            self.u.ex.global_assume.append(self.f(t) == z3.And(t > 0, z3.Or(self.f(p), zb(self.step(p)))))
            self.u.ex.global_assume.append(z3.Implies(p <= 0, z3.Not(self.f(p))))
        return self.f(t)

class RayContract:
    """cast_ray as an arbitrary deterministic function of its arguments (C13 and C14 decide which)."""
    def __init__(self, u, cstar, lo=None, shape=None):
        self.u, self.cstar, self.shape = u, cstar, shape      # shape: every cell and end lies inside of these extents
        self.calls, self.last, self.pre = {}, None, {}
        self.fs = None
        self.facts = lo
    def mk(self, args):
        if self.fs is None:
            so = [x.v.sort() for x in args]
            I = z3.IntSort()
            F = lambda n, *d: z3.Function(fresh_name(n), *(so + list(d)))
            self.fs = dict(n=F('raylen', I), some=F('reached', z3.BoolSort()), end=[F('rayend', I) for _ in range(self.u.N)],
                           cell=[F('raycell', I, I) for _ in range(self.u.N)], inray=F('inray', I, z3.BoolSort()))
        return self.fs
    def vals(self, args):
        """(length, cell(k), reached, end) of the ray with these arguments."""
        f = self.mk(args)
        xs = [x.v for x in args]
        box = (lambda t, i: t) if self.shape is None else (lambda t, i: z3.If(z3.And(t >= 0, t < self.shape[i]), t, 0))
        return (f['n'](*xs), (lambda k: point(*[box(g(*(xs + [z3.IntVal(k) if isinstance(k, int) else k])), i) for i, g in enumerate(f['cell'])])),
                f['some'](*xs), point(*[box(g(*xs), i) for i, g in enumerate(f['end'])]))
    def inray(self, args):
        """Whether the cell under consideration is among the first k cells of the ray."""
        key = tuple(x.v.get_id() for x in args)
        if key not in self.pre:
            n, cell, _, _ = self.vals(args)
            self.pre[key] = Prefix(self.u, 'inray', lambda k: cells_eq(leaves(cell(k)), self.cstar))
            xs = [x.v for x in args]
            self.pre[key].f = lambda t, xs=xs: self.fs['inray'](*(xs + [t]))
            self.pre[key].args = args
        return self.pre[key]
    def touched(self, args): return self.inray(args)(self.vals(args)[0])
    def ends(self, args):
        _, _, some_, e = self.vals(args)
        return z3.And(some_, zb(cells_eq(leaves(e), self.cstar)))
    def __call__(self, ex, st, args):
        a = []
        for x in args:
            while isinstance(x, Ref): x = ex.deref(st, x)
            a += leaves(x)
        n, cell, some_, e = self.vals(a)
        self.last = a
        st.pc.append(n >= 0)
        if self.facts: st.pc += self.facts(a)
        q_ = Seq(n, cell)
        return [(st, tup(q_, Enum('Option', z3.If(some_, z3.IntVal(1), z3.IntVal(0)), {'Some': (e,)})))]

def set_leaves(ctx):
    for l in ctx.leaves:
        if isinstance(l.entry, SetV) and not isinstance(l.path[0], str): yield l
def memb(s, c):
    if not isinstance(s, SetV): raise Unsupported('shape')
    return zb(s.mem(tuple(c)))

def rays_cands(u, rc, ended, passed, cs):
    def prov(ctx):
        out = []
        for l in set_leaves(ctx):
            m = lambda s, l=l: memb(l.get(s), cs)
            m0 = lambda l=l: memb(l.entry, cs)
            out.append((l.name + ': the ends of the rays so far', lambda s, m=m: m(s) == ended(ctx.count(s))))
            out.append((l.name + ': the cells of the rays so far', lambda s, m=m: m(s) == passed(ctx.count(s))))
            out.append((l.name + ': the cells or ends of the rays so far', lambda s, m=m: m(s) == z3.Or(ended(ctx.count(s)), passed(ctx.count(s)))))
            if rc.last is not None:
                a = rc.last
                out.append((l.name + ': and the cells of this ray so far', lambda s, m=m, m0=m0, a=a: m(s) == z3.Or(m0(), rc.inray(a)(ctx.count(s)))))
            for en in u.ex.set_enums[-1:]:
                mb, ix = memb(en.sv, cs), en.idx(*cs)
                out.append((l.name + ': less the elements so far', lambda s, m=m, m0=m0, mb=mb, ix=ix: m(s) == z3.And(m0(), z3.Not(z3.And(mb, ix < ctx.count(s))))))
                out.append((l.name + ': and the elements so far', lambda s, m=m, m0=m0, mb=mb, ix=ix: m(s) == z3.Or(m0(), z3.And(mb, ix < ctx.count(s)))))
        return out
    return prov

def c15(u):
    org = u.pt('origin')
    pts = u.pts_seq('pts')
    b = u.bounds('bounds')
    res, ml = u.f32('resolution'), u.f32('max_len')
    c = u.cell('c')
    cs = tuple(pcoords(c))
    rc = RayContract(u, cs)
    u.ex.contracts['cast_ray'] = rc
    u.ex.skolem_cells.append(cs)
    rest = leaves(b) + [res, ml]
    args = lambda j: leaves(org) + leaves(pts.at(j)) + rest
    ended = Prefix(u, 'ended', lambda j: rc.ends(args(j)))
    passed = Prefix(u, 'passed', lambda j: rc.touched(args(j)))
    u.ex.cands.append(rays_cands(u, rc, ended, passed, cs))
    u.reachable()
    outs = u.call('cast_rays', [u.ref(org), u.ref(u.cloud_of(pts)), u.ref(b), res, ml])
    if not outs: raise Unsupported("cast_rays never returns")
    free = lambda s, v: memb(v.f[0], cs)
    occ = lambda s, v: memb(v.f[1], cs)
    u.ensure_all('the occupied cells are exactly the ends of the rays', outs, lambda s, v: occ(s, v) == ended(pts.n))
    u.ensure_all('the free cells are exactly the cells passed that are not the end of any ray', outs, lambda s, v: free(s, v) == z3.And(passed(pts.n), z3.Not(ended(pts.n))))
    u.ensure_all('no cell is both free and occupied', outs, lambda s, v: z3.Not(z3.And(free(s, v), occ(s, v))))
    for s, v in outs: u.reachable(s, 'results')
    u.terminates()
    u.no_panic()

# ---- C14 -------------------------------------------------------------------------------------------
def float_vecs(v, path, n, out):
    """Vectors of n floats within a value."""
    if isinstance(v, Adt):
        if v.kind in ('mat', 'array') and len(v.f) == n and all(isinstance(x, Fl) for x in v.f): out.append((path, v.f))
        else:
            for i, x in enumerate(v.f): float_vecs(x, path + (i,), n, out)

def c14(signs):
    """A ray toward the cells on the given side on every axis (0: none to pass)."""
    def run(u):
        FT, N = u.FT, u.N
        H = q(Q(1, 2))
        u.ex.strategy, u.ex.feas_timeout = [(0.3, {}), (0.3, {'arith.solver': 2}), (0.4, {'random_seed': 5})], 50
        u.ex.joint = u.ex.generic = False
        u.ex.split_choices = True
        u.ex.linear = Lin()
        org, end = u.pt('origin', RES), u.pt('end', RES)
        b = u.bounds('bounds', RES)
        res, ml = FT.mk('f32', q(1), RES), u.f32('max_len', RES)
        o, e = cell_of(u, org, b, res), cell_of(u, end, b, res)
        u.ex.panics.clear()
        mn = [x.v[0] for x in pcoords(u.fld(b, 'min'))]
        P = [z3.Real(fresh_name('P')) for _ in range(N)]       # the origin, in cells from the center of the first cell
        D = [z3.Real(fresh_name('D')) for _ in range(N)]
        for i in range(N): u.st.pc += [P[i] == pcoords(org)[i].v[0] - mn[i], D[i] == pcoords(end)[i].v[0] - pcoords(org)[i].v[0]]
        for i, s in enumerate(signs):
            u.assume(z3.And(o[i] >= -CELLMAX, o[i] <= CELLMAX, e[i] >= -CELLMAX, e[i] <= CELLMAX))
            u.assume(e[i] > o[i] if s > 0 else e[i] < o[i] if s < 0 else e[i] == o[i])
        M = [i for i in range(N) if signs[i]]
        d = {i: signs[i] * D[i] for i in M}
        n = lambda c, i: signs[i] * ((z3.ToReal(c[i]) if isz(c[i]) else q(c[i])) - P[i])      # progress along the axis, in cells from the start
        u.reachable()
        for i in M: u.ensure('the ray moves along axis %d' % i, u.st, d[i] > 0)
        for i in M: u.st.pc.append(d[i] > 0)       # just proved
        L = z3.Real(fresh_name('L'))
        u.st.pc += [L > 0, L * L == sum((x * x for x in D), q(0))]
        # w: the length of the ray per cell of each axis; w1: the same for a ray whose parameter ends at 1
        w, w1 = {}, {}
        for i in M:
            w[i], w1[i] = z3.Real(fresh_name('w')), z3.Real(fresh_name('w1'))
            u.st.pc += [w[i] * d[i] == L, w1[i] * d[i] == 1, w[i] > 0, w1[i] > 0, w[i] == w1[i] * L]
        k = z3.Int(fresh_name('k'))
        u.assume(k >= 0)
        # scaling by a positive factor keeps the order: proved once, then used at the far border of every cell considered
        x_, y_, W_, T_ = [z3.Real(fresh_name(s)) for s in 'xyWT']
        st0 = u.st.fork()
        st0.pc = [W_ > 0, W_ * y_ == T_]
        u.ensure('scaling keeps the order', st0, z3.And((x_ <= y_) == (x_ * W_ <= T_), (x_ >= y_) == (x_ * W_ >= T_), (x_ <= 0) == (x_ * W_ <= 0), (x_ >= 0) == (x_ * W_ >= 0)))
        seen_ = {}
        def scaled(c, i):
            key = (c[i].get_id(), i) if isz(c[i]) else ('int', c[i], i)
            if key not in seen_:
                seen_[key] = c[i]
                for x in (n(c, i) + H, n(c, i) - H):
                    for W, T in ((w[i], L), (w1[i], q(1))):
                        u.ex.global_assume.append(z3.And((x <= d[i]) == (x * W <= T), (x >= d[i]) == (x * W >= T), (x <= 0) == (x * W <= 0), (x >= 0) == (x * W >= 0)))
        # the stretch of the ray within cell c on axis i is [(n - 1/2) w, (n + 1/2) w] of its length
        def lo(c, i):
            scaled(c, i)
            return (n(c, i) - H) * w[i]
        def hi(c, i):
            scaled(c, i)
            return (n(c, i) + H) * w[i]
        cross = lambda c: b_and(*[lo(c, i) <= hi(c, j) for i in M for j in M if i != j])
        ends_ = lambda c: b_and(*[b_and(n(c, i) + H >= 0, n(c, i) - H <= d[i]) for i in M])
        still = lambda c: b_and(*[c[i] == o[i] for i in range(N) if not signs[i]])
        touched = lambda c: b_and(cross(c), ends_(c), still(c))
        off = lambda c, i: z3.ToReal(c[i]) - (pcoords(org)[i].v[0] - mn[i])
        far = lambda c: sum((off(c, i) * off(c, i) for i in range(N)), q(0)) > ml.v[0] * ml.v[0]
        moved = lambda c, x, i: b_and(*[x[j] == c[j] + (signs[j] if j == i else 0) for j in range(N)])
        nearest_ = lambda c, i: b_and(c[i] != e[i], *[b_or(c[j] == e[j], hi(c, i) <= hi(c, j)) for j in M if j != i])
        follows = lambda c, x: b_or(*[b_and(moved(c, x, i), nearest_(c, i)) for i in M])
        tooshort = lambda c: b_and(ml.v[0] > 0, far(c))
        def prov(ctx):
            out = []
            vecs = []
            for key, v in ctx.entry.mem.items(): float_vecs(v, (key,), N, vecs)
            for path, fs in vecs:
                nm = '/'.join(str(x) for x in path)
                def get(s, path=path): return leaves(u.ex.load(s, path[0], path[1:]))
                for i in M:
                    if u.ex.FT._unit(fs[i]) == RES: out.append(('%s: length per cell, axis %d' % (nm, i), lambda s, i=i, get=get: get(s)[i].v[0] == w[i]))
                    else: out.append(('%s: parameter per cell, axis %d' % (nm, i), lambda s, i=i, get=get: get(s)[i].v[0] == w1[i]))
                    if u.ex.FT._unit(fs[i]) != (): continue
                    out.append(('%s: direction, axis %d' % (nm, i), lambda s, i=i, get=get: get(s)[i].v[0] * L == D[i]))
                    out.append(('%s: sign, axis %d' % (nm, i), lambda s, i=i, get=get: get(s)[i].v[0] == signs[i]))
            for cn, cur in int_groups(u, ctx):
                for fn_, F in float_groups(u, ctx):
                    for i in M:
                        if u.ex.FT._unit(F(ctx.entry)[i]) == RES: out.append(('%s is the length up to the far border of %s, axis %d' % (fn_, cn, i), lambda s, cur=cur, F=F, i=i: F(s)[i].v[0] == (n(cur(s), i) + H) * w[i]))
                        else: out.append(('%s is the parameter up to the far border of %s, axis %d' % (fn_, cn, i), lambda s, cur=cur, F=F, i=i: F(s)[i].v[0] == (n(cur(s), i) + H) * w1[i]))
                for i in range(N): out.append(('%s between the ends, axis %d' % (cn, i), lambda s, cur=cur, i=i: between(cur(s)[i], o[i], e[i])))
                out.append((cn + ' is not the end', lambda s, cur=cur: z3.Not(zb(cells_eq(cur(s), e)))))
                for i in M:
                    out.append(('%s: border before the end or end reached, axis %d' % (cn, i), lambda s, cur=cur, i=i: z3.If(cur(s)[i] == e[i], hi(cur(s), i) >= L, hi(cur(s), i) <= L)))
                    for j in M:
                        if i != j: out.append(('%s: entered axis %d before leaving axis %d' % (cn, i, j), lambda s, cur=cur, i=i, j=j: lo(cur(s), i) <= hi(cur(s), j)))
                for sn, seq in seqs(u, ctx):
                    out.append(('%s ends in %s' % (sn, cn), lambda s, cur=cur, seq=seq: b_and(seq(s).n >= 1, cells_eq(leaves(seq(s).at(simpi(seq(s).n - 1))), cur(s)))))
            for sn, seq in seqs(u, ctx):
                el = lambda s, i=k, seq=seq: leaves(seq(s).at(i))
                rng = lambda s, m=1, seq=seq: z3.And(k >= 0, k < seq(s).n + 1 - m)
                out.append((sn + ': cell k is touched', lambda s, el=el, rng=rng: b_imp(rng(s), touched(el(s)))))
                out.append((sn + ': cell k+1 lies behind the nearest border', lambda s, el=el, rng=rng: b_imp(rng(s, 2), follows(el(s), el(s, k + 1)))))
                out.append((sn + ': cell k is within the range', lambda s, el=el, rng=rng: b_imp(b_and(rng(s), k >= 1), b_not(tooshort(el(s))))))
            return out
        u.ex.cands.append(prov)
        u.ex.variants.append(lambda ctx: [('distance of %s to the end' % nm, lambda s, cur=cur: l1(cur(s), e)) for nm, cur in int_groups(u, ctx)])
        outs = u.call('cast_ray', [u.ref(org), u.ref(end), u.ref(b), res, ml])
        if not outs: raise Unsupported("cast_ray never returns")
        def cells(v):
            q_ = v.f[0]
            return Seq(0, lambda i: point(*o)) if isinstance(q_.n, int) and q_.n == 0 else q_
        def some_(v): return v.f[1].d == 1
        def each(v, g, m=0): return b_imp(z3.And(k >= 0, k < cells(v).n - m), g(leaves(cells(v).at(k))))
        last = lambda v: leaves(cells(v).at(simpi(cells(v).n - 1)))
        u.ensure_all('every cell is touched by the segment', outs, lambda s, v: each(v, touched))
        u.ensure_all('the next cell is the one behind the nearest border', outs, lambda s, v: b_imp(z3.And(k >= 0, k + 1 < cells(v).n), follows(leaves(cells(v).at(k)), leaves(cells(v).at(k + 1)))))
        if M: u.ensure_all('the end cell is the one behind the nearest border of the last cell', outs, lambda s, v: b_imp(some_(v), b_and(cells(v).n >= 1, follows(last(v), e))))
        u.ensure_all('no cell but that of the origin is beyond the range limit', outs, lambda s, v: b_imp(z3.And(k >= 1, k < cells(v).n), b_not(tooshort(leaves(cells(v).at(k))))))
        def cut(s, v):
            if not M: return some_(v)
            alts = []
            for i in M:
                x = [c + (signs[j] if j == i else 0) for j, c in enumerate(last(v))]
                alts.append(b_and(nearest_(last(v), i), b_not(cells_eq(x, e)), tooshort(x)))
            return b_or(some_(v), b_and(cells(v).n >= 1, b_or(*alts)))
        u.ensure_all('no end is reported only where the next cell is beyond the range limit and not the end cell', outs, cut)
        u.terminates()
        u.no_panic('never panics (cells up to 2^60)')
    return run

def c14_touch(u):
    """What the conditions on a touched cell mean: a point of the segment lies in the cell. (Stated for the parameter t of the
    segment from 0 to 1; the ray caster's conditions are the same multiplied by the length, a positive factor.)"""
    H = q(Q(1, 2))
    N = u.N
    P, D, w = [[z3.Real(fresh_name(n)) for _ in range(N)] for n in 'PDw']
    c = [z3.Int(fresh_name('c')) for _ in range(N)]
    o = [z3.Int(fresh_name('o')) for _ in range(N)]
    sg = [z3.Int(fresh_name('s')) for _ in range(N)]
    lo, hi = [], []
    for i in range(N):
        s = sg[i]
        nn = z3.If(s == 0, q(0), z3.If(s > 0, z3.ToReal(c[i]) - P[i], P[i] - z3.ToReal(c[i])))
        dd = z3.If(s > 0, D[i], -D[i])
        lo.append((nn - H) * w[i]); hi.append((nn + H) * w[i])
        u.assume(z3.And(s >= -1, s <= 1))
        u.assume(z3.Implies(s != 0, z3.And(dd > 0, w[i] * dd == 1, w[i] > 0, nn + H >= 0, nn - H <= dd)))
        # an axis without steps: both ends of the segment lie in the slab of the cell
        u.assume(z3.Implies(s == 0, z3.And(absr(z3.ToReal(c[i]) - P[i]) <= H, absr(z3.ToReal(c[i]) - P[i] - D[i]) <= H)))
    for i in range(N):
        for j in range(N):
            if i != j: u.assume(z3.Implies(z3.And(sg[i] != 0, sg[j] != 0), lo[i] <= hi[j]))
    u.reachable()
    # the point of the segment at the latest entry
    t = z3.Real(fresh_name('t'))
    u.assume(z3.And(t >= 0, *[z3.Implies(sg[i] != 0, t >= lo[i]) for i in range(N)]))
    u.assume(z3.Or(t == 0, *[z3.And(sg[i] != 0, t == lo[i]) for i in range(N)]))
    st = u.st
    u.ensure('the latest entry is on the segment', st, z3.And(t >= 0, t <= 1))
    for i in range(N):
        u.ensure('a touched cell contains a point of the segment, axis %d' % i, st, absr(P[i] + t * D[i] - z3.ToReal(c[i])) <= H)
