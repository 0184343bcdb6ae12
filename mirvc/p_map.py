"""Contracts of the grid maps (C01, C10, C11, C12, C22, C23)."""
from p_contracts import *

ASORT = z3.DeclareSort('A')

def elem_any(u):
    """A cell value of an arbitrary type."""
    return Opaque('A', z3.Const(fresh_name('a'), ASORT))
def elem_f32(u): return u.FT.fresh('f32', 'v')
def same_elem(u, a, b):
    if isinstance(a, Opaque): return a.term == b.term
    return u.same(a, b)

def nd(u, shape, label='data', f32=False):
    ints = [z3.IntSort()] * len(shape)
    if f32:
        f = z3.Function(fresh_name(label), *(ints + [u.FT.sort('f32') if u.FT.name == 'FP' else z3.RealSort()]))
        return NdArr(shape, lambda ix: Fl('f32', f(*[z3.IntVal(x) if isinstance(x, int) else x for x in ix])))
    f = z3.Function(fresh_name(label), *(ints + [ASORT]))
    return NdArr(shape, lambda ix: Opaque('A', f(*[z3.IntVal(x) if isinstance(x, int) else x for x in ix])))

def grid(u, data, resolution, bounds, tile, track=None, changed=None, clamp=None):
    if changed is None:
        changed, cs = fresh_seq(u.FT, point(*[z3.Int('t') for _ in range(u.N)]), 'changed')
        u.st.pc += cs
        if clamp:        # any sequence of cells with coordinates up to the limit
            g0 = changed.at
            changed = Seq(changed.n, lambda i: point(*[z3.If(z3.And(x >= -clamp, x <= clamp), x, 0) for x in pcoords(g0(i))]))
    return u.struct('GridMapN', data=data, resolution=resolution, bounds=bounds, tile_size=tile,
                    track_changes=u.bool('track') if track is None else track, changed_cells=changed)

def any_grid(u, f32=False, shape_max=2 ** 40):
    """Any grid map whatever: any extents, any contents."""
    shape = [u.int('shape.%d' % i, 0, shape_max) for i in range(u.N)]
    d = nd(u, shape, f32=f32)
    g = grid(u, d, u.f32('resolution'), u.bounds('bounds'), u.int('tile', 0, 2 ** 63))
    return g, d, shape

def inside(c, shape): return b_and(*[z3.And(x >= 0, x < n) for x, n in zip(c, shape)])
def cells_eq(a, b): return b_and(*[x == y for x, y in zip(a, b)])

def meta_same(u, g0, st, g1, k, data=False, changed=True):
    """Everything but the data (and the data if asked) is unchanged; k: any index into the changed cells."""
    out = [u.same_all(u.fld(g1, 'bounds'), u.fld(g0, 'bounds')), u.same(u.fld(g1, 'resolution'), u.fld(g0, 'resolution')),
           u.fld(g1, 'tile_size') == u.fld(g0, 'tile_size'), zb(u.fld(g1, 'track_changes')) == zb(u.fld(g0, 'track_changes'))]
    if changed: out.append(changed_same(u, g0, g1, k))
    return b_and(*out)
def changed_same(u, g0, g1, k):
    a, b = u.fld(g0, 'changed_cells'), u.fld(g1, 'changed_cells')
    if any(isinstance(x.n, int) and x.n == 0 for x in (a, b)): return a.n == b.n
    return b_and(a.n == b.n, b_imp(z3.And(k >= 0, k < a.n), cells_eq(leaves(a.at(k)), leaves(b.at(k)))))
def data_same(u, g0, g1, d):
    a, b = u.fld(g0, 'data'), u.fld(g1, 'data')
    return b_and(*[x == y for x, y in zip(a.shape, b.shape)], b_imp(inside(d, a.shape), same_elem(u, a.at(d), b.at(d))))

# ---- C10 -------------------------------------------------------------------------------------------
def c10_store(u):
    g, data, shape = any_grid(u)
    c, d, v = u.cell('c'), u.cell('d'), elem_any(u)
    C, D = tuple(pcoords(c)), tuple(pcoords(d))
    k = z3.Int(fresh_name('k'))
    u.reachable()
    rg, rc, rd = u.ref(g), u.ref(c), u.ref(d)
    outs = u.call('GridMapN::get', [rg, rc], trait='GridMap')
    if not outs: raise Unsupported("get never returns")
    u.ensure_all('get: the value of the cell', outs, lambda s, r: same_elem(u, r, data.at(C)))
    u.ensure_all('get: only cells inside of the map are readable', outs, lambda s, r: inside(C, shape))
    for s, m in u.ex.panics: u.ensure('get: panics only outside of the map', s, b_not(inside(C, shape)))
    u.ensure_all('get: the map is unchanged', outs, lambda s, r: b_and(meta_same(u, g, s, u.ex.deref(s, rg), k), data_same(u, g, u.ex.deref(s, rg), D)))
    u.ex.panics.clear()
    outs = u.call('GridMapN::set', [rg, rc, v], trait='GridMap')
    if not outs: raise Unsupported("set never returns")
    u.ensure_all('set: only cells inside of the map are writable', outs, lambda s, r: inside(C, shape))
    for s, m in u.ex.panics: u.ensure('set: panics only outside of the map', s, b_not(inside(C, shape)))
    u.ex.panics.clear()
    for s, _ in outs:
        g1 = u.ex.deref(s, rg)
        u.ensure('set: the cell holds the value', s, same_elem(u, u.fld(g1, 'data').at(C), v))
        s2 = s.fork(); s2.pc += [zb(inside(D, shape)), z3.Not(zb(cells_eq(C, D)))]
        u.ensure('set: every other cell is unchanged', s2, same_elem(u, u.fld(g1, 'data').at(D), data.at(D)))
        u.ensure('set: same extents', s, b_and(*[x == y for x, y in zip(u.fld(g1, 'data').shape, shape)]))
        u.ensure('set: bounds, resolution, tile size and change tracking are unchanged', s, meta_same(u, g, s, g1, k))
        o2 = u.call('GridMapN::get', [rg, rc], s.fork(), trait='GridMap')
        u.ensure_all('a written value is read back', o2, lambda s3, r: same_elem(u, r, v))
        o2 = u.call('GridMapN::get', [rg, rd], s2, trait='GridMap')
        u.ensure_all('another cell reads as before', o2, lambda s3, r: same_elem(u, r, data.at(D)))
    u.no_panic('reads of cells inside never panic')

def near_int(u, x, k):
    kr = z3.ToReal(k) if isz(k) else q(k)
    return within(x, kr, tol(u, 1, kr))

def aligned_box(u, label, lo=-CMAX // 2, hi=CMAX // 2):
    """A box with its faces on multiples of the resolution, to within float tolerance; (box, min cells, max cells)."""
    b = u.bounds(label, RES)
    bn, bx = corners(u, b)
    m, M = [], []
    for i in range(u.N):
        a, c = z3.Int(fresh_name('m')), z3.Int(fresh_name('M'))
        u.st.pc += [a >= lo, c <= hi, a <= c, near_int(u, bn[i].v[0], a), near_int(u, bx[i].v[0], c), bn[i].v[0] <= bx[i].v[0]]
        m.append(a); M.append(c)
    return b, m, M

def c10_new(u):
    FT = u.FT
    b, m, M = aligned_box(u, 'bounds')
    t, v = u.int('tile', 0, 2 ** 63), elem_any(u)
    c = u.cell('c')
    C = tuple(pcoords(c))
    u.reachable()
    outs = u.call('GridMapN::new', [FT.mk('f32', q(1), RES), b, t, v])
    if not outs: raise Unsupported("new never returns")
    for i in range(u.N):
        u.ensure_all('new: one cell per resolution step, axis %d' % i, outs, lambda s, g: u.fld(g, 'data').shape[i] == M[i] - m[i])
    u.ensure_all('new: every cell holds the default value', outs, lambda s, g: b_imp(inside(C, u.fld(g, 'data').shape), same_elem(u, u.fld(g, 'data').at(C), v)))
    u.ensure_all('new: the bounds, resolution and tile size are those given', outs, lambda s, g: b_and(
        u.same_all(u.fld(g, 'bounds'), b), sval(u.fld(g, 'resolution'), RES) == 1, u.fld(g, 'tile_size') == t))
    u.ensure_all('new: no changes are tracked', outs, lambda s, g: b_and(b_not(u.fld(g, 'track_changes')), u.fld(g, 'changed_cells').n == 0))
    for s, g in outs:
        rg = u.ref(g, s)
        s2 = s.fork(); s2.pc.append(zb(inside(C, [y - x for x, y in zip(m, M)])))
        o2 = u.call('GridMapN::get', [rg, u.ref(c, s2)], s2, trait='GridMap')
        u.ensure_all('new: every cell reads as the default value', o2, lambda s3, r: same_elem(u, r, v))
    u.no_panic()

def c10_other(u):
    FT = u.FT
    g, data, shape = any_grid(u)
    k = z3.Int(fresh_name('k'))
    D = tuple(pcoords(u.cell('d')))
    u.reachable()
    outs = u.call('GridMapN::from_ndarray', [data, u.fld(g, 'resolution'), u.fld(g, 'bounds'), u.fld(g, 'tile_size')])
    u.ensure_all('from_ndarray: keeps what it is given', outs, lambda s, h: b_and(data_same(u, g, h, D), u.same_all(u.fld(h, 'bounds'), u.fld(g, 'bounds')),
        u.same(u.fld(h, 'resolution'), u.fld(g, 'resolution')), u.fld(h, 'tile_size') == u.fld(g, 'tile_size'),
        b_not(u.fld(h, 'track_changes')), u.fld(h, 'changed_cells').n == 0))
    rg = u.ref(g)
    outs = u.call('GridMapN::resolution', [rg], trait='GridMap')
    u.ensure_all('resolution() is the resolution', outs, lambda s, r: u.same(r, u.fld(g, 'resolution')))
    outs = u.call('GridMapN::bounds', [rg], trait='GridMap')
    u.ensure_all('bounds() are the bounds', outs, lambda s, r: u.same_all(r, u.fld(g, 'bounds')))
    u.no_panic()
    outs = u.call('GridMapN::default', [])
    u.ensure_all('default: an empty map', outs, lambda s, h: b_and(is_zero_box(u, u.fld(h, 'bounds')), *[x == 0 for x in u.fld(h, 'data').shape],
        b_not(u.fld(h, 'track_changes')), u.fld(h, 'changed_cells').n == 0))
    u.no_panic('default never panics')

# ---- C01: the conversions of the map -------------------------------------------------------------------
def c01_grid(u):
    units, p, o, c, res = conv_inputs(u)
    b = u.struct('Bounds', min=o, max=u.pt('max', RES))
    g = grid(u, nd(u, [u.int('shape.%d' % i, 0, 2 ** 40) for i in range(u.N)]), res[0], b, u.int('tile', 0, 2 ** 63))
    u.reachable()
    P_, O_, C_ = pcoords(p), pcoords(o), pcoords(c)
    rg = u.ref(g)
    outs = u.call('GridMapN::point_from_cell', [rg, u.ref(c)], trait='GridMap')
    for i in range(u.N):
        u.ensure_all('the map measures from the minimum corner, axis %d: the centre of the cell' % i, outs, lambda s, v: centre(sval(pcoords(v)[i], RES), C_[i], O_[i].v[0]))
    outs = u.call('GridMapN::cell_from_point', [rg, u.ref(p)], trait='GridMap')
    for i in range(u.N):
        u.ensure_all('the map measures from the minimum corner, axis %d: the nearest cell' % i, outs, lambda s, v: nearest(pcoords(v)[i], P_[i].v[0] - O_[i].v[0]))
    u.no_panic()

# ---- C11, C12, C22: growing ------------------------------------------------------------------------------
class TileContract:
    """The contract of CellBounds::discretized decided under C06, as a function of the coordinates: the remainders of the
    Euclidean division of x and of -x by the tile size."""
    def __init__(self, u, t):
        self.u, self.t = u, t
        self.mod = z3.Function(fresh_name('MOD'), z3.IntSort(), z3.IntSort())
        self.up = z3.Function(fresh_name('UPMOD'), z3.IntSort(), z3.IntSort())
        self.calls = []
    def facts(self, x):
        """x mod t and (-x) mod t; the distance to the next multiple of t below and above."""
        a, b, t = self.mod(x), self.up(x), self.t
        return [a >= 0, a < t, b >= 0, b < t, (a == 0) == (b == 0), z3.Implies(a > 0, a + b == t)]
    def multiple(self, x): return self.mod(x) == 0
    def __call__(self, ex, st, args):
        cb = ex.deref(st, args[0])
        if args[1] is not self.t and not ex.proves(st.pc, args[1] == self.t)[0] == 'proved':
            raise Unsupported("CellBounds::discretized with another tile size")
        fs = cb.f
        u = self.u
        mn, mx = corners(u, cb)
        for x in list(mn) + list(mx):
            for s in ex.check_or_panic(st, z3.And(x >= -2 ** 61, x <= 2 ** 61), "precondition of CellBounds::discretized"): pass
            st.pc += self.facts(x)
        rn, rx = [x - self.mod(x) for x in mn], [x + self.up(x) for x in mx]
        for r in rn + rx: st.pc += self.facts(r) + [self.mod(r) == 0]
        r = u.struct('CellBounds', min=point(*rn), max=point(*rx))
        self.calls.append((mn, mx, rn, rx))
        return [(st, r)]

RQMAX = CE // 4
MIXED = [(0.1, {'arith.solver': 2}), (0.1, {}), (0.1, {'arith.solver': 2, 'random_seed': 7}), (0.4, {'random_seed': 3}), (0.3, {'arith.solver': 2, 'random_seed': 11})]

def expand_setup(u, empty, degenerate=False):
    """A map (empty, or with aligned bounds whose faces are multiples of the tile size) and a request."""
    FT = u.FT
    FT.coarse = True
    N = u.N
    t = u.int('tile', 1, CE // 8)
    tc = TileContract(u, t)
    u.ex.contracts['CellBounds::discretized'] = tc
    u.ex.strategy, u.ex.feas_timeout = MIXED, 1500
    u.ex.weak |= {t.decl().name(), tc.mod.name(), tc.up.name()}
    use(u, 'Bounds::enclosing', 'Bounds::discretized', 'CellBounds::from_bounds', 'Bounds::from_cell_bounds', 'cell_from_point')
    if empty:
        z = FT.const(0.0, 'f32')
        b, m, M = u.struct('Bounds', min=point(*[z] * N), max=point(*[z] * N)), [0] * N, [0] * N
        shape = [0] * N
    else:
        b, m, M = aligned_box(u, 'bounds', -RQMAX, RQMAX)
        bn, bx = corners(u, b)
        for i in range(N): u.assume(m[i] < M[i])
        shape = [simpi(y - x) for x, y in zip(m, M)]
    data = nd(u, shape)
    g = grid(u, data, FT.mk('f32', q(1), RES), b, t, clamp=2 ** 40)
    rq = u.bounds('request', RES)
    rn, rx = corners(u, rq)
    for x, y in zip(rn, rx): u.assume(z3.And(x.v[0] <= y.v[0], x.v[0] >= -RQMAX, y.v[0] <= RQMAX))
    return t, tc, b, m, M, shape, data, g, rq, rn, rx

def run_expand(u, g, rq, v):
    rg = u.ref(g)
    outs = u.call('GridMapN::expand_bounds', [rg, u.ref(rq), v], trait='ExpandableGridMap')
    if not outs: raise Unsupported("expand_bounds never returns")
    return rg, outs

def thin_panics(u, rn, rx):
    """Panics of requests thinner than 2^-20 of a cell and of their coordinates are out of the reach of the rounding model."""
    for i in range(u.N):
        thick = rx[i].v[0] - rn[i].v[0] >= q(Q(1, 16))
        for s, m in u.ex.panics: s.pc.append(thick)

def changed_shift_cands(u, k, off):
    def prov(ctx):
        out = []
        for l in ctx.leaves:
            if not isinstance(l.entry, Seq): continue
            e0 = l.entry
            def f(s, l=l, e0=e0, k=k):
                a, b = leaves(l.get(s).at(k)), leaves(e0.at(k))
                if len(a) != u.N: raise Unsupported('shape')
                return z3.If(ctx.count(s) > k, zb(b_and(*[x == y + o for x, y, o in zip(a, b, off)])), zb(cells_eq(a, b)))
            out.append((l.name + ' shifted up to count', f, lambda s, f=f: f(s, k=ctx.count(s))))
        return out
    return prov

def c11(empty):
    def run(u):
        t, tc, b, m, M, shape, data, g, rq, rn, rx = expand_setup(u, empty)
        v = elem_any(u)
        c, d = u.cell('c', -2 ** 40, 2 ** 40), u.cell('d', -2 ** 40, 2 ** 40)
        C, D = tuple(pcoords(c)), tuple(pcoords(d))
        k = u.int('k', 0)
        u.reachable()
        # the offset is known only after the call: the candidate reads it from the recorded contract call
        def cands(ctx):
            if not tc.calls: return []
            off = [x - r for x, r in zip(m, tc.calls[-1][2])]
            return changed_shift_cands(u, k, off)(ctx)
        u.ex.cands.append(cands)
        rg, outs = run_expand(u, g, rq, v)
        bn, bx = corners(u, b)
        mn, mx, Rn, Rx = tc.calls[-1]
        E = Q(1, 4)
        for j, (s, _) in enumerate(outs):
            g1 = u.ex.deref(s, rg)
            d1, b1 = u.fld(g1, 'data'), u.fld(g1, 'bounds')
            n1, x1 = corners(u, b1)
            tag = '' if len(outs) == 1 else ' [path %d]' % j
            # the new extents in cells: those of the new bounds
            lo, hi = [z3.Int(fresh_name('lo')) for _ in range(u.N)], [z3.Int(fresh_name('hi')) for _ in range(u.N)]
            s2 = s.fork()
            s2.pc += [near_int(u, sval(x, RES), a) for x, a in zip(n1, lo)] + [near_int(u, sval(x, RES), a) for x, a in zip(x1, hi)]
            s2.pc += [z3.And(a >= -CE, a <= CE) for a in lo + hi]
            if j == 0: u.reachable(s2, 'results')
            # the new bounds are aligned: there are such integers
            for i in range(u.N):
                u.ensure('the new bounds lie on multiples of the resolution, axis %d%s' % (i, tag), s,
                         z3.And(z3.Or(*[near_int(u, sval(n1[i], RES), a) for a in (m[i], Rn[i]) if isz(a)]),
                                z3.Or(*[near_int(u, sval(x1[i], RES), a) for a in (M[i], Rx[i]) if isz(a)])))
                u.ensure('one cell per resolution step, axis %d%s' % (i, tag), s2, d1.shape[i] == hi[i] - lo[i])
                if not empty:
                    u.ensure('the new bounds contain the old, axis %d%s' % (i, tag), s, z3.And(
                        sval(n1[i], RES) <= bn[i].v[0] + q(E), sval(x1[i], RES) >= bx[i].v[0] - q(E)))
                u.ensure('the new bounds contain the request, axis %d%s' % (i, tag), s, z3.And(
                    sval(n1[i], RES) <= rn[i].v[0] + q(E), sval(x1[i], RES) >= rx[i].v[0] - q(E)))
            if not empty:
                s3 = s2.fork(); s3.pc.append(zb(inside(C, shape)))
                to = tuple(x + mi - l for x, mi, l in zip(C, m, lo))
                u.ensure('every old cell is still inside' + tag, s3, inside(to, d1.shape))
                u.ensure('every old cell keeps its value at its place in the world' + tag, s3, same_elem(u, d1.at(to), data.at(C)))
                cc0, cc1 = u.fld(g, 'changed_cells'), u.fld(g1, 'changed_cells')
                u.ensure('as many tracked cells' + tag, s2, cc0.n == cc1.n)
                s4 = s2.fork(); s4.pc.append(k < cc0.n)
                u.ensure('tracked cells keep their place in the world' + tag, s4,
                         cells_eq(leaves(cc1.at(k)), [x + mi - l for x, mi, l in zip(leaves(cc0.at(k)), m, lo)]))
            s3 = s2.fork(); s3.pc.append(zb(inside(D, d1.shape)))
            if not empty: s3.pc.append(z3.Not(zb(inside(tuple(x - mi + l for x, mi, l in zip(D, m, lo)), shape))))
            u.ensure('every new cell holds the default value' + tag, s3, same_elem(u, d1.at(D), v))
            u.ensure('resolution, tile size and tracking are unchanged' + tag, s, b_and(sval(u.fld(g1, 'resolution'), RES) == 1, u.fld(g1, 'tile_size') == t,
                     zb(u.fld(g1, 'track_changes')) == zb(u.fld(g, 'track_changes'))))
            if not empty:
                # a map of whole tiles that reaches a cell beyond the request is left alone
                s5 = s.fork()
                for i in range(u.N):
                    s5.pc += tc.facts(m[i]) + tc.facts(M[i]) + [tc.multiple(m[i]), tc.multiple(M[i])]
                    s5.pc += [rn[i].v[0] >= bn[i].v[0] + q(E), rx[i].v[0] + 1 <= bx[i].v[0] - q(E)]
                if j == 0: u.reachable(s5, 'hypotheses of the covered request')
                u.ensure('a map that covers the request keeps its bounds' + tag, s5, u.same_all(b1, b))
                u.ensure('a map that covers the request keeps its data' + tag, s5, data_same(u, g, g1, C))
        thin_panics(u, rn, rx)
        u.no_panic('never panics (requests thicker than 2^-20 of a cell and of their coordinates)')
        u.terminates()
    return run

def c12(empty):
    def run(u):
        t, tc, b, m, M, shape, data, g, rq, rn, rx = expand_setup(u, empty)
        v = elem_any(u)
        p = u.pt('p', RES)
        for x, lo, hi in zip(pcoords(p), rn, rx): u.assume(z3.And(lo.v[0] <= x.v[0], x.v[0] <= hi.v[0]))
        u.reachable()
        rg, outs = run_expand(u, g, rq, v)
        u.ex.panics.clear()          # decided under C11
        mn, mx, Rn, Rx = tc.calls[-1]
        for j, (s, _) in enumerate(outs):
            g1 = u.ex.deref(s, rg)
            d1, b1 = u.fld(g1, 'data'), u.fld(g1, 'bounds')
            n1, x1 = corners(u, b1)
            tag = '' if len(outs) == 1 else ' [path %d]' % j
            o2 = u.call('GridMapN::cell_from_point', [rg, u.ref(p, s)], s.fork(), trait='GridMap')
            for i in range(u.N):
                u.ensure_all('every point of the request has a cell of the map, axis %d%s' % (i, tag), o2, lambda s2, r: z3.And(pcoords(r)[i] >= 0, pcoords(r)[i] < d1.shape[i]))
            u.no_panic('the conversion never panics' + tag)
            s5 = s.fork()
            if not empty:
                for i in range(u.N): s5.pc += tc.facts(m[i]) + tc.facts(M[i]) + [tc.multiple(m[i]), tc.multiple(M[i])]
            for i in range(u.N):
                ends = [a for a in (m[i], Rn[i]) if isz(a)], [a for a in (M[i], Rx[i]) if isz(a)]
                u.ensure('the extent runs between multiples of the tile size, axis %d%s' % (i, tag), s5, z3.Or(*[
                    z3.And(near_int(u, sval(n1[i], RES), a), near_int(u, sval(x1[i], RES), c), tc.multiple(a), tc.multiple(c), d1.shape[i] == c - a)
                    for a in ends[0] for c in ends[1]]))
    return run
