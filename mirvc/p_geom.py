"""Contracts for the geometry: boxes, conversions, rounding (C01-C07)."""
from spec import *
from fractions import Fraction as Q

RES = (('res', 1),)
CMAX = 2 ** 18          # cells/positions considered in the rounding model, in units of the resolution
def q(x): return fl.rnum(Q(x))

def absr(x): return z3.If(x >= 0, x, -x)

def sval(f, unit=None):
    """Real part of a float of the rounding model (the unit must be the given one, unless it is zero)."""
    s, u = f.v
    if unit is not None and u != unit and not (z3.is_rational_value(z3.simplify(s)) and z3.simplify(s).as_fraction() == 0):
        raise Unsupported("unexpected unit %r" % (u,))
    return s

def box(u, label):
    b = u.bounds(label)
    for x, y in zip(pcoords(u.fld(b, 'min')), pcoords(u.fld(b, 'max'))): u.assume(u.le(x, y))
    return b
def corners(u, b): return pcoords(u.fld(b, 'min')), pcoords(u.fld(b, 'max'))
def is_zero_box(u, b): return b_and(*[u.eq(x, u.FT.const(0.0, 'f32')) for x in leaves(b)])

# ---- C03 -------------------------------------------------------------------------------------------
def c03(u):
    a, b = box(u, 'a'), box(u, 'b')
    u.reachable()
    outs = u.call('Bounds::enclosing', [u.ref(a), u.ref(b)])
    (an, ax), (bn, bx) = corners(u, a), corners(u, b)
    e = zb(is_zero_box(u, a))
    def g_contains(s, v):
        vn, vx = corners(u, v)
        return z3.Or(e, *[]) if False else b_imp(z3.Not(e), b_and(*[c for i in range(u.N) for c in
                (u.le(vn[i], an[i]), u.le(vn[i], bn[i]), u.le(ax[i], vx[i]), u.le(bx[i], vx[i]))]))
    u.ensure_all('contains both boxes', outs, g_contains)
    def g_tight(s, v):
        vn, vx = corners(u, v)
        return b_imp(z3.Not(e), b_and(*[c for i in range(u.N) for c in
                (b_or(u.eq(vn[i], an[i]), u.eq(vn[i], bn[i])), b_or(u.eq(vx[i], ax[i]), u.eq(vx[i], bx[i])))]))
    u.ensure_all('every face is a face of one of the boxes', outs, g_tight)
    u.ensure_all('an empty first box is ignored', outs, lambda s, v: b_imp(e, b_and(*[u.eq(x, y) for x, y in zip(leaves(v), leaves(b))])))
    u.no_panic()

# ---- C04 -------------------------------------------------------------------------------------------
def c04(u):
    a, b = box(u, 'a'), box(u, 'b')
    u.reachable()
    outs = u.call('Bounds::overlapping', [u.ref(a), u.ref(b)])
    (an, ax), (bn, bx) = corners(u, a), corners(u, b)
    hi = [u.FT.min(ax[i], bx[i]) for i in range(u.N)]
    lo = [u.FT.max(an[i], bn[i]) for i in range(u.N)]
    apart = b_or(*[u.le(hi[i], lo[i]) for i in range(u.N)])
    u.ensure_all('disjoint or touching boxes give the empty box', outs, lambda s, v: b_imp(apart, is_zero_box(u, v)))
    def inter(v):
        vn, vx = corners(u, v)
        return b_and(*[c for i in range(u.N) for c in (u.eq(vn[i], lo[i]), u.eq(vx[i], hi[i]))])
    u.ensure_all('the result is the intersection or the empty box', outs, lambda s, v: b_or(inter(v), is_zero_box(u, v)))
    u.no_panic()

def c04_tol(u):
    a, b = box(u, 'a'), box(u, 'b')
    (an, ax), (bn, bx) = corners(u, a), corners(u, b)
    for x in list(an) + list(ax) + list(bn) + list(bx): u.assume(z3.And(x.v[0] <= 2 ** 30, x.v[0] >= -2 ** 30))
    hi = [u.FT.min(ax[i], bx[i]) for i in range(u.N)]
    lo = [u.FT.max(an[i], bn[i]) for i in range(u.N)]
    tol = q(Q(1, 2 ** 20))
    for i in range(u.N):
        h, l = hi[i].v[0], lo[i].v[0]
        u.assume(z3.And(h - l > tol, h - l > tol * absr(h), h - l > tol * absr(l)))
    u.reachable()
    outs = u.call('Bounds::overlapping', [u.ref(a), u.ref(b)])
    def inter(s, v):
        vn, vx = corners(u, v)
        return b_and(*[c for i in range(u.N) for c in (u.eq(vn[i], lo[i]), u.eq(vx[i], hi[i]))])
    u.ensure_all('clearly overlapping boxes give their intersection', outs, inter)
    u.no_panic()

def c04_touch(u):
    a, b = box(u, 'a'), box(u, 'b')
    (an, ax), (bn, bx) = corners(u, a), corners(u, b)
    for x in list(an) + list(ax) + list(bn) + list(bx): u.assume(z3.And(x.v[0] <= 2 ** 30, x.v[0] >= -2 ** 30))
    tol = q(Q(1, 2 ** 24))
    near = []
    for i in range(u.N):
        h, l = u.FT.min(ax[i], bx[i]).v[0], u.FT.max(an[i], bn[i]).v[0]
        near.append(z3.Or(h - l <= tol, h - l <= tol * absr(h), h - l <= tol * absr(l)))
    u.assume(z3.Or(*near))
    u.reachable()
    outs = u.call('Bounds::overlapping', [u.ref(a), u.ref(b)])
    u.ensure_all('boxes that touch to within half the float tolerance give the empty box', outs, lambda s, v: is_zero_box(u, v))
    u.no_panic()

# ---- C05 -------------------------------------------------------------------------------------------
def c05(u):
    FT = u.FT
    b = u.bounds('b', RES)
    bn, bx = corners(u, b)
    for x, y in zip(bn, bx):
        u.assume(z3.And(x.v[0] <= y.v[0], x.v[0] >= -CMAX, y.v[0] <= CMAX))
    expand = u.bool('expand')
    res = FT.mk('f32', q(1), RES)
    u.reachable()
    outs = u.call('Bounds::discretized', [u.ref(b), res, expand])
    T = q(Q(1, 2 ** 21))
    st0 = u.st
    for i in range(u.N):
        sn, sx = bn[i].v[0], bx[i].v[0]
        tn, tx = T * (1 + absr(sn)), T * (1 + absr(sx))
        kni, kxi = z3.Int(fresh_name('kn')), z3.Int(fresh_name('kx'))     # any integers
        kn, kx = z3.ToReal(kni), z3.ToReal(kxi)
        for k, (s, v) in enumerate(outs):
            vn, vx = corners(u, v)
            lo, hi = sval(vn[i], RES), sval(vx[i], RES)
            def ens(nm, g, *hyps):
                s2 = s.fork()
                s2.pc += [zb(h) for h in hyps]
                for kk, src, tag in ((kni, sn, kn), (kxi, sx, kx)):      # integers are equal or at least 1 apart
                    if any(tag.get_id() in [c.get_id() for c in subterms(h)] for h in list(hyps) + [g] if isz(h)):
                        s2.pc += [z3.Or(kk == w, kk <= w - 1, kk >= w + 1) for (_, (w, _)) in FT.kc.items() if related(u, w, src)]
                u.ensure('axis %d: %s' % (i, nm), s2, g)
            ens('contains the minimum face', lo <= sn + tn)
            ens('contains the maximum face', hi >= sx - tx)
            ens('less than one cell larger at the minimum', lo > sn - 1 - tn)
            ens('at most one cell larger at the maximum', hi <= sx + 1 + tx)
            ens('a minimum face on a multiple does not move', lo == sn, absr(sn - kn) * 2 ** 25 <= absr(sn))
            ens('a maximum face on a multiple does not move without expansion', hi == sx, absr(sx - kx) * 2 ** 25 <= absr(sx), z3.Not(expand))
            ens('a maximum face on a multiple moves by one cell with expansion', absr(hi - sx - 1) <= tx, absr(sx - kx) * 2 ** 25 <= absr(sx), expand)
            # off the multiples: strictly between two neighbouring integers kx-1 and kx
            ens('a maximum face off the multiples moves to the next multiple', absr(hi - kx) <= tx, kx - 1 + tx < sx, sx < kx - tx)
            ens('a minimum face off the multiples moves to the previous multiple', absr(lo - kn) <= tn, kn + tn < sn, sn < kn + 1 - tn)
            for nm, f, src, t in (('minimum', lo, sn, tn), ('maximum', hi, sx, tx)):
                ws = [kk for (key, (kk, _)) in FT.kc.items()]
                ens('the %s face lies on a multiple of the resolution' % nm,
                    z3.Or(*[absr(f - z3.ToReal(w) - d) <= 2 * t for w in ws for d in (0, 1) if related(u, w, src)]))
    for i in range(u.N):
        sn, sx = bn[i].v[0], bx[i].v[0]
        thick = sx - sn >= q(Q(1, 2 ** 20)) * (1 + absr(sn))
        for s, m in u.ex.panics: s.pc.append(thick)
    u.no_panic('never panics (boxes thicker than 2^-20 of a cell and of their coordinates)')

def subterms(e):
    out, seen, work = [], set(), [e]
    while work:
        x = work.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); out.append(x); work += x.children()
    return out

def related(u, w, src):
    """The integer w was computed from src."""
    vs = u.ex.vars_of(src)
    seen, work = set(), [w.get_id()]
    while work:
        v = work.pop()
        if v in seen: continue
        seen.add(v)
        if v in vs: return True
        if v in u.FT.axioms:
            for c in u.FT.axioms[v][1]: work += list(u.ex.vars_of(c))
    return False

# ---- C06 -------------------------------------------------------------------------------------------
def c06(u):
    L = 2 ** 61
    cb = u.cell_bounds('cb', -L, L)
    t = u.int('tile', 1, L)
    u.reachable()
    outs = u.call('CellBounds::discretized', [u.ref(cb), t])
    (mn, mx) = corners(u, cb)
    for i in range(u.N):
        for s, v in outs:
            vn, vx = corners(u, v)
            for nm, x, r in (('min', mn[i], vn[i]), ('max', mx[i], vx[i])):
                f = t * (x / t) if nm == 'min' else -(t * ((-x) / t))
                for sg, cond in (('negative', x < 0), ('non-negative', x >= 0)):
                    s2 = s.fork(cond)
                    s2.pc += mod_lemma(x, t) + mod_lemma(-x, t)
                    u.ensure('axis %d %s: nearest multiple of the tile size (%s cells)' % (i, nm, sg), s2, r == f)
    u.no_panic()

def mod_lemma(x, t):
    """Facts of Euclidean division, instantiated (they are valid in SMT-LIB integer arithmetic for t > 0)."""
    d, m = x / t, x % t
    nd, nm = (-x) / t, (-x) % t
    return [x == t * d + m, m >= 0, m < t, -x == t * nd + nm, nm >= 0, nm < t,
            z3.If(m == 0, z3.And(nm == 0, nd == -d), z3.And(nm == t - m, nd == -d - 1, t * nd == -(t * d) - t))]

def c06_lemma(u):
    """The division facts used above, proved from the defining equations alone."""
    x, t, d, m, nd, nm = z3.Ints('x t d m nd nm')
    k = z3.Int('k')
    st = State(pc=[t > 0, x == t * d + m, m >= 0, m < t, -x == t * nd + nm, nm >= 0, nm < t])
    s0 = State(pc=st.pc + [k == d + nd, t * k == t * d + t * nd])
    u.ensure('lemma: t*(d+nd) = -(m+nm)', s0, t * k == -(m + nm))
    s1 = State(pc=[t > 0, m >= 0, m < t, nm >= 0, nm < t, t * k == -(m + nm)])
    u.ensure('lemma: the quotients of x and -x sum to 0 or -1', s1, z3.And(k <= 0, k >= -1))
    s2 = State(pc=[t > 0, m >= 0, m < t, nm >= 0, nm < t, k == 0, m + nm == 0])
    u.ensure('lemma: sum 0 means both remainders are 0', s2, z3.And(m == 0, nm == 0))
    s3 = State(pc=[t > 0, m >= 0, m < t, nm >= 0, nm < t, k == -1, m + nm == t])
    u.ensure('lemma: sum -1 means the remainders add up to the divisor', s3, z3.And(m > 0, nm == t - m))

# ---- C07 -------------------------------------------------------------------------------------------
TOL = Q(1, 2 ** 21)
def close(x, y): return absr(x - y) <= q(TOL) * (1 + absr(y))

def c07_cell_bounds(u):
    FT = u.FT
    cb = u.cell_bounds('cb', -CMAX, CMAX)
    u.reachable()
    res = FT.mk('f32', q(1), RES)
    (mn, mx) = corners(u, cb)
    outs = u.call('Bounds::from_cell_bounds', [u.ref(cb), res])
    def g(s, v):
        vn, vx = corners(u, v)
        return b_and(*[close(sval(vn[i], RES), z3.ToReal(mn[i])) for i in range(u.N)], *[close(sval(vx[i], RES), z3.ToReal(mx[i])) for i in range(u.N)])
    u.ensure_all('from_cell_bounds: corners are the points of the corner cells', outs, g)
    units = [(('res%d' % i, 1),) for i in range(u.N)]
    resn = point(*[FT.mk('f32', q(1), units[i]) for i in range(u.N)])
    outs = u.call('Bounds::from_cell_bounds_n', [u.ref(cb), u.ref(resn)])
    def gn(s, v):
        vn, vx = corners(u, v)
        return b_and(*[close(sval(vn[i], units[i]), z3.ToReal(mn[i])) for i in range(u.N)], *[close(sval(vx[i], units[i]), z3.ToReal(mx[i])) for i in range(u.N)])
    u.ensure_all('from_cell_bounds_n: corners are the points of the corner cells', outs, gn)
    sz, off = u.cell('size', 0, CMAX // 2), u.cell('offset', -CMAX // 2, CMAX // 2)
    outs = u.call('Bounds::from_size_cells', [u.ref(sz), res, u.ref(off)])
    S_, O_ = pcoords(sz), pcoords(off)
    def gs(un):
        def g(s, v):
            vn, vx = corners(u, v)
            return b_and(*[close(sval(vn[i], un[i]), z3.ToReal(O_[i])) for i in range(u.N)],
                         *[close(sval(vx[i], un[i]), z3.ToReal(S_[i] + O_[i])) for i in range(u.N)])
        return g
    u.ensure_all('from_size_cells: corners are the points of offset and offset + size', outs, gs([RES] * u.N))
    outs = u.call('Bounds::from_size_cells_n', [u.ref(sz), u.ref(resn), u.ref(off)])
    u.ensure_all('from_size_cells_n: corners are the points of offset and offset + size', outs, gs(units))
    u.no_panic()

def c07_from_bounds(u):
    FT = u.FT
    b = u.bounds('b', RES)
    bn, bx = corners(u, b)
    for x, y in zip(bn, bx): u.assume(z3.And(x.v[0] <= y.v[0], x.v[0] >= -CMAX, y.v[0] <= CMAX))
    u.reachable()
    outs = u.call('CellBounds::from_bounds', [u.ref(b), FT.mk('f32', q(1), RES)])
    e = b_and(*[x.v[0] == 0 for x in list(bn) + list(bx)])
    def g(s, v):
        vn, vx = corners(u, v)
        return b_and(*[nearest(c, p.v[0]) for c, p in zip(list(vn) + list(vx), list(bn) + list(bx))])
    u.ensure_all('from_bounds: the cells of the corners', outs, g)
    u.ensure_all('from_bounds: the empty box gives the empty cell bounds', outs, lambda s, v: b_imp(e, b_and(*[x == 0 for x in leaves(v)])))
    u.no_panic()

def nearest(c, s):
    c = z3.ToReal(c) if isz(c) else q(c)
    t = q(Q(1, 2)) + q(Q(1, 2 ** 22)) * (1 + absr(s))
    return absr(c - s) <= t

def c07_new(u):
    mn, mx = u.pt('min'), u.pt('max')
    good = b_and(*[u.le(x, y) for x, y in zip(pcoords(mn), pcoords(mx))])
    u.reachable()
    outs = u.call('Bounds::new', [mn, mx])
    u.ensure_all('Bounds::new stores the corners', outs, lambda s, v: b_and(u.same_all(u.fld(v, 'min'), mn), u.same_all(u.fld(v, 'max'), mx)))
    u.ensure_all('Bounds::new accepts only min <= max', outs, lambda s, v: good)
    for s, msg in u.ex.panics: u.ensure('Bounds::new panics only when min > max: ' + msg[:40], s, b_not(good))
    if not u.ex.panics: u.ensure('Bounds::new rejects', State(pc=list(u.st.pc)), good)
    if not outs: raise Unsupported("Bounds::new never returns")
    u.ex.panics.clear()
    cn, cx = u.cell('cmin'), u.cell('cmax')
    goodc = b_and(*[x <= y for x, y in zip(pcoords(cn), pcoords(cx))])
    outs = u.call('CellBounds::new', [cn, cx])
    u.ensure_all('CellBounds::new stores the corners', outs, lambda s, v: b_and(u.same_all(u.fld(v, 'min'), cn), u.same_all(u.fld(v, 'max'), cx)))
    u.ensure_all('CellBounds::new accepts only min <= max', outs, lambda s, v: goodc)
    for s, msg in u.ex.panics: u.ensure('CellBounds::new panics only when min > max: ' + msg[:40], s, b_not(goodc))
    u.ex.panics.clear()
    outs = u.call('Bounds::empty', [])
    u.ensure_all('Bounds::empty is the box at the origin', outs, lambda s, v: is_zero_box(u, v))
    outs = u.call('CellBounds::empty', [])
    u.ensure_all('CellBounds::empty is the origin', outs, lambda s, v: b_and(*[u.same(x, 0) for x in leaves(v)]))
    u.no_panic('the empty boxes are built without panic')

def c07_eq(u):
    a, b = u.bounds('a'), u.bounds('b')
    outs = u.call('Bounds::eq', [u.ref(a), u.ref(b)], trait='PartialEq')
    al = b_and(*[u.eq(x, y) for x, y in zip(leaves(a), leaves(b))])
    u.ensure_all('boxes are equal exactly when all coordinates are', outs, lambda s, v: zb(v) == zb(al))
    ca, cb = u.cell_bounds('ca'), u.cell_bounds('cb')
    outs = u.call('CellBounds::eq', [u.ref(ca), u.ref(cb)], trait='PartialEq')
    u.ensure_all('cell bounds are equal exactly when all coordinates are', outs,
                 lambda s, v: zb(v) == zb(b_and(*[x == y for x, y in zip(leaves(ca), leaves(cb))])))
    eps, rel = u.f32('eps'), u.f32('rel')
    from models import relative_eq, abs_diff_eq
    outs = u.call('Bounds::relative_eq', [u.ref(a), u.ref(b), eps, rel], trait='RelativeEq')
    u.ensure_all('boxes are relatively equal exactly when all coordinates are', outs, lambda s, v:
                 zb(v) == zb(b_and(*[relative_eq(u.ex, x, y, eps, rel) for x, y in zip(leaves(a), leaves(b))])))
    outs = u.call('Bounds::abs_diff_eq', [u.ref(a), u.ref(b), eps], trait='AbsDiffEq')
    u.ensure_all('boxes are absolutely equal exactly when all coordinates are', outs, lambda s, v:
                 zb(v) == zb(b_and(*[abs_diff_eq(u.ex, x, y, eps) for x, y in zip(leaves(a), leaves(b))])))
    r = u.ref(a)
    outs = u.call('Bounds::clone', [r], trait='Clone')
    u.ensure_all('a cloned box has the same corners', outs, lambda s, v: u.same_all(v, a))
    r = u.ref(ca)
    outs = u.call('CellBounds::clone', [r], trait='Clone')
    u.ensure_all('cloned cell bounds have the same corners', outs, lambda s, v: u.same_all(v, ca))
    u.no_panic()

# ---- C01, C02 --------------------------------------------------------------------------------------
def conv_inputs(u, n=False):
    FT = u.FT
    units = [(('res%d' % i, 1),) if n else RES for i in range(u.N)]
    p = point(*[u.f32('p.%d' % i, units[i]) for i in range(u.N)])
    o = point(*[u.f32('o.%d' % i, units[i]) for i in range(u.N)])
    c = u.cell('c', -CMAX, CMAX)
    for x in list(pcoords(p)) + list(pcoords(o)): u.assume(z3.And(x.v[0] >= -CMAX, x.v[0] <= CMAX))
    res = [FT.mk('f32', q(1), un) for un in units]
    return units, p, o, c, res

def centre(r, c, o): return absr(r - (z3.ToReal(c) + o)) <= q(Q(1, 2 ** 22)) * (1 + absr(z3.ToReal(c)) + absr(o))

def c01_scalar(u):
    units, p, o, c, res = conv_inputs(u)
    p0, o0, c0 = pcoords(p)[0], pcoords(o)[0], pcoords(c)[0]
    u.reachable()
    outs = u.call('point_coord_from_cell_coord', [c0, o0, res[0]])
    u.ensure_all('scalar: the centre of the cell', outs, lambda s, v: centre(sval(v, RES), c0, o0.v[0]))
    outs = u.call('cell_coord_from_point_coord', [p0, o0, res[0]])
    u.ensure_all('scalar: the nearest cell', outs, lambda s, v: nearest(v, p0.v[0] - o0.v[0]))
    u.no_panic()

def c01_points(u):
    units, p, o, c, res = conv_inputs(u)
    u.reachable()
    P_, O_, C_ = pcoords(p), pcoords(o), pcoords(c)
    outs = u.call('point_from_cell', [u.ref(c), u.ref(o), res[0]])
    for i in range(u.N):
        u.ensure_all('point_from_cell axis %d: the centre of the cell' % i, outs, lambda s, v: centre(sval(pcoords(v)[i], RES), C_[i], O_[i].v[0]))
    outs = u.call('cell_from_point', [u.ref(p), u.ref(o), res[0]])
    for i in range(u.N):
        u.ensure_all('cell_from_point axis %d: the nearest cell' % i, outs, lambda s, v: nearest(pcoords(v)[i], P_[i].v[0] - O_[i].v[0]))
    u.no_panic()

def c01_points_n(u):
    units, p, o, c, res = conv_inputs(u, True)
    u.reachable()
    P_, O_, C_ = pcoords(p), pcoords(o), pcoords(c)
    rp = point(*res)
    outs = u.call('point_from_cell_n', [u.ref(c), u.ref(o), u.ref(rp)])
    for i in range(u.N):
        u.ensure_all('point_from_cell_n axis %d: the centre of the cell' % i, outs, lambda s, v: centre(sval(pcoords(v)[i], units[i]), C_[i], O_[i].v[0]))
    outs = u.call('cell_from_point_n', [u.ref(p), u.ref(o), u.ref(rp)])
    for i in range(u.N):
        u.ensure_all('cell_from_point_n axis %d: the nearest cell' % i, outs, lambda s, v: nearest(pcoords(v)[i], P_[i].v[0] - O_[i].v[0]))
    u.no_panic()

def c02(u):
    units, p, o, c, res = conv_inputs(u, True)
    u.reachable()
    P_, O_, C_ = pcoords(p), pcoords(o), pcoords(c)
    # scalar
    s, r = u.call1('point_coord_from_cell_coord', [C_[0], O_[0], res[0]])
    outs = u.call('cell_coord_from_point_coord', [r, O_[0], res[0]], s)
    u.ensure_all('scalar: cell -> point -> cell', outs, lambda s, v: v == C_[0])
    s, r = u.call1('cell_coord_from_point_coord', [P_[0], O_[0], res[0]])
    outs = u.call('point_coord_from_cell_coord', [r, O_[0], res[0]], s)
    u.ensure_all('scalar: a point is within half a cell of its centre', outs, lambda s, v: half(sval(v, units[0]), P_[0].v[0], O_[0].v[0]))
    # per-axis resolution
    rp, rc, ro = u.ref(point(*res)), u.ref(c), u.ref(o)
    s, r = u.call1('point_from_cell_n', [rc, ro, rp])
    outs = u.call('cell_from_point_n', [u.ref(r, s), ro, rp], s)
    for i in range(u.N): u.ensure_all('per axis resolution, axis %d: cell -> point -> cell' % i, outs, lambda s, v: pcoords(v)[i] == C_[i])
    s, r = u.call1('cell_from_point_n', [u.ref(p), ro, rp])
    outs = u.call('point_from_cell_n', [u.ref(r, s), ro, rp], s)
    for i in range(u.N): u.ensure_all('per axis resolution, axis %d: a point is within half a cell of its centre' % i, outs, lambda s, v: half(sval(pcoords(v)[i], units[i]), P_[i].v[0], O_[i].v[0]))
    u.no_panic()

def c02_points(u):
    units, p, o, c, res = conv_inputs(u)
    u.reachable()
    P_, O_, C_ = pcoords(p), pcoords(o), pcoords(c)
    ro = u.ref(o)
    s, r = u.call1('point_from_cell', [u.ref(c), ro, res[0]])
    outs = u.call('cell_from_point', [u.ref(r, s), ro, res[0]], s)
    for i in range(u.N): u.ensure_all('axis %d: cell -> point -> cell' % i, outs, lambda s, v: pcoords(v)[i] == C_[i])
    s, r = u.call1('cell_from_point', [u.ref(p), ro, res[0]])
    outs = u.call('point_from_cell', [u.ref(r, s), ro, res[0]], s)
    for i in range(u.N): u.ensure_all('axis %d: a point is within half a cell of its centre' % i, outs, lambda s, v: half(sval(pcoords(v)[i], RES), P_[i].v[0], O_[i].v[0]))
    u.no_panic()

def half(r, p, o): return absr(r - p) <= q(Q(1, 2)) + q(Q(1, 2 ** 20)) * (1 + absr(p) + absr(o))
