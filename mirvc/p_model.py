"""Contracts of the noise model and of the math helpers (C16, C17, C18, C22, C23)."""
from p_ray import *

# ---- C17 -------------------------------------------------------------------------------------------
PARAMS = ['hit_probability_logodds', 'miss_probability_logodds', 'min_probability_logodds', 'max_probability_logodds', 'occupied_threshold_logodds']
def any_model(u, labels=('hit', 'miss', 'lo', 'hi', 'threshold', 'range')):
    v = [u.f32(l) for l in labels]
    m = u.struct('LidarNoiseModel', **dict(zip(PARAMS + ['max_range'], v)))
    return m, v

def f_eq(u, a, b): return u.eq(a, b)

def c17_update(kind):
    def run(u):
        FT = u.FT
        m, (hit, miss, lo, hi, th, mr) = any_model(u)
        g, data, shape = any_grid(u, f32=True)
        c, d = u.cell('c'), u.cell('d')
        C, D = tuple(pcoords(c)), tuple(pcoords(d))
        k = z3.Int(fresh_name('k'))
        u.assume(inside(C, shape))
        old = data.at(C)
        u.inp('value', old)
        step, lim = (hit, hi) if kind == 'hit' else (miss, lo)
        for x in (old, hit, miss, lo, hi): u.assume(b_not(FT.is_nan(x)))
        tot = FT.add(old, step)
        u.assume(b_not(FT.is_nan(tot)))      # an infinite step against an infinite value has no sum
        u.reachable()
        rg = u.ref(g)
        outs = u.call('LidarNoiseModel::integrate_' + kind, [u.ref(m), rg, u.ref(c)])
        if not outs: raise Unsupported("integrate_%s never returns" % kind)
        new = lambda s: u.fld(u.ex.deref(s, rg), 'data').at(C)
        better = (lambda a, b: u.le(a, b)) if kind == 'hit' else (lambda a, b: u.le(b, a))
        u.ensure_all('the value becomes the %s of value plus step and the limit' % ('smaller' if kind == 'hit' else 'larger'), outs,
                     lambda s, r: b_and(z3.Or(u.eq(new(s), tot), u.eq(new(s), lim)), better(new(s), tot), better(new(s), lim)))
        sg = u.le(FT.const(0.0, 'f32'), hit) if kind == 'hit' else u.le(miss, FT.const(0.0, 'f32'))
        within_ = b_and(u.le(lo, old), u.le(old, hi))
        u.ensure_all('a value within the limits stays within them', outs, lambda s, r: b_imp(b_and(sg, within_), b_and(u.le(lo, new(s)), u.le(new(s), hi))))
        u.ensure_all('a %s never %s a value within the limits' % (kind, 'lowers' if kind == 'hit' else 'raises'), outs, lambda s, r: b_imp(b_and(sg, within_), better(old, new(s))))
        u.ensure_all('every other cell is unchanged', outs, lambda s, r: b_imp(b_and(inside(D, shape), b_not(cells_eq(C, D))), u.same(u.fld(u.ex.deref(s, rg), 'data').at(D), data.at(D))))
        u.ensure_all('the rest of the map is unchanged', outs, lambda s, r: meta_same(u, g, s, u.ex.deref(s, rg), k))
        u.no_panic('never panics for a cell inside of the map')
    return run

def c17_query(u):
    FT = u.FT
    m, (hit, miss, lo, hi, th, mr) = any_model(u)
    g, data, shape = any_grid(u, f32=True)
    c = u.cell('c')
    C = tuple(pcoords(c))
    u.assume(inside(C, shape))
    v = u.inp('value', data.at(C))
    u.assume(b_not(FT.is_nan(v))); u.assume(b_not(FT.is_nan(th)))
    u.reachable()
    outs = u.call('LidarNoiseModel::occupied', [u.ref(m), u.ref(g), u.ref(c)], trait='NoiseModel')
    u.ensure_all('occupied exactly above the threshold', outs, lambda s, r: zb(r) == u.lt(th, v))
    outs = u.call('LidarNoiseModel::default_cell_value', [u.ref(m)], trait='NoiseModel')
    u.ensure_all('unknown cells start at zero log-odds', outs, lambda s, r: u.eq(r, FT.const(0.0, 'f32')))
    u.no_panic()

def logodds(u, st, p):
    outs = u.call('logodds_from_probability', [p], st)
    if len(outs) != 1: raise Unsupported("logodds_from_probability has several outcomes")
    return outs[0][1]

def c17_new(u):
    FT = u.FT
    p = [u.f32('p%d' % i) for i in range(5)]
    mr = u.f32('range')
    z, one = FT.const(0.0, 'f32'), FT.const(1.0, 'f32')
    good = b_and(*[b_and(u.le(z, x), u.le(x, one)) for x in p])
    u.reachable()
    outs = u.call('LidarNoiseModel::new', p + [mr])
    if not outs: raise Unsupported("new never returns")
    u.ensure_all('every probability outside of [0, 1] is rejected', outs, lambda s, r: good)
    for s, msg in u.ex.panics: u.ensure('probabilities within [0, 1] are accepted', s, b_not(good))
    u.ex.panics.clear()
    for f, x in zip(PARAMS, p):
        u.ensure_all('stores the log-odds of its probability: %s' % f, outs, lambda s, r: u.same(u.fld(r, f), logodds(u, s, x)))
    u.ensure_all('stores the range', outs, lambda s, r: u.same(u.fld(r, 'max_range'), mr))
    u.no_panic()

def c17_default(u):
    names = ['DEFAULT_HIT_PROBABILITY', 'DEFAULT_MISS_PROBABILITY', 'DEFAULT_MIN_PROBABILITY', 'DEFAULT_MAX_PROBABILITY', 'DEFAULT_OCCUPIED_THRESHOLD', 'DEFAULT_MAX_RANGE']
    vals = [u.const(n) for n in names]
    for fn, tr in (('LidarNoiseModel::default', None), ('LidarNoiseModel::default_noise_model', 'NoiseModel')):
        outs = u.call(fn, [], trait=tr) if tr else u.call(fn, [])
        for f, x in zip(PARAMS, vals):
            u.ensure_all('%s: the log-odds of the default constant: %s' % (fn.split('::')[1], f), outs, lambda s, r: u.same(u.fld(r, f), logodds(u, s, x)))
        u.ensure_all('%s: the default range' % fn.split('::')[1], outs, lambda s, r: u.same(u.fld(r, 'max_range'), vals[5]))
    u.no_panic('the default probabilities are accepted')

# ---- C18 -------------------------------------------------------------------------------------------
def explog(u, xs, ps):
    """The exponential function and the logarithm at the terms given: instances of their defining laws (assumed)."""
    E, L = u.FT._uf('exp', 1), u.FT._uf('ln', 1)
    F = lambda t: t if isz(t) else q(t)
    A = u.st.pc
    pts = [F(0)] + [t for x in xs for t in (x, -x)]
    for a in pts: A += [E(a) > 0, L(E(a)) == a, z3.Implies(a == 0, E(a) == 1)]
    for x in xs: A += [E(x) * E(-x) == 1]
    for i, a in enumerate(pts):
        for b in pts[i + 1:]: A += [(a < b) == (E(a) < E(b)), (a == b) == (E(a) == E(b))]
    lp = [F(1)] + ps
    for a in lp: A += [z3.Implies(a > 0, E(L(a)) == a), z3.Implies(a == 1, L(a) == 0)]
    for i, a in enumerate(lp):
        for b in lp[i + 1:]: A += [z3.Implies(z3.And(a > 0, b > 0), z3.And((a < b) == (L(a) < L(b)), (a == b) == (L(a) == L(b))))]
    u.ex.assumptions.add('laws of the real exponential function and logarithm (positive, strictly increasing, inverse to each other, exp(0) = 1, exp(x) exp(-x) = 1, ln(a/b) = ln a - ln b)')
    return E, L

def c18_logodds(u):
    p, r = u.f32('p'), u.f32('p2')
    a, b = p.v, r.v
    for x in (a, b): u.assume(z3.And(x > 0, x < 1))
    odds = lambda x: x / (1 - x)
    u.assume(odds(a) > 0); u.assume(odds(b) > 0)
    u.assume((odds(a) < odds(b)) == (a < b))
    u.assume((odds(a) == 1) == (a == q(Q(1, 2))))
    E, L = explog(u, [], [odds(a), odds(b), a, 1 - a, b, 1 - b])
    for x in (a, b): u.assume(L(odds(x)) == L(x) - L(1 - x))
    u.reachable()
    outs = u.call('logodds_from_probability', [p])
    u.ensure_all('the log-odds of p is ln(p / (1 - p))', outs, lambda s, v: v.v == L(odds(a)))
    s, v = outs[0]
    if len(outs) == 1:
        o2 = u.call('logodds_from_probability', [r], s.fork())
        u.ensure_all('increasing', o2, lambda s2, w: (a < b) == (v.v < w.v))
        u.ensure('the log-odds of one half is zero', s, (v.v == 0) == (a == q(Q(1, 2))))
        s2 = s.fork()
        # exp of the log-odds is the odds
        s2.pc += [E(v.v) == odds(a), E(-v.v) * E(v.v) == 1, E(v.v) > 0, E(-v.v) == (1 - a) / a] if u.ex.proves(s.pc, v.v == L(odds(a)))[0] == 'proved' else []
        o3 = u.call('probability_from_logodds', [v], s2)
        u.ensure_all('the probability of the log-odds of p is p', o3, lambda s3, w: w.v == a)
    u.no_panic()

def c18_prob(u):
    x, y = u.f32('x'), u.f32('x2')
    E, L = explog(u, [x.v, y.v], [])
    u.reachable()
    outs = u.call('probability_from_logodds', [x])
    want = lambda t: 1 - 1 / (1 + E(t))
    u.ensure_all('the probability of log-odds x is 1 - 1 / (1 + exp(x))', outs, lambda s, v: v.v == want(x.v))
    if len(outs) == 1:
        s, v = outs[0]
        u.ensure('between 0 and 1', s, z3.And(v.v > 0, v.v < 1))
        o2 = u.call('probability_from_logodds', [y], s.fork())
        u.ensure_all('increasing', o2, lambda s2, w: (x.v < y.v) == (v.v < w.v))
        u.ensure('the probability of zero log-odds is one half', s, (x.v == 0) == (v.v == q(Q(1, 2))))
        s3 = s.fork()
        ee = E(x.v)
        s3.pc += [v.v == ee / (1 + ee), v.v / (1 - v.v) == ee] if u.ex.proves(s.pc, z3.And(v.v == ee / (1 + ee), v.v / (1 - v.v) == ee))[0] == 'proved' else []
        s3.pc += [L(v.v / (1 - v.v)) == L(v.v) - L(1 - v.v)]
        o3 = u.call('logodds_from_probability', [v], s3)
        u.ensure_all('the log-odds of the probability of x is x', o3, lambda s4, w: w.v == x.v)
    u.no_panic()

def c18_sign(u):
    FT = u.FT
    x = u.f32('y')
    u.assume(b_not(FT.is_nan(x)))
    vec = Adt('mat', [u.f32('v.%d' % i) for i in range(u.N)])
    for a in vec.f: u.assume(b_not(FT.is_nan(a)))
    u.reachable()
    z = FT.const(0.0, 'f32')
    def sign(a, r): return b_and(b_imp(u.lt(z, a), u.eq(r, FT.const(1.0, 'f32'))), b_imp(u.lt(a, z), u.eq(r, FT.const(-1.0, 'f32'))), b_imp(u.eq(a, z), u.eq(r, z)))
    outs = u.call('f32_signum', [x])
    u.ensure_all('the sign of a number is 1, -1 or 0 as it is above, below or equal to zero', outs, lambda s, r: sign(x, r))
    outs = u.call('vector::signum', [u.ref(vec)])
    for i in range(u.N):
        u.ensure_all('the sign of a vector is the sign of each coordinate, axis %d' % i, outs, lambda s, r: sign(vec.f[i], r.f[i]))
    u.no_panic()

# ---- C16, C22: integrating a scan -------------------------------------------------------------------------
class Scan:
    """integrate_point_cloud on any map with any model, origin and cloud. Contracts at its calls: PointCloud::bounds (C08),
    expand_bounds (C11, C12) and cast_rays (C13 to C15, and the unit 'cells of a scan' for staying inside of the map)."""
    def __init__(self, u):
        self.u = u
        FT, N = u.FT, u.N
        self.m, (self.hit, self.miss, self.lo, self.hi, self.th, self.mr) = any_model(u)
        self.g, self.data, self.shape = any_grid(u, f32=True)
        self.org, self.pts = u.pt('origin'), u.pts_seq('pts')
        self.cloud = u.cloud_of(self.pts)
        self.kp = z3.Int(fresh_name('kp'))           # any point of the cloud
        for x in leaves(self.org) + leaves(self.pts.at(self.kp)): u.assume(b_not(FT.is_nan(x)))
        self.has = z3.And(self.kp >= 0, self.kp < self.pts.n)
        self.c = u.cell('c')                          # any cell
        self.cs = tuple(pcoords(self.c))
        u.ex.skolem_cells.append(self.cs)
        self.grown = None
        for n, f in (('PointCloud::bounds', self.k_bounds), ('GridMapN::expand_bounds', self.k_expand), ('cast_rays', self.k_cast)):
            if n not in u.prog.by_short: raise Unsupported("no function %s to put under contract" % n)
            u.ex.contracts[n] = f
        I = [z3.IntSort()] * N
        self.freef, self.occf = z3.Function(fresh_name('free'), *I, z3.BoolSort()), z3.Function(fresh_name('occ'), *I, z3.BoolSort())
    def k_bounds(self, ex, st, args):
        u = self.u
        c = ex.deref(st, args[0])
        if u.fld(c, 'data').f[1].n is not self.pts.n: raise Unsupported("bounds of another cloud")
        b = u.bounds('cloud')
        p = self.pts.at(self.kp)
        for x, lo, hi in zip(pcoords(p), pcoords(u.fld(b, 'min')), pcoords(u.fld(b, 'max'))):
            st.pc += [zb(u.le(lo, hi)), z3.Implies(self.has, zb(b_and(u.le(lo, x), u.le(x, hi))))]
        return [(st, b)]
    def k_expand(self, ex, st, args):
        u = self.u
        if st.mem.get(('ghost', 'expand')) is not None: raise Unsupported("the map is grown twice")
        g = ex.deref(st, args[0])
        if self.grown is None:          # the results have the same names on every path
            shape = [u.inp('newshape.%d' % i, z3.Int(fresh_name('newshape'))) for i in range(u.N)]
            ch, cs = fresh_seq(u.FT, point(*[z3.Int('t') for _ in range(u.N)]), 'moved')
            t = point(*[z3.Int('t') for _ in range(u.N)])
            self.grown = dict(shape=shape, data=nd(u, shape, 'grown', f32=True), moved=ch, movedc=cs, bounds=u.bounds('grown'),
                              free=SetV(lambda x: z3.And(self.freef(*x), z3.Not(self.occf(*x)), zb(inside(x, shape))), t),
                              occ=SetV(lambda x: z3.And(self.occf(*x), zb(inside(x, shape))), t))
        r = self.grown
        st.pc += r['movedc'] + [r['moved'].n == u.fld(g, 'changed_cells').n] + [z3.And(x >= 0, x <= 2 ** 40) for x in r['shape']]
        g1 = u.struct('GridMapN', data=r['data'], resolution=u.fld(g, 'resolution'), bounds=r['bounds'], tile_size=u.fld(g, 'tile_size'),
                      track_changes=u.fld(g, 'track_changes'), changed_cells=r['moved'])
        ex.store_ref(st, args[0], g1)
        st.mem[('ghost', 'expand')] = Adt('rec', (g, ex.deref(st, args[1]), args[2], g1))
        old = r['data'].at(self.cs)
        st.pc += [zb(b_not(u.FT.is_nan(x))) for x in (old, u.FT.add(old, self.hit), u.FT.add(old, self.miss))]
        return [(st, UNIT)]
    def k_cast(self, ex, st, args):
        u = self.u
        if st.mem.get(('ghost', 'expand')) is None or st.mem.get(('ghost', 'cast')) is not None: raise Unsupported("rays cast before the map is grown, or twice")
        vals = []
        for a in args:
            while isinstance(a, Ref): a = ex.deref(st, a)
            vals.append(a)
        st.mem[('ghost', 'cast')] = Adt('cast', vals)
        return [(st, tup(self.grown['free'], self.grown['occ']))]
    def rec(self, s):
        """What happened on the way to a state."""
        e, c = s.mem.get(('ghost', 'expand')), s.mem.get(('ghost', 'cast'))
        if e is None or c is None: raise Unsupported("the map is not grown, or no rays are cast")
        return dict(self.grown, before=e.f[0], request=e.f[1], value=e.f[2], after=e.f[3], cast=c.f)
    # the updates of C17
    def upd(self, kind, new, old):
        u = self.u
        step, lim = (self.hit, self.hi) if kind == 'hit' else (self.miss, self.lo)
        tot = u.FT.add(old, step)
        better = (lambda a, b: u.le(a, b)) if kind == 'hit' else (lambda a, b: u.le(b, a))
        return b_and(z3.Or(u.eq(new, tot), u.eq(new, lim)), better(new, tot), better(new, lim))
    def enums(self):
        out = []
        for e in self.u.ex.set_enums:
            if e not in out: out.append(e)
        return out[-4:]
    def value_cands(self, ctx):
        out, u, cs = [], self.u, self.cs
        for l in ctx.leaves:
            if not isinstance(l.entry, NdArr): continue
            at = lambda s, l=l: l.get(s).at(cs)
            old = l.entry.at(cs)
            out.append((l.name + ': the cell is unchanged', lambda s, at=at, old=old: u.same(at(s), old)))
            for j, en in enumerate(self.enums()):
                mb = zb(en.sv.mem(cs))
                for kind in ('hit', 'miss'):
                    out.append(('%s: %s for the elements so far (%d)' % (l.name, kind, j), lambda s, at=at, old=old, mb=mb, en=en, kind=kind:
                        z3.If(z3.And(mb, en.idx(*cs) < ctx.count(s)), zb(self.upd(kind, at(s), old)), zb(u.same(at(s), old)))))
        return out
    def list_cands(self, ks):
        def prov(ctx):
            out, u, cs = [], self.u, self.cs
            for l in ctx.leaves:
                if not isinstance(l.entry, Seq): continue
                e0 = l.entry
                pts = list(ks)
                n0 = self.grown['moved'].n if self.grown else 0
                pts += [(kn + ' from the end', lambda e, kf=kf: simpi(kf(e) - n0)) for kn, kf in ks]
                for en in self.enums():
                    pts += [('place of the cell', lambda n0, en=en: n0 + en.idx(*cs)), ('own place of the cell', lambda n0, en=en: en.idx(*cs))]
                for j, en in enumerate(self.enums()):
                    for kn, kf in pts:
                        def f(s, l=l, e0=e0, en=en, kf=kf):
                            k = kf(e0.n)
                            sq = l.get(s)
                            if isinstance(sq.n, int) and sq.n == 0: return True
                            a = leaves(sq.at(k))
                            if len(a) != u.N: raise Unsupported('shape')
                            return b_imp(z3.And(k >= 0, k < sq.n), z3.If(k < e0.n, zb(cells_eq(a, leaves(e0.at(k)))) if not (isinstance(e0.n, int) and e0.n == 0) else True, zb(cells_eq(a, leaves(en.at(simpi(k - e0.n)))))))
                        out.append(('%s: element %s is the next of the set (%d)' % (l.name, kn, j), f))
            return out
        return prov

def c16(u):
    FT, N = u.FT, u.N
    sc = Scan(u)
    cs = sc.cs
    u.ex.cands.append(sc.value_cands)
    for x in (sc.hit, sc.miss, sc.lo, sc.hi): u.assume(b_not(FT.is_nan(x)))
    k = z3.Int(fresh_name('k'))
    u.reachable()
    rg = u.ref(sc.g)
    outs = u.call('LidarNoiseModel::integrate_point_cloud', [u.ref(sc.m), rg, u.ref(sc.org), u.ref(sc.cloud)], trait='NoiseModel')
    if not outs: raise Unsupported("integrate_point_cloud never returns")
    rec = sc.rec
    u.ensure_all('nothing changes before the map is grown', outs, lambda s, r: b_and(meta_same(u, sc.g, s, rec(s)['before'], k), data_same(u, sc.g, rec(s)['before'], cs)))
    def holds(s, p):
        rq = rec(s)['request']
        return b_and(*[b_and(u.le(lo, x), u.le(x, hi)) for x, lo, hi in zip(pcoords(p), pcoords(u.fld(rq, 'min')), pcoords(u.fld(rq, 'max')))])
    u.ensure_all('the map is grown to contain the origin of the sensor', outs, lambda s, r: holds(s, sc.org))
    u.ensure_all('the map is grown to contain every point', outs, lambda s, r: b_imp(sc.has, holds(s, sc.pts.at(sc.kp))))
    u.ensure_all('new cells start unknown', outs, lambda s, r: u.eq(rec(s)['value'], FT.const(0.0, 'f32')))
    def cast(s):
        o, cl, b, res, ml = rec(s)['cast']
        g1 = rec(s)['after']
        p, p0 = u.fld(cl, 'data').f[1], sc.pts
        return b_and(u.same_all(o, sc.org), p.n == p0.n, b_imp(sc.has, u.same_all(p.at(sc.kp), p0.at(sc.kp))), u.same_all(b, u.fld(g1, 'bounds')),
                     u.same(res, u.fld(g1, 'resolution')), u.same(ml, sc.mr))
    u.ensure_all('the rays run from the origin to the points, in the grown map, up to the range of the model', outs, lambda s, r: cast(s))
    fin = lambda s: u.ex.deref(s, rg)
    for s, r in outs:
        old = rec(s)['data'].at(cs)
        u.inp('value', old)
        s.pc.append(zb(inside(cs, rec(s)['shape'])))
    new = lambda s: u.fld(fin(s), 'data').at(cs)
    old = lambda s: rec(s)['data'].at(cs)
    isfree, isocc = (lambda s: zb(rec(s)['free'].mem(cs))), (lambda s: zb(rec(s)['occ'].mem(cs)))
    for s, r in outs: u.reachable(s, 'results')
    u.ensure_all('an end cell gets the hit update, once, and no miss update', outs, lambda s, r: b_imp(isocc(s), sc.upd('hit', new(s), old(s))))
    u.ensure_all('a cell passed by a ray that is no end gets the miss update, once', outs, lambda s, r: b_imp(isfree(s), sc.upd('miss', new(s), old(s))))
    u.ensure_all('every other cell keeps its value', outs, lambda s, r: z3.Or(isocc(s), isfree(s), zb(u.same(new(s), old(s)))))
    u.ensure_all('the extents, bounds, resolution and tile size are those of the grown map', outs, lambda s, r: b_and(
        *[x == y for x, y in zip(u.fld(fin(s), 'data').shape, rec(s)['shape'])], meta_same(u, rec(s)['after'], s, fin(s), k, changed=False)))
    u.terminates()
    u.no_panic()

def c16_inside(u):
    """Every cell that cast_rays returns lies inside of the map if the origin and the points do: by C13 the cells of a ray and
    its end lie between the cell of the origin and the cell of the point."""
    org, pts = u.pt('origin'), u.pts_seq('pts')
    b, res, ml = u.bounds('bounds'), u.f32('resolution'), u.f32('max_len')
    c = u.cell('c')
    cs = tuple(pcoords(c))
    shape = [u.int('shape.%d' % i, 1, 2 ** 40) for i in range(u.N)]
    o, e, x = [[z3.Int(fresh_name(n)) for _ in range(u.N)] for n in 'oex']
    u.ensure('a cell between two cells of the map is in the map', u.st, b_imp(b_and(inside(o, shape), inside(e, shape), *[between(a, p, q_) for a, p, q_ in zip(x, o, e)]), inside(x, shape)))
    rc = RayContract(u, cs, shape=shape)
    u.ex.contracts['cast_ray'] = rc
    u.ex.skolem_cells.append(cs)
    u.ex.cands.append(lambda ctx: [(l.name + ': only cells of the map', lambda s, l=l: b_imp(memb(l.get(s), cs), inside(cs, shape))) for l in set_leaves(ctx)])
    u.reachable()
    outs = u.call('cast_rays', [u.ref(org), u.ref(u.cloud_of(pts)), u.ref(b), res, ml])
    if not outs: raise Unsupported("cast_rays never returns")
    u.ensure_all('every free cell is in the map', outs, lambda s, v: b_imp(memb(v.f[0], cs), inside(cs, shape)))
    u.ensure_all('every occupied cell is in the map', outs, lambda s, v: b_imp(memb(v.f[1], cs), inside(cs, shape)))
    for s, v in outs: u.reachable(s, 'results')
    u.terminates()
    u.no_panic()

# ---- C22 -------------------------------------------------------------------------------------------------
def c22_integrate(u):
    FT, N = u.FT, u.N
    sc = Scan(u)
    cs = sc.cs
    k, k2 = z3.Int(fresh_name('k')), z3.Int(fresh_name('k2'))
    u.assume(z3.And(k >= 0, k2 >= 0))
    u.ex.cands.append(sc.list_cands([('k', lambda n0: k), ('k2', lambda n0: k2)]))
    u.reachable()
    rg = u.ref(sc.g)
    args = [u.ref(sc.m), rg, u.ref(sc.org), u.ref(sc.cloud)]
    outs = []
    for on in (True, False):
        outs += u.call('LidarNoiseModel::integrate_point_cloud', args, u.st.fork(zb(u.fld(sc.g, 'track_changes')) == on), trait='NoiseModel')
    if not outs: raise Unsupported("integrate_point_cloud never returns")
    rec = sc.rec
    fin = lambda s: u.ex.deref(s, rg)
    n0 = lambda s: u.fld(rec(s)['after'], 'changed_cells').n
    lst = lambda s: u.fld(fin(s), 'changed_cells')
    old = lambda s: u.fld(rec(s)['after'], 'changed_cells')
    track = zb(u.fld(sc.g, 'track_changes'))
    el = lambda s, i: leaves(lst(s).at(simpi(i)))
    for s, r in outs:
        u.reachable(s, 'results')
        for w in ('free', 'occ'):
            en = rec(s)[w].enum
            if en is None: raise Unsupported("a set of touched cells is never visited")
            s.pc += en.facts_key(cs)
            for kk in (k, k2): s.pc += [z3.Implies(z3.And(j >= 0, j < en.n), z3.And(*en.facts_elem(j))) for j in (simpi(kk - n0(s)), simpi(kk - n0(s) - rec(s)['free'].enum.n), simpi(kk - n0(s) - rec(s)['occ'].enum.n))]
    isfree, isocc = (lambda s, c=cs: zb(rec(s)['free'].mem(tuple(c)))), (lambda s, c=cs: zb(rec(s)['occ'].mem(tuple(c))))
    total = lambda s: rec(s)['free'].enum.n + rec(s)['occ'].enum.n
    u.ensure_all('while tracking is off the list stays as it was', outs, lambda s, r: b_imp(b_not(track), b_and(lst(s).n == n0(s), b_imp(k < n0(s), cells_eq(el(s, k), leaves(old(s).at(k)))))))
    u.ensure_all('cells in the list before stay at their places', outs, lambda s, r: b_imp(k < n0(s), cells_eq(el(s, k), leaves(old(s).at(k)))))
    u.ensure_all('the list grows by the number of updated cells', outs, lambda s, r: b_imp(track, lst(s).n == n0(s) + total(s)))
    u.ensure_all('only updated cells are appended', outs, lambda s, r: b_imp(b_and(track, k >= n0(s), k < lst(s).n), b_or(isfree(s, el(s, k)), isocc(s, el(s, k)))))
    u.ensure_all('no cell is appended twice', outs, lambda s, r: b_imp(b_and(track, k >= n0(s), k < k2, k2 < lst(s).n), b_not(cells_eq(el(s, k), el(s, k2)))))
    def places(s): return [simpi(n0(s) + a + en.idx(*cs)) for en in (rec(s)['free'].enum, rec(s)['occ'].enum) for a in (0, rec(s)['free'].enum.n, rec(s)['occ'].enum.n)]
    u.ensure_all('every updated cell is appended', outs, lambda s, r: b_imp(b_and(track, b_or(isfree(s), isocc(s))),
                 b_or(*[b_and(p >= n0(s), p < lst(s).n, cells_eq(el(s, p), cs)) for p in places(s)])))
    u.ensure_all('tracking stays on or off', outs, lambda s, r: zb(u.fld(fin(s), 'track_changes')) == track)
    u.terminates()
    u.no_panic()

def c22_list(u):
    """The operations on the list of changed cells."""
    g, data, shape = any_grid(u)
    k = z3.Int(fresh_name('k'))
    d = tuple(pcoords(u.cell('d')))
    u.assume(k >= 0)
    a0 = u.fld(g, 'changed_cells')
    add, cs = fresh_seq(u.FT, point(*[z3.Int('t') for _ in range(u.N)]), 'added')
    u.st.pc += cs + [add.n < 2 ** 60, a0.n < 2 ** 60]
    on = u.bool('on')
    u.reachable()
    def rest(s, g1, changed, track=False):
        gg = [u.same_all(u.fld(g1, 'bounds'), u.fld(g, 'bounds')), u.same(u.fld(g1, 'resolution'), u.fld(g, 'resolution')), u.fld(g1, 'tile_size') == u.fld(g, 'tile_size'), data_same(u, g, g1, d)]
        if not track: gg.append(zb(u.fld(g1, 'track_changes')) == zb(u.fld(g, 'track_changes')))
        if not changed: gg.append(changed_same(u, g, g1, k))
        return b_and(*gg)
    def run(name, args, **kw):
        rg = u.ref(g)
        outs = u.call('GridMapN::' + name, [rg] + args, trait='GridMap')
        if not outs: raise Unsupported(name + " never returns")
        return outs, (lambda s: u.ex.deref(s, rg))
    outs, g1 = run('changed_cells', [])
    u.ensure_all('reading gives the list', outs, lambda s, r: b_and(r.n == a0.n, b_imp(k < a0.n, cells_eq(leaves(r.at(k)), leaves(a0.at(k))))))
    u.ensure_all('reading changes nothing', outs, lambda s, r: rest(s, g1(s), False))
    outs, g1 = run('clear_changed_cells', [])
    u.ensure_all('clearing empties the list', outs, lambda s, r: u.fld(g1(s), 'changed_cells').n == 0)
    u.ensure_all('clearing changes nothing else', outs, lambda s, r: rest(s, g1(s), True))
    outs, g1 = run('add_changed_cells', [add])
    ls = lambda s: u.fld(g1(s), 'changed_cells')
    u.ensure_all('adding appends', outs, lambda s, r: b_and(ls(s).n == a0.n + add.n, b_imp(k < a0.n, cells_eq(leaves(ls(s).at(k)), leaves(a0.at(k)))),
                 b_imp(b_and(k >= a0.n, k < a0.n + add.n), cells_eq(leaves(ls(s).at(k)), leaves(add.at(simpi(k - a0.n)))))))
    u.ensure_all('adding changes nothing else', outs, lambda s, r: rest(s, g1(s), True))
    outs, g1 = run('track_changes', [])
    u.ensure_all('tracking is on or off as set', outs, lambda s, r: zb(r) == zb(u.fld(g, 'track_changes')))
    u.ensure_all('asking for it changes nothing', outs, lambda s, r: rest(s, g1(s), False))
    outs, g1 = run('set_track_changes', [on])
    u.ensure_all('setting it sets it', outs, lambda s, r: zb(u.fld(g1(s), 'track_changes')) == zb(on))
    u.ensure_all('setting it changes nothing else', outs, lambda s, r: rest(s, g1(s), False, True))
    u.terminates()
    u.no_panic()

def only(fn, word):
    """The obligations of a unit that concern this property."""
    def run(u):
        try: fn(u)
        finally: u.obls[:] = [o for o in u.obls if word in o.name]
    return run
