"""Contracts of point clouds (C08, C09)."""
from p_geom import *

def nonan(u): return lambda i, x: u.FT.ite(zb(u.FT.is_nan(x)), u.FT.const(0.0, 'f32'), x) if u.FT.name == 'FP' else x

def c08_store(u):
    s = u.pts_seq('pts')
    r = u.ref(s)
    k = u.int('k', 0)
    u.assume(k < s.n)
    u.reachable()
    for nm, outs in (('from_points', u.call('PointCloud::from_points', [r])),
                     ('from_data', u.call('PointCloud::from_data', [u.fld(u.cloud_of(s), 'data')]))):
        for st, c in outs:
            rc = u.ref(c, st)
            o2 = u.call('PointCloud::num_points', [rc], st.fork())
            u.ensure_all(nm + ': as many points as given', o2, lambda s2, v: v == s.n)
            o3 = u.call('PointCloud::points_iter', [rc], st.fork())
            for s3, it in o3:
                q = u.ex.models.seq_of_iter(u.ex, s3, it)
                if q is None: raise Unsupported("points_iter is not a pure sequence")
                u.ensure(nm + ': iterates as many points as given', s3, q.n == s.n)
                e = q.at(k)
                u.ensure(nm + ': every point is iterated at its position with its coordinates', s3, u.same_all(e, s.at(k)))
            o4 = u.call('PointCloud::clone', [rc], st.fork(), trait='Clone') if u.prog.by_short.get('PointCloud::clone') else []
            u.ensure_all(nm + ': a clone has the same points', o4, lambda s2, v: b_and(u.fld(v, 'data').f[1].n == s.n, u.same_all(u.fld(v, 'data').f[1].at(k), s.at(k))))
    u.no_panic()

def hull_cands(u, pk, k):
    def prov(ctx):
        out = []
        for l in ctx.leaves:
            if not isinstance(l.entry, Fl): continue
            z = u.FT.const(0.0, 'f32')
            out.append((l.name + '<=0', lambda s, l=l: u.le(l.get(s), z)))
            out.append((l.name + '>=0', lambda s, l=l: u.le(z, l.get(s))))
            for i, p in enumerate(pk):
                out.append((l.name + '<=p%d' % i, lambda s, l=l, p=p: b_imp(ctx.count(s) > k, u.le(l.get(s), p))))
                out.append((l.name + '>=p%d' % i, lambda s, l=l, p=p: b_imp(ctx.count(s) > k, u.le(p, l.get(s)))))
        return out
    return prov

def c08_contains(u):
    s = u.pts_seq('pts', nonan(u))
    k = u.int('k', 0)
    u.assume(k < s.n)
    pk = pcoords(s.at(k))
    u.ex.cands.append(hull_cands(u, pk, k))
    u.reachable()
    outs = u.call('PointCloud::bounds', [u.ref(u.cloud_of(s))])
    def g(st, v):
        mn, mx = corners(u, v)
        return b_and(*[b_and(u.le(mn[i], pk[i]), u.le(pk[i], mx[i])) for i in range(u.N)])
    u.ensure_all('the bounds contain every point', outs, g)
    def g0(st, v):
        mn, mx = corners(u, v)
        z = u.FT.const(0.0, 'f32')
        return b_and(*[b_and(u.le(mn[i], z), u.le(z, mx[i])) for i in range(u.N)])
    u.ensure_all('the bounds contain the origin', outs, g0)
    u.no_panic()

def c08_tight(side, axis):
    """The face is the least upper / greatest lower bound of the coordinates and zero: any common bound of them bounds it."""
    def run(u):
        FT = u.FT
        z = FT.const(0.0, 'f32')
        m = u.f32('m')       # any lower (upper) bound of the points' coordinates on the axis and zero
        below = (lambda a, b: u.le(a, b)) if side == 'min' else (lambda a, b: u.le(b, a))
        u.assume(below(m, z))
        nn = nonan(u)
        # every list of points that m bounds is such a list
        s = u.pts_seq('pts', lambda i, x: FT.ite(below(m, x), x, m) if i == axis else nn(i, x))
        u.ex.cands.append(lambda ctx: [(l.name + ' within m', lambda st, l=l: below(m, l.get(st))) for l in ctx.leaves if isinstance(l.entry, Fl)])
        u.reachable()
        outs = u.call('PointCloud::bounds', [u.ref(u.cloud_of(s))])
        u.ensure_all('axis %d: the %s face is tight (it is bounded by every common bound of the points and zero)' % (axis, side), outs,
                     lambda st, v: below(m, pcoords(u.fld(v, side))[axis]))
        u.terminates()
        u.no_panic()
    return run

def c09(u):
    s = u.pts_seq('pts')
    cl = u.cloud_of(s)
    M = [u.f32('m.%d' % i) for i in range(16)]
    k = u.int('k', 0)
    u.assume(k < s.n)
    u.reachable()
    rc = u.ref(cl)
    mt = u.ref(Adt('smat', (4, 4, Adt('mat', M))))
    outs = u.call('PointCloud::transform', [rc, mt])
    u.ensure_all('as many points', outs, lambda st, v: u.fld(v, 'data').f[1].n == s.n)
    def g(i):
        def f(st, v):
            d = u.fld(v, 'data')
            if d.f[0] != 3: return False
            p = pcoords(s.at(k))
            want = sum((M[4 * i + j].v * p[j].v for j in range(3)), M[4 * i + 3].v)
            return d.f[1].at(k).f[i].v == want
        return f
    for i in range(3): u.ensure_all('row %d of the matrix applied to every point extended with 1' % i, outs, g(i))
    def unchanged(st, v):
        d = u.fld(u.ex.deref(st, rc), 'data')
        return b_and(d.f[1].n == s.n, u.same_all(d.f[1].at(k), s.at(k)))
    u.ensure_all('the original cloud is not modified', outs, unchanged)
    u.no_panic()
