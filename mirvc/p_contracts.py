"""Contracts of crate functions in the rounding model, used at calls. Each is decided by the named units of the named
property (C01, C05, C06, C07); a check that uses one also runs those units."""
from p_geom import *

CE = 2 ** 15            # coordinates considered in the coarse mode, in cells
def cmax(u): return CE if u.FT.coarse else CMAX
def tol(u, k, x):
    """k * 2^-21 * (1 + |x|), k <= 2; in the coarse mode its bound for |x| <= 2^15 + 2: weaker, and cheaper for the solver."""
    if u.FT.coarse: return q(Q(1, 16))
    return q(Q(k, 2 ** 21)) * (1 + absr(x))
def within(x, y, t): return z3.And(x - y <= t, y - x <= t)
def nearest_c(u, c, s):
    cr = z3.ToReal(c) if isz(c) else q(c)
    return within(cr, s, q(Q(33, 64))) if u.FT.coarse else nearest(c, s)
def fresh_real(u, nm='r'): return z3.Real(fresh_name(nm))
def is_unit_res(u, r): return isinstance(r.v, tuple) and r.v[1] == RES and r.v[0].eq(q(1)) or (u.FT._const(r.v[0]) == 1 and r.v[1] == RES)

def pre(u, ex, st, cond, what):
    """The precondition of a contract: an obligation of the caller."""
    for s in ex.check_or_panic(st, simp(zb(cond)), "precondition of " + what): pass

def k_bounds_discretized(u):
    """C05: Bounds::discretized(box, res, false)."""
    def f(ex, st, args):
        b = ex.deref(st, args[0])
        if not is_unit_res(u, args[1]): raise Unsupported("Bounds::discretized at another resolution")
        if args[2] is not False: raise Unsupported("Bounds::discretized with expansion")
        bn, bx = corners(u, b)
        lo, hi = [], []
        for x, y in zip(bn, bx):
            sn, sx = sval(x, RES), sval(y, RES)
            pre(u, ex, st, z3.And(sn <= sx, sn >= -cmax(u), sx <= cmax(u)), 'Bounds::discretized')
            # decided for thick boxes only; thinner ones are outside of the contract
            a, c = fresh_real(u, 'dlo'), fresh_real(u, 'dhi')
            kn, kx = z3.Int(fresh_name('kn')), z3.Int(fresh_name('kx'))
            tn, tx, tn2, tx2 = tol(u, 1, sn), tol(u, 1, sx), tol(u, 2, sn), tol(u, 2, sx)
            st.pc += [a <= sn + tn, c >= sx - tx, a > sn - 1 - tn, c <= sx + 1 + tx,
                      within(a, z3.ToReal(kn), tn2), within(c, z3.ToReal(kx), tx2), a <= c]
            lo.append(u.FT.mk('f32', a, RES)); hi.append(u.FT.mk('f32', c, RES))
        return [(st, u.struct('Bounds', min=point(*lo), max=point(*hi)))]
    return f

def k_from_bounds(u):
    """C07: CellBounds::from_bounds."""
    def f(ex, st, args):
        b = ex.deref(st, args[0])
        if not is_unit_res(u, args[1]): raise Unsupported("CellBounds::from_bounds at another resolution")
        fs = []
        zero = b_and(*[sval(x, RES) == 0 for x in leaves(b)])
        for x in leaves(b):
            s = sval(x, RES)
            pre(u, ex, st, z3.And(s >= -cmax(u), s <= cmax(u)), 'CellBounds::from_bounds')
            if u.FT._zero(s): fs.append(0); continue
            c = z3.Int(fresh_name('fb'))
            st.pc += [nearest_c(u, c, s), z3.Implies(s == 0, c == 0)]
            fs.append(c)
        bn, bx = corners(u, b)
        pre(u, ex, st, b_and(*[sval(x, RES) <= sval(y, RES) for x, y in zip(bn, bx)]), 'CellBounds::from_bounds')
        n = u.N
        return [(st, u.struct('CellBounds', min=point(*fs[:n]), max=point(*fs[n:])))]
    return f

def k_from_cell_bounds(u):
    """C07: Bounds::from_cell_bounds."""
    def f(ex, st, args):
        cb = ex.deref(st, args[0])
        if not is_unit_res(u, args[1]): raise Unsupported("Bounds::from_cell_bounds at another resolution")
        fs = []
        for c in leaves(cb):
            pre(u, ex, st, b_and(c >= -cmax(u), c <= cmax(u)), 'Bounds::from_cell_bounds')
            r = fresh_real(u, 'fc')
            cr = z3.ToReal(c) if isz(c) else q(c)
            st.pc.append(within(r, cr, q(Q(1, 16))) if u.FT.coarse else close(r, cr))
            st.pc.append(z3.Implies(cr == 0, r == 0))
            fs.append(u.FT.mk('f32', r, RES))
        n = u.N
        cn, cx = corners(u, cb)
        for i in range(n):
            pre(u, ex, st, cn[i] <= cx[i] if isz(cn[i]) or isz(cx[i]) else cn[i] <= cx[i], 'Bounds::from_cell_bounds')
            st.pc.append(fs[i].v[0] <= fs[n + i].v[0])
        return [(st, u.struct('Bounds', min=point(*fs[:n]), max=point(*fs[n:])))]
    return f

def k_cell_from_point(u):
    """C01: cell_from_point."""
    def f(ex, st, args):
        p, o = ex.deref(st, args[0]), ex.deref(st, args[1])
        if not is_unit_res(u, args[2]): raise Unsupported("cell_from_point at another resolution")
        cs = []
        for x, y in zip(pcoords(p), pcoords(o)):
            s, w = sval(x, RES), sval(y, RES)
            pre(u, ex, st, z3.And(s >= -cmax(u), s <= cmax(u), w >= -cmax(u), w <= cmax(u)), 'cell_from_point')
            c = z3.Int(fresh_name('cp'))
            st.pc += [nearest_c(u, c, s - w)]
            cs.append(c)
        return [(st, point(*cs))]
    return f

def k_enclosing(u):
    """C03: Bounds::enclosing. Containing both boxes with every face a face of one of them means the smaller minimum and the larger maximum."""
    def f(ex, st, args):
        a, b = ex.deref(st, args[0]), ex.deref(st, args[1])
        (an, ax), (bn, bx) = corners(u, a), corners(u, b)
        for x, y in zip(list(an) + list(bn), list(ax) + list(bx)): pre(u, ex, st, u.le(x, y), 'Bounds::enclosing')
        e = simp(zb(is_zero_box(u, a)))
        if not isinstance(e, bool):
            if ex.proves(st.pc, z3.Not(e))[0] == 'proved': e = False
            elif ex.proves(st.pc, e)[0] == 'proved': e = True
        if e is True: return [(st, b)]
        un = u.struct('Bounds', min=point(*[u.FT.min(x, y) for x, y in zip(an, bn)]), max=point(*[u.FT.max(x, y) for x, y in zip(ax, bx)]))
        return [(st, un if e is False else ite(u.FT, e, b, un))]
    return f

def use(u, *names):
    K = {'Bounds::enclosing': k_enclosing, 'Bounds::discretized': k_bounds_discretized, 'CellBounds::from_bounds': k_from_bounds,
         'Bounds::from_cell_bounds': k_from_cell_bounds, 'cell_from_point': k_cell_from_point}
    for n in names:
        if n not in u.prog.by_short: raise Unsupported("no function %s to put under contract" % n)
        u.ex.contracts[n] = K[n](u)
