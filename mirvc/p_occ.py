"""Contracts of the occupancy map (C23): every operation is that of the grid map inside, or of the noise model on that grid map."""
from p_model import *

class ModelExt:
    """Any noise model: the calls of its trait are recorded, with arbitrary results and an arbitrary effect on the grid map."""
    def __init__(self): self.calls = []
    def dispatch(self, ex, c, args, st):
        head = c.head
        recv = None
        if args:
            recv = args[0]
            while isinstance(recv, Ref): recv = ex.deref(st, recv)
        if not (isinstance(recv, Adt) and recv.kind == 'AnyModel') and not (head == 'NM' and c.trait == 'NoiseModel'): return None
        u, m = self.u, c.method
        nth = st.mem.get(('ghost', 'model'), 0)
        st.mem[('ghost', 'model')] = nth + 1
        rec = dict(method=m, model=recv, nth=nth)
        if m == 'default_noise_model':
            rec['result'] = Adt('AnyModel', [Opaque('nm', z3.Const(fresh_name('nm'), ASORT))])
        elif m == 'default_cell_value': rec['result'] = u.FT.fresh('f32', 'unknown')
        elif m == 'occupied':
            g, cl = args[1], args[2]
            rec.update(grid=ex.deref(st, g), cell=ex.deref(st, cl), result=z3.Bool(fresh_name('occupied')))
        elif m == 'integrate_point_cloud':
            g = args[1]
            before = ex.deref(st, g)
            shape = [z3.Int(fresh_name('newshape')) for _ in range(u.N)]
            ch, cs = fresh_seq(u.FT, point(*[z3.Int('t') for _ in range(u.N)]), 'newlist')
            st.pc += cs
            after = u.struct('GridMapN', data=nd(u, shape, 'new', f32=True), resolution=u.FT.fresh('f32', 'newres'), bounds=u.bounds('new'),
                             tile_size=z3.Int(fresh_name('newtile')), track_changes=z3.Bool(fresh_name('newtrack')), changed_cells=ch)
            rec.update(grid=before, origin=ex.deref(st, args[2]), cloud=ex.deref(st, args[3]), after=after, result=UNIT)
            ex.store_ref(st, g, after)
        else: raise Unsupported("operation %s of any noise model" % m)
        st.mem[('ghost', 'model', nth)] = len(self.calls)
        self.calls.append(rec)
        return [(st, rec['result'])]
    def of(self, st):
        return [self.calls[st.mem[('ghost', 'model', i)]] for i in range(st.mem.get(('ghost', 'model'), 0))]

def occ_of(u, g, m): return u.struct('OccupancyGridMapN', grid_map=g, noise_model=m)
def any_nm(): return Adt('AnyModel', [Opaque('nm', z3.Const(fresh_name('nm'), ASORT))])
def nm_same(a, b): return a.f[0].term == b.f[0].term

def res_same(u, a, b, k):
    if isinstance(a, Seq): return b_and(a.n == b.n, b_imp(b_and(k >= 0, k < a.n), cells_eq(leaves(a.at(k)), leaves(b.at(k)))))
    if isbool(a): return zb(a) == zb(b)
    return u.same_all(a, b) if leaves(a) else z3.BoolVal(len(leaves(b)) == 0)

def c23_delegates(u):
    u.ex.ext.u = u
    u.ex.typeenv['NM'] = 'AnyModel'
    g, data, shape = any_grid(u, f32=True)
    m = any_nm()
    k = z3.Int(fresh_name('k'))
    d = tuple(pcoords(u.cell('d')))
    c, p, v, on = u.cell('c'), u.pt('p'), u.f32('v'), u.bool('on')
    add, cs = fresh_seq(u.FT, point(*[z3.Int('t') for _ in range(u.N)]), 'added')
    u.st.pc += cs + [add.n < 2 ** 60, u.fld(g, 'changed_cells').n < 2 ** 60]
    u.reachable()
    ops = [('get', [c]), ('set', [c, v]), ('resolution', []), ('bounds', []), ('point_from_cell', [c]), ('cell_from_point', [p]), ('track_changes', []),
           ('set_track_changes', [on]), ('changed_cells', []), ('clear_changed_cells', []), ('add_changed_cells', [add])]
    for name, args in ops:
        mk = lambda st: [u.ref(a, st) if isinstance(a, Adt) else a for a in args]
        s0 = u.st.fork()
        rg = u.ref(g, s0)
        o1 = u.call('GridMapN::' + name, [rg] + mk(s0), s0, trait='GridMap')
        p1 = list(u.ex.panics); u.ex.panics.clear()
        s0 = u.st.fork()
        ro = u.ref(occ_of(u, g, m), s0)
        o2 = u.call('OccupancyGridMapN::' + name, [ro] + mk(s0), s0, trait='GridMap')
        p2 = list(u.ex.panics); u.ex.panics.clear()
        if not o1 or not o2: raise Unsupported("%s never returns" % name)
        both = lambda s, t: s.pc + t.pc
        for i, (s1, r1) in enumerate(o1):
            for j, (s2, r2) in enumerate(o2):
                s = s2.fork(); s.pc = both(s1, s2)
                g1, og = u.ex.deref(s1, rg), u.ex.deref(s2, ro)
                sfx = '' if len(o1) * len(o2) == 1 else ' [paths %d, %d]' % (i, j)
                u.ensure('%s: the result is that of the grid map%s' % (name, sfx), s, res_same(u, r1, r2, k))
                g2 = u.fld(og, 'grid_map')
                u.ensure('%s: the effect is that on the grid map%s' % (name, sfx), s, b_and(meta_same(u, g1, s, g2, k), data_same(u, g1, g2, d), nm_same(u.fld(og, 'noise_model'), m)))
            for s2, _ in p2:
                s = s2.fork(); s.pc = both(s1, s2)
                u.ensure('%s: panics only where the grid map does' % name, s, False)
        for s1, _ in p1:
            for s2, _ in o2:
                s = s2.fork(); s.pc = both(s1, s2)
                u.ensure('%s: panics wherever the grid map does' % name, s, False)
        for s2, _ in o2:
            if u.ex.ext.of(s2): raise Unsupported("%s consults the noise model" % name)

def c23_model(u):
    ext = u.ex.ext
    ext.u = u
    u.ex.typeenv['NM'] = 'AnyModel'
    g, data, shape = any_grid(u, f32=True)
    m = any_nm()
    k, kp = z3.Int(fresh_name('k')), z3.Int(fresh_name('kp'))
    d = tuple(pcoords(u.cell('d')))
    c, org, pts = u.cell('c'), u.pt('origin'), u.pts_seq('pts')
    cloud = u.cloud_of(pts)
    u.reachable()
    grid_same = lambda s, a, b: b_and(meta_same(u, a, s, b, k), data_same(u, a, b, d))
    # queries
    ro = u.ref(occ_of(u, g, m))
    outs = u.call('OccupancyGridMapN::occupied', [ro, u.ref(c)])
    if not outs: raise Unsupported("occupied never returns")
    for s, r in outs:
        cl = ext.of(s)
        good = len(cl) >= 1 and cl[-1]['method'] == 'occupied'
        if not good: u.ensure('occupied: the answer of the noise model', s, False); continue
        q_ = cl[-1]
        u.ensure('occupied: the answer of the noise model', s, b_and(zb(r) == zb(q_['result']), nm_same(q_['model'], m)))
        u.ensure('occupied: asked for this cell of the grid map inside', s, b_and(cells_eq(pcoords(q_['cell']), pcoords(c)), grid_same(s, g, q_['grid'])))
        og = u.ex.deref(s, ro)
        u.ensure('occupied: changes nothing', s, b_and(grid_same(s, g, u.fld(og, 'grid_map')), nm_same(u.fld(og, 'noise_model'), m)))
    # integration
    ro = u.ref(occ_of(u, g, m))
    outs = u.call('OccupancyGridMapN::integrate_point_cloud', [ro, u.ref(org), u.ref(cloud)])
    if not outs: raise Unsupported("integrate_point_cloud never returns")
    for s, r in outs:
        cl = [x for x in ext.of(s) if x['method'] == 'integrate_point_cloud']
        u.ensure('integration: the scan is integrated once', s, len(cl) == 1)
        if len(cl) != 1: continue
        q_ = cl[0]
        pp = u.fld(q_['cloud'], 'data').f[1]
        u.ensure('integration: this scan, from this origin, by the noise model', s, b_and(nm_same(q_['model'], m), u.same_all(q_['origin'], org), pp.n == pts.n,
                 b_imp(b_and(kp >= 0, kp < pts.n), u.same_all(Adt('mat', pp.at(kp).f), Adt('mat', pcoords(pts.at(kp)))))))
        u.ensure('integration: into the grid map as it was', s, grid_same(s, g, q_['grid']))
        og = u.ex.deref(s, ro)
        u.ensure('integration: the grid map is as the noise model left it', s, b_and(grid_same(s, q_['after'], u.fld(og, 'grid_map')), nm_same(u.fld(og, 'noise_model'), m)))
    u.no_panic()

def empty_map(u, s, g, res, tile, v, d):
    f = lambda n: u.fld(g, n)
    return b_and(*[simp(x == 0) for x in f('data').shape], u.same(f('resolution'), res), f('tile_size') == tile, b_not(f('track_changes')), f('changed_cells').n == 0)

def c23_new(u):
    ext = u.ex.ext
    ext.u = u
    u.ex.typeenv['NM'] = 'AnyModel'
    m, t = any_nm(), u.int('tile', 0, 2 ** 63)
    res = u.FT.mk('f32', q(1), RES)
    d = tuple(pcoords(u.cell('d')))
    u.reachable()
    seen = []
    if 'GridMapN::new' not in u.prog.by_short: raise Unsupported("no function GridMapN::new")
    outs = u.call('OccupancyGridMapN::new', [m, res, t])
    if not outs: raise Unsupported("new never returns")
    for s, o in outs:
        u.ensure('new: an empty map with the resolution and tile size given', s, empty_map(u, s, u.fld(o, 'grid_map'), res, t, None, d))
        b = u.fld(u.fld(o, 'grid_map'), 'bounds')
        u.ensure('new: empty bounds', s, b_and(*[sval(x, RES) == 0 for x in leaves(b)]))
        u.ensure('new: the noise model given', s, nm_same(u.fld(o, 'noise_model'), m))
    u.no_panic()

def c23_new_value(u):
    """The value given to GridMapN::new is the default cell value of the model, and so is what the default constructors build."""
    ext = u.ex.ext
    ext.u = u
    FT = u.FT
    u.ex.typeenv['NM'] = 'AnyModel'
    recs = []
    g0, _, _ = any_grid(u, f32=True)
    def k_new(ex, st, args):
        g = g0
        st.mem[('ghost', 'newmap')] = len(recs)
        recs.append(dict(res=args[0], bounds=args[1], tile=args[2], value=args[3], grid=g))
        return [(st, g)]
    if 'GridMapN::new' not in u.prog.by_short: raise Unsupported("no function GridMapN::new")
    u.ex.contracts['GridMapN::new'] = k_new
    m, t, res = any_nm(), u.int('tile', 0, 2 ** 63), u.f32('resolution')
    k = z3.Int(fresh_name('k'))
    d = tuple(pcoords(u.cell('d')))
    zero = FT.const(0.0, 'f32')
    u.reachable()
    def check(what, outs, model, r, tile):
        for s, o in outs:
            j = s.mem.get(('ghost', 'newmap'))
            cl = [x for x in ext.of(s) if x['method'] == 'default_cell_value']
            if j is None or not cl: raise Unsupported("%s does not make its grid map by GridMapN::new and the default cell value" % what)
            rc = recs[j]
            mm = model(s)
            u.ensure(what + ': unknown cells start as the model says', s, b_and(u.same(rc['value'], cl[-1]['result']), nm_same(cl[-1]['model'], mm)))
            u.ensure(what + ': the resolution and tile size', s, b_and(u.same(rc['res'], r), rc['tile'] == tile))
            u.ensure(what + ': empty bounds', s, b_and(*[u.eq(x, zero) for x in leaves(rc['bounds'])]))
            g2 = u.fld(o, 'grid_map')
            u.ensure(what + ': the new grid map is the one inside', s, b_and(meta_same(u, rc['grid'], s, g2, k), data_same(u, rc['grid'], g2, d)))
            u.ensure(what + ': the noise model', s, nm_same(u.fld(o, 'noise_model'), mm))
    check('new', u.call('OccupancyGridMapN::new', [m, res, t]), lambda s: m, res, t)
    def dm(s):
        cl = [x for x in ext.of(s) if x['method'] == 'default_noise_model']
        if not cl: raise Unsupported("default does not ask for the default noise model")
        return cl[0]['result']
    check('default', u.call('OccupancyGridMapN::default', []), dm, u.const('DEFAULT_RESOLUTION'), u.const('DEFAULT_TILE_SIZE'))
    u.no_panic()

def c23_clone(u):
    g, data, shape = any_grid(u)
    k = z3.Int(fresh_name('k'))
    d, e = tuple(pcoords(u.cell('d'))), u.cell('e')
    v = elem_any(u)
    u.reachable()
    rg = u.ref(g)
    outs = u.call('GridMapN::clone', [rg], trait='Clone')
    if not outs: raise Unsupported("clone never returns")
    u.ensure_all('the clone is equal', outs, lambda s, h: b_and(meta_same(u, g, s, h, k), data_same(u, g, h, d)))
    u.ensure_all('cloning changes nothing', outs, lambda s, h: b_and(meta_same(u, g, s, u.ex.deref(s, rg), k), data_same(u, g, u.ex.deref(s, rg), d)))
    # a write to either leaves the other alone
    for s, h in outs:
        s = s.fork()
        s.pc.append(zb(inside(pcoords(e), shape)))
        rh = u.ref(h, s)
        re_ = u.ref(e, s)
        o2 = u.call('GridMapN::set', [rh, re_, v], s.fork(), trait='GridMap')
        u.ensure_all('writing to the clone leaves the original alone', o2, lambda s2, _: b_and(meta_same(u, g, s2, u.ex.deref(s2, rg), k), data_same(u, g, u.ex.deref(s2, rg), d)))
        o2 = u.call('GridMapN::set', [rg, re_, v], s.fork(), trait='GridMap')
        u.ensure_all('writing to the original leaves the clone alone', o2, lambda s2, _: b_and(meta_same(u, g, s2, u.ex.deref(s2, rh), k), data_same(u, g, u.ex.deref(s2, rh), d)))
    u.no_panic()
