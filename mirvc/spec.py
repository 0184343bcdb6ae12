"""Proof sessions: a Unit sets up symbolic inputs, runs real functions and records named obligations."""
import re, os, time, sys
import z3
from mir import Unsupported, match_close, split_top
from vals import *
import fl
from fl import Fl, FP, R, S, fresh_name
import exe
from exe import Exec, State, Callee, ISIZE, RANGES

class Obl:
    def __init__(self, unit, name, status, secs=0.0, model=None, detail=''):
        self.unit, self.name, self.status, self.secs, self.model, self.detail = unit, name, status, secs, model, detail

def scan_structs(prog):
    out = {}
    for root, _, files in os.walk(os.path.join(prog.repo, 'src')):
        for n in files:
            if not n.endswith('.rs'): continue
            with open(os.path.join(root, n)) as fh: s = fh.read()
            s = re.sub(r'//[^\n]*', '', s)
            for m in re.finditer(r'\bstruct (\w+)', s):
                i = m.end()
                while i < len(s) and s[i] not in '{;(':
                    if s[i] == '<': i = match_close(s, i)
                    i += 1
                if i >= len(s) or s[i] != '{': continue
                e = match_close(s, i)
                fs = []
                for f in split_top(s[i + 1:e]):
                    f = re.sub(r'#\[[^\]]*\]', '', f).strip()
                    q = re.match(r'(?:pub(?:\([^)]*\))?\s+)?(\w+)\s*:', f)
                    if q: fs.append(q.group(1))
                out.setdefault(m.group(1), fs)
    return out

class Unit:
    def __init__(self, prog, name, N, FT=None, ext=None):
        if not hasattr(prog, 'structs'): prog.structs = scan_structs(prog)
        self.prog, self.name, self.N = prog, name, N
        self.FT = FT or FP()
        self.ex = Exec(prog, N, self.FT)
        self.ex.ext = ext
        self.st = State()
        self.obls, self.undecided = [], []
        self.inputs = []      # (label, kind, term)
        self.res_term = None
        self.t0 = time.time()
    # ---- symbolic inputs ------------------------------------------------------------------------
    def inp(self, label, v):
        if isinstance(v, Fl): self.inputs.append((label, v.ty, v))
        elif isbool(v): self.inputs.append((label, 'bool', v))
        else: self.inputs.append((label, 'int', v))
        return v
    def f32(self, label, unit=None):
        v = self.FT.fresh('f32', label, unit) if unit is not None else self.FT.fresh('f32', label)
        return self.inp(label, v)
    def int(self, label, lo=ISIZE[0], hi=ISIZE[1]):
        v = z3.Int(fresh_name(label))
        self.st.pc.append(z3.And(v >= lo, v <= hi))
        return self.inp(label, v)
    def bool(self, label): return self.inp(label, z3.Bool(fresh_name(label)))
    def pt(self, label, unit=None): return point(*[self.f32('%s.%d' % (label, i), unit) for i in range(self.N)])
    def cell(self, label, lo=ISIZE[0], hi=ISIZE[1]): return point(*[self.int('%s.%d' % (label, i), lo, hi) for i in range(self.N)])
    def struct(self, name, **kw):
        fs = self.prog.structs.get(name)
        if not fs or set(fs) != set(kw): raise Unsupported("struct %s has fields %r, the contract knows %r" % (name, fs, sorted(kw)))
        return Adt(name, [kw[f] for f in fs])
    def fld(self, v, name):
        if isinstance(v, Ref): v = self.ex.deref(self.st, v)
        fs = self.prog.structs.get(v.kind)
        if not fs or name not in fs: raise Unsupported("no field %s in %s" % (name, v.kind))
        return v.f[fs.index(name)]
    def bounds(self, label, unit=None):
        return self.struct('Bounds', min=self.pt(label + '.min', unit), max=self.pt(label + '.max', unit))
    def cell_bounds(self, label, lo=ISIZE[0], hi=ISIZE[1]):
        return self.struct('CellBounds', min=self.cell(label + '.min', lo, hi), max=self.cell(label + '.max', lo, hi))
    def pts_seq(self, label, wrap=None, lo=0):
        """A sequence of points of any length; wrap(axis, term) adjusts each coordinate. Registered as an input."""
        FT = self.FT
        tmpl = point(*[FT.fresh('f32') for _ in range(self.N)])
        s, cs = fresh_seq(FT, tmpl, label)
        self.st.pc += cs + ([s.n >= lo] if lo else [])
        g = s.at
        if wrap is not None:
            def at(i):
                return point(*[wrap(k, x) for k, x in enumerate(pcoords(g(i)))])
            s = Seq(s.n, at)
        self.inputs.append((label, 'seq', s))
        return s
    def cloud_of(self, s):
        """The matrix of a point cloud with the points of s."""
        return self.struct('PointCloud', data=Adt('dmat', (self.N, Seq(s.n, lambda i: Adt('mat', pcoords(s.at(i)))))))
    def const(self, name):
        if not self.prog.find_const(name): raise Unsupported("no constant " + name)
        return self.ex.const(name)
    def ref(self, v, st=None): return self.ex.alloc(st or self.st, v)
    def assume(self, c): 
        if c is not True: self.st.pc.append(zb(c))
    # ---- running --------------------------------------------------------------------------------
    def fn(self, short, n=None): return self.prog.fn(short, n or self.N)
    def call(self, short, args, st=None, trait=None):
        fs = self.prog.by_short.get(short, [])
        fs = [f for f in fs if len(f.args) == len(args) and (trait is None or f.trait == trait)]
        if len(fs) > 1: fs = self.prog.dim_filter(fs, self.N)
        if len(fs) != 1: raise Unsupported("function %s: %d candidates" % (short, len(fs)))
        return self.ex.run(fs[0], args, st or self.st)
    def call1(self, short, args, st=None, trait=None):
        """A call with a single outcome (after merging); side states must merge."""
        outs = self.call(short, args, st, trait)
        if len(outs) != 1: raise Unsupported("%s has %d unmergeable outcomes" % (short, len(outs)))
        return outs[0]
    # ---- obligations ----------------------------------------------------------------------------
    def concretize(self, m):
        out = {}
        for label, kind, v in self.inputs:
            try:
                if kind == 'seq':
                    n = m.eval(v.n, model_completion=True).as_long()
                    out[label + '.n'] = n
                    for j in range(min(n, 40)):
                        for i, x in enumerate(leaves(v.at(j))):
                            y = m.eval(x.v[0] if isinstance(x.v, tuple) else x.v, model_completion=True)
                            out['%s.%d.%d' % (label, j, i)] = fp_to_py(y) if z3.is_fp(y) else num_to_py(y)
                elif isinstance(v, Fl):
                    t = v.v[0] if isinstance(v.v, tuple) else v.v
                    q = m.eval(t, model_completion=True)
                    if z3.is_fp(q):
                        out[label] = fp_to_py(q)
                    else:
                        x = num_to_py(q)
                        out[label] = x
                        if isinstance(v.v, tuple) and v.v[1]: out[label + '/unit'] = str(v.v[1])
                elif kind == 'bool': out[label] = z3.is_true(m.eval(zb(v), model_completion=True))
                else: out[label] = num_to_py(m.eval(v, model_completion=True) if isz(v) else v)
            except Exception: pass
        return out
    def ensure(self, name, st, goal, timeout=None):
        t0 = time.time()
        try:
            r, m = self.ex.proves(st.pc, goal, timeout or self.ex.prove_timeout)
        except z3.Z3Exception as e:
            raise Unsupported("solver: %s" % e)
        open_ = r == 'unknown'
        # a counterexample counts only if no invariant was given up for lack of an answer of the solver
        if r == 'refuted' and self.ex.drops: r = 'unknown'
        if r == 'refuted' and not self.cuts(): exe.NOTE()
        self.obls.append(Obl(self.name, name, r, time.time() - t0, self.concretize(m) if m is not None else None))
        if open_: self.undecided.append((self.obls[-1], list(st.pc), goal))
        return r == 'proved'
    def retry(self, deadline):
        """Once more, with more time, what the solver gave no answer for."""
        ex = self.ex
        for o, pc, goal in self.undecided:
            left = deadline - time.time()
            if left < 10: return
            ex.strategy = [(0.3, {'random_seed': 17}), (0.3, {'arith.solver': 2, 'random_seed': 5}), (0.4, {'random_seed': 101})]
            ex.prove_timeout = int(min(90, left) * 1000)
            t0 = time.time()
            try: r, m = ex.proves(pc, goal, ex.prove_timeout)
            except (z3.Z3Exception, Unsupported): return
            o.secs += time.time() - t0
            if r == 'proved': o.status = r
            elif r == 'refuted' and not ex.drops:
                if not self.cuts(): exe.NOTE()
                o.status, o.model = r, self.concretize(m)
    def cuts(self):
        """Is a refutation only as good as the invariants of the loops cut so far?"""
        return self.ex.unroll is None and any(l['backs'] for l in self.ex.loops_cut)
    def ensure_all(self, name, outs, goal):
        """goal(state, value) on every outcome."""
        for k, (s, v) in enumerate(outs):
            self.ensure(name if len(outs) == 1 else '%s [path %d]' % (name, k), s, goal(s, v))
    def no_panic(self, name='never panics', start=0):
        bad = 0
        t0 = time.time()
        for s, msg in self.ex.panics[start:]:
            r, m = self.ex.proves(s.pc, False)
            if r != 'proved':
                bad += 1
                open_ = r == 'unknown'
                if r == 'refuted' and self.ex.drops: r = 'unknown'
                if r == 'refuted' and not self.cuts(): exe.NOTE()
                self.obls.append(Obl(self.name, '%s: %s' % (name, msg), r, time.time() - t0, self.concretize(m) if m is not None else None))
                if open_: self.undecided.append((self.obls[-1], list(s.pc), False))
        if not bad: self.obls.append(Obl(self.name, name, 'proved', time.time() - t0))
        del self.ex.panics[start:]
    def terminates(self, name='terminates'):
        worst = {}
        for l in self.ex.loops_cut:       # a loop may have been cut several times
            okk = l['variant'] is not None or l['iterator'] or not l['backs']
            if l['loop'] not in worst or not okk: worst[l['loop']] = (l, okk)
        for l, okk in worst.values():
            self.obls.append(Obl(self.name, '%s: %s (%s)' % (name, l['loop'], l['variant'] or ('iterator' if l['iterator'] else 'no variant')),
                                 'proved' if okk else 'unknown'))
    def reachable(self, st=None, what='preconditions'):
        """Vacuity: the assumptions are satisfiable."""
        r, m = self.ex.check((st or self.st).pc, 20000)
        if r == 'unsat': raise Unsupported("vacuous: the %s of %s are contradictory" % (what, self.name))
    # ---- float helpers --------------------------------------------------------------------------
    def le(self, a, b): return zb(self.ex.binop('Le', a, b))
    def lt(self, a, b): return zb(self.ex.binop('Lt', a, b))
    def eq(self, a, b): return zb(self.ex.binop('Eq', a, b))
    def same(self, a, b):
        """identical values"""
        if isinstance(a, Fl): return zb(self.FT.same(a, b))
        return a == b if isz(a) or isz(b) else z3.BoolVal(a == b)
    def same_all(self, a, b):
        return b_and(*[self.same(x, y) for x, y in zip(leaves(a), leaves(b))])

def fp_to_py(q):
    if q.isNaN(): return float('nan')
    if q.isInf(): return float('-inf') if q.isNegative() else float('inf')
    if q.isZero(): return -0.0 if q.isNegative() else 0.0
    from fractions import Fraction
    s = z3.simplify(z3.fpToReal(q))
    return float(Fraction(str(s).replace('?', '')) if '/' in str(s) or '.' in str(s) or True else 0)

def num_to_py(q):
    if z3.is_int_value(q): return q.as_long()
    if z3.is_rational_value(q): return float(q.as_fraction())
    if z3.is_algebraic_value(q): return float(q.approx(20).as_fraction())
    return q
