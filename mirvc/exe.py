"""Path-splitting symbolic executor and verification-condition generator over MIR."""
import itertools, math
import re, time, os
import z3
from mir import *
from vals import *
from fl import Fl, fresh_name
import fl

ISIZE = (-2 ** 63, 2 ** 63 - 1)
RANGES = {'isize': ISIZE, 'i64': ISIZE, 'usize': (0, 2 ** 64 - 1), 'u64': (0, 2 ** 64 - 1), 'i32': (-2 ** 31, 2 ** 31 - 1),
          'u32': (0, 2 ** 32 - 1), 'u8': (0, 255), 'i8': (-128, 127), 'u16': (0, 65535), 'i16': (-32768, 32767),
          'i128': (-2 ** 127, 2 ** 127 - 1), 'u128': (0, 2 ** 128 - 1)}

STOP = lambda: False       # is all work to end? (set by the process that runs a unit)
NOTE = lambda: None        # called when an obligation is refuted

class NeedCut(Exception):
    def __init__(self, fn, bb): self.fn, self.bb = fn, bb

class Refuted(Exception): pass

class State:
    __slots__ = ('mem', 'pc', 'vis')
    def __init__(self, mem=None, pc=None, vis=None):
        self.mem, self.pc, self.vis = mem if mem is not None else {}, pc if pc is not None else [], vis or {}
    def fork(self, cond=None):
        s = State(dict(self.mem), list(self.pc), dict(self.vis))
        if cond is not None and cond is not True: s.pc.append(cond)
        return s

class Frame:
    cnt = 0
    def __init__(self, fn):
        Frame.cnt += 1
        self.id, self.fn = Frame.cnt, fn
    def key(self, local): return (self.id, local)

class Callee:
    def __init__(self, s):
        self.s = s
        self.generics = ''
        t = s
        self.trait = self.head = None
        self.headty = ''
        if t.startswith('<'):
            c = match_close(t, 0)
            inner, rest = t[1:c], t[c + 1:]
            a = split_as(inner)
            self.headty = a[0]
            self.head = head_of(a[0])
            if len(a) > 1: self.trait, self.traitty = head_of(a[1]), a[1]
            segs = path_segs(rest)
        else:
            segs = path_segs(t)
        if segs and segs[-1].startswith('<') and not segs[-1].startswith('<impl'):
            self.generics = segs[-1][1:-1]
        names = [x for x in segs if not (x.startswith('<') and not x.startswith('<impl'))]
        self.method = names[-1]
        self.segs = names
        if self.head is None and len(names) > 1:
            h = names[-2]
            if h.startswith('<impl'):
                self.headty = h[6:-1]
                self.head = head_of(self.headty)
            else:
                self.head = h
                # generics of the type segment
                k = segs.index(h)
                self.headty = h + (segs[k + 1] if k + 1 < len(segs) and segs[k + 1].startswith('<') else '')

def split_as(s):
    depth = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c in '<([{': depth += 1
        elif c in ')]}' or (c == '>' and s[i - 1] not in '-='): depth -= 1
        if depth == 0 and s.startswith(' as ', i):
            return [s[:i], s[i + 4:]]
        i += 1
    return [s]

def path_segs(t):
    out, depth, cur, i = [], 0, '', 0
    while i < len(t):
        c = t[i]
        if c in '<([{': depth += 1
        elif c in ')]}' or (c == '>' and t[i - 1] not in '-='): depth -= 1
        if depth == 0 and t.startswith('::', i):
            if cur: out.append(cur)
            cur = ''; i += 2; continue
        cur += c; i += 1
    if cur: out.append(cur)
    return out

def head_of(ty):
    ty = ty.strip()
    while True:
        m = re.match(r"(&('\w+ )?(mut )?|dyn |impl |mut )", ty)
        if not m: break
        ty = ty[m.end():].strip()
    if ty.startswith('['): return 'slice'
    if ty.startswith('('): return 'tuple'
    if ty.startswith('{'): return ty
    k = ty.find('<')
    p = ty[:k] if k >= 0 else ty
    if ty.startswith('<'): return ty
    return p.rstrip(':').split('::')[-1].split(' ')[0]

class Stats:
    def __init__(self):
        self.queries = 0; self.time = 0.0; self.unknown = 0; self.reused = 0

class Exec:
    def __init__(self, prog, N, FT, typeenv=None):
        self.prog, self.N, self.FT = prog, N, FT
        self.typeenv = typeenv or {}
        self.tysubst = {}        # type parameters of the generic function being executed
        self.contracts = {}
        self.used_contracts = set()
        self.models_used = set()
        self.fns_used = set()
        self.panics = []
        self.cands = []
        self.variants = []
        self.heap = 0
        self.cutset = set()
        self.stats = Stats()
        self.global_assume = []
        self.loops_cut = []
        self.var_cache = {}
        self.strategy = [(1, {})]
        self.recent = []
        self.sym_cache = {}
        self.weak = set()
        self.bands = {}
        self.opaque = {}        # symbols that only over-approximate an operation: name -> {id: (term, arguments, operation)}
        self.deadline = None
        self.feas_timeout = 3000
        self.prove_timeout = 20000
        self.depth = 0
        self.ext = None
        self.set_enums = []
        self.skolem_cells = []
        self.set_by_value = False
        self.generic = True
        self.linear = None       # a linear abstraction to try first
        self.comm_cache = {}
        self.unroll = None       # number of iterations to follow instead of cutting loops
        self.drops = []          # invariant candidates given up undecided
        self.counted = set()
        self.split_choices = False    # calls that return different known numbers are followed one by one
        self.left_by_choice = set()   # loops that may end in more than one round
        self.join_above = 8      # paths at the head of an unrolled loop that are joined
        self.joint = True        # try the candidates of a loop together before one by one
        self.assumptions = set()
        import models
        self.models = models
    # ---- solver ---------------------------------------------------------------------------------
    def vars_of(self, e):
        k = e.get_id()
        if k in self.var_cache: return self.var_cache[k][1]
        out, seen, st = set(), set(), [e]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_quantifier(x): st.append(x.body()); continue
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(i)
            else: st.extend(x.children())
        self.var_cache[k] = (e, out)
        return out
    def syms_of(self, e):
        """Uninterpreted symbols of a formula, of any arity, but for the weak ones."""
        k = e.get_id()
        if k in self.sym_cache: return self.sym_cache[k][1]
        out, seen, st = set(), set(), [e]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_quantifier(x): st.append(x.body()); continue
            if not z3.is_app(x): continue
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                if d.name() not in self.weak: out.add(d.name())
                if x.num_args() == 0:
                    st.extend(self.FT.axioms.get(i, (0, ()))[1])
            st.extend(x.children())
        self.sym_cache[k] = (e, out)
        return out
    def slice(self, fs, seeds):
        """The formulas connected to the seeds by shared symbols (weak symbols do not connect)."""
        syms = set()
        for g in seeds: syms |= self.syms_of(g)
        todo = [(f, self.syms_of(f)) for f in fs]
        out = []
        while True:
            rest, grew = [], False
            for f, v in todo:
                if not v or v & syms: out.append(f); syms |= v; grew = True
                else: rest.append((f, v))
            if not grew: return out, not rest
            todo = rest
    def comm_in(self, e):
        """Instances of commutativity for the applications in a formula."""
        k = e.get_id()
        if k in self.comm_cache: return self.comm_cache[k][1]
        out, seen, st = [], set(), [e]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen: continue
            seen.add(i)
            if not z3.is_app(x): continue
            if x.num_args() > 1 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in self.FT.comm:
                xs = x.children()
                out += [x == x.decl()(*ys) for ys in itertools.permutations(xs) if not all(a.eq(b) for a, b in zip(xs, ys))]
            st.extend(x.children())
        self.comm_cache[k] = (e, out)
        return out
    def axioms_for(self, fs):
        ax, seen, work = [], set(), []
        A = self.FT.axioms
        if self.FT.comm:
            done = set()
            for f in fs:
                for c in self.comm_in(f):
                    if c.get_id() not in done: done.add(c.get_id()); ax.append(c)
        if not A: return ax
        for f in fs: work.extend(self.vars_of(f))
        while work:
            v = work.pop()
            if v in seen: continue
            seen.add(v)
            if v in A:
                for c in A[v][1]:
                    ax.append(c); work.extend(self.vars_of(c))
        return ax
    def check(self, fs, timeout, quick=False):
        """sat/unsat/unknown of the conjunction, plus model."""
        if self.deadline and time.time() > self.deadline or STOP(): raise Unsupported("time budget exhausted")
        fs = [zb(f) for f in fs if f is not True] + self.global_assume
        t0 = time.time()
        fs = fs + self.axioms_for(fs)
        r = z3.unknown
        if self.linear:
            lf = [self.linear.f(f) for f in fs]
            for ms, opts in [(300, {}), (600, {'random_seed': 7}), (600, {'arith.solver': 2}), (1500, {'random_seed': 11}), (3000, {'arith.solver': 2, 'random_seed': 3})][:1 if quick else None]:
                s = z3.Solver()
                s.set('timeout', ms)
                for k, v in opts.items(): s.set(k, v)
                for f in lf: s.add(f)
                r = s.check()
                if r != z3.unknown: break
            self.lin_result = str(r)
            if r == z3.sat: r = z3.unknown
            self.stats.linear = getattr(self.stats, 'linear', 0) + (r == z3.unsat)
        for frac, opts in self.strategy if r == z3.unknown and not quick else []:
            s = z3.Solver()
            s.set('timeout', int(timeout * frac))
            for k, v in opts.items(): s.set(k, v)
            for f in fs: s.add(f)
            r = s.check()
            if r != z3.unknown: break
        self.stats.queries += 1
        self.stats.time += time.time() - t0
        if r == z3.sat: return 'sat', s.model()
        if r == z3.unsat: return 'unsat', None
        self.stats.unknown += 1
        return 'unknown', None
    def feasible(self, pc, cond=None):
        fs = pc + ([cond] if cond is not None else [])
        for f in fs:
            if f is False: return False
        if self.weak and cond is not None and not isinstance(cond, bool):
            fs, _ = self.slice([zb(f) for f in pc if f is not True], [cond])
            fs.append(cond)
        if self.weak:        # one of the last models may do
            gs = [zb(f) for f in fs if f is not True] + self.global_assume
            gs = (gs + self.axioms_for(gs))[::-1]
            for m in self.recent:
                if all(z3.is_true(m.eval(g, model_completion=True)) for g in gs): self.stats.reused += 1; return True
        r, m = self.check(fs, self.feas_timeout, bool(self.linear))
        if r == 'sat': self.recent = [m] + self.recent[:7]
        return r != 'unsat'
    def proves(self, pc, goal, timeout=None):
        goal = simp(goal)
        if goal is True: return 'proved', None
        if self.weak and goal is not False:
            fs, all_ = self.slice([zb(f) for f in pc if f is not True], [goal])
            r, m = self.check(fs + [z3.Not(goal)], min(timeout or self.prove_timeout, self.prove_timeout))
            if r == 'unsat' or all_: return self.verdict(r, m, pc, goal)
        if goal is False: r, m = self.check(pc, timeout or self.prove_timeout)
        else: r, m = self.check(pc + [z3.Not(goal)], timeout or self.prove_timeout)
        return self.verdict(r, m, pc, goal)
    def verdict(self, r, m, pc, goal):
        if r == 'sat' and self.opaque: r, m = self.refine(m, pc, goal)
        return {'unsat': 'proved', 'sat': 'refuted', 'unknown': 'unknown'}[r], m
    def refine(self, m, pc, goal):
        """A countermodel may misinterpret the symbols that only over-approximate an operation: their true values at the
        arguments of the countermodel are added until it does not, or there is none."""
        fs = [zb(f) for f in pc if f is not True]
        if goal is not False:
            goal = zb(goal)
            fs, _ = self.slice(fs, [goal])
            fs.append(z3.Not(goal))
        syms = set().union(*(self.syms_of(f) for f in fs))
        inst = [t for n, t in self.opaque.items() if n in syms]
        facts = [p == z3.Product(xs) for t in inst for p, xs, f in t.values() if f is math.prod]
        first = bool(facts)
        for _ in range(16):
            if not inst: return 'sat', m
            bad = []
            for t in inst:
                for p, xs, f in t.values():
                    vs = [m.eval(x, model_completion=True) for x in xs + [p]]
                    if not all(z3.is_int_value(v) or z3.is_true(v) or z3.is_false(v) for v in vs): return 'unknown', m
                    vs = [v.as_long() if z3.is_int_value(v) else z3.is_true(v) for v in vs]
                    if f is math.prod:
                        if math.prod(vs[:-1]) == vs[-1]: continue
                        y = min(range(len(xs)), key=lambda i: vs[i])
                        bad += [z3.Implies(z3.And(*[x == v for i, (x, v) in enumerate(zip(xs, vs)) if i != y]), p == z3.simplify(math.prod(vs[:y] + vs[y + 1:-1]) * xs[y]))]
                    elif f(*vs[:-1]) != vs[-1]: bad.append(z3.Implies(z3.And(*[x == v for x, v in zip(xs, vs)]), p == f(*vs[:-1])))
            if not bad: return 'sat', m
            if first:
                first = False
                r, k = self.check(fs + facts, min(3000, self.prove_timeout))
                if r == 'unsat': return r, k
                if r == 'sat': m = k; continue
            facts = [x for x in facts if z3.is_implies(x)] + bad
            r, k = self.check(fs + facts, min(3000, self.prove_timeout))
            if r == 'unsat': return r, None
            if r != 'sat': return 'unknown', m
            m = k
        return 'unknown', m
    def branch(self, st, cond):
        """[(state, truth)] for the feasible outcomes of cond."""
        cond = simp(cond)
        if isinstance(cond, bool): return [(st, cond)]
        t = self.feasible(st.pc, cond)
        f = self.feasible(st.pc, z3.Not(cond))
        if t and f: return [(st.fork(cond), True), (st.fork(z3.Not(cond)), False)]
        if t: return [(st, True)]
        if f: return [(st, False)]
        return []
    def panic(self, st, msg):
        self.panics.append((st, msg))
    def check_or_panic(self, st, cond, msg):
        """States in which cond holds; the others become panics."""
        out = []
        for s, b in self.branch(st, cond):
            if b: out.append(s)
            else: self.panic(s, msg)
        return out
    # ---- memory ---------------------------------------------------------------------------------
    def alloc(self, st, v, tag='h'):
        self.heap += 1
        k = (tag, self.heap)
        st.mem[k] = v
        return Ref(k)
    def elem(self, v, p):
        if isinstance(p, int):
            if isinstance(v, Adt): 
                if p >= len(v.f): raise Unsupported("field %d of %r" % (p, v))
                return v.f[p]
            if isinstance(v, Seq): return v.at(p)
            raise Unsupported("field %s of %r" % (p, v))
        if p[0] == 'v':
            if not isinstance(v, Enum): raise Unsupported("variant of %r" % (v,))
            if p[1] not in v.pay: raise Unsupported("payload %s of %r" % (p[1], v))
            return v.pay[p[1]][p[2]]
        if p[0] == 'e':
            i = p[1]
            if isinstance(v, Seq): return v.at(i)
            if isinstance(v, Adt):
                if isinstance(i, int): return v.f[i]
                r = v.f[-1]
                for k in range(len(v.f) - 2, -1, -1): r = ite(self.FT, i == k, v.f[k], r)
                return r
        if p[0] == 'n': return v.at(p[1])
        if p[0] == 's':       # a subslice: offset and length
            lo, n = p[1], p[2]
            if isinstance(v, Seq): return Seq(n, (lambda i, v=v, lo=lo: v.at(simpi(lo + i))) if not (isinstance(lo, int) and lo == 0) else v.at)
            if isinstance(v, Adt) and isinstance(lo, int) and isinstance(n, int): return Adt('array', v.f[lo:lo + n])
        if p[0] == 'cr':      # column and row of a dynamic matrix
            return v.f[1].at(p[1]).f[p[2]] if isinstance(p[2], int) else self.elem(v.f[1].at(p[1]), ('e', p[2]))
        raise Unsupported("projection %r of %r" % (p, v))
    def load(self, st, key, path):
        if key not in st.mem: raise Unsupported("read of uninitialised %s" % (key,))
        v = st.mem[key]
        for p in path:
            if v is POISON: raise Unsupported("read of a havocked reference")
            v = self.elem(v, p)
        if v is POISON: raise Unsupported("read of a havocked reference")
        return v
    def deref(self, st, r):
        if not isinstance(r, Ref): raise Unsupported("deref of %r" % (r,))
        return self.load(st, r.key, r.path)
    def put(self, v, path, new):
        if not path: return new
        p = path[0]
        if isinstance(p, int):
            if isinstance(v, Seq): return seq_store(self.FT, v, p, self.put(v.at(p), path[1:], new))
            if not isinstance(v, Adt): raise Unsupported("store into %r" % (v,))
            f = list(v.f)
            f[p] = self.put(f[p], path[1:], new)
            return Adt(v.kind, f, v.name)
        if p[0] == 'v':
            pay = dict(v.pay)
            q = list(pay[p[1]])
            q[p[2]] = self.put(q[p[2]], path[1:], new)
            pay[p[1]] = tuple(q)
            return Enum(v.kind, v.d, pay)
        if p[0] == 'e':
            i = p[1]
            if isinstance(v, Seq): return seq_store(self.FT, v, i, self.put(v.at(i), path[1:], new))
            f = list(v.f)
            if isinstance(i, int):
                f[i] = self.put(f[i], path[1:], new)
            else:
                f = [ite(self.FT, i == k, self.put(x, path[1:], new), x) for k, x in enumerate(f)]
            return Adt(v.kind, f, v.name)
        if p[0] == 'n':
            ix = p[1]
            val = self.put(v.at(ix), path[1:], new)
            def at(jx, v=v, ix=ix, val=val):
                c = b_and(*[simp(a == b) if (isz(a) or isz(b)) else a == b for a, b in zip(ix, jx)])
                if c is True: return val
                if c is False: return v.at(jx)
                return ite(self.FT, c, val, v.at(jx))
            return NdArr(v.shape, at)
        if p[0] == 's':
            lo, n = p[1], p[2]
            w = self.put(self.elem(v, p), path[1:], new)
            if isinstance(v, Adt) and isinstance(w, Adt) and len(w.f) == n: return Adt(v.kind, v.f[:lo] + w.f + v.f[lo + n:], v.name)
            if isinstance(v, Seq) and isinstance(w, Seq):
                def at(i, v=v, w=w, lo=lo, n=n):
                    c = simp(zb(b_and(simp(zb(i >= lo)), simp(zb(i < lo + n)))))
                    if c is True: return w.at(simpi(i - lo))
                    if c is False: return v.at(i)
                    return ite(self.FT, c, w.at(simpi(i - lo)), v.at(i))
                return Seq(v.n, at)
        if p[0] == 'cr':
            s = v.f[1]
            col = self.put(s.at(p[1]), (p[2],) + tuple(path[1:]), new)
            return Adt(v.kind, (v.f[0], seq_store(self.FT, s, p[1], col)))
        raise Unsupported("store projection %r" % (p,))
    def store(self, st, key, path, new):
        if not path: st.mem[key] = new
        else:
            if key not in st.mem:
                st.mem[key] = Adt('?', [POISON] * 16)   # field-wise initialisation
            st.mem[key] = self.put(st.mem[key], path, new)
    def store_ref(self, st, r, new): self.store(st, r.key, r.path, new)
    def place(self, st, fr, pl):
        key, path = fr.key(pl[0]), ()
        pend = None
        for p in pl[1]:
            if p[0] == 'deref':
                v = self.load(st, key, path)
                if isinstance(v, Adt) and v.kind == 'Box':
                    path = path + (0,)
                    continue
                if not isinstance(v, Ref): raise Unsupported("deref of %r" % (v,))
                key, path = v.key, v.path
            elif p[0] == 'field':
                if pend is not None:
                    path = path + (('v', pend, p[1]),); pend = None
                else: path = path + (p[1],)
            elif p[0] == 'variant': pend = p[1]
            elif p[0] == 'index':
                i = simpi(self.load(st, fr.key(p[1]), ()))
                path = path + ((i if isinstance(i, int) else ('e', i)),)
            elif p[0] == 'cindex':
                v = self.load(st, key, path)
                i = p[1]
                if p[2]:
                    n = v.n if isinstance(v, Seq) else len(v.f)
                    i = simpi(n - p[1])
                path = path + ((i if isinstance(i, int) else ('e', i)),)
        return key, path
    # ---- operands -------------------------------------------------------------------------------
    def const(self, s, fn=None):
        if s == 'true': return True
        if s == 'false': return False
        if s == '()': return UNIT
        m = re.fullmatch(r'(-?\d+)_(\w+)', s)
        if m and m.group(2) in RANGES: return int(m.group(1))
        m = re.fullmatch(r'(-?[\d.]+(?:[eE][-+]?\d+)?|-?inf|NaN)(f32|f64)', s)
        if m:
            if 'inf' in m.group(1): return self.FT.inf(m.group(2), m.group(1)[0] == '-')
            if m.group(1) == 'NaN': return self.FT.nan(m.group(2))
            x = float(m.group(1))
            if m.group(2) == 'f32':
                import struct
                x = struct.unpack('f', struct.pack('f', x))[0]
            return self.FT.const(x, m.group(2))
        m = re.fullmatch(r'(?:.*::)?(f32|f64)::(?:<impl f\d\d>::)?(INFINITY|NEG_INFINITY|NAN|EPSILON|MAX|MIN|MIN_POSITIVE)', s)
        if m:
            import numpy as np
            t = np.finfo(np.float32 if m.group(1) == 'f32' else np.float64)
            k = m.group(2)
            if k == 'INFINITY': return self.FT.inf(m.group(1))
            if k == 'NEG_INFINITY': return self.FT.inf(m.group(1), True)
            if k == 'NAN': return self.FT.nan(m.group(1))
            return self.FT.const(float({'EPSILON': t.eps, 'MAX': t.max, 'MIN': t.min, 'MIN_POSITIVE': t.tiny}[k]), m.group(1))
        m = re.fullmatch(r'(?:.*::)?([iu](?:size|\d+))::(?:<impl \w+>::)?(MIN|MAX)', s)
        if m: return RANGES[m.group(1)][0 if m.group(2) == 'MIN' else 1]
        if s.startswith('"'): return Adt('strlit', (), s[1:-1])
        m = re.fullmatch(r"'(.*)'", s)
        if m: return Adt('char', (), m.group(1))
        if s.startswith('b"'): return Adt('bytes', (), s)
        if s.startswith('ZeroSized: '): return Adt('closure' if '{closure' in s else 'unit', (), s[len('ZeroSized: '):])
        if 'PhantomData' in s: return Adt('PhantomData', ())
        if s.endswith('::NDIM'): return some(self.N)
        if s in self.prog.consts or self.prog.find_const(s, fn):
            c = self.prog.find_const(s, fn)
            if isinstance(c, tuple):
                v = c[1]
                return self.const(v[6:] if v.startswith('const ') else v)
            st = State()
            outs = self.run(c, [], st)
            if len(outs) != 1: raise Unsupported("constant " + s)
            v = outs[0][1]
            if isinstance(v, Ref): return ('promoted', outs[0][0].mem[v.key] if not v.path else self.deref(outs[0][0], v))
            return v
        m = re.fullmatch(r'(?:.*::)?(\w+)::(?:<.*>::)?(\w+)', s)
        if m and m.group(1) in VARIANTS and VARIANTS[m.group(1)] and m.group(2) in VARIANTS[m.group(1)]:
            return Enum(m.group(1), vidx(m.group(1), m.group(2)), {})
        if re.fullmatch(r'[\w:<>&\' ,\[\];(){}@.\-/=*]+', s):
            return Adt('fnitem', (), s)
        raise Unsupported("constant " + s)
    def operand(self, st, fr, op):
        if op[0] == 'const':
            v = self.const(op[1], fr.fn)
            if isinstance(v, tuple) and v[0] == 'promoted': return self.alloc(st, v[1], 'p')
            if isinstance(v, Adt) and v.kind in ('strlit', 'bytes'): return v
            return v
        key, path = self.place(st, fr, op[1])
        return self.load(st, key, path)
    def place_type(self, fn, pl):
        if not pl[1]: return fn.types.get(pl[0], '')
        return ''
    # ---- arithmetic -----------------------------------------------------------------------------
    def binop(self, op, a, b, ty=None):
        FT = self.FT
        if isinstance(a, Fl) or isinstance(b, Fl):
            f = {'Add': FT.add, 'Sub': FT.sub, 'Mul': FT.mul, 'Div': FT.div, 'Rem': FT.rem, 'Lt': FT.lt, 'Le': FT.le,
                 'Gt': FT.gt, 'Ge': FT.ge, 'Eq': FT.eq}
            if op == 'Ne': return b_not(simp(FT.eq(a, b)))
            if op not in f: raise Unsupported("float " + op)
            r = f[op](a, b)
            return simp(r) if isbool(r) else r
        if isbool(a) and isbool(b):
            if op == 'Eq': return simp(zb(a) == zb(b)) if isz(a) or isz(b) else a == b
            if op in ('Ne', 'BitXor'): return b_not(simp(zb(a) == zb(b))) if isz(a) or isz(b) else a != b
            if op == 'BitAnd': return b_and(a, b)
            if op == 'BitOr': return b_or(a, b)
            raise Unsupported("bool " + op)
        if isint(a) and isint(b):
            if op in ('Add', 'AddUnchecked'): return simpi(a + b)
            if op in ('Sub', 'SubUnchecked'): return simpi(a - b)
            if op in ('Mul', 'MulUnchecked'): return simpi(a * b)
            if op == 'Div': return tdiv(a, b)
            if op == 'Rem': return trem(a, b)
            if op == 'Lt': return simp(a < b)
            if op == 'Le': return simp(a <= b)
            if op == 'Gt': return simp(a > b)
            if op == 'Ge': return simp(a >= b)
            if op == 'Eq': return simp(a == b)
            if op == 'Ne': return simp(b_not(simp(a == b)))
            if isinstance(a, int) and isinstance(b, int):
                if op == 'BitAnd': return a & b
                if op == 'BitOr': return a | b
                if op == 'BitXor': return a ^ b
                if op in ('Shl', 'ShlUnchecked'): return a << b
                if op in ('Shr', 'ShrUnchecked'): return a >> b
            if op in ('Shr', 'ShrUnchecked') and isinstance(b, int): return fdiv(a, 2 ** b)
            if op == 'BitAnd' and isinstance(b, int) and b >= 0 and (b & (b + 1)) == 0: return simpi(a % (b + 1))
            if op == 'BitAnd' and isinstance(a, int) and a >= 0 and (a & (a + 1)) == 0: return simpi(b % (a + 1))
            if op in ('BitAnd', 'BitOr', 'BitXor'):
                c = self.bitand(a, b)
                return simpi(c if op == 'BitAnd' else a + b - c if op == 'BitOr' else a + b - 2 * c)
            if op in ('Shl', 'ShlUnchecked') and isinstance(b, int) and ty in RANGES: return wrap(simpi(a * 2 ** b), ty)
            raise Unsupported("integer " + op)
        if isinstance(a, Enum) and isinstance(b, Enum) and op in ('Eq', 'Ne'):
            r = self.models.v_eq(self, None, a, b)
            return r if op == 'Eq' else b_not(r)
        raise Unsupported("binop %s on %r, %r" % (op, a, b))
    def pow2(self, x):
        if isinstance(x, int): return x > 0 and x & (x - 1) == 0
        p = z3.Function('POW2', z3.IntSort(), z3.BoolSort())(x)
        self.opaque.setdefault('POW2', {})[x.get_id()] = (p, [x], lambda v: v > 0 and v & (v - 1) == 0)
        return z3.And(x >= 1, p)
    def bitand(self, a, b):
        """Bitwise and in two's complement: exact where an operand is a mask of low or high bits, else uninterpreted."""
        r = None
        for x, y in ((a, b), (b, a)):
            if isinstance(y, int):
                if y >= 0 and y & (y + 1) == 0: return simpi(x % (y + 1))
                if y < 0 and -y & (-y - 1) == 0: return simpi(x - x % -y)
        a, b = sorted((z3.IntVal(v) if isinstance(v, int) else v for v in (a, b)), key=lambda v: v.get_id())
        k = ('band', a.get_id(), b.get_id())
        if k in self.bands: return self.bands[k][0]
        r = z3.Int(fresh_name('band'))
        self.opaque[r.decl().name()] = {0: (r, [a, b], lambda v, w: v & w)}
        ax = []
        for x, y in ((a, b), (b, a)):
            ax += [z3.Implies(x >= 0, z3.And(r >= 0, r <= x)), z3.Implies(x < 0, r <= y)]
            if z3.is_int_value(y): continue
            lo, hi = simpi(y + 1), simpi(-y)
            ax += [z3.Implies(zb(self.pow2(lo)), r == x % lo), z3.Implies(zb(self.pow2(hi)), r == x - x % hi)]
        self.bands[k] = (r, a, b)
        self.FT.axioms[r.get_id()] = (r, ax)
        return r
    def wrapc(self, st, a, ty):
        """Conversion to an integer type; the identity when the value is proved in range."""
        if ty not in RANGES: raise Unsupported("integer type " + ty)
        if isinstance(a, int): return wrap(a, ty)
        lo, hi = RANGES[ty]
        if self.check(st.pc + [z3.Not(z3.And(a >= lo, a <= hi))], self.feas_timeout)[0] == 'unsat': return a
        return wrap(a, ty)
    def factors(self, x):
        """Those of a product built by prod()."""
        if isz(x) and z3.is_app(x) and x.decl().name().startswith('PROD'): return list(x.children())
        if isz(x) and z3.is_mul(x): return [f for y in x.children() for f in self.factors(y)]
        if isz(x) and z3.is_int_value(x): return [x.as_long()]
        return [x]
    def products(self, x):
        """The products of unknown integers in x."""
        out, todo, seen = [], [x] if isz(x) else [], set()
        while todo:
            y = todo.pop()
            if y.get_id() in seen: continue
            seen.add(y.get_id())
            if z3.is_mul(y) and z3.is_int(y) and sum(not z3.is_int_value(f) for f in y.children()) > 1: out.append(y)
            todo += y.children()
        return out
    def prod(self, st, xs):
        """The product of extents. Of more than one symbolic factor: an uninterpreted function of the factors (in any
        order), which over-approximates the product."""
        k, sy = 1, []
        for x in xs:
            x = simpi(x)
            if isinstance(x, int): k *= x
            else: sy.append(x)
        if k == 0 or not sy: return k
        if len(sy) == 1: return simpi(k * sy[0])
        self.assumptions.add("the number of cells of a map fits in isize (the product of its extents does not overflow)")
        self.FT.comm.add('PROD%d' % len(sy))
        p = z3.Function('PROD%d' % len(sy), *([z3.IntSort()] * (len(sy) + 1)))(*sy)
        self.opaque.setdefault('PROD%d' % len(sy), {})[p.get_id()] = (p, sy, math.prod)
        st.pc += [z3.Implies(z3.And(*[x >= 0 for x in sy]), z3.And(p >= 0, p * k < 2 ** 63)), z3.Implies(z3.Or(*[x == 0 for x in sy]), p == 0)]
        return simpi(k * p)
    def int_type(self, ty):
        ty = ty.strip()
        return ty if ty in RANGES else None
    def rvalue(self, st, fr, rv, dest):
        k = rv[0]
        if k == 'use': return [(st, self.operand(st, fr, rv[1]))]
        if k == 'ref':
            key, path = self.place(st, fr, rv[1])
            if not path and key not in st.mem and not rv[1][1]:
                # a closure without captures is never assigned
                t = fr.fn.types.get(rv[1][0], '')
                if t.startswith('{closure@'): st.mem[key] = Adt('closure', [], t)
            return [(st, Ref(key, path))]
        if k == 'bin':
            a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
            if rv[1].endswith('WithOverflow'):
                t = self.place_type(fr.fn, dest)
                m = re.match(r'\((\w+), bool\)', t)
                if not m: raise Unsupported("overflow type " + t)
                lo, hi = RANGES[m.group(1)]
                if rv[1] == 'MulWithOverflow' and lo == 0 and isz(a) and isz(b): return [(st, tup(self.prod(st, self.factors(a) + self.factors(b)), False))]
                if rv[1] == 'MulWithOverflow' and lo < 0 and isz(a) and isz(b) and type(self.FT).__name__ == 'S' and \
                        self.proves(st.pc, z3.And(a >= 0, b >= 0), 2000)[0] == 'proved':
                    return [(st, tup(self.prod(st, self.factors(a) + self.factors(b)), False))]
                r = self.binop(rv[1][:3], a, b)
                return [(st, tup(r, simp(b_or(simp(r < lo), simp(r > hi)))))]
            return [(st, self.binop(rv[1], a, b, self.place_type(fr.fn, dest)))]
        if k == 'un':
            a = self.operand(st, fr, rv[2])
            if rv[1] == 'Not':
                if isbool(a): return [(st, simp(b_not(a)))]
                t = self.place_type(fr.fn, dest)
                if isint(a) and t in RANGES: return [(st, simpi((-1 if RANGES[t][0] < 0 else RANGES[t][1]) - a))]
                raise Unsupported("integer Not")
            if rv[1] == 'Neg': return [(st, self.FT.neg(a) if isinstance(a, Fl) else simpi(-a))]
            if rv[1] == 'PtrMetadata':
                v = self.deref(st, a)
                return [(st, self.models.v_len(self, st, v))]
        if k == 'len':
            key, path = self.place(st, fr, rv[1])
            return [(st, self.models.v_len(self, st, self.load(st, key, path)))]
        if k == 'discr':
            key, path = self.place(st, fr, rv[1])
            v = self.load(st, key, path)
            if not isinstance(v, Enum): raise Unsupported("discriminant of %r" % (v,))
            return [(st, v.d)]
        if k == 'cast':
            a = self.operand(st, fr, rv[1])
            ty, kind = rv[2], rv[3]
            if kind.startswith('PointerCoercion'):
                return [(st, a)]
            if kind == 'IntToFloat': return [(st, self.FT.from_int(a, ty))]
            if kind == 'FloatToInt': return [(st, simpi(self.FT.to_int(a, RANGES[ty])))]
            if kind == 'FloatToFloat': return [(st, self.FT.convert(a, ty))]
            if kind == 'IntToInt':
                if isbool(a): return [(st, ite(self.FT, a, 1, 0))]
                if isinstance(a, Enum): a = a.d
                return [(st, self.wrapc(st, a, ty))]
            if kind == 'Transmute':
                m = re.match(r'\[(\w+); \d+\]$', ty)
                if m and isinstance(a, Adt) and a.kind == 'array':
                    return [(st, Adt('array', [self.wrapc(st, x, m.group(1)) for x in a.f]))]
                if ty in RANGES and isint(a): return [(st, self.wrapc(st, a, ty))]
            if kind == 'PtrToPtr': return [(st, a)]
            raise Unsupported("cast %s to %s" % (kind, ty))
        if k == 'tuple': return [(st, tup(*[self.operand(st, fr, o) for o in rv[1]]))]
        if k == 'array': return [(st, Adt('array', [self.operand(st, fr, o) for o in rv[1]]))]
        if k == 'repeat':
            m = re.match(r'(?:const )?(\d+)', rv[2])
            if not m: raise Unsupported("repeat " + rv[2])
            v = self.operand(st, fr, rv[1])
            return [(st, Adt('array', [v] * int(m.group(1))))]
        if k == 'closure':
            return [(st, Adt('closure', [self.operand(st, fr, o) for _, o in rv[2]], rv[1]))]
        if k == 'struct':
            segs = [x for x in path_segs(rv[1]) if not x.startswith('<')]
            name = segs[-1]
            vals = [self.operand(st, fr, o) for _, o in rv[2]]
            if len(segs) > 1 and VARIANTS.get(segs[-2]) and name in VARIANTS[segs[-2]]:
                return [(st, Enum(segs[-2], vidx(segs[-2], name), {name: tuple(vals)}))]
            if self.prog.is_union_update(rv): raise Unsupported("struct update")
            return [(st, Adt(name, vals))]
        if k == 'ctor':
            segs = [x for x in path_segs(rv[1]) if not x.startswith('<')]
            name = segs[-1]
            vals = tuple(self.operand(st, fr, o) for o in rv[2])
            en = segs[-2] if len(segs) > 1 else None
            if en and VARIANTS.get(en) and name in VARIANTS[en]:
                return [(st, Enum(en, vidx(en, name), {name: vals} if vals else {}))]
            if en is None or en == 'ErrorKind':
                if not vals:
                    en2 = self.prog.enum_of_bare(name, self.place_type(fr.fn, dest))
                    if en2: return [(st, Enum(en2, vidx(en2, name), {}))]
                    return [(st, Adt('unitvar', (), name))]
            return [(st, Adt(name, vals))]
        raise Unsupported("rvalue %r" % (rv,))
    # ---- control --------------------------------------------------------------------------------
    def run(self, fn, args, st):
        """Execute a function body; [(state, return value)]."""
        self.depth += 1
        if self.depth > 40: raise Unsupported("call depth (recursion)")
        self.fns_used.add(fn.name)
        try:
            while True:
                np, fr = len(self.panics), Frame(fn)
                s0 = st.fork()
                for (a, _), v in zip(fn.args, args): s0.mem[fr.key(a)] = v
                try:
                    rets, outs = [], self.run_from(fr, 'bb0', s0, None)
                    for kind, s, x in outs:
                        assert kind == 'ret', kind
                        if 'promoted[' not in fn.name:      # a promoted constant lives on
                            for k in [k for k in s.mem if k[0] == fr.id]: del s.mem[k]
                        s.vis = st.vis
                        rets.append((s, x))
                    return self.merge(st, rets)
                except NeedCut as e:
                    if e.fn is not fn: raise
                    self.cutset.add((fn.name, e.bb))
                    del self.panics[np:]
        finally:
            self.depth -= 1
    def merge(self, base, outs):
        if len(outs) <= 1: return outs
        if self.split_choices and len({tuple(x for x in choice(v)) for _, v in outs}) > 1: return outs
        try:
            n = len(base.pc)
            keys = set(outs[0][0].mem)
            if any(set(s.mem) != keys for s, _ in outs): return outs
            conds = [b_and(*s.pc[n:]) for s, _ in outs]
            val, mem = outs[-1][1], dict(outs[-1][0].mem)
            for (s, v), c in list(zip(outs, conds))[-2::-1]:
                val = ite(self.FT, zb(c), v, val)
                for k in keys:
                    if mem[k] is not s.mem[k] and not same(mem[k], s.mem[k]):
                        mem[k] = ite(self.FT, zb(c), s.mem[k], mem[k])
            m = State(mem, list(base.pc), dict(base.vis))
            d = simp(b_or(*conds))
            if d is not True: m.pc.append(d)
            return [(m, val)]
        except Unsupported:
            return outs
    def run_from(self, fr, start, st, loop):
        """loop = (header, blocks): run one body iteration. Outcomes: ('ret', st, v) ('back', st, None) ('exit', st, bb)."""
        fn = fr.fn
        code, loops = self.prog.lowered(fn)
        work, outs, first = [(start, st, None)], [], True
        later = []          # states back at the head of a loop that is run iteration by iteration
        waiting = []
        while work or later or waiting:
            if not work and not later: work.append(waiting.pop())
            if not work:
                # the innermost loop first, and of it the fewest iterations
                at = lambda w: w[1].vis.get((fr.id, w[0]), (0, 0))[0]
                # (and those deepest in an enclosing loop without a known number of rounds: it is cut sooner)
                out = lambda w: sum(w[1].vis.get((fr.id, l), (0, 0))[0] for l, body in loops.items() if l != w[0] and w[0] in body and (fn.name, l) not in self.counted and (fn.name, l) not in self.cutset)
                bb, o, n = min(((w[0], out(w), at(w)) for w in later), key=lambda x: (len(loops[x[0]]), x[0], -x[1], x[2]))
                grp = [w for w in later if w[0] == bb and at(w) == n and out(w) == o]
                prev = grp[0][2]
                later = [w for w in later if not any(w is x for x in grp)]
                got = [(bb, s, prev) for s in self.join([w[1] for w in grp])]
                # inside of further rounds of such a loop: one path at a time, down to its cut
                if o > 1 and len(got) > 8: waiting += got[:-1]; got = got[-1:]
                work += got
            bb, s, prev = work.pop()
            if loop and not first:
                if bb == loop[0]: outs.append(('back', s, None)); continue
                if bb not in loop[1]: outs.append(('exit', s, bb)); continue
            if bb in loops and not (loop and bb == loop[0]):
                if (fn.name, bb) in self.cutset:
                    for o in self.cut_mir_loop(fr, bb, s):
                        if o[0] == 'exit': work.append((o[2], o[1], bb))
                        else: outs.append(o)
                    first = False
                    continue
                c, npc = s.vis.get((fr.id, bb), (0, len(s.pc)))
                if prev not in loops[bb]: c, npc = 0, len(s.pc)       # entered from outside
                lim = 24 if (fn.name, bb) not in self.left_by_choice else 4 if any(l != bb and l in loops[bb] for l in loops) else 5
                if c >= 80 or (c >= lim and len(s.pc) > npc):
                    raise NeedCut(fn, bb)
                s.vis[(fr.id, bb)] = (c + 1, npc)
            first = False
            nxt = self.block(fr, bb, s)
            mine = [l for l, body in loops.items() if bb in body]
            if len(nxt) == 1:
                # a loop left without a choice has a known number of iterations
                for l in mine:
                    if nxt[0][0] not in loops[l] and s.vis.get((fr.id, l), (0, 0))[0] > 1 and (fn.name, l) not in self.left_by_choice: self.counted.add((fn.name, l))
            else:
                for l in mine:
                    if any(x[0] is not None and x[0] not in loops[l] and not self.diverges(code, x[0]) for x in nxt): self.left_by_choice.add((fn.name, l))
                t = code[bb][1]
                if t[0] == 'call' and '::next' in str(t[2]) and mine: self.left_by_choice.add((fn.name, min(mine, key=lambda l: len(loops[l]))))
            for nb, s2, v in nxt:
                if nb is None: outs.append(('ret', s2, v))
                elif nb in loops and bb in loops[nb] and (fn.name, nb) in self.counted and not (loop and nb == loop[0]) and (fn.name, nb) not in self.cutset: later.append((nb, s2, bb))
                else: work.append((nb, s2, bb))
        return outs
    def diverges(self, code, bb):
        t = code[bb][1] if bb in code else ('?',)
        return t[0] == 'call' and t[4] is None
    def join(self, sts):
        """States at one place of a function as one, when they are many and have a common shape."""
        if len(sts) <= self.join_above: return sts
        try:
            n = 0
            while all(n < len(s.pc) for s in sts) and all(s.pc[n] is sts[0].pc[n] or s.pc[n].eq(sts[0].pc[n]) for s in sts): n += 1
            conds = [b_and(*s.pc[n:]) for s in sts]
            keys = set(sts[0].mem)
            for s in sts[1:]: keys &= set(s.mem)
            if any(k[0] == 'ghost' for s in sts for k in set(s.mem) - keys): return sts
            mem = {k: sts[-1].mem[k] for k in keys}
            for s, c in list(zip(sts, conds))[-2::-1]:
                for k in keys:
                    if mem[k] is not s.mem[k] and not same(mem[k], s.mem[k]): mem[k] = ite(self.FT, zb(c), s.mem[k], mem[k])
            for v in mem.values():
                if any(k not in keys for k in refs_in(v)): return sts
            m = State(mem, list(sts[0].pc[:n]), dict(sts[0].vis))
            d = simp(b_or(*conds))
            if d is not True: m.pc.append(d)
            return [m]
        except Unsupported: return sts
    def block(self, fr, bb, st):
        code, loops = self.prog.lowered(fr.fn)
        if bb not in code: raise Unsupported("block %s" % bb)
        stmts, term = code[bb]
        states = [st]
        for dest, rv in stmts:
            nxt = []
            for s in states:
                for s2, v in self.rvalue(s, fr, rv, dest):
                    key, path = self.place(s2, fr, dest)
                    self.store(s2, key, path, v)
                    nxt.append(s2)
            states = nxt
        out = []
        for s in states: out += self.terminator(fr, bb, term, s)
        return out
    def terminator(self, fr, bb, t, s):
        k = t[0]
        if k == 'goto': return [(t[1], s, None)]
        if k == 'return':
            return [(None, s, s.mem.get(fr.key('_0'), UNIT))]
        if k == 'unreachable':
            if self.feasible(s.pc): self.panic(s, "unreachable code reached")
            return []
        if k == 'switch':
            v = self.operand(s, fr, t[1])
            out, rest = [], []
            if isbool(v): v = (1 if v else 0) if isinstance(v, bool) else v
            targets = [(c - 256 if c is not None and c >= 128 and self.is_ordering(fr.fn, t[1], code_term=s) else c, b) for c, b in t[2]]
            if isinstance(v, int):
                for c, b in targets:
                    if c is None or c == v: return [(b, s, None)]
                return []
            eqs = []
            live = []
            for c, b in targets:
                cond = (b_not(v) if c == 0 else v) if isbool(v) and c is not None else (v == c if c is not None else None)
                if c is None: cond = b_and(*[b_not(e) for e in eqs])
                else: eqs.append(cond)
                cond = simp(cond)
                if cond is False: continue
                live.append((cond, b))
            res = []
            for cond, b in live:
                if cond is True or self.feasible(s.pc, cond): res.append((cond, b))
            if len(res) == 1: return [(res[0][1], s, None)]
            return [(b, s.fork(cond), None) for cond, b in res]
        if k == 'assert':
            v = self.operand(s, fr, t[1])
            cond = v if t[2] else b_not(v)
            return [(t[4], s2, None) for s2 in self.check_or_panic(s, cond, t[3].strip('"'))]
        if k == 'call':
            args = [self.operand(s, fr, a) for a in t[3]]
            dty = self.place_type(fr.fn, t[1]) if t[1] else '!'
            try:
                if isinstance(t[2], str) and t[2].startswith(('copy ', 'move ')):       # a function pointer
                    outs = self.call_closure(s, self.operand(s, fr, parse_operand(t[2])), args)
                else: outs = self.call(t[2], args, s, dty, (fr, bb))
            except Unsupported as e:
                raise Unsupported("%s\n  at %s in %s" % (e, t[2], fr.fn.name)) if str(e).count('\n') < 6 else e
            res = []
            for s2, v in outs:
                if t[4] is None: continue
                if t[1] is not None:
                    key, path = self.place(s2, fr, t[1])
                    self.store(s2, key, path, v)
                res.append((t[4], s2, None))
            return res
        if k in ('resume', 'terminate'): return []
        raise Unsupported("terminator %r" % (t,))
    def is_ordering(self, fn, op, code_term=None):
        return op[0] != 'const' and fn.types.get(op[1][0], '') == 'i8'
    # ---- calls ----------------------------------------------------------------------------------
    def call(self, callee, args, st, dty='', site=None):
        c = callee if isinstance(callee, Callee) else Callee(callee)
        fn = self.prog.resolve(self, c, args, st)
        if fn is not None:
            for key in (fn.short, fn.name):
                if key in self.contracts:
                    self.used_contracts.add(key)
                    return self.contracts[key](self, st, args)
            gen = self.prog.fn_generics(fn, c.generics, self.tysubst)
            if gen is None: return self.run(fn, args, st)
            old, self.tysubst = self.tysubst, gen
            try: return self.run(fn, args, st)
            finally: self.tysubst = old
        c.dty = dty
        c.site = site
        return self.models.dispatch(self, c, args, st)
    def call_closure(self, st, clo, args):
        """clo: closure value, reference to one, or function item."""
        v = clo
        while isinstance(v, Ref): 
            ref = v
            v = self.deref(st, v)
        if isinstance(v, Adt) and v.kind == 'fnitem':
            return self.call(v.name, args, st)
        if isinstance(v, Adt) and v.kind == 'pyfn': return v.f[0](st, args)
        if not (isinstance(v, Adt) and v.kind == 'closure'): raise Unsupported("call of %r" % (v,))
        fn = self.prog.closures.get(v.name)
        if fn is None: raise Unsupported("closure " + v.name)
        t = fn.args[0][1]
        if t.startswith('&'):
            r = clo if isinstance(clo, Ref) and self.deref(st, clo) is v else None
            if r is None: r = self.alloc(st, v)
            self_arg = r
        else: self_arg = v
        for key in (fn.name,):
            if key in self.contracts:
                self.used_contracts.add(key)
                return self.contracts[key](self, st, [self_arg] + args)
        return self.run(fn, [self_arg] + list(args), st)
    # ---- loops ----------------------------------------------------------------------------------
    def cut_mir_loop(self, fr, bb, st):
        code, loops = self.prog.lowered(fr.fn)
        blocks = loops[bb]
        live = self.prog.live_in(fr.fn, bb)
        s0 = st.fork()
        for k in list(s0.mem):
            if k[0] == fr.id and k[1] not in live: del s0.mem[k]
        def body(h):
            backs, outs = [], []
            for kind, s, x in self.run_from(fr, bb, h, (bb, blocks)):
                if kind == 'back':
                    for k in list(s.mem):
                        if k[0] == fr.id and k[1] not in live: del s.mem[k]
                    backs.append(s)
                else: outs.append((kind, s, x))
            return backs, outs
        return self.cut_loop(s0, body, '%s@%s' % (fr.fn.short, bb))
    def cut_loop(self, st, body, label):
        """Replace the iterations of a loop by an inferred inductive invariant. body(st) -> (back states, outcomes)."""
        if self.unroll is not None: return self.unroll_loop(st, body, label)
        gk = ('ghost', label)
        st = st.fork()
        st.mem[gk] = 0
        def body2(h):
            backs, outs = body(h)
            for b in backs: b.mem[gk] = b.mem[gk] + 1
            return backs, outs
        M = {}
        np = len(self.panics)
        for rnd in range(12):
            h = self.havoc(st, M)
            backs, outs = body2(h.fork())
            del self.panics[np:]
            new = {}
            for b in backs:
                for k in h.mem:
                    if k in b.mem: self.diff(h.mem[k], b.mem[k], (k,), new)
            grew = False
            for p, (a, b) in new.items():
                if p not in M:
                    # a coarser leaf replaces finer ones
                    M[p] = (a, b); grew = True
            for p in list(M):
                if any(q != p and p[:len(q)] == q for q in M): del M[p]
            if not grew: break
        else:
            raise Unsupported("loop frame did not stabilise: " + label)
        closed = self.closed_forms(st, M, body2, gk)
        if closed: h = self.havoc(st, M, closed, gk)
        ctx = LoopCtx(self, label, st, h, M)
        cands = []
        for provider in ([generic_cands] if self.generic else []) + self.cands:
            cands += provider(ctx)
        live = []
        extra = {}
        for name, f, *more in cands:
            if more: extra[name] = more[0]     # further instances of a candidate that is proved for an arbitrary constant
            try:
                g = f(st)
                f(h)
            except (Unsupported, z3.Z3Exception, KeyError, AttributeError, IndexError, TypeError):
                continue
            r, _ = self.proves(st.pc, g, 4000)
            if r == 'proved': live.append((name, f))
            elif r == 'unknown': self.drops.append((label, name, 'entry'))
        while True:
            h2 = h.fork()
            for name, f in live:
                h2.pc.append(zb(f(h)))
                if name in extra: h2.pc.append(zb(extra[name](h)))
            h2.pc = [c for c in h2.pc if c is not True]
            np = len(self.panics)
            backs, outs = body2(h2)
            bad = set()
            for b in backs:
                todo = [(n, f) for n, f in live if n not in bad]
                while todo:
                    gs = []
                    for n, f in todo:
                        try: gs.append((n, zb(simp(f(b)))))
                        except (Unsupported, z3.Z3Exception): gs.append((n, z3.BoolVal(False)))
                    if not gs: break
                    r, m = self.check(b.pc + [z3.Not(z3.And(*[g for _, g in gs]))], 15000) if self.joint else ('unknown', None)
                    if r == 'unsat': break
                    if r == 'sat':
                        drop = {n for n, g in gs if z3.is_false(m.eval(g, model_completion=True))}
                        if not drop: drop = None
                    else: drop = None
                    if drop is None:
                        drop = set()
                        for n, g in gs:
                            r2, m2 = self.check(b.pc + [z3.Not(g)], 8000)
                            if r2 != 'unsat': drop.add(n)
                            if r2 == 'unknown': self.drops.append((label, n, 'step', self.linear and self.lin_result))
                        if not drop: break
                    bad |= drop
                    todo = [(n, f) for n, f in todo if n not in drop]
            if not bad: break
            live = [(n, f) for n, f in live if n not in bad]
            del self.panics[np:]
        var = None
        for provider in self.variants:
            for name, f in provider(ctx):
                good = True
                for b in backs:
                    try: r, m = self.proves(b.pc, b_and(f(h) >= 0, f(b) < f(h)))
                    except (Unsupported, z3.Z3Exception, KeyError, AttributeError, IndexError): r = 'unknown'
                    if r != 'proved': good = False; break
                if good: var = name; break
            if var: break
        rec = dict(loop=label, invariants=[n for n, _ in live], candidates=len(cands), backs=len(backs), variant=var,
                   iterator=any(isinstance(v, Adt) and v.kind.startswith('It') or (isinstance(v, Adt) and v.kind == 'Range')
                                for v in [self.path_get(st, p[:2]) for p in M]))
        self.loops_cut.append(rec)
        return outs
    def unroll_loop(self, st, body, label):
        """The runs of a loop with few iterations only, without forgetting anything: what is refuted on them is refuted."""
        gk = ('ghost', label)
        st = st.fork()
        st.mem[gk] = 0
        todo, outs = [st], []
        for it in range(self.unroll + 1):
            nxt = []
            for s in todo:
                backs, o = body(s)
                outs += o
                for b in backs: b.mem[gk] = b.mem[gk] + 1
                nxt += backs
            todo = nxt
            if not todo: break
        self.loops_cut.append(dict(loop=label, invariants=[], candidates=0, backs=len(todo), variant=None, iterator=True))
        return outs
    def path_get(self, st, p):
        v = st.mem.get(p[0])
        return v
    def diff(self, a, b, path, out):
        if same(a, b): return
        if isinstance(a, Adt) and isinstance(b, Adt) and a.kind == b.kind and a.name == b.name and len(a.f) == len(b.f) and len(a.f) > 0:
            for i, (x, y) in enumerate(zip(a.f, b.f)): self.diff(x, y, path + (i,), out)
            return
        if isinstance(a, Enum) and isinstance(b, Enum) and a.kind == b.kind and same(a.d, b.d) and set(a.pay) == set(b.pay):
            for k in a.pay:
                for i, (x, y) in enumerate(zip(a.pay[k], b.pay[k])): self.diff(x, y, path + (('v', k, i),), out)
            return
        if path in out:
            pa, pb = out[path]
            out[path] = (pa, pb if not (isinstance(pb, Seq) and pb.n == 0) else b)
        else: out[path] = (a, b)
    def closed_forms(self, st, M, body2, gk):
        """Values of the counters and sequences of a loop as functions of the number of iterations made: {path: count -> value}.
        Guessed from one iteration, and proved inductive: true on entry by construction, kept by every iteration for an
        arbitrary position."""
        if not any(isinstance(a, Seq) for a, _ in M.values()): return {}
        np = len(self.panics)
        def trial(closed):
            h = self.havoc(st, M, closed, gk)
            backs, _ = body2(h.fork())
            del self.panics[np:]
            return h, backs
        try:
            closed = {}
            n1 = fl._fresh[0]
            h, backs = trial(closed)
            for p, (a, _) in M.items():
                if p == (gk,) or not isint(a): continue
                ds = {simpi(self.load(b, p[0], p[1:]) - self.load(h, p[0], p[1:])) for b in backs}
                if len(ds) == 1 and isinstance(list(ds)[0], int): closed[p] = lambda c, a=a, d=list(ds)[0]: simpi(a + d * c)
            ints = dict(closed)
            if len(backs) != 1: return {}
            hyp = dict(closed)
            for p, (a, b) in M.items():
                # overwritten up to here with anything
                if isinstance(a, Seq) and simp(zb(self.load(backs[0], p[0], p[1:]).n == self.load(h, p[0], p[1:]).n)) is True:
                    fs = self.fresh_like(a, b, [], 'w')
                    hyp[p] = lambda c, a=a, fs=fs: overwritten(self.FT, a, fs.at, c)
            h, backs = trial(hyp)
            if len(backs) != 1: return {}
            cnt = h.mem[gk]
            for p, (a, _) in M.items():
                if not isinstance(a, Seq): continue
                hs, bs = self.load(h, p[0], p[1:]), self.load(backs[0], p[0], p[1:])
                k = simpi(bs.n - hs.n)
                if not isinstance(k, int) or k < 0: continue
                es = [bs.at(simpi(hs.n + r)) for r in range(k)] if k else [bs.at(cnt)]
                names = set()
                for e in es: names |= {str(x.decl().name()) for y in scalars(e) for x in consts_of(y)}
                if any(late(nm, n1) for nm in names if nm != str(cnt)): continue
                closed[p] = (lambda c, a=a, k=k, es=es, cnt=cnt: comprehension(self.FT, a, k, es, cnt, c)) if k else \
                    (lambda c, a=a, es=es, cnt=cnt: overwritten(self.FT, a, lambda j: subst(es[0], [(cnt, z3.IntVal(j) if isinstance(j, int) else j)]), c))
            if len(closed) == len(ints): return {}
            h, backs = trial(closed)
            for b in backs:
                c1 = b.mem[gk]
                for p, f in closed.items():
                    x, y = self.load(b, p[0], p[1:]), f(c1)
                    if isinstance(y, Seq):
                        j = z3.Int(fresh_name('j'))
                        g = b_and(zb(simp(zb(x.n == y.n))), *[zb(simp(zb(raw(u)[0] == raw(v)[0] if isinstance(raw(u), tuple) and raw(u)[1] == raw(v)[1] else raw(u) == raw(v)))) for u, v in
                                                           zip(scalars(x.at(j)), scalars(y.at(j)))])
                        if self.proves(b.pc + [h.mem[gk] >= 0, j >= 0, zb(j < y.n)], g, 8000)[0] != 'proved': return {}
                    elif simp(zb(x == y)) is not True: return {}
            return closed
        except (Unsupported, z3.Z3Exception, KeyError, AttributeError, IndexError, TypeError): return {}
        finally: del self.panics[np:]
    def havoc(self, st, M, closed={}, gk=None):
        h = st.fork()
        c = None
        if closed:
            c = h.mem[gk] = z3.Int(fresh_name('hi'))
            h.pc.append(c >= 0)
        for p, (a, b) in M.items():
            if closed and p == (gk,): continue
            if p in closed:
                self.store(h, p[0], p[1:], closed[p](c))
                continue
            cons = []
            v = self.fresh_like(a, b, cons, '.'.join(str(x) for x in p[0]) )
            try: self.store(h, p[0], p[1:], v)
            except Unsupported: h.mem[p[0]] = POISON
            h.pc += cons
        return h
    def fresh_like(self, a, b, cons, name):
        if a is POISON or b is POISON: return POISON
        if isbool(a) and isbool(b): return z3.Bool(fresh_name('hb'))
        if isint(a) and isint(b): return z3.Int(fresh_name('hi'))
        if isinstance(a, Fl) and isinstance(b, Fl):
            if isinstance(a.v, tuple):
                u = b.v[1] if self.FT._zero(a.v[0]) else a.v[1]
                return self.FT.fresh(a.ty, 'hf', u)
            return self.FT.fresh(a.ty, 'hf')
        if isinstance(a, Adt) and isinstance(b, Adt) and a.kind == b.kind and a.name == b.name and len(a.f) == len(b.f) and a.f:
            return Adt(a.kind, [self.fresh_like(x, y, cons, name) for x, y in zip(a.f, b.f)], a.name)
        if isinstance(a, Enum) and isinstance(b, Enum) and a.kind == b.kind and VARIANTS.get(a.kind):
            d = z3.Int(fresh_name('hd'))
            lo = -1 if a.kind == 'Ordering' else 0
            cons.append(z3.And(d >= lo, d < len(VARIANTS[a.kind]) + lo))
            pay = {}
            for k in set(a.pay) | set(b.pay):
                x, y = a.pay.get(k, b.pay.get(k)), b.pay.get(k, a.pay.get(k))
                pay[k] = tuple(self.fresh_like(p, q, cons, name) for p, q in zip(x, y))
            return Enum(a.kind, d, pay)
        if isinstance(a, Seq) and isinstance(b, Seq):
            src = b if isinstance(a.n, int) and a.n == 0 else a
            t = src.at(0) if isinstance(src.n, int) and src.n > 0 else src.at(z3.Int(fresh_name('ti')))
            s, cs = fresh_seq(self.FT, t, 'hs', None)
            cons += cs
            return s
        if isinstance(a, SetV) and isinstance(b, SetV):
            t = a.tmpl or b.tmpl
            if t is None: raise Unsupported("set of unknown shape")
            f = z3.Function(fresh_name('hset'), *([z3.IntSort()] * len(leaves(t)) + [z3.BoolSort()]))
            return SetV(lambda k, f=f: f(*k), t)
        if isinstance(a, NdArr) and isinstance(b, NdArr):
            shape = [x if same(x, y) else z3.Int(fresh_name('hsh')) for x, y in zip(a.shape, b.shape)]
            idx = [z3.Int(fresh_name('ti')) for _ in shape]
            t = a.at(tuple(idx))
            if isinstance(t, Fl):
                f = z3.Function(fresh_name('hnd'), *([z3.IntSort()] * len(shape) + [t.v.sort()]))
                return NdArr(shape, lambda ix, f=f, t=t: Fl(t.ty, f(*ix)))
            if isinstance(t, Opaque):
                f = z3.Function(fresh_name('hnd'), *([z3.IntSort()] * len(shape) + [t.term.sort()]))
                return NdArr(shape, lambda ix, f=f, t=t: Opaque(t.kind, f(*ix)))
        if isinstance(a, Opaque) and isinstance(b, Opaque) and a.kind == b.kind and isz(a.term):
            return Opaque(a.kind, z3.Const(fresh_name('ho'), a.term.sort()))
        return POISON

def refs_in(v):
    """The memory keys that a value refers to."""
    if isinstance(v, Ref): yield v.key
    elif isinstance(v, Adt):
        for x in v.f: yield from refs_in(x)
    elif isinstance(v, Enum):
        for p in v.pay.values():
            for x in p: yield from refs_in(x)
    elif isinstance(v, Seq):
        for i in range(v.n) if isinstance(v.n, int) else [z3.Int('ri')]: yield from refs_in(v.at(i))
def scalars(v):
    if isinstance(v, Adt): return [y for x in v.f for y in scalars(x)]
    if isinstance(v, Enum): return [v.d] + [y for k in sorted(v.pay) for x in v.pay[k] for y in scalars(x)]
    if isinstance(v, Opaque) and isz(v.term): return [v.term]
    return leaves(v)
def raw(l): return l.v if isinstance(l, Fl) else l
def consts_of(l):
    """The constants and functions a scalar mentions."""
    l = raw(l)
    todo, seen = [x for x in (l if isinstance(l, tuple) else (l,)) if isz(x)], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: yield x
        todo += x.children()
def late(name, n0):
    """Was the name made by fresh_name after the n0-th?"""
    m = re.search(r'!(\d+)$', name)
    return m is not None and int(m.group(1)) > n0
def comprehension(FT, a, k, es, cnt, c):
    """a followed by k elements for each of c iterations."""
    def el(r, q): return subst(es[r], [(cnt, z3.IntVal(q) if isinstance(q, int) else q)])
    def at(j):
        if isinstance(a.n, int) and a.n == 0: i = j
        else:
            b = simp(zb(j < a.n))
            if b is True: return a.at(j)
            i = simpi(j - a.n)
        if k == 1: v = el(0, i)
        elif isinstance(i, int): v = el(i % k, i // k)
        else:
            v = el(k - 1, i / k)
            for r in range(k - 2, -1, -1): v = ite(FT, i % k == r, el(r, i / k), v)
        if isinstance(a.n, int) and a.n == 0: return v
        return v if b is False else ite(FT, b, a.at(j), v)
    tag = ('grp', k, c, lambda q: [el(r, q) for r in range(k)]) if isinstance(a.n, int) and a.n == 0 else None
    return Seq(simpi(a.n + k * c), at, tag)
def overwritten(FT, a, f, c):
    """a with the first c elements overwritten."""
    def at(j):
        b = simp(zb(b_and(zb(simp(zb(j >= 0))), zb(simp(zb(j < c))))))
        return f(j) if b is True else a.at(j) if b is False else ite(FT, b, f(j), a.at(j))
    return Seq(a.n, at)
def tdiv(a, b):
    """Truncated division."""
    if isinstance(a, int) and isinstance(b, int):
        q = abs(a) // abs(b)
        return q if (a < 0) == (b < 0) else -q
    a_, b_ = (z3.IntVal(x) if isinstance(x, int) else x for x in (a, b))
    absb = z3.If(b_ >= 0, b_, -b_) if not isinstance(b, int) else abs(b)
    q = z3.If(a_ >= 0, a_ / absb, -((-a_) / absb))
    if isinstance(b, int): return simpi(q if b > 0 else -q)
    return z3.If(b_ >= 0, q, -q)
def trem(a, b):
    if isinstance(a, int) and isinstance(b, int):
        r = abs(a) % abs(b)
        return r if a >= 0 else -r
    a_, b_ = (z3.IntVal(x) if isinstance(x, int) else x for x in (a, b))
    absb = abs(b) if isinstance(b, int) else z3.If(b_ >= 0, b_, -b_)
    return z3.If(a_ >= 0, a_ % absb, -((-a_) % absb))
def choice(v):
    """The known numbers in a result."""
    if isinstance(v, int) and not isinstance(v, bool): return [v]
    if isinstance(v, Enum) and v.kind == 'Option': return ['?'] if not isinstance(v.d, int) else ['none'] if not v.d else choice(v.pay['Some'][0])
    if isinstance(v, Adt) and v.kind == 'tuple': return [y for x in v.f for y in choice(x)]
    return ['?']
def fdiv(a, b): return simpi(a / b) if isz(a) else a // b

def wrap(a, ty):
    if ty not in RANGES: raise Unsupported("integer type " + ty)
    lo, hi = RANGES[ty]
    m = hi - lo + 1
    if isinstance(a, int): return (a - lo) % m + lo
    if lo == 0: return z3.If(z3.And(a >= lo, a <= hi), a, z3.If(z3.And(a < 0, a >= -m), a + m, a % m))
    return z3.If(z3.And(a >= lo, a <= hi), a, z3.If(z3.And(a > hi, a <= hi + m), a - m, (a - lo) % m + lo))

class Leaf:
    def __init__(self, ex, path, entry, back): self.ex, self.path, self.entry, self.back = ex, path, entry, back
    def get(self, st): return self.ex.load(st, self.path[0], self.path[1:])
    @property
    def name(self): return '/'.join(str(x) for x in self.path)

class LoopCtx:
    def __init__(self, ex, label, entry, head, M):
        self.ex, self.label, self.entry, self.head = ex, label, entry, head
        self.leaves = [Leaf(ex, p, a, b) for p, (a, b) in M.items()]
        self.M = M
    def count(self, st): return st.mem[('ghost', self.label)]
    def iters(self):
        """Iterator values in memory with a modified position: (getter, seq-like end)"""
        out = []
        for k, v in self.entry.mem.items():
            find_iters(v, (k,), out)
        return [(p, v) for p, v in out if any(l.path[:len(p)] == p for l in self.leaves)]

def find_iters(v, path, out):
    if isinstance(v, Adt):
        if v.kind in ('It_ref', 'It_val', 'Range', 'It_set'): out.append((path, v))
        for i, x in enumerate(v.f): find_iters(x, path + (i,), out)

def generic_cands(ctx):
    out = []
    ex = ctx.ex
    cnt = ctx.count
    out.append(('count>=0', lambda s: zb(simp(cnt(s) >= 0))))
    for l in ctx.leaves:
        if l.path[0] == ('ghost', ctx.label): continue
        v0 = l.entry
        n = l.name
        if isint(v0):
            out.append((n + '>=0', lambda s, l=l: zb(simp(l.get(s) >= 0))))
            out.append((n + '>=entry', lambda s, l=l: zb(simp(l.get(s) >= l.entry))))
            out.append((n + '<=entry', lambda s, l=l: zb(simp(l.get(s) <= l.entry))))
            out.append((n + '=entry+count', lambda s, l=l: zb(simp(l.get(s) == l.entry + cnt(s)))))
            out.append((n + ' in i64', lambda s, l=l: zb(simp(b_and(l.get(s) >= ISIZE[0], l.get(s) <= ISIZE[1])))))
        if isinstance(v0, Fl) and ex.FT.name == 'FP':
            out.append((n + ' not nan', lambda s, l=l: zb(simp(b_not(ex.FT.is_nan(l.get(s)))))))
        if isinstance(v0, Seq):
            out.append((n + '.len=entry+count', lambda s, l=l: zb(simp(l.get(s).n == l.entry.n + cnt(s)))))
            out.append((n + '.len=entry', lambda s, l=l: zb(simp(l.get(s).n == l.entry.n))))
    for p, v in ctx.iters():
        def get(s, p=p): return ex.load(s, p[0], p[1:])
        if v.kind == 'Range':
            if isint(v.f[0]):
                out.append(('range start<=end', lambda s, g=get: zb(simp(b_or(g(s).f[0] <= g(s).f[1], g(s).f[0] == v.f[0])))))
        else:
            out.append(('pos<=end', lambda s, g=get: zb(simp(g(s).f[1] <= g(s).f[2]))))
    return out
