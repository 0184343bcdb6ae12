"""Contracts of the KITTI readers (C19, C20, C21). The file system, byte streams, number parsing and printing are the outside
world: IoExt gives them the meaning of their documentation over uninterpreted functions."""
from p_model import *

ERR, STR, PATH, POSE, CLOUD, TRANS, ENT = [z3.DeclareSort(n) for n in ('IoErr', 'Str', 'Path', 'Pose', 'Cloud', 'Trans', 'DirEnt')]
I, Bo = z3.IntSort(), z3.BoolSort()
F_ = lambda n, *s: z3.Function('io_' + n, *s)
kind = F_('kind', ERR, I)
# paths and directories
open_ok, open_err = F_('open_ok', PATH, Bo), F_('open_err', PATH, ERR)
rd_ok, rd_err = F_('read_ok', PATH, Bo), F_('read_err', PATH, ERR)
f_len, f_byte, f_text = F_('file_len', PATH, I), F_('file_byte', PATH, I, I), F_('file_text', PATH, STR)
dir_ok, dir_err, dir_n = F_('dir_ok', PATH, Bo), F_('dir_err', PATH, ERR), F_('dir_len', PATH, I)
ent_ok, ent_err, ent = F_('entry_ok', PATH, I, Bo), F_('entry_err', PATH, I, ERR), F_('entry', PATH, I, ENT)
ent_path = F_('entry_path', ENT, PATH)
path_le, named = F_('path_le', PATH, PATH, Bo), F_('has_file_name', PATH, Bo)
lossy_le = F_('lossy_le', PATH, PATH, Bo)      # order of the names with bytes that are not UTF-8 replaced
# text
n_fields, field = F_('fields', STR, STR, I), F_('field', STR, STR, I, STR)
rest, n_words, word = F_('rest', STR, STR, I, STR), F_('words', STR, I), F_('word', STR, I, STR)
EMPTY = z3.Const('io_empty', STR)
KIND = {n: i for i, n in enumerate(VARIANTS['ErrorKind'])}
def E_(t): return Opaque('IoErr', t)
def lit(s): return z3.Const('lit_' + repr(s), STR)

class IoExt:
    def __init__(self):
        self.sorts, self.idx = [], []      # sorted sequences; indices of interest
        self.le = None
        self.perm = (z3.Function(fresh_name('perm'), I, I), z3.Function(fresh_name('place'), I, I))   # of the first sort
    # an input: does reading it succeed, its bytes, its text, its error
    def input_of(self, st, r):
        while isinstance(r, Ref): r0, r = r, self.u.ex.deref(st, r)
        if not (isinstance(r, Adt) and r.kind == 'Input'): raise Unsupported("reading from %r" % (r,))
        return r0, r
    def val(self, st, v):
        while isinstance(v, Ref): v = self.u.ex.deref(st, v)
        return v
    def file(self, p):
        n = f_len(p)
        return Adt('Input', (rd_ok(p), Seq(n, lambda i: f_byte(p, z3.IntVal(i) if isinstance(i, int) else i)), Opaque('Str', f_text(p)), E_(rd_err(p))))
    def into_iter(self, ex, st, v):
        v = self.val(st, v)
        if v.kind == 'ReadDir':
            d = v.term
            st.pc.append(dir_n(d) >= 0)
            return Adt('It_val', (Seq(dir_n(d), lambda i: self.entry(d, z3.IntVal(i) if isinstance(i, int) else i)), 0, dir_n(d)))
        raise Unsupported("iteration over %r" % (v,))
    def entry(self, d, i): return Enum('Result', z3.If(ent_ok(d, i), 0, 1), {'Ok': (Opaque('DirEntry', ent(d, i)),), 'Err': (E_(ent_err(d, i)),)})
    def it_next(self, ex, st, it): raise Unsupported("external iterator")
    def read_bytes(self, ex, st, bs, n):
        """Are the bytes in range? (a fact about every byte)"""
        return [zb(b_and(bs.at(i) >= 0, bs.at(i) <= 255)) for i in n]
    def pattern(self, st, p):
        p = self.val(st, p)
        if isinstance(p, Adt) and p.kind in ('strlit', 'char') and p.name is not None: return lit(p.name)
        raise Unsupported("pattern %r" % (p,))
    def dispatch(self, ex, c, args, st):
        u, m, h = self.u, c.method, c.head
        a = [self.val(st, x) for x in args]
        a0 = a[0] if a else None
        if m in ('read_to_end', 'read_to_string') and isinstance(a0, Adt) and a0.kind == 'Input':
            r0, inp = self.input_of(st, args[0])
            buf = a[1]
            out = []
            for s, t in ex.branch(st, inp.f[0]):
                if m == 'read_to_end':
                    if not isinstance(buf, Seq): raise Unsupported("buffer")
                    new = seq_concat(ex.FT, buf, inp.f[1])
                    n = inp.f[1].n
                    bad, cs = fresh_seq(ex.FT, z3.Int('t'), 'partial')
                else:
                    if not (isinstance(buf, Opaque) and buf.term.eq(EMPTY)): raise Unsupported("reading into a string that is not empty")
                    new, n = inp.f[2], u.ex_len
                    bad, cs = Opaque('Str', z3.Const(fresh_name('partial'), STR)), []
                if not t: s.pc += cs
                ex.store_ref(s, args[1], new if t else bad)
                ex.store_ref(s, r0, Adt('Input', (True, empty_seq_(), Opaque('Str', EMPTY), inp.f[3])))
                out.append((s, ok(n) if t else err(inp.f[3])))
            return out
        if m == 'new' and h == 'Error':
            e = z3.Const(fresh_name('err'), ERR)
            k = a[0]
            d = k.d if isinstance(k, Enum) else k
            st.pc.append(kind(e) == d)
            return [(st, E_(e))]
        if m == 'from' and isinstance(a0, Enum) and a0.kind == 'ErrorKind':
            e = z3.Const(fresh_name('err'), ERR)
            st.pc.append(kind(e) == a0.d)
            return [(st, E_(e))]
        if m == 'kind' and isinstance(a0, Opaque) and a0.kind == 'IoErr':
            k = kind(a0.term)
            st.pc.append(z3.And(k >= 0, k < len(KIND)))
            return [(st, Enum('ErrorKind', k, {}))]
        if m in ('eq', 'ne') and isinstance(a0, Enum) and a0.kind == 'ErrorKind' and isinstance(a[1], Enum):
            e = simp(zb(a0.d == a[1].d)) if not (isinstance(a0.d, int) and isinstance(a[1].d, int)) else a0.d == a[1].d
            return [(st, e if m == 'eq' else b_not(e))]
        if m == 'take' and isinstance(a0, Adt) and a0.kind == 'Input':
            # of a failing input nothing is known about what comes before the limit
            k, inp = a[1], a0
            if isinstance(k, int):         # a symbol: a number would be counted out step by step
                k = z3.Int(fresh_name('limit')); st.pc.append(k == a[1])
            out = []
            for s, t in ex.branch(st, inp.f[0]):
                tx = Opaque('Str', z3.Const(fresh_name('taken'), STR))
                if t:
                    for s2, u_ in ex.branch(s, simp(zb(inp.f[1].n <= k))):
                        out.append((s2, inp if u_ else Adt('Input', (True, Seq(k, inp.f[1].at), tx, inp.f[3]))))
                else:
                    bad, cs = fresh_seq(ex.FT, z3.Int('t'), 'taken'); s.pc += cs
                    out.append((s, Adt('Input', (z3.Bool(fresh_name('ok')), bad, tx, inp.f[3]))))
            return out
        if m == 'open' and h == 'File' and isinstance(a0, Opaque) and a0.kind == 'Path':
            p = a0.term
            st.pc.append(f_len(p) >= 0)
            return [(st, Enum('Result', z3.If(open_ok(p), 0, 1), {'Ok': (self.file(p),), 'Err': (E_(open_err(p)),)}))]
        if m in ('new', 'with_capacity') and h == 'BufReader': return [(st, args[-1])]      # reads the same bytes
        if m == 'read_dir' and isinstance(a0, Opaque) and a0.kind == 'Path':
            p = a0.term
            return [(st, Enum('Result', z3.If(dir_ok(p), 0, 1), {'Ok': (self.into_iter(ex, st, Opaque('ReadDir', p)),), 'Err': (E_(dir_err(p)),)}))]
        if m == 'path' and isinstance(a0, Opaque) and a0.kind == 'DirEntry': return [(st, Opaque('Path', ent_path(a0.term)))]
        if m == 'new' and h in ('Path', 'PathBuf') and isinstance(a0, Opaque) and a0.kind == 'Path': return [(st, args[0])]
        if m in ('to_path_buf', 'into_boxed_path', 'into_path_buf') and isinstance(a0, Opaque) and a0.kind == 'Path': return [(st, a0)]
        if m == 'new' and h == 'String' and not args: return [(st, Opaque('Str', EMPTY))]
        if m == 'with_capacity' and h == 'String': return [(st, Opaque('Str', EMPTY))]
        if isinstance(a0, Opaque) and a0.kind == 'Str':
            t = a0.term
            if m in ('as_str', 'deref', 'as_ref', 'borrow', 'clone', 'to_string', 'to_owned'): return [(st, a0)]
            if m in ('split', 'splitn') :
                if m == 'splitn':
                    k, p = a[1], self.pattern(st, args[2])
                    if not isinstance(k, int) or k < 1: raise Unsupported("splitn")
                    N = n_fields(t, p)
                    def at(i, t=t, p=p, k=k): 
                        i = z3.IntVal(i) if isinstance(i, int) else i
                        return Opaque('Str', z3.If(z3.Or(i < k - 1, n_fields(t, p) <= k), field(t, p, i), rest(t, p, i)))
                    n = z3.If(N < k, N, z3.IntVal(k))
                else:
                    p = self.pattern(st, args[1])
                    N = n = n_fields(t, p)
                    def at(i, t=t, p=p): return Opaque('Str', field(t, p, z3.IntVal(i) if isinstance(i, int) else i))
                st.pc.append(z3.And(N >= 1, N < 2 ** 60))
                return [(st, Adt('It_val', (Seq(n, at), 0, n)))]
            if m in ('split_whitespace', 'split_ascii_whitespace'):
                n = n_words(t)
                st.pc.append(z3.And(n >= 0, n < 2 ** 60))
                return [(st, Adt('It_val', (Seq(n, lambda i, t=t: Opaque('Str', word(t, z3.IntVal(i) if isinstance(i, int) else i))), 0, n)))]
            if m == 'parse' or m == 'from_str':
                ty = c.generics.strip() if m == 'parse' else c.headty.strip()
                ty = ex.tysubst.get(ty, ty)
                if ty not in ('f32', 'f64'): raise Unsupported("parsing " + ty)
                return [(st, Enum('Result', z3.If(self.p_ok(ty)(t), 0, 1), {'Ok': (Fl(ty, self.p_val(ty)(t)),), 'Err': (Opaque('ParseErr', t),)}))]
        if isinstance(a0, Opaque) and a0.kind == 'Path' and m == 'file_name':
            return [(st, Enum('Option', z3.If(named(a0.term), 1, 0), {'Some': (Opaque('OsStr', a0.term),)}))]
        if m in ('to_string_lossy', 'to_str', 'display', 'into_owned', 'to_os_string', 'into_string', 'to_string', 'to_owned', 'into_os_string', 'as_os_str') and isinstance(a0, Opaque) and a0.kind in ('OsStr', 'Path', 'Cow'):
            if m in ('to_str', 'into_string'): raise Unsupported(m)
            if m in ('to_os_string', 'to_owned', 'into_os_string', 'as_os_str') and a0.kind != 'Cow': return [(st, Opaque('OsStr', a0.term))]
            return [(st, Opaque('Cow', a0.term))]
        if m in ('new_display', 'new_debug') or (h == 'Arguments' and m in ('new', 'new_v1', 'new_const', 'from_str')): return [(st, Adt('fmt', ()))]
        if m in ('_print', '_eprint'): return [(st, UNIT)]
        if m in ('cmp', 'partial_cmp') and isinstance(a0, Opaque) and a0.kind in ('Path', 'OsStr', 'Cow') and isinstance(a[1], Opaque) and a[1].kind == a0.kind:
            x, y = a0.term, a[1].term
            st.pc.append(z3.Implies(x == y, self.le_of(a0, a[1])))
            d = Enum('Ordering', z3.If(x == y, 0, z3.If(self.le_of(a0, a[1]), -1, 1)), {})
            return [(st, d if m == 'cmp' else some(d))]
        if m in ('sort', 'sort_unstable', 'sort_by', 'sort_unstable_by', 'sort_by_key', 'sort_unstable_by_key', 'sort_by_cached_key') and isinstance(a0, Seq):
            rc = ex.alloc(st, args[1], 'clo') if len(args) > 1 else None
            s0 = a0
            pi, inv = self.perm if not self.sorts else (z3.Function(fresh_name('perm'), I, I), z3.Function(fresh_name('place'), I, I))
            n = s0.n
            new = Seq(n, lambda i: s0.at(pi(z3.IntVal(i) if isinstance(i, int) else i)))
            for i in self.idx:
                st.pc.append(z3.Implies(z3.And(i >= 0, i < n), z3.And(pi(i) >= 0, pi(i) < n, inv(pi(i)) == i, inv(i) >= 0, inv(i) < n, pi(inv(i)) == i)))
            for i in self.idx:
                for j in self.idx:
                    if i is j: continue
                    x, y = new.at(i), new.at(j)
                    if not (isinstance(x, Opaque) and x.kind == 'Path'): raise Unsupported("sorting %r" % (x,))
                    if rc is None: le = path_le(x.term, y.term)
                    elif m.endswith('_key'):
                        ks, n0 = [], len(st.pc)
                        for v in (x, y):
                            f = st.fork()
                            o = ex.call_closure(f, rc, [ex.alloc(f, v)])
                            if len(o) != 1 or len(o[0][0].pc) != n0: raise Unsupported("key of a path")
                            ks.append(o[0][1])
                        le = self.le_of(*[self.val(st, v) for v in ks])
                    else:
                        f = st.fork()
                        o = ex.call_closure(f, rc, [ex.alloc(f, x), ex.alloc(f, y)])
                        if len(o) != 1: raise Unsupported("comparison of paths")
                        st.pc += o[0][0].pc[len(st.pc):]
                        le = o[0][1].d <= 0
                    st.pc.append(z3.Implies(z3.And(i >= 0, i < j, j < n), le))
            self.sorts.append((new, pi, inv))
            ex.store_ref(st, args[0], new)
            return [(st, UNIT)]
        if m == 'read_f32_into' or m == 'read_f64_into':
            src, dst = a[0], a[1]
            if m == 'read_f64_into' or not isinstance(src, Seq) or not isinstance(dst, Seq): raise Unsupported(m)
            end = c.generics.strip().split('::')[-1]
            if end not in ('LittleEndian', 'BigEndian'): raise Unsupported("byte order " + end)
            need = simpi(dst.n * 4)
            out = []
            for s, t in ex.branch(st, simp(src.n >= need)):
                if not t:
                    e = z3.Const(fresh_name('err'), ERR)
                    s.pc.append(kind(e) == KIND['UnexpectedEof'])
                    bad, cs = fresh_seq(ex.FT, Fl('f32', ex.FT.fresh('f32').v), 'partial')
                    s.pc += cs + [bad.n == dst.n]
                    ex.store_ref(s, args[1], bad)
                    out.append((s, err(E_(e))))
                    continue
                new = Seq(dst.n, lambda i, src=src: self.f32_at(src, i, end))
                ex.store_ref(s, args[1], new)
                r = args[0]
                while isinstance(ex.deref(s, r), Ref): last, r = r, ex.deref(s, r)
                out.append((s, ok(UNIT)))
            return out
        if m in ('from_le_bytes', 'from_ne_bytes', 'from_be_bytes') and (h or '').startswith('f32') or m in ('from_le_bytes', 'from_ne_bytes', 'from_be_bytes') and 'f32' in c.s:
            b = a0
            xs = list(b.f) if isinstance(b, Adt) else [b.at(i) for i in range(4)] if isinstance(b, Seq) else None
            if xs is None or len(xs) != 4: raise Unsupported(m)
            return [(st, self.f32_of(xs if m != 'from_be_bytes' else xs[::-1]))]
        if m in ('read_f32',) and isinstance(a0, Seq): raise Unsupported(m)
        if m == 'from_euler_angles' and len(a) == 3: return [(st, Adt('UnitQuaternion', tuple(a)))]
        if m == 'from_parts' and h == 'Isometry': return [(st, Adt('Isometry', tuple(a)))]
        return None
    def le_of(self, x, y):
        """x <= y, for keys of the entries of one directory: their paths compare as their names do."""
        if isinstance(x, Opaque) and isinstance(y, Opaque) and x.kind == y.kind:
            if x.kind in ('Path', 'OsStr'): return path_le(x.term, y.term)
            if x.kind == 'Cow': return lossy_le(x.term, y.term)
        if isinstance(x, Enum) and isinstance(y, Enum) and x.kind == y.kind == 'Option':
            a, b = x.pay.get('Some'), y.pay.get('Some')
            if a and b: return z3.If(z3.And(x.d == 1, y.d == 1), self.le_of(a[0], b[0]), x.d <= y.d)
        raise Unsupported("order of %r" % (x,))
    def f32_of(self, xs):
        """The float with these four bytes, least significant first."""
        f = self.u.FT._uf('f32_le', [z3.IntSort()] * 4, self.u.FT.sort('f32'))
        return Fl('f32', f(*[z3.IntVal(x) if isinstance(x, int) else x for x in xs]))
    def f32_at(self, src, i, end):
        xs = [src.at(simpi(i * 4 + b)) for b in range(4)]
        return self.f32_of(xs if end == 'LittleEndian' else xs[::-1])
    def p_ok(self, ty): return F_('parses_' + ty, STR, Bo)
    def p_val(self, ty): return F_('parsed_' + ty, STR, z3.RealSort())

def empty_seq_():
    def at(i): raise Unsupported("element of an empty sequence")
    return Seq(0, at)

def setup(u):
    u.ex.ext.u = u
    u.ex_len = z3.Int(fresh_name('len'))
    u.st.pc.append(z3.And(u.ex_len >= 0, u.ex_len < 2 ** 60))
    u.ex.assumptions.add('the file system, streams, float parsing, byte order conversion and printing behave as documented; entries of a directory have a file name; the clock and other processes do not interfere')

def is_err(r): return zb(r.d == 1)
def is_ok(r): return zb(r.d == 0)
def the_err(u, r):
    if 'Err' not in r.pay: return z3.Const('io_noerr', ERR)
    return r.pay['Err'][0].term

def any_input(u, label):
    okb = u.bool(label + ' readable')
    bs, cs = fresh_seq(u.FT, z3.Int('t'), label)
    u.st.pc += cs + [bs.n < 2 ** 60]
    u.inputs.append((label, 'seq', bs))
    text, e = z3.Const(fresh_name('text'), STR), z3.Const(fresh_name('readerr'), ERR)
    return Adt('Input', (okb, bs, Opaque('Str', text), E_(e))), okb, bs, text, e

# ---- C19 -------------------------------------------------------------------------------------------
def c19(u):
    setup(u)
    ext = u.ex.ext
    inp, readable, bs, _, e = any_input(u, 'bytes')
    k = u.int('k', 0)
    u.reachable()
    ri = u.ref(inp)
    u.ex.cands.append(lambda ctx: c19_cands(u, ctx, bs, k))
    outs = u.call('point_cloud_reader::read', [ri])
    if not outs: raise Unsupported("read never returns")
    whole = bs.n % 16 == 0
    for j, (s, r) in enumerate(outs):
        sfx = '' if len(outs) == 1 else ' [path %d]' % j
        u.reachable(s, 'results')
        u.ensure('a scan of whole points gives a cloud, anything else an error' + sfx, s, is_ok(r) == z3.And(readable, whole))
        u.ensure("a failing input's error is returned" + sfx, s, z3.Implies(z3.Not(readable), z3.And(is_err(r), the_err(u, r) == e)))
        u.ensure('any other length is rejected as invalid data' + sfx, s, z3.Implies(z3.And(readable, z3.Not(whole)), z3.And(is_err(r), kind(the_err(u, r)) == KIND['InvalidData'])))
        if 'Ok' in r.pay:
            pts = u.fld(r.pay['Ok'][0], 'data').f[1]
            good = z3.And(is_ok(r), readable, whole)
            u.ensure('as many points as the file holds' + sfx, s, z3.Implies(good, zb(pts.n == bs.n / 16)))
            p = pts.at(k).f
            for ax in range(3):
                u.ensure('point k holds the bytes of its record, coordinate %d' % ax + sfx, s, z3.Implies(z3.And(good, k < bs.n / 16),
                         u.same(p[ax], ext.f32_of([bs.at(simpi(16 * k + 4 * ax + b)) for b in range(4)]))))
    u.terminates()
    u.no_panic()

def c19_cands(u, ctx, bs, k):
    """For readers written as loops: the points, or their coordinates, so far."""
    out = []
    ext = u.ex.ext
    for l in ctx.leaves:
        if not isinstance(l.entry, Seq): continue
        for kn, i0, off in (('a point per step', 1, 0),):
            def f(s, l=l):
                sq = l.get(s)
                if isinstance(sq.n, int) and sq.n == 0: return True
                x = [y for y in leaves(sq.at(k))]
                if len(x) != 3: raise Unsupported('shape')
                return z3.Implies(z3.And(k >= 0, k < sq.n), b_and(*[u.same(x[ax], ext.f32_of([bs.at(simpi(16 * k + 4 * ax + b)) for b in range(4)])) for ax in range(3)]))
            out.append((l.name + ': ' + kn, f))
        for per, keep in ((4, (0, 1, 2)), (3, (0, 1, 2)), (1, (0,))):
            pass
        # coordinates in a flat list: all floats, or without each fourth
        def count_kept(n): return 3 * (n / 4) + z3.If(n % 4 < 3, n % 4, 3)
        out.append((l.name + ': three kept of four', lambda s, l=l: zb(l.get(s).n == l.entry.n + count_kept(ctx.count(s)))))
        for ax in range(3):
            def g(s, l=l, ax=ax):
                sq = l.get(s)
                if isinstance(sq.n, int) and sq.n == 0: return True
                x = leaves(sq.at(3 * k + ax))
                if len(x) != 1: raise Unsupported('shape')
                return z3.Implies(z3.And(k >= 0, 3 * k + ax < sq.n), u.same(x[0], ext.f32_of([bs.at(simpi(16 * k + 4 * ax + b)) for b in range(4)])))
            out.append((l.name + ': coordinate %d of each point' % ax, g))
    return out

def c_from_file(mod, pose):
    """read_from_file: the reader applied to the file, or the error of opening it."""
    def run(u):
        setup(u)
        ext = u.ex.ext
        p = z3.Const(fresh_name('path'), PATH)
        recs = []
        RES = POSE if pose else CLOUD
        def k_read(ex, st, args):
            r0, inp = ext.input_of(st, args[0])
            okb, v, e = z3.Bool(fresh_name('ok')), z3.Const(fresh_name('v'), RES), z3.Const(fresh_name('e'), ERR)
            st.mem[('ghost', 'read')] = len(recs)
            recs.append(dict(inp=inp, origin=args[1] if len(args) > 1 else None, ok=okb, v=v, e=e))
            return [(st, Enum('Result', z3.If(okb, 0, 1), {'Ok': (Opaque('Res', v),), 'Err': (E_(e),)}))]
        if mod + '::read' not in u.prog.by_short: raise Unsupported("no function %s::read" % mod)
        u.ex.contracts[mod + '::read'] = k_read
        has, o = u.bool('origin given'), z3.Const(fresh_name('origin'), TRANS)
        org = Enum('Option', z3.If(has, 1, 0), {'Some': (Opaque('Trans', o),)})
        i = u.int('i', 0)
        u.reachable()
        outs = u.call(mod + '::read_from_file', [u.ref(Opaque('Path', p))] + ([org] if pose else []))
        if not outs: raise Unsupported("read_from_file never returns")
        for s, r in outs:
            j = s.mem.get(('ghost', 'read'))
            u.ensure('a file that cannot be opened gives its error', s, z3.Implies(z3.Not(open_ok(p)), z3.And(is_err(r), the_err(u, r) == open_err(p))))
            if j is None:
                u.ensure('a file that can be opened is read', s, z3.Not(open_ok(p)))
                continue
            if not isinstance(j, int): raise Unsupported("read more than once")
            q_ = recs[j]
            inp = q_['inp']
            u.ensure('the reader gets the contents of the file', s, z3.Implies(open_ok(p), b_and(inp.f[0] == rd_ok(p), inp.f[1].n == f_len(p), inp.f[1].at(i) == f_byte(p, i), inp.f[2].term == f_text(p), inp.f[3].term == rd_err(p))))
            u.ensure('the result is that of the reader', s, z3.Implies(open_ok(p), b_and(is_ok(r) == q_['ok'],
                     b_imp(q_['ok'], r.pay['Ok'][0].term == q_['v']) if 'Ok' in r.pay else z3.Not(q_['ok']), b_imp(z3.Not(q_['ok']), the_err(u, r) == q_['e']))))
            if pose:
                g = q_['origin']
                u.ensure('the reader gets the origin given', s, z3.Implies(open_ok(p), b_and(zb(g.d == org.d), b_imp(has, g.pay['Some'][0].term == o if 'Some' in g.pay else z3.BoolVal(False)))))
        u.no_panic()
    return run

# ---- C20 -------------------------------------------------------------------------------------------
def c20(u):
    setup(u)
    ext = u.ex.ext
    inp, readable, _, text, e = any_input(u, 'input')
    has = u.bool('origin given')
    R64 = lambda n: Fl('f64', z3.Real(fresh_name(n)))
    o = [u.inp('origin.%d' % i, R64('origin')) for i in range(3)]
    org = Enum('Option', z3.If(has, 1, 0), {'Some': (Adt('Translation', (Adt('mat', o),)),)})
    sp = lit(' ')
    n = n_fields(text, sp)
    fs = [field(text, sp, z3.IntVal(i)) for i in range(6)]
    tys = ['f64'] * 3 + ['f32'] * 3
    good6 = [ext.p_ok(t)(f) for t, f in zip(tys, fs)]
    val = [ext.p_val(t)(f) for t, f in zip(tys, fs)]
    for i, (t, f) in enumerate(zip(tys, fs)): u.inp('field.%d' % i, Fl(t, val[i]))
    u.assume(n >= 1)
    u.reachable()
    outs = u.call('oxt_reader::read', [u.ref(inp), org])
    if not outs: raise Unsupported("read never returns")
    allok = z3.And(n >= 6, *good6)
    PI = z3.Real('PI')
    cos = u.FT._uf('cos', 1)
    pi, circ, pole = PI, q(40075160), q(40008000)
    for j, (s, r) in enumerate(outs):
        sfx = '' if len(outs) == 1 else ' [path %d]' % j
        u.ensure('a record of six numbers gives a pose, anything else an error' + sfx, s, is_ok(r) == z3.And(readable, allok))
        u.ensure("a failing input's error is returned" + sfx, s, z3.Implies(z3.Not(readable), z3.And(is_err(r), the_err(u, r) == e)))
        u.ensure('fewer or unparsable fields are rejected as invalid data' + sfx, s, z3.Implies(z3.And(readable, z3.Not(allok)), z3.And(is_err(r), kind(the_err(u, r)) == KIND['InvalidData'])))
        if 'Ok' not in r.pay: continue
        pose, back = r.pay['Ok'][0].f
        good = z3.And(readable, allok)
        t = [x.v for x in leaves(pose.f[0])]
        b = [x.v for x in leaves(back)]
        if len(t) != 3 or len(b) != 3 or pose.f[1].kind != 'UnitQuaternion': raise Unsupported("shape of a pose")
        u.ensure('roll, pitch and yaw are fields four to six' + sfx, s, z3.Implies(good, b_and(*[x.v == y for x, y in zip(pose.f[1].f, val[3:])])))
        for ax in range(3):
            u.ensure('without an origin the position is zero, axis %d' % ax + sfx, s, z3.Implies(z3.And(good, z3.Not(has)), t[ax] == 0))
            u.ensure("without an origin the record's own position is returned, axis %d" % ax + sfx, s, z3.Implies(z3.And(good, z3.Not(has)), b[ax] == val[ax]))
            u.ensure('an origin given is returned, axis %d' % ax + sfx, s, z3.Implies(z3.And(good, has), b[ax] == o[ax].v))
        dlat, dlon, dalt = [val[i] - o[i].v for i in range(3)]
        want = [dlon * circ * cos(z3.simplify(o[0].v * pi / 180)) / 360, dlat * pole / 360, dalt]
        w2 = [dlon * circ * cos(o[0].v * pi / 180) / 360]
        s2 = s.fork()
        s2.pc.append(w2[0] == want[0])
        for ax, nm in enumerate(('x is the longitude difference along the circle of latitude', 'y is the latitude difference along the meridian', 'z is the altitude difference')):
            u.ensure(nm + sfx, s2, z3.Implies(z3.And(good, has), t[ax] == want[ax]))
    u.terminates()
    u.no_panic()

# ---- C21 -------------------------------------------------------------------------------------------
def c21_list(u):
    setup(u)
    ext = u.ex.ext
    d = z3.Const(fresh_name('dir'), PATH)
    k, i, j = [u.int(x, 0) for x in ('k', 'i', 'j')]
    ext.idx += [k, i, j]
    n = dir_n(d)
    u.assume(z3.And(n >= 0, n < 2 ** 60))
    u.assume(z3.And(i < j, j < n, k < n))
    # the entries at these places, and those a sort brings there (a reading of the entry at any place)
    PL = [('k', k), ('i', i), ('j', j)] + [('of place ' + nm, ext.perm[0](x)) for nm, x in (('k', k), ('i', i), ('j', j))]
    def cands(ctx):
        out = []
        for l in ctx.leaves:
            if not isinstance(l.entry, Seq): continue
            for nm, x in PL:
                def f(s, l=l, x=x):
                    sq = l.get(s)
                    if isinstance(sq.n, int) and sq.n == 0: return True
                    a = sq.at(x)
                    if not (isinstance(a, Opaque) and a.kind == 'Path'): raise Unsupported('shape')
                    return z3.Implies(z3.And(x >= 0, x < sq.n), a.term == ent_path(ent(d, x)))
                out.append((l.name + ': the path of entry ' + nm, f))
            out.append((l.name + ': one per entry', lambda s, l=l: zb(l.get(s).n == ctx.count(s))))
        for nm, x in PL:
            out.append(('entry %s could be read' % nm, lambda s, x=x: z3.Implies(z3.And(x >= 0, x < ctx.count(s)), ent_ok(d, x))))
        return out
    u.ex.cands.append(cands)
    u.reachable()
    # entries at other places of a sorted list
    outs = u.call('seq_files_in_dir', [u.ref(Opaque('Path', d))])
    if not outs: raise Unsupported("seq_files_in_dir never returns")
    for s, r in outs:
        u.ensure('a directory that cannot be listed gives its error', s, z3.Implies(z3.Not(dir_ok(d)), z3.And(is_err(r), the_err(u, r) == dir_err(d))))
        u.ensure('an entry that cannot be read fails the listing', s, z3.Implies(z3.And(dir_ok(d), z3.Not(ent_ok(d, k))), is_err(r)))
        if 'Ok' not in r.pay: continue
        sq = r.pay['Ok'][0]
        okk = z3.And(is_ok(r), dir_ok(d))
        u.ensure('as many paths as entries', s, z3.Implies(okk, zb(sq.n == n)))
        u.ensure('paths in lexicographic order', s, z3.Implies(okk, path_le(sq.at(i).term, sq.at(j).term)))
        srt = [(pi, inv) for nw, pi, inv in ext.sorts]
        u.ensure('every entry is listed', s, z3.Implies(okk, b_or(*[b_and(inv(k) >= 0, inv(k) < sq.n, sq.at(inv(k)).term == ent_path(ent(d, k))) for pi, inv in srt], sq.at(k).term == ent_path(ent(d, k)))))
        u.ensure('every path listed is that of an entry', s, z3.Implies(okk, b_or(*[b_and(pi(k) >= 0, pi(k) < n, sq.at(k).term == ent_path(ent(d, pi(k)))) for pi, inv in srt], sq.at(k).term == ent_path(ent(d, k)))))
        u.ensure('no entry is listed twice', s, z3.Implies(okk, b_or(*[b_and(pi(i) != pi(j), sq.at(i).term == ent_path(ent(d, pi(i))), sq.at(j).term == ent_path(ent(d, pi(j)))) for pi, inv in srt],
                 b_and(sq.at(i).term == ent_path(ent(d, i)), sq.at(j).term == ent_path(ent(d, j))))))
    u.terminates()
    u.no_panic()

def c21_dir(mod, pose):
    def run(u):
        setup(u)
        ext = u.ex.ext
        d, printing = z3.Const(fresh_name('dir'), PATH), u.bool('printing')
        listed, lerr, n = z3.Bool(fresh_name('listed')), z3.Const(fresh_name('list_err'), ERR), u.int('files', 0, 2 ** 60)
        P = z3.Function(fresh_name('listing'), I, PATH)
        k = u.int('k', 0)
        RES = POSE if pose else CLOUD
        D_ = [PATH] + ([Bo, TRANS] if pose else [])
        f_ok, f_res, f_err = F_('file_ok', *D_, Bo), F_('file_result', *D_, RES), F_('file_err', *D_, ERR)
        f_org = F_('file_origin', PATH, Bo, TRANS, TRANS)
        NOWHERE = z3.Const('io_no_origin', TRANS)
        sarg = lambda v: [z3.simplify(v)] if isz(v) else [v]
        def k_list(ex, st, args):
            a = ext.val(st, args[0])
            if not (isinstance(a, Opaque) and a.kind == 'Path' and a.term.eq(d)): raise Unsupported("listing of another directory")
            sq = Seq(n, lambda i: Opaque('Path', P(z3.IntVal(i) if isinstance(i, int) else i)))
            return [(st, Enum('Result', z3.If(listed, 0, 1), {'Ok': (sq,), 'Err': (E_(lerr),)}))]
        def k_file(ex, st, args):
            p = ext.val(st, args[0])
            if not (isinstance(p, Opaque) and p.kind == 'Path'): raise Unsupported("path")
            a = [p.term]
            if pose:
                g = args[1]
                hs = zb(g.d == 1)
                og = g.pay['Some'][0].term if 'Some' in g.pay else NOWHERE
                a += [hs, z3.If(hs, og, NOWHERE)]
                st.pc.append(z3.Implies(a[1], f_org(*a) == a[2]))       # C20: an origin given is returned
            st.mem[('ghost', 'reads')] = simpi(st.mem.get(('ghost', 'reads'), 0) + 1)
            st.mem[('ghost', 'last')] = tup(*[Opaque('arg', x) if not isbool(x) else x for x in a])
            v = Opaque('Res', f_res(*a))
            return [(st, Enum('Result', z3.If(f_ok(*a), 0, 1), {'Ok': (tup(v, Opaque('Trans', f_org(*a))) if pose else v,), 'Err': (E_(f_err(*a)),)}))]
        for nm, f in (('seq_files_in_dir', k_list), (mod + '::read_from_file', k_file)):
            if nm not in u.prog.by_short: raise Unsupported("no function " + nm)
            u.ex.contracts[nm] = f
        u.st.mem[('ghost', 'reads')] = 0
        u.st.mem[('ghost', 'last')] = tup(*[Opaque('arg', z3.Const(fresh_name('none'), PATH))] + ([False, Opaque('arg', NOWHERE)] if pose else []))
        def origin(i):
            """The arguments file i has to be read with."""
            if not pose: return [P(i)]
            hs = i > 0
            return [P(i), hs, z3.If(hs, f_org(P(0), z3.BoolVal(False), NOWHERE), NOWHERE)]
        def cands(ctx):
            out = []
            for l in ctx.leaves:
                if isinstance(l.entry, Seq):
                    def f(s, l=l):
                        sq = l.get(s)
                        if isinstance(sq.n, int) and sq.n == 0: return True
                        a = sq.at(k)
                        if not (isinstance(a, Opaque) and a.kind == 'Res'): raise Unsupported('shape')
                        return z3.Implies(z3.And(k >= 0, k < sq.n), a.term == f_res(*origin(k)))
                    out.append((l.name + ': the result of file k', f))
                if pose and isinstance(l.entry, Enum) and l.entry.kind == 'Option':
                    out.append((l.name + ': no origin before the first file', lambda s, l=l: zb(l.get(s).d == 1) == (ctx.count(s) > 0)))
                    out.append((l.name + ': then the position of the first', lambda s, l=l: True if 'Some' not in l.get(s).pay else z3.Implies(l.get(s).d == 1, l.get(s).pay['Some'][0].term == f_org(P(0), z3.BoolVal(False), NOWHERE))))
            out.append(('file k could be read', lambda s: z3.Implies(k < ctx.count(s), f_ok(*origin(k)))))
            out.append(('one read per step', lambda s: zb(s.mem[('ghost', 'reads')] == ctx.count(s))))
            return out
        u.ex.cands.append(cands)
        # entries of a directory have file names
        base_dispatch = ext.dispatch
        def disp(ex, c, args, st):
            if c.method == 'file_name':
                v = ext.val(st, args[0])
                if isinstance(v, Opaque) and z3.is_app(v.term) and v.term.decl().eq(P): st.pc.append(named(v.term))
            return base_dispatch(ex, c, args, st)
        ext.dispatch = disp
        u.reachable()
        outs = u.call(mod + '::read_from_dir', [u.ref(Opaque('Path', d)), printing])
        if not outs: raise Unsupported("read_from_dir never returns")
        for m_, (s, r) in enumerate(outs):
            sfx = '' if len(outs) == 1 else ' [path %d]' % m_
            u.ensure('a directory that cannot be listed gives its error' + sfx, s, z3.Implies(z3.Not(listed), z3.And(is_err(r), the_err(u, r) == lerr)))
            u.ensure('a file that fails fails the whole read' + sfx, s, z3.Implies(z3.And(listed, k < n, z3.Not(f_ok(*origin(k)))), is_err(r)))
            la = [x.term if isinstance(x, Opaque) else x for x in s.mem[('ghost', 'last')].f]
            rd = s.mem[('ghost', 'reads')]
            ag = lambda: b_and(*[x == y for x, y in zip(la, origin(simpi(rd - 1)))])
            u.ensure('the read fails only where a file does' + sfx, s, z3.Implies(z3.And(listed, is_err(r)), b_and(rd >= 1, rd <= n, ag(), z3.Not(f_ok(*la)), the_err(u, r) == f_err(*la))))
            if 'Ok' not in r.pay: continue
            sq = r.pay['Ok'][0]
            good = z3.And(listed, is_ok(r))
            u.ensure('a result per file' + sfx, s, z3.Implies(good, zb(sq.n == n)))
            u.ensure('every file is read once' + sfx, s, z3.Implies(good, zb(rd == n)))
            if not (isinstance(sq.n, int) and sq.n == 0):
                u.ensure('in the order of the listing' + ('' if not pose else ', from the position of the first') + sfx, s, z3.Implies(z3.And(good, k < n), sq.at(k).term == f_res(*origin(k))))
            else: u.ensure('in the order of the listing' + sfx, s, z3.Implies(good, n == 0))
        u.terminates()
        u.no_panic()
    return run
