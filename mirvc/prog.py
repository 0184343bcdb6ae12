"""The program under verification: the MIR of the crate, indexed for call resolution; CFG loops and liveness."""
import os, re
from mir import *
from vals import VARIANTS
from exe import Callee, head_of, path_segs, split_as
from vals import Adt, Ref, Enum

ALIASES = {'Cell': 'Point', 'Cell2': 'Point', 'Cell3': 'Point', 'Point2': 'Point', 'Point3': 'Point', 'Vector': 'Matrix',
           'Vector2': 'Matrix', 'Vector3': 'Matrix'}

def norm_head(h): return ALIASES.get(h, h)

class Program:
    def __init__(self, mir_text, repo):
        self.repo = repo
        self.fns, self.consts = parse_mir(mir_text)
        self.closures, self.by_method, self.free = {}, {}, {}
        self._lowered, self._live = {}, {}
        self.src = {}
        self.by_short = {}
        for f in self.fns:
            self.index(f)
        self.scan_enums()
    # ---- indexing -------------------------------------------------------------------------------
    def read(self, rel):
        if rel not in self.src:
            with open(os.path.join(self.repo, rel)) as fh: self.src[rel] = fh.read().split('\n')
        return self.src[rel]
    def index(self, f):
        f.selfhead = f.trait = None
        if re.search(r'::\{closure#\d+\}$', f.name):
            m = re.search(r'\{closure@[^}]*\}', f.args[0][1])
            f.short = f.name
            if m: self.closures[m.group(0)] = f
            base = re.sub(r'<impl at .*?>::', '', f.name)
            f.short = base
            return
        segs = path_segs(f.name)
        method = segs[-1]
        impl = [s for s in segs if s.startswith('<impl at ')]
        if impl:
            m = re.match(r'<impl at (.*?):(\d+):(\d+): (\d+):(\d+)>', impl[0])
            rel, l0, c0, l1, c1 = m.group(1), *[int(x) for x in m.groups()[1:]]
            lines = self.read(rel)
            if l0 == l1: text = lines[l0 - 1][c0 - 1:c1 - 1]
            else: text = '\n'.join([lines[l0 - 1][c0 - 1:]] + lines[l0:l1 - 1] + [lines[l1 - 1][:c1 - 1]])
            text = ' '.join(text.split())
            if text.startswith('impl') or text.startswith('unsafe impl'):
                t = text[text.index('impl') + 4:].strip()
                if t.startswith('<'): t = t[match_close(t, 0) + 1:].strip()
                t = re.split(r'\bwhere\b', t)[0].strip()
                k = self.find_for(t)
                if k is not None:
                    f.trait, f.selfhead = head_of(t[:k]), norm_head(head_of(t[k + 5:]))
                else: f.selfhead = norm_head(head_of(t))
            else:
                f.trait = text.split('::')[-1]
                ty = f.args[0][1] if f.args else f.ret
                f.selfhead = norm_head(head_of(ty))
            f.short = '%s::%s' % (f.selfhead, method)
            self.by_method.setdefault(method, []).append(f)
        else:
            f.short = segs[-1] if len(segs) == 1 else '::'.join(segs)
            self.free.setdefault('::'.join(segs), []).append(f)
            if len(segs) >= 2 and segs[-2][:1].isupper():      # default method of a local trait
                f.trait = segs[-2]
                self.by_method.setdefault(method, []).append(f)
        self.by_short.setdefault(f.short, []).append(f)
    @staticmethod
    def find_for(t):
        d = 0
        for i, c in enumerate(t):
            if c in '<([{': d += 1
            elif c in ')]}' or (c == '>' and t[i - 1] not in '-='): d -= 1
            elif d == 0 and t.startswith(' for ', i): return i
        return None
    def scan_enums(self):
        for root, _, files in os.walk(os.path.join(self.repo, 'src')):
            for n in files:
                if n.endswith('.rs'):
                    with open(os.path.join(root, n)) as fh: s = fh.read()
                    s = re.sub(r'//[^\n]*', '', s)
                    for m in re.finditer(r'\benum (\w+)(?:<[^{]*)?\s*\{', s):
                        e = match_close(s, m.end() - 1)
                        vs = []
                        for v in split_top(s[m.end():e]):
                            v = re.sub(r'#\[[^\]]*\]', '', v).strip()
                            q = re.match(r'(\w+)', v)
                            if q: vs.append(q.group(1))
                        VARIANTS.setdefault(m.group(1), vs)
    def find_const(self, s, fn=None):
        if s in self.consts: return self.consts[s]
        t = s.split('::')[-1]
        if fn is not None and t.startswith('promoted['):
            if fn.name + '::' + t in self.consts: return self.consts[fn.name + '::' + t]
        c = [k for k in self.consts if k.split('::')[-1] == t]
        if t.startswith('promoted[') and len(c) > 1:
            g = re.sub(r'::<[^:]*>', '', s).split('::')[-2:]
            c = [k for k in c if k.split('::')[-2:] == g]
        return self.consts[c[0]] if len(c) == 1 else None
    def fn(self, short, n=None):
        c = self.by_short.get(short, [])
        if n is not None and len(c) > 1: c = self.dim_filter(c, n)
        if not c: raise Unsupported("function %s not found" % short)
        if len(c) > 1: raise Unsupported("function %s is ambiguous" % short)
        return c[0]
    # ---- resolution -----------------------------------------------------------------------------
    def dim_filter(self, cands, n):
        good = []
        for f in cands:
            sig = ' '.join(t for _, t in f.args) + ' ' + f.ret
            has2, has3 = bool(re.search(r'\bU2\b|usize; 2\]', sig)), bool(re.search(r'\bU3\b|usize; 3\]', sig))
            if (has2 and not has3 and n == 3) or (has3 and not has2 and n == 2): continue
            good.append(f)
        return good
    def fn_generics(self, fn, generics, outer):
        """The type parameters of a generic function and the types it is called with, or None."""
        if not generics: return None
        if not hasattr(self, '_gen'):
            self._gen = {}
            for root, _, files in os.walk(os.path.join(self.repo, 'src')):
                for n in files:
                    if not n.endswith('.rs'): continue
                    with open(os.path.join(root, n)) as fh: src = fh.read()
                    for m in re.finditer(r'\bfn (\w+)<([^()]*?)>\s*\(', src):
                        ps = [x.split(':')[0].strip() for x in split_top(m.group(2))]
                        ps = [x for x in ps if x and not x.startswith(("'", 'const '))]
                        self._gen.setdefault(m.group(1), []).append(ps)
        ps = self._gen.get(fn.short.split('::')[-1], [])
        ts = [x.strip() for x in split_top(generics) if not x.strip().startswith("'")]
        if len(ps) != 1 or len(ps[0]) != len(ts): return None
        return {p: outer.get(t, t) for p, t in zip(ps[0], ts)}
    def runtime_head(self, ex, args, st):
        for a in args[:1]:
            v = a
            while isinstance(v, Ref): v = ex.deref(st, v)
            if isinstance(v, (Adt, Enum)): return norm_head(v.kind)
            return type(v).__name__
        return None
    def resolve(self, ex, c, args, st):
        full = '::'.join(c.segs)
        if c.trait is None and full in self.free:
            cs = self.dim_filter(self.free[full], ex.N)
            if len(cs) == 1: return cs[0]
        cands = self.by_method.get(c.method)
        if not cands: return None
        cands = [f for f in cands if len(f.args) == len(args)]
        if not cands: return None
        head = norm_head(c.head) if c.head else None
        known = {f.selfhead for fs in self.by_method.values() for f in fs if f.selfhead}
        if head in ex.typeenv: head = ex.typeenv[head]
        elif head is not None and head not in known:
            local_traits = {f.trait for fs in self.by_method.values() for f in fs if f.trait and f.trait[0].isupper()}
            # generic receiver (type parameter, impl Trait, dyn Trait, Self)
            if c.headty.startswith(('impl ', 'dyn ')) or re.fullmatch(r'[A-Z][A-Za-z]{0,3}|Self', c.headty.strip()) or c.trait in local_traits:
                head = self.runtime_head(ex, args, st)
            else: return None
        def sel(cs): return self.dim_filter([f for f in cs if f.selfhead == head], ex.N)
        ok = sel(cands)
        if c.trait: ok = [f for f in ok if f.trait == c.trait]
        else:
            inh = [f for f in ok if f.trait is None]
            if inh: ok = inh
        if len(ok) > 1 and len({f.trait for f in ok}) == 1:
            # several impls of one trait: match the argument types
            ok2 = [f for f in ok if self.args_match(ex, f, args, st)]
            if ok2: ok = ok2
        if len(ok) == 1: return ok[0]
        if len(ok) > 1: raise Unsupported("ambiguous call " + c.s)
        dflt = [f for f in cands if f.selfhead is None and f.trait == c.trait and f.trait]
        return dflt[0] if len(dflt) == 1 else None
    def args_match(self, ex, f, args, st):
        for (_, t), a in zip(f.args, args):
            if t.startswith('&') != isinstance(a, Ref): return False
        return True
    # ---- control flow ---------------------------------------------------------------------------
    def lowered(self, fn):
        k = id(fn)
        if k not in self._lowered:
            code = lower(fn)
            self._lowered[k] = (code, find_loops(code))
        return self._lowered[k]
    def live_in(self, fn, bb):
        k = id(fn)
        if k not in self._live: self._live[k] = liveness(fn, self.lowered(fn)[0])
        return self._live[k][bb]
    def is_union_update(self, rv): return False
    def enum_of_bare(self, name, ty):
        h = head_of(ty) if ty else None
        if h in VARIANTS and VARIANTS[h] and name in VARIANTS[h]: return h
        return None

def succs(t):
    if t is None: return []
    if t[0] == 'goto': return [t[1]]
    if t[0] == 'switch': return [b for _, b in t[2]]
    if t[0] == 'assert': return [t[4]]
    if t[0] == 'call': return [t[4]] if t[4] else []
    return []

def find_loops(code):
    """header -> blocks of the natural loop."""
    order, seen, stack = [], set(), [('bb0', iter(succs(code['bb0'][1])))]
    seen.add('bb0')
    while stack:
        b, it = stack[-1]
        nx = next(it, None)
        if nx is None: order.append(b); stack.pop(); continue
        if nx not in seen and nx in code:
            seen.add(nx); stack.append((nx, iter(succs(code[nx][1]))))
    order.reverse()
    preds = {b: [] for b in order}
    for b in order:
        for s in succs(code[b][1]):
            if s in preds: preds[s].append(b)
    dom = {b: set(order) for b in order}
    dom['bb0'] = {'bb0'}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            d = set.intersection(*[dom[p] for p in preds[b]]) | {b} if preds[b] else {b}
            if d != dom[b]: dom[b] = d; ch = True
    loops = {}
    pos = {b: i for i, b in enumerate(order)}
    for b in order:
        for s in succs(code[b][1]):
            if s in dom[b]:
                blocks, work = {s, b}, [b]
                while work:
                    x = work.pop()
                    if x == s: continue
                    for p in preds[x]:
                        if p not in blocks: blocks.add(p); work.append(p)
                loops.setdefault(s, set()).update(blocks)
            elif s in pos and pos[s] <= pos[b]: raise Unsupported("irreducible control flow")
    return loops

def place_uses(pl):
    u = {pl[0]}
    for p in pl[1]:
        if p[0] == 'index': u.add(p[1])
    return u

def op_uses(op): return place_uses(op[1]) if op[0] in ('copy', 'move') else set()

def rv_uses(rv):
    k = rv[0]
    if k in ('use', 'cast'): return op_uses(rv[1])
    if k == 'ref': return place_uses(rv[1])
    if k == 'bin': return op_uses(rv[2]) | op_uses(rv[3])
    if k == 'un': return op_uses(rv[2])
    if k in ('discr', 'len'): return place_uses(rv[1])
    if k in ('tuple', 'array'): return set().union(*[op_uses(o) for o in rv[1]]) if rv[1] else set()
    if k == 'repeat': return op_uses(rv[1])
    if k in ('closure', 'struct'): return set().union(*[op_uses(o) for _, o in rv[2]]) if rv[2] else set()
    if k == 'ctor': return set().union(*[op_uses(o) for o in rv[2]]) if rv[2] else set()
    return set()

def liveness(fn, code):
    addr = set()
    gen, kill = {}, {}
    for b, (stmts, t) in code.items():
        g, k = set(), set()
        def use(s): g.update(x for x in s if x not in k)
        for dest, rv in stmts:
            use(rv_uses(rv))
            if rv[0] == 'ref' and not any(p[0] == 'deref' for p in rv[1][1]): addr.add(rv[1][0])
            if dest[1]: use(place_uses(dest))
            else: k.add(dest[0])
        if t:
            if t[0] in ('switch', 'assert'): use(op_uses(t[1]))
            if t[0] == 'call':
                for a in t[3]: use(op_uses(a))
                if t[1]:
                    if t[1][1]: use(place_uses(t[1]))
                    else: k.add(t[1][0])
            if t[0] == 'return': use({'_0'})
        gen[b], kill[b] = g, k
    live = {b: set() for b in code}
    ch = True
    while ch:
        ch = False
        for b, (stmts, t) in code.items():
            out = set()
            for s in succs(t): out |= live.get(s, set())
            n = gen[b] | (out - kill[b])
            if n != live[b]: live[b] = n; ch = True
    for b in live: live[b] = live[b] | addr
    return live
