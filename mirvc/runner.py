import time, traceback, z3
import exe
from mir import Unsupported
from spec import Unit
from fl import FP, R, S, E
THEORY = {'FP': FP, 'R': R, 'S': S, 'E': E}

BUGS = (z3.Z3Exception, NameError, NotImplementedError, ArithmeticError, KeyError, AttributeError, IndexError, TypeError, ValueError, AssertionError, RecursionError, StopIteration)
UNROLL = (3, 1)

def run_unit(prog, pid, spec, N, budget=300, uf=()):
    """The proof of a unit. A refutation that relies on what the cut of a loop forgets is looked for once more on runs with few
    iterations, which forget nothing; if it is not found there, the obligation is undecided."""
    t0 = time.time()
    u, err = run_once(prog, pid, spec, N, t0 + budget, None)
    if u is None or not u.cuts() or not any(o.status == 'refuted' for o in u.obls): return u, err, time.time() - t0
    base = lambda n: n.split(' [path')[0]
    conf = []
    for k in UNROLL:
        w, e = run_once(prog, pid, spec, N, min(t0 + budget + 60, time.time() + 60), k)
        if w is not None: conf = [o for o in w.obls if o.status == 'refuted']
        if conf: break
    if conf: exe.NOTE()
    got = {base(o.name): o for o in conf}
    for o in u.obls:
        if o.status == 'refuted':
            if base(o.name) in got: o.model = got.pop(base(o.name)).model or o.model
            else: o.status = 'unknown'; o.name += ' (refuted only together with what is forgotten about a loop)'
    for o in got.values():
        o.name += ' (few iterations)'
        u.obls.append(o)
    return u, err, time.time() - t0

def run_once(prog, pid, spec, N, deadline, unroll):
    name, th, dims, fn = spec[:4]
    opts = spec[4] if len(spec) > 4 else {}
    FT = THEORY[th](opts.get('uf', ())) if th == 'FP' else THEORY[th]()
    ext = opts['ext']() if 'ext' in opts else None
    u = None
    try:
        u = Unit(prog, '%s[%dD]' % (name, N) if len(dims) > 1 else name, N, FT, ext)
        u.ex.deadline = deadline
        u.ex.unroll = unroll
        fn(u)
        err = None
        if unroll is None and u.undecided: u.retry(min(deadline, time.time() + 180))
    except Unsupported as e: err = str(e)
    except BUGS as e:
        err = 'internal: %s: %s' % (type(e).__name__, str(e)[:200]) + ' ' + traceback.format_exc()[-800:]
    return u, err
