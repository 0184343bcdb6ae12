#!/opt/veriftools/pyvenv/bin/python
"""Decides one property on /repo's current tree: check.py <ID> | check.py --replay FILE | check.py --setup

Generates the MIR of the crate, discharges the proof obligations of the property's contracts over it (mirvc/), and runs
the conformance harness (native/) against the real code; see DESIGN.md for the decision rule."""
import os, sys, re, json, time, subprocess, tempfile, shutil, fcntl, resource, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('KUBA_REPO', '/repo')
BUILD = os.path.join(HERE, '.build')
sys.path.insert(0, os.path.join(HERE, 'mirvc'))
sys.setrecursionlimit(30000)
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()

def say(*a): print('[%6.1f]' % (time.time() - T0), *a, flush=True)

class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, 'lock'), 'w'); fcntl.flock(self.f, fcntl.LOCK_EX); return self
    def __exit__(self, *a): self.f.close()

def env(**kw):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER'): e.pop(k, None)
    e.update(kw)
    return e

def dump_mir_start():
    td = os.path.join(BUILD, 'mir')
    fp = os.path.join(td, 'debug', '.fingerprint')
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith('kuba-'): shutil.rmtree(os.path.join(fp, d))
    out = open(os.path.join(BUILD, 'kuba.mir'), 'w')
    errf = open(os.path.join(BUILD, 'mir.err'), 'w')
    return subprocess.Popen(['cargo', '+nightly', 'rustc', '--offline', '--lib', '--profile', 'dev', '--', '-Zunpretty=mir'],
                            cwd=REPO, env=env(CARGO_TARGET_DIR=td), stdout=out, stderr=errf)
def native_start():
    errf = open(os.path.join(BUILD, 'native.err'), 'w')
    return subprocess.Popen(['cargo', 'build', '--offline', '--quiet'], cwd=os.path.join(HERE, 'native'),
                            env=env(CARGO_TARGET_DIR=os.path.join(BUILD, 'native')), stdout=errf, stderr=errf)

def build(want_mir=True):
    """(mir text or None, path of the harness or None); the products are copied so that runs do not disturb each other."""
    tmp = tempfile.mkdtemp(prefix='kubachk')
    with Lock():
        a = dump_mir_start() if want_mir else None
        b = native_start()
        if a: a.wait()
        b.wait()
        mir = None
        if a and a.returncode == 0: mir = open(os.path.join(BUILD, 'kuba.mir')).read()
        nat = None
        if b.returncode == 0:
            nat = os.path.join(tmp, 'native')
            shutil.copy(os.path.join(BUILD, 'native', 'debug', 'native'), nat)
    return mir, nat, tmp

# ---- proof obligations --------------------------------------------------------------------------------
def child(conn, prog, pid, spec, N, tmo, end, bad):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
        from runner import run_unit
        import exe
        exe.STOP = lambda: time.time() > end.value
        if not isdep(spec): exe.NOTE = lambda: setattr(bad, 'value', 1)
        u, err, secs = run_unit(prog, pid, spec, N, tmo)
        r = dict(unit=spec[0], N=N, theory=spec[1], err=err, secs=secs, obls=[], loops=[], models=[], fns=[], contracts=[], assume=[], queries=0, solver=0.0)
        r['dep'] = isdep(spec)
        if u is not None:
            r['obls'] = [dict(name=o.name, status=o.status, secs=round(o.secs, 3), model=o.model) for o in u.obls]
            r['loops'] = list({l['loop']: l for l in u.ex.loops_cut}.values())
            r['models'] = sorted(u.ex.models_used); r['fns'] = sorted(u.ex.fns_used); r['contracts'] = sorted(u.ex.used_contracts)
            r['assume'] = sorted(u.ex.assumptions); r['queries'] = u.ex.stats.queries; r['solver'] = u.ex.stats.time
        conn.send(r)
    except BaseException as e:
        try: conn.send(dict(unit=spec[0], N=N, theory=spec[1], err='internal: %s %s' % (type(e).__name__, e), secs=0, obls=[], loops=[], models=[], fns=[], contracts=[], assume=[], queries=0, solver=0.0))
        except BaseException: pass
    finally:
        conn.close()
        os._exit(0)

def isdep(s): return len(s) > 4 and bool(s[4].get('dep'))
def run_units(prog, pid, units, budget, total, found):
    """Every unit in a process of its own. No proof work goes on after `total` seconds, nor long after the property is known to
    be violated: by an obligation refuted, or (found) by an input of the conformance run."""
    ctx = mp.get_context('fork')
    end, bad = ctx.Value('d', time.time() + total), ctx.Value('i', 0)
    seen = False
    todo = [(s, N) for s in units for N in s[2]]
    todo.sort(key=lambda t: (isdep(t[0]), -t[1]))
    running, res = [], []
    none = lambda s, N, err, secs=0: dict(unit=s[0], N=N, theory=s[1], err=err, secs=secs, obls=[], loops=[], models=[], fns=[], contracts=[], assume=[], queries=0, solver=0.0)
    while todo or running:
        if not seen and (bad.value or found()):
            seen = True; end.value = min(end.value, time.time() + 60)
        if bad.value and found(): end.value = min(end.value, time.time() + 1)
        if time.time() > end.value:
            for s, N in todo: res.append(none(s, N, 'not tried: ' + ('the property is violated already' if seen else 'time budget exhausted')))
            todo = []
        while todo and len(running) < 7:
            s, N = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, prog, pid, s, N, budget, end, bad)); p.start(); b.close()
            running.append((p, a, s, N, time.time()))
        time.sleep(0.05)
        nxt = []
        for p, a, s, N, t in running:
            if a.poll():
                try: res.append(a.recv())
                except EOFError: res.append(none(s, N, 'the proof process died', time.time() - t))
                p.join()
            elif time.time() > min(t + budget, end.value) + (5 if seen else 30):
                p.kill(); p.join()
                res.append(none(s, N, 'time budget exhausted', time.time() - t))
            else: nxt.append((p, a, s, N, t))
        running = nxt
    return res

# ---- conformance ----------------------------------------------------------------------------------------
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))

def write_map(path, m):
    with open(path, 'w') as f:
        for k, v in m.items():
            if isinstance(v, bool): v = int(v)
            f.write('%s\t%s\n' % (k, v if not isinstance(v, float) else repr(v)))

def native_cmd(nat, pid, tmp, secs, seed, overs, dic, tag):
    out = os.path.join(tmp, 'fail.%s' % tag)
    cmd = [nat, pid, '--secs', str(secs), '--seed', str(seed), '--out', out, '--dict', dic]
    for o in overs: cmd += ['--over', o]
    return cmd, out

def native_run(nat, pid, tmp, secs, seeds, overs, dic):
    """First failure (message, replay file text) or None, plus the statistics lines."""
    ps = []
    sd = os.path.join(tmp, 'scratch'); os.makedirs(sd, exist_ok=True)
    for k, s in enumerate(seeds):
        cmd, out = native_cmd(nat, pid, tmp, secs, s, overs, dic, '%d' % s)
        # the code under test prints: a file, since a pipe that nobody drains would block it
        log = os.path.join(tmp, 'native.log.%d' % s)
        with open(log, 'w') as lf:
            ps.append((subprocess.Popen(cmd, cwd=sd, env=env(TMPDIR=sd), stdin=subprocess.DEVNULL, stdout=lf, stderr=subprocess.STDOUT, preexec_fn=limits), out, log))
    fail, stats, broken = None, [], []
    for p, out, log in ps:
        late = ''
        try: p.wait(timeout=secs + 60)
        except subprocess.TimeoutExpired:
            p.kill(); p.wait()
            late = '\nFAIL the call does not return'
        with open(log, errors='replace') as lf:
            size = lf.seek(0, 2); lf.seek(max(0, size - (1 << 20))); t = lf.read() + late
        m = re.search(r'^FAIL (.*)$', t, re.M)
        if m:
            if fail is None: fail = (m.group(1), open(out).read() if os.path.exists(out) else '')
        elif p.returncode != 0:      # abort: stack overflow, out of memory, ...
            broken.append('the process of the harness died with %s: %s' % (p.returncode, t[-300:]))
        else: stats.append(t)
    return fail, stats, broken

def dictionary(mir, path):
    fs, is_ = set(), set()
    for m in re.finditer(r'const (-?[\d.]+(?:[eE][-+]?\d+)?)f(?:32|64)\b', mir or ''): fs.add(m.group(1))
    for m in re.finditer(r'const (-?\d+)_(?:isize|usize|i32|u32|i64|u64|u8)\b', mir or ''):
        if abs(int(m.group(1))) < 2 ** 62: is_.add(int(m.group(1)))
    with open(path, 'w') as f:
        for x in sorted(fs): f.write('f %s\n' % x)
        for x in sorted(is_): f.write('i %d\n' % x)
        for x in sorted(is_):
            if abs(x) < 2 ** 30: f.write('f %d\n' % x)

def known(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\w+) match=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def main():
    if sys.argv[1] == '--setup':
        mir, nat, tmp = build()
        shutil.rmtree(tmp)
        import props
        print('setup: MIR %s, harness %s' % ('ok' if mir else 'FAILED', 'ok' if nat else 'FAILED'))
        return 0 if mir and nat else 2
    if sys.argv[1] == '--replay':
        text = open(sys.argv[2]).read()
        pid = re.search(r'^# property (\w+)', text, re.M).group(1)
        _, nat, tmp = build(False)
        if not nat: print('the harness does not build'); return 2
        f = os.path.join(tmp, 'replay')
        open(f, 'w').write('\n'.join(l for l in text.split('\n') if not l.startswith('#')))
        r = subprocess.run([nat, pid, '--replay', f], cwd=tmp, preexec_fn=limits)
        shutil.rmtree(tmp)
        return r.returncode
    pid = sys.argv[1]
    mir, nat, tmp = build()
    try: return decide(pid, mir, nat, tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def decide(pid, mir, nat, tmp):
    import z3
    from props import PROPS, INFO
    say('built: MIR %s, harness %s' % ('%d bytes' % len(mir) if mir else 'FAILED', 'ok' if nat else 'FAILED'))
    if not mir and not nat:
        print(open(os.path.join(BUILD, 'native.err')).read()[-3000:]); print('the tree does not build'); return 2
    dic = os.path.join(tmp, 'dict'); dictionary(mir, dic)
    thorough = TIER == 'thorough'
    units, results, errs = PROPS.get(pid, []), [], []
    quick_native = None
    prog = None
    if mir and units:
        try:
            from prog import Program
            prog = Program(mir, REPO)
        except Exception as e:
            errs.append('the MIR could not be read: %s: %s' % (type(e).__name__, str(e)[:300]))
    elif not mir: errs.append('no MIR: ' + open(os.path.join(BUILD, 'mir.err')).read()[-500:])
    import threading
    nres = {}
    def nat_thread():
        nres['r'] = native_run(nat, pid, tmp, 90 if thorough else 8, [SEED], [], dic)
    th = None
    if nat:
        th = threading.Thread(target=nat_thread); th.start()
    if prog:
        budget = (900 if thorough else 280)
        results = run_units(prog, pid, units, budget, 2400 if thorough else 480, lambda: bool(nres.get('r') and nres['r'][0]))
    if th: th.join()
    errs += ['%s [%dD]: %s' % (r['unit'], r['N'], r['err']) for r in results if r['err']]
    obls = [(r, o) for r in results for o in r['obls']]
    proved = [(r, o) for r, o in obls if o['status'] == 'proved']
    # a contract of a callee that is decided under another property: its failure leaves this property undecided
    refuted = [(r, o) for r, o in obls if o['status'] == 'refuted' and not r.get('dep')]
    unknown = [(r, o) for r, o in obls if o['status'] not in ('proved', 'refuted') or o['status'] == 'refuted' and r.get('dep')]
    say('%d obligations, %d proved, %d refuted, %d undecided, %d units not translated' % (len(obls), len(proved), len(refuted), len(unknown), len(errs)))
    for r, o in refuted + unknown: say('  %s: %s [%dD] %s %s' % (o['status'], r['unit'], r['N'], o['name'], o['model'] or ''))
    for e in errs: say('  not translated: ' + e.strip().replace('\n', ' | ')[:600])
    fail, stats, broken = nres.get('r', (None, [], []))
    if nat and fail is None and (refuted or unknown or errs):
        overs = []
        for k, (r, o) in enumerate([x for x in refuted + unknown if x[1]['model']][:12]):
            if o['model']:
                p = os.path.join(tmp, 'over%d' % k)
                m = dict(o['model'])
                if any(k.endswith('/unit') for k in m): m.setdefault('res', 1.0); m.setdefault('resolution', 1.0)
                if r['N'] in (2, 3): m['dim'] = r['N'] - 2
                write_map(p, m); overs.append(p)
        secs = 120 if thorough else 30
        say('searching for a failing input: %d counterexamples of the solver, then %d s of directed search' % (len(overs), secs))
        f2, s2, b2 = native_run(nat, pid, tmp, secs, [SEED + 100 + k for k in range(2)], overs, dic) if overs else (None, [], [])
        if f2 is None:
            f3, s3, b3 = native_run(nat, pid, tmp, secs, [SEED + 200 + k for k in range(6)], [], dic)
            f2, s2, b2 = f3, s2 + s3, b2 + b3
        fail, stats, broken = f2, stats + s2, broken + b2
    cases = sum(int(m.group(1)) for t in stats for m in [re.search(r'cases=(\d+)', t)] if m)
    nontriv = sum(int(m.group(1)) for t in stats for m in [re.search(r'nontrivial=(\d+)', t)] if m)
    samples = [m.group(1)[:400] for t in stats for m in [re.search(r'^SAMPLE (.*)$', t, re.M)] if m][:3]
    fully = bool(obls) and not refuted and not unknown and not errs
    violations = []
    if fail: violations.append(('input', fail[0], fail[1]))
    elif refuted: violations.append(('proof', '; '.join(sorted({'%s [%dD]: %s' % (r['unit'], r['N'], o['name']) for r, o in refuted}))[:1500], ''))
    # ---- evidence
    info = INFO.get(pid, {})
    ev = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level='proof',
              coverage=dict(
                  obligations=len(obls), discharged=len(proved),
                  checker_cmd='%s %s %s' % (sys.executable, os.path.join(HERE, 'check.py'), pid),
                  trusted_base=['rustc nightly (MIR construction, -Zunpretty=mir, debug assertions and overflow checks on)',
                                'mirvc: translation of MIR to verification conditions (/verif/mirvc)',
                                'z3 %s' % z3.get_version_string()] +
                               ['float theory of unit "%s": %s' % (n, THEORIES[t]) for n, t in sorted({(r['unit'], r['theory']) for r in results})] +
                               ['assumed contract of ' + m for m in sorted({m for r in results for m in r['models']})],
                  back_end='z3 %s through its Python API' % z3.get_version_string(),
                  solver_seconds=round(sum(r['solver'] for r in results), 2), queries=sum(r['queries'] for r in results),
                  functions_under_contract=sorted({f for r in results for f in r['fns']} | {c for r in results for c in r['contracts']}),
                  contracts_used_at_calls=sorted({c for r in results for c in r['contracts']}),
                  obligation_list=['%s%s [%dD]: %s: %s' % ('(callee) ' if r.get('dep') else '', r['unit'], r['N'], o['name'], o['status']) for r, o in obls],
                  loops=[dict(unit=r['unit'], N=r['N'], loop=l['loop'], invariants=l['invariants'], variant=l['variant']) for r in results for l in r['loops']],
                  fully_discharged=fully,
                  bounded_stand_in=dict(used=not fully, reason=errs + ['undecided: %s: %s' % (r['unit'], o['name']) for r, o in unknown],
                                        bound='%d concrete cases of the real code against the oracle of the property' % cases) if not fully else dict(used=False),
                  conformance=dict(cases=cases, nontrivial=nontriv, samples=samples, note='the real code run on concrete inputs against the oracle of the property; supports the assumed contracts, never counted as proof'),
              ),
              assumptions=info.get('assumptions', []) + sorted({a for r in results for a in r['assume']}),
              wall_s=round(time.time() - T0, 1), violations=len(violations))
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    rc = 0
    if violations:
        kind, msg, inp = violations[0]
        for mt, what in known(pid):
            if mt.replace('_', ' ') in msg:
                print('KNOWN-FINDING: property=%s %s' % (pid, what)); ev['violations'] = 0; break
        else:
            rp = os.path.join(HERE, 'evidence', 'replay', '%s.txt' % pid)
            with open(rp, 'w') as f:
                f.write('# property %s\n# %s\n# run: %s %s --replay %s\n' % (pid, msg.replace('\n', ' '), sys.executable, os.path.join(HERE, 'check.py'), rp))
                for r, o in refuted + unknown: f.write('# obligation %s [%dD] %s: %s; counterexample of the verifier: %s\n' % (r['unit'], r['N'], o['name'], o['status'], o['model']))
                for e in errs: f.write('# not translated: %s\n' % e.replace('\n', ' | ')[:800])
                f.write(inp)
            say('violated: ' + msg[:1500])
            print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if kind == 'input' else ' no-failing-input-found'))
            rc = 1
    elif fully: say('proved: %d of %d obligations' % (len(proved), len(obls)))
    else: say('not fully proved; accepted by the bounded stand-in (%d cases)' % cases)
    if broken: say('note: ' + '; '.join(broken)[:500])
    if not obls and not cases and not violations:
        print('nothing was decided'); return 2
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    return rc

THEORIES = {'FP': 'IEEE-754 floats, bit-precise comparisons, min and max; arithmetic named in the contract as uninterpreted functions',
            'S': 'rounding model: every operation exact up to a relative error of one half ulp (and an underflow term), positions in units of the resolution',
            'E': 'idealised real arithmetic with units (rounding ignored)',
            'R': 'idealised real arithmetic (rounding ignored)', 'I': 'integers'}

if __name__ == '__main__': sys.exit(main())
