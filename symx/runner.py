"""Check driver: builds the code under test, explores every harness of a property in its own
process, replays candidates on the plain build, writes evidence, prints the verdict."""
import importlib, json, zlib, multiprocessing as mp, os, pickle, signal, subprocess, sys, tempfile, time, traceback
from . import instr, engine
from .engine import *

VERIF = instr.VERIF
REGISTRY = {}

class H:
    def __init__(s, fn, name, opts): s.fn = fn; s.name = name; s.opts = opts

def _nm(name, spec): return f'{name}@{spec if len(spec) < 40 else "%s..%04x" % (spec[:24], zlib.crc32(spec.encode()) & 0xffff)}'
def harness(name=None, **opts):
    def deco(fn):
        import inspect
        mod = sys.modules[fn.__module__]
        lst = mod.__dict__.setdefault('HARNESSES', [])
        special = opts.pop('special', ())
        lst.append(H(fn, name or fn.__name__, opts))
        for spec in special:
            lst.append(H(lambda E, spec=spec: fn(Special(E, spec)), _nm(name or fn.__name__, spec), dict(opts)))
        return fn
    return deco

def _groups(h, plain, seed):
    """input groups of a harness (concrete run in a child process)"""
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL); signal.alarm(10)
            dn = os.open('/dev/null', os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
            data = pickle.dumps(engine.discover(h.fn, engine.bind(plain), seed))
            while data: data = data[os.write(w, data):]
        finally: os._exit(0)
    os.close(w); buf = b''
    while True:
        x = os.read(r, 65536)
        if not x: break
        buf += x
    os.close(r); os.waitpid(pid, 0)
    try: return pickle.loads(buf)
    except Exception: return {}
def auto_specials(hs, plain, seed):
    """variants of every harness on the subspaces where one input group is zero (identity, first axis), or repeats another one"""
    out = []; names = {h.name for h in hs}
    for h in hs:
        if h.opts.get('fp') or h.opts.get('auto') is False or '@' in h.name: continue
        g = _groups(h, plain, seed); specs = []
        for n, (k, z) in g.items():
            if k[:4] in ('pose', 'rot', 'unit') or (z and k.startswith('real')): specs.append(n)
            if k.startswith('pose'): specs.append(n + '_t')
            d = int(k[5:].split()[0]) if z and k.startswith('reals') else 0
            for h1 in ((d-1, d//2) if d > 4 else (d-1,) if d > 1 else ()):     # head and tail of a vector
                specs.append('+'.join(f'{n}{i}' for i in range(h1)))
                specs.append('+'.join(f'{n}{i}' for i in range(d-h1, d)))
        last = {}
        for n, (k, z) in g.items():
            if k in last and not k.startswith('real '): specs.append(f'{n}={last[k]}')
            last.setdefault(k, n)
        for x in specs[:h.opts.get('auto', 20)]:
            if _nm(h.name, x) in names: continue
            o = dict(h.opts); o['cost'] = o.get('cost', 1)*0.01-10; o['time'] = min(o.get('time', 20), 20); o['max_paths'] = min(o.get('max_paths', 30), 30)
            out.append(H(lambda E, f=h.fn, x=x: f(Special(E, x)), _nm(h.name, x), o))
    return out

def bitprecise(base, src, **opts):
    """decorates analyse(ck, ex, rep): bit-precise obligations; base(E) is the harness that replays a model"""
    def deco(fn):
        mod = sys.modules[fn.__module__]
        o = dict(opts); o['fp'] = (src, fn)
        b = base.fn if isinstance(base, H) else base
        mod.__dict__.setdefault('HARNESSES', []).append(H(b, fn.__name__, o))
        return fn
    return deco

def replay_in_child(h, plain, inputs, timeout=20, seed=1):
    """Run the harness on the plain build in a child process. Returns list of (label, message)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL); signal.alarm(timeout)
            devnull = os.open('/dev/null', os.O_WRONLY); os.dup2(devnull, 1); os.dup2(devnull, 2)
            lib = engine.bind(plain)
            fails, n, used = run_concrete(h.fn, lib, inputs, seed=seed)
            data = pickle.dumps(('ok', fails, n))
        except BaseException as x:
            data = pickle.dumps(('exc', ''.join(traceback.format_exception(x))[-1500:], 0))
        try:
            off = 0
            while off < len(data): off += os.write(w, data[off:])
        finally: os._exit(0)
    os.close(w)
    buf = b''
    while True:
        x = os.read(r, 65536)
        if not x: break
        buf += x
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        sg = os.WTERMSIG(st)
        if sg == signal.SIGALRM: return [('termination', f'the call did not return within {timeout} s')], 0
        if sg in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL): return [('crash', f'the code under test died with signal {sg}')], 0
        return [], 0
    if not buf: return [], 0
    k, f, n = pickle.loads(buf)
    if k == 'exc':
        if os.environ.get('SYMX_DEBUG'): print('replay:', f, file=sys.stderr)
        return [], -1
    return f, n

def _child(h, sym, plain, opts, deadline, conn, statefile):
    res = Result(h.name)
    t0 = time.time()
    if opts.get('fp'):
        from . import fpx
        src, analyse = opts['fp']
        try:
            def rep(ins): return replay_in_child(h, plain, ins, opts.get('rtimeout', 10), opts.get('seed', 1))[0]
            m = fpx.Module(fpx.compile_ir(os.path.join(VERIF, 'harness', src)))
            ck = fpx.Checker(h.name); ck.r = res; ex = fpx.Exec(m, deadline=deadline, qtimeout=opts.get('qtimeout', 20000))
            try: analyse(ck, ex, rep)
            except fpx.Unsupported as x: res.obl += 1; res.incon.append(('bit-precise encoding', f'not encodable: {x}'))
            ck.done(ex)
            f, n = replay_in_child(h, plain, {}, opts.get('rtimeout', 20), opts.get('seed', 1)); res.validated = max(n, 0)
        except BaseException as x: res.err = ''.join(traceback.format_exception(x))[-3000:]
        res.wall = time.time()-t0
        try: conn.send(res.to()); conn.close()
        finally: os._exit(0)
    try:
        lib = engine.bind(sym)
        hist = []
        def rep(ins):
            f, n = replay_in_child(h, plain, ins, opts.get('rtimeout', 20), opts.get('seed', 1))
            return f
        o = dict(opts)
        def st(job):
            with open(statefile, 'wb') as f: pickle.dump(job, f)
        o['_state'] = st
        devnull = os.open('/dev/null', os.O_WRONLY); os.dup2(devnull, 1)
        # translator validation: the instrumented build evaluated on witnesses must agree with the plain build
        try: explore(h.fn, lib, o, res, rep, deadline)
        except BaseException as x: res.err = ''.join(traceback.format_exception(x))[-3000:]
        # a run of the unmodified code on the seeds: the property must hold there too (and the encoding agrees)
        f, n = replay_in_child(h, plain, {}, opts.get('rtimeout', 20), opts.get('seed', 1))
        res.validated = max(n, 0)
        if n == -1: res.notes.append('plain replay raised an internal error')
        if f and not res.viol and not opts.get('no_seed_replay'):
            res.viol.append(dict(label=f[0][0], msg=f[0][1], inputs={}, how='witness on the plain build', note=''))
    except BaseException as x:
        res.err = ''.join(traceback.format_exception(x))[-3000:]
    res.wall = time.time()-t0
    try: conn.send(res.to()); conn.close()
    finally: os._exit(0)

def _worker_opts(h, tier, seed):
    o = dict(h.opts); o['seed'] = seed; o['tier'] = tier
    if tier == 'thorough':
        for k in ('max_paths', 'qtimeout', 'ftimeout', 'ctimeout', 'dtimeout', 'time', 'ground'):
            if k in o: o[k] = o[k]*4
        o.setdefault('qtimeout', 20000)
        for k, v in list(h.opts.items()):
            if k.startswith('thorough_'): o[k[9:]] = v
    return o

def run_harnesses(hs, sym, plain, tier, seed, jobs=8, budget=240):
    """Run every harness in its own process; returns list of result dicts."""
    pending = sorted(hs, key=lambda h: -h.opts.get('cost', 1)); running = []; out = []
    tmp = tempfile.mkdtemp(prefix='symx')
    tend = time.time() + budget
    try:
        while pending or running:
            while pending and len(running) < jobs:
                h = pending.pop(0)
                o = _worker_opts(h, tier, seed)
                T = o.get('time', 45 if tier == 'quick' else 240)
                deadline = min(time.time()+T, tend)
                a, b = mp.Pipe(False)
                sf = os.path.join(tmp, h.name)
                p = mp.Process(target=_child, args=(h, sym, plain, o, deadline, b, sf))
                p.start(); b.close()
                running.append((h, p, a, deadline+o.get('grace', 45), sf, o))
            for it in list(running):
                h, p, a, dl, sf, o = it
                got = None
                if a.poll(0.01):
                    try: got = a.recv()
                    except EOFError: got = 'dead'
                if got is None and time.time() > dl:
                    got = 'hang'; p.kill()
                if got is None: continue
                p.join()
                running.remove(it)
                if isinstance(got, str):
                    r = Result(h.name); r.wall = o.get('time', 45)
                    try: job = pickle.load(open(sf, 'rb'))
                    except Exception: job = dict(seeds={}, prefix=[])
                    f, n = replay_in_child(h, plain, job['seeds'], 20, seed)
                    if f: r.viol.append(dict(label=f[0][0], msg=f[0][1], inputs=job['seeds'], how='symbolic execution ' + got, note=''))
                    r.obl = 1
                    if not f: r.incon.append((got, 'symbolic execution ended: ' + got))
                    got = r.to()
                out.append(got)
            time.sleep(0.02)
    finally:
        for it in running: it[1].kill()
        import shutil; shutil.rmtree(tmp, ignore_errors=True)
    return out

def load_known():
    p = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('KNOWN '):   # KNOWN property=<id> harness=<name> label=<label> :: text
                head, _, text = ln[6:].partition('::')
                d = dict(x.split('=', 1) for x in head.split())
                d['text'] = text.strip(); out.append(d)
    return out

def main(prop, tier=None, replay=None):
    t0 = time.time()
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.path.insert(0, VERIF)
    mod = importlib.import_module('props.' + prop.lower())
    hs = list(mod.HARNESSES)
    if tier == 'quick': hs = [h for h in hs if not h.opts.get('thorough_only')]
    viol = []
    evp = os.path.join(VERIF, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    builderr = None
    try:
        srcs = instr.ensure_repo_srcs(mod.REPO_SRCS) + [os.path.join(VERIF, 'harness', x) for x in mod.HARNESS_SRCS]
        extra = getattr(mod, 'CXXFLAGS', ())
        per = instr.per_sources(getattr(mod, 'PER_SRC', {}))
        import threading
        rs = {}
        def bld(m):
            try: rs[m] = instr.build(srcs, m, extra, per_src=per)
            except Exception as x: rs[m] = x
        ths = [threading.Thread(target=bld, args=(m,)) for m in ('sym', 'plain')]
        for t in ths: t.start()
        for t in ths: t.join()
        for m in ('sym', 'plain'):
            if isinstance(rs[m], Exception): raise rs[m]
        sym, plain = rs['sym'], rs['plain']
    except Exception as x:
        builderr = str(x)
    tb = time.time()-t0
    results = []
    if builderr is None:
        if replay:
            d = json.load(open(replay))
            h = [h for h in mod.HARNESSES + (auto_specials(mod.HARNESSES, plain, seed) if '@' in d['harness'] else []) if h.name == d['harness']][0]
            f, n = replay_in_child(h, plain, d['inputs'], 60, d.get('seed', seed))
            print(json.dumps(dict(harness=h.name, failures=f), indent=1))
            return 1 if f else 0
        if (getattr(mod, 'AUTO', True) or tier == 'thorough') and os.environ.get('SYMX_AUTO') != '0': hs = hs + auto_specials(hs, plain, seed)
        results = run_harnesses(hs, sym, plain, tier, seed, budget=getattr(mod, 'BUDGET', 240) if tier == 'quick' else 2400)
    extra_fn = getattr(mod, 'extra_checks', None)
    if extra_fn and builderr is None:
        results += extra_fn(tier, seed, plain)
    known = [k for k in load_known() if k['property'] == prop]
    tot = dict(obligations=0, discharged=0, queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, paths=0, infeasible=0, frontier=0, branches=0, domain=0)
    samples = []; incon = []; notes = []; funcs = getattr(mod, 'FUNCTIONS', [])
    per_h = []
    nviol = 0
    os.makedirs(os.path.join(VERIF, '.cache', 'replay'), exist_ok=True)
    for r in results:
        tot['obligations'] += r['obl']; tot['discharged'] += r['disch']
        for k in ('queries', 'unsat', 'sat', 'unknown', 'solver_s'): tot[k] += r['stats'][k]
        for k in ('paths', 'infeasible', 'frontier', 'branches', 'domain'): tot[k] += r[k]
        samples += r['samples'][:2]; incon += [f"{r['name']}: {a}: {b}" for a, b in r['incon']]
        for n in r['notes']:
            x = f"{r['name']}: {n}"
            if x not in notes: notes.append(x)
        if r['err']: incon.append(f"{r['name']}: internal error"); notes.append(f"{r['name']}: internal error: {r['err'][-400:]}")
        per_h.append(dict(harness=r['name'], paths=r['paths'], infeasible=r['infeasible'], frontier=r['frontier'], obligations=r['obl'], discharged=r['disch'], reachability_witnesses=r['witness'], concrete_checks_on_plain_build=r['validated'], symbolic_ops=r['ops'], wall_s=round(r['wall'], 2), solver=r['stats'], covers=r['covers']))
        for v in r['viol']:
            hit = next((k for k in known if k.get('harness', r['name']) == r['name'] and v['label'].startswith(k.get('label', v['label']).replace('~', ' '))), None)
            if hit:
                print(f"KNOWN-FINDING: property={prop} {hit['text']}"); continue
            nviol += 1
            rp = os.path.join(VERIF, '.cache', 'replay', f"{prop}-{r['name']}.json")
            json.dump(dict(property=prop, harness=r['name'], label=v['label'], message=v['msg'], inputs=v['inputs'], how=v['how'], note=v.get('note', ''), seed=seed), open(rp, 'w'), indent=1, default=float)
            print(f"  {r['name']}: {v['label']}: {v['msg']}  [{v['how']}] {v.get('note', '')[:300]}")
            print(f'VIOLATION property={prop} replay={rp}')
    if builderr is not None:
        # the current sources cannot be compiled with the harness: nothing was explored
        print(f'{prop}: could not build the code under test with the harness:\n{builderr[-3000:]}')
        notes.append('build failed: ' + builderr[-1500:])
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking' if False else getattr(mod, 'LEVEL', 'other'),
              coverage=dict(explanation=getattr(mod, 'EXPLANATION', 'symbolic execution of the compiled functions; every obligation is decided by the solver over all real inputs within the stated bounds'),
                            obligations=tot['obligations'], discharged=tot['discharged'], inconclusive=len(incon), paths=tot['paths'], infeasible_paths=tot['infeasible'], unexplored_paths=tot['frontier'],
                            symbolic_branches=tot['branches'], domain_obligations=tot['domain'],
                            solver_queries=tot['queries'], solver_unsat=tot['unsat'], solver_sat=tot['sat'], solver_unknown=tot['unknown'], solver_seconds=round(tot['solver_s'], 2),
                            functions_encoded=funcs, bounds=getattr(mod, 'BOUNDS', ''), sources=list(getattr(mod, 'REPO_SRCS', [])),
                            samples=samples[:12], harnesses=per_h, inconclusive_obligations=incon[:40], notes=notes[:40], build_s=round(tb, 2)),
              assumptions=getattr(mod, 'ASSUMPTIONS', []) + ['IEEE doubles are modelled as real numbers (constants as the simple rationals or multiples of pi they stand for) except where a harness says bit-precise'],
              wall_s=round(time.time()-t0, 2), violations=nviol)
    json.dump(ev, open(evp, 'w'), indent=1, default=float)
    print(f"{prop} [{tier}] obligations {tot['obligations']} discharged {tot['discharged']} inconclusive {len(incon)} paths {tot['paths']} (+{tot['infeasible']} infeasible, {tot['frontier']} unexplored) queries {tot['queries']} solver {tot['solver_s']:.1f}s build {tb:.1f}s wall {time.time()-t0:.1f}s violations {nviol}")
    for x in incon[:12]: print('  inconclusive:', x[:400])
    for x in notes[:8]: print('  note:', x[:600])
    if nviol: return 1
    if builderr is not None or not tot['obligations']: return 2     # nothing was explored: no answer
    return 0
