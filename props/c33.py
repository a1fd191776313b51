from symx.runner import *
from props.c18 import choose
HARNESSES = []
REPO_SRCS = ['src/common/time_profiling.cpp']
HARNESS_SRCS = ['prof.cpp']
CXXFLAGS = ['-include', 'symx_clock.h']
FUNCTIONS = ['TimeProfiling::start', 'TimeProfiling::stop', 'TimeProfiling::reset', 'TimeProfiling::total_time', 'TimeProfiling::print']
ASSUMPTIONS = ['the steady clock is replaced in both builds by instants that the harness chooses (any real number of nanoseconds, never decreasing)']
BOUNDS = 'sequences of up to 6 calls of start, stop and reset in any order; 0 to 3.5 microseconds between consecutive calls; instants up to 1 s after the clock\'s zero'
class M:
    """the profiler and what it has to hold"""
    def __init__(s, E):
        s.E = E; s.now = E.real('t0', 0, 1e9); s.k = 0; E.call('tp_now', [s.now]); E.call('tp_new'); s.t1 = None; s.rec = []
    def tick(s):
        d = s.E.real(f'd{s.k}', 0, 3500, gen=lambda r: r.uniform(300, 3400)); s.k += 1; s.now = s.now + d; s.E.call('tp_now', [s.now])
    def start(s): s.tick(); s.E.call('tp_start'); s.t1 = s.now
    def reset(s): s.tick(); s.E.call('tp_reset'); s.t1 = s.now; s.rec = []
    def stop(s, label=-1): s.tick(); s.E.call('tp_stop', label); s.rec.append((label, s.now - s.t1))
    def check(s):
        """whole microseconds are kept: the total is short of the elapsed time by less than one per interval"""
        E = s.E; T = E.call('tp_total', out=1)[0]; D = 0.0
        for _, d in s.rec: D = D + d
        n = len(s.rec); E.check('total never exceeds the elapsed time', T*1000.0 <= D + 1e-3)
        if n: E.check('total within a microsecond per interval', T*1000.0 + 1000.0*n > D - 1e-3)
        else: E.check_eq('empty', T, 0.0)
        return T
    def shown(s):
        """the printed breakdown: labels in order, shares that make up the whole"""
        E = s.E; T = s.check(); n = len(s.rec); o = E.call('tp_print', 8, out=17); E.check('entries', E.ret == n)
        tot = float(T) if not isinstance(T, Sym) else None
        if tot is None: return
        E.check('printed total', abs(o[0] - tot/1000.0) <= 1e-5*(1+tot))
        if E.ret != n: return
        for i, (l, d) in enumerate(s.rec):
            E.check(f'label {i}', int(o[1+2*i]) == l)
            if tot > 0:
                c = o[2+2*i]*tot/100.0; E.check(f'share {i} not above the interval', c*1000.0 <= d + 0.1); E.check(f'share {i} not below the interval', c*1000.0 + 1000.1 > d)
def sequence(E, n):
    m = M(E); m.start()
    for i in range(n):
        k = choose(E, f'op{i}', 3)
        if k == 0: m.start()
        elif k == 1: m.stop(i % 3 - 1)
        else: m.reset()
    m.check(); return m
@harness(max_paths=400, cost=5, maxbr=60)
def any_sequence(E): sequence(E, 3)
@harness(max_paths=400, cost=5, maxbr=60)
def two_intervals(E):
    m = M(E); m.start(); m.stop(0); m.start(); m.stop(1); m.shown()
@harness(max_paths=400, cost=5, maxbr=60)
def same_start(E):
    """a second stop measures from the same start"""
    m = M(E); m.start(); m.stop(0); m.stop(0); m.shown()
@harness(max_paths=400, cost=5, maxbr=60)
def after_reset(E):
    """a reset forgets the intervals and starts a new one"""
    m = M(E); m.start(); m.stop(0); m.reset(); m.check(); m.stop(2); m.shown()
@harness(max_paths=100, cost=2, maxbr=60)
def unlabelled(E):
    m = M(E); m.start(); m.stop(); m.shown()
