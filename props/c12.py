from symx.runner import *
from symx import fpx
import z3
from props.graphlib import *
REPO_SRCS = GRAPH
HARNESS_SRCS = ['graph.cpp']
FUNCTIONS = ['wrap_angle', 'NodePose2d::update', 'Factor1Pose2d::evaluate_residuals']
BOUNDS = 'bit-precise IEEE doubles: all finite doubles for termination and range, in-range angles unchanged bit for bit; real arithmetic: direction kept for every angle'

@harness(rtimeout=5, time=12)
def wrap(E):
    a = E.real('a', gen=lambda r: r.uniform(-20, 20))
    r = E.call('g_wrap', [a], out=1)[0]
    E.check('at least -pi', r >= -E.pi); E.check('below pi', r < E.pi)
    E.check_angle('direction kept', r, a)
    if isinstance(a, float):
        if -3.141592653589793 <= a < 3.141592653589793: E.check('in range: unchanged', r == a)

@bitprecise(wrap, 'fp_wrap.cpp', time=200, cost=9, rtimeout=5)
def wrap_every_finite_double(ck, ex, rep):
    a = z3.FP('a', fpx.D); pi = fpx.fpv(3.141592653589793)
    fin = z3.Not(z3.Or(z3.fpIsNaN(a), z3.fpIsInf(a)))
    ex.maxsteps = 60; ex.qt = 15000
    lv = ex.run('fp_wrap', [a], [fin])
    ck.obligations(ex, 'result in [-pi, pi)', lv, lambda pc, r, m: z3.And(z3.fpGEQ(r, z3.fpNeg(pi)), z3.fpLT(r, pi)), dict(a=a), rep)
    ck.obligations(ex, 'angles in range unchanged bit for bit', lv, lambda pc, r, m: z3.Implies(z3.And(z3.fpGEQ(a, z3.fpNeg(pi)), z3.fpLT(a, pi)), r == a), dict(a=a), rep)

_big = lambda r: r.choice((-1, 1))*10**r.uniform(16, 250)
@harness(rtimeout=5, time=12, cost=2)
def huge_heading(E):
    """nodes and factors whose headings (states, increments, observations) have any magnitude still answer"""
    G = Graph(E); a = E.real('a', gen=_big); b = E.real('b', gen=_big); x = E.reals('x', 2, -10, 10)
    n = G.node(P2, [x[0], x[1], 0.0])
    G.update(n, [0.0, 0.0, a]); s = G.state(n)
    E.check('node heading in range', And(s[2] >= -E.pi, s[2] < E.pi))
    f = G.factor(F1P2, n, -1, [x[0], x[1], b], E.eye(3)); r = G.res(f)
    E.check('residual heading in range', And(r[2] >= -E.pi, r[2] < E.pi))

@harness(rtimeout=5, time=12, cost=2)
def huge_observed_heading(E):
    G = Graph(E); b = E.real('b', gen=_big); x = E.reals('x', 3, -3, 3); y = E.reals('y', 3, -3, 3)
    n = G.node(P2, x); m = G.node(P2, y); l = G.node(L2, [5.0, 7.0])
    for label, f in (('between', G.factor(F2P2, n, m, [1.0, 2.0, b], E.eye(3))), ('odometry', G.factor(ODOM, n, m, [b, 1.0, 0.5], E.eye(3)))):
        r = G.res(f); E.check(label + ' residual heading in range', And(r[2] >= -E.pi, r[2] < E.pi))
    r = G.res(G.factor(FL2, n, l, [1.0, b], E.eye(2)))
    E.check('bearing residual in range', And(r[1] >= -E.pi, r[1] < E.pi))
