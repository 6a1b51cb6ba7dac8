"""C25, Python part: after any sequence of operations and any order of dropping references nothing is left: no wrapper,
no C++ object (heap of the process), whatever was linked, registered, looked up, evaluated, optimized or refused."""
import ctypes, gc, sys, weakref
import pymc
from pymc import choose, flip, pick, fail, log, state, step, matched
pymc.parse()
pymc.SHARD_DEPTH = 3
sys.path.insert(0, pymc.ext)
import numpy as np
import scipy.sparse
import factorama as F
gc.collect()
gc.freeze()
QUICK = pymc.tier == 0
A = np.array


class Info(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in 'arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost'.split()]


libc = ctypes.CDLL(None)
libc.mallinfo2.restype = Info


def used():
    gc.collect()
    return libc.mallinfo2().uordblks


def build(kind, refs):
    g = F.FactorGraph()
    V, X = [], []

    def v(x):
        V.append(x); refs.append(weakref.ref(x)); g.add_variable(x); return x

    def f(x):
        X.append(x); refs.append(weakref.ref(x)); g.add_factor(x); return x
    if kind == 0:
        a, b = v(F.Pose2DVariable(1, A([.1, .2, .3]))), v(F.Pose2DVariable(2, A([1., .5, .2])))
        l = v(F.GenericVariable(3, A([3., 2.])))
        f(F.Pose2DPriorFactor(10, a, A([0., 0, 0]), .5, .5)); f(F.Pose2DPriorFactor(11, b, A([1., 0, 0]), .5, .5))
        f(F.RangeBearingFactor2D(12, a, l, 3.0, .5)); f(F.BearingObservationFactor2D(13, b, l, .6))
    elif kind == 1:
        p = v(F.PoseVariable(1, A([.2, .1, -.3, .1, -.2, .3]))); q = v(F.PoseVariable(2, A([1.2, .1, -.3, .1, -.2, .3]))); l = v(F.LandmarkVariable(3, A([.5, 1, 5])))
        for i, w in enumerate((p, q)):
            f(F.PosePositionPriorFactor(10 + i, w, A([float(i), 0, 0]), .5)); f(F.PoseOrientationPriorFactor(20 + i, w, np.eye(3), .5)); f(F.BearingObservationFactor(30 + i, w, l, A([0, .1, 1.]), .5))
    else:
        a, b, m = v(F.LandmarkVariable(1, A([1., 2, 3]))), v(F.LandmarkVariable(2, A([2., 0, 1]))), v(F.GenericVariable(3, A([.5, -1, -2.5])))
        m.set_constant(True)
        f(F.GenericBetweenFactor(10, a, b, m, .5)); f(F.GenericPriorFactor(11, a, A([0., 1, 2]), 1.0)); f(F.GenericPriorFactor(12, b, A([0., 1, 2]), 2.0))
    g.finalize_structure()
    refs.append(weakref.ref(g))
    return g, V, X


def settings(lm, verbose=False):
    s = F.OptimizerSettings()
    s.method = F.OptimizerMethod.LevenbergMarquardt if lm else F.OptimizerMethod.GaussNewton
    s.max_num_iterations = 5
    return s


def refused(f, *a):
    try:
        f(*a)
    except Exception:
        return
    fail('not refused')


def evaluate(w):
    w['kept'] += [w['g'].compute_full_jacobian_matrix(), w['g'].compute_sparse_jacobian_matrix(), w['g'].compute_full_residual_vector()]


def optimize(w, lm=True):
    w['o'].setup(w['g'], settings(lm)); w['o'].optimize()


def lookup(w):
    w['kept'] += [w['g'].get_variable(1), w['g'].get_all_variables(), w['g'].get_all_factors(), [x.variables() for x in w['X']]]


def covariance(w):
    optimize(w); w['o'].prepare_to_estimate_covariances()
    w['kept'] += [w['o'].estimate_covariance(x) for x in w['V']]


def refuse(w):
    x = F.GenericVariable(1, A([1.0])); r = weakref.ref(x)
    refused(w['g'].add_variable, x); del x
    if r():
        gc.collect()
        if r():
            fail('a refused variable is kept')
    x = F.GenericPriorFactor(10, w['V'][0], w['V'][0].value(), 1.0); r = weakref.ref(x)
    refused(w['g'].add_factor, x); del x
    gc.collect()
    if r():
        fail('a refused factor is kept')
    refused(w['g'].add_variable, None); refused(w['o'].setup, None, settings(True))
    refused(w['g'].set_variable_values_from_vector, A([1.0] * 99)) if hasattr(w['g'], 'set_variable_values_from_vector') else None


def clone(w):
    for x in w['V']:
        c = x.clone(); r = weakref.ref(c); del c
        gc.collect()
        if r():
            fail('a clone outlives its last reference')
    w['kept'].append(w['V'][0].clone())


def again(w):
    h = F.FactorGraph(); w['refs'].append(weakref.ref(h))
    for x in w['g'].get_all_variables():
        h.add_variable(x)
    for x in w['g'].get_all_factors():
        h.add_factor(x)
    h.finalize_structure()
    w['o'].setup(h, settings(False)); w['o'].optimize()
    w['kept'].append(h)


def toggle(w):
    x = w['V'][0]
    x.set_constant(True); w['g'].finalize_structure(); evaluate(w); x.set_constant(False); w['g'].finalize_structure()


def stats(w):
    w['kept'] += [w['o'].current_stats, w['o'].initial_stats, w['o'].settings()]


OPS = [evaluate, optimize, lookup, covariance, refuse, clone, again, toggle, stats]
ORDERS = [('g', 'o', 'X', 'V', 'kept'), ('kept', 'V', 'X', 'o', 'g'), ('V', 'X', 'kept', 'g', 'o'), ('o', 'kept', 'g', 'V', 'X'), ('X', 'g', 'V', 'kept', 'o')]


def history(kind, ops, order):
    refs = []
    g, V, X = build(kind, refs)
    o = F.SparseOptimizer(); refs.append(weakref.ref(o))
    w = dict(g=g, V=V, X=X, o=o, kept=[], refs=refs)
    del g, V, X, o
    for op in ops:
        op(w)
    for k in order:
        del w[k]
        gc.collect()
    left = [r() for r in refs if r() is not None]
    if left:
        fail('after %s, dropped in the order %s: %d objects are left, among them a %s' % ([f.__name__ for f in ops], order, len(left), type(left[0]).__name__))
    return len(refs)


def body():
    kind = choose(3, 'scene')
    ops = [OPS[choose(len(OPS), 'operation')] for _ in range(3 if QUICK else 4)]
    order = ORDERS[choose(len(ORDERS), 'order of dropping')]
    log('scene %d: %s; dropped in the order %s' % (kind, [f.__name__ for f in ops], order))
    for _ in range(2):
        n = history(kind, ops, order); matched(n); step(len(ops))
    n, b0 = 6, used()
    for _ in range(n):
        history(kind, ops, order)
    b1 = used()
    if b1 - b0 > 32 * n:      # believed only if it goes on
        for _ in range(5 * n):
            history(kind, ops, order)
        b2 = used()
        if b2 - b1 > 32 * 5 * n:
            fail('after %s: repeating the history takes %d more bytes %d times, then %d more %d times' % ([f.__name__ for f in ops], b1 - b0, n, b2 - b1, 5 * n))
    matched()
    state(kind, [f.__name__ for f in ops])
    pymc.outcome(kind, [f.__name__ for f in ops], order) if hasattr(pymc, 'outcome') else None


pymc.main(body)
