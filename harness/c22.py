"""C22: Python object histories under AddressSanitizer: creating, linking, looking up, evaluating, optimizing and
dropping references in every order, with everything that survives queried after each step."""
import gc, os, sys
import pymc
from pymc import choose, flip, pick, fail, log, state, step, matched
pymc.parse()
pymc.SHARD_DEPTH = 5
sys.path.insert(0, pymc.ext)
import numpy as np
import scipy.sparse
import factorama as F
gc.collect()
gc.freeze()
QUICK = pymc.tier == 0
A = np.array
I3 = np.eye(3)


def report(x):
    """what an object says of itself; calls into whatever it refers to"""
    if isinstance(x, np.ndarray):
        return x.tobytes()
    if isinstance(x, (list, tuple)):
        return tuple(report(y) for y in x)
    if isinstance(x, F.Variable):
        r = [x.name(), x.id(), x.size(), x.value().tobytes(), x.is_constant(), int(x.type())]
        if isinstance(x, F.InverseRangeVariable):
            r += [x.origin_pos_W().tobytes(), x.bearing_W().tobytes()]
        if isinstance(x, F.PlaneVariable):
            r += [x.unit_vector().tobytes()]
        if isinstance(x, F.RotationVariable):
            r += [x.dcm_AB().tobytes(), x.rotation().tobytes()]
        return tuple(r)
    if isinstance(x, F.Factor):
        r = (x.name(), x.id(), x.compute_residual().tobytes(), tuple(report(v) for v in x.variables()))
        return r + tuple(np.asarray(getattr(x, m)()).tobytes() for m in ('bearing_C_obs',) if hasattr(x, m))
    if isinstance(x, F.FactorGraph):
        r = [x.num_variables(), x.num_values(), x.num_residuals()]
        r += [report(v) for v in x.get_all_variables()] + [report(f) for f in x.get_all_factors()]
        for v in x.get_all_variables():
            if x.get_variable(v.id()) is not v:
                fail('get_variable(%d) is not the registered variable' % v.id())
        return tuple(r)
    if isinstance(x, F.OptimizerSettings):
        return (int(x.method), x.max_num_iterations, x.step_tolerance, x.residual_tolerance, x.initial_lambda, x.max_lambda, x.lambda_up_factor, x.lambda_down_factor, x.learning_rate, x.verbose, x.check_rank_deficiency)
    if isinstance(x, F.OptimizerStats):
        return (x.valid, int(x.status), x.chi2, x.delta_norm, x.residual_norm, x.current_iteration, x.rank, x.damping_parameter)
    if isinstance(x, F.SparseOptimizer):
        return (report(x.settings()), report(x.initial_stats), report(x.current_stats))
    return repr(x)


def attempt(f):
    try:
        return f()
    except (RuntimeError, ValueError, TypeError, IndexError) as e:
        return 'raised %s' % type(e).__name__


MAKE = {
    'P': lambda i: F.PoseVariable(i, A([.2, .1, -.3, .1, -.2, .3])), 'Q': lambda i: F.PoseVariable(i, A([1.2, .6, .3, .3, .2, -.1])),
    'L': lambda i: F.LandmarkVariable(i, A([2., 1, 5])), 'M': lambda i: F.LandmarkVariable(i, A([-1., 3, 4])),
    'I': lambda i: F.InverseRangeVariable(i, A([0., .5, 1]), A([.6, 0, .8]), 4.0), 'R': lambda i: F.RotationVariable(i, I3),
    'N': lambda i: F.PlaneVariable(i, A([0., .6, .8]), -2.5), 'T': lambda i: F.Pose2DVariable(i, A([1., -2, .5])), 'U': lambda i: F.Pose2DVariable(i, A([3., .5, -2.5])),
    '1': lambda i: F.GenericVariable(i, A([1.5])), '2': lambda i: F.GenericVariable(i, A([2.5, 3.5])), '3': lambda i: F.GenericVariable(i, A([.5, 1., -2.])),
    '4': lambda i: F.GenericVariable(i, A([3., -1., .25])),
}
# every factor constructor: the variables it takes, and how it is called with them
FAC = [
    ('BearingObservationFactor', 'PL', lambda p, l: F.BearingObservationFactor(10, p, l, A([0, 0, 1.]), .5)),
    ('GenericPriorFactor', '3', lambda v: F.GenericPriorFactor(10, v, A([0., 0, 0]), .5)),
    ('InverseRangeBearingFactor', 'PI', lambda p, i: F.InverseRangeBearingFactor(10, p, i, A([0, 0, 1.]), .5)),
    ('GenericBetweenFactor', '344', lambda a, b, m: F.GenericBetweenFactor(10, a, b, m, .5)),
    ('LinearVelocityFactor', '344', lambda a, b, m: F.LinearVelocityFactor(10, a, b, m, .25, .5, 0)),
    ('PosePositionPriorFactor', 'P', lambda p: F.PosePositionPriorFactor(10, p, A([0., 0, 0]), .5)),
    ('PoseOrientationPriorFactor', 'P', lambda p: F.PoseOrientationPriorFactor(10, p, I3, .5)),
    ('PosePositionBetweenFactor', 'PQ3', lambda p, q, m: F.PosePositionBetweenFactor(10, p, q, m, .5)),
    ('PoseOrientationBetweenFactor', 'PQR', lambda p, q, r: F.PoseOrientationBetweenFactor(10, p, q, r, .5)),
    ('RotationPriorFactor', 'R', lambda r: F.RotationPriorFactor(10, r, I3, .5)),
    ('BearingProjectionFactor2D', 'PL', lambda p, l: F.BearingProjectionFactor2D(10, p, l, A([0, 0, 1.]), .5)),
    ('PlaneFactor', 'LN', lambda l, n: F.PlaneFactor(10, l, n, .5)),
    ('PlaneFactor scaled', 'LN', lambda l, n: F.PlaneFactor(10, l, n, .5, True, 2.0, A([0., 0, 0]))),
    ('PlanePriorFactor', 'N', lambda n: F.PlanePriorFactor(10, n, A([0, 0, 1.]), 1.0)),
    ('BearingObservationFactor2D', 'T2', lambda p, l: F.BearingObservationFactor2D(10, p, l, .5)),
    ('RangeBearingFactor2D', 'T2', lambda p, l: F.RangeBearingFactor2D(10, p, l, 2.0, .5)),
    ('Pose2DPriorFactor', 'T', lambda p: F.Pose2DPriorFactor(10, p, A([0., 0, 0]), .5, .5)),
    ('Pose2DBetweenFactor', 'TU3', lambda p, q, m: F.Pose2DBetweenFactor(10, p, q, m, .5, .5)),
    ('CoordinateTransformFactor', 'R31LM', lambda r, o, s, a, b: F.CoordinateTransformFactor(10, r, o, s, a, b, .5)),
]


class Holder:
    """named references; dropping one is the only way an object can go"""

    def __init__(self):
        self.d = {}

    def check(self, note, before=None):
        now = {}
        for k in sorted(self.d):
            now[k] = report(self.d[k])
            matched()
            if before is not None and k in before and before[k] != now[k]:
                fail('%s: what %s reports changed' % (note, k))
        return now


def drop_all(h, note):
    """drop every reference in every order, with every survivor asked after each"""
    before = h.check(note)
    while h.d:
        k = pick(sorted(h.d), 'drop')
        log('drop %s' % k)
        del h.d[k]
        gc.collect()
        step()
        before = h.check('%s after dropping %s' % (note, k), before)
        state(note, sorted(h.d))


def drive_factor():
    """each factor alone: its variables dropped in every order, what it hands out kept"""
    name, kinds, make = pick(FAC, 'factor')
    h = Holder()
    vs = [MAKE[c](20 + i) for i, c in enumerate(kinds)]
    f = make(*vs)
    for i, v in enumerate(vs):
        h.d['variable %d' % i] = v
    h.d['factor'] = f
    how = choose(4, 'what else is kept')
    if how == 1:
        h.d['handed out'] = f.variables()
    elif how == 2:      # only one of those handed out is kept
        h.d['one handed out'] = f.variables()[choose(len(vs))]
    elif how == 3:
        g = F.FactorGraph()
        g.add_factor(f)
        h.d['graph'] = g
    v = f = g = None
    del vs
    log('%s, kept: %s' % (name, sorted(h.d)))
    if len(h.d) > (5 if QUICK else 7):   # many variables: they go in one of the two extreme orders, then the rest in every order
        ks = sorted(k for k in h.d if k.startswith('variable'))
        if flip('backwards'):
            ks.reverse()
        before = h.check(name)
        for k in ks:
            del h.d[k]
            gc.collect()
            before = h.check('%s after dropping %s' % (name, k), before)
    drop_all(h, name)


def scene(k, h):
    a = F.LandmarkVariable(1, A([1., 2, 3]))
    b = F.LandmarkVariable(2, A([2., 0, 1]))
    m = F.GenericVariable(3, A([.5, -1, -2.5]))
    m.set_constant(True)
    f = F.GenericBetweenFactor(10, a, b, m, .5)
    p = F.GenericPriorFactor(11, a, A([0., 1, 2]), 1.0)
    g = F.FactorGraph()
    for v in (a, b, m):
        g.add_variable(v)
    if k != 4:
        g.add_factor(f)
    g.add_factor(p)
    q = F.GenericPriorFactor(12, b, A([0., 1, 2]), 2.0)
    g.add_factor(q)
    g.finalize_structure()
    s = F.OptimizerSettings()
    o = F.SparseOptimizer()
    if k == 0:
        h.d.update(a=a, b=b, m=m, f=f, p=p, graph=g)
    elif k == 1:
        o.setup(g, s)
        h.d.update(a=a, f=f, graph=g, optimizer=o, settings=s, inner=o.settings())
    elif k == 2:
        o.setup(g, s)
        o.optimize()
        h.d.update(optimizer=o, inner=o.settings(), stats=o.current_stats, stats0=o.initial_stats, graph=g, got=g.get_variable(2))
    elif k == 3:
        h.d.update(graph=g, got=g.get_variable(1), all=g.get_all_variables(), factors=g.get_all_factors(), of_factor=f.variables(), copy=a.clone())
    elif k == 4:     # a factor outside the graph over the graph's variables
        h.d.update(graph=g, f=f, of_factor=f.variables()[1], got=g.get_variable(3), array=a.value(), factor=g.get_all_factors()[0])
    elif k == 5:     # two graphs and two optimizers over the same objects
        g2 = F.FactorGraph()
        for v in (a, b, m):
            g2.add_variable(v)
        for x in (f, p, q):
            g2.add_factor(x)
        g2.finalize_structure()
        o.setup(g, s)
        o.setup(g2, s)
        o2 = F.SparseOptimizer()
        o2.setup(g, s)
        h.d.update(graph=g, graph2=g2, optimizer=o, optimizer2=o2, f=f, one=g2.get_all_variables()[0])
    elif k == 6:     # arrays and matrices
        h.d.update(graph=g, residual=g.compute_full_residual_vector(), jacobian=g.compute_full_jacobian_matrix(), sparse=g.compute_sparse_jacobian_matrix().toarray(),
                   vector=g.get_variable_vector(), f=f)
        g.compute_full_jacobian_and_residual()
        h.d['again'] = (g.residual(), g.jacobian(), g.sparse_jacobian().toarray())
    elif k == 7:     # arrays of variables
        r = F.RotationVariable(5, I3)
        n = F.PlaneVariable(6, A([0, 0, 1.]), 2.0)
        i = F.InverseRangeVariable(7, A([0., 0, 0]), A([0, 0, 1.]), 2.0)
        bf = F.BearingProjectionFactor2D(15, F.PoseVariable(8, A([0., 0, 0, 0, 0, 0])), b, A([0, 0, 1.]))
        h.d.update(r=r, n=n, i=i, bf=bf, arrays=(r.dcm_AB(), r.rotation(), n.unit_vector(), i.origin_pos_W(), i.bearing_W(), bf.bearing_C_obs(), r.value()))
    return (a, b, m, f, p, q, g, o, s)


def drive_drop():
    k = choose(8, 'scene')
    h = Holder()
    scene(k, h)
    log('scene %d: %s' % (k, sorted(h.d)))
    drop_all(h, 'scene %d' % k)


SLOTS = ['a', 'b', 'm', 'f', 'p', 'graph', 'optimizer', 'got', 'list', 'array', 'inner', 'of']


def drive_ops():
    """free histories of operations and drops"""
    h = Holder()
    start = choose(3, 'start')
    if start:
        a, b, m, f, p, q, g, o, s = scene(0, Holder())
        h.d.update(a=a, b=b, m=m, f=f, p=p, graph=g)
        if start == 2:
            o.setup(g, s)
            h.d.update(optimizer=o)
            for k in ('a', 'b', 'm', 'f', 'p'):
                del h.d[k]
        a = b = m = f = p = q = g = o = s = None
    d = h.d
    length = 1 + choose(3 if QUICK else 4, 'length')   # shorter histories are checked on their own: only the last step is, here
    for i in range(length):
        last = i == length - 1
        ops = ['drop ' + k for k in sorted(d)]
        if 'a' not in d:
            ops.append('make variables')
        if 'a' in d and 'b' in d and 'm' in d:
            ops.append('make between')
        if 'a' in d:
            ops.append('make prior')
        ops.append('make graph')
        if 'graph' in d:
            ops += ['add variables', 'add factors', 'finalize', 'look up', 'list variables', 'list factors', 'evaluate', 'setup']
        if 'optimizer' in d:
            ops += ['optimize', 'settings', 'statistics', 'covariances']
        if 'f' in d:
            ops.append('variables of f')
        if 'a' in d:
            ops += ['value', 'clone', 'set a']
        op = pick(ops, 'operation')
        log(op)
        before = h.check('before ' + op) if last else {}
        if op.startswith('drop '):
            del d[op[5:]]
        else:
            changed = True
            if op == 'make variables':
                d['a'], d['b'] = F.LandmarkVariable(21, A([1., 2, 3])), F.LandmarkVariable(22, A([2., 0, 1]))
                d['m'] = F.GenericVariable(23, A([.5, -1, -2.5]))
            elif op == 'make between':
                d['f'] = F.GenericBetweenFactor(30, d['a'], d['b'], d['m'], .5)
            elif op == 'make prior':
                d['p'] = F.GenericPriorFactor(31, d['a'], A([0., 1, 2]), 1.0)
            elif op == 'make graph':
                d['graph'] = F.FactorGraph()
            elif op == 'add variables':
                for k in ('a', 'b', 'm'):
                    if k in d:
                        attempt(lambda: d['graph'].add_variable(d[k]))
            elif op == 'add factors':
                for k in ('f', 'p'):
                    if k in d:
                        attempt(lambda: d['graph'].add_factor(d[k]))
            elif op == 'finalize':
                attempt(lambda: d['graph'].finalize_structure())
            elif op == 'look up':
                vs = d['graph'].get_all_variables()
                d['got'] = d['graph'].get_variable(vs[0].id()) if vs else d['graph'].get_variable(1)
                vs = None
            elif op == 'list variables':
                d['list'] = d['graph'].get_all_variables()
            elif op == 'list factors':
                d['list'] = d['graph'].get_all_factors()
            elif op == 'evaluate':
                d['array'] = [attempt(lambda: d['graph'].compute_full_residual_vector()), attempt(lambda: d['graph'].compute_full_jacobian_matrix()), attempt(lambda: d['graph'].compute_sparse_jacobian_matrix().toarray())]
            elif op == 'setup':
                o = F.SparseOptimizer()
                attempt(lambda: o.setup(d['graph'], F.OptimizerSettings()))
                d['optimizer'] = o
                o = None
            elif op == 'optimize':
                attempt(lambda: d['optimizer'].optimize())
            elif op == 'settings':
                d['inner'] = d['optimizer'].settings()
            elif op == 'statistics':
                d['inner'] = d['optimizer'].current_stats
            elif op == 'covariances':
                attempt(lambda: d['optimizer'].prepare_to_estimate_covariances())
                if 'a' in d:
                    d['array'] = attempt(lambda: d['optimizer'].estimate_covariance(d['a'])[0])
            elif op == 'variables of f':
                d['of'] = d['f'].variables()
            elif op == 'value':
                d['array'] = d['a'].value()
            elif op == 'clone':
                d['got'] = d['a'].clone()
            elif op == 'set a':
                d['a'].set_value_from_vector(A([9., 8, 7]))
        gc.collect()
        step()
        if not last:
            continue
        now = h.check('after ' + op, before if op.startswith('drop ') else None)
        for k in ('array',):   # arrays once obtained keep their numbers, whatever happens afterwards
            if k in before and k in now and op not in ('evaluate', 'covariances', 'value') and before[k] != now[k]:
                fail('after %s: an array obtained earlier changed' % op)
        state(start, sorted(d), [report(d[k])[:3] if k == 'graph' else 0 for k in sorted(d)])
        k = None


def drive_none():
    """a missing object in place of each object an operation requires raises; nothing crashes"""
    what = choose(4)
    if what == 0:
        name, kinds, make = pick(FAC, 'factor')
        vs = [MAKE[c](20 + i) for i, c in enumerate(kinds)]
        i = choose(len(vs), 'missing')
        vs[i] = None
        log('%s without variable %d' % (name, i))
        step()
        matched()
        try:
            f = make(*vs)
        except Exception as e:
            state(name, i, type(e).__name__)
            return
        fail('%s accepted None as variable %d' % (name, i))
    h = Holder()
    a, b, m, f, p, q, g, o, s = scene(0, h)
    fresh = F.SparseOptimizer()
    V = F.LandmarkVariable(99, A([0., 0, 0]))
    if what == 1:
        calls = [('add_variable', lambda: g.add_variable(None)), ('add_factor', lambda: g.add_factor(None)), ('setup graph', lambda: o.setup(None, s)),
                 ('setup settings', lambda: o.setup(g, None)), ('estimate_covariance', lambda: o.estimate_covariance(None)), ('value', lambda: a.set_value_from_vector(None)),
                 ('increment', lambda: a.apply_increment(None)), ('graph values', lambda: g.set_variable_values_from_vector(None)), ('graph increment', lambda: g.apply_increment(None)),
                 ('add a factor as variable', lambda: g.add_variable(f)), ('add a variable as factor', lambda: g.add_factor(a)), ('stats', lambda: setattr(o, 'current_stats', None)),
                 ('estimate_covariance keyword', lambda: o.estimate_covariance(variable=None)), ('look up', lambda: g.get_variable(None)), ('fresh setup', lambda: fresh.setup(None, None)),
                 ('method', lambda: setattr(s, 'method', None)), ('point', lambda: F.PlaneVariable(1, A([0, 0, 1.]), 1.0).distance_from_point(None)),
                 ('prior', lambda: F.GenericPriorFactor(1, a, None)), ('landmark', lambda: F.LandmarkVariable(1, None)), ('generic', lambda: F.GenericVariable(1, None)),
                 ('exp', lambda: F.ExpMapSO3(None)), ('log', lambda: F.LogMapSO3(None))]
        name, c = pick(calls, 'call')
        log('None: ' + name)
        before = h.check(name)
        step()
        matched()
        try:
            c()
        except Exception as e:
            state(name, type(e).__name__)
        else:
            fail('%s accepted None' % name)
        h.check(name, before)
    elif what == 2:   # operations on objects that are not ready: an exception or an answer, not a crash
        empty = F.FactorGraph()
        calls = [lambda: fresh.optimize(), lambda: fresh.prepare_to_estimate_covariances(), lambda: fresh.estimate_covariance(a), lambda: fresh.print_all_covariances(), lambda: report(fresh),
                 lambda: empty.finalize_structure(), lambda: empty.compute_full_residual_vector(), lambda: empty.compute_full_jacobian_matrix(), lambda: empty.compute_sparse_jacobian_matrix(),
                 lambda: empty.residual(), lambda: empty.jacobian(), lambda: empty.sparse_jacobian(), lambda: empty.print_structure(), lambda: empty.print_variables(), lambda: empty.print_jacobian_and_residual(),
                 lambda: empty.print_jacobian_and_residual(True), lambda: empty.detailed_factor_test(1e-3), lambda: empty.get_variable(1), lambda: empty.get_variable_vector(), lambda: fresh.setup(empty, s),
                 lambda: empty.apply_increment(np.ones(3)), lambda: empty.set_variable_values_from_vector(np.ones(3)), lambda: o.estimate_covariance(V), lambda: empty.compute_full_jacobian_and_residual(),
                 lambda: F.Variable(), lambda: F.Factor(), lambda: F.PoseVariable(1), lambda: F.PoseVariable(1, A([1., 2])), lambda: a.set_value_from_vector(np.ones(7)), lambda: a.set_value_from_vector(np.ones((3, 3)))]
        for d in range(2):
            i = choose(len(calls), 'call')
            log('call %d' % i)
            r = attempt(calls[i])
            step()
            state('unready', i, r if isinstance(r, str) else type(r).__name__)
        gc.collect()
        h.check('after calls on unready objects')
    else:             # graphs over objects whose other references are gone, used for everything
        k = choose(8, 'scene')
        h2 = Holder()
        scene(k, h2)
        keep = pick(sorted(h2.d), 'kept')
        for n in list(h2.d):
            if n != keep:
                del h2.d[n]
        gc.collect()
        x = h2.d[keep]
        log('scene %d, only %s kept' % (k, keep))
        h2.check('only %s kept' % keep)
        if isinstance(x, F.SparseOptimizer):
            attempt(x.optimize)
            attempt(x.prepare_to_estimate_covariances)
            attempt(x.print_all_covariances)
        if isinstance(x, F.FactorGraph):
            attempt(x.finalize_structure)
            x.compute_full_residual_vector()
            attempt(x.compute_full_jacobian_matrix)
            attempt(lambda: x.detailed_factor_test(1e-3))
            x.print_structure()
            x.print_variables()
            o2 = F.SparseOptimizer()
            o2.setup(x, F.OptimizerSettings())
            o2.optimize()
            h2.d['o2'] = o2
            del h2.d[keep]
            x = o2 = None
            gc.collect()
        h2.check('after use')
        step()


def arrays(x):
    """the numbers and texts inside x: what was handed out once never changes by itself"""
    if isinstance(x, (np.ndarray, float, int, str, bool)):
        return [np.asarray(x).tobytes() if not isinstance(x, str) else x]
    if isinstance(x, (list, tuple)):
        return [t for y in x for t in arrays(y)]
    if scipy.sparse.issparse(x):
        return [x.toarray().tobytes()]
    return []


def drive_handed_out():
    """everything every object hands out without arguments, kept while the object changes and goes"""
    makers = ['variable ' + k for k in sorted(MAKE)] + ['factor %d' % i for i in range(len(FAC))] + ['graph', 'optimizer', 'settings', 'statistics']
    what = pick(makers, 'object')
    vs = []
    extra = None
    if what.startswith('variable'):
        x = MAKE[what[-1]](3)
        vs = [x]
    elif what.startswith('factor'):
        name, kinds, make = FAC[int(what[7:])]
        vs = [MAKE[c](20 + i) for i, c in enumerate(kinds)]
        x = make(*vs)
    else:
        a, b, m, f, p, q, g, o, s = scene(0, Holder())
        vs = [a, b]
        o.setup(g, s)
        o.optimize()
        o.prepare_to_estimate_covariances()
        g.compute_full_jacobian_and_residual()
        g.compute_sparse_jacobian_matrix()
        x = {'graph': g, 'optimizer': o, 'settings': s, 'statistics': o.current_stats}[what]
        extra = g if what == 'graph' else o if what == 'optimizer' else None
        a = b = m = f = p = q = g = o = s = None
    names = [n for n in dir(x) if not n.startswith('__')]
    n = pick(names, 'attribute')
    change = choose(4, 'change')   # nothing; its variables move; it goes; both, moving first
    try:
        got = getattr(x, n)
        if callable(got):
            got = None
            got = getattr(x, n)()
    except (TypeError, RuntimeError):
        matched()
        return
    log('%s: %s, change %d' % (what, n, change))
    before = arrays(got)
    plain = bool(before)
    keep = report(got) if not scipy.sparse.issparse(got) else None
    step()
    if change & 1:
        for v in vs:
            v.set_constant(False)
            v.apply_increment(np.full(v.size(), .125))
            v.set_value_from_vector(v.value() * 1.5)
            v.set_constant(True)
        if isinstance(extra, F.FactorGraph):
            attempt(lambda: extra.finalize_structure())
            attempt(lambda: extra.compute_full_residual_vector())
            attempt(lambda: extra.compute_full_jacobian_and_residual())
            attempt(lambda: extra.compute_sparse_jacobian_matrix())
        if isinstance(extra, F.SparseOptimizer):
            attempt(lambda: extra.optimize())
    if change & 2:
        x = extra = v = None
        vs.clear()
        gc.collect()
    filler = [np.full(k, 7.25) for k in (1, 2, 3, 4, 6, 9, 12, 16, 36) for _ in range(8)] + [MAKE[c](90) for c in MAKE]
    matched()
    if arrays(got) != before:
        fail('%s: what %s handed out changed (change %d)' % (what, n, change))
    if not change & 1 and keep is not None and report(got) != keep:
        fail('%s: what %s handed out changed when the rest was gone' % (what, n))
    if isinstance(got, (list, tuple)) or isinstance(got, (F.Variable, F.Factor, F.FactorGraph, F.OptimizerSettings, F.OptimizerStats)):
        report(got)
    del filler
    state('handed out', what, n, change, plain)


def body():
    [drive_factor, drive_drop, drive_ops, drive_none, drive_handed_out][choose(5, 'mode')]()


pymc.main(body)
