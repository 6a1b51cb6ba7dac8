"""C23: every combination of variables, factors and plot options, drawn off-screen and read back."""
import os, sys, warnings
import pymc
from pymc import choose, flip, pick, fail, log, state, step, matched, count
pymc.parse()
pymc.SHARD_DEPTH = 6
sys.path.insert(0, pymc.ext)
os.environ['MPLBACKEND'] = 'Agg'
os.environ['MPLCONFIGDIR'] = os.environ.get('VP_WORK', '/tmp')
warnings.simplefilter('ignore')
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib.patches import Ellipse, FancyArrow
from mpl_toolkits.mplot3d.art3d import Line3DCollection, Poly3DCollection, Line3D
import factorama as F
np.seterr(all='ignore')
QUICK = pymc.tier == 0
A = np.array


def rot(w):
    w = np.asarray(w, float)
    t = np.linalg.norm(w)
    K = np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])
    return np.eye(3) if t < 1e-12 else np.eye(3) + np.sin(t) / t * K + (1 - np.cos(t)) / t ** 2 * (K @ K)


class Scene:
    def __init__(self):
        self.v, self.f, self.expect = {}, [], []
        self.nv, self.nf = 1, 100

    def var(self, name, make):
        v = make(self.nv)
        self.nv += 1
        self.v[name] = v
        return v

    def fac(self, cls, *a):
        f = cls(self.nf, *a)
        self.nf += 1
        self.f.append(f)
        return f


def scene(parts):
    """parts: set of names -> Scene with the lines to be drawn: (kind, from, to) evaluated later"""
    s = Scene()
    if 'P' in parts:
        p = s.var('P', lambda i: F.PoseVariable(i, np.concatenate([[.2, -1.1, .7], [.4, -.3, 1.1]])))
        s.fac(F.PosePositionPriorFactor, p, A([.1, -1, .8]), .2)
        s.fac(F.PoseOrientationPriorFactor, p, rot([.35, -.25, 1.0]), .1)
    if 'Q' in parts:
        q = s.var('Q', lambda i: F.PoseVariable(i, np.concatenate([[2.5, 1.5, -.6], [-.8, .5, .2]])))
        s.fac(F.PosePositionPriorFactor, q, A([2.4, 1.7, -.5]), .5)
        s.fac(F.PoseOrientationPriorFactor, q, rot([-.75, .45, .25]), .3)
    if 'L' in parts:
        l = s.var('L', lambda i: F.LandmarkVariable(i, A([3., 4, 5])))
        s.fac(F.GenericPriorFactor, l, A([3.1, 3.8, 5.2]), .4)
        if 'singular' in parts:
            s.f.pop()
            s.fac(F.BearingObservationFactor, p, l, A([.3, .8, .5]), .05) if 'P' in parts else None
    if 'T' in parts:
        t = s.var('T', lambda i: F.Pose2DVariable(i, A([-1., 2, 2.2])))
        s.fac(F.Pose2DPriorFactor, t, A([-1.1, 2.1, 2.1]), .3, .2)
    if 'U' in parts:
        u = s.var('U', lambda i: F.Pose2DVariable(i, A([1.5, -2, -.9])))
        s.fac(F.Pose2DPriorFactor, u, A([1.4, -2.2, -.8]), .6, .3)
    if 'G' in parts:
        g = s.var('G', lambda i: F.GenericVariable(i, A([4., -3.])))
        s.fac(F.GenericPriorFactor, g, A([4.1, -3.3]), .7)
    if 'more' in parts:      # a second landmark of either kind, seen from the poses there are
        l2 = s.var('M', lambda i: F.LandmarkVariable(i, A([-2., 1.5, 3.5])))
        g2 = s.var('H', lambda i: F.GenericVariable(i, A([-3., -.5])))
        s.fac(F.GenericPriorFactor, l2, A([-2.1, 1.4, 3.2]), .6)
        s.fac(F.GenericPriorFactor, g2, A([-3.2, -.6]), .9)
        if 'Q' in parts:
            s.fac(F.BearingObservationFactor, q, l2, A([-.8, .1, .6]), .15)
        if 'U' in parts:
            s.fac(F.BearingObservationFactor2D, u, g2, -.7, .2)
            s.fac(F.RangeBearingFactor2D, u, g2, 1.75, 2.4, .5, .4)
    if 'bearing' in parts:
        s.fac(F.BearingObservationFactor, p, l, A([.4, .7, .3]), .1)
        if 'Q' in parts:
            s.fac(F.BearingObservationFactor, q, l, A([-.2, .5, .9]), .2)
    if 'projection' in parts:
        s.fac(F.BearingProjectionFactor2D, p, l, A([.6, .5, .4]), .3)
    if 'bearing2' in parts:
        s.fac(F.BearingObservationFactor2D, t, g, .6, .1)
    if 'range2' in parts:
        s.fac(F.RangeBearingFactor2D, u if 'U' in parts else t, g, 2.75, -1.2, .4, .3)
    if 'between3' in parts:
        m = s.var('m3', lambda i: F.GenericVariable(i, A([2., 2, -1])))
        m.set_constant(True)
        s.fac(F.PosePositionBetweenFactor, p, q, m, .3)
    if 'orient3' in parts:
        r = s.var('r3', lambda i: F.RotationVariable(i, rot([.1, .2, .3])))
        r.set_constant(True)
        s.fac(F.PoseOrientationBetweenFactor, q, p, r, .3)
    if 'between2' in parts:
        m = s.var('m2', lambda i: F.GenericVariable(i, A([2., -3, .5])))
        m.set_constant(True)
        s.fac(F.Pose2DBetweenFactor, t, u, m, .3, .2)
    if 'generic' in parts:      # a between constraint between things that are no poses, and variables the plot does not show
        a = s.var('a', lambda i: F.GenericVariable(i, A([1., 2, 3])))
        b = s.var('b', lambda i: F.GenericVariable(i, A([2., 2, 1])))
        c = s.var('c', lambda i: F.GenericVariable(i, A([.5])))
        m = s.var('m', lambda i: F.GenericVariable(i, A([1., 0, -2])))
        m.set_constant(True)
        s.fac(F.GenericPriorFactor, a, A([1., 2, 3]), .5)
        s.fac(F.GenericBetweenFactor, a, b, m, .5)
        s.fac(F.GenericPriorFactor, c, A([1.]), .5)
    if 'others' in parts:
        n = s.var('n', lambda i: F.PlaneVariable(i, A([0., .6, .8]), 2.0))
        n.set_constant(True)
        r = s.var('r', lambda i: F.RotationVariable(i, rot([.2, .1, 0])))
        v = s.var('i', lambda i: F.InverseRangeVariable(i, A([0., 0, 0]), A([0., .6, .8]), 4.0))
        s.fac(F.PlanePriorFactor, n, A([0, .5, .9]), 2.1)
        s.fac(F.RotationPriorFactor, r, rot([.1, 0, 0]), .5)
        s.fac(F.GenericPriorFactor, v, A([.3]), .5)
        if 'P' in parts:
            s.fac(F.InverseRangeBearingFactor, p, v, A([.1, .3, .9]), .2)
        if 'L' in parts:
            s.fac(F.PlaneFactor, l, n, .5)
    for c in ('P', 'Q', 'L', 'T', 'U', 'G'):
        if 'const' + c in parts:
            s.v[c].set_constant(True)
    s.graph = F.FactorGraph()
    for v in s.v.values():
        s.graph.add_variable(v)
    for f in s.f:
        s.graph.add_factor(f)
    s.graph.finalize_structure()
    return s


def pos3(v):
    if v.type() in (F.VariableType.pose, F.VariableType.landmark):
        return v.value().ravel()[:3]
    return np.append(v.value().ravel()[:2], 0.0)


def kind_of(v):
    if v.type() == F.VariableType.pose:
        return '3dpose'
    if v.type() == F.VariableType.landmark:
        return '3dlandmark'
    if v.type() == F.VariableType.pose_2d:
        return '2dpose'
    if v.type() == F.VariableType.generic and v.size() == 2:
        return '2dlandmark'
    return None


def expected_lines(s):
    """[(kind, from, to)] of the measurements and between constraints, from values alone"""
    meas, betw = [], []
    for f in s.f:
        vs = f.variables()
        if isinstance(f, (F.BearingObservationFactor, F.BearingProjectionFactor2D)):
            x = vs[0].value().ravel()
            d = np.linalg.norm(vs[1].value().ravel() - x[:3])
            meas.append(('bearing', x[:3], x[:3] + d * rot(x[3:]).T @ f.bearing_C_obs().ravel()))
        elif isinstance(f, F.BearingObservationFactor2D):
            x = vs[0].value().ravel()
            d = np.linalg.norm(vs[1].value().ravel() - x[:2])
            a = x[2] + f.bearing_angle_obs()
            meas.append(('bearing', np.append(x[:2], 0), np.append(x[:2] + d * A([np.cos(a), np.sin(a)]), 0)))
        elif isinstance(f, F.RangeBearingFactor2D):
            x = vs[0].value().ravel()
            a = x[2] + f.bearing_angle_obs()
            meas.append(('range', np.append(x[:2], 0), np.append(x[:2] + f.range_obs() * A([np.cos(a), np.sin(a)]), 0)))
        elif isinstance(f, (F.PosePositionBetweenFactor, F.PoseOrientationBetweenFactor, F.Pose2DBetweenFactor)):
            betw.append(('between', pos3(vs[0]), pos3(vs[1])))
    return meas, betw


def near(a, b, tol=1e-6):
    return np.asarray(a).shape == np.asarray(b).shape and np.all(np.abs(np.asarray(a) - b) <= tol * (1 + np.abs(b)))


def take(pool, want, what):
    """remove the wanted thing from the pool of drawn ones"""
    for i, x in enumerate(pool):
        if all(near(p, q) for p, q in zip(x, want)) or (len(want) == 2 and near(x[0], want[1]) and near(x[1], want[0])):
            del pool[i]
            matched()
            return
    fail('%s is not drawn at %s; drawn: %s' % (what, [np.round(w, 4).tolist() for w in want], [[np.round(p, 4).tolist() for p in x] for x in pool][:6]))


COLOR = {'bearing': 'orange', 'range': 'purple', 'between': 'magenta'}


def snapshot(s, results):
    g = s.graph
    r = [g.num_variables(), g.num_values(), g.num_residuals()]
    r += [(v.name(), v.value().tobytes(), v.is_constant()) for v in g.get_all_variables()]
    r += [f.name() for f in g.get_all_factors()]
    if results:
        r += [g.jacobian_valid(), g.residual_valid()]
        for m in ('residual', 'jacobian', 'sparse_jacobian'):
            try:
                x = getattr(g, m)()
                x = x.toarray() if hasattr(x, 'toarray') else x
                r.append(x.tobytes())
            except RuntimeError as e:
                r.append(str(e))
    return r


def stats(o):
    out = []
    for st in (o.initial_stats, o.current_stats):
        out += [st.valid, int(st.status), st.chi2, st.delta_norm, st.residual_norm, st.current_iteration, st.rank, st.damping_parameter]
    t = o.settings()
    return out + [int(t.method), t.max_num_iterations, t.step_tolerance, t.residual_tolerance, t.initial_lambda, t.max_lambda, t.lambda_up_factor, t.lambda_down_factor, t.learning_rate, t.verbose, t.check_rank_deficiency]


def covariances(o, vs):
    out = {}
    for v in vs:
        c, ok = o.estimate_covariance(v)
        if ok:
            out[v.id()] = np.asarray(c).copy()
    return out


def check_drawn(ax, s, three, cov, meas, betw, before):
    """before: numbers of artists already on the axis"""
    want_m, want_b = expected_lines(s)
    dim = 3 if three else 2
    # scattered points
    pts = {}
    labelled = True
    for c in ax.collections[before[0]:]:
        if type(c).__name__ in ('PathCollection', 'Path3DCollection'):
            if three:
                P = np.stack([np.asarray(x, float) for x in c._offsets3d], axis=1)
            else:
                P = np.asarray(c.get_offsets(), float)
            t = str(c.get_label()).lower().replace(' ', '')
            for k in ('3dpose', '3dlandmark', '2dpose', '2dlandmark'):
                if t.startswith(k):
                    break
            else:
                k = 'any'
                labelled = False
            pts.setdefault(k if k != 'any' else 'any', []).extend((p,) for p in P)
    if not labelled:
        allp = [p for l in pts.values() for p in l]
        pts = {k: allp for k in ('3dpose', '3dlandmark', '2dpose', '2dlandmark')}
    for n, v in s.v.items():
        k = kind_of(v)
        if k:
            take(pts.setdefault(k, []), (pos3(v)[:dim],), 'variable %s (%s)' % (n, k))
    if any(pts.values()):
        fail('points are drawn where no variable is: %s' % pts)
    # lines
    lines = {}
    for l in ax.lines[before[1]:]:
        D = np.stack([np.asarray(x, float) for x in (l.get_data_3d() if isinstance(l, Line3D) else l.get_data())])
        if D.shape[1] == 0:
            continue
        k = matplotlib.colors.to_hex(l.get_color())
        lines.setdefault(k, []).append((D[:, 0], D[:, -1]))
    for on, want in ((meas, want_m), (betw, want_b)):
        for k, a, b in want:
            pool = lines.setdefault(matplotlib.colors.to_hex(COLOR[k]), [])
            if on:
                take(pool, (a[:dim], b[:dim]), '%s line' % k)
    left = [l for k, p in lines.items() for l in p]
    if left:
        fail('lines are drawn that belong to no requested measurement or constraint: %s' % [[np.round(p, 4).tolist() for p in l] for l in left])
    # orientation of poses
    if three:
        segs = [(np.asarray(x[0]), np.asarray(x[-1])) for c in ax.collections[before[0]:] if isinstance(c, Line3DCollection) for x in c._segments3d]
        for n, v in s.v.items():
            if kind_of(v) == '3dpose':
                x = v.value().ravel()
                R = rot(x[3:])
                for i in range(3):   # camera axes in the world
                    if not any((near(a, x[:3]) and near((b - a) / np.linalg.norm(b - a), R[i], 1e-5)) or (near(b, x[:3]) and near((a - b) / np.linalg.norm(a - b), R[i], 1e-5)) for a, b in segs if np.linalg.norm(b - a) > 1e-9):
                        fail('axis %d of pose %s is not drawn along %s' % (i, n, R[i]))
                    matched()
    else:
        arrows = [p for p in ax.patches[before[2]:] if isinstance(p, FancyArrow)]
        for n, v in s.v.items():
            if kind_of(v) == '2dpose':
                x = v.value().ravel()
                ok = False
                for a in arrows:
                    P = a.get_xy()
                    tip = P[np.argmax(np.linalg.norm(P - x[:2], axis=1))]
                    d = tip - x[:2]
                    ok = ok or (np.min(np.linalg.norm(P - x[:2], axis=1)) < .2 * np.linalg.norm(d) and near(d / np.linalg.norm(d), A([np.cos(x[2]), np.sin(x[2])]), .02))
                matched()
                if not ok:
                    fail('the heading of pose %s is not drawn' % n)
    # covariances
    want = {n: cov[v.id()] for n, v in s.v.items() if kind_of(v) and v.id() in cov and not (three and kind_of(v).startswith('2d'))}
    if three:
        polys = [c for c in ax.collections[before[0]:] if isinstance(c, Poly3DCollection)]
        if len(polys) != len(want):
            fail('%d covariance ellipsoids are drawn, %d expected (%s)' % (len(polys), len(want), sorted(want)))
        for n, C in want.items():
            c0, S = pos3(s.v[n]), C[:3, :3]
            ok = False
            for p in polys:
                X = np.asarray(p._vec)[:3].T - c0
                q = np.einsum('ij,jk,ik->i', X, np.linalg.inv(S), X)
                box = np.sqrt(np.diag(S))
                ok = ok or (np.all(np.abs(q - 1) < 1e-5) and np.all(np.max(np.abs(X), axis=0) > .5 * box))
            matched()
            if not ok:
                fail('the covariance of %s is not drawn as its one-sigma ellipsoid' % n)
    else:
        ells = [p for p in ax.patches[before[2]:] if isinstance(p, Ellipse)]
        if len(ells) != len(want):
            fail('%d covariance ellipses are drawn, %d expected (%s)' % (len(ells), len(want), sorted(want)))
        for n, C in want.items():
            ok = False
            for e in ells:
                a = np.radians(e.angle)
                R = A([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
                S = R @ np.diag([e.width ** 2 / 4, e.height ** 2 / 4]) @ R.T
                ok = ok or (near(A(e.center, dtype=float), pos3(s.v[n])[:2]) and near(S, C[:2, :2], 1e-5))
            matched()
            if not ok:
                fail('the covariance of %s is not drawn as its one-sigma ellipse' % n)
    # in view
    lim = [ax.get_xlim(), ax.get_ylim()] + ([ax.get_zlim()] if three else [])
    for n, v in s.v.items():
        if kind_of(v):
            for i, (a, b) in enumerate(lim):
                w = max(abs(b - a), 1e-9)
                if not min(a, b) - 1e-6 * w <= pos3(v)[i] <= max(a, b) + 1e-6 * w:
                    fail('%s lies outside the drawn range' % n)
            matched()


ATOMS = [('P', ''), ('Q', ''), ('L', ''), ('T', ''), ('U', ''), ('G', ''), ('bearing', 'PL'), ('between3', 'PQ'), ('bearing2', 'TG'), ('range2', 'TG'), ('between2', 'TU')]
EXTRA = [set(), {'generic'}, {'others'}, {'constP', 'constT'}, {'constL', 'constG'}, {'projection', 'orient3'}, {'singular'}, {'more', 'constL', 'constG'}, {'more', 'constQ', 'constU', 'constP'}, {'zeroL', 'zeroG'}, {'zeroP', 'zeroT'}]


def one_plot(s, o, ax, opts, three, prior):
    """prior: the option values; draw, read back, compare"""
    cov_on, meas, betw = prior
    before = (len(ax.collections), len(ax.lines), len(ax.patches)) if ax is not None else (0, 0, 0)
    kw = dict(opts)
    if ax is not None:
        kw['axis_handle'] = ax
    snap, snap_all = snapshot(s, False), snapshot(s, True)
    st = stats(o) if o else None
    was = covariances(o, s.graph.get_all_variables()) if o else {}
    log('PlotFactorGraph(%s)' % ', '.join('%s=%s' % (k, v if isinstance(v, (bool, type(None))) else '...') for k, v in sorted(kw.items())))
    try:
        got = F.PlotFactorGraph(s.graph, **kw)
    except Exception as e:
        fail('plotting raised %s: %s' % (type(e).__name__, str(e)[:200]))
    step()
    if ax is not None and got is not ax:
        fail('the axis returned is not the one passed')
    if snapshot(s, False) != snap:
        fail('plotting changed the graph or its values')
    if not cov_on and snapshot(s, True) != snap_all:
        fail('plotting changed what the graph last computed')
    if o and stats(o) != st:
        fail('plotting changed the optimizer\'s statistics or settings')
    if o:
        now = covariances(o, s.graph.get_all_variables())
        for k in was:
            if k not in now or not near(now[k], was[k]):
                fail('plotting changed the covariance the optimizer reports for variable %d' % k)
    cov = {}
    if cov_on and o and o.ready:
        J = s.graph.compute_full_jacobian_matrix()
        H = J.T @ J
        if H.size and np.linalg.cond(H) < 1e10:
            C = np.linalg.inv(H)
            order = layout(s, J)
            for v in s.graph.get_all_variables():
                if v.id() in order:
                    a = order[v.id()]
                    cov[v.id()] = C[a:a + v.size(), a:a + v.size()]
    check_drawn(got, s, three, cov, meas, betw, before)
    return got


def layout(s, J):
    """first column of each free variable: the columns of the increment that move it"""
    g = s.graph
    n = g.num_values()
    x0 = g.get_variable_vector()
    out = {}
    vs = [v for v in g.get_all_variables() if not v.is_constant()]
    before = {v.id(): v.value().copy() for v in vs}
    for i in range(n):
        x = np.array(x0).ravel().copy()
        x[i] += 1e-3
        g.set_variable_values_from_vector(x)
        for v in vs:
            if np.max(np.abs(v.value() - before[v.id()])) > 1e-4:
                out.setdefault(v.id(), i)
        g.set_variable_values_from_vector(np.array(x0).ravel())
    return out


class Opt:
    """the optimizer, remembering whether it has optimized"""

    def __init__(self, o, ready):
        self.__dict__.update(o=o, ready=ready)

    def __getattr__(self, k):
        return getattr(self.o, k)


def body():
    parts = set()
    extra = choose(len(EXTRA), 'extra')
    if extra and QUICK:     # with extras: a few combinations of the rest
        parts = set(pick([['P', 'L', 'bearing'], ['P', 'Q', 'L', 'between3'], ['T', 'U', 'G', 'bearing2', 'range2', 'between2'], [], [a for a, _ in ATOMS]], 'atoms'))
    else:
        for a, need in ATOMS:
            if all(c in parts for c in need) and flip(a):
                parts.add(a)
    x = set(EXTRA[extra])
    for e in list(x):
        if (e.startswith('const') and e[5:] not in parts) or (e.startswith('zero') and e[4:] not in parts) or (e == 'projection' and not {'P', 'L'} <= parts) or (e == 'orient3' and not {'P', 'Q'} <= parts) or (e == 'singular' and not {'P', 'L'} <= parts):
            x.discard(e)
    if EXTRA[extra] and not x:
        return
    parts |= x
    # which options: each of the four switches, given or left at its default, on a new axis or a given one
    o_state = choose(4, 'optimizer: none, set up, optimized, prepared')
    three = not flip('2D')
    cov_on = flip('covariance')
    if not cov_on and o_state in (1, 2) or extra and o_state == 1 and not QUICK:
        return
    meas = not flip('no measurements')
    if QUICK:
        betw = not flip('no between')
        own = (three + cov_on + meas + betw + len(parts)) % 2 == 0 if extra == 0 else flip('own axis')
    elif extra == 0:
        betw = not flip('no between')
        own = flip('own axis')
    else:
        betw, own = meas, flip('own axis')
    try:
        s = scene(parts)
    except RuntimeError as e:     # more unknowns than residuals, say
        count('not a valid graph')
        return
    o = None
    if o_state:
        o = F.SparseOptimizer()
        st = F.OptimizerSettings()
        st.method = F.OptimizerMethod.LevenbergMarquardt
        st.max_num_iterations = 4
        o.setup(s.graph, st)
        if o_state >= 2:
            o.optimize()
    for n, v in s.v.items():     # estimates that are exactly zero
        if 'zero' + n in parts:
            v.set_value_from_vector(np.zeros(v.size()))
    if o_state:
        if o_state == 3:
            o.prepare_to_estimate_covariances()
        o = Opt(o, o_state >= 2)
    opts = {}
    if cov_on:
        opts['plot_covariance'] = True
    if o:
        opts['optimizer'] = o.o
    if not three:
        opts['plot_3d'] = False
    elif own:
        opts['plot_3d'] = True
    if not meas:
        opts['plot_measurements'] = False
    if not betw:
        opts['plot_between_factors'] = False
    elif own:
        opts['plot_between_factors'] = True
        opts['plot_measurements'] = meas
        opts['plot_covariance'] = cov_on
    log('%s, optimizer %d' % (sorted(parts), o_state))
    try:
        ax = None
        if own:
            fig = plt.figure()
            ax = fig.add_subplot(111, projection='3d') if three else fig.add_subplot(111)
        ax = one_plot(s, o, ax, opts, three, (cov_on, meas, betw))
        if own and extra <= 1 and (not QUICK or extra == 1):     # what changes is what the next plot shows
            for n, v in s.v.items():
                if not v.is_constant() and kind_of(v):
                    v.apply_increment(np.full(v.size(), .25))
            if not cov_on:
                one_plot(s, None, ax, {k: x for k, x in opts.items() if k not in ('optimizer', 'plot_covariance')}, three, (False, meas, betw))
        if extra == 1 or not QUICK and not parts - {'P', 'L', 'T', 'G', 'bearing', 'bearing2'}:
            try:
                ax.figure.canvas.draw()
            except Exception as e:
                fail('the figure cannot be rendered: %s' % e)
        state(sorted(parts), o_state, three, cov_on, meas, betw)
    finally:
        plt.close('all')


pymc.main(body)
