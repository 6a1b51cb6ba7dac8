"""C21: the Python interface against the C++ library driven directly (c21ref.cpp), call by call, in lock step."""
import os, sys
import pymc
from pymc import choose, flip, pick, fail, log, state, step, matched, count
pymc.parse()
sys.path.insert(0, pymc.ext)
import numpy as np
import factorama as F
import vpref

QUICK = pymc.tier == 0


def rot(w):
    """rotation matrix of a rotation vector (numpy only)"""
    w = np.asarray(w, float)
    t = np.linalg.norm(w)
    K = np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])
    if t < 1e-12:
        return np.eye(3) + K
    return np.eye(3) + np.sin(t) / t * K + (1 - np.cos(t)) / t ** 2 * (K @ K)


A = np.array
# constructor parameters in C++ order: (name, kind, [values per lattice point], optional?)
#   kind: i integer, d double, b bool, v array, variable kinds by a leading '@'
VARS = {
    'PoseVariable': [[('id', 'i', [3, -7, 0]), ('pose_CW_init', 'v', [A([1, 2, 3, .1, -.2, .3]), A([-4., .5, 6, 1.5, 1., -2.]), A([0., 0, 0, 0, 0, 0])])],
                     [('id', 'i', [3, -7, 0]), ('pos_W', 'v', [A([1., 2, 3]), A([-4., .5, 6]), A([7, 8, 9])]), ('dcm_CW', 'v', [rot([.1, -.2, .3]), rot([1.5, 1, -2]), np.eye(3)])]],
    'LandmarkVariable': [[('id', 'i', [4, -1, 2147483647]), ('pos_W_init', 'v', [A([1.5, -2, 7]), A([0., 0, 1e6]), A([2, 3, 4])])]],
    'GenericVariable': [[('id', 'i', [5, -2, 0]), ('initial_value', 'v', [A([1.5, -2.]), A([3.]), A([1, 2, 3, 4, 5, 6])])]],
    'RotationVariable': [[('id', 'i', [6, -3, 1]), ('dcm_AB', 'v', [rot([.3, .2, -.1]), rot([2, -1, .5]), np.eye(3)])]],
    'InverseRangeVariable': [[('id', 'i', [7, -4, 2]), ('origin_pos_W', 'v', [A([1., 2, 3]), A([-1., 0, 4]), A([3, 2, 1])]),
                              ('bearing_W', 'v', [A([.6, 0, .8]), A([1., 2, -2]), A([0, 1, 0])]), ('initial_range', 'd', [4.1, .27, 11.3])]],
    'PlaneVariable': [[('id', 'i', [8, -5, 3]), ('normal_vector', 'v', [A([0., .6, .8]), A([1., 2, 3]), A([0, 0, 2])]), ('distance', 'd', [-2.6, .77, 0.0])]],
    'Pose2DVariable': [[('id', 'i', [9, -6, 4]), ('pose_2d', 'v', [A([1., -2, .5]), A([.25, 3, -3.0]), A([1, 2, 3])])]],
}
OBS = {
    'Variable': ['id', 'size', 'value', 'type', 'name', 'is_constant'],
    'PoseVariable': ['pos_W', 'rot_CW', 'dcm_CW'], 'LandmarkVariable': ['pos_W'], 'GenericVariable': [], 'RotationVariable': ['dcm_AB', 'rotation'],
    'InverseRangeVariable': ['pos_W', 'origin_pos_W', 'bearing_W', 'inverse_range'], 'PlaneVariable': ['unit_vector', 'distance_from_origin'],
    'Pose2DVariable': ['pos_2d', 'theta', 'dcm_2d'],
}
# what a factor argument may be: constructors of the variables used
POINT = [('LandmarkVariable', [A([2., 1, 5])]), ('PoseVariable', [A([.5, 2, 3, .1, .2, .3])])]
FACS = {
    'BearingObservationFactor': [[('id', 'i', [11, -11]), ('pose_var', '@PoseVariable'), ('landmark_var', '@LandmarkVariable'), ('bearing_C_observed', 'v', [A([.1, .2, .9]), A([1., -2, 3])]), ('angle_sigma', 'd', [.27, 3.1], 1)]],
    'GenericPriorFactor': [[('id', 'i', [12, -12]), ('variable', '@G3'), ('prior_value', 'v', [A([.5, 1.5, 2.5]), A([-1, 2, -3])]), ('sigma', 'd', [.27, 3.1], 1)]],
    'InverseRangeBearingFactor': [[('id', 'i', [13, -13]), ('pose_var', '@PoseVariable'), ('inverse_range_var', '@InverseRangeVariable'), ('bearing_C_observed', 'v', [A([.1, .2, .9]), A([1., -2, 3])]), ('angle_sigma', 'd', [.27, 3.1], 1)]],
    'GenericBetweenFactor': [[('id', 'i', [14, -14]), ('var_a', '@G3'), ('var_b', '@G3b'), ('measured_diff', '@G3c'), ('sigma', 'd', [.27, 3.1], 1)]],
    'LinearVelocityFactor': [[('id', 'i', [15, -15]), ('var_1', '@G3'), ('var_2', '@G3b'), ('velocity_variable', '@G2'), ('dt', 'd', [.53, -2.1]), ('sigma', 'd', [.27, 3.1], 1), ('initial_index', 'i', [1, 0], 1)],
                             [('id', 'i', [15, -15]), ('var_1', '@G3'), ('var_2', '@G3b'), ('velocity_variable', '@G3c'), ('dt', 'd', [.53, -2.1]), ('sigma', 'd', [.27, 3.1], 1), ('initial_index', 'i', [0, 0], 1)]],
    'PosePositionPriorFactor': [[('id', 'i', [16, -16]), ('pose', '@PoseVariable'), ('pos_prior', 'v', [A([.5, 1.5, 2.5]), A([-1, 2, -3])]), ('sigma', 'd', [.27, 3.1], 1)]],
    'PoseOrientationPriorFactor': [[('id', 'i', [17, -17]), ('pose', '@PoseVariable'), (None, 'v', [rot([.5, .2, -.4]), rot([-1, 1, .3])]), ('sigma', 'd', [.27, 3.1], 1)]],
    'PosePositionBetweenFactor': [[('id', 'i', [18, -18]), ('pose_a', '@PoseVariable'), ('pose_b', '@PoseVariable2'), ('measured_diff', '@G3'), ('sigma', 'd', [.27, 3.1], 1), ('local_frame', 'b', [True, False], 1)]],
    'PoseOrientationBetweenFactor': [[('id', 'i', [19, -19]), ('pose1', '@PoseVariable'), ('pose2', '@PoseVariable2'), ('calibration_rotation_12', '@RotationVariable'), ('angle_sigma', 'd', [.27, 3.1], 1)]],
    'RotationPriorFactor': [[('id', 'i', [20, -20]), ('rotation', '@RotationVariable'), ('dcm_AB_prior', 'v', [rot([.5, .2, -.4]), rot([-1, 1, .3])]), ('sigma', 'd', [.27, 3.1], 1)]],
    'BearingProjectionFactor2D': [[('id', 'i', [21, -21]), ('pose', '@PoseVariable'), ('landmark', '@LandmarkVariable'), ('bearing_C_observed', 'v', [A([.1, .2, .9]), A([1., -2, 3])]), ('sigma', 'd', [.27, 3.1], 1), ('along_tolerance_epsilon', 'd', [1e-3, 10.0], 1)]],
    'PlaneFactor': [[('id', 'i', [22, -22]), ('point_var', '@LandmarkVariable'), ('plane_var', '@PlaneVariable'), ('sigma', 'd', [.27, 3.1], 1)],
                    [('id', 'i', [22, -22]), ('point_var', '@LandmarkVariable'), ('plane_var', '@PlaneVariable'), ('sigma', 'd', [.27, 3.1]), ('do_distance_scaling', 'b', [True, False]), ('dist_scaling_r0', 'd', [1.7, 40.1]), ('dist_scaling_p0', 'v', [A([.5, -1, 2]), A([3, 4, 5])])]],
    'PlanePriorFactor': [[('id', 'i', [23, -23]), ('plane', '@PlaneVariable'), ('normal_prior', 'v', [A([.1, .6, .9]), A([1., -2, 3])]), ('distance_prior', 'd', [.77, -4.1]), ('normal_sigma', 'd', [.27, 3.1], 1), ('distance_sigma', 'd', [.13, 7.3], 1)]],
    'BearingObservationFactor2D': [[('id', 'i', [24, -24]), ('pose_var', '@Pose2DVariable'), ('landmark_var', '@G2'), ('bearing_angle_obs', 'd', [.57, -3.1]), ('angle_sigma', 'd', [.27, 3.1], 1)]],
    'RangeBearingFactor2D': [[('id', 'i', [25, -25]), ('pose_var', '@Pose2DVariable'), ('landmark_var', '@G2'), ('range_obs', 'd', [2.6, 7.1]), ('bearing_angle_obs', 'd', [.57, -3.1]), ('range_sigma', 'd', [.27, 3.1], 1), ('bearing_sigma', 'd', [.13, 7.3], 1)]],
    'Pose2DPriorFactor': [[('id', 'i', [26, -26]), ('pose_var', '@Pose2DVariable'), ('pose_prior', 'v', [A([.5, 1.5, 2.5]), A([-1, 2, -3])]), ('position_sigma', 'd', [.27, 3.1]), ('angle_sigma', 'd', [.13, 7.3])]],
    'Pose2DBetweenFactor': [[('id', 'i', [27, -27]), ('pose_a', '@Pose2DVariable'), ('pose_b', '@Pose2DVariable2'), ('measured_between_variable', '@G3'), ('position_sigma', 'd', [.27, 3.1]), ('angle_sigma', 'd', [.13, 7.3]), ('local_frame', 'b', [True, False], 1)]],
    'CoordinateTransformFactor': [[('id', 'i', [28, -28]), ('rot_AB', '@RotationVariable'), ('B_origin_A', '@G3'), ('scale_AB', '@G1'), ('lm_A', '@LandmarkVariable'), ('lm_B', '@LandmarkVariable2'), ('sigma', 'd', [.27, 3.1], 1)]],
}
FOBS = {'BearingObservationFactor': ['bearing_C_obs'], 'InverseRangeBearingFactor': ['bearing_C_obs'], 'BearingProjectionFactor2D': ['bearing_C_obs'],
        'BearingObservationFactor2D': ['bearing_angle_obs'], 'RangeBearingFactor2D': ['range_obs', 'bearing_angle_obs'], 'CoordinateTransformFactor': ['weight']}
MAKE = {   # what '@kind' stands for: class, constructor arguments after the identifier at two states
    'PoseVariable': ('PoseVariable', [A([1, 2, 3, .1, -.2, .3])]), 'PoseVariable2': ('PoseVariable', [A([-1., .5, 2, .4, .6, -.3])]),
    'LandmarkVariable': ('LandmarkVariable', [A([2., 1, 5])]), 'LandmarkVariable2': ('LandmarkVariable', [A([-1., 3, 4])]),
    'InverseRangeVariable': ('InverseRangeVariable', [A([0., .5, 1]), A([.6, 0, .8]), 4.0]), 'RotationVariable': ('RotationVariable', [rot([.3, .2, -.1])]),
    'PlaneVariable': ('PlaneVariable', [A([0., .6, .8]), -2.5]), 'Pose2DVariable': ('Pose2DVariable', [A([1., -2, .5])]), 'Pose2DVariable2': ('Pose2DVariable', [A([3., .5, -2.5])]),
    'G1': ('GenericVariable', [A([1.5])]), 'G2': ('GenericVariable', [A([2.5, 3.5])]), 'G3': ('GenericVariable', [A([.5, 1., -2.])]),
    'G3b': ('GenericVariable', [A([3., -1., .25])]), 'G3c': ('GenericVariable', [A([.75, -.5, 1.25])]),
}


def plain(x):
    """what Python returned, as plain numbers"""
    if hasattr(x, 'toarray'):
        return np.asarray(x.toarray())
    if isinstance(x, tuple):
        return tuple(plain(y) for y in x)
    if type(x) in (F.VariableType, F.FactorType, F.OptimizerMethod, F.OptimizerStatus):
        return int(x)
    return x


def equal(p, r):
    if isinstance(r, (list, tuple)) and not isinstance(p, np.ndarray):
        return type(p) in (list, tuple) and len(p) == len(r) and all(equal(a, b) for a, b in zip(p, r))
    if r is None or isinstance(r, (str, bool)):
        return type(p) == type(r) and p == r
    a, b = np.asarray(p), np.asarray(r)
    if a.dtype == object or b.dtype == object:
        return False
    if a.shape != b.shape:
        if a.size != b.size or (a.size and np.squeeze(a).shape != np.squeeze(b).shape):
            return False
        a, b = np.squeeze(a), np.squeeze(b)
    return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-9 * (1 + np.abs(b)))))


def attempt(f):
    try:
        return None, f()
    except Exception as e:
        return e, None


def same(what, fp, fr, conv=plain):
    """the same call in Python and in C++: the same answer or the same complaint"""
    ep, p = attempt(fp)
    er, r = attempt(fr)
    step()
    matched()
    if (ep is None) != (er is None):
        fail('%s: Python %s, C++ %s' % (what, 'raised %s: %s' % (type(ep).__name__, str(ep)[:150]) if ep else 'returned %s' % short(p), 'raised %s' % er if er else 'returned %s' % short(r)))
    if ep is not None:
        if str(ep) != str(er):
            fail('%s: Python raised "%s", C++ "%s"' % (what, str(ep)[:200], str(er)[:200]))
        return None
    if r is None and p is None:
        return None
    p = conv(p)
    if not equal(p, r):
        fail('%s: Python gives %s, C++ %s' % (what, short(p), short(r)))
    return r


def short(x):
    return repr(x).replace('\n', ' ')[:220]


STYLES = ['c', 'list', 'strided', 'f32', 'readonly']


def arr(x, style):
    """-> (what is passed to Python, the number it stands for)"""
    x = np.asarray(x)
    if x.dtype.kind in 'iu':
        return (x.tolist() if style == 'list' else x), x.astype(float)
    if style == 'list':
        return x.tolist(), x
    if style == 'strided':
        if x.ndim == 1:
            b = np.full(2 * len(x), 99.0)
            b[::2] = x
            return b[::2], x
        return np.asfortranarray(x), x
    if style == 'f32':
        y = x.astype(np.float32)
        return y, y.astype(float)
    if style == 'readonly':
        y = x.copy()
        y.setflags(write=False)
        return y, y
    return x.copy(), x


class Both:
    """a Python object and its C++ counterpart"""

    def __init__(self, py, ref, kind):
        self.py, self.ref, self.kind = py, ref, kind


def call(cls, names, vals, npos, rev):
    """cls(*positional, **keywords) with the first npos arguments positional, keywords in order or reversed"""
    kw = list(zip(names, vals))[npos:]
    if any(n is None for n, _ in kw):
        kw = [(n, v) for n, v in kw if n is not None]
    if rev:
        kw = kw[::-1]
    return cls(*vals[:npos], **dict(kw))


def make_var(w, kind, args, id_):
    a = [id_] + args
    py = getattr(F, kind)(*a)
    return Both(py, w.make_var(kind, [id_] + [np.asarray(x, float) if not np.isscalar(x) else x for x in args]), kind)


def observe_var(w, v, note):
    for m in OBS['Variable'] + OBS[v.kind]:
        same('%s %s.%s()' % (note, v.kind, m), lambda: getattr(v.py, m)(), lambda: w.vcall(v.ref, m, []))
    if v.kind == 'InverseRangeVariable':
        for m in ('minimum_inverse_range', 'maximum_inverse_range'):
            same('%s %s.%s' % (note, v.kind, m), lambda: getattr(v.py, m), lambda: w.vcall(v.ref, m, []))
    if v.kind == 'PlaneVariable':
        for p in (A([1., 2, 3]), A([-3., .5, 0])):
            same('%s distance_from_point' % note, lambda: v.py.distance_from_point(p), lambda: w.vcall(v.ref, 'distance_from_point', [p]))
    val = np.asarray(v.py.value()).ravel()
    state(v.kind, v.py.is_constant(), [round(float(x), 9) for x in val])


DX = {1: A([.3]), 2: A([.3, -.4]), 3: A([.3, -.4, .5]), 4: A([.3, -.4, .5, .6]), 6: A([.3, -.4, .5, .6, -.7, .8])}


def var_op(w, v, k, note):
    n = int(v.py.size())
    dx = DX[n]
    if k == 0:
        x = dx * 2 + 1
        same(note + ' set_value_from_vector', lambda: v.py.set_value_from_vector(x), lambda: w.vcall(v.ref, 'set_value_from_vector', [x]))
    elif k == 1:
        same(note + ' apply_increment', lambda: v.py.apply_increment(dx), lambda: w.vcall(v.ref, 'apply_increment', [dx]))
    elif k == 2:
        c = not v.py.is_constant()
        same(note + ' set_constant', lambda: v.py.set_constant(c), lambda: w.vcall(v.ref, 'set_constant', [c]))
    elif k == 3:
        pc = v.py.clone()
        rc = w.vcall(v.ref, 'clone', [])
        old = Both(v.py, v.ref, v.kind)
        if type(pc) is not type(v.py):
            fail('%s.clone() is a %s in Python' % (v.kind, type(pc).__name__))
        v.py, v.ref = pc, rc
        return old
    elif k == 4:
        x = np.ones(n + 1)
        same(note + ' set_value_from_vector of a wrong size', lambda: v.py.set_value_from_vector(x), lambda: w.vcall(v.ref, 'set_value_from_vector', [x]))
        same(note + ' apply_increment of a wrong size', lambda: v.py.apply_increment(x), lambda: w.vcall(v.ref, 'apply_increment', [x]))
    elif k == 5:
        if v.kind == 'Pose2DVariable':
            same(note + ' set_pos_2d', lambda: v.py.set_pos_2d(A([8., -9])), lambda: w.vcall(v.ref, 'set_pos_2d', [A([8., -9])]))
            observe_var(w, v, note)
            same(note + ' set_theta', lambda: v.py.set_theta(4.1), lambda: w.vcall(v.ref, 'set_theta', [4.1]))
        elif v.kind == 'InverseRangeVariable':
            v.py.minimum_inverse_range, v.py.maximum_inverse_range = .125, .5
            w.vcall(v.ref, 'minimum_inverse_range', [.125])
            w.vcall(v.ref, 'maximum_inverse_range', [.5])
    return None


def drive_var():
    w = vpref.World()
    kind = pick(sorted(VARS))
    params = pick(VARS[kind])
    k = choose(3, 'values')
    style = pick(STYLES, 'array')
    npos = choose(len(params) + 1, 'positional')
    rev = npos < len(params) - 1 and flip('reversed')
    pv, rv = [], []
    for p in params:
        x = p[2][k]
        if p[1] == 'v':
            a, b = arr(x, style)
            pv.append(a)
            rv.append(np.asarray(b, float))
        else:
            pv.append(x)
            rv.append(x)
    note = '%s(%s; %d positional%s, %s)' % (kind, ', '.join('%s=%s' % (p[0], short(x)) for p, x in zip(params, pv)), npos, ', keywords reversed' if rev else '', style)
    log(note)
    e, py = attempt(lambda: call(getattr(F, kind), [p[0] for p in params], pv, npos, rev))
    if e:
        fail('%s raised %s: %s' % (note, type(e).__name__, str(e)[:200]))
    v = Both(py, w.make_var(kind, rv), kind)
    observe_var(w, v, note)
    if style != 'c' or rev or npos != len(params):
        return
    olds = []
    for d in range(3 if QUICK else 4):
        k = choose(6, 'operation')
        log('operation %d' % k)
        old = var_op(w, v, k, note)
        if old:
            olds.append(old)
        observe_var(w, v, note)
        for o in olds:
            observe_var(w, o, note + ' (cloned before)')


def move(w, v, s=1.0):
    dx = DX[int(v.py.size())] * s
    v.py.apply_increment(dx)
    w.vcall(v.ref, 'apply_increment', [dx])


def observe_fac(w, f, vs, note):
    for m in ['id', 'residual_size', 'compute_residual', 'name', 'type'] + FOBS.get(f.kind, []):
        same('%s %s.%s()' % (note, f.kind, m), lambda: getattr(f.py, m)(), lambda: w.fcall(f.ref, m))
    got = f.py.variables()
    want = w.fcall(f.ref, 'variables')
    ids = [v.ref for g in got for v in vs if v.py is g]
    matched()
    if ids != want:
        fail('%s %s.variables() are %s, expected the objects %s' % (note, f.kind, [type(g).__name__ + str(g.id()) for g in got], [vs[i].py.name() for i in range(len(vs)) if vs[i].ref in want]))


def drive_fac():
    w = vpref.World()
    kind = pick(sorted(FACS))
    params = pick(FACS[kind])
    req = len([p for p in params if len(p) < 4 or not p[3]])
    given = req + choose(len(params) - req + 1, 'optional arguments')
    k = choose(2, 'values')
    style = pick(STYLES, 'array')
    npos = choose(given + 1, 'positional')
    if any(p[0] is None for p in params):   # no documented common name for this parameter: pass it by position
        npos = max(npos, 1 + max(i for i, p in enumerate(params) if p[0] is None))
    rev = npos < given - 1 and flip('reversed')
    vs, pv, rv = [], [], []
    for i, p in enumerate(params[:given]):
        if p[1][0] == '@':
            cls, args = MAKE[p[1][1:]]
            v = make_var(w, cls, args, 40 + i)
            vs.append(v)
            pv.append(v.py)
            rv.append(v.ref)
        elif p[1] == 'v':
            a, b = arr(p[2][k], style)
            pv.append(a)
            rv.append(np.asarray(b, float))
        else:
            pv.append(p[2][k])
            rv.append(p[2][k])
    note = '%s(%s; %d positional%s, %s)' % (kind, ', '.join('%s=%s' % (p[0], short(x) if p[1][0] != '@' else p[1]) for p, x in zip(params, pv)), npos, ', keywords reversed' if rev else '', style)
    log(note)
    e, py = attempt(lambda: call(getattr(F, kind), [p[0] for p in params], pv, npos, rev))
    if e:
        fail('%s raised %s: %s' % (note, type(e).__name__, str(e)[:200]))
    f = Both(py, w.make_fac(kind, rv), kind)
    observe_fac(w, f, vs, note)
    for i, v in enumerate(vs):   # every variable really is the one it was passed for
        move(w, v, .5 + .25 * i)
        observe_fac(w, f, vs, note + ' after moving variable %d' % i)
    if style != 'c' or npos < given:
        return
    # an incompatible object in place of each variable is refused
    stranger = F.OptimizerSettings()
    for i, p in enumerate(params[:given]):
        if p[1][0] == '@':
            a = list(pv)
            a[i] = stranger
            e, _ = attempt(lambda: getattr(F, kind)(*a))
            matched()
            if not e:
                fail('%s accepted an OptimizerSettings as %s' % (note, p[0]))
    # in a graph, with each pattern of constants
    mask = choose(1 << len(vs), 'constants')
    for i, v in enumerate(vs):
        c = bool(mask >> i & 1)
        v.py.set_constant(c)
        w.vcall(v.ref, 'set_constant', [c])
    g = Both(F.FactorGraph(), w.make_graph(), 'FactorGraph')
    for v in vs:
        gsame(w, g, 'add_variable', note, [v])
    gsame(w, g, 'add_factor', note, [f])
    gsame(w, g, 'finalize_structure', note)
    for m in ('compute_full_residual_vector', 'compute_full_jacobian_matrix', 'compute_sparse_jacobian_matrix', 'compute_full_jacobian_and_residual', 'jacobian', 'sparse_jacobian', 'residual'):
        gsame(w, g, m, note)
    if kind != 'PlaneFactor' and flip('test'):
        gsame(w, g, 'detailed_factor_test', note, [], [1e-3])
        gsame(w, g, 'detailed_factor_test', note, [], [1e-14, False])


def gsame(w, g, m, note, objs=(), nums=(), conv=plain):
    return same('%s graph.%s' % (note, m), lambda: getattr(g.py, m)(*([o.py for o in objs] + list(nums))), lambda: w.gcall(g.ref, m, [o.ref for o in objs] + list(nums)), conv)


# Values that change when a field or a converter is narrower than it should be: not single-precision numbers, beyond its range, and counts past 16 and 32 bits where the type has them.
SET = dict(method=None, max_num_iterations=[0, 70000, 5000000000], step_tolerance=[0.1, 1e-300], residual_tolerance=[1 / 3, 1e-4], initial_lambda=[2.7, 1e-9], max_lambda=[1e300, 16777217.0],
           lambda_up_factor=[2.7, 1e40], lambda_down_factor=[.3, .25], learning_rate=[.7, 1e-50], verbose=[True, False], check_rank_deficiency=[True, False])
STAT = dict(valid=[True, False], status=None, chi2=[1.1, -1e300], delta_norm=[2.3, 1e-300], residual_norm=[16777217.0, 1e300], current_iteration=[70000, -1], rank=[70001, 0], damping_parameter=[.7, 1e-60])


def fields_same(note, obj, table, read):
    for n in table:
        same('%s %s' % (note, n), lambda: getattr(obj, n), lambda: read(n))


def drive_fields():
    """every field of settings and statistics, through every way of reaching it"""
    w = vpref.World()
    where = choose(4, 'settings, optimizer settings, initial statistics, current statistics')
    r = w.make_settings()
    s = F.OptimizerSettings()
    fields_same('OptimizerSettings()', s, SET, lambda n: w.scall(r, n, []))
    o = Both(F.SparseOptimizer(), w.make_opt(), '')
    fields_same('initial_stats', o.py.initial_stats, STAT, lambda n: w.ocall(o.ref, 'initial_stats.' + n, []))
    fields_same('current_stats', o.py.current_stats, STAT, lambda n: w.ocall(o.ref, 'current_stats.' + n, []))
    fields_same('OptimizerStats()', F.OptimizerStats(), STAT, lambda n: w.ocall(o.ref, 'current_stats.' + n, []))
    table = SET if where < 2 else STAT
    names = sorted(table)
    vals = dict(table, method=[F.OptimizerMethod.LevenbergMarquardt, F.OptimizerMethod.GaussNewton])
    vals['status'] = [F.OptimizerStatus.DIVERGED, F.OptimizerStatus.SINGULAR_HESSIAN, F.OptimizerStatus.SUCCESS, F.OptimizerStatus.RUNNING, F.OptimizerStatus.ILL_CONDITIONED, F.OptimizerStatus.FAILED]
    if where == 1:
        g = build(w, 0)
        o.py.setup(g.py, s)
        w.ocall(o.ref, 'setup', [g.ref, r])
    get = [lambda: s, lambda: o.py.settings(), lambda: o.py.initial_stats, lambda: o.py.current_stats][where]
    wr = [lambda n, a: w.scall(r, n, a), lambda n, a: w.ocall(o.ref, 'settings.' + n, a), lambda n, a: w.ocall(o.ref, 'initial_stats.' + n, a), lambda n, a: w.ocall(o.ref, 'current_stats.' + n, a)][where]
    for d in range(2 if QUICK else 3):
        n = pick(names, 'field')
        x = pick(vals[n], 'value')
        log('%d: %s = %s' % (where, n, x))
        setattr(get(), n, x)
        wr(n, [int(x) if n in ('method', 'status') else x])
        if getattr(get(), n) != x:
            fail('%s = %s reads back %s' % (n, x, getattr(get(), n)))
        fields_same('after setting %s' % n, get(), table, lambda m: wr(m, []))
        state(where, [str(getattr(get(), m)) for m in names])
    if where == 0 and flip('setup'):   # the optimizer takes every field over
        g = build(w, 0)
        o.py.setup(g.py, s)
        w.ocall(o.ref, 'setup', [g.ref, r])
        fields_same('settings()', o.py.settings(), SET, lambda n: w.ocall(o.ref, 'settings.' + n, []))
    if where == 2 or where == 3:
        other = o.py.current_stats if where == 2 else o.py.initial_stats
        fields_same('the other statistics', other, STAT, lambda n: w.ocall(o.ref, ('current_stats.' if where == 2 else 'initial_stats.') + n, []))


def drive_enums():
    e = pick(['VariableType', 'FactorType', 'OptimizerMethod', 'OptimizerStatus'])
    cls = getattr(F, e)
    want = dict(vpref.enums[e])
    if e == 'VariableType':
        want = dict(vpref.variable_types)
    if e == 'FactorType':
        want = dict(vpref.factor_types)
    names = sorted(set(want) | set(cls.__members__))
    n = pick(names)
    log('%s.%s' % (e, n))
    matched()
    if n not in want:
        fail('%s.%s exists in Python only' % (e, n))
    if n not in cls.__members__:
        fail('%s.%s is missing in Python' % (e, n))
    if int(cls.__members__[n]) != want[n]:
        fail('%s.%s is %d in Python, %d in C++' % (e, n, int(cls.__members__[n]), want[n]))
    if getattr(cls, n) != cls(want[n]) or cls(want[n]).name != n:
        fail('%s(%d) is %s, expected %s' % (e, want[n], cls(want[n]), n))
    state(e, n)


def drive_functions():
    what = choose(2)
    a = pick([0.0, 1e-9, 1e-5, .3, 1.0, 2.0, 3.0, 3.14159265, 3.3, 7.0])
    d = pick([A([x, y, z], float) for x in (-1, 0, 1) for y in (-1, 0, 1) for z in (-1, 0, 1) if (x, y, z) != (0, 0, 0)])
    style = pick(STYLES[:4] if not what else ['c', 'list', 'strided', 'readonly'])
    kw = flip('keyword')
    wv = a * d / np.linalg.norm(d)
    if what == 0:
        x, y = arr(wv, style)
        log('ExpMapSO3(%s)' % x)
        same('ExpMapSO3', (lambda: F.ExpMapSO3(omega=x)) if kw else (lambda: F.ExpMapSO3(x)), lambda: vpref.exp(y))
    else:
        x, y = arr(rot(wv), style)
        log('LogMapSO3(%s)' % x)
        same('LogMapSO3', (lambda: F.LogMapSO3(R=x)) if kw else (lambda: F.LogMapSO3(x)), lambda: vpref.log(y))
    state(what, [round(float(v), 6) for v in np.asarray(x).ravel()])


# ---- histories of a graph and an optimizer ----
class Scene:
    pass


def add(w, g, v):
    g.py.add_variable(v.py)
    w.gcall(g.ref, 'add_variable', [v.ref])


def fac(w, kind, args, refargs):
    return Both(getattr(F, kind)(*args), w.make_fac(kind, refargs), kind)


def build(w, kind, register=True):
    """a small problem; returns the graph with .vars and .facs"""
    g = Both(F.FactorGraph(), w.make_graph(), 'FactorGraph')
    V, Fs = [], []

    def mv(k, args, i):
        v = make_var(w, k, args, i)
        V.append(v)
        return v

    def mf(k, *args):
        Fs.append(fac(w, k, [a.py if isinstance(a, Both) else a for a in args], [a.ref if isinstance(a, Both) else a for a in args]))
    if kind == 0:      # 3D pose and landmark
        p = mv('PoseVariable', [A([.2, .1, -.3, .1, -.2, .3])], 1)
        l = mv('LandmarkVariable', [A([2., 1, 5])], 2)
        q = mv('PoseVariable', [A([1.2, .6, .3, .3, .2, -.1])], 5)
        mf('PosePositionPriorFactor', 10, p, A([0., 0, 0]), .1)
        mf('PoseOrientationPriorFactor', 11, p, np.eye(3), .1)
        mf('PosePositionPriorFactor', 12, q, A([1., .5, .1]), .2)
        mf('PoseOrientationPriorFactor', 13, q, rot([.2, .1, 0]), .2)
        mf('BearingObservationFactor', 14, p, l, A([.3, .2, .9]), .05)
        mf('BearingObservationFactor', 15, q, l, A([.2, .1, .95]), .05)
        mf('GenericPriorFactor', 16, l, A([2.2, .8, 5.2]), .5)
    elif kind == 1:    # 2D pose chain
        a = mv('Pose2DVariable', [A([.3, -.2, .1])], 4)
        b = mv('Pose2DVariable', [A([1.9, .4, .9])], 3)
        l = mv('GenericVariable', [A([4.2, 3.4])], 2)
        m = mv('GenericVariable', [A([2., .3, .7])], 1)
        m.py.set_constant(True)
        w.vcall(m.ref, 'set_constant', [True])
        mf('Pose2DPriorFactor', 20, a, A([0., 0, 0]), .5, .1)
        mf('Pose2DBetweenFactor', 21, a, b, m, .3, .2)
        mf('RangeBearingFactor2D', 22, a, l, 5.0, .7, .5, .1)
        mf('BearingObservationFactor2D', 23, b, l, .2, .2)
        mf('GenericPriorFactor', 24, l, A([4., 3.]), 2.0)
    else:              # linear, underdetermined along one variable
        a = mv('GenericVariable', [A([1., -2])], 7)
        b = mv('GenericVariable', [A([0., .5])], 8)
        c = mv('GenericVariable', [A([.5, .5])], 9)
        mf('GenericBetweenFactor', 30, a, b, c, .25)
        mf('GenericPriorFactor', 31, c, A([1., 2.]), .5)
        mf('GenericPriorFactor', 32, c, A([1.5, 2.]), .25)
    if register:
        for v in V:
            add(w, g, v)
        for f in Fs:
            g.py.add_factor(f.py)
            w.gcall(g.ref, 'add_factor', [f.ref])
        g.py.finalize_structure()
        w.gcall(g.ref, 'finalize_structure', [])
    g.vars, g.facs = V, Fs
    return g


def look(w, g, o, note):
    for m in ('num_variables', 'num_values', 'num_residuals', 'jacobian_valid', 'residual_valid', 'get_variable_vector'):
        gsame(w, g, m, note)
    for v in g.vars:
        same('%s %s.value()' % (note, v.kind), lambda: v.py.value(), lambda: w.vcall(v.ref, 'value', []))
    py = {id(v.py): v.ref for v in g.vars}
    gsame(w, g, 'get_all_variables', note, conv=lambda l: [py.get(id(x), -2) for x in l])
    pf = {id(f.py): f.ref for f in g.facs}
    gsame(w, g, 'get_all_factors', note, conv=lambda l: [pf.get(id(x), -2) for x in l])
    for part in ('initial_stats', 'current_stats'):
        st = getattr(o.py, part)
        fields_same(note + ' ' + part, st, STAT, lambda n: w.ocall(o.ref, part + '.' + n, []))


def drive_history():
    w = vpref.World()
    kind = choose(3, 'problem')
    g = build(w, kind)
    o = Both(F.SparseOptimizer(), w.make_opt(), '')
    s = Both(F.OptimizerSettings(), w.make_settings(), '')
    py = {id(v.py): v.ref for v in g.vars}
    free = [i for i, v in enumerate(g.vars) if not v.py.is_constant()]

    def osame(m, note, args=(), ref=(), conv=plain):
        return same('%s optimizer.%s' % (note, m), lambda: getattr(o.py, m)(*args), lambda: w.ocall(o.ref, m, list(ref)), conv)
    log('problem %d' % kind)
    for d in range(3 if QUICK else 4):
        k = choose(22, 'operation')
        note = 'operation %d' % k
        n = g.py.num_values()
        if k == 0:
            note = 'set up Gauss-Newton and optimize'
            osame('setup', note, [g.py, s.py], [g.ref, s.ref])
            osame('optimize', note)
        elif k == 1:
            note = 'set up Levenberg-Marquardt, 3 iterations, and optimize'
            s.py.method, s.py.max_num_iterations, s.py.initial_lambda = F.OptimizerMethod.LevenbergMarquardt, 3, .5
            w.scall(s.ref, 'method', [1]); w.scall(s.ref, 'max_num_iterations', [3]); w.scall(s.ref, 'initial_lambda', [.5])
            osame('setup', note, [g.py, s.py], [g.ref, s.ref])
            osame('optimize', note)
        elif k == 2:
            note = 'optimize'
            osame('optimize', note)
        elif k == 3:
            note = 'settings changed through settings()'
            o.py.settings().max_num_iterations = 2
            w.ocall(o.ref, 'settings.max_num_iterations', [2])
        elif k == 4:
            note = 'prepare covariances'
            osame('prepare_to_estimate_covariances', note)
        elif k == 5:
            note = 'estimate covariances'
            for v in g.vars:
                same(note, lambda: o.py.estimate_covariance(v.py), lambda: w.ocall(o.ref, 'estimate_covariance', [v.ref]))
                same(note, lambda: o.py.estimate_covariance(variable=v.py), lambda: w.ocall(o.ref, 'estimate_covariance', [v.ref]))
        elif k == 6:
            note = 'residual and Jacobian'
            gsame(w, g, 'compute_full_jacobian_and_residual', note)
            gsame(w, g, 'residual', note)
            gsame(w, g, 'jacobian', note)
        elif k == 7:
            note = 'sparse Jacobian'
            gsame(w, g, 'compute_sparse_jacobian_matrix', note)
            gsame(w, g, 'sparse_jacobian', note)
        elif k == 8:
            note = 'last results'
            for m in ('residual', 'jacobian', 'sparse_jacobian'):
                gsame(w, g, m, note)
        elif k == 9:
            x = .01 * np.arange(n) - .02
            note = 'increment of the right size'
            gsame(w, g, 'apply_increment', note, [], [x])
        elif k == 10:
            note = 'increment of a wrong size'
            gsame(w, g, 'apply_increment', note, [], [np.ones(n + 1)])
        elif k == 11:
            note = 'set values'
            x = .1 * np.arange(n) + .05
            gsame(w, g, 'set_variable_values_from_vector', note, [], [x])
        elif k == 12:
            note = 'set values of a wrong size'
            gsame(w, g, 'set_variable_values_from_vector', note, [], [np.ones(max(0, n - 1))])
        elif k == 13:
            note = 'toggle the first variable\'s constness'
            v = g.vars[0]
            c = not v.py.is_constant()
            v.py.set_constant(c)
            w.vcall(v.ref, 'set_constant', [c])
        elif k == 14:
            note = 'finalize'
            gsame(w, g, 'finalize_structure', note)
        elif k == 15:
            note = 'add a variable'
            v = make_var(w, 'GenericVariable', [A([1., 2])], 50)
            g.vars.append(v)
            py[id(v.py)] = v.ref
            e0 = len(g.vars)
            gsame(w, g, 'add_variable', note, [v])
        elif k == 16:
            note = 'add a duplicate variable identifier'
            v = make_var(w, 'GenericVariable', [A([1., 2])], g.vars[0].py.id())
            gsame(w, g, 'add_variable', note, [v])
        elif k == 17:
            note = 'add a factor on a stranger'
            v = make_var(w, 'GenericVariable', [A([1., 2])], 77)
            f = fac(w, 'GenericPriorFactor', [60, v.py, A([0., 0])], [60, v.ref, A([0., 0])])
            g.facs.append(f)
            gsame(w, g, 'add_factor', note, [f])
        elif k == 18:
            note = 'look variables up'
            for i in [v.py.id() for v in g.vars] + [999, -999]:
                gsame(w, g, 'get_variable', note, [], [i], conv=lambda x: None if x is None else py.get(id(x), -2))
        elif k == 19:
            note = 'print'
            gsame(w, g, 'print_structure', note)
            gsame(w, g, 'print_variables', note)
            gsame(w, g, 'print_jacobian_and_residual', note)
            same(note, lambda: g.py.print_jacobian_and_residual(detailed=True), lambda: w.gcall(g.ref, 'print_jacobian_and_residual', [True]))
            osame('print_all_covariances', note)
        elif k == 20:
            note = 'test factors'
            same(note, lambda: g.py.detailed_factor_test(1e-3), lambda: w.gcall(g.ref, 'detailed_factor_test', [1e-3]))
            same(note, lambda: g.py.detailed_factor_test(jacobian_tol=1e-13, verbose=True), lambda: w.gcall(g.ref, 'detailed_factor_test', [1e-13, True]))
        elif k == 21:
            note = 'move the first variable'
            move(w, g.vars[0], .1)
        log(note)
        look(w, g, o, note)
        state(kind, k, [round(float(x), 6) for v in g.vars for x in np.ravel(v.py.value())], str(o.py.current_stats.status))


def body():
    k = choose(6, 'mode')
    [drive_var, drive_fac, drive_fields, drive_enums, drive_functions, drive_history][k]()


pymc.main(body)
