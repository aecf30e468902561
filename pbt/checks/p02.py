"""P02: analytic Jacobians are the derivatives of what the objects compute,
and first-order composition/inversion of motion parameters agrees with them."""
import numpy as np
from hypothesis import strategies as st

from menpo.shape import PointCloud
from menpofit.modelinstance import (PDM, GlobalPDM, OrthoPDM,
                                    GlobalSimilarityModel)
from menpofit.transform import (
    DifferentiableAffine, DifferentiableSimilarity,
    DifferentiableAlignmentAffine, DifferentiableAlignmentSimilarity,
    DifferentiablePiecewiseAffine, DifferentiableThinPlateSplines,
    OrthoMDTransform,
    LinearOrthoMDTransform)
from menpofit.transform.modeldriven import (ModelDrivenTransform,
                                            GlobalMDTransform)
from menpofit.transform.rbf import (DifferentiableR2LogR2RBF,
                                    DifferentiableR2LogRRBF)
from ..core import facet, Discard
from .. import gen

P = 'P02'


def pts_in_hull(rs, cloud, n):
    """n points strictly inside the hull of cloud, away from triangle edges
    with probability one."""
    w = rs.dirichlet(np.ones(cloud.shape[0]), n)
    return w.dot(cloud)


def to_pnd(J):
    """[points, dims, params] -> [points, params, dims]"""
    return np.swapaxes(J, 1, 2)


def tps_ok(t):
    """menpo truncates the spline system at an absolute singular value; a
    truncated system does not interpolate and is outside the property."""
    return np.linalg.svd(t.l, compute_uv=False)[-1] > 2 * t.min_singular_val


hom = {
    'seed': gen.seeds,
    'n': st.integers(1, 9),
    'scale': st.sampled_from([1e-2, 1., 50.]),
    'kind': st.sampled_from(['affine', 'affine3', 'similarity',
                             'align_affine', 'align_similarity']),
}


def make_hom(s):
    rs = gen.rng(s['seed'])
    k = s['kind']
    if k == 'affine' or k == 'affine3':
        d = 2 if k == 'affine' else 3
        h = np.eye(d + 1)
        h[:d, :d] += .7 * rs.randn(d, d)
        h[:d, d] = s['scale'] * rs.randn(d)
        return DifferentiableAffine(h), d, rs
    if k == 'similarity':
        h = np.eye(3)
        h[:2, :2] = gen.rot(rs.uniform(-3, 3)) * rs.uniform(.3, 3)
        h[:2, 2] = s['scale'] * rs.randn(2)
        return DifferentiableSimilarity(h), 2, rs
    a = PointCloud(gen.base_points(5, rs))
    b = PointCloud(a.points.dot(gen.rot(rs.uniform(-3, 3)).T) * 2 +
                   .2 * rs.randn(5, 2) + s['scale'] * rs.randn(2))
    c = DifferentiableAlignmentAffine if k == 'align_affine' else \
        DifferentiableAlignmentSimilarity
    return c(a, b), 2, rs


@facet(P, 'homogeneous', st.fixed_dictionaries(hom), quick=400)
def homogeneous(ctx, s):
    """Affine and similarity motions: derivative wrt parameters and space."""
    t, d, rs = make_hom(s)
    ctx.label(s['kind'])
    x = s['scale'] * rs.randn(s['n'], d)
    v = np.array(t.as_vector())

    def f(p):
        return t.from_vector(p).apply(x)
    if not (s['kind'] in ('align_affine', 'align_similarity')):
        num = to_pnd(gen.num_jac(f, v, 1e-5))
    else:
        na = t.as_non_alignment()
        ctx.close(na.apply(x), t.apply(x), 'as_non_alignment moves points '
                  'differently', rtol=1e-10)
        ctx.close(na.as_vector(), v, 'as_non_alignment parameters', rtol=1e-10)
        num = to_pnd(gen.num_jac(lambda p: na.from_vector(p).apply(x), v,
                                 1e-5))
        ctx.close(to_pnd(gen.num_jac(f, v, 1e-5)), num,
                  'alignment from_vector', rtol=1e-6)
        ctx.close(na.d_dp(x), t.d_dp(x), 'd_dp after as_non_alignment',
                  rtol=1e-10)
    ctx.close(t.d_dp(x), num, 'd_dp is not the derivative wrt the parameters',
              rtol=1e-6, atol=1e-7)

    def gx(k):
        e = np.zeros(d)
        e[k] = 1e-4
        return (t.apply(x + e) - t.apply(x - e)) / 2e-4
    numx = np.stack([gx(k) for k in range(d)], -1)
    dx = np.asarray(t.d_dx(x))
    ctx.check(dx.shape in ((1, d, d), (s['n'], d, d)), 'd_dx shape')
    ctx.close(np.broadcast_to(dx, numx.shape), numx,
              'd_dx is not the derivative wrt space', rtol=1e-6, atol=1e-6)


@facet(P, 'homogeneous_rejects', st.fixed_dictionaries(
    {'seed': gen.seeds, 'n': st.integers(1, 5)}), quick=40)
def homogeneous_rejects(ctx, s):
    """Points of the wrong dimension are rejected."""
    rs = gen.rng(s['seed'])
    t = DifferentiableAffine(np.eye(3))
    ctx.raises(ValueError, lambda: t.d_dp(rs.randn(s['n'], 3)),
               '3D points on a 2D affine')
    t = DifferentiableSimilarity(np.eye(3))
    ctx.raises(ValueError, lambda: t.d_dp(rs.randn(s['n'], 3)),
               '3D points on a 2D similarity')


warp = {
    'seed': gen.seeds,
    'n': st.integers(3, 10),
    'm': st.integers(1, 8),
    'scale': st.sampled_from([1., 10., 80.]),
    'bend': st.sampled_from([0., .05, .15]),
    'at_source': st.booleans(),
}


def warp_pair(s):
    rs = gen.rng(s['seed'])
    a = gen.base_points(s['n'], rs)
    b = a.dot(gen.rot(rs.uniform(-1, 1)).T) * rs.uniform(.6, 1.6) + \
        s['bend'] * rs.randn(*a.shape)
    return rs, a * s['scale'], b * s['scale'] + 3 * rs.randn(2)


@facet(P, 'warp_landmarks', st.fixed_dictionaries(
    dict(warp, kind=st.sampled_from(['pwa', 'tps']))), quick=400)
def warp_landmarks(ctx, s):
    """Piecewise affine and thin plate spline warps: derivative of every
    warped point wrt every coordinate of every anchor landmark."""
    rs, a, b = warp_pair(s)
    C = DifferentiablePiecewiseAffine if s['kind'] == 'pwa' else \
        DifferentiableThinPlateSplines
    ctx.label(s['kind'])
    x = pts_in_hull(rs, a, s['m'])
    if s['kind'] == 'tps':
        x = x + .3 * s['scale'] * rs.randn(*x.shape)
        if s['at_source']:
            x = np.vstack([x, a])
    src = PointCloud(a)
    t = C(src, PointCloud(b))
    if s['kind'] == 'tps' and not tps_ok(t):
        raise Discard
    J = t.d_dl(x)
    ctx.equal(J.shape, (len(x), s['n'], 2), 'd_dl shape')

    def f(v):
        # same transform object, moved landmarks
        return C(src, PointCloud(v.reshape(-1, 2))).apply(x)
    num = gen.num_jac(f, b.ravel(), 1e-4 * s['scale'])
    num = num.reshape(len(x), 2, s['n'], 2)
    ctx.close(J[..., 0], num[:, 0, :, 0], 'd_dl (first axis)', rtol=1e-6,
              atol=1e-6)
    ctx.close(J[..., 1], num[:, 1, :, 1], 'd_dl (second axis)', rtol=1e-6,
              atol=1e-6)
    # partition of unity + reproduces the warp (it is linear in the landmarks)
    ctx.close(J.sum(1), np.ones((len(x), 2)), 'landmark weights do not sum to '
              'one', rtol=1e-6)
    ctx.close(np.einsum('ild,ld->id', J, b), t.apply(x),
              'weights do not reproduce the warp', rtol=1e-5)
    if s['kind'] == 'tps':
        dx = t.d_dx(x)
        h = 1e-5 * s['scale']
        cols = []
        for k in range(2):
            e = np.zeros(2)
            e[k] = h
            cols.append((t.apply(x + e) - t.apply(x - e)) / (2 * h))
        numx = np.stack(cols, -1)
        ctx.close(dx, numx, 'd_dx of the spline', rtol=1e-4, atol=1e-4)


@facet(P, 'rbf', st.fixed_dictionaries(
    dict(seed=gen.seeds, n=st.integers(1, 8), m=st.integers(1, 8),
         scale=st.sampled_from([.5, 1., 30.]), coincide=st.booleans(),
         kind=st.sampled_from(['r2logr2', 'r2logr']))), quick=300)
def rbf(ctx, s):
    """Radial basis kernels: derivative wrt the distance to each centre."""
    rs = gen.rng(s['seed'])
    c = s['scale'] * rs.randn(s['n'], 2)
    C = DifferentiableR2LogR2RBF if s['kind'] == 'r2logr2' else \
        DifferentiableR2LogRRBF
    k = C(c)
    x = s['scale'] * rs.randn(s['m'], 2)
    h = 1e-6 * s['scale']
    cols = []
    for d in range(2):
        e = np.zeros(2)
        e[d] = h
        cols.append((k.apply(x + e) - k.apply(x - e)) / (2 * h))
    ctx.close(k.d_dl(x), np.stack(cols, -1), 'kernel derivative', rtol=1e-5,
              atol=1e-5 * s['scale'])
    if s['coincide']:
        J = k.d_dl(c)
        i = np.arange(s['n'])
        ctx.check(np.all(np.isfinite(J)), 'non-finite derivative on a centre')
        ctx.close(J[i, i], np.zeros((s['n'], 2)), 'derivative on a centre')


model = {
    'seed': gen.seeds,
    'n_pts': st.integers(4, 9),
    'n_shapes': st.integers(3, 7),
    'amp': st.sampled_from([.05, .15]),
    'scale': st.sampled_from([1., 20.]),
    'theta': st.floats(-2.5, 2.5).map(lambda x: round(x, 2)),
    'zoom': st.sampled_from([.5, 1., 2.]),
    'wscale': st.sampled_from([0., 1., 2.]),
}


def make_model(s, kind):
    shapes = gen.shape_set(s['seed'], s['n_shapes'], s['n_pts'],
                           amp=s['amp'], scale=s['scale'])
    if kind == 'pdm':
        return PDM(shapes)
    if kind == 'global_affine':
        return GlobalPDM(shapes, DifferentiableAlignmentAffine)
    if kind == 'global_similarity':
        return GlobalPDM(shapes, DifferentiableAlignmentSimilarity)
    return OrthoPDM(shapes)


def put_state(m, s):
    """Moves the model to an arbitrary state; returns the parameters."""
    rs = gen.rng(s['seed'], 9)
    mean = m.model.mean().points
    q = mean.dot(gen.rot(s['theta']).T) * s['zoom'] + 2 * rs.randn(2)
    m.set_target(PointCloud(q))
    v = np.array(m.as_vector())
    k = m.n_weights
    w = s['wscale'] * rs.randn(k) * np.sqrt(np.abs(m.model.eigenvalues))
    v[len(v) - k:] = w
    m._from_vector_inplace(v.copy())
    return v, k


def numeric_target_jac(m, v, scale):
    def f(p):
        m._from_vector_inplace(p.copy())
        return m.target.points.copy()
    J = to_pnd(gen.num_jac(f, v, 1e-5 * max(1., scale)))
    m._from_vector_inplace(v.copy())
    return J


@facet(P, 'shape_models', st.fixed_dictionaries(
    dict(model, kind=st.sampled_from(['pdm', 'global_affine',
                                      'global_similarity', 'ortho']))),
    quick=400)
def shape_models(ctx, s):
    """Shape models: derivative of the shape wrt deformation weights in every
    state, and wrt the global motion at the undeformed mean."""
    m = make_model(s, s['kind'])
    ctx.label(s['kind'])
    v, k = put_state(m, s)
    ng = len(v) - k
    J = np.array(m.d_dp(m.model.mean().points))
    ctx.equal(J.shape, (m.model.mean().n_points, len(v), 2), 'd_dp shape')
    num = numeric_target_jac(m, v, s['scale'])
    ctx.close(J[:, ng:], num[:, ng:], 'derivative wrt deformation weights',
              rtol=1e-5, atol=1e-6)
    if ng:
        v0 = v.copy()
        v0[ng:] = 0
        num0 = numeric_target_jac(m, v0, s['scale'])
        ctx.close(J[:, :ng], num0[:, :ng], 'derivative wrt the global motion',
                  rtol=1e-5, atol=1e-6)
    ctx.nontrivial(s['theta'] != 0 or s['zoom'] != 1)


@facet(P, 'rigid_model', st.fixed_dictionaries(model), quick=100)
def rigid_model(ctx, s):
    """The rigid (similarity only) model's Jacobian."""
    shapes = gen.shape_set(s['seed'], s['n_shapes'], s['n_pts'], amp=s['amp'],
                           scale=s['scale'])
    m = GlobalSimilarityModel(shapes)
    rs = gen.rng(s['seed'], 9)
    m.set_target(PointCloud(m.mean.points.dot(gen.rot(s['theta']).T)
                            * s['zoom'] + rs.randn(2)))
    v = np.array(m.as_vector())
    ctx.close(m.d_dp(None), numeric_target_jac(m, v, 1.), 'rigid d_dp',
              rtol=1e-6, atol=1e-6)


@facet(P, 'model_driven', st.fixed_dictionaries(
    dict(model, kind=st.sampled_from(['pdm', 'global_affine',
                                      'global_similarity', 'ortho']),
         warp=st.sampled_from(['pwa', 'tps']), m=st.integers(1, 7),
         twice=st.booleans())), quick=400)
def model_driven(ctx, s):
    """Model driven warps: derivative of each warped point wrt the model
    parameters (also when evaluated repeatedly at different points)."""
    m = make_model(s, s['kind'])
    W = DifferentiablePiecewiseAffine if s['warp'] == 'pwa' else \
        DifferentiableThinPlateSplines
    C = {'pdm': ModelDrivenTransform, 'ortho': OrthoMDTransform}.get(
        s['kind'], GlobalMDTransform)
    ctx.label(s['kind'] + '/' + s['warp'])
    src = PointCloud(m.model.mean().points.copy())
    t = C(m, W, source=src)
    if s['warp'] == 'tps' and not tps_ok(t.transform):
        raise Discard
    v, k = put_state(t.pdm, s)
    t._from_vector_inplace(v.copy())
    rs = gen.rng(s['seed'], 17)
    ng = len(v) - k
    ctx.close(t.apply(src.points), t.target.points,
              'the warp does not map the source to the target', rtol=1e-6)
    ctx.close(t.as_vector(), v, 'as_vector', rtol=1e-10)
    ctx.equal(t.n_parameters, len(v), 'n_parameters')
    ctx.equal(t.n_dims, 2, 'n_dims')

    def numeric(x, base):
        def f(p):
            t._from_vector_inplace(p.copy())
            return np.array(t.apply(x))
        J = to_pnd(gen.num_jac(f, base, 1e-5 * max(1., s['scale'])))
        t._from_vector_inplace(v.copy())
        return J
    x = np.empty((s['m'], 2))
    for r in range(2 if s['twice'] else 1):
        # the same buffer is reused: answers depend on values, not identity
        if r and s['seed'] % 2:
            # almost the same points as before
            x[...] += [.001, .005, .02][s['seed'] // 2 % 3] * (src.points.mean(0) - x)
        else:
            x[...] = pts_in_hull(rs, src.points, s['m'])
        J = np.array(t.d_dp(x))
        num = numeric(x, v)
        ctx.equal(J.shape, (len(x), len(v), 2), 'd_dp shape')
        ctx.close(J[:, ng:], num[:, ng:], 'wrt deformation', rtol=1e-5,
                  atol=1e-6)
        if ng:
            v0 = v.copy()
            v0[ng:] = 0
            num0 = numeric(x, v0)
            ctx.close(J[:, :ng], num0[:, :ng], 'wrt global motion',
                      rtol=1e-5, atol=1e-6)
    # points that differ by a hair have derivatives that differ by a hair
    # (piecewise affine warps of menpo take points within 1e-5 for the same)
    if s['warp'] == 'tps':
        t2 = C(make_model(s, s['kind']), W,
               source=PointCloud(src.points.copy()))
        t2._from_vector_inplace(v.copy())
        step = [1e-4, 1e-5, 1e-6][s['seed'] % 3]
        y = x + step * (src.points.mean(0) - x)
        ctx.close(np.array(t.d_dp(y)), np.array(t2.d_dp(y.copy())),
                  'derivatives at points moved by %g' % step, rtol=1e-9)
    # asking the warp for a target is the same as asking the model
    q = src.points.dot(gen.rot(.3).T) + .05 * s['scale'] * \
        rs.randn(*src.points.shape)
    t.set_target(PointCloud(q.copy()))
    m2 = make_model(s, s['kind'])
    m2.set_target(PointCloud(q.copy()))
    if s['kind'].startswith('global') and not np.allclose(
            t.target.points, m2.target.points, rtol=1e-7):
        # projection on a model with a global alignment is not idempotent, and
        # the warp is free to project the projection again
        m2.set_target(m2.target)
    ctx.close(t.target.points, m2.target.points, 'target of the warp is not '
              'the projection of the model', rtol=1e-6)
    ctx.close(t.apply(src.points), m2.target.points,
              'warp not updated after set_target', rtol=1e-6)


@facet(P, 'composition', st.fixed_dictionaries(
    dict(model, kind=st.sampled_from(['pdm', 'global_affine',
                                      'global_similarity', 'ortho']))),
    quick=300)
def composition(ctx, s):
    """First order composition: the parameter change is the least squares
    projection of the composed landmark motion on the model's own motion, and
    inverse parameters are the negated parameters."""
    m = make_model(s, s['kind'])
    C = {'pdm': ModelDrivenTransform, 'ortho': OrthoMDTransform}.get(
        s['kind'], GlobalMDTransform)
    ctx.label(s['kind'])
    src = PointCloud(m.model.mean().points.copy())
    t = C(m, DifferentiableThinPlateSplines, source=src)
    if not tps_ok(t.transform):
        raise Discard
    # the global motion part of the Jacobian is taken at the undeformed mean
    s = dict(s, wscale=s['wscale'] if s['kind'] == 'pdm' else 0.)
    v, k = put_state(t.pdm, s)
    t._from_vector_inplace(v.copy())
    ng = len(v) - k
    num = numeric_target_jac(m, v, s['scale'])          # dX/dp at p
    t._from_vector_inplace(v.copy())
    m0 = make_model(s, s['kind'])
    v0 = np.array(m0.as_vector())
    num_0 = numeric_target_jac(m0, v0, s['scale'])      # dX/dp at identity
    rs = gen.rng(s['seed'], 31)
    delta = .01 * rs.randn(len(v)) * s['scale']
    if s['kind'].startswith('global'):
        num_0[:, :ng] = np.array(t.pdm.d_dp(None))[:, :ng]
    # motion of the source landmarks under W(W(x; delta); p), first order
    h = 1e-5 * s['scale']
    cols = []
    for d in range(2):
        e = np.zeros(2)
        e[d] = h
        cols.append((t.apply(src.points + e) - t.apply(src.points - e))
                    / (2 * h))
    dWdx = np.stack(cols, -1)
    moved = np.einsum('ikd,ijd,j->ik', dWdx, num_0, delta)
    A = np.swapaxes(num, 1, 2).reshape(-1, len(v))
    exp, _, rank, sv = np.linalg.lstsq(A, moved.ravel(), rcond=None)
    if A.shape[0] < len(v) or sv[-1] < 1e-4 * sv[0]:
        ctx.nontrivial(False)
        return
    if s['kind'] != 'ortho':    # explicitly not implemented
        inv = t.pseudoinverse()
        ctx.close(inv.as_vector(), -v, 'parameters of the inverse',
                  rtol=1e-9, atol=1e-9)
        ctx.close(inv.apply(src.points), inv.target.points,
                  'inverse warp and target', rtol=1e-6)
        ctx.close(t.apply(src.points), t.target.points,
                  'inverting moved the warp', rtol=1e-6)
    Jp = np.array(t.Jp())
    ctx.close(t.as_vector(), v, 'asking for derivatives moved the warp',
              rtol=1e-12)
    ctx.equal(Jp.shape, (len(v), len(v)), 'shape of the parameter Jacobian')
    ctx.close(Jp.dot(delta), exp, 'parameter Jacobian', rtol=2e-3, atol=1e-5)
    t.compose_after_from_vector_inplace(delta.copy())
    got = np.array(t.as_vector()) - v
    ctx.close(got, exp, 'composed parameters', rtol=2e-3, atol=1e-5)
    ctx.close(t.pseudoinverse_vector(delta.copy()), -delta,
              'inverse parameters', rtol=1e-12)
    ctx.close(t.apply(src.points), t.target.points,
              'warp not updated by the composition', rtol=1e-6)


@facet(P, 'linear_dense', st.fixed_dictionaries(
    dict(model, n_sparse=st.integers(4, 5))), quick=150)
def linear_dense(ctx, s):
    """Dense linear model: derivative of the dense points wrt parameters."""
    s = dict(s, n_pts=s['n_pts'] + 6)
    m = make_model(s, 'ortho')
    n = s['n_sparse']
    t = LinearOrthoMDTransform(m.model, PointCloud(m.target.points[:n]))
    v, k = put_state(t, s)

    def f(p):
        t._from_vector_inplace(p.copy())
        return np.array(t.apply(np.zeros((1, 2))))
    J = np.array(t.d_dp(None))
    num = to_pnd(gen.num_jac(f, v, 1e-5 * max(1., s['scale'])))
    ctx.close(J[:, 4:], num[:, 4:], 'dense wrt deformation', rtol=1e-5,
              atol=1e-6)
    v0 = v.copy()
    v0[4:] = 0
    num0 = to_pnd(gen.num_jac(f, v0, 1e-5 * max(1., s['scale'])))
    ctx.close(J[:, :4], num0[:, :4], 'dense wrt motion', rtol=1e-5, atol=1e-6)
