"""P01: parametric shape models reproduce and best-approximate shapes."""
import numpy as np
from hypothesis import strategies as st

from menpo.shape import PointCloud, mean_pointcloud
from menpo.transform import Similarity, Affine, Translation, Scale
from menpofit.modelinstance import (PDM, GlobalPDM, OrthoPDM,
                                    GlobalSimilarityModel)
from menpofit.transform import (DifferentiableAlignmentAffine,
                                DifferentiableAlignmentSimilarity,
                                LinearOrthoMDTransform)
from ..core import facet
from .. import gen
from ..ref import align_shapes

P = 'P01'

shapes_spec = {
    'seed': gen.seeds,
    'n_pts': st.integers(4, 12),
    'n_shapes': st.integers(3, 9),
    'amp': st.sampled_from([.01, .05, .1, .2]),
    'scale': st.sampled_from([1., 20., 150.]),
    'max_c': st.one_of(st.none(), st.integers(1, 4)),
}


def build_shapes(s):
    return gen.shape_set(s['seed'], s['n_shapes'], s['n_pts'], amp=s['amp'],
                         scale=s['scale'])


def spec(**kw):
    d = dict(shapes_spec)
    d.update(kw)
    return st.fixed_dictionaries(d)


def arbitrary_target(s, shapes):
    """A similarity-moved, deformed copy of a training shape."""
    rs = gen.rng(s['seed'], 5)
    p = shapes[0].points
    c = p.mean(0)
    q = (p - c).dot(gen.rot(s['theta']).T) * s['zoom']
    q = q + s['wobble'] * s['scale'] * rs.randn(*q.shape)
    return PointCloud(q + c + np.array(s['move']))


target_spec = {
    'theta': st.floats(-3.1, 3.1).map(lambda x: round(x, 3)),
    'zoom': st.sampled_from([.3, .8, 1., 1.3, 3.]),
    'wobble': st.sampled_from([0., .02, .2, .5]),
    'move': st.tuples(st.integers(-60, 60), st.integers(-60, 60)),
}


@facet(P, 'ortho_structure', spec(), quick=300)
def ortho_structure(ctx, s):
    """Similarity and deformation components of the orthogonalised model form
    one orthonormal family, and its default state is the mean shape."""
    shapes = build_shapes(s)
    m = OrthoPDM(shapes, max_n_components=s['max_c'])
    W = np.vstack([m.similarity_model.components, m.model.components])
    ctx.close(W.dot(W.T), np.eye(W.shape[0]), 'components not orthonormal',
              rtol=0, atol=1e-8)
    ctx.nontrivial(m.model.n_active_components >= 1)
    if s['max_c'] is not None:
        ctx.check(m.model.n_components <= s['max_c'],
                  'more deformation components than asked for')
    mean = mean_pointcloud(align_shapes(shapes))
    ctx.close(m.model.mean().points, mean.points, 'mean', rtol=1e-9)
    ctx.close(m.target.points, mean.points, 'initial target is not the mean',
              rtol=1e-7)
    ctx.equal(len(m.as_vector()), 4 + m.model.n_active_components,
              'parameter count')
    ctx.equal(m.n_parameters, 4 + m.model.n_active_components, 'n_parameters')
    ctx.equal(m.n_global_parameters, 4, 'global parameter count')
    ctx.equal(m.n_weights, m.model.n_active_components, 'weights count')
    ctx.equal(m.n_active_components, m.model.n_active_components,
              'active count')
    ctx.equal(m.n_dims, 2, 'n_dims')


@facet(P, 'ortho_similarity_exact', spec(**target_spec), quick=300)
def ortho_similarity_exact(ctx, s):
    """Every translation/rotation/scaling of the mean is represented exactly,
    with zero deformation weights."""
    shapes = build_shapes(s)
    m = OrthoPDM(shapes, max_n_components=s['max_c'])
    q = m.model.mean().points
    q = q.dot(gen.rot(s['theta']).T) * s['zoom'] + np.array(s['move'])
    m.set_target(PointCloud(q))
    ctx.close(m.target.points, q, 'similarity of the mean not reproduced',
              rtol=1e-7)
    ctx.close(m.weights, np.zeros(m.n_weights), 'deformation weights',
              atol=1e-6 * s['scale'])
    ctx.close(m.global_transform.apply(m.model.mean()).points, q,
              'global transform', rtol=1e-7)


@facet(P, 'ortho_roundtrip', spec(**target_spec, pseed=gen.seeds), quick=300)
def ortho_roundtrip(ctx, s):
    """parameters -> shape -> parameters is the identity; a model asked to
    match what it already produces does not move."""
    shapes = build_shapes(s)
    m = OrthoPDM(shapes, max_n_components=s['max_c'])
    m.set_target(arbitrary_target(s, shapes))
    g = np.array(m.as_vector())[:4]
    rs = gen.rng(s['pseed'])
    w = rs.randn(m.n_weights) * np.sqrt(np.abs(m.model.eigenvalues)) * 2
    v = np.hstack([g, w])
    m._from_vector_inplace(v.copy())
    t = m.target.points.copy()
    ctx.close(m.as_vector(), v, 'as_vector after from_vector', rtol=1e-12)
    # independent reconstruction of the shape
    mean = m.model.mean().points
    simv = g.dot(m.similarity_model.components).reshape(-1, 2) + mean
    d = (w.dot(m.model.components)).reshape(-1, 2)
    mc = mean - mean.mean(0)
    sc = simv - simv.mean(0)
    den = (mc ** 2).sum()
    a = (mc * sc).sum() / den
    b = (mc[:, 0] * sc[:, 1] - mc[:, 1] * sc[:, 0]).sum() / den
    L = np.array([[a, -b], [b, a]])
    ctx.close(t, simv + d.dot(L.T), 'shape is not motion(mean + deformation)',
              rtol=1e-6)
    m2 = OrthoPDM(build_shapes(s), max_n_components=s['max_c'])
    m2.set_target(PointCloud(t.copy()))
    ctx.close(m2.target.points, t, 'shape of known parameters not reproduced',
              rtol=1e-6)
    ctx.close(m2.as_vector(), v, 'parameters not recovered', rtol=1e-6)
    v2 = np.array(m2.as_vector())
    m2.set_target(m2.target)
    ctx.close(m2.as_vector(), v2, 'set_target(target) is not idempotent',
              rtol=1e-7)


@facet(P, 'ortho_best', spec(**target_spec, pseed=gen.seeds), quick=300)
def ortho_best(ctx, s):
    """The reported shape is the least-squares motion of the mean plus the
    least-squares deformation within the model."""
    shapes = build_shapes(s)
    m = OrthoPDM(shapes, max_n_components=s['max_c'])
    t = arbitrary_target(s, shapes).points
    m.set_target(PointCloud(t.copy()))
    got = m.target.points
    ctx.nontrivial(s['wobble'] > 0 or s['amp'] >= .05)
    v = np.array(m.as_vector())
    # best similarity of the mean, by an independent linear least squares
    mean = m.model.mean().points
    n = len(mean)
    A = np.zeros((2 * n, 4))
    A[0::2, 0], A[0::2, 1], A[0::2, 2] = mean[:, 0], -mean[:, 1], 1
    A[1::2, 0], A[1::2, 1], A[1::2, 3] = mean[:, 1], mean[:, 0], 1
    q = np.linalg.lstsq(A, t.ravel(), rcond=None)[0]
    simv = A.dot(q).reshape(-1, 2)
    ctx.close(m.global_transform.apply(m.model.mean()).points, simv,
              'global motion is not the least squares similarity', rtol=1e-6)
    L = np.array([[q[0], -q[1]], [q[1], q[0]]])
    D = np.stack([c.reshape(-1, 2).dot(L.T).ravel()
                  for c in m.model.components], 1)
    w = np.linalg.lstsq(D, (t - simv).ravel(), rcond=None)[0]
    best = simv + D.dot(w).reshape(-1, 2)
    if np.linalg.norm(L[0]) > 1e-3:
        ctx.close(got, best, 'shape is not the best approximation', rtol=1e-6)
    r = t - got
    e0 = (r ** 2).sum()
    rs = gen.rng(s['pseed'])
    for _ in range(3):
        dv = rs.randn(m.n_weights) * s['scale'] * .05
        v2 = v.copy()
        v2[4:] += dv
        m._from_vector_inplace(v2)
        ctx.check(((t - m.target.points) ** 2).sum() >= e0 * (1 - 1e-9) - 1e-9,
                  'another deformation is closer to the target')
    m.set_target(PointCloud(got.copy()))
    ctx.close(m.target.points, got, 'projection is not idempotent', rtol=1e-6)


@facet(P, 'pdm_linear', spec(**target_spec, pseed=gen.seeds), quick=300)
def pdm_linear(ctx, s):
    """The plain model: best linear approximation, round trip, and it spans
    its aligned training shapes."""
    shapes = build_shapes(s)
    m = PDM(shapes, max_n_components=s['max_c'])
    al = np.array([a.as_vector() for a in align_shapes(build_shapes(s))])
    mu = al.mean(0)
    scale = np.abs(mu).max()
    ctx.close(m.model.mean().as_vector(), mu, 'mean', rtol=1e-9)
    ctx.close(m.target.as_vector(), mu, 'initial target', rtol=1e-9)
    U, S, Vt = np.linalg.svd(al - mu, full_matrices=False)
    k = m.n_active_components
    ev = S ** 2 / (len(al) - 1)
    ctx.close(m.model.eigenvalues, ev[:k], 'eigenvalues', rtol=1e-6)
    if s['max_c'] is not None:
        ctx.equal(k, min(s['max_c'], int((S > 1e-7 * S[0]).sum())),
                  'component count')
    if k == len(ev) or ev[k] < ev[k - 1] * .999:
        Pm = m.model.components.T.dot(m.model.components)
        Pr = Vt[:k].T.dot(Vt[:k])
        ctx.close(Pm, Pr, 'principal subspace', rtol=0, atol=1e-4)
    if s['max_c'] is None:
        for a in al:
            m.set_target(PointCloud(a.reshape(-1, 2)))
            ctx.close(m.target.as_vector(), a, 'training shape not spanned',
                      rtol=1e-6)
    t = arbitrary_target(s, shapes).as_vector()
    m.set_target(PointCloud(t.reshape(-1, 2)))
    C = m.model.components
    ctx.close(m.target.as_vector(), mu + C.T.dot(C.dot(t - mu)),
              'not the orthogonal projection', rtol=1e-7)
    ctx.close(C.dot(t - m.target.as_vector()), np.zeros(k),
              'residual not orthogonal', atol=1e-7 * max(1, np.abs(t).max()))
    w = gen.rng(s['pseed']).randn(k) * np.sqrt(m.model.eigenvalues)
    m._from_vector_inplace(w.copy())
    x = m.target.as_vector()
    ctx.close(x, mu + w.dot(C), 'instance', rtol=1e-8)
    m.set_target(PointCloud(x.reshape(-1, 2)))
    ctx.close(m.as_vector(), w, 'round trip', rtol=1e-7, atol=1e-7 * scale)


@facet(P, 'global_pdm', spec(**target_spec, pseed=gen.seeds,
                             kind=st.sampled_from(['affine', 'similarity'])),
       quick=300)
def global_pdm(ctx, s):
    """A model with an explicit global transform: shape = transform(mean +
    deformation); exactly representable targets are reproduced."""
    shapes = build_shapes(s)
    cls = {'affine': DifferentiableAlignmentAffine,
           'similarity': DifferentiableAlignmentSimilarity}[s['kind']]
    m = GlobalPDM(shapes, cls, max_n_components=s['max_c'])
    ng = m.n_global_parameters
    ctx.equal(ng, 6 if s['kind'] == 'affine' else 4, 'global parameters')
    ctx.equal(m.n_parameters, ng + m.n_weights, 'parameters')
    rs = gen.rng(s['pseed'])
    mean = m.model.mean().points
    L = gen.rot(s['theta']) * s['zoom']
    if s['kind'] == 'affine':
        L = L + .2 * s['zoom'] * rs.randn(2, 2)
    q = mean.dot(L.T) + np.array(s['move'])
    m.set_target(PointCloud(q.copy()))
    ctx.close(m.target.points, q, 'transformed mean not reproduced', rtol=1e-6)
    ctx.close(m.weights, np.zeros(m.n_weights), 'weights',
              atol=1e-5 * s['scale'])
    ctx.close(m.global_parameters, np.array(m.as_vector())[:ng],
              'global parameters are the head of the vector', rtol=1e-12)
    g = np.array(m.global_parameters)
    w = rs.randn(m.n_weights) * np.sqrt(np.abs(m.model.eigenvalues))
    m._from_vector_inplace(np.hstack([g, w]))
    x = (mean + w.dot(m.model.components).reshape(-1, 2)).dot(L.T) \
        + np.array(s['move'])
    ctx.close(m.target.points, x, 'shape is not transform(mean + deformation)',
              rtol=1e-6)
    ctx.close(m.as_vector(), np.hstack([g, w]), 'as_vector', rtol=1e-9)
    # arbitrary target: projection of the back-transformed target
    t = arbitrary_target(s, shapes)
    m.set_target(t)
    h = m.global_transform.h_matrix
    mc = mean - mean.mean(0)
    tc = t.points - t.points.mean(0)
    if s['kind'] == 'affine':
        Lt = np.linalg.lstsq(mc, tc, rcond=None)[0].T
        ctx.close(h[:2, :2], Lt, 'affine is not the least squares one',
                  rtol=1e-5)
    b = np.linalg.solve(h, np.vstack([t.points.T, np.ones(len(mean))]))[:2].T
    C = m.model.components
    ctx.close(m.weights, C.dot((b - mean).ravel()), 'weights are not the '
              'projection of the target in the model frame', rtol=1e-6,
              atol=1e-6 * s['scale'])


@facet(P, 'global_similarity_only', spec(**target_spec), quick=150)
def global_similarity_only(ctx, s):
    """The rigid model reports the least-squares similarity of the mean."""
    shapes = build_shapes(s)
    m = GlobalSimilarityModel(shapes)
    mean = mean_pointcloud(align_shapes(build_shapes(s)))
    ctx.close(m.target.points, mean.points, 'initial target', rtol=1e-9)
    ctx.equal(m.n_weights, 4, 'weights')
    q = mean.points.dot(gen.rot(s['theta']).T) * s['zoom'] + \
        np.array(s['move'])
    m.set_target(PointCloud(q.copy()))
    ctx.close(m.target.points, q, 'similarity of the mean', rtol=1e-6)
    v = np.array(m.as_vector())
    ctx.close(m.weights, v, 'weights/as_vector', rtol=1e-12)
    m.set_target(arbitrary_target(s, shapes))
    m._from_vector_inplace(v.copy())
    ctx.close(m.target.points, q, 'from_vector(as_vector)', rtol=1e-6)
    ctx.close(m.as_vector(), v, 'vector round trip', rtol=1e-9)


@facet(P, 'change_active', spec(**target_spec,
                                plan=st.lists(st.one_of(
                                    st.integers(1, 8),
                                    st.floats(.05, .95)), min_size=1,
                                    max_size=4),
                                kind=st.sampled_from(['pdm', 'ortho'])),
       quick=300)
def change_active(ctx, s):
    """Changing the number of active components at any time leaves the model
    in the state of a fresh model with that many components asked to match
    the shape it was showing."""
    shapes = build_shapes(s)
    cls = PDM if s['kind'] == 'pdm' else OrthoPDM
    m = cls(shapes)
    m.set_target(arbitrary_target(s, shapes))
    for n in s['plan']:
        before = PointCloud(m.target.points.copy())
        try:
            m.n_active_components = n
        except ValueError:
            ctx.label('rejected')
            ctx.check(isinstance(n, float), 'integer count rejected')
            continue
        k = m.n_active_components
        if isinstance(n, int):
            ctx.equal(k, min(n, m.model.n_components), 'active components')
        else:
            ev = np.cumsum(m.model._eigenvalues) / m.model.original_variance()
            ctx.check(ev[k - 1] >= n - 1e-9, 'kept variance below the request')
            ctx.check(k == 1 or ev[k - 2] < n + 1e-9,
                      'more components than needed for the kept variance')
        ctx.equal(len(m.weights), k, 'weights after change')
        ctx.equal(m.model.components.shape[0], k, 'components after change')
        m2 = cls(build_shapes(s))
        m2.model.n_active_components = k
        m2.set_target(before)
        ctx.close(m.target.points, m2.target.points,
                  'shape after changing the component count', rtol=1e-6)
        ctx.close(m.as_vector(), m2.as_vector(),
                  'parameters after changing the component count', rtol=1e-6)
    # never destructive: all components can be recovered
    m.n_active_components = m.model.n_components
    ctx.equal(m.n_active_components, m.model.n_components, 'recover')


@facet(P, 'linear_dense', spec(**target_spec, n_sparse=st.integers(3, 4),
                               pseed=gen.seeds), quick=200)
def linear_dense(ctx, s):
    """The linear (dense) model splits one shape into sparse and dense parts,
    and matching the sparse part of a representable shape returns it."""
    shapes = build_shapes(dict(s, n_pts=s['n_pts'] + 8))
    pdm = OrthoPDM(shapes, max_n_components=s['max_c'] or 3)
    n = s['n_sparse'] + 4
    sp = PointCloud(shapes[0].points[:n])
    t = LinearOrthoMDTransform(pdm.model, sp)
    ctx.equal(t.n_landmarks, n, 'n_landmarks')
    rs = gen.rng(s['pseed'])
    mean = t.model.mean().points
    q = mean.dot(gen.rot(s['theta']).T) * s['zoom'] + np.array(s['move'])
    t.set_target(PointCloud(q[:n].copy()))
    ctx.close(np.vstack([t.sparse_target.points, t.dense_target.points]),
              t.target.points, 'sparse+dense is not the whole', rtol=1e-12)
    ctx.close(t.apply(np.zeros((len(mean) - n, 2))), t.dense_target.points,
              'apply gives the dense part', rtol=1e-12)
    V = np.vstack([t.similarity_model.components,
                   t.model.components])[:, :2 * n]
    sv = np.linalg.svd(V, compute_uv=False)
    if V.shape[0] <= 2 * n and sv[-1] > 1e-2 * sv[0]:
        ctx.label('sparse determines dense')
        ctx.close(t.target.points, q, 'sparse part of a representable shape '
                  'does not give the dense shape back', rtol=1e-5)
        ctx.close(t.sparse_target.points, q[:n], 'sparse target', rtol=1e-5)
    full = PointCloud(q.copy())
    t.set_target(full)
    ctx.close(t.target.points, q, 'full size target', rtol=1e-6)
    ctx.equal(t.sparse_target.n_points, n, 'sparse size')
    ctx.equal(t.dense_target.n_points, len(mean) - n, 'dense size')
    J = t.d_dp(None)
    ctx.equal(J.shape, (len(mean) - n, t.n_parameters, 2), 'jacobian shape')
