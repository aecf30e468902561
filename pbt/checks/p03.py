"""P03: incrementally updated shape models equal models built in one go."""
import copy

import numpy as np
from hypothesis import strategies as st

from menpo.shape import PointCloud
from menpofit.modelinstance import PDM, GlobalPDM, OrthoPDM
from menpofit.transform import (DifferentiableAlignmentAffine,
                                DifferentiableAlignmentSimilarity)
from ..core import facet
from .. import gen
from ..ref import align_shapes

P = 'P03'

batch = st.fixed_dictionaries({
    'n': st.integers(1, 5),
    'ff': st.sampled_from([1., 1., 1., .5, .8, 0.1]),
    # (1. keeps all there is)
    'max_c': st.one_of(st.none(), st.just(1.), st.integers(1, 6)),
})

spec = {
    'seed': gen.seeds,
    'n_pts': st.integers(4, 10),
    'n_shapes': st.integers(3, 7),
    'amp': st.sampled_from([.03, .1]),
    'scale': st.sampled_from([1., 30.]),
    'max_c': st.one_of(st.none(), st.integers(1, 4)),
    'batches': st.lists(batch, min_size=1, max_size=3),
    'theta': st.floats(-3, 3).map(lambda x: round(x, 2)),
    'kind': st.sampled_from(['pdm', 'affine', 'similarity']),
    'gen': st.booleans(),
}


def shapes_of(s):
    n = s['n_shapes'] + sum(b['n'] for b in s['batches'])
    all_ = gen.shape_set(s['seed'], n, s['n_pts'], amp=s['amp'],
                         scale=s['scale'])
    out = [all_[:s['n_shapes']]]
    k = s['n_shapes']
    for b in s['batches']:
        out.append(all_[k:k + b['n']])
        k += b['n']
    return out


def build(kind, shapes, max_c):
    if kind == 'pdm':
        return PDM(shapes, max_n_components=max_c)
    if kind == 'ortho':
        return OrthoPDM(shapes, max_n_components=max_c)
    return GlobalPDM(shapes, DifferentiableAlignmentAffine if kind == 'affine'
                     else DifferentiableAlignmentSimilarity,
                     max_n_components=max_c)


def limit_of(b):
    return None if isinstance(b['max_c'], float) else b['max_c']


def increment(m, g, b, lazily):
    """Increments, possibly from an iterator that has more to give."""
    src = [PointCloud(x.points.copy()) for x in g]
    if lazily:
        more = iter(src + [PointCloud(9. * x.points[::-1]) for x in g])
        m.increment(more, n_shapes=len(src), forgetting_factor=b['ff'],
                    max_n_components=b['max_c'])
    else:
        m.increment(src, forgetting_factor=b['ff'],
                    max_n_components=b['max_c'])
    return src


def vecs(shapes):
    return np.array([a.as_vector() for a in align_shapes(shapes)])


def eig(C):
    l, U = np.linalg.eigh((C + C.T) / 2)
    o = np.argsort(-l)
    return l[o], U[:, o]


@facet(P, 'incremental_pca', st.fixed_dictionaries(spec), quick=400,
       rule='every case increments at least once')
def incremental_pca(ctx, s):
    """Mean, variances and component subspace after any sequence of increments
    are those of (forgetting-weighted, truncated) PCA over all shapes."""
    groups = shapes_of(s)
    m = build(s['kind'], groups[0], s['max_c'])
    X = vecs(groups[0])
    mu, n = X.mean(0), len(X)
    S = (X - mu).T.dot(X - mu)
    full = s['max_c'] is None

    def trunc(S, n, k):
        l, U = eig(S)
        return (U[:, :k] * l[:k]).dot(U[:, :k].T), \
            (l[k - 1] - l[k]) / l[0] if k < len(l) else 1.

    gap = 1.
    if s['max_c'] is not None:
        S, gap = trunc(S, n, m.model.n_components)
    for b, g in zip(s['batches'], groups[1:]):
        if limit_of(b) is not None:
            full = False
        src = increment(m, g, b, s['gen'])
        for a, c in zip(src, g):
            ctx.check(np.array_equal(a.points, c.points),
                      'the given shapes were modified')
        Y = vecs(g)
        nb, mb = len(Y), Y.mean(0)
        na = n * b['ff']
        S = b['ff'] ** 2 * S + (Y - mb).T.dot(Y - mb) + \
            na * nb / (na + nb) * np.outer(mb - mu, mb - mu)
        mu = (na * mu + nb * mb) / (na + nb)
        # the stored spectrum is S / (weighted n - 1); it is un-normalised
        # with the true sample count at the next increment
        S = S / (na + nb - 1)
        n = n + nb
        l, U = eig(S)
        r = int((l > 1e-9 * l[0]).sum())
        k = m.model.n_components
        if limit_of(b) is not None:
            ctx.check(k == min(b['max_c'], r) or l[k] < 1e-6 * l[0],
                      'component limit not honoured: %d of %d' % (k, r))
        elif full:
            ctx.check(k >= r or l[k] < 1e-6 * l[0], 'components were lost')
        gap = min(gap, (l[k - 1] - l[k]) / l[0] if k < len(l) else 1.)
        sc = np.abs(mu).max()
        ctx.close(m.model.mean().as_vector(), mu, 'mean', rtol=1e-7)
        if gap < 1e-4:
            ctx.label('tie')
            return
        kk = min(k, r)
        ctx.close(m.model.eigenvalues[:kk], l[:kk], 'variances', rtol=1e-5,
                  atol=1e-9 * l[0])
        Pm = m.model.components[:kk].T.dot(m.model.components[:kk])
        Pr = U[:, :kk].dot(U[:, :kk].T)
        ctx.close(Pm, Pr, 'subspace', rtol=0, atol=1e-3)
        ctx.close(Pm.dot(S).dot(Pm), Pr.dot(S).dot(Pr), 'explained covariance',
                  rtol=1e-5)
        ctx.equal(m.n_active_components, m.model.n_active_components,
                  'active components')
        ctx.equal(len(m.weights), m.n_active_components, 'weights length')
        if k < r:
            S, _ = trunc(S, n, k)
        S = S * (n - 1)
    ctx.label('ff' if any(b['ff'] < 1 for b in s['batches']) else 'plain')
    if full and all(b['ff'] == 1 for b in s['batches']):
        ctx.label('batch')
        A = np.vstack([vecs(g) for g in groups])
        ctx.close(m.model.mean().as_vector(), A.mean(0), 'batch mean',
                  rtol=1e-7)
        C = m.model.components
        ctx.close((C.T * m.model.eigenvalues).dot(C),
                  np.cov(A, rowvar=False), 'batch covariance', rtol=1e-6)
        for a in A:
            r = a - A.mean(0)
            ctx.close(C.T.dot(C.dot(r)), r, 'training shape not spanned',
                      rtol=1e-4, atol=1e-5 * sc)


def sim_of(points, s, rs):
    return points.dot(gen.rot(s['theta']).T) * rs.uniform(.4, 2.) + \
        10 * rs.randn(2)


@facet(P, 'state_kept', st.fixed_dictionaries(spec), quick=300)
def state_kept(ctx, s):
    """After an increment the model shows what a model with the new mean and
    components shows for the shape it was showing before."""
    groups = shapes_of(s)
    m = build(s['kind'], groups[0], s['max_c'])
    rs = gen.rng(s['seed'], 5)
    q = sim_of(m.model.mean().points, s, rs)
    m.set_target(PointCloud(q + .1 * s['scale'] * rs.randn(*q.shape)))
    for b, g in zip(s['batches'], groups[1:]):
        before = m.target.points.copy()
        increment(m, g, b, s['gen'])
        mu = m.model.mean().points
        C = m.model.components
        if s['kind'] == 'pdm':
            r = (before - mu).ravel()
            exp = mu + C.T.dot(C.dot(r)).reshape(-1, 2)
        else:
            G = DifferentiableAlignmentAffine if s['kind'] == 'affine' else \
                DifferentiableAlignmentSimilarity
            t = G(PointCloud(mu), PointCloud(before))
            r = (t.pseudoinverse().apply(before) - mu).ravel()
            exp = t.apply(mu + C.T.dot(C.dot(r)).reshape(-1, 2))
        ctx.close(m.target.points, exp, 'shape shown after the increment',
                  rtol=1e-5)
        ctx.equal(m.n_weights, m.model.n_active_components, 'n_weights')
        v = np.array(m.as_vector())
        x = m.target.points.copy()
        m._from_vector_inplace(v.copy())
        ctx.close(m.target.points, x, 'parameters do not describe the shown '
                  'shape', rtol=1e-9)


@facet(P, 'ortho', st.fixed_dictionaries(
    {k: v for k, v in spec.items() if k != 'kind'}), quick=400)
def ortho(ctx, s):
    """The orthogonalised model after any sequence of increments: same mean
    and deformations as re-orthogonalising the incremented model, one
    orthonormal family, exact similarities, consistent parameters."""
    groups = shapes_of(s)
    m = build('ortho', groups[0], s['max_c'])
    seen = len(groups[0])
    rs = gen.rng(s['seed'], 7)
    q = sim_of(m.model.mean().points, s, rs)
    m.set_target(PointCloud(q + .1 * s['scale'] * rs.randn(*q.shape)))
    for b, g in zip(s['batches'], groups[1:]):
        ref = copy.deepcopy(m.model)
        # everything seen so far counts, whatever the model itself recorded
        ref.n_samples = seen
        seen += len(g)
        before = m.target.points.copy()
        increment(m, g, b, s['gen'])
        ref.increment([PointCloud(v.reshape(-1, 2)) for v in vecs(g)],
                      forgetting_factor=b['ff'])
        if limit_of(b) is not None:
            ref.trim_components(b['max_c'])
        mu = ref.mean().points
        ctx.close(m.model.mean().points, mu, 'mean', rtol=1e-7)
        sim = m.similarity_model.components
        C = m.model.components
        W = np.vstack([sim, C])
        ctx.close(W.dot(W.T), np.eye(len(W)), 'not orthonormal', rtol=0,
                  atol=1e-7)
        # similarity components span rotations/scales/translations of the mean
        n = len(mu)
        A = np.zeros((2 * n, 4))
        A[0::2, 0], A[0::2, 1], A[0::2, 2] = mu[:, 0], -mu[:, 1], 1
        A[1::2, 0], A[1::2, 1], A[1::2, 3] = mu[:, 1], mu[:, 0], 1
        Q = np.linalg.qr(A)[0]
        ctx.close(sim.T.dot(sim), Q.dot(Q.T), 'similarity space', rtol=0,
                  atol=1e-6)
        R = ref.components - ref.components.dot(Q).dot(Q.T)
        u, sv, vt = np.linalg.svd(R, full_matrices=False)
        k = int((sv > 1e-3).sum())
        if m.model.n_components == len(C) and \
                m.n_active_components == m.model.n_components:
            # every (clearly) non-rigid direction is still represented
            ctx.close(C.T.dot(C.dot(vt[:k].T)), vt[:k].T, 'deformation space',
                      rtol=0, atol=1e-4)
        # shown shape: motion of the new mean + deformation
        sv_ = Q.dot(Q.T.dot(before.ravel() - mu.ravel())) + mu.ravel()
        simp = sv_.reshape(-1, 2)
        g_ = np.linalg.lstsq(A, sv_, rcond=None)[0]
        L = np.array([[g_[0], -g_[1]], [g_[1], g_[0]]])
        D = np.stack([c.reshape(-1, 2).dot(L.T).ravel() for c in C], 1) \
            if len(C) else np.zeros((2 * n, 0))
        w = np.linalg.lstsq(D, before.ravel() - sv_, rcond=None)[0]
        exp = sv_ + D.dot(w)
        if np.linalg.norm(L[0]) > 1e-2:
            ctx.close(m.target.as_vector(), exp, 'shape shown after the '
                      'increment', rtol=1e-5)
        ctx.close(m.global_transform.apply(m.model.mean()).points, simp,
                  'global motion after the increment', rtol=1e-6)
        q = sim_of(mu, s, rs)
        m.set_target(PointCloud(q.copy()))
        ctx.close(m.target.points, q, 'similarity of the new mean is not '
                  'reproduced', rtol=1e-6)
        ctx.close(m.weights, np.zeros(m.n_weights), 'deformation weights of a '
                  'rigid motion', atol=1e-5 * s['scale'])
        v = np.array(m.as_vector())
        v[4:] = rs.randn(len(v) - 4) * np.sqrt(np.abs(m.model.eigenvalues))
        m._from_vector_inplace(v.copy())
        x = m.target.points.copy()
        m.set_target(PointCloud(x.copy()))
        ctx.close(m.target.points, x, 'round trip', rtol=1e-6)
        ctx.close(m.as_vector(), v, 'round trip parameters', rtol=1e-5,
                  atol=1e-6)
