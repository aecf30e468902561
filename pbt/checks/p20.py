"""P20: steps of part-based fitters (CLM, APS, unified AAM-CLM)."""
import copy
from functools import partial

import numpy as np
from hypothesis import strategies as st
from scipy.ndimage import binary_erosion

from menpo.feature import no_op
from menpofit import aps, clm
from menpofit import unified_aam_clm as uni
from menpofit.clm import CorrelationFilterExpertEnsemble
from ..core import facet, Discard
from .. import gen, fams
from .p04 import feat_sq
from .p19 import feature_pyramid, split, NORMS

P = 'P20'


def window(shape):
    """Offsets of a search window: integers around its centre pixel."""
    h, w = int(shape[0]), int(shape[1])
    yy, xx = np.mgrid[:h, :w]
    return np.stack([yy - h // 2, xx - w // 2], -1).astype(float)


def gauss(x, cov):
    return np.exp(-(x ** 2).sum(-1) / (2. * cov)) / (2 * np.pi * cov)


def solve(H, b):
    if np.linalg.cond(H) > 1e9:
        raise Discard
    return np.linalg.solve(H, b)


class Shapes(object):
    """A copy of the shape model of one scale of a fitter."""

    def __init__(self, pdm):
        self.t = copy.deepcopy(pdm)
        m = self.t.model
        self.mean = m.mean().points.copy()
        self.t.set_target(m.mean())
        self.p0 = self.t.as_vector().copy()
        self.J = gen.num_jac(lambda p: self.points(p).ravel(), self.p0, 1.)
        self.lam = np.array(m.eigenvalues)[:m.n_active_components]
        self.noise = m.noise_variance()

    def at(self, p):
        self.t = self.t.from_vector(p)
        return self.t.target

    def points(self, p):
        return self.at(p).points


def check_steps(ctx, s, ps, dp_of, shapes, J):
    """Every step is the expected one, stopping included."""
    n = 0
    for j in range(len(ps) - 1):
        got = ps[j + 1] - ps[j]
        dp = dp_of(j)
        if dp is None:
            continue
        n += 1
        ctx.close(J.dot(got), J.dot(dp), 'move of the points in step %d' % j,
                  rtol=1e-5, scale=np.abs(J.dot(dp)).max() + 1e-5)
        ctx.close(got, dp, 'step %d of the parameters' % j, rtol=1e-5,
                  scale=np.abs(dp).max() + 1e-5)
    return n


def check_stop(ctx, s, shapes, limit):
    eps = 1e-5 if s['eps'] is None else s['eps']
    slack = 1e-7 if s['eps'] is None else 1e-6
    moves = [np.linalg.norm(b - a) for a, b in zip(shapes, shapes[1:])]
    ctx.check(len(moves) <= limit, 'too many iterations')
    if len(moves) < limit:
        ctx.check(moves and moves[-1] <= eps + slack, 'stopped after %d '
                  'iterations although the shape still moved', len(moves))
        if s['eps'] is not None:
            ctx.label('stopped by a given tolerance')
    ctx.check(all(x > eps - slack for x in moves[:-1]),
              'went on after convergence')


def limits(s):
    n = 1 if s['eps'] is None else 4
    return [n * k for k in s['its'][:len(s['scales'])]]


def start_of(s, im):
    start = gen.perturb(im.landmarks['PTS'], s['seed'], s['amp'], 1.5)
    c0 = start.points.mean(0)
    start.points[:] = (start.points - c0).dot(gen.rot(s['turn'])) + c0
    return start


def feats(s):
    return [feat_sq if s['feat'] and i % 2 else no_op
            for i in range(len(s['scales']))]


BASE = dict(
    seed=gen.seeds, scales=st.sampled_from([[1.], [.7, 1.], [.6, .8, 1.]]),
    feat=st.booleans(),
    its=st.lists(st.sampled_from([3, 2, 1, 0, 5, 40]), min_size=3,
                 max_size=3), amp=st.floats(.1, 2.), c=st.integers(1, 2),
    turn=st.floats(-.3, .3), n_shape=st.sampled_from([None, 1, 2]),
    trim=st.sampled_from([3, 3, None, .95]),
    eps=st.sampled_from([None, None, .05, .3, 1., 3.]))


# ------------------------------------------------------------------------ CLM
@facet(P, 'clm', st.fixed_dictionaries(dict(
    BASE, alg=st.sampled_from(['rlms', 'asm']), map=st.booleans(),
    patch=st.lists(st.integers(3, 12), min_size=2, max_size=2),
    cov=st.sampled_from([None, 10, 1., 3., 40.]),
    offsets=st.booleans(), norm=st.booleans())), quick=380,
    rule='at least one iteration was judged')
def clm_steps(ctx, s):
    """Constrained local models: the target of every point is the mean of its
    search window under the (smoothed) responses; the shape parameters move
    by the least squares step, or by the ridge step of the shape prior."""
    n_sc = len(s['scales'])
    ims = gen.image_set(s['seed'], 7, 5, n_channels=s['c'], size=(50, 52),
                        noise=.03)
    extra = {}
    if s['norm']:
        extra['expert_ensemble_cls'] = partial(
            CorrelationFilterExpertEnsemble, response_covariance=5)
    if s['offsets']:
        extra['sample_offsets'] = np.array([[0, 0], [0, 1], [-1, 0]])
    m = fams.make('clm', ims, scales=list(s['scales']), diagonal=32,
                  patch_shape=tuple(s['patch']), context_shape=(17, 16),
                  holistic_features=feats(s), max_shape_components=s['trim'],
                  extra=extra)
    rlms = s['alg'] == 'rlms'
    cls = clm.RegularisedLandmarkMeanShift if rlms else clm.ActiveShapeModel
    cov = 10 if s['cov'] is None else s['cov']
    if s['cov'] is not None:
        cls = partial(cls, **{'kernel_covariance' if rlms else
                              'gaussian_covariance': cov})
    cls = fams.tolerant(cls, s['eps'])
    f = clm.GradientDescentCLMFitter(m, gd_algorithm_cls=cls,
                                     n_shape=s['n_shape'])
    ctx.label('%s%s' % (s['alg'], ' map' if s['map'] else ''))
    ctx.label('window %s' % ('odd' if all(k % 2 for k in s['patch']) else
                             'even'))
    its = limits(s)
    im = ims[0]
    start = start_of(s, im)
    kw = {'map_inference': True} if s['map'] else {}
    r = f.fit_from_shape(im, start, max_iters=its, **kw)
    pyramid = feature_pyramid(m, im, start)
    n = 0
    for k, ps in enumerate(split(r, r.shape_parameters)):
        sh = Shapes(f.algorithms[k].transform)
        ens = m.expert_ensembles[k]
        g = window(ens.search_shape)
        J = sh.J
        H = J.T.dot(J)
        prior = np.hstack((np.zeros(4), sh.noise / sh.lam)) if s['map'] \
            else np.zeros(len(sh.p0))

        def dp_of(j):
            cur = sh.at(ps[j])
            resp = ens.predict_probability(pyramid[k], cur)
            resp = resp.reshape((-1,) + g.shape[:2])
            e = np.zeros((len(resp), 2))
            for i, q in enumerate(resp):
                if rlms:
                    w = q * gauss(g, cov)
                else:
                    o = g[np.unravel_index(np.argmax(q), q.shape)]
                    w = gauss(g - o, cov)
                e[i] = (w[..., None] * g).sum((0, 1)) / w.sum()
            return solve(H + np.diag(prior),
                         J.T.dot(e.ravel()) - prior * ps[j])
        shapes = [sh.points(p) for p in ps]
        n += check_steps(ctx, s, ps, dp_of, shapes, J)
        check_stop(ctx, s, shapes, its[k])
    ctx.nontrivial(n > 0)


# ------------------------------------------------------------------------ APS
@facet(P, 'aps', st.fixed_dictionaries(dict(
    BASE, alg=st.sampled_from(['Inverse', 'Forward']),
    sampling=st.sampled_from(['none', 'one', 'scale']),
    weight=st.sampled_from([None, 0., 1., 25., 1000., 'list']),
    procrustes=st.booleans(), costs=st.booleans(),
    norm=st.sampled_from([None, 0, 1, 2]),
    patch=st.lists(st.lists(st.integers(5, 8), min_size=2, max_size=2),
                   min_size=3, max_size=3))), quick=200,
    rule='at least one iteration was judged')
def aps_steps(ctx, s):
    """Active pictorial structures: costs are Mahalanobis distances of the
    (sampled) appearance and the weighted deformation; the shape parameters
    move by the Gauss-Newton step of their sum."""
    n_sc = len(s['scales'])
    ims = gen.image_set(s['seed'], 7, 5, n_channels=s['c'], size=(50, 52),
                        noise=.05)
    pshapes = [tuple(p) for p in s['patch'][:n_sc]]
    norms = [NORMS[((s['norm'] or 0) + j) % 3 if s['norm'] is not None else 0]
             for j in range(n_sc)]
    m = fams.make('aps', ims, scales=list(s['scales']), diagonal=32,
                  patch_shape=pshapes, holistic_features=feats(s),
                  max_shape_components=s['trim'],
                  max_appearance_components=3,
                  extra=dict(patch_normalisation=norms,
                             use_procrustes=s['procrustes'],
                             deformation_graph=None))
    sm = None
    if s['sampling'] != 'none':
        sm = []
        for j, pshape in enumerate(pshapes):
            kk = np.ones(pshape, bool)
            if s['sampling'] == 'one':
                kk[1::2] = False
            else:
                kk = gen.rng(s['seed'], 4, j).rand(*pshape) < .7
                kk[2, 2] = True
            sm.append(kk)
    kw = {}
    w = [200.] * n_sc
    if s['weight'] == 'list':
        w = [5., 100., 30.][:n_sc]
        kw['weight'] = list(w)
    elif s['weight'] is not None:
        w = [s['weight']] * n_sc
        kw['weight'] = s['weight']
    try:
        f = aps.GaussNewtonAPSFitter(m, gn_algorithm_cls=fams.tolerant(
            getattr(aps, s['alg']), s['eps']),
                                     n_shape=s['n_shape'], sampling=sm, **kw)
    except np.linalg.LinAlgError:
        if min(w) > 0:
            raise
        # the appearance alone does not determine the shape
        raise Discard
    ctx.label(s['alg'])
    ctx.label('sampling %s' % s['sampling'])
    ctx.label('procrustes' if s['procrustes'] else 'no procrustes')
    its = limits(s)
    im = ims[0]
    start = start_of(s, im)
    try:
        r = f.fit_from_shape(im, start, max_iters=its,
                             return_costs=s['costs'])
    except np.linalg.LinAlgError:
        if min(w) > 0:
            raise
        raise Discard
    pyramid = feature_pyramid(m, im, start)
    pp = split(r, r.shape_parameters)
    if s['costs']:
        tot = split(r, r.costs)
        app = split(r, r.appearance_costs)
        dfm = split(r, r.deformation_costs)
    else:
        ctx.check(r.costs is None, 'costs were not asked for')
    n = 0
    for k, ps in enumerate(pp):
        sh = Shapes(f.algorithms[k].transform)
        am = m.appearance_models[k]
        tmpl = am.mean()
        keep = np.ones(pshapes[k], bool) if sm is None else sm[k]
        keep = np.broadcast_to(keep, tmpl.pixels.shape).ravel()
        Q = am.precision
        Q = Q.toarray() if hasattr(Q, 'toarray') else np.asarray(Q)
        Q = Q[np.ix_(keep, keep)].astype(float)
        Qd = m.deformation_models[k].precision
        Qd = Qd.toarray() if hasattr(Qd, 'toarray') else np.asarray(Qd)
        S = sh.J
        Hs = w[k] * S.T.dot(Qd).dot(S)
        mu = tmpl.as_vector()

        def warp(p):
            return norms[k](pyramid[k].extract_patches(
                sh.at(p), patch_shape=pshapes[k], as_single_array=True))

        def jac(a):
            d = np.array([np.gradient(a, axis=-2), np.gradient(a, axis=-1)])
            Jp = S.reshape(-1, 2, S.shape[1])
            J = np.einsum('dpochw,pdk->pochwk', d, Jp)
            return J.reshape(-1, S.shape[1])[keep]
        es, vs = [], []
        for p in ps:
            vs.append(warp(p))
            es.append((vs[-1].ravel() - mu)[keep])
        if s['costs']:
            for j, p in enumerate(ps):
                a = es[j].dot(Q).dot(es[j])
                # the deformation model knows about the mean it was built
                # with: of the aligned shapes, or of the shapes as they are
                q = sh.points(p).ravel() - m.deformation_models[k].mean_vector
                d = w[k] * q.dot(Qd).dot(q)
                ctx.close(app[k][j], a, 'appearance cost', rtol=1e-4)
                ctx.close(dfm[k][j], d, 'deformation cost', rtol=1e-4,
                          scale=w[k] * np.abs(q).dot(np.abs(Qd)).dot(
                              np.abs(q)) * 1e-3 + abs(d))
                ctx.close(tot[k][j], app[k][j] + dfm[k][j], 'total cost',
                          rtol=1e-6)

        def dp_of(j):
            J = jac(tmpl.pixels if s['alg'] == 'Inverse' else vs[j])
            q = ps[j].copy()
            if s['procrustes']:
                q[:4] = 0
            return solve(J.T.dot(Q).dot(J) + Hs,
                         -J.T.dot(Q).dot(es[j]) - Hs.dot(q))
        shapes = [sh.points(p) for p in ps]
        n += check_steps(ctx, s, ps, dp_of, shapes, S)
        check_stop(ctx, s, shapes, its[k])
    ctx.nontrivial(n > 0)


# -------------------------------------------------------------------- unified
@facet(P, 'unified', st.fixed_dictionaries(dict(
    BASE, alg=st.sampled_from(['ProjectOut', 'Alternating']),
    prior=st.booleans(), a=st.sampled_from([None, .5, .2, .9, 0., 1.]),
    sampling=st.sampled_from(['none', 'step', 'mask']),
    n_app=st.sampled_from([None, 1, 2]), rc=st.sampled_from([None, 1, 5]),
    patch=st.lists(st.integers(5, 11), min_size=2, max_size=2))), quick=200,
    rule='at least one iteration was judged')
def unified_steps(ctx, s):
    """Unified models: steps minimise the weighted sum of the appearance and
    the landmark terms (and the shape prior, when it is asked for)."""
    n_sc = len(s['scales'])
    ims = gen.image_set(s['seed'], 7, 6, n_channels=s['c'], size=(50, 52),
                        noise=.05)
    extra = {}
    if s['rc'] is not None:
        extra['response_covariance'] = s['rc']
    rc = 2 if s['rc'] is None else s['rc']
    m = fams.make('uni', ims, scales=list(s['scales']), diagonal=32,
                  patch_shape=tuple(s['patch']), holistic_features=feats(s),
                  max_shape_components=3, max_appearance_components=3,
                  extra=extra)
    sm = None
    if s['sampling'] == 'step':
        sm = 2
    elif s['sampling'] == 'mask':
        sm = []
        for j in range(n_sc):
            n = m.appearance_models[j].mean().n_true_pixels()
            sm.append(gen.rng(s['seed'], 5, j).rand(n) < .8)
    cls = fams.tolerant(getattr(
        uni, s['alg'] + 'RegularisedLandmarkMeanShift'), s['eps'])
    f = uni.UnifiedAAMCLMFitter(m, algorithm_cls=cls, n_shape=s['n_shape'],
                                n_appearance=s['n_app'], sampling=sm)
    ctx.label('%s%s' % (s['alg'], ' prior' if s['prior'] else ''))
    ctx.label('a = %s' % s['a'])
    its = limits(s)
    im = ims[0]
    start = start_of(s, im)
    kw = {}
    if s['prior']:
        kw['prior'] = True
    a = .5
    if s['a'] is not None:
        a = kw['a'] = s['a']
    r = f.fit_from_shape(im, start, max_iters=its, **kw)
    pyramid = feature_pyramid(m, im, start)
    cs = None
    if s['alg'] == 'Alternating':
        cs = split(r, r.appearance_parameters)
    n = 0
    for k, ps in enumerate(split(r, r.shape_parameters)):
        t = copy.deepcopy(f.algorithms[k].transform)
        sh = Shapes(t.pdm)
        am = m.appearance_models[k]
        tmpl = am.mean()
        mask = tmpl.mask.mask
        inner = mask & binary_erosion(mask)
        nt = int(mask.sum())
        keep = np.zeros(nt, bool)
        if sm is None:
            keep[:] = True
        elif not isinstance(sm, list):
            keep[::sm] = True
        else:
            keep = sm[k]
        keep = np.tile(keep, tmpl.n_channels)
        na = am.n_active_components
        U_all = np.array(am.components)[:na].T
        U = U_all[keep]
        pinv = np.linalg.pinv(U)
        mu = tmpl.as_vector()
        idx = np.argwhere(mask).astype(float)

        def where(p):
            return t.from_vector(p).apply(idx)
        t.set_target(t.pdm.model.mean())
        dW = gen.num_jac(where, t.as_vector().copy(), 1e-3)
        inv_s2 = am.inverse_noise_variance()
        inv_r2 = t.pdm.model.inverse_noise_variance()
        ens = m.expert_ensembles[k]
        g = window(ens.search_shape)
        kern = gauss(g, rc * inv_r2)
        pr = np.hstack((np.zeros(4), 1. / sh.lam)) if s['prior'] else \
            np.zeros(len(sh.p0))
        Jc = sh.J

        def jac(v):
            c = v.reshape(tmpl.n_channels, -1)
            full = np.zeros((c.shape[0],) + mask.shape)
            full[:, mask] = c
            d = np.array([np.gradient(full, axis=-2),
                          np.gradient(full, axis=-1)])
            d[:, :, ~inner] = 0
            d = d[:, :, mask]
            return np.einsum('dcx,xdk->cxk', d, dW).reshape(
                -1, dW.shape[-1])[keep]

        def dp_of(j):
            p = ps[j]
            i = pyramid[k].sample(t.from_vector(p).apply(idx),
                                  order=1).ravel()[keep]
            e = mu[keep] - i
            if cs is None:
                J = jac(mu)
                J = J - U.dot(pinv.dot(J))
            else:
                c = pinv.dot(i - mu[keep])
                ctx.close(cs[k][j], c, 'appearance parameters', rtol=1e-6)
                J = jac(mu + U_all.dot(c))
                e = mu[keep] + U.dot(c) - i
            resp = ens.predict_probability(pyramid[k], sh.at(p))
            q = resp.reshape((-1,) + g.shape[:2]) * kern
            ec = (q[..., None] * g).sum((1, 2)) / q.sum((1, 2))[:, None]
            H = a * inv_s2 * J.T.dot(J) + (1 - a) * inv_r2 * Jc.T.dot(Jc) + \
                np.diag(pr)
            return solve(H, a * inv_s2 * J.T.dot(e) +
                         (1 - a) * inv_r2 * Jc.T.dot(ec.ravel()) - pr * p)
        shapes = [sh.points(p) for p in ps]
        n += check_steps(ctx, s, ps, dp_of, shapes, Jc)
        check_stop(ctx, s, shapes, its[k])
    ctx.nontrivial(n > 0)
