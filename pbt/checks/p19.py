"""P19: AAM and ATM iterations are Gauss-Newton steps of the reported costs."""
import copy

import numpy as np
from hypothesis import strategies as st
from scipy.ndimage import binary_erosion

from menpo.feature import no_op
from ..core import facet, Discard
from .. import gen, fams
from .p04 import feat_sq

P = 'P19'
KINDS = ['aam_' + k for k in sorted(fams.AAMS)] + \
    ['atm_' + k for k in sorted(fams.ATMS)]


def feature_pyramid(model, im, start):
    """The image each scale works on, and the start of the first one."""
    im = im.copy()
    im.landmarks['x'] = start
    im = im.rescale_to_pointcloud(model.reference_shape, group='x')
    out = []
    for f, s in zip(model.holistic_features, model.scales):
        g = f(im)
        out.append(g.rescale(s) if s != 1 else g)
    return out


class Problem(object):
    """One scale of a model, seen as the least squares problem it poses."""

    def __init__(self, kind, model, k, transform, sampling, image,
                 norm=no_op):
        self.t = copy.deepcopy(transform)
        self.norm = norm
        self.image = image
        self.patch = kind.endswith('patch')
        if kind.startswith('aam'):
            am = model.appearance_models[k]
            self.template = am.mean()
            n = am.n_active_components
            self.A = np.array(am.components)[:n].T
            self.S = np.array(am.eigenvalues)[:n]
        else:
            am = None
            self.template = model.warped_templates[k]
            self.A = None
        self.mean = self.template.as_vector()
        pca = self.t.pdm.model if hasattr(self.t, 'pdm') else self.t.model
        # parameters of the mean
        self.t.set_target(pca.mean())
        self.p0 = self.t.as_vector().copy()
        if self.patch:
            self.ps = tuple(model.patch_shape[k])
            keep = np.ones(self.ps, bool) if sampling is None else sampling
            self.keep = np.broadcast_to(keep, self.template.pixels.shape)
            self.keep = self.keep.ravel()
        else:
            self.mask = self.template.mask.mask
            n_true = int(self.mask.sum())
            keep = np.zeros(n_true, bool)
            if sampling is None:
                keep[:] = True
            elif np.ndim(sampling) == 0:
                keep[::int(sampling)] = True
            else:
                keep[np.asarray(sampling)] = True
            self.keep = np.tile(keep, self.template.n_channels)
            self.idx = np.argwhere(self.mask)
            self.inner = self.mask & binary_erosion(self.mask)
        # where the template is sampled, as a function of the parameters
        if kind.endswith('_masked') and 'linear' not in kind:
            # menpo truncates the systems of thin plate splines, which makes
            # the warp differ from its (analytic) derivative
            self.set(self.p0)
            self.dW = self.t.d_dp(self.idx.astype(float)).transpose(0, 2, 1)
        else:
            self.dW = gen.num_jac(self.where, self.p0, 1e-3)
        # priors
        sv = pca.noise_variance() or 1
        self.s2 = (am.noise_variance() if am is not None else 1.) / sv
        lam = np.array(pca.eigenvalues)[:pca.n_active_components]
        self.prior = np.hstack((np.ones(4), self.s2 / lam))
        if am is not None:
            self.prior_c = self.s2 / self.S
        if self.A is not None:
            self.A = self.A[self.keep]
            self.pinv = np.linalg.pinv(self.A)
        self.mu = self.mean[self.keep]

    def set(self, p):
        self.t = self.t.from_vector(p)

    def where(self, p):
        self.set(p)
        if self.patch:
            return self.t.target.points
        return self.t.apply(self.idx.astype(float))

    def warp(self, p):
        """All samples of the image at p (as the vector of the template)."""
        self.set(p)
        if self.patch:
            h = self.image.extract_patches(self.t.target,
                                           patch_shape=self.ps,
                                           as_single_array=True)
            return self.norm(h).ravel()
        w = self.t.apply(self.idx.astype(float))
        return self.image.sample(w, order=1).ravel()

    def gradient(self, v):
        """Central differences of template-like samples: 2 x n_samples."""
        if self.patch:
            a = v.reshape(self.template.pixels.shape)
            return np.array([np.gradient(a, axis=-2),
                             np.gradient(a, axis=-1)]).reshape(2, -1)
        c = v.reshape(self.template.n_channels, -1)
        full = np.zeros((c.shape[0],) + self.mask.shape)
        full[:, self.mask] = c
        g = np.array([np.gradient(full, axis=-2), np.gradient(full, axis=-1)])
        g[:, :, ~self.inner] = 0
        return g[:, :, self.mask].reshape(2, -1)

    def jac(self, v):
        g = self.gradient(v)
        if self.patch:
            g = g.reshape((2,) + self.template.pixels.shape)
            # patches x offsets x channels x h x w
            J = np.einsum('dpochw,pdk->pochwk', g, self.dW)
            J = J.reshape(-1, J.shape[-1])
        else:
            ch = self.template.n_channels
            g = g.reshape(2, ch, -1)
            J = np.einsum('dcx,xdk->cxk', g, self.dW).reshape(
                -1, self.dW.shape[-1])
        return J[self.keep]

    def out(self, X):
        return X - self.A.dot(self.pinv.dot(X))


def damped(J, r, W, w):
    """argmin |r + J x|^2 + |sqrt(W) (w + x)|^2"""
    H = J.T.dot(J) + np.diag(W)
    if np.linalg.cond(H) > 1e9:
        raise Discard
    return -np.linalg.solve(H, J.T.dot(r) + W * w), H


def centred(p):
    """A normalisation of patches."""
    return p - p.mean(axis=(-3, -2, -1), keepdims=True)


def stretched(p):
    return p / (.5 + p.std(axis=(-2, -1), keepdims=True))


NORMS = [no_op, centred, stretched]


def patch_options(s):
    """Patch shape and normalisation of each scale."""
    n = len(s['scales'])
    ps = [tuple(p) for p in s['ps'][:n]]
    if not s['differ']:
        ps = [ps[0]] * n
    if s['kind'] == 'aam_patch' and s['differ']:
        return ps, [NORMS[(s['norm'] + i) % 3] for i in range(n)]
    return ps, [NORMS[s['norm']]] * n


spec = dict(
    ps=st.lists(st.lists(st.integers(5, 9), min_size=2, max_size=2),
                min_size=3, max_size=3),
    norm=st.sampled_from([0, 0, 1, 2]), differ=st.booleans(),
    seed=gen.seeds, kind=st.sampled_from(KINDS), alg=st.integers(0, 29),
    scales=st.sampled_from([[1.], [.7, 1.], [.6, .8, 1.]]),
    feat=st.booleans(), its=st.lists(st.sampled_from([2, 1, 0, 3, 4, 40]), min_size=3,
                 max_size=3), amp=st.floats(.1, 2.),
    c=st.integers(1, 2), turn=st.floats(-.3, .3),
    n_shape=st.sampled_from([None, 1, 2]), n_app=st.sampled_from([None, 1, 2]),
    sampling=st.sampled_from(['none', 'none', 'step', 'mask']),
    trim=st.booleans(), ms=st.sampled_from([3, 3, 2, None]), costs=st.booleans(),
    eps=st.sampled_from([None, None, .05, .3, 1., 3.]))


def build(s):
    kind = s['kind']
    ims = gen.image_set(s['seed'], 6, 5, n_channels=s['c'], size=(44, 46),
                        noise=.03)
    ps, norms = patch_options(s)
    kw = dict(scales=list(s['scales']), diagonal=32,
              patch_shape=ps if s['differ'] else ps[0],
              holistic_features=[feat_sq if s['feat'] and i % 2 else no_op
                                 for i in range(len(s['scales']))],
              max_shape_components=s['ms'])
    if kind.startswith('aam') and s['trim']:
        kw['max_appearance_components'] = 3
    if kind.endswith('patch'):
        kw['patch_normalisation'] = norms if kind == 'aam_patch' and \
            s['differ'] else norms[0]
    m = fams.make(kind, ims, **kw)
    sm = None
    if s['sampling'] == 'step':
        if not kind.endswith('patch'):
            sm = [2, 3, 4, 6][s['seed'] % 4]
            if s['differ']:
                sm = [[2, np.int64(4), 3][(s['seed'] + j) % 3]
                      for j in range(len(s['scales']))]
        else:
            sm = []
            for q in ps:
                k = np.zeros(q, bool)
                k[::2, ::2] = True
                sm.append(k)
    elif s['sampling'] == 'mask':
        if kind.endswith('patch'):
            sm = []
            for q in ps:
                k = np.ones(q, bool)
                k[:2] = False
                k[3, 4] = False
                sm.append(k)
        else:
            sm = []
            for j in range(len(s['scales'])):
                t = m.appearance_models[j].mean() \
                    if kind.startswith('aam') else m.warped_templates[j]
                n = t.n_true_pixels()
                k = gen.rng(s['seed'], 5, j).rand(n) < .8
                sm.append(k if s['c'] == 1 else np.flatnonzero(k))
    fkw = dict(n_shape=s['n_shape'], sampling=sm)
    if kind.startswith('aam'):
        fkw['n_appearance'] = s['n_app']
    algs = fams.algs(kind)
    alg = algs[s['alg'] % len(algs)]
    f = fams.fitter(kind, m, alg, eps=s['eps'], **fkw)
    per_scale = sm if isinstance(sm, list) else [sm] * len(s['scales'])
    return ims, m, f, alg, per_scale


def step(pr, alg, p, c, J_prev, dp_prev, v, mapi):
    """The expected next shape parameters, the appearance parameters the
    shape step relies on and the Jacobian."""
    inverse = 'Inverse' in alg
    n = len(p)
    P_ = pr.prior if mapi else np.zeros(n)
    i = v[pr.keep]
    if pr.A is None:
        J = pr.jac(pr.mean if inverse else v)
        dp, H = damped(J, i - pr.mu, P_, p)
        return p + dp, None, J, H
    if 'ProjectOut' in alg:
        J = pr.jac(pr.mean if inverse else v)
        dp, H = damped(pr.out(J), pr.out(i - pr.mu), P_, p)
        return p + dp, None, J, H
    return None


def split(r, values):
    out = []
    j = 0
    for n in r.n_iters_per_scale:
        out.append(list(values[j:j + n + 1]))
        j += n + 1
    return out


def judge(ctx, s, mapi):
    ims, m, f, alg, sampling = build(s)
    kind = s['kind']
    inverse = 'Inverse' in alg
    ctx.label(kind)
    ctx.label(alg)
    im = ims[0]
    start = gen.perturb(im.landmarks['PTS'], s['seed'], s['amp'], 1.5)
    c0 = start.points.mean(0)
    start.points[:] = (start.points - c0).dot(gen.rot(s['turn'])) + c0
    kw = {}
    if mapi:
        kw['map_inference'] = True
    try:
        r = f.fit_from_shape(im, start, max_iters=s['its_list'],
                             return_costs=True, **kw)
    except np.linalg.LinAlgError:
        # steps without a unique solution: diverged fits that see nothing but
        # the outside of the image (the first step always has one)
        f.fit_from_shape(im, start, max_iters=[1] + [0] * (len(m.scales) - 1),
                         **kw)
        raise Discard
    pyramid = feature_pyramid(m, im, start)
    ps = split(r, r.shape_parameters)
    costs = split(r, r.costs)
    cs = split(r, r.appearance_parameters) \
        if kind.startswith('aam') and 'ProjectOut' not in alg else None
    steps = 0
    for k in range(len(m.scales)):
        pr = Problem(kind, m, k, f.algorithms[k].transform, sampling[k],
                     pyramid[k], patch_options(s)[1][k])
        vs = [pr.warp(p) for p in ps[k]]
        shapes = []
        for p in ps[k]:
            pr.set(p)
            shapes.append(pr.t.target.points.copy())
        J_prev, dp_prev, d_last, d_before = None, None, None, None
        for j, p in enumerate(ps[k]):
            i = vs[j][pr.keep]
            c = cs[k][j] if cs is not None else None
            if c is not None:
                ctx.equal(len(c), pr.A.shape[1], 'appearance parameters')
            scale = np.sum((i - pr.mu) ** 2) + 1e-12
            # ---- costs --------------------------------------------------
            e = i - pr.mu
            if pr.A is not None and ('ProjectOut' in alg or 'Wiberg' in alg):
                e = pr.out(e)
            elif pr.A is not None:
                e = e - pr.A.dot(c)
            ctx.close(costs[k][j], np.sum(e ** 2),
                      'cost of iteration %d' % j, rtol=1e-6, scale=scale)
            # ---- appearance parameters ----------------------------------
            if c is not None:
                best = pr.pinv.dot(i - pr.mu)
                cscale = np.linalg.norm(best) + np.linalg.norm(c) + 1e-9
                if j == 0 or 'Modified' in alg:
                    ctx.close(c, best, 'appearance parameters: projection',
                              rtol=1e-6, scale=cscale)
                elif 'Wiberg' in alg:
                    # with the linear prediction of the last step
                    d = pr.pinv.dot(J_prev.dot(dp_prev))
                    err = min(np.abs(c - best - x * d).max() for x in (0, 1))
                    ctx.check(err <= 1e-6 * cscale, 'appearance parameters '
                              'are not those of the image: %.3g', err)
                elif 'Alternating' in alg and not mapi:
                    last = pr.pinv.dot(vs[j - 1][pr.keep] - pr.mu)
                    cand = [last]
                    if d_before is not None:
                        cand.append(last + d_before)
                    err = min(np.abs(c - x).max() for x in cand)
                    ctx.check(err <= 1e-6 * cscale, 'appearance parameters '
                              'are not those of the image: %.3g', err)
            # ---- the step -----------------------------------------------
            if j + 1 == len(ps[k]):
                break
            v = vs[j]
            P_ = pr.prior if mapi else np.zeros(len(p))
            if pr.A is None:
                J = pr.jac(pr.mean if inverse else v)
                dp, H = damped(J, e, P_, p)
            elif 'ProjectOut' in alg:
                J = pr.jac(pr.mean if inverse else v)
                dp, H = damped(pr.out(J), pr.out(i - pr.mu), P_, p)
            elif 'Wiberg' in alg:
                J = pr.jac(template(m, k, c) if inverse else v)
                dp, H = damped(pr.out(J), pr.out(i - pr.mu), P_, p)
            elif 'Simultaneous' in alg:
                J = pr.jac(template(m, k, c) if inverse else v)
                Wc = pr.prior_c if mapi else np.zeros(len(c))
                q, H = damped(np.hstack((-pr.A, J)), e,
                              np.hstack((Wc, P_)), np.hstack((c, p)))
                dp = q[len(c):]
                ctx.close(cs[k][j + 1] - c, q[:len(c)], 'appearance step',
                          rtol=1e-5, scale=np.abs(q[:len(c)]).max() +
                          1e-3 * np.abs(c).max())
            else:
                J = pr.jac(template(m, k, c) if inverse else v)
                res = e
                if 'Modified' not in alg:
                    res = e - pr.A.dot(cs[k][j + 1] - c)
                    if mapi and j == 0:
                        # ridge step of the appearance parameters
                        dc, _ = damped(-pr.A, e, pr.prior_c, c)
                        ctx.close(cs[k][1] - c, dc, 'appearance step',
                                  rtol=1e-5, scale=np.abs(dc).max() +
                                  1e-3 * np.abs(c).max())
                dp, H = damped(J, res, P_, p)
            got = ps[k][j + 1] - p
            steps += 1
            # compare what the steps do to the samples, and the numbers
            ctx.close(J.dot(got), J.dot(dp), 'effect of step %d on the '
                      'samples' % j, rtol=1e-5,
                      scale=np.abs(J.dot(dp)).max() + 1e-6)
            ctx.close(got, dp, 'step %d of the parameters' % j, rtol=1e-5,
                      scale=np.abs(dp).max() + 1e-4)
            J_prev, dp_prev = J, got
            d_before = d_last
            d_last = pr.pinv.dot(J.dot(got)) if pr.A is not None else None
        # ---- when to stop -----------------------------------------------
        moves = [np.linalg.norm(b - a) for a, b in zip(shapes, shapes[1:])]
        eps = 1e-5 if s['eps'] is None else s['eps']
        slack = 1e-7 if s['eps'] is None else 1e-6
        if len(moves) < s['its_list'][k]:
            ctx.check(moves[-1] <= eps + slack, 'stopped after %d iterations '
                      'although the shape still moved by %.3g',
                      len(moves), moves[-1])
            if s['eps'] is not None:
                ctx.label('stopped by a given tolerance')
        ctx.check(len(moves) <= s['its_list'][k], 'too many iterations')
        ctx.check(all(x > eps - slack for x in moves[:-1]),
                  'went on after convergence')
    ctx.nontrivial(steps > 0)


def template(m, k, c):
    return m.appearance_models[k].instance(c).as_vector()


def its_list(s):
    n = 1 if s['eps'] is None else 4
    return [n * k for k in s['its'][:len(s['scales'])]]


@facet(P, 'steps', st.fixed_dictionaries(spec), quick=260,
       rule='at least one iteration was judged')
def steps(ctx, s):
    """Costs and iterations without priors."""
    judge(ctx, dict(s, its_list=its_list(s)), False)


@facet(P, 'map', st.fixed_dictionaries(spec), quick=160,
       rule='at least one iteration was judged')
def map_(ctx, s):
    """Costs and iterations with priors (map_inference)."""
    judge(ctx, dict(s, its_list=its_list(s)), True)
