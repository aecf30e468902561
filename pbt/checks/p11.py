"""P11: linear regressions (closed form, incremental, reduced)."""
import numpy as np
from hypothesis import strategies as st

from menpofit.math import (IRLRegression, IIRLRegression, PCRRegression,
                           OptimalLinearRegression, OPPRegression)
from ..core import facet, Discard
from .. import gen

P = 'P11'

base = {
    'seed': gen.seeds,
    'n': st.integers(25, 60),
    'f': st.integers(1, 9),
    'd': st.integers(1, 6),
    'noise': st.sampled_from([0., .01, 1.]),
    'offset': st.sampled_from([0., 2.]),
    'spread': st.sampled_from([1., 5.]),
    'bias': st.booleans(),
}


def data(s, rs=None, n=None):
    rs = gen.rng(s['seed']) if rs is None else rs
    n = s['n'] if n is None else n
    sc = np.exp(rs.uniform(-np.log(s['spread']), np.log(s['spread']),
                           s['f']))
    X = (rs.randn(n, s['f']) + s['offset']) * sc
    B = rs.randn(s['f'], s['d'])
    b0 = rs.randn(s['d']) * s['offset']
    Y = X.dot(B) + b0 + s['noise'] * rs.randn(n, s['d'])
    return X, Y, B, b0, rs


def aug(X, bias):
    return np.hstack((X, np.ones((X.shape[0], 1)))) if bias else X


def linear_map(ctx, r, f, bias):
    """The predictor as an affine map, read off its predictions."""
    Z = np.vstack((np.zeros((1, f)), np.eye(f)))
    p = np.asarray(r.predict(Z))
    M = p[1:] - p[:1]
    if not bias:
        ctx.close(p[0], np.zeros_like(p[0]), 'zero features predict zero '
                  'without a bias', atol=1e-12)
    return M, p[0]


def consistent(ctx, r, X, rs):
    """Predictions are affine and the same one by one or all together."""
    Xt = rs.randn(7, X.shape[1]) * np.abs(X).max()
    keep = Xt.copy()
    P_ = r.predict(Xt)
    s = np.abs(P_).max()
    for k in range(7):
        row = np.asarray(r.predict(Xt[k:k + 1]))
        ctx.close(row, P_[k:k + 1], 'a batch of one sample is predicted '
                  'differently', rtol=1e-9, atol=1e-12, scale=s)
        one = np.asarray(r.predict(Xt[k]))
        ctx.close(one.ravel(), P_[k].ravel(), 'a single sample is predicted '
                  'differently', rtol=1e-9, atol=1e-12, scale=s)
    a = rs.uniform(-1, 2)
    ctx.close(r.predict(a * Xt[:3] + (1 - a) * Xt[3:6]),
              a * P_[:3] + (1 - a) * P_[3:6], 'predictions are not affine',
              rtol=1e-7, atol=1e-12, scale=s * 3)
    ctx.check(np.array_equal(keep, Xt), 'predict changed its input')


@facet(P, 'regularised', st.fixed_dictionaries(dict(
    base, alpha=st.sampled_from([0, 0., .5, 1, 3., 40.]))), quick=1200)
def regularised(ctx, s):
    """Regularised least squares is the minimiser of its objective."""
    X, Y, B, b0, rs = data(s)
    kX, kY = X.copy(), Y.copy()
    r = IRLRegression(alpha=s['alpha'], bias=s['bias'])
    r.train(X, Y)
    ctx.check(np.array_equal(kX, X) and np.array_equal(kY, Y),
              'training changed its input')
    consistent(ctx, r, X, rs)
    M, m0 = linear_map(ctx, r, s['f'], s['bias'])
    W = np.vstack((M, m0)) if s['bias'] else M
    A = aug(X, s['bias'])
    # augmented least squares by SVD
    if s['alpha']:
        A2 = np.vstack((A, np.sqrt(s['alpha']) * np.eye(A.shape[1])))
        Y2 = np.vstack((Y, np.zeros((A.shape[1], Y.shape[1]))))
    else:
        A2, Y2 = A, Y
    want = np.linalg.lstsq(A2, Y2, rcond=None)[0]
    ctx.close(W, want, 'not the regularised least squares solution',
              rtol=1e-6, atol=1e-8)
    if s['noise'] == 0 and s['alpha'] == 0 and (
            s['bias'] or s['offset'] == 0):
        ctx.label('exact relation')
        Xn = rs.randn(5, s['f'])
        ctx.close(r.predict(Xn), Xn.dot(B) + b0, 'an exact linear relation '
                  'is not recovered', rtol=1e-6, atol=1e-7)
    # training again forgets
    X2, Y2, _, _, _ = data(dict(s, seed=s['seed'] + 1))
    r2 = IRLRegression(alpha=s['alpha'], bias=s['bias'])
    r2.train(X2, Y2)
    r.train(X2, Y2)
    ctx.close(r.predict(X2), r2.predict(X2), 'training again remembers',
              rtol=1e-12)


inc = dict(base)
inc.update({'alpha': st.sampled_from([0, .01, .3, 1, 7.]),
            'few': st.one_of(st.none(), st.integers(1, 9)),
            'parts': st.lists(st.integers(1, 20), min_size=1, max_size=4)})


@facet(P, 'incremental', st.fixed_dictionaries(inc), quick=1200)
def incremental(ctx, s):
    """Training on a part and incrementing with the others is training on
    everything, in any order."""
    # the penalty also allows for fewer samples than features
    few = s['few'] if s['alpha'] else None
    if few is not None:
        ctx.label('few samples first')
    X, Y, B, b0, rs = data(s, n=few)
    kw = dict(alpha=s['alpha'], bias=s['bias'], incrementable=True)
    r = IRLRegression(**kw)
    r.train(X, Y)
    Xs, Ys = [X], [Y]
    ctx.label('%d increments' % len(s['parts']))
    for n in s['parts']:
        Xi, Yi, _, _, _ = data(s, rs=rs, n=n)
        kx, ky = Xi.copy(), Yi.copy()
        r.increment(Xi, Yi)
        ctx.check(np.array_equal(kx, Xi) and np.array_equal(ky, Yi),
                  'increment changed its input')
        Xs.append(Xi)
        Ys.append(Yi)
        b = IRLRegression(alpha=s['alpha'], bias=s['bias'])
        b.train(np.vstack(Xs), np.vstack(Ys))
        Xt = rs.randn(6, s['f'])
        ctx.close(r.predict(Xt), b.predict(Xt), 'incremented regression '
                  'differs from one trained on all samples',
                  rtol=1e-5, atol=1e-6)
    if len(Xs) > 2:
        o = [0] + [int(k) + 1 for k in rs.permutation(len(Xs) - 1)]
        r2 = IRLRegression(**kw)
        r2.train(Xs[0], Ys[0])
        r2.increment(np.vstack([Xs[k] for k in o[1:]]),
                     np.vstack([Ys[k] for k in o[1:]]))
        ctx.close(r2.predict(Xt), r.predict(Xt), 'order of increments',
                  rtol=1e-5, atol=1e-6)
    consistent(ctx, r, X, rs)
    if few is not None:
        X, Y, _, _, _ = data(s, rs=rs)
    for other in (IRLRegression(alpha=s['alpha'], bias=s['bias']),
                  IIRLRegression(alpha=.1, alpha2=1.)):
        other.train(X, Y)
        before = other.predict(X)
        ctx.raises(ValueError, lambda: other.increment(X, Y),
                   'a model that is not incrementable was incremented')
        ctx.check(np.array_equal(before, other.predict(X)),
                  'a rejected increment changed the model')
    for cls in (PCRRegression, OptimalLinearRegression, OPPRegression):
        other = cls(bias=s['bias'])
        other.train(X, Y)
        ctx.raises(NotImplementedError, lambda: other.increment(X, Y),
                   'increment of %s' % cls.__name__)


@facet(P, 'indirect', st.fixed_dictionaries(dict(
    base, alpha=st.sampled_from([0, .1, 5.]),
    alpha2=st.sampled_from([0, .2, 3.]))), quick=900)
def indirect(ctx, s):
    """Indirect regression: features explained by targets, then inverted."""
    rs = gen.rng(s['seed'])
    f, d, n = s['f'] + s['d'], s['d'], s['n']
    # a well conditioned generative model: features = targets J
    J = np.linalg.svd(rs.randn(d, f), full_matrices=False)[2]
    J = (np.diag(rs.uniform(1, 2, d))).dot(J)
    Y = rs.randn(n, d)
    X = Y.dot(J) + s['noise'] * rs.randn(n, f)
    kX, kY = X.copy(), Y.copy()
    r = IIRLRegression(alpha=s['alpha'], alpha2=s['alpha2'])
    r.train(X, Y)
    ctx.check(np.array_equal(kX, X) and np.array_equal(kY, Y),
              'training changed its input')
    consistent(ctx, r, X, rs)
    A = np.vstack((Y, np.sqrt(s['alpha']) * np.eye(d)))
    C = np.vstack((X, np.zeros((d, f))))
    Jh = np.linalg.lstsq(A, C, rcond=None)[0]
    # minimiser of |x - y J|^2 + alpha2 |y|^2
    A = np.vstack((Jh.T, np.sqrt(s['alpha2']) * np.eye(d)))
    W = np.linalg.lstsq(A, np.vstack((np.eye(f), np.zeros((d, f)))),
                        rcond=None)[0].T
    M, _ = linear_map(ctx, r, f, False)
    ctx.close(M, W, 'not the inverse of the regression of features',
              rtol=1e-6, atol=1e-8)
    if s['noise'] == 0 and not s['alpha'] and not s['alpha2']:
        ctx.label('exact relation')
        y = rs.randn(4, d)
        ctx.close(r.predict(y.dot(J)), y, 'exact relation not inverted',
                  rtol=1e-7, atol=1e-8)


red = dict(base)
red.update({'variance': st.one_of(st.none(), st.sampled_from(
    [.05, .3, .5, .8, .95, .99, 1.])),
    'cls': st.sampled_from(['pcr', 'optimal'])})


@facet(P, 'reduced', st.fixed_dictionaries(red), quick=1500,
       rule='features are reduced')
def reduced(ctx, s):
    """Principal component and optimal regression are least squares on the
    leading components that keep the requested variance."""
    X, Y, B, b0, rs = data(dict(s, noise=max(s['noise'], .3)))
    Y = Y + rs.randn(*Y.shape)
    kX, kY = X.copy(), Y.copy()
    cls = PCRRegression if s['cls'] == 'pcr' else OptimalLinearRegression
    r = cls(variance=s['variance'], bias=s['bias'])
    r.train(X, Y)
    ctx.check(np.array_equal(kX, X) and np.array_equal(kY, Y),
              'training changed its input')
    consistent(ctx, r, X, rs)
    A = aug(X, s['bias'])
    U, sv, V = np.linalg.svd(A, full_matrices=False)
    share = np.cumsum(sv if s['cls'] == 'pcr' else sv ** 2)
    share = share / share[-1]
    k = len(sv)
    if s['variance'] is not None:
        k = min(int(np.sum(share < s['variance'] - 1e-9)) + 1, k)
        if np.any(np.abs(share[:-1] - s['variance']) < 1e-6):
            ctx.nontrivial(False)
            return
    ctx.label('%s %s of %d' % (s['cls'], 'all' if k == len(sv) else k,
                               len(sv)))
    ctx.nontrivial(k < len(sv))
    Z = A.dot(V[:k].T)
    W = V[:k].T.dot(np.linalg.lstsq(Z, Y, rcond=None)[0])
    M, m0 = linear_map(ctx, r, s['f'], s['bias'])
    got = np.vstack((M, m0)) if s['bias'] else M
    ctx.close(got, W, 'not least squares on %d components' % k, rtol=1e-5,
              atol=1e-7)
    if k == len(sv):
        l = IRLRegression(bias=s['bias'])
        l.train(X, Y)
        ctx.close(r.predict(X), l.predict(X), 'all components differ from '
                  'least squares', rtol=1e-6, atol=1e-7)


@facet(P, 'procrustes', st.fixed_dictionaries(base), quick=900)
def procrustes(ctx, s):
    """Orthogonal Procrustes regression is the best orthonormal map."""
    X, Y, B, b0, rs = data(s)
    r = OPPRegression(bias=s['bias'])
    kX, kY = X.copy(), Y.copy()
    r.train(X, Y)
    ctx.check(np.array_equal(kX, X) and np.array_equal(kY, Y),
              'training changed its input')
    consistent(ctx, r, X, rs)
    M, m0 = linear_map(ctx, r, s['f'], s['bias'])
    W = np.vstack((M, m0)) if s['bias'] else M
    G = W.T.dot(W) if W.shape[0] >= W.shape[1] else W.dot(W.T)
    ctx.close(G, np.eye(len(G)), 'the map is not orthonormal', rtol=1e-9)
    A = aug(X, s['bias'])
    C = A.T.dot(Y)
    best = np.linalg.svd(C, compute_uv=False).sum()
    got = np.sum(W * C)
    ctx.check(abs(got - best) <= 1e-8 * abs(best), 'correlation with the '
              'targets %r is not the best %r', got, best)
    # recovered exactly when the relation is orthonormal
    if A.shape[1] == s['d']:
        ctx.label('square')
        R = np.linalg.qr(rs.randn(A.shape[1], s['d']))[0]
        r.train(X, A.dot(R))
        ctx.close(r.predict(X), A.dot(R), 'orthonormal relation not '
                  'recovered', rtol=1e-7, atol=1e-7)


@facet(P, 'whitened', st.fixed_dictionaries(base), quick=600)
def whitened(ctx, s):
    """Whitened Procrustes regression is the orthonormal map closest to the
    least squares solution."""
    X, Y, B, b0, rs = data(s)
    A = aug(X, s['bias'])
    W = np.linalg.lstsq(A, Y, rcond=None)[0]
    u, sv, v = np.linalg.svd(W, full_matrices=False)
    # (unique and well conditioned ones only)
    if sv[-1] < 1e-3 * sv[0] or np.linalg.cond(A) > 300:
        raise Discard
    r = OPPRegression(bias=s['bias'], whiten=True)
    kX, kY = X.copy(), Y.copy()
    r.train(X, Y)
    ctx.check(np.array_equal(kX, X) and np.array_equal(kY, Y),
              'training changed its input')
    consistent(ctx, r, X, rs)
    ctx.close(r.predict(X), A.dot(u).dot(v), 'not the closest orthonormal '
              'map', rtol=1e-5, atol=1e-6 * np.abs(A).max())
    ctx.label('bias' if s['bias'] else 'no bias')
