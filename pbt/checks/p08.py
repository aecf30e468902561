"""P08: Lucas-Kanade alignment."""
import numpy as np
from hypothesis import strategies as st

from menpo.image import Image, BooleanImage
from menpo.shape import PointCloud
from menpo.transform import Affine
from menpofit import lk
from menpofit.transform import (DifferentiableAlignmentAffine,
                                DifferentiableAlignmentSimilarity,
                                DifferentiableAffine)
from ..core import facet, Discard
from .. import gen, fams

P = 'P08'
TR = {'affine': DifferentiableAlignmentAffine,
      'similarity': DifferentiableAlignmentSimilarity}

combo = {'alg': st.sampled_from(fams.LK_ALGS),
         'res': st.sampled_from(fams.LK_RES),
         'tr': st.sampled_from(sorted(TR))}


def scene(s, size=(64, 66), fill=.2, crop=.2):
    im = gen.image_set(s['seed'], 1, 6, size=size, fill=fill,
                       n_channels=s.get('c', 1))[0]
    t = im.crop_to_landmarks_proportion(crop, group='PTS')
    if s.get('big'):
        # much larger and livelier surroundings
        m = 40
        px = np.pad(im.pixels, ((0, 0), (m, m), (m, m)), mode='edge')
        yy, xx = np.mgrid[:px.shape[1], :px.shape[2]]
        out = np.ones(px.shape[1:], dtype=bool)
        out[m:-m, m:-m] = False
        px = px + out * 1.5 * np.sin(yy / 5.) * np.cos(xx / 4.)
        pts = im.landmarks['PTS'].points + m
        im = Image(px)
        im.landmarks['PTS'] = PointCloud(pts)
    return im, t


def moved(gt, s, amp=1.):
    """a start that the transform can undo"""
    rs = gen.rng(s['seed'], 9)
    p = gt.points
    c = p.mean(0)
    if s['tr'] == 'affine':
        A = np.eye(2) + .03 * amp * rs.randn(2, 2)
    else:
        A = (1 + .03 * amp * rs.randn()) * gen.rot(.03 * amp * rs.randn())
    return PointCloud((p - c).dot(A.T) + c + amp * rs.uniform(-1., 1., 2))


def kernel(shape, seed, channels=1):
    """A real symmetric positive filter (in the frequency domain), the same
    for all channels or another one for each."""
    if channels > 1 and seed % 2:
        return np.concatenate([kernel(shape, seed + 2 * i)
                               for i in range(channels)])
    fy = np.fft.fftfreq(shape[0])[:, None]
    fx = np.fft.fftfreq(shape[1])[None]
    k = gen.rng(seed, 77).uniform(.5, 3.)
    return (.3 + np.exp(-k * 10 * (fy ** 2 + 2 * fx ** 2)))[None]


def fitter(t, s, res=None, **kw):
    kw.setdefault('scales', [1.])
    kw.setdefault('diagonal', None)
    return fams.lk_fitter(t, s['alg'], res or s['res'],
                          transform=TR[s['tr']], **kw)


@facet(P, 'recovers', st.fixed_dictionaries(dict(
    combo, seed=gen.seeds, c=st.integers(1, 3),
    scales=st.sampled_from([[1.], [1.], [.5, 1.], [.7, 1.]]),
    diag=st.sampled_from([None, 30, 45]), big=st.booleans())), quick=500, thorough=2000)
def recovers(ctx, s):
    """A template cut from an image is found again from a displaced start, by
    every algorithm with every residual and motion model."""
    im, t = scene(s)
    gt = im.landmarks['PTS']
    start = moved(gt, s)
    f = fitter(t, s, scales=s['scales'], diagonal=s['diag'])
    r = f.fit_from_shape(im, start, max_iters=[30] * len(s['scales']),
                         gt_shape=gt)
    e0 = np.abs(start.points - gt.points).max()
    e1 = np.abs(r.final_shape.points - gt.points).max()
    # (the picture is resampled at the size of the start, and of the diagonal)
    tol = (.3 if s['scales'][0] > .5 else .6) if s['diag'] is None else 1.
    ctx.nontrivial(e0 > tol)
    ctx.check(e1 < tol, 'ends %.3g px away from the template (started %.3g px '
              'away)', e1, e0)
    ctx.label(s['alg'])
    ctx.label(s['res'])


@facet(P, 'fixed_point', st.fixed_dictionaries(dict(
    combo, seed=gen.seeds, c=st.integers(1, 3), iters=st.integers(1, 6),
    scales=st.sampled_from([[1.], [.5, 1.]]))), quick=300, thorough=1000)
def fixed_point(ctx, s):
    """At the place the template was taken from nothing moves, and the cost is
    that of a perfect match."""
    im, t = scene(s)
    gt = im.landmarks['PTS']
    f = fitter(t, s, scales=s['scales'])
    n = len(s['scales'])
    r = f.fit_from_shape(im, gt, max_iters=[s['iters']] * n,
                         return_costs=True)
    # below the last scale the resampled image and template differ slightly
    tol = 1e-8 if n == 1 else .6
    for k, x in enumerate(r.shapes):
        ctx.close(x.points, gt.points, 'shape %d' % k, rtol=0, atol=tol)
    if n == 1:
        best = {'ECC': 1., 'GradientCorrelation': 1.}.get(s['res'], 0.)
        if s['res'] == 'GradientCorrelation':
            return      # judged in costs
        ctx.close(r.costs, [best] * len(r.costs), 'cost of a perfect match',
                  atol=1e-9)


def sample(im, t, points, shape_pts):
    """im at the template's pixels, moved by the (least squares) affine map
    from the template's landmarks onto the shape; bilinear."""
    lm = t.landmarks['PTS'].points
    A = np.hstack([lm, np.ones((len(lm), 1))])
    M = np.linalg.lstsq(A, shape_pts, rcond=None)[0]
    idx = np.stack(np.meshgrid(np.arange(t.shape[0]), np.arange(t.shape[1]),
                               indexing='ij'), -1).reshape(-1, 2)
    p = np.hstack([idx, np.ones((len(idx), 1))]).dot(M)
    f = np.floor(p + 1e-12).astype(int)
    h, w = im.shape
    if p.min() < 1 or (p[:, 0] > h - 2).any() or (p[:, 1] > w - 2).any():
        raise Discard()
    d = p - f
    v = im.pixels
    y, x = f[:, 0], f[:, 1]
    out = (v[:, y, x] * (1 - d[:, 0]) * (1 - d[:, 1]) +
           v[:, y + 1, x] * d[:, 0] * (1 - d[:, 1]) +
           v[:, y, x + 1] * (1 - d[:, 0]) * d[:, 1] +
           v[:, y + 1, x + 1] * d[:, 0] * d[:, 1])
    return out.reshape((-1,) + t.shape)


def grads(px):
    """(dims, channels, h, w), zero along the border"""
    g = np.stack([np.stack(np.gradient(c)) for c in px], 1)
    z = np.zeros_like(g)
    z[:, :, 1:-1, 1:-1] = g[:, :, 1:-1, 1:-1]
    return z


def objective(res, w, t, k=None):
    if res in ('SSD', 'FourierSSD'):
        e = w - t
        if k is None:
            return np.sum(e * e)
        return np.sum(e * np.fft.ifft2(k * np.fft.fft2(e)).real)
    if res == 'ECC':
        a, b = w - w.mean(), t - t.mean()
        return np.sum(a * b) / np.linalg.norm(a) / np.linalg.norm(b)
    if res == 'GradientImages':
        def reg(p):
            g = grads(p)
            m = np.sqrt((g * g).sum((0, 1)))
            return g / (m + np.median(m))
        return np.sum((reg(w) - reg(t)) ** 2)
    if res == 'GradientCorrelation':
        def phi(p):
            g = grads(p)
            return np.angle(g[1] + 1j * g[0])
        return np.mean(np.cos(phi(w) - phi(t)))


@facet(P, 'costs', st.fixed_dictionaries(dict(
    combo, seed=gen.seeds, c=st.integers(1, 3), iters=st.integers(1, 6),
    kernel=st.booleans())), quick=500, thorough=2000)
def costs(ctx, s):
    """Reported costs are the residual's objective between the template and
    the image resampled under the corresponding shapes."""
    im, t = scene(s)
    start = moved(im.landmarks['PTS'], s)
    f = fitter(t, s)
    k = None
    if s['kernel'] and s['res'] in ('SSD', 'FourierSSD'):
        k = kernel(t.shape, s['seed'], t.n_channels)
        a = f.algorithms[0]
        f.algorithms[0] = type(a)(a.template, a.transform,
                                  getattr(lk, s['res'])(kernel=k))
    # the fitter resamples the image to the size of the start: go below it
    alg = f.algorithms[0]
    r = alg.run(im, start, max_iters=s['iters'], return_costs=True)
    shapes = r.shapes[1:]
    ctx.equal(len(r.costs), r.n_iters, 'number of costs')
    exp = [objective(s['res'], sample(im, t, None, x.points), t.pixels, k)
           for x in shapes[:r.n_iters]]
    ctx.close(np.real(r.costs), exp, 'costs', rtol=1e-6, atol=1e-9)
    ctx.label(s['res'] + ('+kernel' if k is not None else ''))
    # the images the fit saw can be recovered
    for x, w in zip(shapes, alg.warped_images(im, shapes)):
        ctx.close(w.pixels, sample(im, t, None, x.points), 'warped image',
                  rtol=1e-6)


@facet(P, 'equivalences', st.fixed_dictionaries(dict(
    combo, seed=gen.seeds, c=st.integers(1, 2), iters=st.integers(1, 8),
    kernel=st.booleans(), what=st.sampled_from(
        ['fourier', 'gain', 'bias', 'joint']),
    gain=st.sampled_from([.25, .5, 3., 40.]))), quick=500, thorough=2000)
def equivalences(ctx, s):
    """The Fourier formulation makes the same steps as the spatial one; the
    correlation and gradient residuals do not see bias and gain; scaling image
    and template alike changes nothing."""
    im, t = scene(s)
    start = moved(im.landmarks['PTS'], s)
    n = s['iters']

    def run(image, template, res, k=None):
        f = fitter(template, s, res=res)
        if k is not None:
            a = f.algorithms[0]
            f.algorithms[0] = type(a)(a.template, a.transform,
                                      getattr(lk, res)(kernel=k))
        return f.fit_from_shape(image, start, max_iters=n)

    def altered(x, a, b):
        y = Image(x.pixels * a + b)
        y.landmarks['PTS'] = x.landmarks['PTS']
        return y
    w, g = s['what'], s['gain']
    tol = 1e-5
    if w == 'fourier':
        k = kernel(t.shape, s['seed'], t.n_channels) if s['kernel'] else None
        a, b = run(im, t, 'SSD', k), run(im, t, 'FourierSSD', k)
    elif w == 'joint':
        if s['res'] in ('SSD', 'FourierSSD'):
            a, b = run(im, t, s['res']), run(altered(im, g, 0.),
                                             altered(t, g, 0.), s['res'])
        else:
            a, b = run(im, t, s['res']), run(altered(im, g, .3),
                                             altered(t, g, .3), s['res'])
    elif s['res'] in ('SSD', 'FourierSSD'):
        # a common bias is not seen
        a, b = run(im, t, s['res']), run(altered(im, 1., g),
                                         altered(t, 1., g), s['res'])
    elif w == 'gain':
        a, b = run(im, t, s['res']), run(altered(im, g, 0.), t, s['res'])
    else:
        a, b = run(im, t, s['res']), run(altered(im, 1., g), t, s['res'])
    ctx.label(w)
    m = min(a.n_iters, b.n_iters)
    if abs(a.n_iters - b.n_iters) > 1:
        ctx.check(np.abs(a.final_shape.points -
                         b.final_shape.points).max() < tol,
                  'iterations %d and %d', a.n_iters, b.n_iters)
    for k_, (x, y) in enumerate(zip(a.shapes[:m + 2], b.shapes)):
        ctx.close(y.points, x.points, 'shape %d' % k_, rtol=0, atol=tol)


def rand_motion(s, centre):
    rs = gen.rng(s['seed'], 9)
    A = np.eye(2) + .05 * rs.randn(2, 2)
    t = centre - A.dot(centre) + rs.uniform(-1.5, 1.5, 2)
    return A, t


@facet(P, 'first_step', st.fixed_dictionaries(dict(
    seed=gen.seeds, c=st.integers(1, 3), alg=combo['alg'], tr=combo['tr'],
    res=st.sampled_from(fams.LK_RES), kernel=st.booleans(),
    iters=st.integers(1, 3), contrast=st.sampled_from([1, 1, 1, -1, 3]))),
    quick=700, thorough=6000)
def first_step(ctx, s):
    """Each step of each algorithm, the first and later ones, is the
    Gauss-Newton step of the (filtered) sum of squared differences, computed
    here from scratch; the reported parameters are those of the motions."""
    im, t = scene(s)
    start = moved(im.landmarks['PTS'], s)
    f = fitter(t, s)
    if s['contrast'] != 1 and s['res'] == 'ECC':
        # other lights, or a negative
        im.pixels = s['contrast'] * im.pixels + .2
        ctx.label('ECC, contrast %d' % s['contrast'])
    al = f.algorithms[0]
    k = None
    if s['kernel'] and s['res'] in ('SSD', 'FourierSSD'):
        k = kernel(t.shape, s['seed'], t.n_channels)
        al = type(al)(al.template, al.transform,
                      getattr(lk, s['res'])(kernel=k))
    for n in range(s['iters'], 0, -1):
        try:
            r = al.run(im, start, max_iters=n)
            break
        except ValueError:
            # (a negative drives the fit off the image: where nothing is
            # seen there is no correlation)
            if n == 1 or s['contrast'] == 1:
                raise
    # (after the initial shape comes what the motion makes of it)
    shapes = [x.points for x in r.shapes][1:]
    lm = t.landmarks['PTS'].points
    for i in range(r.n_iters):
        ctx.close(shapes[i + 1], step(s, im, t, shapes[i], k),
                  'shape after step %d' % (i + 1), rtol=0, atol=1e-6)
    ps = r.homogeneous_parameters
    ctx.equal(len(ps), len(shapes), 'number of parameters')
    for q, x in zip(ps, shapes):
        m = TR[s['tr']](t.landmarks['PTS'], t.landmarks['PTS'])
        m = m.from_vector(q)
        ctx.close(m.apply(lm), x, 'shape of the reported parameters',
                  rtol=0, atol=1e-6)
    ctx.label(s['alg'] + ('+kernel' if k is not None else ''))


def step(s, im, t, start, k):
    """The shape one Gauss-Newton step after another."""
    lm = t.landmarks['PTS'].points
    # motion under which the start is seen
    A = np.hstack([lm, np.ones((len(lm), 1))])
    M = np.linalg.lstsq(A, start, rcond=None)[0]
    L, tr = M[:2].T, M[2]
    W = sample(im, t, None, start)
    yy, xx = np.mgrid[:t.shape[0], :t.shape[1]].astype(float)
    # warp generators: v(y, x; p) for the increment's parameters
    one, zero = np.ones_like(yy), np.zeros_like(yy)
    if s['tr'] == 'affine':
        G = [(yy, zero), (zero, yy), (xx, zero), (zero, xx), (one, zero),
             (zero, one)]
    else:
        G = [(yy, xx), (-xx, yy), (one, zero), (zero, one)]
    G = np.array(G)                                  # (params, dim, h, w)
    if s['alg'] == 'ForwardAdditive':
        gi = np.stack([np.stack(np.gradient(c)) for c in im.pixels], 1)
        g = np.stack([sample(Image(gi[d]), t, None, start)
                      for d in range(2)])
    elif s['alg'] == 'ForwardCompositional':
        g = grads(W)
    else:
        g = grads(t.pixels)
    if s['res'].startswith('Gradient'):
        g, e, gain = gradient_features(s['res'], g, W, t.pixels)
    else:
        e, gain = W - t.pixels, 1.
    J = np.einsum('dchw,pdhw->pchw', g, G)
    if k is not None:
        KJ = np.fft.ifft2(k * np.fft.fft2(J)).real
    else:
        KJ = J
    J, KJ = [x.reshape(len(G), -1).T for x in (J, KJ)]
    e = e.ravel()
    if s['res'] == 'ECC':
        # enhanced correlation coefficient: the best gain of the (normalised)
        # warped image is found along with the motion
        w_, t_ = W.ravel() - W.mean(), t.pixels.ravel() - t.pixels.mean()
        J = KJ = J / np.linalg.norm(t_ if s['alg'] == 'InverseCompositional'
                                    else w_)
        w_, t_ = w_ / np.linalg.norm(w_), t_ / np.linalg.norm(t_)
        Pm = lambda a, b: J.T.dot(a).dot(np.linalg.solve(J.T.dot(J),
                                                         J.T.dot(b)))
        den = t_.dot(w_) - Pm(t_, w_)
        if abs(den) <= 1e-3:
            raise Discard()
        gain_ = (w_.dot(w_) - Pm(w_, w_)) / den
        if den < 0:
            # anti-correlated: the smallest gain that can increase it
            gain_ = max(np.sqrt(Pm(w_, w_) / Pm(t_, t_)),
                        -den / Pm(t_, t_))
        e = gain_ * w_ - t_
    dp = gain * np.linalg.solve(KJ.T.dot(J), KJ.T.dot(e))

    def inc(p):
        """(linear part, translation) of the generator combination"""
        if s['tr'] == 'affine':
            return np.array([[p[0], p[2]], [p[1], p[3]]]), p[4:]
        return np.array([[p[0], -p[1]], [p[1], p[0]]]), p[2:]
    if s['alg'] == 'ForwardAdditive':
        dL, dt = inc(-dp)
        nL, nt = L + dL, tr + dt
    elif s['alg'] == 'ForwardCompositional':
        dL, dt = inc(-dp)
        nL, nt = L.dot(np.eye(2) + dL), L.dot(dt) + tr
    else:
        dL, dt = inc(dp)
        iL = np.linalg.inv(np.eye(2) + dL)
        nL, nt = L.dot(iL), tr - L.dot(iL).dot(dt)
    return lm.dot(nL.T) + nt


def gradient_features(res, g, W, t):
    """Spatial derivatives of what the gradient residuals compare, seen where
    the gradients g are those of; differences from the template; size of the
    step."""
    def images(g):
        m = np.sqrt(np.sum(g ** 2, axis=(0, 1)))
        return g / (m + np.median(m))

    def angles(g):
        return np.arctan2(g[0], g[1])
    n = g.shape[1]
    if res == 'GradientImages':
        flat = lambda g: images(g).reshape((2 * n,) + g.shape[2:])
        return grads(flat(g)), flat(grads(W)) - flat(grads(t)), 1.
    a = angles(g)
    v = grads(np.concatenate([np.sin(a), np.cos(a)]))
    v = np.cos(a) * v[:, :n] - np.sin(a) * v[:, n:]
    e = angles(grads(W)) - angles(grads(t))
    # (the correlation itself is brought to one)
    return v, np.sin(e), e.size / np.sum(np.cos(e))


@facet(P, 'gradients', st.fixed_dictionaries(dict(
    seed=gen.seeds, c=st.integers(1, 3), res=st.sampled_from(fams.LK_RES),
    h=st.integers(14, 30), w=st.integers(14, 30))), quick=500, thorough=5000)
def gradients(ctx, s):
    """Steepest descent images are the derivative of what the residual
    compares along the motion's parameters; Hessians are their Gram matrices;
    updates vanish for identical images."""
    rs = gen.rng(s['seed'], 3)
    h, w, c = s['h'], s['w'], s['c']
    yy, xx = np.mgrid[:h, :w].astype(float)
    fr = rs.uniform(.02, .06, (c, 3, 2))
    ph = rs.uniform(0, 6, (c, 3))
    lin = rs.uniform(.5, 1., (c, 2)) * np.where(rs.rand(c, 2) > .5, 1, -1)

    def image(y, x):
        return np.stack([sum(np.sin(fr[k, j, 0] * y * 3 + fr[k, j, 1] * x * 3 +
                                    ph[k, j]) for j in range(3)) +
                         .4 * (lin[k, 0] * y + lin[k, 1] * x)
                         for k in range(c)])
    T = Image(image(yy, xx)).as_masked()
    I = Image(image(yy + .3 * rs.randn(), xx + .3 * rs.randn()) +
              .01 * rs.randn(c, h, w)).as_masked()
    tr = DifferentiableAffine(np.eye(3))
    dW = np.rollaxis(tr.d_dp(T.indices()), -1).reshape(2, h, w, 6)
    res = getattr(lk, s['res'])()
    snap = T.pixels.copy(), dW.copy()
    fJ, J = res.steepest_descent_images(T, dW)
    ctx.check(np.array_equal(T.pixels, snap[0]) and
              np.array_equal(dW, snap[1]), 'the inputs were modified')
    # analytic derivative of the compared quantity by differences of the
    # smooth function
    def moved_image(p):
        A = np.array([[1 + p[0], p[2]], [p[1], 1 + p[3]]])
        return image(A[0, 0] * yy + A[0, 1] * xx + p[4],
                     A[1, 0] * yy + A[1, 1] * xx + p[5])
    if s['res'].startswith('Gradient'):
        # derivatives of (regularised) gradients or of their angles, by
        # central differences of what is seen at the neighbouring pixels
        def grad(y, x):
            return np.stack([image(y + 1, x) - image(y - 1, x),
                             image(y, x + 1) - image(y, x - 1)]) / 2.
        own = grad(yy, xx)
        own[:, :, [0, -1]] = 0
        own[..., [0, -1]] = 0
        size = np.median(np.sqrt(np.sum(own ** 2, axis=(0, 1))))

        def feature(y, x):
            g = grad(y, x)
            if s['res'] == 'GradientImages':
                return g / (np.sqrt(np.sum(g ** 2, axis=(0, 1))) + size)
            a = np.arctan2(*g)
            return np.stack([np.sin(a), np.cos(a)])
        D = 0
        angle = np.arctan2(*grad(yy, xx))
        for d, (i, j) in enumerate(((1, 0), (0, 1))):
            v = (feature(yy + i, xx + j) - feature(yy - i, xx - j)) / 2.
            if s['res'] == 'GradientCorrelation':
                v = np.cos(angle) * v[0] - np.sin(angle) * v[1]
            D = D + v[..., None] * dW[d]
        g = J.reshape(D.shape)
        i = (Ellipsis, slice(3, -3), slice(3, -3), slice(None))
        ctx.close(g[i], D[i], 'steepest descent images', rtol=1e-6,
                  atol=1e-7 * np.abs(D).max())
    else:
        D = gen.num_jac(moved_image, np.zeros(6), 1e-5)
        if s['res'] == 'ECC':
            D = D / np.linalg.norm(image(yy, xx) - image(yy, xx).mean())
        g = J
        if s['res'] == 'FourierSSD':
            g = np.fft.ifft2(J.reshape(c, h, w, 6), axes=(1, 2)).real
        g = g.reshape(c, h, w, 6)
        sc = np.abs(D).max()
        ctx.close(g[:, 1:-1, 1:-1], D[:, 1:-1, 1:-1],
                  'steepest descent images', rtol=.03)
        ctx.close(g[:, 0], 0 * g[:, 0], 'border', atol=1e-9 * sc)
        ctx.close(g[:, :, -1], 0 * g[:, :, -1], 'border', atol=1e-9 * sc)
    H = res.hessian(fJ, sdi2=J)
    ctx.close(H, fJ.conj().T.dot(J), 'Hessian', rtol=1e-9)
    ctx.close(res.hessian(J), J.conj().T.dot(J), 'Hessian', rtol=1e-9)
    u = res.steepest_descent_update(fJ, T, T)
    v = res.steepest_descent_update(fJ, I, T)
    ctx.check(np.abs(u).max() <= 1e-7 * (np.abs(fJ).sum(0).max() + 1),
              'the update for identical images does not vanish')
    if s['res'] in ('SSD', 'FourierSSD'):
        e = (I.pixels - T.pixels)
        x = e.ravel() if s['res'] == 'SSD' else np.fft.fft2(e).ravel()
        ctx.close(v, fJ.conj().T.dot(x), 'update', rtol=1e-9)
        ctx.close(res.cost_closure(), np.sum(e * e), 'cost', rtol=1e-9)
    ctx.check(len(str(res)) > 0, 'str')
    ctx.label(s['res'])
