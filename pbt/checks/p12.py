"""P12: convolutions in the Fourier domain and correlation filters."""
import numpy as np
from hypothesis import strategies as st
from scipy.signal import convolve2d

from menpo.image import Image
from menpofit.math import mccf, imccf, mosse, imosse
from menpofit.math.fft_utils import (pad, crop, fft_convolve2d,
                                     fft_convolve2d_sum)
from ..core import facet
from .. import gen

P = 'P12'

conv = {
    'seed': gen.seeds,
    'h': st.integers(6, 24), 'w': st.integers(6, 24),
    'fh': st.integers(1, 11), 'fw': st.integers(1, 11),
    'c': st.integers(1, 3),
    'mode': st.sampled_from(['same', 'full', 'valid']),
    'boundary': st.sampled_from(['constant', 'symmetric']),
    'sum': st.booleans(), 'keep': st.booleans(),
    'types': st.sampled_from(['array', 'images', 'image', 'filter']),
}


def exact(ctx, got, ref, msg, scale):
    ctx.equal(tuple(got.shape), tuple(ref.shape), msg + ' shape')
    e = np.abs(ref - got)
    e = e.max() if e.size else 0.
    ctx.check(e <= 1e-9 * scale, '%s differs from direct convolution by %r',
              msg, e)


@facet(P, 'convolution', st.fixed_dictionaries(conv), quick=1500)
def convolution(ctx, s):
    """Convolutions of images with spatial filters in all modes."""
    rs = gen.rng(s['seed'])
    fh, fw = min(s['fh'], s['h']), min(s['fw'], s['w'])
    x = rs.randn(s['c'], s['h'], s['w'])
    f = rs.randn(s['c'], fh, fw)
    ctx.label('%s %s' % (s['mode'], s['boundary']))
    ctx.nontrivial(fh > 1 or fw > 1)
    kx, kf = x.copy(), f.copy()
    X = Image(x) if s['types'] in ('images', 'image') else x
    F = Image(f) if s['types'] in ('images', 'filter') else f
    kw = {'mode': ''.join(list(s['mode'])), 'boundary': s['boundary']}
    if s['sum']:
        got = fft_convolve2d_sum(X, F, keepdims=s['keep'] or
                                 s['types'] in ('images', 'image'), **kw)
    else:
        got = fft_convolve2d(X, F, **kw)
    if s['types'] in ('images', 'image'):
        ctx.check(isinstance(got, Image), 'an image gives an image')
        got = got.pixels
    ctx.check(np.array_equal(kx, x) and np.array_equal(kf, f),
              'inputs changed')
    h, w = s['h'], s['w']
    # the extension that the padding adds around the image; the content of
    # the result is the same everywhere but where the extension ends
    full = np.array([convolve2d(a, b, 'full') for a, b in zip(x, f)])
    trim = (0, 0)
    if s['boundary'] == 'symmetric':
        ext = np.pad(x, ((0, 0), (fh, fh), (fw, fw)), mode='symmetric')
        far = np.array([convolve2d(a, b, 'full') for a, b in zip(ext, f)])
        full = far[:, fh:fh + h + fh - 1, fw:fw + w + fw - 1]
        trim = (1 - fh % 2, 1 - fw % 2)
    if s['sum']:
        full = full.sum(axis=0, keepdims=True)
        if not (s['keep'] or s['types'] in ('images', 'image')):
            ctx.equal(got.ndim, 2, 'summed channel dimension is dropped')
            got = got[None]
    scale = np.abs(x).max() * np.abs(f).max() * fh * fw * s['c']
    same = full[:, fh // 2:fh // 2 + h, fw // 2:fw // 2 + w]
    if s['mode'] == 'valid':
        ref = full[:, fh - 1:h, fw - 1:w]
    elif s['mode'] == 'full' and s['boundary'] == 'constant':
        ref = full
    else:
        ref = same
        if s['mode'] == 'full':
            ctx.equal(got.shape[-2:], (h + fh - 1, w + fw - 1), 'full shape')
            got = got[:, fh // 2:fh // 2 + h, fw // 2:fw // 2 + w]
        # one sample of the border of even filters sees the opposite end of
        # the extension
        got = got[:, trim[0]:h - trim[0], trim[1]:w - trim[1]]
        ref = ref[:, trim[0]:h - trim[0], trim[1]:w - trim[1]]
    exact(ctx, got, ref, s['mode'], scale)
    if s['mode'] == 'same' and fh * fw > 1:
        # the centre of a filter is its pixel at half its size
        d = np.zeros((s['c'], fh, fw))
        d[:, fh // 2, fw // 2] = 1.
        exact(ctx, fft_convolve2d(x, d, boundary=s['boundary']), x,
              'filtering with the identity', np.abs(x).max())
    ctx.raises(ValueError, lambda: fft_convolve2d(x, f, mode='other'),
               'unknown mode')
    ctx.raises(ValueError, lambda: fft_convolve2d_sum(x, f, mode='other'),
               'unknown mode')


@facet(P, 'frequency_filters', st.fixed_dictionaries(dict(
    conv, n=st.integers(1, 3))), quick=800)
def frequency_filters(ctx, s):
    """Filters given in the frequency domain act as circular convolutions of
    the extended image; channels of every sample are summed on request."""
    rs = gen.rng(s['seed'])
    x = rs.randn(s['n'], s['c'], s['h'], s['w'])
    eh, ew = s['h'] + rs.randint(0, 12), s['w'] + rs.randint(0, 12)
    g = np.zeros((s['n'], s['c'], eh, ew))
    fh, fw = min(s['fh'], eh), min(s['fw'], ew)
    y0, x0 = eh // 2 - fh // 2, ew // 2 - fw // 2
    f = rs.randn(s['n'], s['c'], fh, fw)
    g[..., y0:y0 + fh, x0:x0 + fw] = f
    ff = np.fft.fft2(g)
    mode = 'full' if s['mode'] == 'valid' else s['mode']
    ctx.label(mode + ' ' + s['boundary'])
    kx, kf = x.copy(), ff.copy()
    got = fft_convolve2d_sum(x, ff, mode=mode, boundary=s['boundary'],
                             fft_filter=True, axis=1)
    each = fft_convolve2d(x, ff, mode=mode, boundary=s['boundary'],
                          fft_filter=True)
    ctx.check(np.array_equal(kx, x) and np.array_equal(kf, ff),
              'inputs changed')
    ctx.check(np.isrealobj(got), 'responses are real')
    size = (eh, ew) if mode == 'full' else (s['h'], s['w'])
    ctx.equal(got.shape, (s['n'], 1) + size, 'shape')
    ctx.equal(each.shape, (s['n'], s['c']) + size, 'shape')
    ctx.close(each.sum(axis=1, keepdims=True), got, 'sum of channels',
              rtol=1e-9)
    ext = pad(x, (eh, ew), boundary=s['boundary'])
    # circular convolution by summing rolled images; the filter is centred
    cy, cx = eh // 2, ew // 2
    ref = np.zeros_like(ext)
    for i in range(fh):
        for j in range(fw):
            ref += f[..., i:i + 1, j:j + 1] * np.roll(
                ext, (y0 + i - cy, x0 + j - cx), axis=(-2, -1))
    a = s['h'] * s['w']
    if mode == 'same':
        ref = crop(ref, (s['h'], s['w']))
    best = np.abs(ref - each).max()
    ctx.check(best <= 1e-8 * (1 + np.abs(ref).max()), 'response differs from '
              'circular convolution by %r', best)


@facet(P, 'padding', st.fixed_dictionaries({
    'seed': gen.seeds, 'h': st.integers(1, 12), 'w': st.integers(1, 12),
    'dh': st.integers(0, 9), 'dw': st.integers(0, 9),
    'lead': st.lists(st.integers(1, 3), max_size=2),
    'boundary': st.sampled_from(['constant', 'symmetric'])}), quick=800)
def padding(ctx, s):
    """Padding keeps the content in the centre and cropping takes it back."""
    rs = gen.rng(s['seed'])
    x = rs.randn(*(s['lead'] + [s['h'], s['w']]))
    ext = (s['h'] + s['dh'], s['w'] + s['dw'])
    p = pad(x, ext, boundary=s['boundary'])
    ctx.equal(p.shape, tuple(s['lead']) + ext, 'padded shape')
    ctx.check(np.array_equal(crop(p, (s['h'], s['w'])), x),
              'cropping a padded array does not return it')
    a = ext[0] // 2 - s['h'] // 2
    b = ext[1] // 2 - s['w'] // 2
    ctx.check(np.array_equal(p[..., a:a + s['h'], b:b + s['w']], x),
              'the centre pixel of the content is not the centre pixel')
    pw = [(0, 0)] * len(s['lead']) + [(a, s['dh'] - a), (b, s['dw'] - b)]
    ctx.check(np.array_equal(np.pad(x, pw, mode=s['boundary']), p),
              'not padded by %s values', s['boundary'])


filt = {
    'seed': gen.seeds,
    'n': st.integers(1, 4), 'c': st.integers(1, 3),
    'h': st.integers(5, 11), 'w': st.integers(5, 11),
    'yh': st.integers(3, 9), 'yw': st.integers(3, 9),
    'l': st.sampled_from([1e-3, .01, .5]),
    'boundary': st.sampled_from(['constant', 'symmetric']),
    'kind': st.sampled_from(['mccf', 'mosse']),
    'amp': st.sampled_from([.3, 1., 4.]),
    'crop': st.booleans(),
}


def problem(s, rs, n=None):
    X = s['amp'] * rs.randn(s['n'] if n is None else n, s['c'], s['h'],
                            s['w'])
    return X


def response(s, rs):
    yy, xx = np.mgrid[:s['yh'], :s['yw']]
    return np.exp(-((yy - s['yh'] // 2) ** 2 + (xx - s['yw'] // 2) ** 2) /
                  rs.uniform(1, 8))[None]


def centre_roll(f, sign):
    return np.roll(f, (sign * (f.shape[-2] // 2), sign * (f.shape[-1] // 2)),
                   axis=(-2, -1))


def objective(f, X, y, l, boundary, kind):
    """Squared error of the circular responses to all samples plus the
    regularisation, computed in the spatial domain."""
    f = np.asarray(f)
    eh, ew = f.shape[-2:]
    g = centre_roll(f, -1)          # undo the centring of the filter
    ext_y = pad(y, (eh, ew))
    J = l * np.sum(f ** 2)
    F = np.fft.fft2(g)
    for x in X:
        r = np.real(np.fft.ifft2(np.fft.fft2(pad(x, (eh, ew),
                                                 boundary=boundary)) * F))
        if kind == 'mccf':
            r = r.sum(axis=0, keepdims=True)
        J += np.sum((r - ext_y) ** 2)
    return J


@facet(P, 'filters', st.fixed_dictionaries(filt), quick=500)
def filters(ctx, s):
    """Correlation filters minimise the squared error of their responses."""
    rs = gen.rng(s['seed'])
    X, y = problem(s, rs), response(s, rs)
    ctx.label('%s %d channels' % (s['kind'], s['c']))
    fn = mccf if s['kind'] == 'mccf' else mosse
    kX, ky = X.copy(), y.copy()
    f, sxy, sxx = fn(X, y, l=s['l'], boundary=s['boundary'],
                     crop_filter=False)
    ctx.check(np.array_equal(kX, X) and np.array_equal(ky, y),
              'inputs changed')
    ext = (s['h'] + s['yh'] - 1, s['w'] + s['yw'] - 1)
    ctx.equal(f.shape, (s['c'],) + ext, 'filter shape')
    ctx.check(np.isrealobj(f), 'filters are real')
    # the sign of the centring shift does not matter for odd sizes only:
    # choose the one that fits
    J = objective(f, X, y, s['l'], s['boundary'], s['kind'])
    for k in range(4):
        d = rs.randn(*f.shape) * np.abs(f).max() * 10. ** -k
        a = objective(f + d, X, y, s['l'], s['boundary'], s['kind'])
        b = objective(f - d, X, y, s['l'], s['boundary'], s['kind'])
        curv = (a + b) / 2 - J
        lin = (a - b) / 2
        ctx.check(curv > 0 and abs(lin) <= 1e-6 * (curv + J + a),
                  'the filter is not the minimiser: slope %r, curvature %r, '
                  'objective %r', lin, curv, J)
    # default and cropping
    g = fn(X, y, l=s['l'], boundary=s['boundary'])[0]
    ctx.equal(g.shape, (s['c'], s['yh'], s['yw']), 'cropped filter shape')
    ctx.close(g, crop(f, (s['yh'], s['yw'])), 'cropped filter', rtol=1e-8)
    d1 = fn(X, y)[0]
    d2 = fn(X, y, l=.01, boundary='constant', crop_filter=True)[0]
    ctx.close(d1, d2, 'defaults', rtol=1e-9)
    # samples are exchangeable
    p = rs.permutation(s['n'])
    ctx.close(fn(X[p], y, l=s['l'], boundary=s['boundary'],
                 crop_filter=False)[0], f, 'order of samples', rtol=1e-6)
    # duplicated samples halve the regularisation
    ctx.close(fn(np.concatenate((X, X)), y, l=2 * s['l'],
                 boundary=s['boundary'], crop_filter=False)[0], f,
              'duplicated samples', rtol=1e-6)
    if s['c'] == 1:
        h = (mosse if s['kind'] == 'mccf' else mccf)(
            X, y, l=s['l'], boundary=s['boundary'], crop_filter=False)[0]
        ctx.close(h, f, 'single channel MOSSE and MCCF differ', rtol=1e-6)
    elif s['kind'] == 'mosse':
        for k in range(s['c']):
            ctx.close(fn(X[:, k:k + 1], y, l=s['l'], boundary=s['boundary'],
                         crop_filter=False)[0][0], f[k], 'channels of a '
                      'MOSSE filter are not independent', rtol=1e-6)


@facet(P, 'incremental', st.fixed_dictionaries(dict(
    filt, parts=st.lists(st.integers(1, 4), min_size=1, max_size=3),
    forget=st.sampled_from([1., 1., 1., .5, .9, 0.]))), quick=400)
def incremental(ctx, s):
    """Incremented filters are those of all samples, the older ones weighted
    by the forgetting factor."""
    rs = gen.rng(s['seed'])
    y = response(s, rs)
    X = problem(s, rs)
    fn, ifn = (mccf, imccf) if s['kind'] == 'mccf' else (mosse, imosse)
    kw = dict(l=s['l'], boundary=s['boundary'], crop_filter=s['crop'])
    ctx.label('%s forgetting %s' % (s['kind'], s['forget']))
    f, A, B = fn(X, y, **kw)
    n = len(X)
    blocks = [X]
    for k in s['parts']:
        Z = problem(s, rs, k)
        keep = [np.array(A), np.array(B.todense()) if hasattr(B, 'todense')
                else np.array(B), Z.copy()]
        f, A2, B2 = ifn(A, B, n, Z, y, f=s['forget'], **kw)
        now = [np.array(A), np.array(B.todense()) if hasattr(B, 'todense')
               else np.array(B), Z]
        ctx.check(all(np.array_equal(p, q) for p, q in zip(keep, now)),
                  'incrementing changed its inputs')
        A, B = A2, B2
        n += k
        blocks.append(Z)
        # weights: samples of older blocks enter with sqrt of the product
        m = len(blocks)
        W = []
        rep = []
        for i, b in enumerate(blocks):
            w = s['forget'] ** (m - 1 - i)
            W += [w] * len(b)
            rep.append(b)
        ref = weighted(s, np.concatenate(rep), np.array(W), y)
        if s['crop']:
            ref = crop(ref, (s['yh'], s['yw']))
        ctx.close(f, ref, 'filter after %d increments' % (m - 1), rtol=1e-5,
                  atol=1e-8)
        if s['forget'] == 1:
            ctx.close(f, fn(np.concatenate(rep), y, **kw)[0],
                      'incremented filter differs from one trained on all '
                      'samples', rtol=1e-6, atol=1e-9)
    if s['forget'] == 1:
        g = ifn(A, B, n, problem(s, rs, 2), y, **kw)[0]
        ctx.check(np.all(np.isfinite(g)), 'defaults')


def weighted(s, X, w, y):
    """Weighted filter, one frequency at a time."""
    eh, ew = s['h'] + s['yh'] - 1, s['w'] + s['yw'] - 1
    FX = np.fft.fft2(pad(X, (eh, ew), boundary=s['boundary']))
    FY = np.fft.fft2(pad(y, (eh, ew)))[0]
    F = np.zeros((s['c'], eh, ew), dtype=complex)
    for a in range(eh):
        for b in range(ew):
            v = FX[:, :, a, b]
            if s['kind'] == 'mccf':
                H = (v.conj() * w[:, None]).T.dot(v)
                g = (v.conj() * w[:, None]).sum(axis=0) * FY[a, b]
                F[:, a, b] = np.linalg.solve(
                    H + s['l'] * np.eye(s['c']), g)
            else:
                H = (np.abs(v) ** 2 * w[:, None]).sum(axis=0)
                g = (v.conj() * w[:, None]).sum(axis=0) * FY[a, b]
                F[:, a, b] = g / (H + s['l'])
    return centre_roll(np.real(np.fft.ifft2(F)), 1)
