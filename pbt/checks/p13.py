"""P13: expert ensembles of constrained local models, probability maps."""
import numpy as np
from functools import partial
from hypothesis import strategies as st

from menpo.feature import no_op, normalize_norm
from menpo.image import Image
from menpo.shape import PointCloud
from menpofit.base import build_grid
from menpofit.clm import (CorrelationFilterExpertEnsemble,
                          IncrementalCorrelationFilterThinWrapper)
from menpofit.clm.expert.base import probability_map
from menpofit.math import mccf, imccf, mosse, imosse
from ..core import facet
from .. import gen

P = 'P13'


@facet(P, 'probability_maps', st.fixed_dictionaries({
    'seed': gen.seeds, 'lead': st.lists(st.integers(1, 3), min_size=1,
                                        max_size=3),
    'h': st.integers(1, 9), 'w': st.integers(1, 9),
    'amp': st.sampled_from([1e-6, 1., 1e5]),
    'shift': st.sampled_from([0., -7., 3.]),
    'const': st.sampled_from(['none', 'some', 'all']),
    'axes': st.sampled_from(['default', 'last', 'other']),
    'image': st.booleans()}), quick=800)
def probability_maps(ctx, s):
    """Responses become non-negative maps that sum to one and keep their
    order; constant responses become uniform maps; the input is kept."""
    rs = gen.rng(s['seed'])
    lead = s['lead'][:1] if s['image'] else s['lead']
    x = s['amp'] * (rs.randn(*(lead + [s['h'], s['w']])) + s['shift'])
    axes = (-2, -1)
    kw = {}
    if s['axes'] != 'default':
        axes = (-2, -1) if s['axes'] == 'last' else (0, x.ndim - 1)
        kw = {'axes': axes}
    pos = tuple(sorted(a % x.ndim for a in axes))
    move = np.moveaxis(x, pos, (-2, -1))
    flat = move.reshape(-1, move.shape[-2], move.shape[-1])
    const = np.zeros(len(flat), bool)
    if s['const'] == 'all':
        const[:] = True
    elif s['const'] == 'some':
        const = rs.rand(len(flat)) < .5
    flat = np.where(const[:, None, None], flat[:, :1, :1], flat)
    x = np.ascontiguousarray(np.moveaxis(
        flat.reshape(move.shape), (-2, -1), pos))
    size = flat[0].size
    ctx.label('constant: %s' % s['const'])
    ctx.nontrivial(size > 1)
    keep = x.copy()
    arg = Image(x, copy=False) if s['image'] else x
    m = probability_map(arg, **kw)
    ctx.check(np.array_equal(x, keep), 'the responses were overwritten')
    if s['image']:
        ctx.check(isinstance(m, Image), 'an image gives an image')
        ctx.check(m is not arg, 'the image itself is returned')
        m = m.pixels
    ctx.equal(m.shape, x.shape, 'shape')
    fm = np.moveaxis(m, pos, (-2, -1)).reshape(flat.shape)
    for k, (a, b) in enumerate(zip(flat, fm)):
        ctx.check(np.all(b >= 0), 'negative probabilities')
        ctx.check(abs(b.sum() - 1) < 1e-9, 'map sums to %r', b.sum())
        if a.max() == a.min():
            ctx.close(b, np.full(b.shape, 1. / size), 'uniform map')
        else:
            ctx.close(b, (a - a.min()) / (a - a.min()).sum(), 'map',
                      rtol=1e-9)


@facet(P, 'grids', st.fixed_dictionaries({
    'h': st.integers(1, 25), 'w': st.integers(1, 25)}), quick=400)
def grids(ctx, s):
    """Sampling grids are the integer offsets around the centre pixel."""
    g = build_grid((s['h'], s['w']))
    ctx.equal(g.shape, (s['h'], s['w'], 2), 'shape')
    for i in range(s['h']):
        for j in range(s['w']):
            ctx.equal((int(g[i, j, 0]), int(g[i, j, 1])),
                      (i - s['h'] // 2, j - s['w'] // 2), 'offset')
    ctx.check(np.array_equal(build_grid(np.array([s['h'], s['w']])), g),
              'array shape')


NORMS = {'none': no_op,
         'channel': partial(normalize_norm, mode='per_channel',
                            error_on_divide_by_zero=False),
         'all': partial(normalize_norm, mode='all',
                        error_on_divide_by_zero=False)}
CFS = {'default': None, 'mccf': (mccf, imccf), 'mosse': (mosse, imosse),
       'custom': (partial(mccf, l=.1), partial(imccf, l=.1))}


def normalised(p, norm):
    """Own normalisation of one patch (channels x h x w)."""
    if norm == 'none':
        return p
    p = p - p.mean(axis=(-2, -1), keepdims=True) if norm == 'channel' else \
        p - p.mean()
    n = np.sqrt((p ** 2).sum(axis=(-2, -1), keepdims=True)) \
        if norm == 'channel' else np.sqrt((p ** 2).sum())
    return p / n


def centre(a, shape):
    """Central crop or zero padding, pixel size // 2 stays the centre."""
    out = a
    for ax, n in zip((-2, -1), shape):
        m = out.shape[ax]
        if m >= n:
            o = m // 2 - n // 2
            out = np.take(out, range(o, o + n), axis=ax)
        else:
            o = n // 2 - m // 2
            w = [(0, 0)] * out.ndim
            w[ax] = (o, n - m - o)
            out = np.pad(out, w)
    return out


def cfft(a):
    return np.fft.fft2(np.fft.ifftshift(a, axes=(-2, -1)))


def icfft(a):
    return np.fft.fftshift(np.real(np.fft.ifft2(a)), axes=(-2, -1))


def stack(im, points, shape, offsets):
    """(points, offsets * channels, h, w)"""
    offs = [np.zeros(2)] if offsets is None else offsets
    per = [im.extract_patches(PointCloud(points + np.asarray(o)),
                              patch_shape=shape, as_single_array=True)[:, 0]
           for o in offs]
    return np.concatenate(per, axis=1)


def ref_filter(samples, weights, p, cov, kind, l):
    """Spatial correlation filter, frequency by frequency."""
    n, c, h, w = samples.shape
    ext = (h + p[0] - 1, w + p[1] - 1)
    yy, xx = np.mgrid[:p[0], :p[1]]
    r2 = (yy - p[0] // 2) ** 2 + (xx - p[1] // 2) ** 2
    y = np.exp(-r2 / (2. * cov)) / (2 * np.pi * cov)
    X = cfft(centre(samples, ext)).reshape(n, c, -1)
    Y = cfft(centre(y, ext)).ravel()
    F = np.zeros((c, X.shape[-1]), complex)
    A = np.einsum('n,nck,ndk->kcd', weights, X.conj(), X)
    b = np.einsum('n,nck,k->kc', weights, X.conj(), Y)
    if kind == 'mosse':
        F = (b / (np.einsum('kcc->kc', A) + l)).T
    else:
        F = np.linalg.solve(A + l * np.eye(c), b[..., None])[..., 0].T
    return centre(icfft(F.reshape((c,) + ext)), p)


ens = {
    'seed': gen.seeds,
    'n': st.integers(1, 4), 'pts': st.integers(1, 4), 'c': st.integers(1, 3),
    'ph': st.integers(4, 14), 'pw': st.integers(4, 14),
    'ch': st.integers(5, 22), 'cw': st.integers(5, 22),
    'cov': st.sampled_from(['default', 1., 5., 2]),
    'norm': st.sampled_from(['default', 'none', 'channel', 'all']),
    'mask': st.sampled_from(['default', 'default', False, True]),
    'offsets': st.integers(0, 3),
    'cf': st.sampled_from(sorted(CFS)),
    'parts': st.lists(st.integers(1, 3), max_size=2),
    'sub': st.booleans(),
}


def data(s, n, salt):
    rs = gen.rng(s['seed'], salt)
    ims, shapes = [], []
    for _ in range(n):
        a = rs.rand(s['c'], 60, 64) + .3 * rs.rand(s['c'], 1, 1)
        pts = rs.uniform(16, 44, (s['pts'], 2))
        if not s['sub']:
            pts = np.round(pts)
        ims.append(Image(a))
        shapes.append(PointCloud(pts))
    return ims, shapes


@facet(P, 'ensembles', st.fixed_dictionaries(ens), quick=400)
def ensembles(ctx, s):
    """Responses equal the circular convolution of the normalised patches with
    filters trained on the normalised (and masked) context patches of all
    images, batches or not."""
    p = (s['ph'], s['pw'])
    c = (max(s['ch'], s['ph']), max(s['cw'], s['pw']))
    rs = gen.rng(s['seed'], 3)
    kw = {}
    cov = 3
    if s['cov'] != 'default':
        cov = kw['response_covariance'] = s['cov']
    norm = 'channel'
    if s['norm'] != 'default':
        norm = s['norm']
        kw['patch_normalisation'] = NORMS[norm]
    mask = True
    if s['mask'] != 'default':
        mask = kw['cosine_mask'] = s['mask']
    offsets = None
    if s['offsets']:
        offsets = kw['sample_offsets'] = rs.randint(-3, 4, (s['offsets'], 2))
    l, kind = .01, 'mccf'
    if CFS[s['cf']] is not None:
        a, b = CFS[s['cf']]
        kw['icf_cls'] = partial(IncrementalCorrelationFilterThinWrapper,
                                cf_callable=a, icf_callable=b)
        kind = 'mosse' if s['cf'] == 'mosse' else 'mccf'
        l = .1 if s['cf'] == 'custom' else .01
    ctx.label('%s, %s, %d increments' % (kind, norm, len(s['parts'])))
    batches = [data(s, s['n'], 10)] + [
        data(s, k, 20 + i) for i, k in enumerate(s['parts'])]
    kept = [[im.pixels.copy() for im in b[0]] +
            [x.points.copy() for x in b[1]] for b in batches]
    e = CorrelationFilterExpertEnsemble(*batches[0], patch_shape=p,
                                        context_shape=c, **kw)
    for b in batches[1:]:
        e.increment(*b)
    ctx.equal(e.n_experts, s['pts'], 'number of experts')
    ctx.equal(tuple(e.search_shape), p, 'search shape')
    ctx.equal(e.n_sample_offsets, max(1, s['offsets']), 'sample offsets')
    ctx.equal(e.n_images, sum(len(b[0]) for b in batches), 'images seen')
    # reference
    win = np.outer(np.hanning(c[0]), np.hanning(c[1])) if mask else 1.
    ims = sum([b[0] for b in batches], [])
    shapes = sum([b[1] for b in batches], [])
    per = [stack(im, x.points, c, offsets) for im, x in zip(ims, shapes)]
    w = np.ones(len(ims))
    size = (int(1.5 * p[0] - 1), int(1.5 * p[1] - 1))
    ctx.equal(tuple(int(v) for v in e.padded_size), size, 'padded size')
    spatial = []
    for i in range(s['pts']):
        X = np.array([win * normalised(q[i], norm) for q in per])
        spatial.append(ref_filter(X, w, p, float(cov), kind, l))
    # a new image
    (im,), (x,) = data(s, 1, 99)
    for name, im, x in (('new image', im, x), ('training image', ims[-1],
                                               shapes[-1])):
        q = stack(im, x.points, p, offsets)
        ref = []
        for i in range(s['pts']):
            z = centre(normalised(q[i], norm), size)
            f = centre(spatial[i], size)
            ref.append(centre(icfft((cfft(z) * cfft(f)).sum(axis=0)), p))
        got = e.predict_response(im, x)
        ctx.equal(got.shape, (s['pts'], 1) + p, 'shape of responses')
        ctx.close(got[:, 0], np.array(ref), 'responses to a ' + name,
                  rtol=1e-6)
        m = e.predict_probability(im, x)
        ctx.equal(m.shape, got.shape, 'shape of probabilities')
        for i in range(s['pts']):
            r = ref[i] - ref[i].min()
            ctx.close(m[i, 0], r / r.sum(), 'probabilities', rtol=1e-4,
                      atol=1e-7)
    # filter images
    sp, fr = e.spatial_filter_images, e.frequency_filter_images
    ctx.check(len(sp) == len(fr) == s['pts'], 'number of filter images')
    for i in range(s['pts']):
        ref = spatial[i][:, ::-1, ::-1]
        ctx.close(sp[i].pixels, ref, 'spatial filter image', rtol=1e-6)
        ctx.close(fr[i].pixels, np.abs(np.fft.fftshift(
            np.fft.fft2(ref), axes=(-2, -1))), 'frequency filter image',
            rtol=1e-6)
    for b, k in zip(batches, kept):
        now = [im.pixels for im in b[0]] + [x.points for x in b[1]]
        ctx.check(all(np.array_equal(u, v) for u, v in zip(now, k)),
                  'training changed its images or shapes')
    str(e)


@facet(P, 'localisation', st.fixed_dictionaries({
    'seed': gen.seeds, 'n': st.integers(2, 3),
    'ph': st.integers(15, 22), 'pw': st.integers(15, 22),
    'rh': st.floats(1.9, 2.1), 'rw': st.floats(1.9, 2.1),
    'norm': st.sampled_from(['default', 'none', 'channel']),
    'inc': st.booleans(),
    'dy': st.integers(-2, 2), 'dx': st.integers(-2, 2)}), quick=120)
def localisation(ctx, s):
    """Experts respond at the offset by which a known patch was displaced,
    for patches and contexts of even and odd sizes (median of all experts of
    all images, single peaks may be beaten by noise)."""
    rs = gen.rng(s['seed'])
    p = (s['ph'], s['pw'])
    c = tuple(int(round(a * r)) for a, r in zip(p, (s['rh'], s['rw'])))
    field = rs.randn(1, 140, 140)
    base = np.stack(np.meshgrid([32, 45, 58, 70], [30, 44, 57, 71]),
                    -1).reshape(-1, 2).astype(float)
    ims = []
    for k in range(s['n']):
        oy, ox = rs.randint(0, 20, 2)
        a = field[:, oy:oy + 110, ox:ox + 110]
        im = Image(a + .05 * rs.randn(*a.shape))
        im.landmarks['PTS'] = PointCloud(base + 10 - [oy, ox])
        ims.append(im)
    shapes = [im.landmarks['PTS'] for im in ims]
    d = np.array([s['dy'], s['dx']])
    ctx.label('patch %s context %s' % tuple(
        ''.join('eo'[v % 2] for v in t) for t in (p, c)))
    ctx.nontrivial(np.any(d != 0))
    kw = {}
    if s['norm'] != 'default':
        kw['patch_normalisation'] = NORMS[s['norm']]
    e = CorrelationFilterExpertEnsemble(ims, shapes, patch_shape=p,
                                        context_shape=c, **kw)
    if s['inc']:
        e.increment(ims, shapes)
    g = build_grid(e.search_shape).reshape(-1, 2)
    miss = []
    for im, x in zip(ims, shapes):
        r = e.predict_probability(im, PointCloud(x.points + d))
        miss.append(g[np.argmax(r.reshape(len(r), -1), axis=1)] + d)
    hit = np.median(np.concatenate(miss), axis=0)
    ctx.check(np.all(hit == 0), 'experts displaced by %r point to places off '
              'by %r (median)', d.tolist(), hit.tolist())
    ctx.equal(e.n_experts, len(base), 'experts')
