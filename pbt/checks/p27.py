"""P27: arbitrary conventions make no difference to fits."""
from collections import OrderedDict
from functools import partial

import numpy as np
from hypothesis import strategies as st

from menpo.feature import gradient, ndfeature, no_op
from menpo.image import Image, MaskedImage
from menpo.shape import (LabelledPointUndirectedGraph, PointCloud,
                         PointDirectedGraph, PointUndirectedGraph,
                         UndirectedGraph)
from menpofit import aam, sdm
from menpofit.clm.expert.ensemble import channel_normalize_norm
from ..core import facet, Discard
from .. import gen, fams
from . import p06

P = 'P27'
KINDS = fams.MODEL_KINDS + ['lk', 'sdm', 'psdm', 'sdaam']
CASCADES = ('sdm', 'psdm', 'sdaam')
SDAAM = ['MeanTemplateNewton', 'MeanTemplateGaussNewton', 'ProjectOutNewton',
         'ProjectOutGaussNewton', 'AppearanceWeightsNewton',
         'AppearanceWeightsGaussNewton']


@ndfeature
def squares(px):
    return np.concatenate([px, px ** 2])


def smaller(im):
    return im.rescale(.7)


FEATS = [no_op, squares, smaller, gradient]


class Same(object):
    """The convention that leaves everything as it is."""
    gain, swapped, order = 1., False, None

    def pixels(self, a):
        return a

    def points(self, x):
        return x

    def cloud(self, x):
        return PointCloud(np.array(self.points(x), order='C'))

    def image(self, im):
        a = np.array(self.pixels(im.pixels), order='C')
        if isinstance(im, MaskedImage):
            out = MaskedImage(a, mask=self.pixels(im.mask.pixels)[0])
        else:
            out = Image(a)
        out.landmarks['PTS'] = self.cloud(im.landmarks['PTS'].points)
        return out

    def size(self, shape):
        return tuple(shape)

    def edges(self, e):
        return e


class Relabelled(Same):
    def __init__(self, order):
        self.order = np.array(order)

    def points(self, x):
        return x[self.order]

    def edges(self, e):
        return np.argsort(self.order)[e]


class Swapped(Same):
    swapped = True

    def pixels(self, a):
        return a.transpose(0, 2, 1)

    def points(self, x):
        return x[:, ::-1]

    def size(self, shape):
        return tuple(shape)[::-1]


class Mixed(Same):
    """Channels are orthogonally mixed or reordered."""

    def __init__(self, Q):
        self.Q = Q

    def pixels(self, a):
        if a.dtype == bool:
            return a
        return np.einsum('ij,jhw->ihw', self.Q, a)


class Brighter(Same):
    def __init__(self, gain, offset):
        self.gain, self.offset = gain, offset

    def pixels(self, a):
        return a if a.dtype == bool else a * self.gain + self.offset


class Contained(Same):
    """Landmarks come in another kind of container."""

    def __init__(self, kind, n):
        self.kind, self.n = kind, n

    def cloud(self, x):
        x = np.array(x)
        e = np.array([[i, i + 1] for i in range(self.n - 1)])
        if self.kind == 'graph':
            return PointUndirectedGraph.init_from_edges(x, e)
        if self.kind == 'directed':
            return PointDirectedGraph.init_from_edges(x, e)
        masks = OrderedDict([('all', np.ones(self.n, dtype=bool)),
                             ('first', np.arange(self.n) < 2)])
        return LabelledPointUndirectedGraph.init_from_edges(x, e, masks)


class Accompanied(Same):
    """Images carry other groups of landmarks before or after the named
    one."""

    def __init__(self, seed, before, after, same):
        self.seed, self.before, self.after = seed, before, after
        self.same = same

    def image(self, im):
        out = Same.image(self, im)
        x = out.landmarks['PTS']
        del out.landmarks['PTS']
        rs = gen.rng(self.seed, 17)

        def others(names):
            for k, name in enumerate(names):
                n = x.n_points if self.same else 1 + rs.randint(9)
                out.landmarks[name] = PointCloud(
                    (rs.rand(n, 2) + .02 * x.points[0]) *
                    np.array(out.shape) * .8)
        others(['AAA', '__box'][:self.before])
        out.landmarks['PTS'] = x
        others(['zzz', '0'][:self.after])
        return out


def perturbation(seed, c):
    """The same perturbations under any convention."""
    rs = gen.rng(seed, 31)

    def perturb(shape, bb):
        lo, hi = bb.points.min(axis=0), bb.points.max(axis=0)
        m, s, d = (lo + hi) / 2, rs.uniform(.9, 1.1), rs.uniform(-2, 2, 2)
        if c.swapped:
            d = d[::-1]
        lo, hi = (lo - m) * s + m + d, (hi - m) * s + m + d
        return PointCloud([lo, [hi[0], lo[1]], hi, [lo[0], hi[1]]])
    return perturb


def regression(cls, name, s, c):
    """Penalties of squared weights, in units of squared intensities."""
    a = s['ridge']
    # (the one that biases are the weight of has no such unit)
    bias = s['bias'] and not s.get('gain')
    if 'Gauss' in name or 'Guass' in name:
        return partial(cls, alpha=a, alpha2=a * c.gain ** 2)
    if name.endswith('Newton'):
        return partial(cls, alpha=a * c.gain ** 2, bias=bias)
    if 'OPP' in name:
        return partial(cls, bias=bias)
    return partial(cls, variance=.95, bias=bias)


def build(s, ims, c):
    kind, n = s['kind'], ims[0].landmarks['PTS'].n_points
    k = len(s['scales'])
    sizes = [c.size(p) for p in s['patch'][:k]]
    kw = dict(scales=list(s['scales']), diagonal=s['diag'],
              holistic_features=[FEATS[f] for f in s['feats'][:k]])
    if kind == 'lk':
        a = s['alg']
        t = ims[0].crop_to_landmarks_proportion(.15, group='PTS')
        res = fams.LK_RES[(a // 3) % 5]
        return fams.lk_fitter(t, fams.LK_ALGS[a % 3], res, eps=s.get('eps'),
                              **kw)
    if kind in CASCADES:
        pert = perturbation(s['seed'], c)
        o = dict(n_iterations=s['its'], n_perturbations=4,
                 perturb_from_gt_bounding_box=pert)
        if kind == 'sdaam':
            m = fams.make('aam_patch', ims, max_shape_components=3,
                          patch_shape=sizes, **kw)
            name = SDAAM[s['alg'] % len(SDAAM)]
            return aam.SupervisedDescentAAMFitter(
                ims, m, group='PTS', sd_algorithm_cls=regression(
                    getattr(aam, name), name, s, c), **o)
        names = fams.NP_SDM if kind == 'sdm' else fams.PS_SDM
        if s.get('gain'):
            # (orthonormal regressions are not free of units)
            names = [a for a in names if 'OPP' not in a]
        name = names[s['alg'] % len(names)]
        return sdm.SupervisedDescentFitter(
            ims, group='PTS', patch_shape=sizes, sd_algorithm_cls=regression(
                getattr(sdm, name), name, s, c), **dict(kw, **o))
    o = p06.small(kind)
    extra = dict(o.pop('extra', {}))
    if kind == 'aps':
        # (fewer than samples)
        o['max_appearance_components'] = 3
    if s.get('full'):
        o['max_shape_components'] = None
    kw['patch_shape'] = sizes
    if kind in ('clm', 'uni'):
        kw['context_shape'] = [tuple(v + 8 for v in z) for z in sizes]
        if s.get('gain') or s['norm']:
            extra['patch_normalisation'] = channel_normalize_norm
    if kind == 'aps':
        e = np.array([[i, (i + s['hop']) % n] for i in range(n - 1)])
        kw['appearance_graph'] = UndirectedGraph.init_from_edges(
            c.edges(e), n)
    m = fams.make(kind, ims, **dict(kw, extra=extra, **o))
    names = fams.algs(kind)
    return fams.fitter(kind, m, names[s['alg'] % len(names)],
                       eps=s.get('eps'))


spec = {
    'seed': gen.seeds, 'kind': st.sampled_from(KINDS),
    'alg': st.integers(0, 44), 'n': st.integers(4, 8), 'c': st.integers(1, 3),
    'images': st.integers(5, 7),
    'scales': st.sampled_from([[1.], [.5, 1.], [.7, 1.]]),
    'feats': st.lists(st.integers(0, 3), min_size=2, max_size=2),
    'patch': st.lists(st.tuples(st.integers(5, 10), st.integers(5, 10)),
                      min_size=2, max_size=2),
    'diag': st.sampled_from([None, 24, 31]), 'hop': st.integers(1, 2),
    'norm': st.booleans(), 'bias': st.booleans(),
    'ridge': st.sampled_from([.02, .5]), 'its': st.integers(1, 3),
    'limit': st.integers(1, 6), 'via': st.sampled_from(['shape', 'box']),
}


def masks_agree(s, fits, c):
    """Whether the reference frames show the same pixels: menpo truncates the
    corners of patches, which is undecided by rounding for the point a
    reference frame puts exactly on a pixel."""
    for a, b in zip(fits[0].algorithms, fits[1].algorithms):
        t = [getattr(f.interface, 'template', None)
             if hasattr(f, 'interface') else None for f in (a, b)]
        m = [getattr(x, 'mask', None) for x in t]
        if m[0] is None or m[1] is None:
            continue
        m = [c.pixels(m[0].pixels), m[1].pixels]
        if m[0].shape != m[1].shape or not np.array_equal(*m):
            return False
    return True


def shaken(im, rs):
    im = im.copy()
    im.pixels = im.pixels * (1 + 1e-9 * rs.randn(*im.pixels.shape))
    return im


def run(s, f, im, start, c):
    kw = {} if s['kind'] in CASCADES else dict(max_iters=s['limit'])
    if s['kind'] not in CASCADES + ('clm',):
        kw['return_costs'] = True
    im = c.image(im)
    x = c.cloud(start.points)
    fn = f.fit_from_shape
    if s['via'] == 'box':
        x, fn = x.bounding_box(), f.fit_from_bb
    try:
        with np.errstate(all='ignore'):
            r = fn(im, x, gt_shape=im.landmarks['PTS'], **kw)
    except Exception as e:
        return e
    return r


def compare(ctx, s, c, units=None, inside=False):
    """Everything under another convention gives the same fit under that
    convention."""
    # (nothing is known beyond the borders: for other zeros they are far)
    h = 120 if inside else 58
    ims = gen.image_set(s['seed'], s['images'] + 1, s['n'],
                        n_channels=s['c'], size=(h, h + 6),
                        fill=.2 * 58 / h, noise=.01)
    train, test = ims[:-1], ims[-1]
    start = gen.perturb(test.landmarks['PTS'], s['seed'], .3, 1.)
    same = Same()
    fits, errors = [], []
    for k in (same, c):
        try:
            with np.errstate(all='ignore'):
                fits.append(build(s, [k.image(im) for im in train], k))
        except (ValueError, np.linalg.LinAlgError) as e:
            # (too little data for some regressions)
            errors.append(e)
    if errors:
        ctx.equal(len(errors), 2, 'one convention only fails: %r' % errors)
        raise Discard()
    if not masks_agree(s, fits, c):
        raise Discard()
    a, b = [run(s, f, test, start, k) for f, k in zip(fits, (same, c))]
    if isinstance(a, Exception) or isinstance(b, Exception):
        ctx.check(isinstance(a, Exception) and isinstance(b, Exception),
                  'one convention only fails: %r, %r', a, b)
        raise Discard()
    ctx.label(s['kind'])
    xa = [c.points(x.points) for x in a.shapes]
    xb = [x.points for x in b.shapes]
    if inside:
        lo = min(x.points.min() for x in a.shapes)
        hi = np.max([x.points.max(0) for x in a.shapes], axis=0)
        m = 36
        if lo < m or np.any(hi > np.array(test.shape) - m):
            raise Discard()

    def gap(xa, xb):
        if len(xa) != len(xb):
            return np.inf
        return max(np.abs(p - q).max() for p, q in zip(xa, xb))

    ctx.nontrivial(gap(xa[-1:], xa[:1]) > .05)
    d, tol = gap(xa, xb), 1e-6
    if not d <= tol:
        # how much do the tiniest changes matter for this fit?
        e = 0.
        for k in range(3, 6):
            rs = gen.rng(s['seed'], k)
            with np.errstate(all='ignore'):
                f = build(s, [same.image(shaken(im, rs)) for im in train],
                          same)
            j = run(s, f, shaken(test, rs), start, same)
            if isinstance(j, Exception):
                raise Discard()
            g = gap([c.points(x.points) for x in j.shapes], xa)
            if not g < 1e-4:
                ctx.label('undecided')
                raise Discard()
            e = max(e, g)
        tol = max(tol, 100 * e)
    ctx.check(d <= tol, '%s: shapes differ by %.3g (%d and %d of them)',
              s['kind'], d, len(xa), len(xb))
    ctx.close(a.final_error(), b.final_error(), 'error', atol=10 * tol)
    ca, cb = [getattr(r, 'costs', None) for r in (a, b)]
    if ca is not None and cb is not None and units is not None and tol < 1e-5:
        ca = np.array([float(v) for v in ca])
        cb = np.array([float(v) for v in cb])
        ctx.equal(len(cb), len(ca), 'number of costs')
        ctx.close(cb, ca * units, 'costs', rtol=1e-5,
                  atol=1e-9 * np.max(np.abs(ca * units), initial=0))


@facet(P, 'landmarks', st.fixed_dictionaries(dict(
    spec, order=st.permutations(range(8)))), quick=160, thorough=2500)
def landmarks(ctx, s):
    """Relabelled landmarks (and graphs) give the relabelled fit."""
    order = [i for i in s['order'] if i < s['n']]
    ctx.nontrivial(order != sorted(order))
    compare(ctx, s, Relabelled(order), 1.)


@facet(P, 'axes', st.fixed_dictionaries(spec), quick=160, thorough=2500)
def axes(ctx, s):
    """Exchanging the axes of images, landmarks and patches exchanges those of
    the fit."""
    if s['kind'] == 'lk' and fams.LK_RES[(s['alg'] // 3) % 5] == \
            'GradientCorrelation':
        # (the border, where no gradient is known, gets the angle zero)
        s = dict(s, alg=s['alg'] % 12)
    compare(ctx, s, Swapped(), 1.)


def orthogonal(s):
    """Kinds comparing squared differences do not depend on the basis the
    channels are given in; others not on their order."""
    rs = gen.rng(s['seed'], 61)
    if s['mix'] and s['kind'] not in ('clm', 'uni') and not (
            s['kind'] == 'lk' and fams.LK_RES[(s['alg'] // 3) % 5] not in
            ('SSD', 'FourierSSD')) and all(f != 1 for f in s['feats']):
        return np.linalg.qr(rs.randn(s['c'], s['c']))[0]
    return np.eye(s['c'])[rs.permutation(s['c'])]


@facet(P, 'channels', st.fixed_dictionaries(dict(spec, mix=st.booleans())),
       quick=160, thorough=2500)
def channels(ctx, s):
    """Reordered or (for squared differences) orthogonally mixed channels
    give the same fit."""
    if s['c'] == 1:
        s = dict(s, c=2)
    compare(ctx, s, Mixed(orthogonal(s)), 1.)


@facet(P, 'intensities', st.fixed_dictionaries(dict(
    spec, gain=st.sampled_from([.01, .3, 7., 255.]),
    offset=st.sampled_from([0., 0., 1., -3.]))), quick=160, thorough=2500)
def intensities(ctx, s):
    """Other units of intensity give the same fit, and so does another zero
    for models that know the mean appearance."""
    if any(f == 1 for f in s['feats']):
        s = dict(s, feats=[f if f != 1 else 0 for f in s['feats']])
    off = s['offset']
    if s['kind'] in CASCADES:
        off = 0.
    units = None
    if s['kind'][:3] in ('aam', 'atm') or (
            s['kind'] == 'lk' and
            fams.LK_RES[(s['alg'] // 3) % 5] in ('SSD', 'FourierSSD')):
        units = s['gain'] ** 2
    compare(ctx, s, Brighter(s['gain'], off), units, inside=off != 0)


@facet(P, 'containers', st.fixed_dictionaries(dict(
    spec, what=st.sampled_from(['graph', 'directed', 'labelled']))),
    quick=90, thorough=1500)
def containers(ctx, s):
    """Landmarks may come as point clouds, graphs or labelled graphs."""
    compare(ctx, s, Contained(s['what'], s['n']), 1.)


@facet(P, 'groups', st.fixed_dictionaries(dict(
    spec, before=st.integers(0, 2), after=st.integers(0, 2),
    same=st.booleans(), how=st.integers(0, 2 ** 16))), quick=120,
    thorough=1800)
def groups(ctx, s):
    """Other groups of landmarks on training images, templates and fitted
    images do not matter."""
    s = dict(s, kind=KINDS[s['how'] % len(KINDS)])
    compare(ctx, s, Accompanied(s['seed'], s['before'], s['after'],
                                s['same']), 1.)
