"""P06: fits live in the coordinates of the image that was handed in."""
import numpy as np
from hypothesis import strategies as st

from menpo.feature import no_op, ndfeature
from menpo.image import Image, MaskedImage
from menpo.shape import PointCloud
from menpofit.transform import DifferentiablePiecewiseAffine
from menpofit.fitter import align_shape_with_bounding_box
from ..core import facet, Discard
from .. import gen, fams

P = 'P06'


# ------------------------------------------------ features that move the image
def feat_crop(im):
    return im.crop(np.array([2, 1]), np.array(im.shape))


def feat_crop2(im):
    return im.crop(np.array([1, 3]), np.array(im.shape))


def feat_down(im):
    return im.rescale(.6)


def feat_pad(im):
    """A larger canvas: everything moves by (+3, +2)."""
    h, w = im.shape
    px = np.zeros((im.n_channels, h + 3, w + 2))
    px[:, 3:, 2:] = im.pixels
    px[:, :3, 2:] = im.pixels[:, :1]
    px[:, :, :2] = px[:, :, 2:3]
    out = Image(px)
    if isinstance(im, MaskedImage):
        mask = np.ones((h + 3, w + 2), dtype=bool)
        mask[3:, 2:] = im.mask.mask
        out = MaskedImage(px, mask=mask)
    for g in im.landmarks:
        lm = im.landmarks[g]
        out.landmarks[g] = lm.from_vector(
            (lm.points + np.array([3., 2.])).ravel())
    return out


@ndfeature
def feat_two(pixels):
    return np.concatenate([pixels, pixels ** 2])


FEATS = {'no_op': no_op, 'crop': feat_crop, 'crop2': feat_crop2,
         'down': feat_down, 'two': feat_two, 'pad': feat_pad}

KINDS = fams.MODEL_KINDS
# thin plate splines are solved by menpo with a truncated SVD, which does not
# commute with translations: the kinds using them are not compared exactly
EXACT = [k for k in KINDS if not k.endswith('masked')]


def small(kind):
    kw = {}
    if kind == 'aps':
        kw['max_appearance_components'] = 4
    if kind in ('uni',):
        kw['max_appearance_components'] = 3
    if kind != 'lk':
        kw['max_shape_components'] = 3
    if kind.endswith('_linear'):
        # (see EXACT)
        kw['extra'] = {'transform': DifferentiablePiecewiseAffine}
    return kw


def build(kind, ims, scales, feats, diagonal=28, alg=0):
    """(fitter, shape model per scale or None)"""
    if kind == 'lk':
        a = fams.LK_ALGS[alg % 3]
        # (ECC normalises the whole image, which is therefore left out)
        res = ['SSD', 'FourierSSD', 'GradientImages']
        t = ims[0].crop_to_landmarks_proportion(.15, group='PTS')
        f = fams.lk_fitter(t, a, res[(alg // 3) % 3],
                           scales=scales, holistic_features=feats,
                           diagonal=diagonal)
        return f, None
    if kind == 'sdm':
        np.random.seed(alg)
        f = fams.sdm_fitter(ims, fams.NP_SDM[alg % 2], scales=scales,
                            holistic_features=feats, diagonal=diagonal,
                            n_iterations=2)
        return f, None
    if kind == 'psdm':
        np.random.seed(alg)
        f = fams.sdm_fitter(ims, fams.PS_SDM[alg % 2], scales=scales,
                            holistic_features=feats, diagonal=diagonal,
                            n_iterations=2)
        return f, [a.shape_model for a in f.algorithms]
    if kind == 'sdaam':
        from menpofit import aam
        from functools import partial
        m = fams.make('aam_patch', ims, scales=scales, diagonal=diagonal,
                      holistic_features=feats, max_shape_components=3)
        np.random.seed(alg)
        f = aam.SupervisedDescentAAMFitter(
            ims, m, group='PTS', n_iterations=2, n_perturbations=4,
            sd_algorithm_cls=partial([aam.MeanTemplateNewton,
                                      aam.ProjectOutNewton][alg % 2],
                                     alpha=.05))
        return f, m.shape_models
    kw = small(kind)
    m = fams.make(kind, ims, scales=scales, diagonal=diagonal,
                  holistic_features=feats, **kw)
    al = fams.algs(kind)
    return fams.fitter(kind, m, al[alg % len(al)]), m.shape_models


def ortho_project(mean, comps, t):
    """Least squares motion of the mean, then the deformation components (seen
    under that motion) that best explain the rest."""
    mc, tc = mean - mean.mean(0), t - t.mean(0)
    den = np.sum(mc * mc)
    p = np.sum(mc * tc) / den
    q = np.sum(mc[:, 0] * tc[:, 1] - mc[:, 1] * tc[:, 0]) / den
    L = np.array([[p, -q], [q, p]])
    sim = mc.dot(L.T) + t.mean(0)
    D = np.stack([c.reshape(-1, 2).dot(L.T).ravel() for c in comps], 1)
    w, _, _, _ = np.linalg.lstsq(D, (t - sim).ravel(), rcond=None)
    return sim + D.dot(w).reshape(-1, 2)


def project(sm, pts):
    """What the shape model makes of a shape (independent of its code)."""
    mean = sm.model.mean().points
    comps = sm.model.components[:sm.model.n_active_components]
    n = pts.shape[0]
    if mean.shape[0] != n:
        # dense models: the dense member of the family whose sparse part is
        # closest comes first
        mc = mean - mean.mean(0)
        m = mean.shape[0]
        F = np.stack([mc.ravel(), np.stack([-mc[:, 1], mc[:, 0]], 1).ravel(),
                      np.tile([1., 0.], m), np.tile([0., 1.], m)])
        F = F / np.linalg.norm(F, axis=1)[:, None]
        W = np.vstack([F, comps])
        x, _, _, sv = np.linalg.lstsq(W[:, :2 * n].T, pts.ravel(), rcond=1e-15)
        if sv[-1] < 1e-6 * sv[0]:
            raise Discard()
        pts = x.dot(W).reshape(-1, 2)
    return ortho_project(mean, comps, pts)[:n]


def affine_between(a, b):
    """Exact affine map (as a function) taking points a onto points b."""
    A = np.hstack([a, np.ones((a.shape[0], 1))])
    M, _, _, _ = np.linalg.lstsq(A, b, rcond=None)
    assert np.abs(A.dot(M) - b).max() < 1e-6
    return lambda p: np.hstack([p, np.ones((p.shape[0], 1))]).dot(M)


def scale_maps(fit, image, start):
    """Per scale: maps (original -> scale image) and back, computed with
    menpo alone from the documented preparation of the image."""
    im = image.copy()
    im.landmarks['s0'] = start
    tmp = im.rescale_to_pointcloud(fit.reference_shape, group='s0')
    out = []
    for k in range(fit.n_scales):
        f = fit.holistic_features[k](tmp)
        if fit.scales[k] != 1:
            f = f.rescale(fit.scales[k])
        p = f.landmarks['s0'].points
        out.append((affine_between(start.points, p),
                    affine_between(p, start.points)))
    return out


def test_case(s, ims, kind='', spread=1.):
    """An image and a start shape away from its landmarks."""
    im = ims[s['pick'] % len(ims)].copy()
    gt = im.landmarks['PTS']
    start = gen.perturb(gt, s['seed'], .3 * s['noise'] * spread, 1.5, salt=5)
    return im, gt, start


feat_list = st.lists(st.sampled_from(sorted(FEATS)), min_size=3, max_size=3)


@facet(P, 'chain', st.fixed_dictionaries({
    'seed': gen.seeds, 'kind': st.sampled_from(KINDS + ['lk', 'psdm',
                                                        'sdaam']),
    'feats': feat_list, 'alg': st.integers(0, 9),
    'scales': st.sampled_from([[1.], [.5], [.5, 1.], [.5, 1.], [.4, .7, 1.],
                               [1., .5], [1., 1.], [.7, .7], [.97, 1.],
                               [.5, .98]]),
    'size': st.tuples(st.integers(44, 70), st.integers(44, 70)),
    'iters': st.lists(st.integers(0, 2), min_size=3, max_size=3),
    'zoom': st.floats(.5, 1.6), 'pick': st.integers(0, 4),
    'noise': st.floats(0, 2), 'diagonal': st.sampled_from([24, 30, 38])}),
    quick=120, thorough=1500,
    rule='always: every scale hands its shape to the next one')
def chain(ctx, s):
    """Every scale starts from what the previous scale ended with, expressed in
    that scale's image: the first shape a scale reports is the least squares
    reconstruction of the last reported shape (of the given start, for the
    first scale); the given start and ground truth come back unchanged."""
    n = len(s['scales'])
    feats = [FEATS[f] for f in s['feats'][:n]]
    if s['kind'] == 'sdaam' and 'two' in s['feats'][:n]:
        ctx.label('two')
    train = gen.image_set(s['seed'], 5, 6, size=(50, 52))
    fit, sms = build(s['kind'], train, s['scales'], feats,
                     diagonal=s['diagonal'], alg=s['alg'])
    size = tuple(s['size'])
    ims = gen.image_set(s['seed'], 5, 6, size=size,
                        fill=.28 * min(1., s['zoom']))
    im, gt, start = test_case(s, ims)
    px = im.pixels.copy()
    kw = {}
    if s['kind'] not in ('psdm', 'sdaam'):
        kw['max_iters'] = s['iters'][:n]
    r = attempt(fit.fit_from_shape, im, start, gt_shape=gt, **kw)
    ctx.label(s['kind'])
    ctx.close(r.initial_shape.points, start.points, 'the given start',
              rtol=0, atol=1e-6)
    ctx.check(r.gt_shape is gt or np.array_equal(r.gt_shape.points, gt.points),
              'the ground truth changed')
    ctx.check(np.array_equal(r.image.pixels, px), 'the image changed')
    ctx.close(r.shapes[0].points, start.points, 'first shape', rtol=0,
              atol=1e-6)
    ctx.close(r.shapes[-1].points, r.final_shape.points, 'last shape', rtol=0,
              atol=1e-9)
    maps = scale_maps(fit, im, start)
    prev = start.points
    pos = 1
    for k in range(n):
        fwd, bwd = maps[k]
        exp = prev
        if sms is not None:
            exp = bwd(project(sms[k], fwd(prev)))
        ctx.close(r.shapes[pos].points, exp,
                  'scale %d starts from somewhere else' % k, rtol=0,
                  atol=1e-4 + 1e-5 * np.abs(exp).max())
        pos += r.n_iters_per_scale[k] + 1
        prev = r.shapes[pos - 1].points
    ctx.equal(pos, len(r.shapes), 'number of shapes')
    ctx.close(prev, r.final_shape.points, 'final', rtol=0, atol=1e-9)


@facet(P, 'sdm_start', st.fixed_dictionaries({
    'seed': gen.seeds, 'alg': st.integers(0, len(fams.NP_SDM) - 1),
    'feats': feat_list,
    'scales': st.sampled_from([[1.], [.5, 1.], [.7, .7]]),
    'size': st.tuples(st.integers(44, 70), st.integers(44, 70)),
    'pick': st.integers(0, 4), 'noise': st.floats(0, 2)}),
    quick=24, thorough=300)
def sdm_start(ctx, s):
    """Cascaded regressions report the given start, ground truth and image
    unchanged, and every regressor's increment in original coordinates."""
    n = len(s['scales'])
    feats = [FEATS[f] for f in s['feats'][:n]]
    train = gen.image_set(s['seed'], 5, 6, size=(50, 52))
    np.random.seed(3)
    fit = fams.sdm_fitter(train, fams.NP_SDM[s['alg'] % 2], scales=s['scales'],
                          holistic_features=feats, diagonal=28)
    ims = gen.image_set(s['seed'], 5, 6, size=tuple(s['size']))
    im, gt, start = test_case(s, ims)
    r = attempt(fit.fit_from_shape, im, start, gt_shape=gt)
    ctx.close(r.initial_shape.points, start.points, 'the given start',
              rtol=0, atol=1e-6)
    ctx.check(np.array_equal(r.gt_shape.points, gt.points), 'ground truth')
    # replay the cascade by hand in the coordinates of every scale
    im2 = im.copy()
    im2.landmarks['s0'] = start
    tmp = im2.rescale_to_pointcloud(fit.reference_shape, group='s0')
    maps = scale_maps(fit, im, start)
    cur = start
    pos = 1
    for k, a in enumerate(fit.algorithms):
        f = fit.holistic_features[k](tmp)
        if fit.scales[k] != 1:
            f = f.rescale(fit.scales[k])
        fwd, bwd = maps[k]
        res = a.run(f, PointCloud(fwd(cur.points)))
        for sh in res.shapes[1:]:
            ctx.close(r.shapes[pos].points, bwd(sh.points),
                      'shape %d' % pos, rtol=0, atol=1e-4)
            pos += 1
        cur = r.shapes[pos - 1]
    ctx.equal(pos, len(r.shapes), 'number of shapes')


def unit_start(fit, shape):
    """The shape resized about its centre to the size of the reference (the
    fitter then has nothing to resize)."""
    c = shape.points - shape.centre()
    ref = fit.reference_shape.points - fit.reference_shape.centre()
    return PointCloud(c / np.linalg.norm(c) * np.linalg.norm(ref) +
                      shape.centre())


def shifted(im, dy, dx, mode):
    """The same picture on a canvas with dy (dx) more rows (columns) before
    it."""
    px = np.pad(im.pixels, [(0, 0), (dy, 0), (dx, 0)], mode=mode)
    return Image(px)


@facet(P, 'translation', st.fixed_dictionaries({
    'seed': gen.seeds, 'kind': st.sampled_from(
        EXACT + ['lk', 'sdm', 'psdm', 'sdaam']),
    'alg': st.integers(0, 9), 'dy': st.integers(0, 9), 'dx': st.integers(0, 9),
    'scales': st.sampled_from([[1.], [1., 1.]]), 'pick': st.integers(0, 4),
    'noise': st.floats(0, 2), 'iters': st.integers(1, 3)}),
    quick=80, thorough=1000, rule='the canvas grows on some side')
def translation(ctx, s):
    """The same picture on a canvas enlarged by whole pixels at the top and at
    the left, with a start moved alike, gives the same fit moved alike."""
    kind = s['kind']
    ims = gen.image_set(s['seed'], 5, 6, size=(70, 72), fill=.17)
    fit, _ = build(kind, ims, s['scales'], no_op, diagonal=28, alg=s['alg'])
    im = ims[s['pick']]
    gt = im.landmarks['PTS']
    start = unit_start(fit, gen.perturb(gt, s['seed'], .15 * s['noise'], 1.))
    ctx.nontrivial(s['dy'] or s['dx'])
    ctx.label(kind)
    big = shifted(im, s['dy'], s['dx'], 'edge')
    off = np.array([s['dy'], s['dx']], dtype=float)
    kw = {}
    if kind not in ('sdm', 'psdm', 'sdaam'):
        kw['max_iters'] = s['iters']
    a = attempt(fit.fit_from_shape, Image(im.pixels.copy()), start, **kw)
    b = attempt(fit.fit_from_shape, big, PointCloud(start.points + off), **kw)
    if not far_from_border(a.shapes, im.shape, 9):
        raise Discard()
    if a.n_iters != b.n_iters:      # converged on either side of eps
        raise Discard()
    for k, (x, y) in enumerate(zip(a.shapes, b.shapes)):
        ctx.close(y.points - off, x.points, 'shape %d does not move with the '
                  'picture' % k, rtol=0, atol=1e-3)


def attempt(fn, *a, **kw):
    try:
        return fn(*a, **kw)
    except np.linalg.LinAlgError:      # a fit that left the picture
        raise Discard()


def far_from_border(shapes, size, margin):
    return all(np.all(np.isfinite(x.points)) and
               np.all(x.points > margin) and
               np.all(x.points < np.array(size) - 1 - margin) for x in shapes)


@facet(P, 'moving_features', st.fixed_dictionaries({
    'seed': gen.seeds, 'kind': st.sampled_from(
        EXACT + ['sdm', 'psdm', 'sdaam']),
    'alg': st.integers(0, 9),
    'n': st.integers(1, 3),
    'feats': st.lists(st.sampled_from(['crop', 'crop2', 'no_op', 'pad']),
                      min_size=3, max_size=3),
    'pick': st.integers(0, 4), 'noise': st.floats(0, 2),
    'iters': st.lists(st.integers(0, 2), min_size=3, max_size=3)}),
    quick=80, thorough=1000, rule='some feature moves the image')
def moving_features(ctx, s):
    """A feature that only moves the image content (cropping or padding at the
    top or left) does not change what is fitted, at whichever scales it is
    used."""
    kind, n = s['kind'], s['n']
    names = s['feats'][:n]
    ctx.nontrivial(any(f != 'no_op' for f in names))
    ims = gen.image_set(s['seed'], 5, 6, size=(70, 72), fill=.17)
    sc = [1.] * n
    plain, _ = build(kind, ims, sc, [no_op] * n, diagonal=28, alg=s['alg'])
    moved, _ = build(kind, ims, sc, [FEATS[f] for f in names], diagonal=28,
                     alg=s['alg'])
    im = ims[s['pick']]
    start = unit_start(plain, gen.perturb(im.landmarks['PTS'], s['seed'],
                                          .15 * s['noise'], 1.))
    kw = {}
    if kind not in ('sdm', 'psdm', 'sdaam'):
        kw['max_iters'] = s['iters'][:n]
    a = attempt(plain.fit_from_shape, im.copy(), start, **kw)
    b = attempt(moved.fit_from_shape, im.copy(), start, **kw)
    if not far_from_border(a.shapes, im.shape, 9):
        raise Discard()
    if a.n_iters != b.n_iters:
        raise Discard()
    ctx.label(kind)
    for k, (x, y) in enumerate(zip(a.shapes, b.shapes)):
        ctx.close(y.points, x.points, 'shape %d depends on where the feature '
                  'puts the picture' % k, rtol=0, atol=1e-3)


@facet(P, 'resolution', st.fixed_dictionaries({
    'seed': gen.seeds, 'kind': st.sampled_from(
        ['aam_holistic', 'aam_patch', 'aam_masked', 'lk', 'atm_holistic']),
    'zoom': st.sampled_from([1.5, 2., 2.5, 3.]), 'pick': st.integers(0, 4)}),
    quick=40, thorough=400, rule='always')
def resolution(ctx, s):
    """The same picture at a higher resolution, with the start magnified alike,
    gives (up to resampling) the same fit magnified."""
    kind = s['kind']
    ims = gen.image_set(s['seed'], 5, 6, size=(58, 60), fill=.22)
    fit, _ = build(kind, ims, [.5, 1.] if kind != 'lk' else [1.], no_op,
                   diagonal=30, alg=0 if kind == 'lk' else 9)
    ds = []
    for j in range(4):
        # (several starts: near the edge of a basin of attraction the tiny
        # differences of resampling may decide where a single fit ends)
        im = ims[(s['pick'] + j) % 5]
        gt = im.landmarks['PTS']
        start = gen.perturb(gt, s['seed'] + j, 0., 1.2)
        tmp = im.copy()
        tmp.landmarks['st'] = start
        big = tmp.rescale(s['zoom'], order=3)
        gtb = big.landmarks['PTS'].points
        to_small = affine_between(gtb, gt.points)
        a = attempt(fit.fit_from_shape, im.copy(), start, max_iters=12)
        ea = np.abs(a.final_shape.points - gt.points).mean()
        if not ea < 1.:     # not a converged fit
            continue
        b = attempt(fit.fit_from_shape, Image(big.pixels),
                    big.landmarks['st'], max_iters=12)
        ctx.close(to_small(b.initial_shape.points), start.points, 'start',
                  rtol=0, atol=1e-5)
        ds.append(np.abs(to_small(b.final_shape.points) -
                         a.final_shape.points).mean())
    if len(ds) < 2:
        raise Discard()
    ctx.label(kind)
    d = np.sort(ds)[min(1, (len(ds) - 1) // 2)]
    ctx.check(d < (1. if kind == 'aam_patch' else .5),
              'mean distances %s px between the two fits' % ds)


def procrustes(src, dst):
    """Similarity aligning src with dst: sizes and centres are matched, the
    rotation is the least squares one."""
    cs, cd = src.mean(0), dst.mean(0)
    a, b = src - cs, dst - cd
    k = np.linalg.norm(b) / np.linalg.norm(a)
    th = np.arctan2(np.sum(a[:, 0] * b[:, 1] - a[:, 1] * b[:, 0]),
                    np.sum(a * b))
    M = k * gen.rot(th)
    return lambda x: (x - cs).dot(M.T) + cd


def bbox(pts):
    lo, hi = pts.min(0), pts.max(0)
    return np.array([[lo[0], lo[1]], [hi[0], lo[1]], [hi[0], hi[1]],
                     [lo[0], hi[1]]])


@facet(P, 'bounding_box', st.fixed_dictionaries({
    'seed': gen.seeds, 'kind': st.sampled_from(
        ['aam_holistic', 'aam_linear', 'atm_patch', 'clm', 'aps', 'uni', 'lk',
         'sdm', 'psdm', 'sdaam']),
    'th': st.one_of(st.just(0.), st.floats(-.6, .6)),
    'h': st.floats(14, 26), 'w': st.floats(14, 26),
    'cy': st.floats(20, 36), 'cx': st.floats(20, 36),
    'iters': st.integers(0, 2)}), quick=60, thorough=800)
def bounding_box(ctx, s):
    """Fitting from a bounding box starts from the reference shape moved by the
    similarity that aligns its own bounding box with the given one, and
    is then the same as fitting from that shape."""
    kind = s['kind']
    ims = gen.image_set(s['seed'], 5, 6, size=(58, 60), fill=.2)
    fit, _ = build(kind, ims, [.5, 1.], no_op, diagonal=28, alg=0)
    box = bbox(np.array([[-s['h'], -s['w']], [s['h'], s['w']]]) / 2.)
    box = box.dot(gen.rot(s['th']).T) + [s['cy'], s['cx']]
    from menpo.shape import PointDirectedGraph, bounding_box as mbb
    bb = mbb(*[bbox(box)[0], bbox(box)[2]])
    bb = bb.from_vector(box.ravel())
    ref = fit.reference_shape.points
    # menpo's bounding boxes run (min, max/min, max, min/max)
    rb = fit.reference_shape.bounding_box().points
    exp = procrustes(rb, bb.points)(ref)
    ctx.close(np.sort(rb, axis=0), np.sort(bbox(ref), axis=0), 'bounding box')
    got = align_shape_with_bounding_box(fit.reference_shape, bb)
    ctx.close(got.points, exp, 'aligned shape', rtol=1e-9)
    kw = {}
    if kind not in ('sdm', 'psdm', 'sdaam'):
        kw['max_iters'] = s['iters']
    im = ims[0]
    gt = im.landmarks['PTS']
    try:
        b = attempt(fit.fit_from_shape, im.copy(), PointCloud(exp), gt_shape=gt, **kw)
    except Exception:
        raise Discard()     # a start the model cannot be warped with
    a = fit.fit_from_bb(im.copy(), bb, gt_shape=gt, **kw)
    ctx.label(kind)
    ctx.close(a.initial_shape.points, exp, 'start', rtol=0, atol=1e-6)
    ctx.equal(a.n_iters, b.n_iters, 'number of iterations')
    if not far_from_border(b.shapes, im.shape, 2):
        raise Discard()
    for x, y in zip(a.shapes, b.shapes):
        ctx.close(x.points, y.points, 'shapes', rtol=0, atol=1e-4)
    ctx.close(a.gt_shape.points, gt.points, 'ground truth')
