"""P25: warped images and sampling helpers."""
import numpy as np
from hypothesis import strategies as st

from menpo.image import Image
from menpo.shape import PointCloud, TriMesh
from menpofit import aam
from menpofit.transform import DifferentiableThinPlateSplines

from .. import gen, fams
from ..core import facet, RULES, Discard
from .p05 import bary_map

P = 'P25'
RULES[P] = ('Models, images and shapes are built from drawn specs; warps are '
            'judged on images that are affine functions of position.')

KINDS = ['aam_' + k for k in sorted(fams.AAMS)] + \
    ['atm_' + k for k in sorted(fams.ATMS)] + \
    ['aps', 'uni', 'lk', 'sd_holistic', 'sd_masked', 'sd_patch', 'sd_linear']


def halved(p):
    return p * .5 + .25


def affine_image(rs, c, size=(64, 68)):
    yy, xx = np.mgrid[:size[0], :size[1]].astype(float)
    cf = rs.randn(c, 3)
    return Image(np.stack([a * yy + b * xx + d for a, b, d in cf])), cf


def build(s):
    """-> model or None, fitter, images"""
    kind, n = s['kind'], len(s['scales'])
    ims = gen.image_set(s['seed'], 6, 5, size=(50, 52), n_channels=s['c'],
                        noise=.03)
    if kind == 'lk':
        f = fams.lk_fitter(ims[0], alg=fams.LK_ALGS[s['alg'] % 3],
                           res=fams.LK_RES[s['alg'] % 5],
                           scales=list(s['scales']), diagonal=s['diagonal'])
        return None, f, ims
    mk = 'aam_' + kind[3:] if kind.startswith('sd_') else kind
    kw = {}
    if mk.endswith('patch'):
        kw['patch_normalisation'] = halved
    m = fams.make(mk, ims, scales=list(s['scales']), diagonal=s['diagonal'],
                  max_shape_components=3, max_appearance_components=3,
                  patch_shape=tuple(s['ps']), **kw)
    if kind.startswith('sd_'):
        algs = [aam.MeanTemplateNewton, aam.ProjectOutNewton,
                aam.AppearanceWeightsNewton]
        f = aam.SupervisedDescentAAMFitter(
            ims, m, group='PTS', n_perturbations=2, n_iterations=2,
            sd_algorithm_cls=algs[s['alg'] % 3])
    else:
        al = fams.algs(mk)
        f = fams.fitter(mk, m, al[s['alg'] % len(al)])
    return m, f, ims


def shapes_of(s, m, f, rs):
    """Shapes the fitter's motion can represent, placed inside the image, and
    (for linear models) their dense pixels."""
    out = []
    for _ in range(s['n']):
        L = gen.rot(rs.uniform(-.4, .4))
        if m is None:
            base = f.sources[-1].points
            L = L.dot(np.eye(2) + .08 * rs.randn(2, 2))
        else:
            sm = m.shape_models[-1].model
            k = min(sm.n_active_components, 3)
            w = rs.uniform(-1, 1, k) * np.sqrt(sm.eigenvalues[:k])
            if 'linear' in s['kind']:
                # linear models densify shapes within the linear span of
                # similarities and deformations
                if rs.rand() < .5:
                    w = 0. * w
                else:
                    L = np.eye(2)
            base = (sm.mean().as_vector()
                    + w.dot(np.array(sm.components)[:k])).reshape(-1, 2)
        q = base - base.mean(0)
        q = q.dot(L.T)
        q = q * (rs.uniform(.6, 1.1) * 20. / np.abs(q).max())
        out.append(q + np.array([32., 34.]) + rs.uniform(-2, 2, 2))
    return out


@facet(P, 'warped_images', st.fixed_dictionaries(dict(
    seed=gen.seeds, kind=st.sampled_from(KINDS), alg=st.integers(0, 29),
    c=st.integers(1, 2), scales=st.sampled_from([[1.], [.6, 1.], [.5, .9]]),
    diagonal=st.sampled_from([28, 36]), n=st.integers(1, 4),
    ps=st.lists(st.integers(4, 9), min_size=2, max_size=2),
    fits=st.booleans())), quick=260, thorough=2600,
    rule='more than one shape')
def warped_images(ctx, s):
    """Warped images show, for each shape in turn, the given image at the
    points the warp from the reference of the last scale onto that shape
    reaches; nothing else changes."""
    m, f, ims = build(s)
    rs = gen.rng(s['seed'], 41)
    im, cf = affine_image(rs, s['c'])
    kind = s['kind']
    patch = kind.endswith('patch') or kind == 'aps'
    linear = 'linear' in kind
    full = shapes_of(s, m, f, rs)
    n_sparse = ims[0].landmarks['PTS'].n_points
    if linear:
        handed = [PointCloud(q[:n_sparse].copy()) for q in full]
    else:
        handed = [PointCloud(q.copy()) for q in full]
    start = ims[1].landmarks['PTS']
    before = None
    if s['fits']:
        try:
            before = f.fit_from_shape(ims[1], start).final_shape.points.copy()
        except np.linalg.LinAlgError:
            raise Discard()
    snap = gen.snapshot_image(im)
    keep = [h.points.copy() for h in handed]
    out = f.warped_images(im, handed)
    ctx.equal(len(out), len(handed), 'number of warped images')
    ctx.check(gen.image_diff(im, snap) is None, 'the image was changed')
    for h, k in zip(handed, keep):
        ctx.check(np.array_equal(h.points, k), 'a shape was changed')
    if s['fits']:
        again = f.fit_from_shape(ims[1], start).final_shape.points
        ctx.close(again, before, 'fit after warping images', rtol=1e-9)
    ctx.label(kind)
    ctx.nontrivial(s['n'] > 1)
    if patch:
        norm = halved if kind.endswith('patch') else (lambda x: x)
        ps = np.array(s['ps'])
        for k, (o, q) in enumerate(zip(out, full)):
            o = np.asarray(o)
            ctx.equal(tuple(o.shape), (n_sparse, 1, s['c']) + tuple(ps),
                      'layout of the patches')
            for j in range(n_sparse):
                # rounding of the centre is left to the extractor (P05)
                ok = False
                base = np.floor(q[j]).astype(int) - ps // 2
                for d in ((0, 0), (0, 1), (1, 0), (1, 1)):
                    a = base + np.array(d)
                    e = norm(im.pixels[:, a[0]:a[0] + ps[0],
                                       a[1]:a[1] + ps[1]])
                    ok = ok or (e.shape == o[j, 0].shape and
                                np.allclose(e, o[j, 0], atol=1e-9))
                ctx.check(ok, 'patch %d of shape %d is not the image around '
                          'the point', j, k)
        return
    if m is None:
        ref = f.templates[-1]
        src = f.sources[-1].points
    elif kind.startswith('atm'):
        ref = m.warped_templates[-1]
    else:
        ref = m.appearance_models[-1].mean()
    mask = ref.mask
    ti = mask.true_indices().astype(float)
    for k, (o, q) in enumerate(zip(out, full)):
        ctx.equal(tuple(o.shape), tuple(ref.shape), 'shape of the warp')
        ctx.check(np.array_equal(o.mask.mask, mask.mask),
                  'mask of the warped image')
        if m is None:
            A = np.hstack([src, np.ones((len(src), 1))])
            M = np.linalg.lstsq(A, q, rcond=None)[0]
            pts = np.hstack([ti, np.ones((len(ti), 1))]).dot(M)
        elif linear:
            pts = q[n_sparse:]
        elif kind.endswith('masked'):
            T = DifferentiableThinPlateSplines(ref.landmarks['source'],
                                               PointCloud(q))
            pts = T.apply(ti)
        else:
            lm = ref.landmarks['source']
            tl = lm.trilist if hasattr(lm, 'trilist') else \
                TriMesh(lm.points).trilist
            pts = bary_map(lm.points, tl, q, ti)
        exp = cf[:, :2].dot(pts.T) + cf[:, 2:]
        ok = np.isfinite(pts).all(1) & (pts > .5).all(1) & \
            (pts[:, 0] < im.shape[0] - 1.5) & (pts[:, 1] < im.shape[1] - 1.5)
        ctx.check(ok.mean() > .3 or m is None, 'oracle covers too little')
        got = o.as_vector().reshape(s['c'], -1)
        ctx.close(got[:, ok], exp[:, ok], 'image warped to shape %d' % k,
                  atol=1e-5, rtol=1e-6)


@facet(P, 'sampling', st.fixed_dictionaries(dict(
    seed=gen.seeds, kind=st.sampled_from(['holistic', 'masked', 'linear',
                                          'linear_masked']),
    scales=st.sampled_from([[1.], [1.], [.6, 1.]]), c=st.integers(1, 2),
    diagonal=st.sampled_from([30, 45]), how=st.sampled_from(['scale', 'step']),
    scale=st.floats(.3, 1.).map(lambda x: round(x, 2)),
    step=st.sampled_from([1, 2, 3, 5, 8, 16, 1000]),
    default=st.sampled_from([False, False, True]), alg=st.integers(0, 9))),
    quick=260, thorough=2600)
def sampling(ctx, s):
    """Sampling helpers mark every step-th pixel, or the pixels nearest to
    those of the rescaled reference; positions and mask agree, and fitting
    with them is fitting on these pixels."""
    ims = gen.image_set(s['seed'], 5, 5, size=(50, 52), n_channels=s['c'],
                        noise=.02)
    m = fams.make('aam_' + s['kind'], ims, scales=list(s['scales']),
                  diagonal=s['diagonal'], max_shape_components=2,
                  max_appearance_components=2)
    am = m.appearance_models[0]
    ref = am.mean()
    mask0 = ref.mask.mask.copy()
    lm0 = ref.landmarks['source'].points.copy()
    vec0 = ref.as_vector().copy()
    true = np.argwhere(mask0)
    if s['how'] == 'step':
        step = 8 if s['default'] else s['step']
        pos, bi = aam.holistic_sampling_from_step(m) if s['default'] else \
            aam.holistic_sampling_from_step(m, step=step)
        exp = np.zeros(mask0.shape, bool)
        for y, x in true[::step]:
            exp[y, x] = True
        ctx.check(np.array_equal(bi.mask, exp), 'mask of every %d-th pixel',
                  step)
    else:
        scale = .35 if s['default'] else s['scale']
        pos, bi = aam.holistic_sampling_from_scale(m) if s['default'] else \
            aam.holistic_sampling_from_scale(m, scale=scale)
        small = ref.rescale(scale)
        a, b = small.landmarks['source'].points, lm0
        z = np.linalg.norm(b - b.mean(0)) / np.linalg.norm(a - a.mean(0))
        at = np.argwhere(small.mask.mask) * z
        near = np.abs(at - np.floor(at) - .5).min(1) < 1e-6
        exp = np.zeros(mask0.shape, bool)
        may = np.zeros(mask0.shape, bool)
        for (y, x), t in zip(at, near):
            if t:
                may[int(y):int(y) + 2, int(x):int(x) + 2] = True
            else:
                exp[int(round(y)), int(round(x))] = True
        bad = (bi.mask != exp) & ~may
        ctx.check(not bad.any(), 'mask of the rescaled reference')
        if scale == 1.:
            ctx.check(np.array_equal(bi.mask, mask0), 'scale one is not the '
                      'mask of the reference')
    idx = np.flatnonzero(bi.mask[mask0])
    p = np.asarray(pos)
    got = np.flatnonzero(p) if p.dtype == bool else p
    if p.dtype == bool:
        ctx.equal(p.shape, (len(true),), 'number of positions')
    ctx.check(np.array_equal(np.sort(got), idx), 'positions and mask disagree')
    again = m.appearance_models[0].mean()
    ctx.check(np.array_equal(again.mask.mask, mask0) and
              np.array_equal(again.as_vector(), vec0) and
              np.array_equal(again.landmarks['source'].points, lm0),
              'the model was changed')
    ctx.label(s['how'])
    if len(s['scales']) > 1 or len(idx) < 25:
        ctx.nontrivial(len(idx) > 1)
        return
    alg = fams.AAM_ALGS[s['alg']]
    start = gen.perturb(ims[0].landmarks['PTS'], s['seed'], .4, 1.)
    flags = np.zeros(len(true), bool)
    flags[idx] = True
    try:
        r = [fams.fitter('aam_' + s['kind'], m, alg, sampling=v)
             .fit_from_shape(ims[0], start, max_iters=2)
             for v in (p, flags)]
    except np.linalg.LinAlgError:
        raise Discard()
    ctx.close(r[0].final_shape.points, r[1].final_shape.points,
              'fit on the sampled pixels', rtol=1e-8)
