"""P05: reference shapes, normalisation, reference frames, warps, patches."""
import numpy as np
from hypothesis import strategies as st
from scipy.spatial import Delaunay

from menpo.feature import no_op
from menpo.image import Image
from menpo.shape import PointCloud, TriMesh
from menpo.transform import Scale
from menpofit import builder as B
from menpofit.transform import (DifferentiablePiecewiseAffine,
                                DifferentiableThinPlateSplines)
from ..core import facet, Discard
from .. import gen, fams

P = 'P05'


def mean_ref(shapes, diagonal):
    m = np.mean([s.points for s in shapes], axis=0)
    if diagonal:
        r = m.max(0) - m.min(0)
        m = m * (diagonal / np.sqrt((r ** 2).sum()))
    return m


@facet(P, 'reference_shape', st.fixed_dictionaries({
    'seed': gen.seeds, 'n': st.integers(1, 7), 'n_pts': st.integers(3, 12),
    'diag': st.one_of(st.none(), st.integers(20, 300), st.floats(20, 300)),
    'tri': st.booleans(), 'verbose': st.booleans()}), quick=150)
def reference_shape(ctx, s):
    """Mean of the shapes scaled to the requested bounding box diagonal."""
    shapes = gen.shape_set(s['seed'], s['n'], s['n_pts'])
    if s['tri']:
        shapes = [TriMesh(shapes[0].points)] + shapes[1:]
    before = [x.points.copy() for x in shapes]
    r = B.compute_reference_shape(shapes, s['diag'], verbose=s['verbose'])
    ctx.close(r.points, mean_ref(shapes, s['diag']), 'reference shape',
              rtol=1e-10)
    if s['diag']:
        ctx.close(np.linalg.norm(r.range()), s['diag'], 'diagonal', rtol=1e-9)
    for x, b in zip(shapes, before):
        ctx.check(np.array_equal(x.points, b), 'training shapes were modified')
    ctx.nontrivial(s['n'] > 1)


def norm(p):
    p = np.asarray(p)
    return np.linalg.norm(p - p.mean(0))


@facet(P, 'normalisation', st.fixed_dictionaries({
    'seed': gen.seeds, 'n': st.integers(1, 5), 'n_pts': st.integers(3, 9),
    'diag': st.one_of(st.none(), st.integers(20, 90)),
    'zoom': st.sampled_from([.2, .3]), 'own': st.booleans()}), quick=150)
def normalisation(ctx, s):
    """Images are rescaled (uniformly, landmarks included) so that their
    landmarks have the size of the reference shape; originals stay as is."""
    ims = gen.image_set(s['seed'], s['n'], s['n_pts'], fill=s['zoom'],
                        scale_amp=.4)
    snaps = [gen.snapshot_image(i) for i in ims]
    shapes = [i.landmarks['PTS'] for i in ims]
    exp = mean_ref(shapes, s['diag'])
    if s['own']:
        ref = PointCloud(exp * 1.1 + 5)
        out = B.rescale_images_to_reference_shape(ims, 'PTS', ref)
    else:
        ref, out = B.normalization_wrt_reference_shape(ims, 'PTS', s['diag'])
        ctx.close(ref.points, exp, 'reference shape', rtol=1e-10)
    ctx.equal(len(out), len(ims), 'number of images')
    for a, b in zip(ims, out):
        k = norm(ref.points) / norm(a.landmarks['PTS'].points)
        h = np.array(b.shape)
        e = np.array(a.shape) * k
        ctx.check(np.all(np.abs(h - e) <= 1.01),
                  'size %r, expected %r', tuple(h), tuple(e))
        pb, pa = b.landmarks['PTS'].points, a.landmarks['PTS'].points
        # end pixels map onto end pixels, so that the factor is off by at
        # most (k - 1) / (n - 1)
        slack = abs(k - 1) / (np.array(a.shape) - 1) * 1.05 + 1e-9
        ctx.check(np.all(np.abs(pb - pa * k) <= slack * np.abs(pa) + 1e-6),
                  'landmarks are not the scaled landmarks')
        ctx.check(abs(norm(pb) / norm(ref.points) - 1) <= slack.max() / k,
                  'landmark size %g, reference %g', norm(pb), norm(ref.points))
    for i, sn in zip(ims, snaps):
        ctx.check(gen.image_diff(i, sn) is None, 'input image changed')


@facet(P, 'scaling', st.fixed_dictionaries({
    'seed': gen.seeds, 'n': st.integers(1, 4),
    'scale': st.sampled_from([.25, .5, .7, .9, .95, .985, .998, 1., 1, 1.003,
                              1.02, 1.06, 1.5, 2.]),
    'tr': st.booleans(), 'c': st.integers(1, 3)}), quick=120)
def scaling(ctx, s):
    """scale_images: sizes, landmarks and the returned (inverse) transforms
    agree; order is kept."""
    ims = gen.image_set(s['seed'], s['n'], 5, n_channels=s['c'])
    ims = [i if k % 2 else i.crop((1, 2), (i.shape[0] - 2, i.shape[1] - 1))
           for k, i in enumerate(ims)]
    r = B.scale_images(ims, s['scale'], return_transforms=s['tr'])
    out, trs = r if s['tr'] else (r, None)
    ctx.equal(len(out), len(ims), 'number of images')
    for k, (a, b) in enumerate(zip(ims, out)):
        e = np.array(a.shape) * s['scale']
        ctx.check(np.all(np.abs(np.array(b.shape) - e) <= 1.01),
                  'image size %r for %r', b.shape, tuple(e))
        ctx.check(np.max(np.abs(b.landmarks['PTS'].points -
                                a.landmarks['PTS'].points * s['scale'])) < 1.7,
                  'landmarks scaled')
        ctx.equal(b.n_channels, a.n_channels, 'channels')
        d = a.rescale(s['scale'])
        ctx.equal(b.shape, d.shape, 'image size')
        ctx.close(b.pixels, d.pixels, 'pixels', atol=1e-9)
        ctx.close(b.landmarks['PTS'].points, d.landmarks['PTS'].points,
                  'landmarks', atol=1e-9)
        if trs is not None:
            ctx.close(trs[k].apply(b.landmarks['PTS'].points),
                      a.landmarks['PTS'].points,
                      'the returned transform does not undo the scaling',
                      rtol=1e-9)
    if trs is not None:
        ctx.equal(len(trs), len(ims), 'number of transforms')


@facet(P, 'features', st.fixed_dictionaries({
    'seed': gen.seeds, 'n': st.integers(0, 5), 'verbose': st.booleans()}),
       quick=30)
def features(ctx, s):
    """compute_features applies the feature to each image once, in order."""
    ims = gen.image_set(s['seed'], s['n'], 4)
    calls = []

    def f(im):
        calls.append(im)
        return (len(calls), im)
    out = B.compute_features(ims, f, verbose=s['verbose'])
    ctx.equal([o[0] for o in out], list(range(1, s['n'] + 1)), 'order')
    ctx.check(all(o[1] is i for o, i in zip(out, ims)), 'images')
    ctx.nontrivial(s['n'] > 1)


def inside(tri_pts, trilist, q):
    """Signed membership: >0 well inside (in pixels), <0 outside, of the union
    of triangles (distance to the union's complement is approximated by the
    best barycentric height)."""
    best = np.full(len(q), -np.inf)
    for t in trilist:
        a, b, c = tri_pts[t]
        m = np.array([b - a, c - a]).T
        if abs(np.linalg.det(m)) < 1e-9:
            continue
        uv = np.linalg.solve(m, (q - a).T).T
        bc = np.column_stack([1 - uv.sum(1), uv])
        best = np.maximum(best, bc.min(1))
    return best


@facet(P, 'reference_frames', st.fixed_dictionaries({
    'seed': gen.seeds, 'n_pts': st.integers(3, 10),
    'boundary': st.integers(0, 12), 'size': st.floats(15., 60.),
    'kind': st.sampled_from(['cloud', 'mesh', 'patch', 'patch']),
    'patch': st.tuples(st.integers(1, 12), st.integers(1, 12)),
    'group': st.sampled_from(['source', 'xx']),
    'off': st.tuples(st.floats(-200, 200), st.floats(-200, 200))}), quick=250)
def reference_frames(ctx, s):
    """The frame holds a translated copy of the landmarks with the requested
    margin; its mask is the area covered by the mesh (or by the patches)."""
    rs = gen.rng(s['seed'])
    p = gen.base_points(s['n_pts'], rs) * s['size'] / 2 + np.array(s['off'])
    tl = Delaunay(p).simplices
    shape = PointCloud(p)
    if s['kind'] == 'mesh':
        # drop one triangle: the mesh need not be convex
        if len(tl) > 2:
            used = [t for k, t in enumerate(tl) if k != s['seed'] % len(tl)]
            if len(np.unique(used)) == len(p):
                tl = np.array(used)
        shape = TriMesh(p, trilist=tl)
    bnd = s['boundary']
    if s['kind'] == 'patch':
        f = B.build_patch_reference_frame(shape, boundary=bnd,
                                          group=s['group'],
                                          patch_shape=s['patch'])
        margin = bnd + max(s['patch'])
    else:
        f = B.build_reference_frame(shape, boundary=bnd, group=s['group'])
        margin = bnd
    q = f.landmarks[s['group']].points
    ctx.close(q - q[0], p - p[0], 'landmarks are not a translated copy',
              rtol=1e-9)
    lo, hi = q.min(0), np.array(f.shape) - q.max(0)
    ctx.check(np.all(lo >= margin - 1e-9) and np.all(lo <= margin + 1.01),
              'margin before the landmarks %r, requested %d', tuple(lo), margin)
    ctx.check(np.all(hi >= margin - 1e-9) and np.all(hi <= margin + 2.01),
              'margin after the landmarks %r, requested %d', tuple(hi), margin)
    idx = np.stack(np.meshgrid(*[np.arange(k) for k in f.shape],
                               indexing='ij'), -1).reshape(-1, 2)
    m = f.mask.mask.ravel()
    ctx.label(s['kind'])
    if s['kind'] == 'patch':
        h = np.array(s['patch']) / 2.
        d = np.abs(idx[:, None, :] - q[None]) - h
        d = d.max(2).min(1)        # <0 within some patch
        ctx.check(m[d <= -1.01].all(), 'pixels inside a patch are masked out')
        ctx.check(not m[d >= 1.01].any(), 'pixels outside all patches are kept')
    else:
        b = inside(q, tl, idx.astype(float))
        ctx.check(m[b > 1e-6].all(), 'pixels inside the mesh are masked out')
        # Delaunay/flat boundary triangles may differ by slivers
        ctx.check(not m[b < -.02].any() if s['kind'] == 'mesh' else
                  not m[(b < -.02) & (Delaunay(q).find_simplex(idx) < 0)].any(),
                  'pixels outside the mesh are kept')


def bary_map(src, tl, dst, q):
    out = np.full((len(q), 2), np.nan)
    for t in tl:
        a, b, c = src[t]
        m = np.array([b - a, c - a]).T
        if abs(np.linalg.det(m)) < 1e-9:
            continue
        uv = np.linalg.solve(m, (q - a).T).T
        bc = np.column_stack([1 - uv.sum(1), uv])
        ok = bc.min(1) >= -1e-9
        out[ok] = bc[ok].dot(dst[t])
    return out


def frame_of(seed, n_pts, size):
    rs = gen.rng(seed, 5)
    p = gen.base_points(n_pts, rs) * size / 2
    tl = Delaunay(p).simplices
    return B.build_reference_frame(TriMesh(p, trilist=tl)), tl


@facet(P, 'warping', st.fixed_dictionaries({
    'seed': gen.seeds, 'n_pts': st.integers(4, 9), 'n': st.integers(1, 4),
    'c': st.integers(1, 3), 'size': st.floats(15, 40),
    'steps': st.lists(st.sampled_from([None, 0., 1e-4, .02, .2]), min_size=4,
                      max_size=4),
    'tps': st.booleans(), 'verbose': st.booleans()}), quick=250)
def warping(ctx, s):
    """A warped image shows, at each reference pixel, the image at the point
    the warp of *its own* shape maps that pixel to."""
    rs = gen.rng(s['seed'], 1)
    frame, tl = frame_of(s['seed'], s['n_pts'], s['size'])
    src = frame.landmarks['source'].points
    ims, shapes, coef = [], [], []
    yy, xx = np.mgrid[:60, :64].astype(float)
    for k in range(s['n']):
        cf = rs.randn(s['c'], 3)
        px = np.stack([a * yy + b * xx + c for a, b, c in cf])
        ims.append(Image(px))
        coef.append(cf)
        q = src - src.mean(0)
        q = q * (20. / np.abs(q).max()) + np.array([30., 32.])
        q = q + .8 * rs.randn(*q.shape)
        if k and s['steps'][k] is not None:
            # little or no movement since the last image
            q = shapes[-1].points + s['steps'][k] * rs.uniform(-1, 1, q.shape)
        shapes.append(PointCloud(q))
    T = DifferentiableThinPlateSplines if s['tps'] else \
        DifferentiablePiecewiseAffine
    out = B.warp_images(ims, shapes, frame, T, verbose=s['verbose'])
    ctx.equal(len(out), len(ims), 'number of images')
    ti = frame.mask.true_indices().astype(float)
    for k, o in enumerate(out):
        if s['tps']:
            m = T(frame.landmarks['source'], shapes[k]).apply(ti)
        else:
            m = bary_map(src, tl, shapes[k].points, ti)
        ctx.equal(tuple(o.shape), tuple(frame.shape), 'shape of the warp')
        ctx.check(np.array_equal(o.mask.mask, frame.mask.mask), 'mask')
        ctx.check(np.array_equal(o.landmarks['source'].points, src),
                  'landmarks of the warped image')
        exp = coef[k][:, :2].dot(m.T) + coef[k][:, 2:]
        ok = np.isfinite(m).all(1) & (m > .5).all(1) & \
            (m[:, 0] < 58.5) & (m[:, 1] < 62.5)
        ctx.check(ok.mean() > .5, 'oracle covers too little')
        got = o.as_vector().reshape(s['c'], -1)
        ctx.close(got[:, ok], exp[:, ok], 'warped pixels of image %d' % k,
                  atol=1e-6, rtol=1e-7)
    ctx.nontrivial(s['n'] > 1)


@facet(P, 'patches', st.fixed_dictionaries({
    'seed': gen.seeds, 'n': st.integers(1, 4), 'n_pts': st.integers(1, 7),
    'c': st.integers(1, 3), 'half': st.tuples(st.integers(0, 6),
                                              st.integers(0, 6)),
    'frac': st.booleans(), 'even': st.booleans(),
    'norm': st.booleans()}), quick=200)
def patches(ctx, s):
    """One patch per landmark in order, cut around the (rounded) landmark,
    zero outside of the image, then normalised per image."""
    rs = gen.rng(s['seed'], 2)
    size = (24, 27)
    ps = np.array(s['half']) * 2 + (0 if s['even'] else 1)
    ps = np.maximum(ps, 1)
    ims = [Image(rs.rand(s['c'], *size) + .5) for _ in range(s['n'])]
    sh = [rs.randint(-2, 29, (s['n_pts'], 2)).astype(float)
          for _ in range(s['n'])]
    if s['frac']:
        sh = [p + rs.uniform(-.45, .45, p.shape) for p in sh]
    seen = []

    def nf(x):
        seen.append(x.copy())
        return x * 2. - 1.
    out = B.extract_patches(ims, [PointCloud(p) for p in sh], tuple(ps),
                            normalise_function=nf if s['norm'] else no_op)
    ctx.equal(len(out), s['n'], 'number of images')
    for k, o in enumerate(out):
        px = np.asarray(o.pixels)
        ctx.equal(tuple(px.shape), (s['n_pts'], 1, s['c']) + tuple(ps),
                  'layout of the patches')
        if s['norm']:
            ctx.equal(tuple(seen[k].shape), tuple(px.shape), 'normaliser input')
            px = (px + 1) / 2
        pad = np.zeros((s['c'], size[0] + 60, size[1] + 60))
        pad[:, 30:-30, 30:-30] = ims[k].pixels
        for j in range(s['n_pts']):
            if np.any(ps % 2 == 0) and s['frac']:
                # rounding of half way points is up to the extractor: the
                # patch must be cut at one of the neighbouring positions
                base = np.floor(sh[k][j]).astype(int) - ps // 2 + 30
                cands = [base + np.array(d) for d in
                         ((0, 0), (0, 1), (1, 0), (1, 1))]
            else:
                cands = [np.floor(sh[k][j] + .5).astype(int) - ps // 2 + 30]
            ok = [np.allclose(px[j, 0], pad[:, c[0]:c[0] + ps[0],
                                            c[1]:c[1] + ps[1]], atol=1e-12)
                  for c in cands]
            ctx.check(any(ok), 'patch %d of image %d is not the image around '
                      'its landmark', j, k)


@facet(P, 'densify', st.fixed_dictionaries({
    'seed': gen.seeds, 'n_pts': st.integers(4, 9), 'n': st.integers(1, 4),
    'near': st.booleans(), 'size': st.floats(10, 25)}), quick=80)
def densify(ctx, s):
    """Dense shapes are the sparse points followed by the warped frame
    pixels."""
    rs = gen.rng(s['seed'], 4)
    frame, tl = frame_of(s['seed'], s['n_pts'], s['size'])
    src = frame.landmarks['source'].points
    shapes = [PointCloud(src * 1.3 + rs.randn(*src.shape))
              for _ in range(s['n'])]
    if s['near']:
        shapes = [PointCloud(shapes[0].points + .01 * k * rs.uniform(
            -1, 1, src.shape)) for k in range(s['n'])]
    ti = frame.mask.true_indices().astype(float)
    out = B.densify_shapes(shapes, frame, DifferentiablePiecewiseAffine)
    ctx.equal(len(out), s['n'], 'number')
    for d, sh in zip(out, shapes):
        ctx.equal(d.n_points, len(src) + len(ti), 'number of points')
        ctx.close(d.points[:len(src)], sh.points, 'sparse points', rtol=1e-12)
        m = bary_map(src, tl, sh.points, ti)
        ok = np.isfinite(m).all(1)
        ctx.close(d.points[len(src):][ok], m[ok], 'dense points', rtol=1e-8)


@facet(P, 'alignment', st.fixed_dictionaries({
    'seed': gen.seeds, 'n_pts': st.integers(3, 10), 'n': st.integers(2, 7),
    'amp': st.sampled_from([0., .02, .1]), 'scale': st.floats(1, 80)}),
       quick=150)
def alignment(ctx, s):
    """Procrustes alignment: every aligned shape is a similarity of its
    source, centred on the origin and best aligned to the common mean; moving
    an input by a similarity does not matter; the shapes keep their order."""
    shapes = gen.shape_set(s['seed'], s['n'], s['n_pts'], amp=s['amp'],
                           scale=s['scale'], rot_amp=.6)
    before = [x.points.copy() for x in shapes]
    out = B.align_shapes(shapes)
    ctx.equal(len(out), len(shapes), 'number of shapes')
    pts = [o.points for o in out]
    for x, b in zip(shapes, before):
        ctx.check(np.array_equal(x.points, b), 'input shape modified')
    sc = max(np.abs(p).max() for p in pts)
    z = [p[:, 0] + 1j * p[:, 1] for p in pts]
    zs = [(b - b.mean(0)) for b in before]
    zs = [b[:, 0] + 1j * b[:, 1] for b in zs]
    for a, b in zip(z, zs):
        ctx.check(abs(a.mean()) < 1e-6 * sc, 'not centred')
        k = np.vdot(b, a) / np.vdot(b, b)
        ctx.check(np.abs(a - k * b).max() < 1e-6 * sc,
                  'aligned shape is no similarity of its source')
    mean = np.mean(z, axis=0)
    for a in z:
        # optimal rotation: the inner product with the mean is real positive
        c = np.vdot(mean, a)
        ctx.check(abs(c.imag) < 2e-3 * abs(c) and c.real > 0,
                  'shape is not rotated optimally onto the mean')
        ctx.check(abs(np.linalg.norm(a) / np.linalg.norm(mean) - 1) <
                  .02 + 3 * s['amp'], 'sizes differ after alignment')
    # optimal scale: the same multiple of the mean is the best match of all
    # (the iterations towards the mean stop early, two shapes need none)
    r = [np.vdot(mean, a).real / np.vdot(a, a).real for a in z]
    ctx.check(np.ptp(r) < np.mean(r) * (
        1e-6 if s['n'] == 2 else .003 + 3 * s['amp'] ** 2),
        'shapes are not scaled optimally onto the mean: %r', r)
    if s['amp'] == 0:
        ctx.check(max(np.abs(a - z[0]).max() for a in z) < 1e-6 * sc,
                  'copies of one shape are not aligned to the same shape')


@facet(P, 'model_frames', st.fixed_dictionaries({
    'seed': gen.seeds, 'kind': st.sampled_from(fams.MODEL_KINDS),
    'scales': st.sampled_from([[1.], [.5, 1.], [.6, .8], [2.]]),
    'diag': st.one_of(st.none(), st.integers(24, 50)),
    'own': st.booleans(), 'boundary': st.integers(1, 8),
    'patch': st.sampled_from([(7, 7), (5, 9)])}), quick=200)
def model_frames(ctx, s):
    """Every model family: its reference shape is the given one, or the mean
    of its training landmarks at the requested diagonal, and its templates /
    appearance live on the reference shape at their scale."""
    kind = s['kind']
    ims = gen.image_set(s['seed'], 4, 5, size=(44, 46))
    shapes = [i.landmarks['PTS'] for i in ims]
    kw, extra = {}, {}
    ref = None
    if s['own']:
        ref = mean_ref(shapes, 36.) * 1.05 + gen.rng(s['seed']).randn(5, 2)
        kw['reference_shape'] = PointCloud(ref.copy())
    if kind == 'uni':
        extra = {'boundary': s['boundary'],
                 'max_shape_components': 2}
    lim = {}
    if fams.has_appearance(kind):
        lim['max_appearance_components'] = 2
    if kind == 'aps':
        lim['max_appearance_components'] = 4
    m = fams.make(kind, ims, scales=s['scales'], diagonal=s['diag'],
                  patch_shape=s['patch'], extra=extra, **lim, **kw)
    exp = ref if s['own'] else mean_ref(shapes, s['diag'])
    ctx.label(kind)
    ctx.close(m.reference_shape.points, exp, 'reference shape of the model',
              rtol=1e-9)
    f = fams.fitter(kind, m)
    ctx.close(f.reference_shape.points, exp, 'reference shape of the fitter',
              rtol=1e-9)
    for k, sc in enumerate(s['scales']):
        # shape models live at the scale of the reference shape
        mean = m.shape_models[k].model.mean().points[:5]
        if kind != 'aps' and not kind.startswith('atm'):
            ctx.check(abs(norm(mean) / norm(exp * sc) - 1) < .15,
                      'shape model of scale %g has size %g, reference %g', sc,
                      norm(mean), norm(exp * sc))
        if kind in ('aam_holistic', 'aam_masked', 'uni'):
            t = m.appearance_models[k].mean()
        elif kind in ('atm_holistic', 'atm_masked'):
            t = m.warped_templates[k]
        else:
            continue
        q = t.landmarks['source'].points
        ctx.close(q - q[0], (exp - exp[0]) * sc,
                  'frame landmarks of scale %g' % sc, rtol=1e-9)
        if kind.endswith('masked'):
            bnd = 3 + max(s['patch'])
        else:
            bnd = s['boundary'] if kind == 'uni' else 3
        lo = q.min(0)
        ctx.check(np.all(np.abs(lo - bnd) <= 1.01),
                  'boundary %r around the frame, expected %d', tuple(lo), bnd)
