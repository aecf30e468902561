"""P15: perturbations of shapes and bounding boxes."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats

from menpo.shape import PointCloud
from menpo.transform import (AlignmentSimilarity, AlignmentAffine,
                             AlignmentTranslation)
from menpofit.fitter import (noisy_alignment_similarity_transform,
                             noisy_target_alignment_transform,
                             noisy_shape_from_bounding_box,
                             noisy_shape_from_shape,
                             align_shape_with_bounding_box,
                             generate_perturbations_from_gt)
from ..core import facet
from .. import gen

P = 'P15'
# distributions are rejected when their Kolmogorov-Smirnov statistic is less
# likely than this; seeds are fixed, so a run is deterministic
ALPHA = 1e-9


def cloud(seed, n, centre, size, turn, salt):
    rs = gen.rng(seed, salt)
    p = gen.base_points(n, rs).dot(gen.rot(turn).T) * size
    return p + np.array(centre)


clouds = {
    'seed': gen.seeds, 'n': st.integers(3, 9),
    'c1': st.tuples(st.integers(-50, 300), st.integers(-50, 300)),
    'c2': st.tuples(st.integers(-50, 300), st.integers(-50, 300)),
    's1': st.sampled_from([.5, 1., 20., 45.]),
    's2': st.sampled_from([.5, 1., 20., 45.]),
    'turn': st.sampled_from([0., .4, -1., 2.5]),
    'type': st.sampled_from(['uniform', 'gaussian']),
    'pct': st.one_of(
        st.sampled_from([.05, .1, .3]),
        st.lists(st.sampled_from([0., .05, .1, .3]), min_size=3, max_size=3)),
    'tuple': st.booleans(),
    'rotation': st.booleans(),
    'stretch': st.sampled_from([1., 1., 3., .3]),
}


def pair(s):
    a = cloud(s['seed'], s['n'], s['c1'], s['s1'], 0., 1)
    b = cloud(s['seed'], s['n'], s['c2'], s['s2'], s['turn'], 1)
    b = b + .05 * s['s2'] * gen.rng(s['seed'], 2).randn(*b.shape)
    # much wider than high, or the other way round
    b = (b - b.mean(axis=0)) * [1., s['stretch']] + b.mean(axis=0)
    return a, b


def bb(x):
    lo, hi = x.min(axis=0), x.max(axis=0)
    return np.array([lo, [hi[0], lo[1]], hi, [lo[0], hi[1]]])


def similarity(a, b, rotation):
    """Least squares similarity from a to b (2D, closed form)."""
    ca, cb = a.mean(axis=0), b.mean(axis=0)
    z, w = (a - ca).dot([1, 1j]), (b - cb).dot([1, 1j])
    m = np.vdot(z, w)
    scale = np.linalg.norm(w) / np.linalg.norm(z)
    th = np.angle(m) if rotation else 0.
    R = scale * gen.rot(th)
    return R, cb - R.dot(ca)


def pct_of(s):
    p = s['pct']
    return [p] * 3 if isinstance(p, float) else list(p)


def given(s):
    p = s['pct']
    return tuple(p) if s['tuple'] and not isinstance(p, float) else p


def noise_of(M, R0, t0, centre):
    """Scale, angle in degrees and displacement of the centre of the noise
    applied after the alignment."""
    N = M[:2, :2].dot(np.linalg.inv(R0))
    d = M[:2, 2] - N.dot(t0)
    s = np.sqrt(max(np.linalg.det(N), 0))
    th = np.degrees(np.arctan2(N[1, 0] - N[0, 1], N[0, 0] + N[1, 1]))
    return N, s, th, N.dot(centre) + d - centre


def is_similarity(ctx, N):
    ctx.close(N[0, 0], N[1, 1], 'linear part of the noise', atol=1e-9)
    ctx.close(N[0, 1], -N[1, 0], 'linear part of the noise', atol=1e-9)


@facet(P, 'alignments', st.fixed_dictionaries(dict(
    clouds, via=st.sampled_from(['transform', 'box', 'shape']))), quick=300)
def alignments(ctx, s):
    """The noisy transform is the optimal similarity, followed by rotation
    and scaling about the centre of the target and by translation, each within
    the requested percentage."""
    a, b = pair(s)
    pct = pct_of(s)
    x = a
    if s['via'] == 'box':
        # bounding boxes need not be parallel to the axes
        a, b = bb(x), bb(b)
        c = b.mean(axis=0)
        b = (b - c).dot(gen.rot(s['turn']).T) + c
        src, dst = PointCloud(x), PointCloud(b)
        fn = noisy_shape_from_bounding_box
    else:
        src, dst = PointCloud(a), PointCloud(b)
        fn = noisy_shape_from_shape
    ctx.label('%s, %s' % (s['type'], s['via']))
    ctx.nontrivial(any(pct))
    keep = src.points.copy(), dst.points.copy()
    p = given(s)
    before = list(pct)
    R0, t0 = similarity(a, b, s['rotation'])
    centre = b.mean(axis=0)
    size = b.max(axis=0) - b.min(axis=0)
    for k in range(6):
        np.random.seed(s['seed'] % 2 ** 31 + k)
        kw = dict(noise_type=s['type'], noise_percentage=p,
                  allow_alignment_rotation=s['rotation'])
        t = noisy_alignment_similarity_transform(
            PointCloud(a), PointCloud(b), **kw)
        if s['via'] != 'transform':
            np.random.seed(s['seed'] % 2 ** 31 + k)
            z = fn(src, dst, **kw)
            ctx.close(z.points, t.apply(src).points,
                      'shape against transform', rtol=1e-9)
        M = t.h_matrix
        ctx.close(M[2], [0, 0, 1], 'last row', atol=1e-12)
        N, sc, th, tr = noise_of(M, R0, t0, centre)
        is_similarity(ctx, N)
        if s['type'] == 'uniform':
            ctx.check(abs(sc - 1) <= .5 * pct[0] + 1e-8,
                      'scale %r of noise %r', sc, pct[0])
            ctx.check(abs(th) <= 180 * pct[1] + 1e-6,
                      'angle %r of noise %r', th, pct[1])
            ctx.check(np.all(np.abs(tr) <= pct[2] * size + 1e-7 *
                             (1 + np.abs(centre).max())),
                      'translation %r of noise %r and range %r', tr, pct[2],
                      size)
        # no noise along what has none
        if pct[0] == 0:
            ctx.close(sc, 1., 'scale without noise', atol=1e-9)
        if pct[1] == 0:
            ctx.close(th, 0., 'angle without noise', atol=1e-7)
        if pct[2] == 0:
            ctx.close(tr, np.zeros(2), 'translation without noise',
                      atol=1e-8 * (1 + np.abs(centre).max()))
    ctx.equal(list(p) if not isinstance(p, float) else [p] * 3, before,
              'given percentages')
    ctx.check(np.array_equal(src.points, keep[0]) and
              np.array_equal(dst.points, keep[1]), 'shapes changed')


def fits(ctx, x, cdf, what):
    r = stats.kstest(x, cdf)
    ctx.check(r.pvalue > ALPHA, '%s of %d draws does not follow its '
              'distribution: p-value %.3g, range %r', what, len(x), r.pvalue,
              (np.min(x), np.max(x)))


@facet(P, 'distributions', st.fixed_dictionaries(dict(
    clouds, factor=st.sampled_from([1., 1., 5.]))), quick=60)
def distributions(ctx, s):
    """Scale, angle and translation follow independent uniform or normal
    distributions of the requested extent."""
    a, b = pair(s)
    pct = [max(p, .05) * s['factor'] for p in pct_of(s)]
    # angles beyond 180 degrees are not told apart, nor are negative scales
    # from turns
    pct[0] = pct[0] if s['type'] == 'uniform' else min(pct[0], .7)
    pct[1] = min(pct[1], .95 if s['type'] == 'uniform' else .3)
    R0, t0 = similarity(a, b, s['rotation'])
    centre = b.mean(axis=0)
    size = b.max(axis=0) - b.min(axis=0)
    A, B = PointCloud(a), PointCloud(b)
    np.random.seed(s['seed'] % 2 ** 31)
    v = []
    for k in range(500):
        t = noisy_alignment_similarity_transform(
            A, B, noise_type=s['type'], noise_percentage=pct,
            allow_alignment_rotation=s['rotation'])
        _, sc, th, tr = noise_of(t.h_matrix, R0, t0, centre)
        v.append([sc - 1, th, tr[0], tr[1]])
    v = np.array(v)
    ctx.label(s['type'])
    if s['type'] == 'uniform':
        ext = np.array([.5 * pct[0], 180 * pct[1]] + list(pct[2] * size))
        cdf = stats.uniform(-1, 2).cdf
    else:
        ext = np.array([.5 * pct[0] / 3, 60 * pct[1]] +
                       list(pct[2] * size / 3))
        cdf = stats.norm().cdf
    for k, n in enumerate(('scale', 'angle', 'first translation',
                           'second translation')):
        fits(ctx, v[:, k] / ext[k], cdf, n)
    # independence: correlations of 500 draws stay far below this
    c = np.corrcoef(v.T) - np.eye(4)
    ctx.check(np.abs(c).max() < .3, 'correlated noise: %r', c.tolist())


@facet(P, 'misuse', st.fixed_dictionaries(dict(
    clouds, bad=st.sampled_from(['Uniform', '', 'normal']),
    parts=st.integers(1, 6), one=st.sampled_from([.1, .02, .7, 1.4]))),
    quick=60)
def misuse(ctx, s):
    """Noise types are compared by value and unknown ones are refused; lists
    of a single percentage apply to everything."""
    a, b = [PointCloud(q) for q in pair(s)]
    ctx.raises(ValueError, lambda: noisy_alignment_similarity_transform(
        a, b, noise_type=s['bad']), 'unknown noise type')
    # equal, but not identical
    name = ''.join(list(s['type']))
    np.random.seed(3)
    x = noisy_alignment_similarity_transform(a, b, noise_type=name,
                                             noise_percentage=s['one'])
    np.random.seed(3)
    y = noisy_alignment_similarity_transform(a, b, noise_type=s['type'],
                                             noise_percentage=[s['one']] * 3)
    ctx.close(x.h_matrix, y.h_matrix, 'noise types', rtol=1e-12)
    one = [s['one']]
    for _ in range(2):
        np.random.seed(3)
        z = noisy_alignment_similarity_transform(a, b, noise_type=s['type'],
                                                 noise_percentage=one)
        ctx.close(z.h_matrix, y.h_matrix, 'single percentage', rtol=1e-12)
    ctx.equal(one, [s['one']], 'given percentages')


@facet(P, 'noisy_targets', st.fixed_dictionaries(dict(
    clouds, std=st.sampled_from(['zero', 'scalar', 'list']),
    cls=st.sampled_from(['affine', 'similarity', 'translation']))), quick=120)
def noisy_targets(ctx, s):
    """White noise of the requested deviation, relative to the extent of the
    target, is added to each point before alignment."""
    a, b = pair(s)
    cls = {'affine': AlignmentAffine, 'similarity': AlignmentSimilarity,
           'translation': AlignmentTranslation}[s['cls']]
    n = len(b)
    size = b.max(axis=0) - b.min(axis=0)
    rs = gen.rng(s['seed'], 4)
    std = {'zero': 0., 'scalar': float(rs.uniform(.01, .2)),
           'list': [float(q) for q in rs.uniform(.01, .2, n)]}[s['std']]
    A, B = PointCloud(a.copy()), PointCloud(b.copy())
    ctx.label('%s %s' % (s['std'], s['cls']))
    ctx.nontrivial(s['std'] != 'zero')
    np.random.seed(s['seed'] % 2 ** 31)
    out = []
    opts = {'rotation': s['rotation']} if s['cls'] == 'similarity' else {}

    def record(source, target, **kw):
        ctx.close(source.points, a, 'source', rtol=1e-12)
        ctx.equal(kw, opts, 'options of the alignment')
        out.append((target.points - b) / size)
        return cls(source, target, **kw)

    for k in range(40):
        t = noisy_target_alignment_transform(
            A, B, alignment_transform_cls=record, noise_std=std, **opts)
        ctx.equal(len(out), k + 1, 'number of alignments')
        z = PointCloud(b + out[-1] * size)
        ctx.close(t.h_matrix, cls(PointCloud(a), z, **opts).h_matrix,
                  'not the optimal alignment', rtol=1e-7)
        t = noisy_target_alignment_transform(
            A, B, alignment_transform_cls=cls, noise_std=std, **opts)
        ctx.check(isinstance(t, cls), 'type of transform')
    if s['std'] == 'zero':
        ctx.close(np.array(out), np.zeros((40,) + b.shape), 'no noise',
                  atol=1e-10)
        return
    z = np.array(out) / np.reshape(std, (-1, 1))
    fits(ctx, z.ravel(), stats.norm().cdf, 'white noise')
    for k in range(n):
        fits(ctx, z[:, k].ravel(), stats.norm().cdf, 'noise of a point')
    ctx.check(np.array_equal(A.points, a) and np.array_equal(B.points, b),
              'shapes changed')


@facet(P, 'boxes', st.fixed_dictionaries(clouds), quick=100)
def boxes(ctx, s):
    """Aligning a shape with a bounding box moves its own bounding box there
    as closely as a similarity allows."""
    a, b = pair(s)
    got = align_shape_with_bounding_box(PointCloud(a), PointCloud(bb(b)))
    R, t = similarity(bb(a), bb(b), True)
    ctx.close(got.points, a.dot(R.T) + t, 'aligned shape', rtol=1e-9)
    got = align_shape_with_bounding_box(PointCloud(a), PointCloud(bb(b)),
                                        rotation=False)
    R, t = similarity(bb(a), bb(b), False)
    ctx.close(got.points, a.dot(R.T) + t, 'aligned shape', rtol=1e-9)
    got = align_shape_with_bounding_box(
        PointCloud(a), PointCloud(bb(b)),
        alignment_transform_cls=AlignmentAffine)
    ctx.close(bb(got.points), bb(b), 'affine alignment', rtol=1e-8)


@facet(P, 'generated', st.fixed_dictionaries(dict(
    seed=gen.seeds, n=st.integers(1, 4), k=st.sampled_from(
        [0, 1, 2, 3, 4, 2, 3, 70]),
    counts=st.lists(st.integers(1, 3), min_size=4, max_size=4),
    boxes=st.booleans(), far=st.booleans())), quick=150)
def generated(ctx, s):
    """Every box of every image is perturbed as often as requested, given
    boxes are kept, everything stays inside the image."""
    ims = gen.image_set(s['seed'], n_images=s['n'], n_pts=5)
    rs = gen.rng(s['seed'], 6)
    own = []
    for im, c in zip(ims, s['counts']):
        g = bb(im.landmarks['PTS'].points)
        mine = []
        for j in range(c if s['boxes'] else 0):
            b = g + rs.uniform(-4, 4, 2) + \
                (rs.uniform(-40, 40, 2) if s['far'] else 0)
            # not an axis aligned box: its bounding box counts
            q = np.concatenate((b, b[:1] + [2., -1.]))
            im.landmarks['box_%d' % j] = PointCloud(q)
            mine.append(bb(q))
        im.landmarks['unrelated'] = PointCloud(g * .5)
        own.append(mine or [g])
    calls = []

    def perturb(gt, box):
        z = box.points + rs.uniform(-30 if s['far'] else -3, 8, 2)
        z = np.concatenate((z, z[:1] * .9))
        calls.append((gt.points.copy(), box.points.copy(), z))
        return PointCloud(z)

    ctx.label('boxes' if s['boxes'] else 'ground truth')
    ctx.nontrivial(s['k'] > 0)
    groups = [sorted(im.landmarks) for im in ims]
    f = generate_perturbations_from_gt(
        ims, s['k'], perturb, gt_group='PTS',
        bb_group_glob='box_*' if s['boxes'] else None)
    left = list(calls)
    for im, mine, gr in zip(ims, own, groups):
        g = bb(im.landmarks['PTS'].points)
        got = [q.points for q in f(im)]
        exp = []
        for b in mine:
            for _ in range(s['k']):
                hit = [i for i, (x, y, _) in enumerate(left)
                       if np.allclose(x, g) and np.allclose(y, b)]
                ctx.check(hit, 'a perturbation is missing')
                exp.append(bb(left.pop(hit[0])[2]))
            if s['boxes']:
                exp.append(b)
        hi = np.array(im.shape) - 1.
        exp = [np.clip(e, 0, hi) for e in exp]
        ctx.equal(len(got), len(exp), 'number of boxes')
        o = lambda l: np.array(sorted([np.round(q, 6).tolist() for q in l]))
        ctx.close(o(got), o(exp), 'boxes', atol=1e-5)
        ctx.check(set(gr) <= set(im.landmarks), 'landmarks lost')
    ctx.equal(len(left), 0, 'perturbations nobody asked for')
    if s['boxes']:
        ctx.raises(ValueError, lambda: generate_perturbations_from_gt(
            ims, s['k'], perturb, gt_group='PTS', bb_group_glob='nothing*'),
            'glob without boxes')
