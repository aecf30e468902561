"""P14: training and running of supervised descent cascades."""
import numpy as np
from functools import partial
from hypothesis import strategies as st

from menpo.feature import no_op, gradient
from menpo.model import PCAVectorModel
from menpo.image import Image
from menpo.shape import PointCloud
from menpo.transform import AlignmentSimilarity, Translation
from menpofit import aam, sdm
from menpofit.math import (IRLRegression, IIRLRegression, PCRRegression,
                           OptimalLinearRegression, OPPRegression)
from menpofit.modelinstance import OrthoPDM
from menpofit.transform import (DifferentiablePiecewiseAffine,
                                DifferentiableThinPlateSplines)
from ..core import facet
from .. import gen, fams

P = 'P14'

AAM_SD = ['MeanTemplateNewton', 'MeanTemplateGaussNewton', 'ProjectOutNewton',
          'ProjectOutGaussNewton', 'AppearanceWeightsNewton',
          'AppearanceWeightsGaussNewton']


def options(alg, s):
    """Keyword arguments of the algorithm and its regression."""
    a, b = s['alpha'], s['alpha2']
    if 'Gauss' in alg or 'Guass' in alg:
        k = dict(alpha=a, alpha2=b, bias=s['bias'])
        return k, partial(IIRLRegression, **k)
    if alg.endswith('Newton'):
        k = dict(alpha=a, bias=s['bias'])
        return k, partial(IRLRegression, **k)
    if 'PCR' in alg:
        k = dict(variance=s['variance'], bias=s['bias'])
        return k, partial(PCRRegression, **k)
    if 'Optimal' in alg:
        k = dict(variance=s['variance'], bias=s['bias'])
        return k, partial(OptimalLinearRegression, **k)
    k = dict(bias=s['bias'])
    if alg == 'ParametricShapeOPPRegression':
        k['whiten'] = s['same']
    return k, partial(OPPRegression, **k)


class Reference(object):
    """Own cascade of regressions.  Trusted parts: single regressions (P11),
    parametric shape models (P01) and principal components of menpo."""

    def __init__(self, parametric, features, regression, n_iterations,
                 model=None):
        self.features, self.regression = features, regression
        self.n_iterations = n_iterations
        self.model = model
        self.parametric = parametric
        self.regs = []
        self.jitter = None

    def look(self, im, x):
        f = self.features(im, x)
        if self.jitter is not None:
            f = f + 1e-9 * np.max(np.abs(f)) * self.jitter.uniform(
                -1, 1, f.shape)
        return f

    # shapes are ndarrays (points x dims) here
    def params(self, x):
        self.model.set_target(PointCloud(x))
        return self.model.as_vector().copy()

    def shape(self, p):
        self.model._from_vector_inplace(np.array(p))
        t = self.model.sparse_target if hasattr(self.model, 'sparse_target') \
            else self.model.target
        return t.points.copy()

    def deltas(self, gts, curs):
        if self.parametric:
            return np.array([self.params(g) - self.params(c)
                             for g, cs in zip(gts, curs) for c in cs])
        return np.array([(g - c).ravel()
                         for g, cs in zip(gts, curs) for c in cs])

    def train(self, ims, gts, curs, on_step=None):
        curs = [[c.copy() for c in cs] for cs in curs]
        delta = self.deltas(gts, curs)
        for k in range(self.n_iterations):
            X = np.array([self.look(im, c)
                          for im, cs in zip(ims, curs) for c in cs])
            self.regs.append(self.regression())
            self.regs[k].train(X, delta)
            # one sample at a time
            i = 0
            for n, cs in enumerate(curs):
                for m in range(len(cs)):
                    d = np.asarray(self.regs[k].predict(
                        X[i:i + 1])).ravel()
                    if self.jitter is not None:
                        d = d * (1 + 1e-10 * self.jitter.uniform(
                            -1, 1, d.shape))
                    if self.parametric:
                        p = self.params(cs[m]) + d
                        cs[m] = self.shape(p)
                        delta[i] = self.params(gts[n]) - p
                    else:
                        cs[m] = cs[m] + d.reshape(cs[m].shape)
                        delta[i] = delta[i] - d
                    i += 1
            if on_step is not None:
                on_step(k, delta)
        return curs

    def run(self, im, x):
        out = []
        p = None
        if self.parametric:
            p = self.params(x)
            x = self.shape(p)
            out.append(x)
        for r in self.regs:
            d = np.asarray(r.predict(self.look(im, x)[None])).ravel()
            if self.parametric:
                p = p + d
                x = self.shape(p)
            else:
                x = x + d.reshape(x.shape)
            out.append(x)
        return out


def patch_features(im, x, shape, feat):
    p = im.extract_patches(PointCloud(x), patch_shape=shape,
                           as_single_array=True)
    return np.concatenate([feat(q[0]).ravel() for q in p])


def reference(alg, s, ims, gts, patch_shape, feat, regression, n_iterations):
    parametric = alg in fams.PS_SDM
    raw = partial(patch_features, shape=patch_shape, feat=feat)
    model = OrthoPDM([PointCloud(g) for g in gts]) if parametric else None
    f = raw
    if 'Appearance' in alg or alg.startswith('FullyParametric'):
        A = np.array([raw(im, g) for im, g in zip(ims, gts)])
        app = PCAVectorModel(A)
        U, mu = app.components, app.mean()
        if 'MeanTemplate' in alg:
            f = lambda im, x: raw(im, x) - mu
        elif 'ProjectOut' in alg:
            f = lambda im, x: raw(im, x) - mu - U.T.dot(
                U.dot(raw(im, x) - mu))
        else:
            f = lambda im, x: U.dot(raw(im, x) - mu)
    return Reference(parametric, f, regression, n_iterations, model)


def close_seq(ctx, got, ref, msg, tol):
    ctx.equal(len(got), len(ref), msg + ': number of shapes')
    for k, (a, b) in enumerate(zip(got, ref)):
        ctx.close(a, b, '%s, step %d' % (msg, k), rtol=1e-9, atol=tol)


def flat(rows):
    return [x for r in rows for x in r]


common = {
    'seed': gen.seeds,
    'n': st.integers(3, 5), 'pts': st.integers(4, 6),
    'c': st.integers(1, 2),
    'iters': st.integers(1, 3),
    'alpha': st.sampled_from([1e-2, .1, 1.]),
    'alpha2': st.sampled_from([1e-2, .1, 1.]),
    'variance': st.sampled_from([None, .9, .99]),
    'bias': st.booleans(),
    'ph': st.integers(3, 8), 'pw': st.integers(3, 8),
    'counts': st.lists(st.integers(1, 4), min_size=5, max_size=5),
    'same': st.booleans(),
}


def starts(s, ims, salt, amp=1.5):
    rs = gen.rng(s['seed'], salt)
    out = []
    for k, im in enumerate(ims):
        g = im.landmarks['PTS'].points
        n = s['counts'][0] if s['same'] else s['counts'][k % 5]
        cs = []
        for _ in range(n):
            c = g.mean(axis=0)
            z = (g - c) * rs.uniform(.9, 1.1) + c + rs.uniform(-3, 3, 2)
            cs.append(z + amp * rs.randn(*g.shape) * .3)
        out.append(cs)
    return out


def tolerance(ctx, a, b):
    """How far rounding carries: distance of two references, one of which saw
    slightly disturbed features.  Cascades may amplify rounding without bound
    (regressions of residuals that are zero already), such cases are not
    judged."""
    d = max(np.max(np.abs(np.asarray(p) - np.asarray(q)))
            for p, q in zip(a, b))
    t = 1e-6 + 100 * d
    if not t < .05:
        ctx.label('ill conditioned')
        ctx.nontrivial(False)
        return None
    return t


@facet(P, 'algorithms', st.fixed_dictionaries(dict(
    common, alg=st.sampled_from(fams.SDMS), feat=st.booleans())), quick=400)
def algorithms(ctx, s):
    """Training refines the given shapes with one regression from their
    features to their remaining error per iteration; running applies these
    regressions in turn to any image."""
    alg = s['alg']
    ims = gen.image_set(s['seed'], n_images=s['n'], n_pts=s['pts'],
                        n_channels=s['c'], noise=.05)
    gts = [im.landmarks['PTS'].points for im in ims]
    kw, regression = options(alg, s)
    # as many samples as needed for regressions without a unique solution
    if ('OPP' in alg or 'Optimal' in alg or 'PCR' in alg) and \
            not s['same'] and min(s['counts']) < 2:
        s = dict(s, counts=[max(2, c) for c in s['counts']])
    if ('PCR' in alg or 'Optimal' in alg) and s['variance'] is None:
        # these fail once there is nothing left to regress
        s = dict(s, iters=1)
    ps = (s['ph'], s['pw'])
    feat = (lambda p: np.concatenate((p, p ** 2))) if s['feat'] else no_op
    curs = starts(s, ims, 5)
    ctx.label(alg)
    a = getattr(sdm, alg)(patch_features=feat, patch_shape=ps,
                          n_iterations=s['iters'], **kw)
    ref, jit = [reference(alg, s, ims, gts, ps, feat, regression, s['iters'])
                for _ in range(2)]
    jit.jitter = gen.rng(s['seed'], 8)
    pc = lambda cs: [[PointCloud(c) for c in r] for r in cs]
    snaps = [gen.snapshot_image(im) for im in ims]
    ctx.raises(ValueError, lambda: a.increment(
        ims, [PointCloud(g) for g in gts], pc(curs)),
        'increment of an untrained algorithm')
    got = a.train(ims, [PointCloud(g) for g in gts], pc(curs))
    errs = []
    exp = ref.train(ims, gts, curs, on_step=lambda k, d: errs.append(
        np.sum(d ** 2)))
    ctx.equal([len(g) for g in got], [len(e) for e in exp], 'shapes')
    tol = tolerance(ctx, flat(exp), flat(jit.train(ims, gts, curs)))
    if tol is not None:
        for g, e in zip(got, exp):
            close_seq(ctx, [x.points for x in g], e, 'training shapes', tol)
    ctx.equal(len(a.regressors), s['iters'], 'number of regressors')
    for im, sn in zip(ims, snaps):
        d = gen.image_diff(im, sn)
        ctx.check(d is None, 'training: %s', d)
    if alg in fams.NP_SDM and alg.endswith('Newton') and \
            'Gauss' not in alg and 'Guass' not in alg:
        # regularised least squares never increase the remaining error
        e0 = sum(np.sum((g - c) ** 2) for g, r in zip(gts, curs) for c in r)
        e = [e0] + errs
        ctx.check(all(q <= p * (1 + 1e-9) for p, q in zip(e, e[1:])),
                  'the remaining error grows: %r', e)
    new = gen.image_set(s['seed'] + 2, n_images=1, n_pts=s['pts'],
                        n_channels=s['c'], noise=.05)[0]
    for im, x in ((new, starts(s, [new], 7)[0][0]), (ims[0], curs[0][0])):
        r = a.run(im, PointCloud(x.copy()), gt_shape=PointCloud(gts[0]))
        seq = [q.points for q in r.shapes]
        e = ref.run(im, x)
        tol = tolerance(ctx, e, jit.run(im, x))
        if alg not in fams.PS_SDM:
            e = [x] + e
        if len(seq) == len(e) + 1:
            ctx.close(seq[0], x, 'initial shape of the result', rtol=1e-12)
            seq = seq[1:]
        if tol is not None:
            close_seq(ctx, seq, e, 'run', tol)
            ctx.close(r.final_shape.points, e[-1], 'final shape', atol=tol)
        ctx.equal(r.n_iters, s['iters'], 'number of iterations')
        ctx.check(r.initial_shape is not None, 'the start is missing')
        ctx.close(r.initial_shape.points, x, 'start of the result',
                  rtol=1e-12)
        ctx.check(r.image is not None and
                  np.array_equal(r.image.pixels, im.pixels),
                  'image of the result')


class Perturb(object):
    """Deterministic, records what it is given and what it answers."""

    def __init__(self, seed, twice=False):
        self.rs = gen.rng(seed, 31)
        self.calls = []
        self.twice = twice

    def __call__(self, shape, bb):
        c = bb.points.mean(axis=0)
        if self.twice and self.calls and len(self.calls) % 2 and \
                np.array_equal(self.calls[-1][1], bb.points):
            # the same answer again
            z = PointCloud(self.calls[-1][2].copy())
            self.calls.append((shape.points.copy(), bb.points.copy(),
                               z.points))
            return z
        z = PointCloud((bb.points - c) * self.rs.uniform(.9, 1.1) + c +
                       self.rs.uniform(-2, 2, 2))
        self.calls.append((shape.points.copy(), bb.points.copy(), z.points))
        return z


def in_bounds(p, im):
    return np.minimum(np.maximum(p, 0), np.array(im.shape) - 1.)


def find(ctx, rows, p):
    return [z for g, b, z in rows if g.shape == p.shape and
            np.allclose(g, p, atol=1e-8)]


def bb_of(x):
    lo, hi = x.min(axis=0), x.max(axis=0)
    return np.array([lo, [hi[0], lo[1]], hi, [lo[0], hi[1]]])


def align(src, dst, x):
    return AlignmentSimilarity(PointCloud(src), PointCloud(dst)).apply(
        PointCloud(x)).points


def training_starts(ctx, fit, pert, ims, s, glob):
    """Rescaled images and the bounding boxes training starts from, as
    recorded."""
    out, rescaled = [], []
    total = 0
    for im in ims:
        r = im.rescale_to_pointcloud(fit.reference_shape, group='PTS')
        g = r.landmarks['PTS'].points
        boxes = [bb_of(g)] if not glob else \
            [bb_of(r.landmarks[k].points) for k in r.landmarks
             if k.startswith('box_')]
        mine = [(b, z) for q, b, z in pert.calls
                if np.allclose(q, bb_of(g), atol=1e-7)]
        ctx.equal(len(mine), len(boxes) * s['pert'], 'perturbations per image')
        total += len(mine)
        for b in boxes:
            k = sum(np.allclose(q, b, atol=1e-7) for q, _ in mine)
            alike = sum(np.allclose(q, b, atol=1e-7) for q in boxes)
            ctx.equal(k, s['pert'] * alike, 'perturbations per bounding box')
        z = [bb_of(q) for _, q in mine] + (boxes if glob else [])
        out.append([in_bounds(q, r) for q in z])
        rescaled.append(r)
    ctx.equal(total, len(pert.calls), 'number of perturbations')
    return rescaled, out


fit_spec = dict(
    common, pert=st.integers(1, 3),
    scales=st.sampled_from([[1.], [.5, 1.], [.6], [.5, .8], [1., 1.]]),
    boxes=st.sampled_from(['none', 'one', 'many']),
    diag=st.sampled_from([None, 30, 40]),
    feats=st.sampled_from(['none', 'all', 'last', 'shifted', 'back']),
    # duplicates among the boxes training starts from
    twice=st.booleans())


def setup(s):
    ims = gen.image_set(s['seed'], n_images=s['n'], n_pts=s['pts'],
                        n_channels=s['c'], noise=.05)
    rs = gen.rng(s['seed'], 41)
    glob = None
    if s['boxes'] != 'none':
        glob = 'box_*'
        for k, im in enumerate(ims):
            m = 1 if s['boxes'] == 'one' else s['counts'][k % 5]
            for j in range(m):
                b = bb_of(im.landmarks['PTS'].points) + rs.uniform(-3, 3, 2)
                if j and s['twice']:
                    b = im.landmarks['box_0'].points.copy()
                im.landmarks['box_%d' % j] = PointCloud(b)
            im.landmarks['other'] = PointCloud(bb_of(
                im.landmarks['PTS'].points) + 5)
    return ims, glob


def double(im):
    """A feature that does not move the image."""
    out = im.copy()
    out.pixels = np.concatenate((im.pixels, im.pixels ** 2))
    return out


def shift(im):
    """A feature that moves the content of the image, by an amount that
    depends on the image."""
    h, w = im.shape
    dy, dx = h % 4 + 1, w % 5
    px = np.pad(im.pixels, ((0, 0), (dy, 0), (dx, 0)), mode='edge')
    out = Image(px)
    for g in im.landmarks:
        lm = im.landmarks[g]
        out.landmarks[g] = lm.from_vector(
            (lm.points + np.array([dy, dx], dtype=float)).ravel())
    return out


FEATURES = {'none': lambda n: [no_op] * n, 'all': lambda n: [double] * n,
            'last': lambda n: [no_op] * (n - 1) + [double],
            'shifted': lambda n: [no_op] * (n - 1) + [shift],
            'back': lambda n: [shift] + [no_op] * (n - 1)}


def cascade(ctx, s, fit, refs, rescaled, boxes, hol):
    """Own training across scales; yields the references and training images
    of every scale."""
    shape = fit.reference_shape.points
    both = None
    for j, sc in enumerate(s['scales']):
        featured = [hol[j](im) for im in rescaled]
        pairs = [im.rescale(sc, return_transform=True) for im in featured]
        scaled = [p[0] for p in pairs]
        # scaled -> original
        back = [Translation(i.landmarks['PTS'].points[0] -
                            q.landmarks['PTS'].points[0]).compose_after(p[1])
                for i, q, p in zip(rescaled, featured, pairs)]
        gts = [im.landmarks['PTS'].points for im in scaled]
        two = refs(j, scaled, gts), refs(j, scaled, gts)
        two[1].jitter = gen.rng(s['seed'], 8, j)
        ends = []
        for r, curs in zip(two, (both or (boxes, boxes))):
            down = [[t.pseudoinverse().apply(x) for x in cs]
                    for t, cs in zip(back, curs)]
            if both is None:
                down = [[align(bb_of(shape), x, shape) for x in cs]
                        for cs in down]
            end = r.train(scaled, gts, down)
            ends.append([[t.apply(x) for x in cs] for t, cs in zip(back, end)])
        both = ends
        yield j, two, scaled


@facet(P, 'fitters', st.fixed_dictionaries(dict(
    fit_spec, alg=st.sampled_from(fams.SDMS + ['SDM', 'RegularizedSDM']),
    skip=st.sampled_from([None, None, 0, 1]))), quick=250)
def fitters(ctx, s):
    """Fitters train on the reference shape aligned to every perturbed and
    given bounding box, scale after scale from where the last one ended."""
    alg = s['alg']
    s = dict(s, counts=[max(2, c) for c in s['counts']], bias=True)
    if 'OPP' in alg or 'Optimal' in alg or 'PCR' in alg:
        # these fail once there is nothing left to regress
        s = dict(s, pert=max(2, s['pert']), iters=1, scales=s['scales'][-1:],
                 variance=None)
    if alg == 'SDM':
        # without regularisation more samples than features are needed
        s = dict(s, n=5, pts=4, c=1, ph=3, pw=3, pert=14, feats='none')
    ims, glob = setup(s)
    snaps = [gen.snapshot_image(im) for im in ims]
    pert = Perturb(s['seed'], s['twice'])
    its = [s['iters']] * len(s['scales'])
    if s.get('skip') is not None and len(its) > 1:
        # a scale without iterations passes its start on
        its[s['skip']] = 0
    kw, regression = options(alg, s)
    n = len(s['scales'])
    hol = FEATURES[s['feats']](n)
    fk = dict(group='PTS', bounding_box_group_glob=glob,
              diagonal=s['diag'], scales=s['scales'],
              holistic_features=hol, patch_shape=(s['ph'], s['pw']),
              n_iterations=list(its), n_perturbations=s['pert'],
              perturb_from_gt_bounding_box=pert)
    if alg == 'SDM':
        s = dict(s, alpha=0)
        regression = partial(IRLRegression, alpha=0, bias=True)
        fit = sdm.SDM(ims, **fk)
    elif alg == 'RegularizedSDM':
        regression = partial(IRLRegression, alpha=s['alpha'], bias=True)
        fit = sdm.RegularizedSDM(ims, alpha=s['alpha'], **fk)
    else:
        fit = sdm.SupervisedDescentFitter(
            ims, sd_algorithm_cls=partial(getattr(sdm, alg), **kw), **fk)
    ctx.label('%s boxes, %d scales' % (s['boxes'], n))
    for im, sn in zip(ims, snaps):
        d = gen.image_diff(im, sn)
        ctx.check(d is None, 'training: %s', d)
    rescaled, boxes = training_starts(ctx, fit, pert, ims, s, glob)
    ps = (s['ph'], s['pw'])
    base = alg if alg in fams.SDMS else 'NonParametricNewton'
    refs = lambda j, ims, gts: reference(base, s, ims, gts, ps, no_op,
                                         regression, its[j])
    for j, ref, scaled in cascade(ctx, s, fit, refs, rescaled, boxes, hol):
        im = scaled[0]
        g = im.landmarks['PTS'].points
        x = g + gen.rng(s['seed'], 51, j).uniform(-1.5, 1.5, g.shape)
        got = fit.algorithms[j].run(im, PointCloud(x.copy())).final_shape
        if its[j] == 0:
            if 'Parametric' not in base or base.startswith('Non'):
                ctx.close(got.points, x, 'no iterations')
            continue
        exp = ref[0].run(im, x)
        tol = tolerance(ctx, exp, ref[1].run(im, x))
        if tol is None:
            return
        ctx.close(got.points, exp[-1], 'scale %d of the trained fitter' % j,
                  atol=tol)
    str(fit)
    r = fit.fit_from_shape(ims[0], ims[0].landmarks['PTS'])
    ctx.equal(r.n_iters, sum(its), 'number of iterations')


@facet(P, 'duplicates', st.fixed_dictionaries(dict(
    seed=gen.seeds, n=st.integers(3, 4), where=st.integers(0, 4),
    alg=st.sampled_from([a for a in fams.SDMS if 'OPP' not in a and
                         'Optimal' not in a and 'PCR' not in a]),
    pert=st.sampled_from([1, 3]), boxes=st.booleans(),
    scales=st.sampled_from([[1.], [.5, 1.]]))), quick=60, thorough=400)
def duplicates(ctx, s):
    """An image object that is given twice counts as much as its copy."""
    ims = gen.image_set(s['seed'], s['n'] + 1, 5, size=(50, 53), noise=.03)
    for im in ims:
        im.landmarks['box_0'] = PointCloud(
            bb_of(im.landmarks['PTS'].points) + 1.5)
    data, test = ims[:-1], ims[-1]
    w = s['where'] % (s['n'] + 1)

    def pert(gt, box):
        # depends on what is perturbed only
        return PointCloud(box.points + 3 * np.sin(
            gt.points.sum() * np.arange(1, 3)))

    def fit(again):
        f = fams.sdm_fitter(
            data[:w] + [again] + data[w:], s['alg'], scales=s['scales'],
            bounding_box_group_glob='box_*' if s['boxes'] else None,
            n_perturbations=s['pert'], perturb_from_gt_bounding_box=pert)
        return [f.fit_from_bb(im, im.landmarks['box_0']).final_shape.points
                for im in (test, data[0])]
    for x, y in zip(fit(data[0]), fit(data[0].copy())):
        ctx.close(x, y, 'cascades trained with an image twice', rtol=1e-8)
    ctx.equal(sorted(data[0].landmarks), ['PTS', 'box_0'],
              'landmark groups of the image given twice')


@facet(P, 'memory', st.fixed_dictionaries(dict(
    fit_spec, alg=st.sampled_from(
        ['NonParametricNewton', 'RegularizedSDM',
         'ParametricAppearanceMeanTemplateNewton']))), quick=150)
def memory(ctx, s):
    """With more features than samples and hardly any regularisation, fitting
    a training image from a training estimate recovers its ground truth."""
    alg = s['alg']
    s = dict(s, ph=max(6, s['ph']), pw=max(6, s['pw']), twice=False,
             counts=[min(2, c) for c in s['counts']])
    if s['feats'] in ('shifted', 'back'):
        s['feats'] = 'none'
    ims, glob = setup(s)
    pert = Perturb(s['seed'])
    n = len(s['scales'])
    hol = FEATURES[s['feats']](n)
    fk = dict(group='PTS', bounding_box_group_glob=glob,
              diagonal=s['diag'], scales=s['scales'],
              holistic_features=hol, patch_shape=(s['ph'], s['pw']),
              n_iterations=[s['iters']] * n, n_perturbations=s['pert'],
              perturb_from_gt_bounding_box=pert)
    if alg == 'RegularizedSDM':
        fit = sdm.RegularizedSDM(ims, alpha=1e-7, **fk)
    else:
        fit = sdm.SupervisedDescentFitter(ims, sd_algorithm_cls=partial(
            getattr(sdm, alg), alpha=1e-8), **fk)
    rescaled, boxes = training_starts(ctx, fit, pert, ims, s, glob)
    samples = sum(len(c) for c in boxes)
    ctx.label('%s, %d scales' % (alg, n))
    shape = fit.reference_shape.points
    a = fit.algorithms[0]
    rows = []
    for r, bs in zip(rescaled, boxes):
        f, t = hol[0](r).rescale(s['scales'][0], return_transform=True)
        g = f.landmarks['PTS'].points
        for b in bs:
            x = align(bb_of(shape), t.pseudoinverse().apply(b), shape)
            rows.append((f, g, x, patch_features(f, x, (s['ph'], s['pw']),
                                                 no_op)))
    # patches are not interpolated: close starts may look alike
    F = np.array([q[3] for q in rows])
    near = min(np.sort(np.max(np.abs(F - v), axis=1))[1] for v in F)
    if near < 1e-3:
        ctx.nontrivial(False)
        ctx.label('ambiguous samples')
        return
    for f, g, x, v in rows:
        got = a.run(f, PointCloud(x)).final_shape.points
        d = np.max(np.abs(got - g))
        ctx.check(d <= .05, 'one of %d training samples is not recovered: '
                  'off by %r pixels (started %r away)', samples, d,
                  np.max(np.abs(x - g)))


@facet(P, 'aam_cascades', st.fixed_dictionaries(dict(
    fit_spec, kind=st.sampled_from(sorted(fams.AAMS)),
    alg=st.sampled_from(AAM_SD), n_shape=st.sampled_from([None, None, 1, 2]),
    n_app=st.sampled_from([None, None, 1, 2]), older=st.booleans(),
    sampling=st.sampled_from(['none', 'step', 'mask', 'masks']))), quick=180)
def aam_cascades(ctx, s):
    """The same for fitters that regress the parameters of active appearance
    models from their appearance errors."""
    s = dict(s, scales=s['scales'][:2], n=max(4, s['n']),
             counts=[max(2, c) for c in s['counts']], feats='none')
    alg, kind = s['alg'], s['kind']
    ims, glob = setup(s)
    n = len(s['scales'])
    kw, regression = options(alg, s)
    if alg.endswith('GaussNewton'):
        pass
    else:
        kw['bias'] = True
        regression = partial(IRLRegression, alpha=s['alpha'], bias=True)
    # (the model may be older than the images)
    model = fams.make('aam_' + kind, ims[1:] if s['older'] else ims,
                      scales=s['scales'], diagonal=s['diag'] or 30,
                      patch_shape=(7, 7), max_shape_components=2)
    snaps = [gen.snapshot_image(im) for im in ims]
    pert = Perturb(s['seed'], s['twice'])
    masks, sampling = [None] * n, None
    if s['sampling'] != 'none':
        masks = []
        for j in range(n):
            t = model.appearance_models[j].mean()
            if kind == 'patch':
                k = gen.rng(s['seed'], 5, j).rand(7, 7) < .7
                masks.append(np.broadcast_to(k, t.pixels.shape).ravel())
                sampling = (sampling or []) + [k]
            elif s['sampling'] == 'step':
                k = np.zeros(t.n_true_pixels(), bool)
                k[::2] = True
                masks.append(np.tile(k, s['c']))
                sampling = 2
            else:
                k = gen.rng(s['seed'], 5, j).rand(t.n_true_pixels()) < .7
                masks.append(np.tile(k, s['c']))
                sampling = (sampling or []) + [
                    k if s['sampling'] == 'mask' else np.flatnonzero(k)]
    fit = aam.SupervisedDescentAAMFitter(
        ims, model, group='PTS', bounding_box_group_glob=glob,
        sampling=sampling, n_shape=s['n_shape'], n_appearance=s['n_app'],
        sd_algorithm_cls=partial(getattr(aam, alg), **kw),
        n_iterations=[s['iters']] * n, n_perturbations=s['pert'],
        perturb_from_gt_bounding_box=pert)
    ctx.label('%s, %s' % (kind, alg))
    ctx.close(fit.reference_shape.points, model.reference_shape.points,
              'reference shape of the model', rtol=1e-12)
    for im, sn in zip(ims, snaps):
        d = gen.image_diff(im, sn)
        ctx.check(d is None, 'training: %s', d)
    rescaled, boxes = training_starts(ctx, fit, pert, ims, s, glob)

    def refs(j, scaled, gts):
        a = fit.algorithms[j]
        app = model.appearance_models[j]
        mu, U = app.mean().as_vector(), app.components
        ctx.equal(len(U), s['n_app'] or app.n_components,
                  'active components of the appearance')
        m = slice(None) if masks[j] is None else masks[j]
        mu, U = mu[m], U[:, m]
        if masks[j] is not None:
            # components of a part of the pixels are no longer orthonormal
            back = np.linalg.pinv(U.T)
        else:
            back = U

        def f(im, x):
            t = ref_models[j]
            t.set_target(PointCloud(x))
            if kind == 'patch':
                v = im.extract_patches(
                    t.target, patch_shape=(7, 7),
                    as_single_array=True).ravel()
            else:
                v = im.warp_to_mask(app.mean().mask, t,
                                    warp_landmarks=False).as_vector()
            e = v[m] - mu
            if 'MeanTemplate' in alg:
                return e
            if 'ProjectOut' in alg:
                return e - U.T.dot(back.dot(e))
            return back.dot(e)

        return Reference(True, f, regression, s['iters'], ref_models[j])

    from copy import deepcopy
    ref_models = [deepcopy(a.transform) for a in fit.algorithms]
    for j, ref, scaled in cascade(ctx, s, fit, refs, rescaled, boxes,
                                  [no_op] * n):
        im = scaled[0]
        g = im.landmarks['PTS'].points
        x = g + gen.rng(s['seed'], 51, j).uniform(-1., 1., g.shape)
        r = fit.algorithms[j].run(im, PointCloud(x.copy()))
        exp = ref[0].run(im, x)
        tol = tolerance(ctx, exp, ref[1].run(im, x))
        if tol is None:
            return
        ctx.close(r.final_shape.points, exp[-1],
                  'scale %d of the trained fitter' % j, atol=tol)
    str(fit)
