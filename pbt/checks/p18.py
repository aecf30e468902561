"""P18: fitting and training are pure functions of what they are given."""
import copy
import sys

import numpy as np
from hypothesis import strategies as st

from menpo.feature import no_op
from menpo.image import Image, MaskedImage
from menpo.shape import PointCloud
from menpofit import aam, sdm
from functools import partial
from ..core import facet, Discard
from .. import gen, fams
from .p04 import feat_sq

P = 'P18'
KINDS = fams.MODEL_KINDS + ['lk', 'sdm', 'psdm', 'sdaam', 'ert']
SDAAM = ['MeanTemplateNewton', 'MeanTemplateGaussNewton', 'ProjectOutNewton',
         'ProjectOutGaussNewton', 'AppearanceWeightsNewton',
         'AppearanceWeightsGaussNewton']


def extra(s, ims):
    """Optional inputs that must stay as they are."""
    kw = {}
    if s.get('ref'):
        kw['reference_shape'] = s['_ref']
    if s.get('bb') and s['kind'] in ('sdm', 'psdm', 'sdaam', 'ert'):
        kw['bounding_box_group_glob'] = 'bb_*'
    return kw


def model_of(s, ims):
    kind = s['kind']
    kw = dict(scales=list(s['scales']), diagonal=26, patch_shape=(7, 7),
              holistic_features=feat_sq if s['feat'] else no_op,
              max_shape_components=3)
    if kind == 'aps':
        kw['max_appearance_components'] = 3
    if kind == 'uni':
        kw['max_appearance_components'] = 3
    if s.get('ref'):
        kw['reference_shape'] = s['_ref']
    return fams.make(kind, ims, **kw)


def alg_of(s):
    a = fams.algs(s['kind'])
    return a[s['alg'] % len(a)]


def fitter_of(s, ims, model=None):
    kind = s['kind']
    feats = feat_sq if s['feat'] else no_op
    if kind in fams.MODEL_KINDS:
        m = model if model is not None else model_of(s, ims)
        return fams.fitter(kind, m, alg_of(s))
    np.random.seed(5)
    if kind == 'lk':
        t = ims[0].crop_to_landmarks_proportion(.15, group='PTS')
        return fams.lk_fitter(t, fams.LK_ALGS[s['alg'] % 3],
                              fams.LK_RES[(s['alg'] // 3) % 5],
                              scales=s['scales'], diagonal=26,
                              holistic_features=feats)
    if kind == 'sdaam':
        m = fams.make('aam_patch', ims, scales=s['scales'], diagonal=26,
                      patch_shape=(7, 7), max_shape_components=3,
                      holistic_features=feats)
        np.random.seed(5)
        return aam.SupervisedDescentAAMFitter(
            ims, m, group='PTS', n_iterations=s.get('cascade', 2), n_perturbations=3,
            bounding_box_group_glob=extra(s, ims).get(
                'bounding_box_group_glob'),
            sd_algorithm_cls=partial(
                getattr(aam, SDAAM[s['alg'] % 6]), alpha=.05,
                **({'alpha2': .05} if 'Gauss' in SDAAM[s['alg'] % 6]
                   else {})))
    if kind == 'ert':
        from menpofit.dlib import DlibERT
        return DlibERT(ims, group='PTS', scales=s['scales'],
                       n_perturbations=4, n_dlib_perturbations=1,
                       n_iterations=3, n_tree_levels=2, n_trees=5,
                       n_split_tests=3, n_pixel_pairs=20, **extra(s, ims))
    names = [a for a in (fams.NP_SDM if kind == 'sdm' else fams.PS_SDM)
             if 'OPP' not in a and 'Optimal' not in a and 'PCR' not in a]
    return fams.sdm_fitter(ims, names[s['alg'] % len(names)],
                           scales=s['scales'], holistic_features=feats,
                           diagonal=26, n_perturbations=3, ridge=.1,
                           n_iterations=s.get('cascade', 2),
                           **extra(s, ims))


def fit(f, s, im, shape, gt=None, box=False, costs=False):
    np.random.seed(11)
    kw = {}
    if s['kind'] not in ('sdm', 'psdm', 'sdaam', 'ert'):
        kw['max_iters'] = s['its']
    if costs and s['kind'] not in ('ert', 'sdm', 'psdm', 'sdaam', 'clm',
                                   'lk'):
        kw['return_costs'] = True
    if s.get('map') and s['kind'] == 'clm' or \
            s['kind'][:3] in ('aam', 'atm') and s.get('map'):
        kw['map_inference'] = True
    if s.get('map') and s['kind'] == 'uni':
        kw['prior'] = True
    try:
        if box:
            return f.fit_from_bb(im, shape.bounding_box(), gt_shape=gt, **kw)
        return f.fit_from_shape(im, shape, gt_shape=gt, **kw)
    except np.linalg.LinAlgError:
        # diverged: no step is optimal where nothing of the image is seen
        raise Discard


def numbers(r):
    """Everything a result says, as a dictionary of arrays."""
    d = {'final': r.final_shape.points.copy()}
    if r.initial_shape is not None:
        d['initial'] = r.initial_shape.points.copy()
    if r.gt_shape is not None:
        d['gt'] = r.gt_shape.points.copy()
    if r.image is not None:
        d['image'] = r.image.pixels.copy()
    if r.is_iterative:
        d['shapes'] = np.array([x.points for x in r.shapes])
    for n in ('shape_parameters', 'appearance_parameters', 'costs'):
        v = getattr(r, n, None)
        if v is not None:
            for i, x in enumerate(v):
                if x is not None:
                    d['%s %d' % (n, i)] = np.array(x, dtype=float)
    return d


def same(ctx, a, b, what, tol=1e-9):
    ctx.equal(sorted(a), sorted(b), what + ': parts of the result')
    for k in sorted(a):
        ctx.close(a[k], b[k], '%s: %s' % (what, k), rtol=tol, atol=tol)


spec = dict(
    seed=gen.seeds, kind=st.sampled_from(KINDS), alg=st.integers(0, 29),
    scales=st.sampled_from([[1.], [.6, 1.], [.5, .75, 1.]]),
    feat=st.booleans(), its=st.integers(0, 5), amp=st.floats(.2, 3.),
    c=st.integers(1, 2), box=st.booleans(), gt=st.booleans(),
    map=st.booleans(), single=st.sampled_from([False, False, True]))


def images(s):
    ert = s['kind'] == 'ert'
    ims = gen.image_set(s['seed'], 5, 5, n_channels=s['c'],
                        size=(44, 46), noise=.03)
    if s['single']:
        for i in ims:
            i.pixels = i.pixels.astype(np.float32)
    if ert:
        # dlib needs images in [0, 1]
        for i in ims:
            i.pixels = np.clip(i.pixels, 0., 1.)
    return ims


def starts(s, ims, n):
    return [gen.perturb(ims[i % len(ims)].landmarks['PTS'], s['seed'],
                        s['amp'], 2., salt=50 + i) for i in range(n)]


@facet(P, 'repeat', st.fixed_dictionaries(dict(
    spec, order=st.lists(st.integers(0, 3), min_size=1, max_size=4),
    costs=st.booleans(), truth=st.sampled_from(
        ['none', 'true', 'start', 'like start', 'far']))), quick=170,
    rule='the history has another fit before the repeated one')
def repeat(ctx, s):
    """A fit gives the same result whatever was fitted before, and results
    already obtained never change."""
    ims = images(s)
    f = fitter_of(s, ims)
    ctx.label(s['kind'])
    shapes = starts(s, ims, 4)
    gts = [im.landmarks['PTS'] if s['gt'] else None for im in ims]
    first = {}
    kept = []
    for i in [0] + s['order'] + [0]:
        r = fit(f, s, ims[i], shapes[i], gts[i], box=s['box'] and i % 2 == 0,
                costs=s['costs'])
        d = numbers(r)
        if i in first:
            same(ctx, d, first[i], 'repeated fit')
        else:
            first[i] = d
        kept.append((r, d))
    ctx.nontrivial(any(i != 0 for i in s['order']))
    for r, d in kept:
        same(ctx, numbers(r), d, 'earlier result after later fits', 0)
    # asking for costs changes nothing else
    r = fit(f, s, ims[0], shapes[0], gts[0], box=s['box'],
            costs=not s['costs'])
    a, b = [{k: v for k, v in x.items() if not k.startswith('costs')}
            for x in (numbers(r), first[0])]
    same(ctx, a, b, 'fit with(out) costs')
    # a ground truth is only compared with, whatever it is
    x = shapes[0].copy()
    gt = {'none': None, 'true': ims[0].landmarks['PTS'], 'start': x,
          'like start': x.copy(), 'far': PointCloud(x.points + 9.)}[
              s['truth']]
    r = fit(f, s, ims[0], x, gt, box=s['box'], costs=s['costs'])
    a, b = [{k: v for k, v in y.items() if k != 'gt'}
            for y in (numbers(r), first[0])]
    same(ctx, a, b, 'fit with another ground truth')


@facet(P, 'shared', st.fixed_dictionaries(dict(
    spec, kind=st.sampled_from(fams.MODEL_KINDS), other=st.integers(0, 29))),
    quick=130)
def shared(ctx, s):
    """Fitters built from one model work as if each had its own."""
    ims = images(s)
    m = model_of(s, ims)
    pristine = copy.deepcopy(m)
    x = starts(s, ims, 3)
    ctx.label(s['kind'])
    exp = numbers(fit(fitter_of(s, ims, pristine), s, ims[1], x[1],
                      box=s['box']))
    f = fitter_of(s, ims, m)
    fit(f, s, ims[0], x[0])
    # a second one, after the first one has worked
    o = dict(s, alg=s['other'])
    g = fitter_of(o, ims, m)
    same(ctx, numbers(fit(f, s, ims[1], x[1], box=s['box'])), exp,
         'fitter whose model was given to another fitter', 1e-7)
    fit(g, o, ims[2], x[2])
    same(ctx, numbers(fit(f, s, ims[1], x[1], box=s['box'])), exp,
         'fitter whose model was used by another fitter', 1e-7)
    h = fitter_of(s, ims, m)
    same(ctx, numbers(fit(h, s, ims[1], x[1], box=s['box'])), exp,
         'fitter of a model that was used before', 1e-7)
    for k in range(len(s['scales'])):
        for name in ('shape_models', 'appearance_models'):
            if not hasattr(m, name):
                continue
            a, b = getattr(m, name)[k], getattr(pristine, name)[k]
            if name == 'shape_models':
                a, b = a.model, b.model
            if not hasattr(b, 'eigenvalues'):
                continue
            ctx.close(a.eigenvalues, b.eigenvalues, 'variances of ' + name)
            ctx.close(a.components, b.components, 'components of ' + name)


@facet(P, 'inputs', st.fixed_dictionaries(dict(
    spec, masked=st.booleans(), ref=st.booleans(), bb=st.booleans())),
    quick=200)
def inputs(ctx, s):
    """Nothing given to training or fitting is modified, and results do not
    change with later changes of what was given."""
    ims = images(s)
    ctx.label(s['kind'])
    if s['masked']:
        ims = [i.as_masked() for i in ims]
    for i in ims:
        i.landmarks['other'] = PointCloud(i.landmarks['PTS'].points + 1)
        for k in range(2 if s['bb'] else 0):
            i.landmarks['bb_%d' % k] = gen.perturb(
                i.landmarks['PTS'], s['seed'], 1., 2.,
                salt=k).bounding_box()
    snaps = [gen.snapshot_image(i) for i in ims]
    s = dict(s, _ref=PointCloud(ims[2].landmarks['PTS'].points * .8))
    f = fitter_of(s, ims)
    ctx.check(np.array_equal(s['_ref'].points,
                             ims[2].landmarks['PTS'].points * .8),
              'the reference shape was modified')

    def unchanged(what):
        for i, sn in zip(ims, snaps):
            d = gen.image_diff(i, sn)
            ctx.check(d is None, '%s: %s', what, d)
            if s['masked']:
                ctx.check(isinstance(i, MaskedImage) and
                          i.mask.mask.all(), '%s: mask changed', what)

    unchanged('training')
    im = ims[1]
    shape = starts(s, ims, 2)[1]
    gt = PointCloud(im.landmarks['PTS'].points.copy()) if s['gt'] else None
    points = shape.points.copy()
    r = fit(f, s, im, shape, gt, box=s['box'])
    unchanged('fitting')
    ctx.check(np.array_equal(shape.points, points), 'start was modified')
    if gt is not None:
        ctx.check(np.array_equal(gt.points, im.landmarks['PTS'].points),
                  'ground truth was modified')
    d = numbers(r)
    im.pixels[:] = 0
    shape.points[:] = 0
    d2 = numbers(r)
    for k in ('final', 'shapes', 'image'):
        if k in d:
            if k == 'image':
                ctx.close(d2[k], d[k], 'the result shares pixels', rtol=0)
            else:
                # the start itself may be shared
                ctx.close(d2[k][-1:], d[k][-1:], 'the result shares ' + k,
                          rtol=0) if (len(d[k]) > 1 and k == 'shapes') \
                    else None


def step(alg, s, im, x, box):
    """One algorithm on its own."""
    np.random.seed(11)
    kw = {}
    if s['kind'] not in ('sdm', 'psdm', 'sdaam', 'ert'):
        kw['max_iters'] = s['its']
    try:
        r = alg.run(im, x.bounding_box() if box else x, **kw)
    except np.linalg.LinAlgError:
        raise Discard
    d = {'final': r.final_shape.points.copy()}
    if r.is_iterative:
        d['shapes'] = np.array([q.points for q in r.shapes])
    return d


@facet(P, 'edited', st.fixed_dictionaries(dict(
    spec, at=st.integers(0, 2), kind=st.sampled_from(
        KINDS + ['sdm', 'psdm', 'sdaam', 'sdm', 'psdm']), cascade=st.integers(1, 2), level=st.booleans(),
    edits=st.lists(st.sampled_from(['flip', 'one pixel', 'move', 'nothing',
                                    'other']), min_size=1, max_size=4))),
    quick=400)
def edited(ctx, s):
    """Fits see images and starts as they are when they are given, however
    often the same objects were given before."""
    ims = images(s)
    f = fitter_of(s, ims)
    k = s['at'] % len(s['scales'])
    ctx.label(s['kind'])
    ctx.nontrivial(any(e != 'nothing' for e in s['edits']))
    rs = gen.rng(s['seed'], 71)
    im, x = ims[1].copy(), starts(s, ims, 2)[1]
    if s['level']:
        feats = (feat_sq if s['feat'] else no_op)
        im = feats(im)
        if s['kind'] == 'ert':
            im.pixels = np.clip(im.pixels[:1], 0., 1.)
    alg = f.algorithms[k] if s['level'] else None

    def run(g, a, im, x):
        if s['level']:
            return step(a, s, im, x, s['kind'] == 'ert')
        return numbers(fit(g, s, im, x, box=s['box']))

    run(f, alg, im, x)
    for e in s['edits']:
        if e == 'flip':
            im.pixels[...] = im.pixels[:, :, ::-1].copy()
        elif e == 'one pixel':
            c = np.clip(np.round(x.points[0]).astype(int), 0,
                        np.array(im.shape) - 1)
            im.pixels[:, c[0], c[1]] = rs.uniform(0, 1)
        elif e == 'move':
            x.points[...] += rs.uniform(-1, 1, x.points.shape)
        elif e == 'other':
            # something else in between
            y = PointCloud(x.points + rs.uniform(-1, 1, 2))
            z = Image(im.pixels.copy())
            z.pixels[...] = z.pixels[:, ::-1].copy()
            run(f, alg, z, y)
        g = copy.deepcopy(f)
        exp = run(g, g.algorithms[k] if s['level'] else None,
                  Image(im.pixels.copy()), PointCloud(x.points.copy()))
        same(ctx, run(f, alg, im, x), exp, 'after "%s"' % e, 1e-7)


class Fault(Exception):
    pass


class Calls(object):
    """Counts the calls of functions of the code under test and of menpo, and
    lets the one numbered `at` fail."""
    def __init__(self, at=None):
        self.at, self.n, self.raised = at, 0, None

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self.trace)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)

    def trace(self, frame, event, arg):
        code = frame.f_code
        p = code.co_filename
        # (putting landmarks away must be possible, and generators and
        # clean-up code cannot fail)
        if event != 'call' or '/menpo' not in p or 'landmark' in p or \
                code.co_name.startswith('__del') or \
                code.co_name in ('<genexpr>', '<listcomp>'):
            return None
        self.n += 1
        if self.at is not None and self.n > self.at and not self.raised:
            self.raised = '%s:%d' % (p, code.co_firstlineno)
            raise Fault(self.raised)


@facet(P, 'faults', st.fixed_dictionaries(dict(
    spec, its=st.integers(1, 4), box=st.just(False),
    at=st.lists(st.one_of(
        st.floats(0, 1), st.integers(0, 40)), min_size=1, max_size=4),
    train=st.sampled_from([False, False, False, True]))), quick=110,
    thorough=1200, rule='a call failed within the fit or the training')
def faults(ctx, s):
    """A fit (or training) that fails, at whatever call, leaves the images it
    was given and the fitter as they were."""
    ims = images(s)
    ctx.label(s['kind'])
    x = starts(s, ims, 4)
    snaps = [gen.snapshot_image(i) for i in ims]

    def unchanged(what):
        for i, sn in zip(ims, snaps):
            d = gen.image_diff(i, sn)
            ctx.check(d is None, '%s: %s', what, d)

    if s['train']:
        with Calls() as c:
            fitter_of(s, ims)
    f = fitter_of(s, ims)
    good = numbers(fit(f, s, ims[0], x[0]))
    if not s['train']:
        with Calls() as c:
            fit(f, s, ims[1], x[1])
    for k, at in enumerate(s['at']):
        at = min(at, c.n - 1) if isinstance(at, int) else int(at * (c.n - 1))
        with Calls(at) as d:
            try:
                if s['train']:
                    fitter_of(s, ims)
                else:
                    fit(f, s, ims[k % 2], x[k % 2])
            except Exception:
                pass
        if not d.raised:
            continue
        ctx.nontrivial(True)
        what = 'after the call of %s failed' % d.raised.split('/menpo')[-1]
        unchanged(what)
        if not s['train']:
            same(ctx, numbers(fit(f, s, ims[0], x[0])), good, 'fit ' + what)
            ctx.check(np.array_equal(
                x[k % 2].points, starts(s, ims, 4)[k % 2].points),
                'start ' + what)
