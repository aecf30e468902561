"""P28: options that are left out mean their published defaults."""
import re
from functools import partial

import numpy as np
from hypothesis import strategies as st

from menpo.feature import no_op, normalize_norm
from menpo.model import PCAVectorModel
from menpo.shape import PointCloud
from menpo.transform import AlignmentAffine, AlignmentSimilarity
from menpofit import aam, aps, atm, clm, lk, sdm, builder, checks, error
from menpofit import fitter as mfitter
from menpofit import math as mmath
from menpofit import unified_aam_clm as uni
from menpofit.clm import (CorrelationFilterExpertEnsemble,
                          IncrementalCorrelationFilterThinWrapper)
from menpofit.dlib import DlibERT
from menpofit.io import image_greyscale_crop_preprocess
from menpofit.math import fft_utils
from menpofit.modelinstance import OrthoPDM, PDM, GlobalPDM
from menpofit.result import (Result, NonParametricIterativeResult,
                             ParametricIterativeResult)
from menpofit.transform import (DifferentiableAlignmentAffine,
                                DifferentiableAlignmentSimilarity,
                                DifferentiablePiecewiseAffine,
                                DifferentiableThinPlateSplines)
from menpofit.visualize import statistics_table
from ..core import facet, Discard
from .. import gen, fams
from .p04 import feat_sq
from .p17 import same, quiet
from .p18 import numbers

P = 'P28'


def half(p):
    return .5 * p


picks = st.integers(0, 2 ** 16)


def choices(s, salt=0):
    """Which options are left out in the second call (by position), and
    which get a value of their own in both."""
    return list(gen.rng(s['seed'], s['how'], salt).choice(list('oooeeev'),
                                                          24))


def calls(table, other, how):
    """Keyword arguments with everything explicit, and with some left out.

    table: published defaults;  other: different values."""
    a, b = {}, {}
    for k, h in zip(sorted(table), how):
        if h == 'v' and k in other:
            a[k] = b[k] = other[k]
            continue
        a[k] = table[k]
        if h != 'o':
            b[k] = table[k]
    return a, b


def left_out(a, b):
    return sorted(set(a) - set(b))


def judge(ctx, fn, a, b, compare, label):
    """fn(a) and fn(b) agree."""
    for k in left_out(a, b):
        ctx.label('%s: %s' % (label, k))
    ctx.nontrivial(len(a) > len(b))

    def outcome(kw):
        np.random.seed(3)
        try:
            return fn(dict(kw))
        except np.linalg.LinAlgError:
            # (there may be nothing to learn with these options)
            return None
    x, y = outcome(a), outcome(b)
    if x is None or y is None:
        # (whether such systems fail depends on round-off)
        raise Discard
    compare(x, y, 'leaving out %s' % ', '.join(left_out(a, b)))


def equal_data(ctx, rtol=1e-9):
    """Comparison of nested lists and dictionaries of arrays and strings."""
    def cmp(x, y, what):
        if isinstance(x, dict):
            ctx.equal(sorted(x), sorted(y), what + ': contents')
            for k in x:
                cmp(x[k], y[k], '%s: %s' % (what, k))
        elif isinstance(x, (list, tuple)):
            ctx.equal(len(x), len(y), what + ': number of values')
            for p, q in zip(x, y):
                cmp(p, q, what)
        elif isinstance(x, str) or x is None:
            ctx.equal(x, y, what)
        else:
            x, y = (np.asarray(q.toarray() if hasattr(q, 'toarray') else q)
                    for q in (x, y))
            if x.dtype == object and x.ndim:
                return cmp(list(x), list(y), what)
            ctx.equal(x.shape, y.shape, what + ': shape')
            ctx.equal(x.dtype.kind in 'fiu', y.dtype.kind in 'fiu',
                      what + ': type')
            ok = np.isfinite(x.astype(complex))
            ctx.check(np.array_equal(ok, np.isfinite(y.astype(complex))),
                      '%s: finite values', what)
            ctx.close(np.where(ok, x, 0), np.where(ok, y, 0), what, rtol=rtol)
    return cmp


# ------------------------------------------------------------------- models
MODEL = dict(holistic_features=no_op, reference_shape=None, diagonal=None,
             scales=(.5, 1.), shape_model_cls=OrthoPDM,
             max_shape_components=None, group=None, verbose=False,
             batch_size=None)
PATCH = dict(patch_shape=(17, 17))
APP = dict(max_appearance_components=None)
TABLES = {
    'aam_holistic': dict(MODEL, transform=DifferentiablePiecewiseAffine,
                         **APP),
    'aam_linear': dict(MODEL, transform=DifferentiableThinPlateSplines,
                       **APP),
    'aam_masked': dict(MODEL, **dict(PATCH, **APP)),
    'aam_linear_masked': dict(MODEL, **dict(PATCH, **APP)),
    'aam_patch': dict(MODEL, patch_normalisation=no_op,
                      **dict(PATCH, **APP)),
    'clm': dict(MODEL, patch_normalisation=no_op, context_shape=(34, 34),
                cosine_mask=True, sample_offsets=None,
                expert_ensemble_cls=CorrelationFilterExpertEnsemble, **PATCH),
    'aps': dict(MODEL, appearance_graph=None, shape_graph=None,
                deformation_graph=None, patch_normalisation=no_op,
                use_procrustes=True, precision_dtype=np.float32,
                n_appearance_components=None, can_be_incremented=False,
                **PATCH),
    'uni': dict(MODEL, expert_ensemble_cls=CorrelationFilterExpertEnsemble,
                context_shape=(34, 34), sample_offsets=None,
                transform=DifferentiablePiecewiseAffine, sigma=None,
                boundary=3, response_covariance=2, patch_normalisation=no_op,
                cosine_mask=True, **dict(PATCH, **APP))}
for _k in ('holistic', 'linear', 'masked', 'linear_masked', 'patch'):
    TABLES['atm_' + _k] = {k: v for k, v in TABLES['aam_' + _k].items()
                           if k not in APP and
                           (k != 'shape_model_cls' or _k == 'holistic')}
for _k in ('aps', 'uni'):
    TABLES[_k] = {k: v for k, v in TABLES[_k].items() if
                  (_k, k) not in (('aps', 'shape_model_cls'),
                                  ('uni', 'batch_size'))}
OTHER = dict(holistic_features=feat_sq, diagonal=31, scales=(1.,),
             max_shape_components=2, batch_size=None,
             transform=DifferentiablePiecewiseAffine, patch_shape=(7, 5),
             max_appearance_components=2, context_shape=(21, 19),
             patch_normalisation=half, cosine_mask=False,
             sample_offsets=np.array([[0, 0], [1, 0]]), use_procrustes=False,
             precision_dtype=np.float64, n_appearance_components=3,
             can_be_incremented=True, sigma=.7, boundary=5,
             response_covariance=3)
CLASSES = {'clm': clm.CLM, 'aps': aps.GenerativeAPS,
           'uni': uni.UnifiedAAMCLM}
CLASSES.update({'aam_' + k: v for k, v in fams.AAMS.items()})
CLASSES.update({'atm_' + k: v for k, v in fams.ATMS.items()})


def build(kind, ims, kw):
    if kind.startswith('atm'):
        return CLASSES[kind](ims[0], [i.landmarks['PTS'] for i in ims], **kw)
    return CLASSES[kind](ims, **kw)


def images(s, n=4, **kw):
    kw.setdefault('size', (52, 54))
    return gen.image_set(s['seed'], n, 5, n_channels=s.get('c', 1),
                         noise=.05, **kw)


def describe(m):
    """What a model says about itself."""
    return re.sub(r'\b1\.0\b', '1', str(m))


@facet(P, 'models', st.fixed_dictionaries(dict(
    seed=gen.seeds, how=picks, c=st.integers(1, 2))), quick=330)
def models(ctx, s):
    """Training without some options is training with their defaults."""
    # (evenly)
    kind = sorted(TABLES)[s['seed'] % len(TABLES)]
    a, b = calls(TABLES[kind], OTHER, choices(s))
    if kind == 'aps':
        # full precision matrices of large patches take long
        for kw in (a, b):
            kw['patch_shape'] = (5, 5) if choices(s)[0] == 'o' else (3, 4)
            kw['appearance_graph'] = fams.chain(5)
            kw['n_appearance_components'] = 3
        if choices(s)[2] == 'o':
            for kw in (a, b):
                kw['patch_shape'] = (2, 2)
            a['n_appearance_components'] = None
            b.pop('n_appearance_components')
        elif choices(s)[3] == choices(s)[4] == 'o':
            # large patches
            s = dict(s, c=1)
            for kw in (a, b):
                kw['scales'] = (1.,)
                kw.pop('patch_shape')
                kw.pop('diagonal', None)
            a['patch_shape'] = (17, 17)
            ctx.label('aps: patch_shape')
    ims = images(s, 7 if kind == 'aps' else 4)

    def compare(x, y, what):
        (m, out), (n, out2) = x, y
        ctx.equal(out2, out, what + ': printed')
        same(ctx, n, m, ims, what)
        for k in ('scales', 'patch_shape', 'diagonal'):
            if hasattr(m, k):
                equal_data(ctx)(getattr(n, k), getattr(m, k),
                                '%s: %s' % (what, k))
        for k in ('transform', 'shape_model_cls'):
            if isinstance(getattr(m, k, None), type):
                ctx.check(getattr(n, k) is getattr(m, k), '%s: %s is %r',
                          what, k, getattr(n, k))
        ctx.equal(describe(n), describe(m), what + ': description')
        if kind == 'aps':
            for i in range(m.n_scales):
                ctx.equal(n.appearance_models[i].precision.dtype,
                          m.appearance_models[i].precision.dtype,
                          what + ': type of precision')
            if m.patch_shape[0][0] > 9:
                # (takes long)
                return
            grown = []
            for z in (m, n):
                try:
                    quiet(lambda: z.increment(ims[:2]))
                    grown.append(True)
                except ValueError:
                    grown.append(False)
            ctx.equal(grown[1], grown[0], what + ': can be incremented')
        start = gen.perturb(ims[0].landmarks['PTS'], s['seed'], .3, 1.)
        r = []
        for z in (m, n):
            try:
                f = fams.fitter(kind, z)
                r.append(numbers(f.fit_from_shape(ims[0], start,
                                                  max_iters=4)))
            except np.linalg.LinAlgError:
                r.append(None)
            except ValueError as e:
                # (unified fitters need some noise)
                if kind != 'uni' or 'noise' not in str(e):
                    raise
                r.append(None)
        if all(q is not None and all(np.isfinite(v).all() and
                                     np.abs(v).max() < 1e4
                                     for v in q.values()) for q in r):
            equal_data(ctx, 1e-5)(r[0], r[1], what + ': fits')
    judge(ctx, lambda kw: quiet(lambda: build(kind, ims, kw)), a, b, compare,
          kind)


@facet(P, 'growth', st.fixed_dictionaries(dict(
    seed=gen.seeds, how=picks,
    scales=st.sampled_from([[1.], [.5, 1.]]))), quick=160)
def growth(ctx, s):
    """The same for increments and instances of models."""
    # (evenly)
    kind = ['aam_holistic', 'aam_patch', 'aam_masked', 'atm_holistic',
            'atm_patch', 'clm', 'aps'][s['seed'] % 7]
    ims = images(s, 8)
    kw = dict(scales=s['scales'])
    if kind == 'aps':
        kw.update(extra=dict(can_be_incremented=True), patch_shape=(3, 3),
                  max_appearance_components=3)
    table = dict(group=None, shape_forgetting_factor=1.,
                 appearance_forgetting_factor=1., verbose=False,
                 batch_size=None)
    if kind == 'aps':
        table = dict(group=None, verbose=False, batch_size=None)
    elif not kind.startswith('aam'):
        table.pop('appearance_forgetting_factor')
    a, b = calls(table, dict(shape_forgetting_factor=.7,
                             appearance_forgetting_factor=.6), choices(s))
    inst = dict(shape_weights=None, scale_index=-1)
    if kind.startswith('aam'):
        inst['appearance_weights'] = None
    if kind == 'aps':
        inst['as_graph'] = False
    ia, ib = calls(inst, dict(scale_index=0, shape_weights=[.5],
                              appearance_weights=[-.5], as_graph=True),
                   choices(s, 1))

    def pixels(x):
        if isinstance(x, (list, tuple)):
            return [pixels(q) for q in x]
        return [type(x).__name__, getattr(x, 'pixels', None)
                if hasattr(x, 'pixels') else x.points]

    def compare(x, y, what):
        same(ctx, y[0], x[0], ims, what)
        equal_data(ctx)(x[1:], y[1:], what)

    def run(o):
        m = fams.make(kind, ims[:5], **kw)
        o, i = o
        if kind.startswith('atm'):
            _, out = quiet(lambda: m.increment(
                ims[6], [x.landmarks['PTS'] for x in ims[5:]], **o))
        else:
            _, out = quiet(lambda: m.increment(ims[5:], **o))
        get = m.shape_instance if kind == 'clm' else m.instance
        z = [out, pixels(get(**i))]
        if kind != 'clm':
            j = {k: v for k, v in i.items() if k in ('scale_index',
                                                     'as_graph')}
            z.append(pixels(m.random_instance(**j)))
        return [m] + z
    for k in left_out(a, b) + left_out(ia, ib):
        ctx.label(k)
    ctx.nontrivial(len(b) < len(a))
    np.random.seed(5)
    x = run((a, ia))
    np.random.seed(5)
    y = run((b, ib))
    compare(x, y, 'leaving out %s' % (left_out(a, b) + left_out(ia, ib)))


# ------------------------------------------------------------------ fitters
def algorithm(table, cls, eps):
    return partial(cls, eps=eps)


FITTERS = {
    'aam': (aam.LucasKanadeAAMFitter, dict(
        lk_algorithm_cls=aam.WibergInverseCompositional, n_shape=None,
        n_appearance=None, sampling=None), 1e-5),
    'atm': (atm.LucasKanadeATMFitter, dict(
        lk_algorithm_cls=atm.InverseCompositional, n_shape=None,
        sampling=None), 1e-5),
    'clm': (clm.GradientDescentCLMFitter, dict(
        gd_algorithm_cls=clm.RegularisedLandmarkMeanShift, n_shape=None),
        1e-5),
    'aps': (aps.GaussNewtonAPSFitter, dict(
        gn_algorithm_cls=aps.Inverse, n_shape=None, weight=200.,
        sampling=None), 1e-5),
    'uni': (uni.UnifiedAAMCLMFitter, dict(
        algorithm_cls=uni.AlternatingRegularisedLandmarkMeanShift,
        n_shape=None, n_appearance=None, sampling=None), 1e-5),
    'lk': (lk.LucasKanadeFitter, dict(
        group=None, holistic_features=no_op, diagonal=None,
        transform=DifferentiableAlignmentAffine, scales=(.5, 1.),
        algorithm_cls=lk.InverseCompositional, residual_cls=lk.SSD), 1e-10)}
FIT_OTHER = dict(n_shape=2, n_appearance=2, sampling=2, weight=1.,
                 holistic_features=feat_sq, diagonal=33,
                 transform=DifferentiableAlignmentSimilarity, scales=(1.,),
                 residual_cls=lk.ECC, return_costs=True, max_iters=7, a=.2,
                 prior=True, map_inference=True)
FIT = dict(max_iters=20, gt_shape=None, return_costs=False)


@facet(P, 'fitters', st.fixed_dictionaries(dict(
    seed=gen.seeds, how=picks, eps=st.booleans(),
    tight=st.booleans(), box=st.booleans(), c=st.integers(1, 2))), quick=420)
def fitters(ctx, s):
    """Fitters, their algorithms and their fits without some options are
    those with the defaults."""
    # (evenly)
    kinds = sorted(fams.MODEL_KINDS) + ['lk', 'lk', 'clm', 'clm', 'uni',
                                        'aps']
    kind = kinds[s['seed'] % len(kinds)]
    fam = kind[:3] if kind[:3] in FITTERS else kind
    C, table, eps = FITTERS[fam]
    other = dict(FIT_OTHER)
    if kind.endswith('patch') or fam in ('aps', 'uni'):
        other.pop('sampling')
    a, b = calls(table, other, choices(s))
    run = dict(FIT)
    if fam in ('aam', 'atm', 'clm'):
        run['map_inference'] = False
    if fam == 'uni':
        run.update(prior=False, a=.5)
    alg = [k for k in table if k.endswith('algorithm_cls')][0]
    if s['eps'] or s['tight']:
        # the tolerance of a given algorithm
        names = fams.LK_ALGS if fam == 'lk' else fams.algs(kind)
        if True:
            cls = getattr({'aam': aam, 'atm': atm, 'clm': clm, 'aps': aps,
                           'uni': uni, 'lk': lk}[fam],
                          names[s['seed'] // 64 % len(names)])
            kw = dict(eps=eps)
            if fam == 'clm':
                kw['gaussian_covariance' if cls is clm.ActiveShapeModel
                   else 'kernel_covariance'] = 10
            if s['eps']:
                a[alg], b[alg] = partial(cls, **kw), cls
                ctx.label('%s: eps' % fam)
            else:
                # as many iterations as there are (a step of zero is
                # not always reached)
                a[alg] = b[alg] = partial(cls, eps=-1.)
    ra, rb = calls(run, FIT_OTHER, choices(s, 2))
    if fam in ('clm', 'lk'):
        # costs are not available
        for r in (ra, rb):
            r.pop('return_costs', None)
        ra['return_costs'] = False
        if choices(s, 2)[-1] == 'e':
            rb['return_costs'] = False
    if s['eps']:
        # so many iterations that the tolerance decides
        ra['max_iters'] = rb['max_iters'] = [60, 60]
        for x in (a, b):
            if 'scales' in x:
                x['scales'] = (.5, 1.)
    ims = images(s, 6)
    start = gen.perturb(ims[1].landmarks['PTS'], s['seed'], .4, 1.)
    if fam == 'lk':
        t = ims[0].crop_to_landmarks_proportion(.15, group='PTS')
        m = None
    else:
        m = fams.make(kind, ims, scales=[.5, 1.], patch_shape=(9, 9),
                      max_shape_components=3, **(
                          dict(max_appearance_components=3)
                          if fam in ('aam', 'aps', 'uni') else {}))

    def fit(o):
        for z in (m.shape_models if m is not None else []):
            # (active components are shared)
            z.n_active_components = z.model.n_components
        for z in getattr(m, 'appearance_models', []) if fam != 'aps' else []:
            z.n_active_components = z.n_components
        f = C(t if m is None else m, **o[0])
        fn = f.fit_from_bb if s['box'] else f.fit_from_shape
        x = start.bounding_box() if s['box'] else start
        r, out = quiet(lambda: fn(ims[1], x, **o[1]))
        d = numbers(r)
        if not all(np.isfinite(v).all() and np.abs(v).max() < 1e5
                   for v in d.values()):
            raise Discard
        return [d, out, str(f) if fam != 'lk' or a[alg] is b.get(alg)
                else '', r.n_iters]
    for k in left_out(a, b):
        ctx.label('%s: %s' % (fam, k))
    for k in left_out(ra, rb):
        ctx.label('fit of %s: %s' % (fam, k))
    ctx.nontrivial(len(a) > len(b) or len(ra) > len(rb))
    try:
        x = fit((a, ra))
    except np.linalg.LinAlgError:
        raise Discard
    except ValueError as e:
        if fam == 'uni' and 'noise' in str(e).lower():
            raise Discard
        raise
    y = fit((b, rb))
    if a[alg] is not b.get(alg):
        # (partials may be described differently)
        x[2] = y[2] = ''
    equal_data(ctx, 1e-7)(x, y, 'leaving out %s' % (
        left_out(a, b) + left_out(ra, rb)))


# ----------------------------------------------------------------- cascades
DESCENT = dict(group=None, bounding_box_group_glob=None, reference_shape=None,
               diagonal=None, holistic_features=no_op, patch_features=no_op,
               patch_shape=(17, 17), scales=(.5, 1.), n_perturbations=30,
               perturb_from_gt_bounding_box=
               mfitter.noisy_shape_from_bounding_box, batch_size=None,
               verbose=False)
CASCADES = {
    'SupervisedDescentFitter': (sdm.SupervisedDescentFitter, dict(
        DESCENT, sd_algorithm_cls=sdm.NonParametricNewton, n_iterations=3)),
    'SDM': (sdm.SDM, dict(DESCENT, n_iterations=3)),
    'RegularizedSDM': (sdm.RegularizedSDM, dict(DESCENT, n_iterations=6,
                                                alpha=.0001)),
    'SupervisedDescentAAMFitter': (aam.SupervisedDescentAAMFitter, dict(
        group=None, bounding_box_group_glob=None, n_shape=None,
        n_appearance=None, sampling=None, sd_algorithm_cls=
        aam.ProjectOutNewton, n_iterations=6, n_perturbations=30,
        perturb_from_gt_bounding_box=mfitter.noisy_shape_from_bounding_box,
        batch_size=None, verbose=False)),
    'DlibERT': (DlibERT, dict(
        group=None, bounding_box_group_glob=None, reference_shape=None,
        diagonal=None, scales=(.5, 1.), n_perturbations=30,
        n_dlib_perturbations=1, perturb_from_gt_bounding_box=
        mfitter.noisy_shape_from_bounding_box, n_iterations=10,
        feature_padding=0, n_pixel_pairs=400, distance_prior_weighting=.1,
        regularisation_weight=.1, n_split_tests=20, n_trees=500,
        n_tree_levels=5, verbose=False))}
AAM_SD = ['MeanTemplateNewton', 'MeanTemplateGaussNewton', 'ProjectOutNewton',
          'ProjectOutGaussNewton', 'AppearanceWeightsNewton',
          'AppearanceWeightsGaussNewton']
CASCADE_OTHER = dict(
    bounding_box_group_glob='box_*', diagonal=34, holistic_features=feat_sq,
    patch_features=half, patch_shape=(6, 7), scales=(1.,), n_perturbations=4,
    sd_algorithm_cls=partial(sdm.NonParametricNewton, alpha=.01),
    n_iterations=2, alpha=.1, n_shape=2, n_appearance=2, sampling=2,
    n_dlib_perturbations=2, feature_padding=.1, n_pixel_pairs=50,
    distance_prior_weighting=.2, regularisation_weight=.3, n_split_tests=4,
    n_trees=10, n_tree_levels=2)


@facet(P, 'cascades', st.fixed_dictionaries(dict(
    seed=gen.seeds, how=picks)), quick=110)
def cascades(ctx, s):
    """Cascades of regressions and ensembles of trees without some options
    are those with the defaults."""
    # (evenly)
    kind = sorted(CASCADES)[s['seed'] % len(CASCADES)]
    slow = s['seed'] // 16 % 4
    C, table = CASCADES[kind]
    other = dict(CASCADE_OTHER)
    if kind == 'SupervisedDescentAAMFitter':
        other.pop('sampling')
        other['sd_algorithm_cls'] = partial(aam.MeanTemplateNewton, alpha=.1)
    how = choices(s)
    names = sorted(table)
    if kind in ('SDM', 'SupervisedDescentFitter'):
        # no ridge: small patches
        other['patch_shape'] = (2, 2)
        if slow or kind == 'SDM':
            how[names.index('patch_shape')] = 'v'
        else:
            how[names.index('sd_algorithm_cls')] = 'v'
    if kind == 'RegularizedSDM' and slow:
        how[names.index('patch_shape')] = 'v'
    if kind == 'DlibERT':
        # one slow option at a time
        for i, k in enumerate(['n_trees', 'n_iterations']):
            if i != slow:
                how[names.index(k)] = 'v'
    ims = images(s, 5)
    for im in ims:
        im.pixels = np.clip(im.pixels, 0, 1)
    if how[names.index('group')] != 'v' and \
            how[names.index('bounding_box_group_glob')] == 'v':
        how[names.index('bounding_box_group_glob')] = 'e'
    if how[names.index('group')] == 'v':
        other['group'] = 'PTS'
        for i, im in enumerate(ims):
            im.landmarks['box_0'] = PointCloud(
                im.landmarks['PTS'].bounding_box().points + 1)
    a, b = calls(table, other, how)
    extra = ()
    if kind == 'SupervisedDescentAAMFitter':
        # whatever the model keeps
        extra = (fams.make('aam_patch', ims[:4], scales=[1.],
                           patch_shape=(7, 7), max_shape_components=3,
                           max_appearance_components=3),)

    def run(kw):
        for z in extra:
            z.shape_models[0].n_active_components = \
                z.shape_models[0].model.n_components
            z.appearance_models[0].n_active_components = \
                z.appearance_models[0].n_components
        f, out = quiet(lambda: C(ims[:4], *extra, **kw))
        r = []
        for im in ims[3:]:
            q = im.copy()
            r.append(numbers(f.fit_from_bb(
                q, im.landmarks['PTS'].bounding_box())))
        return [r, out, str(f)]

    def compare(x, y, what):
        if all(np.abs(v).max() < 1e4 for d in x[0] for v in d.values()):
            try:
                equal_data(ctx, 1e-5)(x, y, what)
            except Exception:
                # is it reproducible at all?
                np.random.seed(3)
                z = run(dict(a))
                if any(np.abs(p[k] - q[k]).max() > 1e-9
                       for p, q in zip(x[0], z[0]) for k in p):
                    raise Discard
                raise
        else:
            ctx.equal(y[1:], x[1:], what + ': description')
    judge(ctx, run, a, b, compare, kind)


@facet(P, 'aam_descents', st.fixed_dictionaries(dict(
    seed=gen.seeds, how=picks, iters=st.integers(1, 2))), quick=16)
def aam_descents(ctx, s):
    """The same for each algorithm of the supervised descent AAM fitter."""
    ims = images(s, 10)
    m = fams.make('aam_patch', ims[:9], scales=[1.], patch_shape=(2, 3),
                  max_shape_components=2)
    boxes = [im.landmarks['PTS'].bounding_box() for im in ims]
    for i, name in enumerate(AAM_SD):
        table = dict(alpha=0, bias=True)
        if 'Gauss' in name:
            table['alpha2'] = 0
        how = choices(s, i)[:len(table)]
        if 'o' not in how:
            how[(s['seed'] + i) % len(table)] = 'o'
        a, b = calls(table, dict(alpha=.1, alpha2=.2, bias=False), how)

        def run(kw):
            m.shape_models[0].n_active_components = \
                m.shape_models[0].model.n_components
            m.appearance_models[0].n_active_components = \
                m.appearance_models[0].n_components
            np.random.seed(3)
            f = aam.SupervisedDescentAAMFitter(
                ims[:9], m, sd_algorithm_cls=partial(getattr(aam, name),
                                                     **kw),
                n_iterations=s['iters'], n_perturbations=9)
            return [numbers(f.fit_from_bb(im, box))
                    for im, box in zip(ims[8:], boxes[8:])]
        for k in left_out(a, b):
            ctx.label('%s: %s' % (name, k))
        try:
            x, y, z = run(a), run(b), run(a)
        except np.linalg.LinAlgError:
            continue
        if all(np.abs(v).max() < 1e4 for d in x for v in d.values()) and \
                all(np.abs(p[k] - q[k]).max() < 1e-7
                    for p, q in zip(x, z) for k in p):
            ctx.label('%s compared' % name)
            equal_data(ctx, 1e-5)(y, x, '%s: leaving out %s' % (
                name, ', '.join(left_out(a, b))))


REGRESSION = dict(patch_features=no_op, patch_shape=(17, 17), n_iterations=3,
                  bias=True)
SHAPE, LOOKS = dict(shape_model_cls=OrthoPDM), dict(
    appearance_model_cls=PCAVectorModel)


def sd_table(name):
    t = dict(REGRESSION)
    if name.startswith(('ParametricShape', 'FullyParametric')):
        t.update(SHAPE)
    if name.startswith(('ParametricAppearance', 'FullyParametric')):
        t.update(LOOKS)
    if name.endswith('Newton'):
        t['alpha'] = 0
        if 'Gauss' in name or 'Guass' in name:
            t['alpha2'] = 0
    if name.endswith(('PCRRegression', 'OptimalRegression')):
        t['variance'] = None
    if name == 'ParametricShapeOPPRegression':
        t['whiten'] = False
    return t


@facet(P, 'descents', st.fixed_dictionaries(dict(
    seed=gen.seeds, how=picks)),
    quick=160)
def descents(ctx, s):
    """The same for the algorithms on their own."""
    # (evenly)
    alg = sorted(fams.SDMS)[s['seed'] % len(fams.SDMS)]
    table = sd_table(alg)
    other = dict(patch_features=half, patch_shape=(2, 2), n_iterations=2,
                 alpha=.1, alpha2=.2, variance=.9, whiten=True,
                 bias=alg.endswith('Newton') and s['seed'] // 32 % 2 == 0)
    how = choices(s)
    names = sorted(table)
    at = [names.index(k) for k in ('patch_shape', 'alpha') if k in names]
    if s['seed'] // 64 % 3:
        # (large patches take long)
        how[at[0]] = 'v'
    if all(how[i] != 'v' for i in at):
        # solvable systems: small patches or ridges
        how[at[s['seed'] // 256 % len(at)]] = 'v'
    a, b = calls(table, other, how)
    ims = images(s, 6)
    gts = [im.landmarks['PTS'] for im in ims]
    rs = gen.rng(s['seed'], 4)
    curs = [[PointCloud(g.points + 2 * rs.randn(*g.points.shape))
             for _ in range(14)] for g in gts]

    def run(kw):
        f = getattr(sdm, alg)(**kw)
        mine = [[x.copy() for x in c] for c in curs]
        done = f.train(ims[:5], gts[:5], mine[:5])
        r = f.run(ims[5], mine[5][0])
        return [[c.points for cs in done for c in cs],
                [x.points for x in r.shapes]]

    def compare(x, y, what):
        flat = np.array(x[0] + x[1])
        if not np.isfinite(flat).all() or np.abs(flat).max() > 1e4:
            raise Discard
        try:
            equal_data(ctx, 1e-5)(x, y, what)
        except Exception:
            # is it reproducible at all?
            np.random.seed(3)
            try:
                z = run(dict(a))
            except np.linalg.LinAlgError:
                raise Discard
            if np.abs(np.array(z[0] + z[1]) - flat).max() > 1e-9:
                raise Discard
            raise
    judge(ctx, run, a, b, compare, alg)


# ---------------------------------------------------------------- functions
def f_regressions(s, rs):
    n, d, k = 20, 5, 2
    X = rs.randn(n, d)
    Y = X.dot(rs.randn(d, k)) + .3 * rs.randn(n, k) + 1.
    Z = rs.randn(3, d)

    def use(C):
        def run(kw):
            r = C(**kw)
            r.train(X, Y)
            p = [r.predict(Z)]
            try:
                r.increment(Z, Y[:3])
                p.append(r.predict(Z))
            except (ValueError, NotImplementedError, AttributeError) as e:
                p.append(type(e).__name__)
            return p
        return run
    inc = dict(alpha=0, bias=True, incrementable=False)
    return {
        'IRLRegression': (use(mmath.IRLRegression), inc,
                          dict(alpha=.5, bias=False, incrementable=True)),
        'IIRLRegression': (use(mmath.IIRLRegression), dict(
            alpha=0, bias=False, alpha2=0), dict(alpha=.5, alpha2=.3)),
        'PCRRegression': (use(mmath.PCRRegression), dict(
            variance=None, bias=True), dict(variance=.8, bias=False)),
        'OptimalLinearRegression': (use(mmath.OptimalLinearRegression), dict(
            variance=None, bias=True), dict(variance=.8, bias=False)),
        'OPPRegression': (use(mmath.OPPRegression), dict(
            bias=True, whiten=False), dict(whiten=True))}


def f_filters(s, rs):
    c = 1 + s['seed'] % 2
    X = rs.rand(3, c, 9, 8)
    h, w = np.mgrid[:9, :8]
    y = np.exp(-.3 * ((h - 4.) ** 2 + (w - 4.) ** 2))[None]
    base = dict(l=.01, boundary='constant', crop_filter=True)
    other = dict(l=.1, boundary='symmetric', crop_filter=False, f=.6)
    inc = dict(base, f=1.)

    def grow(train, inc):
        def run(kw):
            g, A, B = train(X[:2], y, **base)
            return list(inc(A, B, 2, X[2:], y, **kw))
        return run
    x, f = rs.rand(c, 9, 8), rs.rand(c, 4, 3)
    conv = dict(mode='same', boundary='constant', fft_filter=False)
    co = dict(mode='valid', boundary='symmetric')

    def ensemble(kw):
        ims = images(s, 3)
        sh = [i.landmarks['PTS'] for i in ims]
        e, out = quiet(lambda: CorrelationFilterExpertEnsemble(
            ims[:2], sh[:2], **kw))
        e.increment(ims[2:], sh[2:])
        return [out, e.predict_response(ims[2], sh[0]),
                e.predict_probability(ims[2], sh[0]), list(e.patch_shape),
                list(e.context_shape), None if e.sample_offsets is None
                else np.array(e.sample_offsets)]

    def wrapper(kw):
        z = IncrementalCorrelationFilterThinWrapper(**kw)
        a = z.train(X[:2], y)
        g = z.increment(a[1], a[2], 2, X[2:], y)
        return [list(a), list(g)]
    return {
        'mccf': (lambda kw: list(mmath.mccf(X, y, **kw)), base, other),
        'mosse': (lambda kw: list(mmath.mosse(X, y, **kw)), base, other),
        'imccf': (grow(mmath.mccf, mmath.imccf), inc, other),
        'imosse': (grow(mmath.mosse, mmath.imosse), inc, other),
        'fft_convolve2d': (lambda kw: fft_utils.fft_convolve2d(x, f, **kw),
                           conv, co),
        'fft_convolve2d_sum': (
            lambda kw: fft_utils.fft_convolve2d_sum(x, f, **kw),
            dict(conv, axis=0, keepdims=True), dict(co, keepdims=False)),
        'pad': (lambda kw: fft_utils.pad(x, (13, 12), **kw),
                dict(boundary='constant'), dict(boundary='symmetric')),
        'CorrelationFilterExpertEnsemble': (ensemble, dict(
            icf_cls=IncrementalCorrelationFilterThinWrapper,
            patch_shape=(17, 17), context_shape=(34, 34),
            response_covariance=3, patch_normalisation=partial(
                normalize_norm, mode='per_channel',
                error_on_divide_by_zero=False), cosine_mask=True,
            sample_offsets=None, prefix='', verbose=False),
            dict(patch_shape=(9, 7), context_shape=(15, 17),
                 response_covariance=2, patch_normalisation=half,
                 cosine_mask=False,
                 sample_offsets=np.array([[0, 0], [2, 1]]))),
        'IncrementalCorrelationFilterThinWrapper': (wrapper, dict(
            cf_callable=mmath.mccf, icf_callable=mmath.imccf), {})}


def f_errors(s, rs):
    x, g, z = (PointCloud(20 * rs.rand(6, 2)) for _ in range(3))
    e = list(.12 * rs.rand(15))
    norm = dict(norm_shape=None, norm_type='avg_edge_length')
    other = dict(norm_shape=z, norm_type='diagonal')
    lo = dict(min_error=0.)
    table = dict(auc_min_error=0., stats_types=None, stats_names=None,
                 sort_by=None, precision=4)

    def stats(kw):
        t = statistics_table([e, list(.12 * rs.rand(9))], ['a', 'b'], .1,
                             .01, **kw)
        return [list(t.columns), list(t.index), t.to_string()]

    def stats_(kw):
        nonlocal rs
        rs = gen.rng(s['seed'], 8)
        return stats(kw)
    default = error.euclidean_bb_normalised_error
    iterative = NonParametricIterativeResult(
        [x, z], initial_shape=PointCloud(g.points + 1), gt_shape=g,
        image=images(s, 1)[0], costs=[1., 2.])
    plain = Result(x, initial_shape=z, gt_shape=g)
    para = ParametricIterativeResult(
        [x, z], [np.zeros(2), np.ones(2)], initial_shape=g, gt_shape=g)
    ce = dict(compute_error=None)
    co = dict(compute_error=error.euclidean_error)
    explicit = dict(compute_error=default)
    what = dict(pass_image=True, pass_initial_shape=True, pass_gt_shape=True)

    def to_result(kw):
        r = iterative.to_result(**kw)
        return numbers(r)
    return {
        'euclidean_bb_normalised_error': (
            lambda kw: error.euclidean_bb_normalised_error(x, g, **kw), norm,
            other),
        'root_mean_square_bb_normalised_error': (
            lambda kw: error.root_mean_square_bb_normalised_error(
                x, g, **kw), norm, other),
        'area_under_curve_and_failure_rate': (
            lambda kw: list(error.area_under_curve_and_failure_rate(
                e, .01, .1, **kw)), lo, dict(min_error=.02)),
        'compute_statistical_measures': (
            lambda kw: list(error.compute_statistical_measures(
                e, .01, .1, **kw)), lo, dict(min_error=.02)),
        'statistics_table': (stats_, table, dict(
            auc_min_error=.02, stats_types=['mean', 'auc'], sort_by='mean',
            precision=2)),
        'errors': (lambda kw: iterative.errors(**kw), explicit, co),
        'final_error': (lambda kw: plain.final_error(**kw), explicit, co),
        'initial_error': (lambda kw: plain.initial_error(**kw), explicit,
                          co),
        'final_error with None': (lambda kw: plain.final_error(**kw), ce,
                                  co),
        'reconstructed_initial_error': (
            lambda kw: para.reconstructed_initial_error(**kw), explicit, co),
        'displacements_stats': (
            lambda kw: iterative.displacements_stats(**kw),
            dict(stat_type='mean'), dict(stat_type='max')),
        'to_result': (to_result, what, dict(pass_image=False,
                                            pass_gt_shape=False))}


def f_noise(s, rs):
    x = PointCloud(gen.base_points(6, rs) * 20)
    y = PointCloud(x.points + rs.randn(6, 2) + 3)
    box = y.bounding_box()
    turned = PointCloud(box.points.dot([[.8, .6], [-.6, .8]]) + 30)
    ns = dict(noise_type='uniform', noise_percentage=.05,
              allow_alignment_rotation=False)
    no = dict(noise_type='gaussian', noise_percentage=.2,
              allow_alignment_rotation=True)
    calm = dict(noise_percentage=0., allow_alignment_rotation=True)

    def boxes(kw):
        ims = images(s, 2)
        for im in ims:
            im.landmarks['box_0'] = im.landmarks['PTS'].bounding_box()
        if 'gt_group' not in kw or kw['gt_group'] is None:
            for im in ims:
                del im.landmarks['box_0']
        f, out = quiet(lambda: mfitter.generate_perturbations_from_gt(
            ims, 2, mfitter.noisy_shape_from_bounding_box, **kw))
        return [out] + [q.points for im in ims for q in f(im)]
    return {
        'noisy_shape_from_bounding_box': (
            lambda kw: mfitter.noisy_shape_from_bounding_box(
                x, box, **kw).points, ns, no),
        'noisy_shape_from_bounding_box, turned': (
            lambda kw: mfitter.noisy_shape_from_bounding_box(
                x, turned, **kw).points, ns, no),
        'noisy_shape_from_shape': (
            lambda kw: mfitter.noisy_shape_from_shape(x, y, **kw).points, ns,
            no),
        'noisy_shape_from_shape without noise': (
            lambda kw: mfitter.noisy_shape_from_shape(
                x, y, noise_percentage=0., **kw).points,
            {k: v for k, v in ns.items() if k != 'noise_percentage'},
            {k: v for k, v in no.items() if k != 'noise_percentage'}),
        'noisy_alignment_similarity_transform': (
            lambda kw: mfitter.noisy_alignment_similarity_transform(
                x, y, **kw).h_matrix, dict(ns, noise_percentage=.1), no),
        'noisy_target_alignment_transform': (
            lambda kw: mfitter.noisy_target_alignment_transform(
                x, y, **kw).h_matrix, dict(
                    alignment_transform_cls=AlignmentAffine, noise_std=.1),
            dict(alignment_transform_cls=AlignmentSimilarity, noise_std=2.)),
        'align_shape_with_bounding_box': (
            lambda kw: mfitter.align_shape_with_bounding_box(
                x, box, **kw).points,
            dict(alignment_transform_cls=AlignmentSimilarity), {}),
        'generate_perturbations_from_gt': (boxes, dict(
            gt_group=None, bb_group_glob=None, verbose=False),
            dict(gt_group='PTS'))}


def f_builder(s, rs):
    ims = images(s, 3)
    shapes = [i.landmarks['PTS'] for i in ims]

    def frame(kw):
        f = builder.build_reference_frame(shapes[0], **kw)
        return [f.mask.mask, list(f.landmarks), f.landmarks[
            list(f.landmarks)[0]].points]

    def patch_frame(kw):
        f = builder.build_patch_reference_frame(shapes[0], **kw)
        return [f.mask.mask, list(f.landmarks), f.landmarks[
            list(f.landmarks)[0]].points]

    def loud(fn):
        def run(kw):
            r, out = quiet(lambda: fn(kw))
            return [out] + r
        return run
    ref = builder.build_reference_frame(shapes[0])
    T = DifferentiablePiecewiseAffine
    voice = dict(prefix='', verbose=False)

    def scaled(kw):
        r = builder.scale_images(ims, .7, **kw)
        if kw.get('return_transforms'):
            return [i.pixels for i in r[0]] + [t.h_matrix for t in r[1]]
        return [i.pixels for i in r]

    def crop(kw):
        im, t = image_greyscale_crop_preprocess(
            ims[0], PointCloud([[20., 22.], [28., 33.]]).bounding_box(), **kw)
        return [im.pixels, t.h_matrix]

    def pdm(C, *args):
        def run(kw):
            m = C(shapes2, *args, **kw)
            return [m.model.components, m.model.eigenvalues,
                    m.model.mean().points]
        return run
    shapes2 = gen.shape_set(s['seed'], 8, 6)

    def grow(C):
        def run(kw):
            kw = dict(kw)
            m = C(shapes2[:5])
            _, out = quiet(lambda: m.increment(shapes2[5:], **kw))
            return [out, m.model.components, m.model.eigenvalues,
                    m.model.mean().points]
        return run
    gi = dict(n_shapes=None, forgetting_factor=1., max_n_components=None,
              verbose=False)
    go = dict(n_shapes=2, forgetting_factor=.5, max_n_components=3)
    mc, mo = dict(max_n_components=None), dict(max_n_components=2)

    def tps(kw):
        t = DifferentiableThinPlateSplines(shapes[0], shapes[1], **kw)
        return [t.apply(np.array([[20., 21.], [25., 30.]])),
                t.d_dl(np.array([[20., 21.], [25., 30.]]))]

    def sim(kw):
        return DifferentiableAlignmentSimilarity(
            PointCloud(rs0.rand(4, 2)), PointCloud(rs1.rand(4, 2)),
            **kw).h_matrix

    def simf(kw):
        nonlocal rs0, rs1
        rs0, rs1 = gen.rng(s['seed'], 3), gen.rng(s['seed'], 4)
        return sim(kw)
    rs0 = rs1 = None

    def sampling(fn):
        def run(kw):
            m = fams.make('aam_holistic', ims, max_shape_components=2,
                          max_appearance_components=2, diagonal=60)
            r = fn(m, **kw)
            return [np.asarray(getattr(q, 'mask', q)) for q in r]
        return run
    return {
        'build_reference_frame': (frame, dict(boundary=3, group='source'),
                                  dict(boundary=5, group='x')),
        'build_patch_reference_frame': (patch_frame, dict(
            boundary=3, group='source', patch_shape=(17, 17)),
            dict(boundary=5, group='x', patch_shape=(7, 9))),
        'extract_patches': (loud(lambda kw: [i.pixels for i in
                                             builder.extract_patches(
            ims, shapes, (5, 6), **kw)]), dict(voice,
                                               normalise_function=no_op),
            dict(normalise_function=half)),
        'warp_images': (loud(lambda kw: [i.as_vector() for i in
                                         builder.warp_images(
            ims, shapes, ref, T, **kw)]), voice, {}),
        'compute_features': (loud(lambda kw: [
            i.pixels for i in builder.compute_features(ims, feat_sq, **kw)]),
            voice, {}),
        'scale_images': (loud(scaled), dict(voice, return_transforms=False),
                         dict(return_transforms=True)),
        'compute_reference_shape': (loud(lambda kw: [
            builder.compute_reference_shape(shapes, 40, **kw).points]),
            dict(verbose=False), {}),
        'rescale_images_to_reference_shape': (loud(lambda kw: [
            i.pixels for i in builder.rescale_images_to_reference_shape(
                ims, 'PTS', shapes[0], **kw)]), dict(verbose=False), {}),
        'image_greyscale_crop_preprocess': (crop, dict(crop_proportion=1.),
                                            dict(crop_proportion=.2)),
        'PDM': (pdm(PDM), mc, mo), 'OrthoPDM': (pdm(OrthoPDM), mc, mo),
        'GlobalPDM': (pdm(GlobalPDM, DifferentiableAlignmentSimilarity), mc,
                      mo),
        'PDM.increment': (grow(PDM), gi, go),
        'OrthoPDM.increment': (grow(OrthoPDM), gi, go),
        'DifferentiableThinPlateSplines': (tps, dict(kernel=None), {}),
        'DifferentiableAlignmentSimilarity': (simf, dict(
            rotation=True, allow_mirror=False), dict(rotation=False,
                                                     allow_mirror=True)),
        'holistic_sampling_from_scale': (sampling(
            aam.holistic_sampling_from_scale), dict(scale=.35),
            dict(scale=.6)),
        'holistic_sampling_from_step': (sampling(
            aam.holistic_sampling_from_step), dict(step=8), dict(step=3))}


GROUPS = {'regressions': f_regressions, 'filters': f_filters,
          'errors': f_errors, 'noise': f_noise, 'builder': f_builder}


@facet(P, 'functions', st.fixed_dictionaries(dict(
    seed=gen.seeds, how=picks, c=st.sampled_from([1, 3]))),
    quick=480)
def functions(ctx, s):
    """The same for regressions, filters, errors, noise, builder functions,
    shape models, alignments and results."""
    # (evenly)
    make = GROUPS[sorted(GROUPS)[s['seed'] % len(GROUPS)]]
    fns = make(s, gen.rng(s['seed'], 1))
    for i, name in enumerate(sorted(fns)):
        if (i + s['seed'] // 16) % 3:
            continue
        fn, table, other = make(s, gen.rng(s['seed'], 1))[name]
        # different options for each of them
        how = choices(s, i)[:len(table)]
        how[(s['seed'] // 64 + i) % len(table)] = 'o'
        a, b = calls(table, other, how)
        judge(ctx, fn, a, b, equal_data(ctx), name)


# ------------------------------------------------------------- conveniences
@facet(P, 'conveniences', st.fixed_dictionaries(dict(
    seed=gen.seeds, what=st.sampled_from(['SDM', 'RegularizedSDM']),
    alpha=st.sampled_from([None, .0001, .01, 1.]), iters=st.integers(1, 6),
    scales=st.sampled_from([(.5, 1.), (1.,)]), ps=st.sampled_from(
        [(17, 17), (7, 8)]))), quick=40)
def conveniences(ctx, s):
    """The supervised descent method is the cascade of non-parametric Newton
    regressions, the regularised one with the given (or published) ridge."""
    ims = images(s, 4)
    kw = dict(scales=s['scales'], patch_shape=s['ps'], n_perturbations=15,
              n_iterations=s['iters'], diagonal=33)
    if s['what'] == 'SDM':
        # no ridge: small patches
        kw['patch_shape'] = (2, 2)

    def run(C, **o):
        np.random.seed(7)
        try:
            f = C(ims[:3], **dict(kw, **o))
        except np.linalg.LinAlgError:
            raise Discard
        return [x.points for x in f.fit_from_bb(
            ims[3], ims[3].landmarks['PTS'].bounding_box()).shapes]
    al = s['alpha']
    if s['what'] == 'SDM':
        cls = sdm.NonParametricNewton
        r = run(sdm.SDM)
    else:
        cls = partial(sdm.NonParametricNewton,
                      alpha=.0001 if al is None else al)
        r = run(sdm.RegularizedSDM, **({} if al is None else
                                       dict(alpha=al)))
    exp = run(sdm.SupervisedDescentFitter, sd_algorithm_cls=cls)
    if not np.isfinite(exp).all() or np.abs(exp).max() > 1e4:
        raise Discard
    if not np.allclose(exp, run(sdm.SupervisedDescentFitter,
                                sd_algorithm_cls=cls), atol=1e-9):
        raise Discard
    equal_data(ctx, 1e-6)(r, exp, s['what'])
