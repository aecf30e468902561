"""P24: descriptions and progress reports."""
import contextlib
import io
import re

import numpy as np
from functools import partial
from hypothesis import strategies as st

from menpo.feature import no_op
from menpo.shape import PointCloud
from menpofit import aam, aps, sdm
from menpofit import error as err
from menpofit.clm import CorrelationFilterExpertEnsemble
from menpofit.modelinstance import GlobalPDM, OrthoPDM, PDM
from menpofit.transform import (DifferentiableAlignmentAffine,
                                DifferentiableAlignmentSimilarity,
                                DifferentiablePiecewiseAffine,
                                DifferentiableThinPlateSplines)
from ..core import facet, Discard
from .. import gen, fams

P = 'P24'


def squares(im):
    out = im.copy()
    out.pixels = im.pixels ** 2
    return out


def halves(im):
    out = im.copy()
    out.pixels = im.pixels / 2.
    return out


def scaled_patch(p):
    return p * 2.


def powers_of_patch(p):
    return np.concatenate((p, p ** 2))


FEATS = {f.__name__: f for f in (no_op, squares, halves)}
PFEATS = {f.__name__: f for f in (no_op, scaled_patch, powers_of_patch)}
TRANSFORMS = [DifferentiablePiecewiseAffine, DifferentiableThinPlateSplines]
NUM = r'[-+]?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?'


def letters(t):
    return re.sub('[^a-z]', '', t.lower())


def blocks(ctx, text, scales, what):
    """Text before the list of scales and the text of each scale."""
    parts = re.split(r'(?m)^\W*Scale (%s)\s*$' % NUM, text)
    got = [float(x) for x in parts[1::2]]
    ctx.equal(got, [float(x) for x in scales], '%s: scales' % what)
    return parts[0], parts[2::2]


def number(ctx, text, unit, what):
    m = re.findall(r'(%s) %s' % (NUM, unit), text)
    ctx.equal(len(m), 1, '%s: mentions of "%s" in %r' % (what, unit, text))
    return float(m[0])


def after(ctx, text, key, what):
    m = re.findall(r'(?i)%s:?\s*(.*?)\s*$' % key, text, re.M)
    ctx.equal(len(m), 1, '%s: mentions of "%s" in %r' % (what, key, text))
    return m[0]


def ints(t):
    return tuple(int(x) for x in re.findall(r'\d+', t))


def captured(fn):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = fn()
    return r, out.getvalue()


TITLES = {'aam_holistic': 'holisticactiveappearancemodel',
          'aam_masked': 'maskedactiveappearancemodel',
          'aam_linear': 'linearactiveappearancemodel',
          'aam_linear_masked': 'linearmaskedactiveappearancemodel',
          'aam_patch': 'patchbasedactiveappearancemodel',
          'atm_holistic': 'holisticactivetemplatemodel',
          'atm_masked': 'maskedactivetemplatemodel',
          'atm_linear': 'linearactivetemplatemodel',
          'atm_linear_masked': 'linearmaskedactivetemplatemodel',
          'atm_patch': 'patchbasedactivetemplatemodel',
          'clm': 'constrainedlocalmodel',
          'aps': 'generativeactivepictorialstructures',
          'uni': 'unifiedholisticaamandclm'}


def diagonal(ctx, head, ref, asked, what, tol=.0051):
    m = re.findall(r'scaled to diagonal: (%s)' % NUM, head)
    ctx.equal(len(m), 1, '%s: mentions of the diagonal' % what)
    own = np.linalg.norm(ref.points.max(0) - ref.points.min(0))
    ctx.check(abs(float(m[0]) - own) <= tol, '%s: diagonal %s of %r', what,
              m[0], own)
    if asked is not None:
        ctx.check(abs(float(m[0]) - asked) <= .0051,
                  '%s: diagonal %s instead of %r', what, m[0], asked)


def model_options(s):
    """Per scale options of a model of this kind."""
    kind, n = s['kind'], len(s['scales'])
    pick = lambda v: [v[i % len(v)] for i in range(n)]
    o = dict(scales=s['scales'], diagonal=s['diag'],
             holistic_features=[FEATS[f] for f in pick(s['feats'])],
             max_shape_components=pick(s['ms']))
    ps = [tuple(p) for p in pick(s['ps'])]
    if kind.startswith('aam_') or kind.startswith('atm_'):
        if kind[4:] in fams.USES_PATCH:
            o['patch_shape'] = ps
    else:
        o['patch_shape'] = ps
    if fams.has_appearance(kind):
        o['max_appearance_components'] = pick(s['ma'])
        if kind == 'uni':
            o['max_appearance_components'] = [
                min(3, a or 3) for a in o['max_appearance_components']]
    if kind in ('clm', 'uni'):
        o['context_shape'] = [tuple(c + 6 for c in p) for p in ps]
        o['cosine_mask'] = bool(s['cos'])
        o['patch_normalisation'] = PFEATS[('no_op', 'scaled_patch')[
            s['norm']]]
    if kind == 'aps':
        o['max_appearance_components'] = [min(3, a or 3)
                                          for a in pick(s['ma'])]
        o['use_procrustes'] = True
    if kind in ('aam_holistic', 'atm_holistic', 'uni', 'aam_linear',
                'atm_linear'):
        o['transform'] = TRANSFORMS[s['tps']]
    return o, ps


def describe_model(ctx, s, kind, m, text, o, ps, what, limits=True):
    """Text tells the facts about the model."""
    head, rest = blocks(ctx, text, s['scales'], what)
    ctx.check(letters(head).startswith(TITLES[kind]), '%s: title of %r', what,
              head)
    diagonal(ctx, head, m.reference_shape, s['diag'], what)
    w = re.findall(r'(?i)warped with (\w+) transform', head)
    if 'transform' in o:
        ctx.equal(w, [o['transform'].__name__], '%s: transform' % what)
    elif kind.endswith('masked') or kind.endswith('linear'):
        ctx.equal(w, ['DifferentiableThinPlateSplines'],
                  '%s: transform' % what)
    else:
        ctx.equal(w, [], '%s: transform' % what)
    for k, t in enumerate(rest):
        wk = '%s, scale %d' % (what, k)
        sm = m.shape_models[k]
        ctx.equal(after(ctx, t, 'holistic feature', wk),
                  o['holistic_features'][k].__name__, '%s: feature' % wk)
        n = number(ctx, t, 'shape components', wk)
        ctx.equal(n, len(sm.model.components), '%s: shape components' % wk)
        lim = o['max_shape_components'][k]
        if lim is not None and limits:
            ctx.check(n <= lim, '%s: %d shape components despite the limit of '
                      '%d', wk, n, lim)
        ctx.equal(number(ctx, t, 'similarity transform parameters', wk), 4,
                  '%s: similarity parameters' % wk)
        ctx.equal(after(ctx, t, 'shape model class', wk), type(sm).__name__,
                  '%s: shape model' % wk)
        if fams.has_appearance(kind):
            am = m.appearance_models[k]
            ctx.equal(number(ctx, t, 'appearance components', wk),
                      len(am.components), '%s: appearance components' % wk)
            ctx.equal(after(ctx, t, 'appearance model class', wk),
                      'PCAModel', '%s: appearance model' % wk)
        if kind.startswith('atm_'):
            ctx.equal(ints(after(ctx, t, 'template shape', wk)),
                      m.warped_templates[k].pixels.shape[1:]
                      if not kind.endswith('patch') else
                      tuple(m.warped_templates[k].shape),
                      '%s: template' % wk)
        if 'patch_shape' in o:
            ctx.equal(ints(after(ctx, t, 'patch shape', wk)), ps[k],
                      '%s: patch shape' % wk)
        else:
            ctx.check('patch shape' not in t.lower(), '%s: patches', wk)
        if kind in ('clm', 'uni'):
            ctx.equal(number(ctx, t, 'experts', wk), s['pts'],
                      '%s: experts' % wk)
            ctx.equal(ints(after(ctx, t, 'context shape', wk)),
                      tuple(c + 6 for c in ps[k]), '%s: context' % wk)
            ctx.equal(after(ctx, t, 'cosine mask', wk),
                      str(o['cosine_mask']), '%s: mask' % wk)
            ctx.equal(after(ctx, t, 'patch normalisation', wk),
                      o['patch_normalisation'].__name__,
                      '%s: normalisation' % wk)
            ctx.equal(after(ctx, t, 'ensemble of experts class', wk),
                      'CorrelationFilterExpertEnsemble', '%s: class' % wk)
        if kind == 'aps':
            c = m.patch_shape[k]
            f = re.findall(r'(\d+) features per point \((\d+) in total\)', t)
            per = int(np.prod(ps[k])) * s['c']
            ctx.equal(f, [(str(per), str(per * s['pts']))],
                      '%s: features' % wk)
            ctx.equal(number(ctx, t, 'SVD components', wk),
                      o['max_appearance_components'][k], '%s: SVD' % wk)
            ctx.check('Trained using PCA' in t, '%s: shape training', wk)
            ctx.check(str(m.deformation_graph[k]) in t, '%s: graph', wk)
            ctx.check(str(fams.chain(s['pts'])) in t,
                      '%s: appearance graph', wk)


model_spec = dict(
    seed=gen.seeds, kind=st.sampled_from(fams.MODEL_KINDS),
    n=st.integers(5, 8), pts=st.integers(4, 6), c=st.integers(1, 2),
    scales=st.sampled_from([[1.], [.5, 1.], [.6, .8], [.5, .75, 1.],
                            [1., 1.]]),
    diag=st.sampled_from([None, 24, 30, 31.26]),
    feats=st.lists(st.sampled_from(sorted(FEATS)), min_size=3, max_size=3),
    ms=st.lists(st.sampled_from([None, 1, 2, 3]), min_size=3, max_size=3),
    ma=st.lists(st.sampled_from([None, 1, 2, 3]), min_size=3, max_size=3),
    ps=st.lists(st.lists(st.integers(5, 11), min_size=2, max_size=2),
                min_size=3, max_size=3),
    cos=st.integers(0, 1), norm=st.integers(0, 1), tps=st.integers(0, 1))


def build(s):
    ims = gen.image_set(s['seed'], s['n'], s['pts'], n_channels=s['c'],
                        size=(44, 46), noise=.05)
    o, ps = model_options(s)
    return ims, o, ps, fams.make(s['kind'], ims, **o)


def state(m):
    """Numbers that descriptions must not touch."""
    out = [m.reference_shape.points.copy()]
    for sm in m.shape_models:
        out += [sm.as_vector().copy(), np.array(sm.n_active_components),
                sm.model.components.copy()]
    for am in getattr(m, 'appearance_models', []):
        out.append(np.array(am.n_components or 0))
    return out


@facet(P, 'models', st.fixed_dictionaries(dict(
    model_spec, more=st.booleans())), quick=320)
def models(ctx, s):
    """Descriptions of models name title, diagonal, transform and, scale by
    scale, features, patches and components in use, before and after
    increments."""
    kind = s['kind']
    ims, o, ps, m = build(s)
    ctx.label(kind)
    before = state(m)
    text, printed = captured(lambda: str(m))
    ctx.equal(printed, '', 'output of the description')
    describe_model(ctx, s, kind, m, text, o, ps, kind)
    ctx.equal(str(m), text, 'second description')
    for a, b in zip(before, state(m)):
        ctx.check(np.array_equal(a, b), 'describing changed the model')
    if s['more'] and kind not in ('aps', 'uni'):
        new = gen.image_set(s['seed'] + 1, 3, s['pts'], n_channels=s['c'],
                            size=(44, 46), noise=.05)
        ctx.label('incremented')
        if kind.startswith('atm_'):
            m.increment(new[0], [i.landmarks['PTS'] for i in new],
                        group='PTS')
        else:
            m.increment(new, group='PTS')
        describe_model(ctx, s, kind, m, str(m), o, ps, kind + ' incremented')


RES_NAMES = {'SSD': 'sumofsquareddifferencesresidual',
             'FourierSSD': 'fouriersumofsquareddifferencesresidual',
             'ECC': 'enhancedcorrelationcoefficientresidual',
             'GradientImages': 'gradientimage',
             'GradientCorrelation': 'gradientcorrelation'}


@facet(P, 'fitters', st.fixed_dictionaries(dict(
    model_spec, alg=st.integers(0, 9),
    ns=st.lists(st.integers(1, 3), min_size=3, max_size=3),
    na=st.lists(st.integers(1, 3), min_size=3, max_size=3),
    all_s=st.booleans(), all_a=st.booleans(),
    weight=st.lists(st.sampled_from([0., 20., 2.5]), min_size=3, max_size=3))),
    quick=280)
def fitters(ctx, s):
    """Descriptions of fitters describe the model, the algorithm and the
    active components of each scale."""
    kind = s['kind']
    s = dict(s, ms=[None] * 3, ma=[3] * 3)
    ims, o, ps, m = build(s)
    n = len(s['scales'])
    algs = fams.algs(kind)
    alg = algs[s['alg'] % len(algs)]
    ctx.label('%s %s' % (kind, alg))
    kw, ns, na = {}, s['ns'], s['na']
    if s['all_s']:
        # everything there is
        ns = [x.model.n_components for x in m.shape_models]
    else:
        kw['n_shape'] = ns[:n]
    if fams.has_appearance(kind):
        if s['all_a']:
            na = [len(x.eigenvalues) for x in m.appearance_models]
        else:
            kw['n_appearance'] = na[:n]
    if kind == 'aps':
        kw['weight'] = s['weight'][:n]
    try:
        f = fams.fitter(kind, m, alg, **kw)
    except ValueError:
        # (the unified fitters need some noise variance to be left)
        if kind == 'uni' and any(
                np.allclose(x.noise_variance(), 0) for x in
                [y.model for y in m.shape_models] + m.appearance_models):
            raise Discard()
        raise
    text, printed = captured(lambda: str(f))
    ctx.equal(printed, '', 'output of the description')
    own = str(m)
    ctx.check(text.startswith(own), 'no description of the model')
    head, rest = blocks(ctx, text[len(own):], s['scales'], kind)
    ctx.check(letters(head).startswith(letters(alg)), 'algorithm %s in %r',
              alg, head)
    for k, t in enumerate(rest):
        wk = '%s, scale %d' % (kind, k)
        ctx.equal(number(ctx, t, 'active shape components', wk), ns[k],
                  '%s: shape components' % wk)
        ctx.equal(number(ctx, t, 'similarity transform components', wk), 4,
                  '%s: similarity components' % wk)
        if fams.has_appearance(kind):
            ctx.equal(number(ctx, t, 'active appearance components', wk),
                      na[k], '%s: appearance components' % wk)
        if kind == 'aps':
            ctx.equal(float(after(ctx, t, 'weight', wk)), s['weight'][k],
                      '%s: weight' % wk)


def my_box(shape, bb):
    c = bb.points.mean(0)
    return PointCloud((bb.points - c) * np.random.uniform(.9, 1.1) + c +
                      np.random.uniform(-2, 2, 2))


REG = {'Gauss': 'IIRLRegression', 'Guass': 'IIRLRegression',
       'Newton': 'IRLRegression', 'PCR': 'PCRRegression',
       'Optimal': 'OptimalLinearRegression', 'OPP': 'OPPRegression'}


def regression_name(alg):
    for k in ('Gauss', 'Guass', 'PCR', 'Optimal', 'OPP', 'Newton'):
        if k in alg:
            return REG[k]


def training_lines(text):
    """(iteration, mean, std, median) of each training error reported."""
    return [(int(a), float(b), float(c), float(d)) for a, b, c, d in
            re.findall(r'\(Iteration (\d+)\) - Training error -> mean: (%s), '
                       r'std: (%s), median: (%s?)\.\s' % (NUM, NUM, NUM),
                       text)]


AAM_SD = ['MeanTemplateNewton', 'MeanTemplateGaussNewton', 'ProjectOutNewton',
          'ProjectOutGaussNewton', 'AppearanceWeightsNewton',
          'AppearanceWeightsGaussNewton']


@facet(P, 'cascades', st.fixed_dictionaries(dict(
    seed=gen.seeds, alg=st.sampled_from(fams.SDMS + AAM_SD),
    aam=st.sampled_from(sorted(fams.AAMS)), n=st.integers(4, 6),
    pts=st.integers(4, 5),
    scales=st.sampled_from([[1.], [.5, 1.], [.6, .8], [.5, .75, 1.]]),
    diag=st.sampled_from([None, 24, 31.26]), pert=st.integers(2, 4),
    its=st.lists(st.integers(1, 2), min_size=3, max_size=3),
    feats=st.lists(st.sampled_from(sorted(FEATS)), min_size=3, max_size=3),
    pf=st.lists(st.sampled_from(sorted(PFEATS)), min_size=3, max_size=3),
    ps=st.lists(st.lists(st.integers(4, 7), min_size=2, max_size=2),
                min_size=3, max_size=3),
    own=st.booleans())), quick=180)
def cascades(ctx, s):
    """Cascades describe themselves; their training reports one error per
    iteration and scale if asked to, nothing otherwise, with the same
    outcome."""
    alg = s['alg']
    n = len(s['scales'])
    ims = gen.image_set(s['seed'], s['n'], s['pts'], size=(44, 46), noise=.05)
    kw = dict(n_iterations=s['its'][:n], n_perturbations=s['pert'])
    if 'PCR' in alg or 'Optimal' in alg or 'OPP' in alg:
        # nothing is left to regress in later steps
        kw.update(n_iterations=[1] + [0] * (n - 1), n_perturbations=4)
    if s['own']:
        kw['perturb_from_gt_bounding_box'] = my_box
    ctx.label(alg)
    feats = [FEATS[f] for f in s['feats'][:n]]
    if alg in AAM_SD:
        a = fams.make('aam_' + s['aam'], ims, scales=s['scales'],
                      diagonal=s['diag'] or 30, holistic_features=feats,
                      max_shape_components=3, max_appearance_components=3)
        head0 = str(a)
        o = dict(alpha=.1)
        if 'Gauss' in alg:
            o['alpha2'] = .1
        make = lambda verbose: aam.SupervisedDescentAAMFitter(
            ims, a, group='PTS', verbose=verbose,
            sd_algorithm_cls=partial(getattr(aam, alg), **o), **kw)
    else:
        head0 = ''
        make = lambda verbose: fams.sdm_fitter(
            ims, alg, ridge=.1, diagonal=s['diag'], scales=s['scales'],
            holistic_features=feats,
            patch_features=[PFEATS[f] for f in s['pf'][:n]],
            patch_shape=[tuple(p) for p in s['ps'][:n]], verbose=verbose,
            **kw)
    np.random.seed(s['seed'])
    f, printed = captured(lambda: make(False))
    ctx.equal(printed, '', 'output of quiet training')
    np.random.seed(s['seed'])
    g, printed = captured(lambda: make(True))
    lines = training_lines(printed + '\n')
    ctx.equal([l[0] for l in lines],
              [i for k in kw['n_iterations'] for i in range(k)],
              'reported iterations')
    x = ims[0].landmarks['PTS']
    p, q = [h.fit_from_shape(ims[0], x).final_shape.points for h in (f, g)]
    ctx.close(q, p, 'verbose training', rtol=0, atol=1e-6)
    text, printed = captured(lambda: str(f))
    ctx.equal(printed, '', 'output of the description')
    ctx.equal(str(g), text, 'description of the verbosely trained fitter')
    ctx.check(text.startswith(head0), 'no description of the model')
    head, rest = blocks(ctx, text[len(head0):], s['scales'], alg)
    ctx.check(letters(head).startswith('superviseddescent'), 'title')
    ctx.equal(re.findall(r'using the (\w+) algorithm', head), [alg],
              'algorithm')
    ctx.equal(after(ctx, head, 'regression class', alg),
              regression_name(alg), 'regression')
    ctx.equal(int(after(ctx, head, 'perturbations generated per shape', alg)),
              kw['n_perturbations'], 'perturbations')
    ctx.equal(after(ctx, head, 'custom perturbation scheme used', alg),
              'my_box' if s['own'] else 'False', 'perturbation scheme')
    if not head0:
        diagonal(ctx, head, f.reference_shape, s['diag'], alg)
    for k, t in enumerate(rest):
        wk = '%s, scale %d' % (alg, k)
        ctx.equal(number(ctx, t, 'iterations', wk), kw['n_iterations'][k],
                  '%s: iterations' % wk)
        if not head0:
            ctx.equal(ints(after(ctx, t, 'patch shape', wk)),
                      tuple(s['ps'][k]), '%s: patch shape' % wk)
            ctx.equal(after(ctx, t, 'holistic feature', wk), s['feats'][k],
                      '%s: feature' % wk)
            ctx.equal(after(ctx, t, 'patch feature', wk), s['pf'][k],
                      '%s: patch feature' % wk)


@facet(P, 'lucas_kanade', st.fixed_dictionaries(dict(
    seed=gen.seeds, alg=st.sampled_from(fams.LK_ALGS),
    res=st.sampled_from(fams.LK_RES),
    scales=st.sampled_from([[1.], [.5, 1.], [.6, .8], [.5, .75, 1.]]),
    diag=st.sampled_from([None, 30, 41.26]), c=st.integers(1, 2),
    feats=st.lists(st.sampled_from(sorted(FEATS)), min_size=3, max_size=3),
    t=st.integers(0, 1))), quick=60)
def lucas_kanade(ctx, s):
    """Lucas-Kanade fitters describe algorithm, residual, motion, features and
    templates."""
    n = len(s['scales'])
    im = gen.image_set(s['seed'], 1, 5, size=(60, 62), n_channels=s['c'])[0]
    T = [DifferentiableAlignmentAffine, DifferentiableAlignmentSimilarity][
        s['t']]
    f, printed = captured(lambda: fams.lk_fitter(
        im, s['alg'], s['res'], scales=s['scales'], diagonal=s['diag'],
        transform=T, holistic_features=[FEATS[x] for x in s['feats'][:n]]))
    ctx.equal(printed, '', 'output')
    ctx.label('%s %s' % (s['alg'], s['res']))
    head, rest = blocks(ctx, str(f), s['scales'], 'LK')
    h = letters(head)
    ctx.check(h.startswith('lucaskanade' + letters(s['alg'])), 'algorithm in '
              '%r', head)
    got = [k for k in RES_NAMES if RES_NAMES[k] in h]
    if 'FourierSSD' in got:
        got.remove('FourierSSD') if s['res'] != 'FourierSSD' else None
    ctx.equal([g for g in got if g != 'SSD' or s['res'] != 'FourierSSD'],
              [s['res']], 'residual in %r' % head)
    ctx.equal(re.findall(r'warped with (\w+) transform', head), [T.__name__],
              'transform')
    # (the template is resized to whole pixels)
    diagonal(ctx, head, f.reference_shape, s['diag'], 'LK', 2.5)
    for k, t in enumerate(rest):
        wk = 'scale %d' % k
        ctx.equal(after(ctx, t, 'holistic feature', wk), s['feats'][k],
                  '%s: feature' % wk)
        ctx.equal(ints(after(ctx, t, 'template shape', wk)),
                  f.templates[k].pixels.shape[1:], '%s: template' % wk)


def significant(x, text, what, ctx):
    """text is x to two significant digits."""
    ctx.check(abs(float(text) - x) <= .051 * abs(x) + 1e-300 or
              '{:.2}'.format(x) == text, '%s: %s instead of %r', what, text,
              x)


@facet(P, 'shape_models', st.fixed_dictionaries(dict(
    seed=gen.seeds, cls=st.integers(0, 2), n=st.integers(4, 9),
    pts=st.integers(3, 7), lim=st.sampled_from([None, None, 2]),
    active=st.sampled_from([None, None, 1, 2]), more=st.integers(0, 3))),
    quick=200)
def shape_models(ctx, s):
    """Descriptions of shape models tell sizes and variances."""
    cls = [PDM, GlobalPDM, OrthoPDM][s['cls']]
    shapes = gen.shape_set(s['seed'], s['n'] + s['more'], s['pts'])
    kw = {}
    if s['cls'] == 1:
        kw['global_transform_cls'] = DifferentiableAlignmentSimilarity
    m = cls(shapes[:s['n']], max_n_components=s['lim'], **kw)
    if s['more']:
        m.increment(shapes[s['n']:], max_n_components=s['lim'])
        ctx.label('incremented')
    if s['active']:
        m.n_active_components = min(s['active'], m.model.n_components)
        ctx.label('limited')
    ctx.label(cls.__name__)
    t, printed = captured(lambda: str(m))
    ctx.equal(printed, '', 'output of the description')
    get = lambda key: after(ctx, t, key, cls.__name__)
    n_all = len(m.model.components) if s['active'] is None else \
        m.model.n_components
    n_act = m.n_active_components
    ctx.equal(int(get(r'# features')), 2 * s['pts'], 'features')
    ctx.equal(get('- centred'), 'True', 'centred')
    if s['cls'] < 2:
        ctx.equal(int(get('# active components')), n_act, 'active components')
        ctx.equal(int(get('total # components')), n_all, 'components')
    else:
        ctx.equal(int(get('# similarity components')), 4, 'similarity')
        ctx.equal(int(get('# PCA components')), n_all, 'components')
        ctx.equal(int(get('total # components')), n_all + 4, 'all components')
        ctx.equal(ints(get('# active components')), (4, n_act, 4 + n_act),
                  'active components')
        ctx.equal(len(m.as_vector()), 4 + n_act, 'parameters')
    ctx.equal(ints(get('components shape')), (n_act, 2 * s['pts']),
              'shape of the components')
    kept = get('kept variance').split()
    noise = get('noise variance').split()
    significant(m.model.variance(), kept[0], 'kept variance', ctx)
    total = m.model.original_variance()
    ratio = np.sum(m.model.eigenvalues[:n_act]) / total
    ctx.check(abs(float(kept[1].rstrip('%')) - 100 * ratio) <= .0501,
              'kept %s instead of %r', kept[1], ratio)
    significant(np.sum(m.model.eigenvalues[:n_act]), kept[0],
                'kept variance', ctx)
    significant(m.model.noise_variance(), noise[0], 'noise variance', ctx)
    ctx.check(abs(float(noise[1].rstrip('%')) - 100 * m.model.noise_variance()
                  / total) <= .0501, 'noise %s', noise[1])


@facet(P, 'experts', st.fixed_dictionaries(dict(
    seed=gen.seeds, pts=st.integers(3, 6), ph=st.integers(3, 9),
    pw=st.integers(3, 9), extra=st.integers(0, 8), cos=st.booleans(),
    norm=st.sampled_from(sorted(PFEATS)))), quick=60)
def experts(ctx, s):
    """Descriptions of ensembles of experts tell sizes and options."""
    ims = gen.image_set(s['seed'], 3, s['pts'], size=(44, 46), noise=.05)
    c = (s['ph'] + s['extra'], s['pw'] + 2 * s['extra'])
    e, printed = captured(lambda: CorrelationFilterExpertEnsemble(
        ims, [i.landmarks['PTS'] for i in ims],
        patch_shape=(s['ph'], s['pw']), context_shape=c,
        cosine_mask=s['cos'], patch_normalisation=PFEATS[s['norm']]))
    ctx.equal(printed, '', 'output of quiet training')
    t = str(e)
    ctx.equal(number(ctx, t, 'experts', 'ensemble'), s['pts'], 'experts')
    ctx.equal(ints(after(ctx, t, 'patch shape', 'ensemble')),
              (s['ph'], s['pw']), 'patch shape')
    ctx.equal(ints(after(ctx, t, 'context shape', 'ensemble')), c, 'context')
    ctx.equal(after(ctx, t, 'cosine mask', 'ensemble'), str(s['cos']), 'mask')
    ctx.equal(after(ctx, t, 'patch normalisation', 'ensemble'), s['norm'],
              'normalisation')


METRICS = [None, err.root_mean_square_bb_normalised_error,
           err.euclidean_bb_normalised_error,
           lambda a, b, gt: err.euclidean_error(a, b)]


@facet(P, 'progress', st.fixed_dictionaries(dict(
    seed=gen.seeds, alg=st.sampled_from(fams.SDMS), n=st.integers(3, 5),
    pts=st.integers(4, 6), iters=st.integers(1, 3),
    counts=st.lists(st.integers(1, 4), min_size=5, max_size=5),
    metric=st.integers(0, 3), alpha=st.sampled_from([1e-2, .1, 1.]),
    noise=st.sampled_from([.05, .3]))), quick=300)
def progress(ctx, s):
    """The reported training errors are those of the shapes each iteration
    ends with."""
    alg = s['alg']
    iters = s['iters']
    kw = {}
    if 'PCR' in alg or 'Optimal' in alg or 'OPP' in alg:
        iters = 1
    elif 'Gauss' in alg or 'Guass' in alg:
        kw = dict(alpha=s['alpha'], alpha2=s['alpha'])
    else:
        kw = dict(alpha=s['alpha'])
    metric = METRICS[s['metric']]
    if metric is not None:
        kw['compute_error'] = metric
    ims = gen.image_set(s['seed'], n_images=s['n'], n_pts=s['pts'],
                        noise=s['noise'])
    gts = [im.landmarks['PTS'] for im in ims]
    rs = gen.rng(s['seed'], 5)
    starts = [[PointCloud(g.points + rs.uniform(-3, 3, 2) +
                          rs.randn(*g.points.shape))
               for _ in range(max(2, s['counts'][k % 5]))]
              for k, g in enumerate(gts)]
    copy = lambda: [[x.copy() for x in r] for r in starts]
    make = lambda k: getattr(sdm, alg)(n_iterations=k, patch_shape=(5, 6),
                                       **kw)
    ctx.label(alg)
    out, printed = captured(lambda: make(iters).train(
        ims, gts, copy(), prefix='  - ', verbose=True))
    lines = training_lines(printed + '\n')
    ctx.equal([l[0] for l in lines], list(range(iters)),
              'reported iterations')
    for k in range(iters):
        end, printed = captured(lambda: make(k + 1).train(ims, gts, copy()))
        ctx.equal(printed, '', 'output of quiet training')
        if k == iters - 1:
            for a, b in zip(out, end):
                ctx.close([x.points for x in a], [x.points for x in b],
                          'verbose training', rtol=0, atol=1e-6)
        e = []
        model = OrthoPDM(gts) if alg in fams.PS_SDM else None
        f = metric or err.euclidean_bb_normalised_error
        for g, r in zip(gts, end):
            t = g
            if model is not None:
                model.set_target(g)
                t = PointCloud(model.target.points.copy())
            e += [f(x, t, g) for x in r]
        own = (k, np.mean(e), np.std(e), np.median(e))
        for nm, a, b in zip(('mean', 'deviation', 'median'), lines[k][1:],
                            own[1:]):
            # (increments of parameters are compared at the mean shape)
            tol = 1e-6 * abs(b) if model is None else .25 * abs(b) + 1e-3
            ctx.check(abs(a - b) <= 5.1e-5 + tol,
                      '%s of the errors of iteration %d: %r instead of %r',
                      nm, k, a, b)


@facet(P, 'results', st.fixed_dictionaries(dict(
    seed=gen.seeds, kind=st.sampled_from(['aam_holistic', 'atm_patch', 'clm',
                                          'aps', 'lk', 'sdm']),
    gt=st.booleans(), iters=st.integers(0, 3))), quick=60)
def results(ctx, s):
    """Results print their errors, if there is a ground truth."""
    ims = gen.image_set(s['seed'], 6, 5, size=(44, 46), noise=.05)
    kind = s['kind']
    if kind == 'lk':
        f = fams.lk_fitter(ims[0], diagonal=30)
    elif kind == 'sdm':
        f = fams.sdm_fitter(ims, ridge=.5)
    else:
        kw = dict(max_appearance_components=3) if kind in ('aps',) else {}
        f = fams.fitter(kind, fams.make(kind, ims, **kw))
    ctx.label(kind)
    g = ims[0].landmarks['PTS']
    kw = {} if kind == 'sdm' else dict(max_iters=s['iters'])
    try:
        r, printed = captured(lambda: f.fit_from_shape(
            ims[0], gen.perturb(g, s['seed'], 1.),
            gt_shape=g if s['gt'] else None, **kw))
    except np.linalg.LinAlgError:
        raise Discard()
    ctx.equal(printed, '', 'output of fitting')
    t, printed = captured(lambda: str(r))
    ctx.equal(printed, '', 'output of the description')
    ctx.equal(number(ctx, t, 'landmark points', kind), 5, 'points')
    vals = re.findall(r'(?im)^\W*(.*) error: (%s)' % NUM, t)
    exp = []
    if s['gt']:
        exp = [('Initial', r.initial_error())]
        if hasattr(r, 'reconstructed_initial_error'):
            exp.append(('Reconstructed initial',
                        r.reconstructed_initial_error()))
        exp.append(('Final', r.final_error()))
    ctx.equal([v[0] for v in vals], [e[0] for e in exp], 'errors')
    for v, e in zip(vals, exp):
        ctx.check(abs(float(v[1]) - e[1]) <= 5.1e-5, '%s error: %s instead of '
                  '%r', e[0], v[1], e[1])
