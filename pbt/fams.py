"""Small instances of every model family, built through the public API."""
import numpy as np
from functools import partial

from menpo.shape import UndirectedGraph, PointCloud
from menpofit import aam, atm, clm, aps, sdm, lk
from menpofit import unified_aam_clm as uni
from menpofit.transform import (DifferentiablePiecewiseAffine,
                                DifferentiableThinPlateSplines)

AAMS = {'holistic': aam.HolisticAAM, 'masked': aam.MaskedAAM,
        'linear': aam.LinearAAM, 'linear_masked': aam.LinearMaskedAAM,
        'patch': aam.PatchAAM}
ATMS = {'holistic': atm.HolisticATM, 'masked': atm.MaskedATM,
        'linear': atm.LinearATM, 'linear_masked': atm.LinearMaskedATM,
        'patch': atm.PatchATM}
USES_PATCH = ('masked', 'linear_masked', 'patch')
AAM_ALGS = ['ProjectOutForwardCompositional',
            'ProjectOutInverseCompositional',
            'SimultaneousForwardCompositional',
            'SimultaneousInverseCompositional',
            'AlternatingForwardCompositional',
            'AlternatingInverseCompositional',
            'ModifiedAlternatingForwardCompositional',
            'ModifiedAlternatingInverseCompositional',
            'WibergForwardCompositional',
            'WibergInverseCompositional']
MODEL_KINDS = ['aam_' + k for k in sorted(AAMS)] + \
    ['atm_' + k for k in sorted(ATMS)] + ['clm', 'aps', 'uni']


def chain(n):
    return UndirectedGraph.init_from_edges(
        np.array([[i, i + 1] for i in range(n - 1)]), n)


def make(kind, ims, group='PTS', **kw):
    """kw: scales, patch_shape, max_shape_components, ... passed on when the
    family has the option."""
    ps = kw.pop('patch_shape', (9, 9))
    ctx_shape = kw.pop('context_shape', (17, 17))
    ma = kw.pop('max_appearance_components', None)
    extra = kw.pop('extra', {})
    kw.setdefault('diagonal', 30)
    kw.update(extra)
    if kind.startswith('aam_'):
        k = kind[4:]
        if k in USES_PATCH:
            kw['patch_shape'] = ps
        return AAMS[k](ims, group=group, max_appearance_components=ma, **kw)
    if kind.startswith('atm_'):
        k = kind[4:]
        if k in USES_PATCH:
            kw['patch_shape'] = ps
        template = kw.pop('template', ims[0])
        return ATMS[k](template, [i.landmarks[group] for i in ims],
                       group=group, **kw)
    if kind == 'clm':
        return clm.CLM(ims, group=group, patch_shape=ps,
                       context_shape=ctx_shape, **kw)
    if kind == 'aps':
        n = ims[0].landmarks[group].n_points
        kw.setdefault('appearance_graph', chain(n))
        return aps.GenerativeAPS(ims, group=group, patch_shape=ps,
                                 n_appearance_components=ma, **kw)
    if kind == 'uni':
        return uni.UnifiedAAMCLM(ims, group=group, patch_shape=ps,
                                 context_shape=ctx_shape,
                                 max_appearance_components=ma, **kw)
    raise KeyError(kind)


def tolerant(cls, eps):
    """The algorithm with another convergence tolerance."""
    return cls if eps is None else partial(cls, eps=eps)


def fitter(kind, model, alg=None, eps=None, **kw):
    if kind.startswith('aam_'):
        alg = alg or 'WibergInverseCompositional'
        return aam.LucasKanadeAAMFitter(
            model, lk_algorithm_cls=tolerant(getattr(aam, alg), eps), **kw)
    if kind.startswith('atm_'):
        alg = alg or 'InverseCompositional'
        return atm.LucasKanadeATMFitter(
            model, lk_algorithm_cls=tolerant(getattr(atm, alg), eps), **kw)
    if kind == 'clm':
        alg = alg or 'RegularisedLandmarkMeanShift'
        kw.pop('n_appearance', None)
        kw.pop('sampling', None)
        return clm.GradientDescentCLMFitter(
            model, gd_algorithm_cls=tolerant(getattr(clm, alg), eps), **kw)
    if kind == 'aps':
        alg = alg or 'Inverse'
        kw.pop('n_appearance', None)
        return aps.GaussNewtonAPSFitter(
            model, gn_algorithm_cls=tolerant(getattr(aps, alg), eps), **kw)
    if kind == 'uni':
        alg = alg or 'AlternatingRegularisedLandmarkMeanShift'
        return uni.UnifiedAAMCLMFitter(
            model, algorithm_cls=tolerant(getattr(uni, alg), eps), **kw)
    raise KeyError(kind)


ALGS = {'clm': ['RegularisedLandmarkMeanShift', 'ActiveShapeModel'],
        'aps': ['Inverse', 'Forward'],
        'uni': ['ProjectOutRegularisedLandmarkMeanShift',
                'AlternatingRegularisedLandmarkMeanShift']}


def algs(kind):
    if kind.startswith('aam_'):
        return AAM_ALGS
    if kind.startswith('atm_'):
        return ['InverseCompositional', 'ForwardCompositional']
    return ALGS[kind]


def has_appearance(kind):
    return kind.startswith('aam_') or kind == 'uni'


NP_SDM = ['NonParametricNewton', 'NonParametricGaussNewton',
          'NonParametricPCRRegression', 'NonParametricOptimalRegression',
          'NonParametricOPPRegression',
          'ParametricAppearanceProjectOutNewton',
          'ParametricAppearanceMeanTemplateGuassNewton',
          'ParametricAppearanceMeanTemplateNewton',
          'ParametricAppearanceProjectOutGuassNewton',
          'ParametricAppearanceWeightsGuassNewton',
          'ParametricAppearanceWeightsNewton']
PS_SDM = ['ParametricShapeNewton', 'ParametricShapeGaussNewton',
          'ParametricShapeOptimalRegression', 'ParametricShapePCRRegression',
          'ParametricShapeOPPRegression',
          'FullyParametricProjectOutNewton',
          'FullyParametricProjectOutGaussNewton',
          'FullyParametricMeanTemplateNewton', 'FullyParametricWeightsNewton',
          'FullyParametricProjectOutOPP']
SDMS = NP_SDM + PS_SDM
LK_ALGS = ['ForwardAdditive', 'ForwardCompositional', 'InverseCompositional']
LK_RES = ['SSD', 'FourierSSD', 'ECC', 'GradientImages', 'GradientCorrelation']


def sdm_fitter(ims, alg='NonParametricNewton', group='PTS', ridge=1e-2, **kw):
    kw.setdefault('patch_shape', (7, 7))
    kw.setdefault('n_perturbations', 4)
    kw.setdefault('n_iterations', 2)
    kw.setdefault('diagonal', 30)
    cls = getattr(sdm, alg)
    o = {}
    if alg.endswith('Newton') or alg.endswith('NewtonRegression'):
        o['alpha'] = ridge
    if 'Gauss' in alg or 'Guass' in alg:
        o['alpha2'] = ridge
    f = partial(cls, **o) if o else cls
    return sdm.SupervisedDescentFitter(ims, group=group, sd_algorithm_cls=f,
                                       **kw)


def lk_fitter(template, alg='InverseCompositional', res='SSD', group='PTS',
              eps=None, **kw):
    kw.setdefault('diagonal', 40)
    return lk.LucasKanadeFitter(template, group=group,
                                algorithm_cls=tolerant(getattr(lk, alg), eps),
                                residual_cls=getattr(lk, res), **kw)
