"""P04: per-scale options and model complexity limits mean what they say."""
from functools import partial

import numpy as np
from hypothesis import strategies as st

from menpo.feature import no_op, ndfeature
from menpo.shape import (UndirectedGraph, DirectedGraph, Tree, PointCloud)
from menpo.transform import AlignmentSimilarity
from menpofit import checks, aam, sdm
from menpofit.modelinstance import PDM, OrthoPDM
from menpofit.lk import algorithm as lkalg
from ..core import facet, Discard
from .. import gen, fams

P = 'P04'
BAD = (ValueError, TypeError)


@ndfeature
def feat_sq(pixels):
    return np.concatenate([pixels, pixels ** 2])


@ndfeature
def feat_neg(pixels):
    return 1. - pixels


@ndfeature
def feat_half(pixels):
    return .1 + .5 * pixels


# features are what they compute, not what they are called
for _f in (feat_sq, feat_neg, feat_half):
    _f.__name__ = 'feature'


FEATS = {'no_op': no_op, 'sq': feat_sq, 'neg': feat_neg}

# ---------------------------------------------------------------- expanders
n_scales = st.integers(1, 4)
num = st.one_of(st.integers(1, 3), st.sampled_from([.25, .5, 1., 2.]))


@facet(P, 'scales', st.fixed_dictionaries(
    {'v': st.one_of(num, st.lists(num, min_size=0, max_size=4)),
     'bad': st.sampled_from([None, 'x', 'none', 'nested']),
     'tup': st.booleans()}), quick=80)
def scales(ctx, s):
    """A scale or a list/tuple of scales becomes the flat list of scales;
    anything else is rejected."""
    v = s['v']
    if s['bad'] is not None:
        b = {'x': 'x', 'none': None, 'nested': []}[s['bad']]
        v = (list(v) if isinstance(v, list) else [v]) + [b]
        ctx.raises(BAD, lambda: checks.check_scales(v), 'bad scale %r' % (v,))
        return
    if isinstance(v, list) and s['tup']:
        v = tuple(v)
    if isinstance(v, (list, tuple)) and not len(v):
        ctx.raises(BAD, lambda: checks.check_scales(v), 'no scales')
        return
    exp = list(v) if isinstance(v, (list, tuple)) else [v]
    got = checks.check_scales(v)
    ctx.check(isinstance(got, list), 'not a list')
    ctx.equal(got, exp, 'scales')


def expect(v, n, ok):
    """Reference expansion: value | [value] | one value per scale."""
    if not isinstance(v, (list, tuple)):
        return [v] * n if ok(v) else None
    if not all(ok(x) for x in v):
        return None
    if len(v) == 1:
        return list(v) * n
    if len(v) == n:
        return list(v)
    return None


def decode(form, vals, n):
    k = form['kind']
    if k == 'scalar':
        return vals[0]
    m = {'one': 1, 'n': n, 'other': form['len']}[k]
    v = [vals[i % len(vals)] for i in range(m)]
    return tuple(v) if form['tup'] else v


form = st.fixed_dictionaries({
    'kind': st.sampled_from(['scalar', 'one', 'n', 'n', 'other']),
    'len': st.integers(0, 5), 'tup': st.booleans()})


@facet(P, 'expanders', st.fixed_dictionaries({
    'which': st.sampled_from(['callable', 'components', 'param', 'graph',
                              'algorithm', 'sampling']),
    'n': n_scales, 'form': form,
    'picks': st.lists(st.integers(0, 5), min_size=5, max_size=5),
    'bad_at': st.one_of(st.none(), st.none(), st.integers(0, 4))}), quick=600)
def expanders(ctx, s):
    """value / one-element list / one-per-scale list expand to one value per
    scale in order; wrong lengths and wrong types are rejected."""
    n, w = s['n'], s['which']
    g = UndirectedGraph.init_from_edges(np.array([[0, 1]]), 2)
    g3 = UndirectedGraph.init_from_edges(np.array([[0, 1], [1, 2]]), 3)
    pools = {
        'callable': [no_op, feat_sq, feat_neg, np.sin],
        'components': [None, 3, 7, .5, .98],
        'param': [1, 2, 200., .5],
        'graph': [g, g3, None],
        'algorithm': [lkalg.InverseCompositional, lkalg.ForwardAdditive,
                      partial(lkalg.ForwardCompositional)],
        'sampling': [None, 2, 3, np.int64(4), np.array([0, 2, 5]),
                     np.array([True, False, True])],
    }
    bads = {'callable': 3, 'components': 'a', 'param': 'a', 'graph': 'a',
            'algorithm': 5, 'sampling': 'a'}
    vals = [pools[w][i % len(pools[w])] for i in s['picks']]
    if s['bad_at'] is not None:
        vals[s['bad_at']] = bads[w]
    fm = dict(s['form'])
    if w == 'graph':
        fm['tup'] = False
    v = decode(fm, vals, n)
    ok = {
        'callable': callable,
        'components': lambda x: x is None or isinstance(x, (int, float)),
        'param': lambda x: isinstance(x, (int, float)),
        'graph': lambda x: x is None or type(x) is UndirectedGraph,
        'algorithm': lambda x: isinstance(x, partial) or isinstance(x, type),
        'sampling': lambda x: x is None or isinstance(
            x, (int, np.integer, np.ndarray)),
    }[w]
    call = {
        'callable': lambda: checks.check_callable(v, n),
        'components': lambda: checks.check_max_components(v, n, 'x'),
        'param': lambda: checks.check_multi_scale_param(n, (int, float), 'x',
                                                        v),
        'graph': lambda: checks.check_graph(v, UndirectedGraph, 'x', n),
        'algorithm': lambda: checks.check_algorithm_cls(
            v, n, lkalg.LucasKanade),
        'sampling': lambda: checks.check_sampling(v, n),
    }[w]
    exp = expect(v, n, ok)
    ctx.label(w + ('/reject' if exp is None else ''))
    if exp is None:
        ctx.raises(BAD + (IndexError, AttributeError)
                   if s['bad_at'] is not None else BAD,
                   call, '%s with %d scales: %r' % (w, n, v))
        return
    got = call()
    ctx.equal(len(got), n, '%s: number of values for %d scales' % (w, n))
    for a, b in zip(got, exp):
        ctx.check(a is b or (type(a) is type(b) and np.array_equal(a, b)),
                  '%s: %r expands to %r', w, v, got)


ps = st.tuples(st.integers(1, 40), st.integers(1, 40))


@facet(P, 'patch_shapes', st.fixed_dictionaries({
    'n': n_scales, 'kind': st.sampled_from(['single', 'one', 'n', 'other']),
    'len': st.integers(1, 6), 'v': st.lists(ps, min_size=6, max_size=6),
    'outer': st.booleans(), 'inner': st.booleans()}), quick=200)
def patch_shapes(ctx, s):
    """One (h, w) or one per scale."""
    n = s['n']
    v = [(list if s['inner'] else tuple)(p) for p in s['v']]
    if s['kind'] == 'single':
        arg, exp = v[0], [v[0]] * n
    else:
        m = {'one': 1, 'n': n, 'other': s['len']}[s['kind']]
        arg = (list if s['outer'] else tuple)(v[:m])
        exp = v[:m] if m == n else [v[0]] * n if m == 1 else None
    if exp is None:
        ctx.raises(BAD, lambda: checks.check_patch_shape(arg, n),
                   'wrong number of patch shapes')
        return
    got = checks.check_patch_shape(arg, n)
    ctx.equal([tuple(p) for p in got], [tuple(p) for p in exp],
              'patch shapes for %d scales' % n)


@facet(P, 'iterations', st.fixed_dictionaries({
    'n': n_scales, 'v': st.lists(st.integers(0, 60), min_size=1, max_size=5),
    'kind': st.sampled_from(['scalar', 'one', 'n', 'other'])}), quick=200)
def iterations(ctx, s):
    """A total is shared evenly over the scales (to the nearest integer); a
    per-scale list is taken as given; other lengths are rejected."""
    n, v = s['n'], s['v']
    if s['kind'] == 'scalar':
        arg = v[0]
    elif s['kind'] == 'one':
        arg = [v[0]]
    elif s['kind'] == 'n':
        arg = [v[i % len(v)] for i in range(n)]
    else:
        arg = v
    if isinstance(arg, list) and len(arg) not in (1, n):
        ctx.raises(BAD, lambda: checks.check_max_iters(arg, n), 'length')
        return
    got = list(checks.check_max_iters(arg, n))
    ctx.equal(len(got), n, 'length')
    ctx.check(all(int(x) == x for x in got), 'not integers: %r', got)
    if isinstance(arg, list) and len(arg) == n:
        ctx.equal([int(x) for x in got], arg, 'per scale iterations')
    else:
        t = arg[0] if isinstance(arg, list) else arg
        ctx.check(all(abs(x - t / n) <= .5 for x in got),
                  '%d iterations over %d scales became %r', t, n, got)


@facet(P, 'diagonal', st.fixed_dictionaries(
    {'v': st.one_of(st.none(), st.integers(-5, 300), st.floats(0, 300),
                    st.sampled_from([19, 20, 20., 19.999, 0, 21]))}),
       quick=60)
def diagonal(ctx, s):
    """Diagonals below 20 pixels are rejected, others returned untouched."""
    v = s['v']
    if v is not None and v < 20:
        ctx.raises(ValueError, lambda: checks.check_diagonal(v), 'diagonal')
    else:
        ctx.equal(checks.check_diagonal(v), v, 'diagonal')


# ------------------------------------------------------------------ models
def smallest_k(ev, ratio, noise=0.):
    c = np.cumsum(ev) / (np.sum(ev) + noise)
    return int((c < ratio - 1e-12).sum()) + 1, \
        np.min(np.abs(c - ratio)) < 1e-9


@facet(P, 'active_components', st.fixed_dictionaries({
    'seed': gen.seeds, 'n_shapes': st.integers(4, 9),
    'scales': st.integers(1, 3), 'n_pts': st.integers(5, 9),
    'form': form, 'vals': st.lists(st.one_of(
        st.integers(1, 9), st.sampled_from([.3, .6, .9, .95]), st.none()),
        min_size=3, max_size=3), 'ortho': st.booleans(),
    'again': st.booleans()}), quick=250)
def active_components(ctx, s):
    """An integer keeps that many components (all if fewer exist), a ratio
    keeps the fewest components reaching that share of variance, None keeps
    the current number."""
    n = s['scales']
    C = OrthoPDM if s['ortho'] else PDM
    models = [C(gen.shape_set(s['seed'] + i, s['n_shapes'] + i, s['n_pts'],
                              amp=.1)) for i in range(n)]
    if s['form']['kind'] == 'other' and s['form']['len'] not in (1, n):
        v = [2] * s['form']['len']
        ctx.raises(BAD, lambda: checks.set_models_components(models, v),
                   'wrong number of values')
        return
    v = decode(dict(s['form'], kind='n' if s['form']['kind'] == 'other'
                    else s['form']['kind']), s['vals'], n)
    if s['again']:
        checks.set_models_components(models, 1)
    before = [m.n_active_components for m in models]
    checks.set_models_components(models, v)
    exp = list(v) * (n if len(v) == 1 else 1) \
        if isinstance(v, (list, tuple)) else [v] * n
    for m, e, b in zip(models, exp, before):
        tot = m.model.n_components
        if e is None:
            k = b
        elif isinstance(e, int):
            k = min(e, tot)
        else:
            k, tie = smallest_k(m.model._eigenvalues, e)
            if tie:
                ctx.nontrivial(False)
                continue
        ctx.equal(m.n_active_components, k, 'active components for %r of %d'
                  % (e, tot))
        ctx.equal(m.n_weights, k, 'number of weights')
        ctx.equal(len(m.weights), k, 'length of the weights')


@facet(P, 'model_limits', st.fixed_dictionaries({
    'seed': gen.seeds, 'kind': st.sampled_from(fams.MODEL_KINDS),
    'scales': st.sampled_from([[1.], [.5, 1.], [.5, .75, 1.]]),
    'ms': form, 'msv': st.lists(st.one_of(st.none(), st.integers(1, 6)),
                                min_size=3, max_size=3),
    'ma': form, 'mav': st.lists(st.integers(1, 6), min_size=3, max_size=3),
    'fs': st.one_of(st.none(), st.integers(1, 5)),
    'fa': st.one_of(st.none(), st.integers(1, 5)),
    'fit': st.booleans()}), quick=160)
def model_limits(ctx, s):
    """Component limits given when a model is trained or a fitter is built
    are honoured at every scale and in every parameter vector."""
    n, kind = len(s['scales']), s['kind']
    ims = gen.image_set(s['seed'], n_images=6, n_pts=6)

    def dec(f, vals):
        k = f['kind'] if f['kind'] != 'other' else 'n'
        v = decode(dict(f, kind=k), vals, n)
        e = list(v) * (n if len(v) == 1 else 1) \
            if isinstance(v, (list, tuple)) else [v] * n
        return v, e
    ms, mse = dec(s['ms'], s['msv'])
    ma, mae = dec(s['ma'], s['mav'])
    if kind == 'uni':
        mse = [3 if x is None else min(x, 3) for x in mse]
        mae = [min(x, 3) for x in mae]
        ms, ma = list(mse), list(mae)
    ctx.label(kind)
    kw = {}
    if fams.has_appearance(kind):
        kw['max_appearance_components'] = ma
    if kind == 'aps':
        kw['max_appearance_components'] = [20] * n
    m = fams.make(kind, ims, scales=s['scales'], max_shape_components=ms, **kw)
    ctx.equal(len(m.shape_models), n, 'one shape model per scale')
    ctx.equal(m.n_scales, n, 'n_scales')
    avail = 5      # six images span five deformations, some of them rigid
    for sm, lim in zip(m.shape_models, mse):
        k = sm.model.n_components
        if lim is None:
            ctx.check(k >= 1, 'no components')
        else:
            ctx.check(k == min(lim, avail) or
                      (k < min(lim, avail) and lim > 3),
                      '%d shape components, limit %d', k, lim)
    if fams.has_appearance(kind):
        for am, lim in zip(m.appearance_models, mae):
            ctx.equal(am.n_components, min(lim, avail), 'appearance components')
    fkw = {}
    if fams.has_appearance(kind):
        fkw['n_appearance'] = s['fa']
    f = fams.fitter(kind, m, n_shape=s['fs'], **fkw)
    ks = []
    for sm in m.shape_models:
        tot = sm.model.n_components
        ks.append(tot if s['fs'] is None else min(s['fs'], tot))
        ctx.equal(sm.n_active_components, ks[-1], 'fitter n_shape')
    if fams.has_appearance(kind):
        for am in m.appearance_models:
            tot = am.n_components
            ctx.equal(am.n_active_components,
                      tot if s['fa'] is None else min(s['fa'], tot),
                      'fitter n_appearance')
    ctx.equal(f.n_scales, n, 'fitter scales')
    if s['fit']:
        r = f.fit_from_shape(ims[1], ims[1].landmarks['PTS'], max_iters=[1] * n)
        for i, p in enumerate(r.shape_parameters):
            j = min(i // 2, n - 1)
            ctx.equal(len(p), 4 + ks[j], 'length of the shape parameters at '
                      'scale %d' % j)


@facet(P, 'spelled_out', st.fixed_dictionaries({
    'seed': gen.seeds, 'kind': st.sampled_from(fams.MODEL_KINDS),
    'scales': st.sampled_from([[1.], [.5, 1.], [.5, .75, 1.]]),
    'feat': st.sampled_from(sorted(FEATS)),
    'form': st.sampled_from(['one', 'n']),
    'patch': st.sampled_from([(7, 7), (9, 7)]),
    'tup': st.booleans()}), quick=120)
def spelled_out(ctx, s):
    """A model trained with a single option value is the model trained with
    that value spelled out for every scale."""
    kind, n = s['kind'], len(s['scales'])
    ims = gen.image_set(s['seed'], n_images=4, n_pts=5, size=(44, 46))
    lim = {}
    if fams.has_appearance(kind):
        lim['max_appearance_components'] = 2
    if kind == 'aps':
        lim['max_appearance_components'] = 4
    f = FEATS[s['feat']]
    a = fams.make(kind, ims, scales=s['scales'][0] if n == 1 else s['scales'],
                  holistic_features=f, patch_shape=s['patch'],
                  max_shape_components=2, **lim)
    m = 1 if s['form'] == 'one' else n
    w = tuple if s['tup'] else list

    def many(v):
        return w([v] * m)
    lim = {k: many(v) for k, v in lim.items()}
    b = fams.make(kind, ims, scales=w(s['scales']),
                  holistic_features=many(f), patch_shape=many(s['patch']),
                  context_shape=many((17, 17)),
                  max_shape_components=many(2), **lim)
    ctx.label(kind)
    fa, fb = fams.fitter(kind, a), fams.fitter(kind, b)
    x = ims[0].landmarks['PTS']
    start = gen.perturb(x, s['seed'], .5, 1.)
    ra = fa.fit_from_shape(ims[0], start, max_iters=2 * n)
    rb = fb.fit_from_shape(ims[0], start, max_iters=[2] * n)
    ctx.close(ra.final_shape.points, rb.final_shape.points,
              'fits of the two models differ', rtol=1e-7)
    for p, q in zip(a.shape_models, b.shape_models):
        ctx.close(p.model.components, q.model.components, 'shape components',
                  rtol=1e-8)


@facet(P, 'features_per_scale', st.fixed_dictionaries({
    'seed': gen.seeds,
    'kind': st.sampled_from(['aam_holistic', 'aam_patch', 'atm_holistic',
                             'atm_patch', 'clm', 'aps', 'uni']),
    'feats': st.lists(st.sampled_from(sorted(FEATS)), min_size=1, max_size=3)}),
       quick=100)
def features_per_scale(ctx, s):
    """The feature given for a scale is the feature used at that scale, in
    training and in fitting, whatever the other scales use."""
    kind, n = s['kind'], len(s['feats'])
    ims = gen.image_set(s['seed'], n_images=4, n_pts=5, size=(44, 46))
    fs = [FEATS[f] for f in s['feats']]
    lim = {'max_shape_components': 2}
    if fams.has_appearance(kind):
        lim['max_appearance_components'] = 2
    if kind == 'aps':
        lim['max_appearance_components'] = 4
    sc = [.5, .75, 1.][-n:]
    ref = PointCloud(ims[1].landmarks['PTS'].points)
    m = fams.make(kind, ims, scales=sc, holistic_features=fs, diagonal=None,
                  reference_shape=ref, **lim)
    f = fams.fitter(kind, m)
    # a moved mean, which every projection onto a shape model reproduces
    mean = m.shape_models[-1].model.mean()
    mean = PointCloud(mean.points)
    gt = ims[0].landmarks['PTS']
    start = AlignmentSimilarity(mean, PointCloud(
        gt.points + gen.rng(s['seed'], 9).uniform(-1, 1, 2))).apply(mean)
    # every scale on its own: model and fitter trained for that scale only
    for j in range(n):
        m1 = fams.make(kind, ims, scales=[sc[j]], holistic_features=fs[j],
                       diagonal=None, reference_shape=ref, **lim)
        ctx.close(m1.shape_models[0].model.components,
                  m.shape_models[j].model.components, 'shape model of a scale')
        if fams.has_appearance(kind):
            ctx.close(m1.appearance_models[0].mean().as_vector(),
                      m.appearance_models[j].mean().as_vector(),
                      'appearance mean of scale %d' % j, rtol=1e-8)
        if kind.startswith('atm'):
            ctx.close(m1.warped_templates[0].as_vector(),
                      m.warped_templates[j].as_vector(), 'template of scale')
        f1 = fams.fitter(kind, m1)
        r1 = f1.fit_from_shape(ims[0], start, max_iters=[2])
        r = f.fit_from_shape(ims[0], start,
                             max_iters=[2 if i == j else 0 for i in range(n)])
        # (later scales re-project the shape, so it may be followed by others)
        def off(one):
            return min(np.max(np.abs(x.points - one.final_shape.points))
                       for x in r.shapes)
        d = off(r1)
        # (patches are centred at rounded positions: the hair by which the
        # models of other scales move the start may decide where a patch lies)
        for x in r.shapes[:j + 2]:
            if d < 5e-3:
                break
            d = min(d, off(f1.fit_from_shape(ims[0], x, max_iters=[2])))
        ctx.check(d < 5e-3, 'iterating only at scale %d of %d is not the fit '
                  'of the model of that scale (off by %.3g pixels)', j, n, d)
    ctx.nontrivial(n > 1)
    ctx.label('-'.join(s['feats']))


@facet(P, 'sampling_step', st.fixed_dictionaries({
    'seed': gen.seeds, 'step': st.integers(1, 6),
    'kind': st.sampled_from(['aam_holistic', 'aam_masked', 'aam_linear',
                             'atm_holistic', 'uni']),
    'alg': st.integers(0, 20), 'how': st.sampled_from(['int', 'np', 'list',
                                                       'idx', 'mask']),
    'scales': st.sampled_from([[1.], [.5, 1.]])}), quick=100)
def sampling_step(ctx, s):
    """A sampling step, the equivalent index array and the equivalent mask
    give the same fit; step 1 is no sampling."""
    kind, k = s['kind'], s['step']
    ims = gen.image_set(s['seed'], n_images=4, n_pts=5, size=(44, 46))
    lim = {'max_shape_components': 2}
    if fams.has_appearance(kind):
        lim['max_appearance_components'] = 2
    n = len(s['scales'])
    al = fams.algs(kind)
    alg = al[s['alg'] % len(al)]
    start = gen.perturb(ims[0].landmarks['PTS'], s['seed'], .4, 1.)

    def fit(sampling):
        m = fams.make(kind, ims, scales=s['scales'], diagonal=45, **lim)
        f = fams.fitter(kind, m, alg, sampling=sampling)
        try:
            r = f.fit_from_shape(ims[0], start, max_iters=[2] * n)
        except np.linalg.LinAlgError:
            # too few sampled pixels for the number of parameters
            raise Discard()
        return r.final_shape, m
    ref, m = fit(None if k == 1 else int(k))
    src = m.warped_templates if kind.startswith('atm') else \
        [a.mean() for a in m.appearance_models]
    nt = [x.n_true_pixels() for x in src]
    if s['how'] == 'int':
        v = int(k)
    elif s['how'] == 'np':
        v = np.int64(k)
    elif s['how'] == 'list':
        v = [int(k)]
    elif s['how'] == 'idx':
        v = [np.arange(0, t, k) for t in nt]
    else:
        v = []
        for t in nt:
            q = np.zeros(t, dtype=bool)
            q[::k] = True
            v.append(q)
    got, _ = fit(v)
    ctx.label(s['how'])
    ctx.nontrivial(s['how'] != 'int' or k == 1)
    ctx.close(got.points, ref.points, 'sampling given as %s' % s['how'],
              rtol=1e-6)
