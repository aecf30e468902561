"""P07: result objects account for the whole run."""
import matplotlib
matplotlib.use('Agg')
import numpy as np
from hypothesis import strategies as st

from menpo.feature import no_op
from menpo.image import Image, MaskedImage
from menpo.shape import PointCloud
from menpo.transform import Affine, Scale, UniformScale, Homogeneous
from menpofit.result import (Result, NonParametricIterativeResult,
                             ParametricIterativeResult,
                             MultiScaleNonParametricIterativeResult,
                             MultiScaleParametricIterativeResult)
from menpofit.aam.result import AAMResult, AAMAlgorithmResult
from menpofit.aps.result import APSResult, APSAlgorithmResult
from menpofit.lk.result import LucasKanadeResult, LucasKanadeAlgorithmResult
from menpofit.unified_aam_clm.result import (UnifiedAAMCLMResult,
                                             UnifiedAAMCLMAlgorithmResult)
from menpofit.error import (euclidean_bb_normalised_error, euclidean_error,
                            root_mean_square_error)
from ..core import facet, Discard
from .. import gen, fams
from . import p06

P = 'P07'
METRICS = [None, euclidean_bb_normalised_error, euclidean_error,
           root_mean_square_error,
           lambda a, b: float(np.abs(a.points - b.points).max())]


def cloud(rs, n, off=0.):
    return PointCloud(10. * rs.rand(n, 2) + off)


def metric(i):
    return METRICS[i % len(METRICS)]


def default_error(a, b):
    """point to point, over the mean side of the ground truth's box"""
    r = b.points.max(0) - b.points.min(0)
    return np.mean(np.linalg.norm(a.points - b.points, axis=1)) / np.mean(r)


def apply_metric(m, a, b):
    return default_error(a, b) if m is None else m(a, b)


@facet(P, 'single', st.fixed_dictionaries({
    'seed': gen.seeds, 'n': st.integers(1, 8), 'k': st.integers(1, 7),
    'initial': st.booleans(), 'gt': st.booleans(), 'image': st.booleans(),
    'costs': st.booleans(), 'metric': st.integers(0, 4),
    'cls': st.sampled_from(['result', 'nonparam', 'param', 'aam', 'aps', 'lk',
                            'uni']),
    'flags': st.tuples(st.booleans(), st.booleans(), st.booleans())}),
    quick=400)
def single(ctx, s):
    """Shapes, iteration counts, errors, displacements, costs and parameters
    of a single run are those of the shapes it was built from."""
    rs = gen.rng(s['seed'])
    n, k = s['n'] + 1, s['k']
    shapes = [cloud(rs, n) for _ in range(k)]
    params = [rs.rand(5) for _ in range(k)]
    app = [rs.rand(3) for _ in range(k)]
    init = cloud(rs, n) if s['initial'] else None
    gt = cloud(rs, n) if s['gt'] else None
    im = Image(rs.rand(2, 12, 13)) if s['image'] else None
    costs = list(rs.rand(k)) if s['costs'] else None
    m = metric(s['metric'])
    kw = dict(initial_shape=init, gt_shape=gt, image=im)
    cls = s['cls']
    inp = list(shapes)
    if cls == 'result':
        r = Result(shapes[-1], **kw)
    elif cls == 'nonparam':
        r = NonParametricIterativeResult(inp, costs=costs, **kw)
    elif cls == 'param':
        r = ParametricIterativeResult(inp, params, costs=costs, **kw)
    elif cls == 'aam':
        r = AAMAlgorithmResult(inp, params, app, costs=costs, **kw)
    elif cls == 'uni':
        r = UnifiedAAMCLMAlgorithmResult(inp, params, app, costs=costs, **kw)
    elif cls == 'aps':
        r = APSAlgorithmResult(inp, params, costs=costs,
                               appearance_costs=costs, deformation_costs=app,
                               **kw)
    elif cls == 'lk':
        r = LucasKanadeAlgorithmResult(inp, params, costs=costs, **kw)
    ctx.equal(inp, shapes, 'the list of shapes was modified')
    check_base(ctx, r, shapes[-1], init, gt, im, m)
    ctx.check('%d landmark' % n in str(r), 'str')
    if cls == 'result':
        ctx.equal(r.is_iterative, False, 'is_iterative')
        return
    ctx.equal(r.is_iterative, True, 'is_iterative')
    parametric = cls != 'nonparam'
    exp = ([init] if init is not None else []) + shapes
    check_list(ctx, r.shapes, exp, 'shapes')
    ctx.equal(r.n_iters, k - 1 if parametric else k, 'n_iters')
    check_derived(ctx, r, exp, gt, m)
    ctx.equal(r.costs, costs, 'costs')
    if parametric:
        rec = shapes[0]
        ctx.close(r.reconstructed_initial_shape.points, rec.points, 'rec')
        if gt is not None:
            ctx.close(r.reconstructed_initial_error(m),
                      apply_metric(m, rec, gt), 'reconstructed error')
        else:
            ctx.raises(ValueError, lambda: r.reconstructed_initial_error(m),
                       'no ground truth')
        p = r.homogeneous_parameters if cls == 'lk' else r.shape_parameters
        ctx.check(len(p) == k and all(np.array_equal(a, b)
                                      for a, b in zip(p, params)),
                  'parameters')
        if cls in ('aam', 'uni'):
            ctx.check(r.appearance_parameters is app or
                      list(r.appearance_parameters) == app, 'appearance')
        if cls == 'aps':
            ctx.equal(r.appearance_costs, costs, 'appearance costs')
    check_to_result(ctx, r, shapes[-1], init, gt, im, s['flags'])


def check_list(ctx, got, exp, what, tol=0.):
    ctx.equal(len(got), len(exp), 'number of ' + what)
    for i, (a, b) in enumerate(zip(got, exp)):
        ctx.close(a.points, b.points, '%s[%d]' % (what, i), rtol=1e-12,
                  atol=max(tol, 1e-12))


def check_base(ctx, r, final, init, gt, im, m, tol=1e-12):
    ctx.close(r.final_shape.points, final.points, 'final shape', rtol=1e-12,
              atol=tol)
    if init is None:
        ctx.check(r.initial_shape is None, 'initial shape invented')
    else:
        ctx.close(r.initial_shape.points, init.points, 'initial shape',
                  rtol=1e-12, atol=tol)
    if gt is None:
        ctx.check(r.gt_shape is None, 'ground truth invented')
        ctx.raises(ValueError, lambda: r.final_error(m), 'no ground truth')
        ctx.raises(ValueError, lambda: r.initial_error(m), 'no ground truth')
    else:
        ctx.close(r.gt_shape.points, gt.points, 'gt', rtol=0, atol=0)
        ctx.close(r.final_error(m), apply_metric(m, final, gt), 'final error',
                  rtol=1e-9)
        if init is not None:
            ctx.close(r.initial_error(m), apply_metric(m, init, gt),
                      'initial error', rtol=1e-9)
        else:
            ctx.raises(ValueError, lambda: r.initial_error(m),
                       'no initial shape')
    if im is None:
        ctx.check(r.image is None, 'image invented')
    else:
        ctx.check(np.array_equal(r.image.pixels, im.pixels), 'image')
        ctx.check(not np.shares_memory(r.image.pixels, im.pixels),
                  'the image is not a copy')


def check_derived(ctx, r, exp, gt, m, tol=1e-12):
    if gt is None:
        ctx.raises(ValueError, lambda: r.errors(m), 'no ground truth')
    else:
        ctx.close(r.errors(m), [apply_metric(m, x, gt) for x in exp],
                  'errors', rtol=1e-9, atol=1e-9 + tol)
    d = [np.linalg.norm(a.points - b.points, axis=1)
         for a, b in zip(exp[:-1], exp[1:])]
    got = r.displacements()
    ctx.equal(len(got), len(d), 'number of displacements')
    for a, b in zip(got, d):
        ctx.close(a, b, 'displacements', rtol=1e-9, atol=1e-9 + tol)
    for name, fn in (('mean', np.mean), ('median', np.median),
                     ('max', np.max), ('min', np.min)):
        ctx.close(r.displacements_stats(name), [fn(x) for x in d],
                  name + ' displacement', rtol=1e-9, atol=1e-9 + tol)
    ctx.close(r.displacements_stats(), [np.mean(x) for x in d],
              'default displacement', rtol=1e-9, atol=1e-9 + tol)
    ctx.raises(ValueError, lambda: r.displacements_stats('std'),
               'unknown statistic')


def check_to_result(ctx, r, final, init, gt, im, flags, tol=1e-12):
    pi, ps, pg = flags
    q = r.to_result(pass_image=pi, pass_initial_shape=ps, pass_gt_shape=pg)
    ctx.check(type(q) is Result, 'to_result type')
    check_base(ctx, q, final, init if ps else None, gt if pg else None,
               im if pi else None, None, tol=tol)


def rand_affine(rs):
    h = np.eye(3)
    h[:2, :2] += .3 * rs.randn(2, 2)
    h[:2, 2] = 5 * rs.randn(2)
    return Affine(h)


@facet(P, 'multi_scale', st.fixed_dictionaries({
    'seed': gen.seeds, 'n': st.integers(1, 8),
    'iters': st.lists(st.integers(0, 5), min_size=1, max_size=4),
    'initial': st.sampled_from(['none', 'first', 'all']),
    'gt': st.booleans(), 'image': st.booleans(), 'costs': st.booleans(),
    'metric': st.integers(0, 4), 'app': st.booleans(),
    'cls': st.sampled_from(['nonparam', 'param', 'aam', 'aps', 'lk', 'uni']),
    'scalar': st.booleans(), 'bad': st.sampled_from([0, 0, 0, 0, 1]),
    'flags': st.tuples(st.booleans(), st.booleans(), st.booleans())}),
    quick=500, rule='more than one scale')
def multi_scale(ctx, s):
    """A multi-scale result lists every shape of every scale in original
    coordinates (scale first, then the affine of that scale), sums the
    iterations, and concatenates parameters and costs."""
    rs = gen.rng(s['seed'])
    n = s['n'] + 1
    cls = s['cls']
    parametric = cls != 'nonparam'
    results, A, S, per = [], [], [], []
    exp, params, costs, apps = [], [], [], []
    gt = cloud(rs, n) if s['gt'] else None
    im = Image(rs.rand(1, 12, 13)) if s['image'] else None
    init = None
    has_app = s['app']
    for k, it in enumerate(s['iters']):
        cnt = it + 1 if parametric else max(it, 1)
        per.append(it if parametric else cnt)
        shapes = [cloud(rs, n) for _ in range(cnt)]
        pr = [rs.rand(5) for _ in range(cnt)]
        ap = [rs.rand(3) for _ in range(cnt)]
        # (some report no cost of the start)
        co = list(rs.rand(cnt - (parametric and s['n'] % 2))) \
            if s['costs'] else None
        i0 = cloud(rs, n) if s['initial'] == 'all' or (
            s['initial'] == 'first' and k == 0) else None
        a, sc = rand_affine(rs), UniformScale(float(rs.uniform(.4, 2.)), 2)
        tr = lambda x: PointCloud(a.h_matrix[:2, :2].dot(
            (sc.h_matrix[0, 0] * x.points).T).T + a.h_matrix[:2, 2])
        if k == 0 and i0 is not None:
            init = tr(i0)
        exp += [tr(x) for x in shapes]
        params += pr
        apps += ap
        if co is not None:
            costs += co
        kw = dict(initial_shape=i0, gt_shape=gt, image=im, costs=co)
        if cls == 'nonparam':
            results.append(NonParametricIterativeResult(shapes, **kw))
        elif cls == 'param':
            results.append(ParametricIterativeResult(shapes, pr, **kw))
        elif cls == 'aam':
            results.append(AAMAlgorithmResult(shapes, pr,
                                              ap if has_app else None, **kw))
        elif cls == 'uni':
            results.append(UnifiedAAMCLMAlgorithmResult(
                shapes, pr, ap if has_app else None, **kw))
        elif cls == 'aps':
            results.append(APSAlgorithmResult(
                shapes, pr, appearance_costs=ap if has_app else None,
                deformation_costs=pr if has_app else None, **kw))
        elif cls == 'lk':
            results.append(LucasKanadeAlgorithmResult(shapes, pr, **kw))
        A.append(a)
        S.append(sc)
    C = {'nonparam': MultiScaleNonParametricIterativeResult,
         'param': MultiScaleParametricIterativeResult, 'aam': AAMResult,
         'uni': UnifiedAAMCLMResult, 'aps': APSResult,
         'lk': LucasKanadeResult}[cls]
    ns = len(results)
    scales = [1.] * ns
    ctx.nontrivial(ns > 1)
    args = dict(results=results, scales=scales, affine_transforms=A,
                scale_transforms=S, image=im, gt_shape=gt)
    if s['bad']:
        args['scales'] = scales + [.5]
        ctx.raises(ValueError, lambda: C(**args), 'results and scales differ '
                   'in length')
        return
    r = C(**args)
    m = metric(s['metric'])
    check_base(ctx, r, exp[-1], init, gt, im, m, tol=1e-9)
    allsh = ([init] if init is not None else []) + exp
    check_list(ctx, r.shapes, allsh, 'shapes', tol=1e-9)
    ctx.equal(list(r.n_iters_per_scale), per, 'n_iters_per_scale')
    ctx.equal(r.n_iters, sum(per), 'n_iters')
    ctx.equal(r.n_scales, ns, 'n_scales')
    check_derived(ctx, r, allsh, gt, m, tol=1e-9)
    check_to_result(ctx, r, exp[-1], init, gt, im, s['flags'], tol=1e-9)
    if s['costs']:
        ctx.close(r.costs, costs, 'costs', rtol=0, atol=0)
    else:
        ctx.check(r.costs is None, 'costs invented')
    if parametric:
        pos, rec = (0 if init is None else 1), []
        for p in per:
            rec.append(allsh[pos])
            pos += p + 1
        check_list(ctx, r.reconstructed_initial_shapes, rec, 'reconstructed '
                   'shapes', tol=1e-9)
        if gt is not None:
            ctx.close(r.reconstructed_initial_error(m),
                      apply_metric(m, rec[0], gt), 'reconstructed error',
                      rtol=1e-9)
        else:
            ctx.raises(ValueError, lambda: r.reconstructed_initial_error(m),
                       'no ground truth')
        p = r.homogeneous_parameters if cls == 'lk' else r.shape_parameters
        ctx.check(len(p) == len(params) and all(
            np.array_equal(a, b) for a, b in zip(p, params)), 'parameters')
        if cls in ('aam', 'uni'):
            if has_app:
                ctx.check(len(r.appearance_parameters) == len(apps) and all(
                    np.array_equal(a, b) for a, b in
                    zip(r.appearance_parameters, apps)), 'appearance')
            else:
                ctx.check(r.appearance_parameters is None, 'appearance')
        if cls == 'aps':
            if has_app:
                ctx.check(all(np.array_equal(a, b) for a, b in
                              zip(r.appearance_costs, apps)) and
                          len(r.appearance_costs) == len(apps), 'app costs')
                ctx.check(all(np.array_equal(a, b) for a, b in
                              zip(r.deformation_costs, params)) and
                          len(r.deformation_costs) == len(params), 'def costs')
            else:
                ctx.check(r.appearance_costs is None and
                          r.deformation_costs is None, 'costs invented')
    ctx.check('%d landmark' % n in str(r), 'str')


# --------------------------------------------------------------- real fits
ALL = fams.MODEL_KINDS + ['lk', 'sdm', 'psdm', 'sdaam']


@facet(P, 'fits', st.fixed_dictionaries({
    'seed': gen.seeds, 'kind': st.sampled_from(ALL), 'alg': st.integers(0, 9),
    'scales': st.sampled_from([[1.], [.5, 1.], [.4, .7, 1.], [1., 1.]]),
    'max_iters': st.one_of(st.integers(0, 7), st.lists(
        st.integers(0, 4), min_size=3, max_size=3)),
    'costs': st.booleans(), 'gt': st.booleans(), 'noise': st.floats(0, 1.5),
    'metric': st.integers(0, 4), 'pick': st.integers(0, 4),
    'flags': st.tuples(st.booleans(), st.booleans(), st.booleans())}),
    quick=140, thorough=2000, rule='at least one iteration')
def fits(ctx, s):
    """Every fitter's result accounts for all of its iterations: shapes,
    parameters, iteration counts and costs match each other and the iteration
    limits, and every shape is the one its parameters generate."""
    n = len(s['scales'])
    kind = s['kind']
    ims = gen.image_set(s['seed'], 5, 6, size=(58, 60), fill=.2)
    fit, sms = p06.build(kind, ims, s['scales'], no_op, diagonal=28,
                         alg=s['alg'])
    im = ims[s['pick']].copy()
    gt = im.landmarks['PTS']
    start = gen.perturb(gt, s['seed'], .15 * s['noise'], 1.)
    cascade = kind in ('sdm', 'psdm', 'sdaam')
    mi = s['max_iters']
    mi = mi if isinstance(mi, int) else mi[:n]
    kw = {} if cascade else dict(max_iters=mi)
    r = p06.attempt(fit.fit_from_shape, im, start,
                    gt_shape=gt if s['gt'] else None,
                    return_costs=s['costs'], **kw)
    ctx.label(kind)
    parametric = kind != 'sdm'
    per = list(r.n_iters_per_scale)
    ctx.equal(len(per), n, 'scales')
    ctx.equal(r.n_scales, n, 'n_scales')
    ctx.equal(r.n_iters, sum(per), 'n_iters')
    ctx.nontrivial(r.n_iters > 0)
    if cascade:
        ctx.equal(per, [int(np.round(2. / n))] * n,
                  'one iteration per regressor')
    else:
        lim = [int(np.round(mi / n))] * n if isinstance(mi, int) else mi
        if len(lim) == 1:
            lim = [int(np.round(lim[0] / n))] * n
        ctx.check(all(a <= b for a, b in zip(per, lim)),
                  'iterations %r exceed the limits %r', per, lim)
        if s['noise'] > .3 and kind not in ('clm',):
            ctx.check(all(a >= min(b, 1) for a, b in zip(per, lim)),
                      'no iteration was done')
    ctx.equal(len(r.shapes), 1 + sum(per) + (n if parametric else 0),
              'number of shapes')
    exp = list(r.shapes)
    check_base(ctx, r, exp[-1], start, gt if s['gt'] else None, im,
               metric(s['metric']), tol=1e-5)
    check_derived(ctx, r, exp, gt if s['gt'] else None, metric(s['metric']))
    check_to_result(ctx, r, exp[-1], start, gt if s['gt'] else None, im,
                    s['flags'], tol=1e-5)
    str(r)
    costly = kind in fams.MODEL_KINDS + ['lk'] and kind != 'clm'
    if not s['costs'] or not costly:
        ctx.check(r.costs is None, 'costs that were not asked for')
    elif kind == 'lk':
        ctx.equal(len(r.costs), sum(per), 'number of costs')
    else:
        ctx.equal(len(r.costs), sum(per) + n, 'number of costs')
        if kind == 'aps':
            ctx.close(np.array(r.appearance_costs) + r.deformation_costs,
                      r.costs, 'costs are not appearance + deformation',
                      rtol=1e-9)
    if not parametric:
        return
    par = r.homogeneous_parameters if kind == 'lk' else r.shape_parameters
    ctx.equal(len(par), sum(per) + n, 'number of parameters')
    ap = getattr(r, 'appearance_parameters', None)
    if ap is not None and not cascade:
        ctx.equal(len(ap), sum(per) + n, 'number of appearance parameters')
    # shapes are generated by their parameters
    maps = p06.scale_maps(fit, im, start)
    q, pos = 0, 1
    for k in range(n):
        bwd = maps[k][1]
        for i in range(per[k] + 1):
            if kind == 'lk' and i == 0:
                # the reconstruction listed by Lucas-Kanade is the given shape
                pts = None
            elif kind == 'lk':
                t = fit.algorithms[k].template
                lm = t.landmarks['PTS'].points
                pts = fit.transform_cls(PointCloud(lm.copy()),
                                        PointCloud(lm.copy())).from_vector(
                    np.asarray(par[q])).apply(lm)
            else:
                pts = shape_of(sms[k], np.asarray(par[q]).ravel(), len(gt.points))
            if pts is not None:
                ctx.close(r.shapes[pos].points, bwd(pts), 'shape %d is not '
                          'the one of its parameters' % pos, rtol=0,
                          atol=1e-4)
            q += 1
            pos += 1


@facet(P, 'algorithms', st.fixed_dictionaries({
    'seed': gen.seeds, 'how': st.integers(0, 2 ** 16),
    'alg': st.integers(0, 44), 'limit': st.integers(0, 4),
    'costs': st.booleans(), 'gt': st.booleans(), 'noise': st.floats(0, 1.5),
    'metric': st.integers(0, 4),
    'flags': st.tuples(st.booleans(), st.booleans(), st.booleans())}),
    quick=700, thorough=9000, rule='at least one iteration')
def algorithms(ctx, s):
    """The same for the algorithms that make the fit at one scale."""
    from . import p27
    same = p27.Same()
    kind = p27.KINDS[s['how'] % len(p27.KINDS)]
    cascade = kind in p27.CASCADES
    n = s['limit'] if not cascade else max(1, s['limit'])
    ims = gen.image_set(s['seed'], 6, 5, size=(58, 60), fill=.2, noise=.01)
    im = ims[-1]
    gt = im.landmarks['PTS']
    start = gen.perturb(gt, s['seed'], .15 * s['noise'], 1.)
    try:
        with np.errstate(all='ignore'):
            fit = p27.build(dict(
                s, kind=kind, scales=[1.], diag=None, feats=[0],
                patch=[(7, 7)], its=n, hop=1, norm=False, bias=False,
                ridge=.1, eps=-1.), [same.image(i) for i in ims[:-1]], same)
            al = fit.algorithms[0]
            kw = {} if cascade else dict(max_iters=n)
            if kind not in p27.CASCADES + ('clm',):
                kw['return_costs'] = s['costs']
            r = al.run(im, start, gt_shape=gt if s['gt'] else None, **kw)
    except (ValueError, np.linalg.LinAlgError):
        # (too little data)
        raise Discard()
    name = type(al).__name__
    ctx.label(kind)
    ctx.nontrivial(n > 0)
    ctx.equal(r.n_iters, n, name + ': iterations')
    parametric = kind != 'sdm'
    ctx.equal(len(r.shapes), n + 1 + parametric, name + ': shapes')
    exp = list(r.shapes)
    if not all(np.all(np.isfinite(x.points)) for x in exp):
        raise Discard()
    gts = gt if s['gt'] else None
    check_base(ctx, r, exp[-1], start, gts, im, metric(s['metric']), tol=1e-9)
    check_derived(ctx, r, exp, gts, metric(s['metric']))
    check_to_result(ctx, r, exp[-1], start, gts, im, s['flags'], tol=1e-9)
    for i, x in enumerate(exp[1:]):
        ctx.equal(x.n_points, start.n_points, 'points of shape %d' % (i + 1))
    if not parametric:
        return
    par = r.homogeneous_parameters if kind == 'lk' else r.shape_parameters
    ctx.equal(len(par), n + 1, 'number of parameters')
    costs = kw.get('return_costs', False)
    if not costs:
        ctx.check(r.costs is None, 'costs that were not asked for')
    else:
        ctx.equal(len(r.costs), n + (kind != 'lk'), name + ': costs')
    ap = getattr(r, 'appearance_parameters', None)
    if ap is not None:
        ctx.equal(len(ap), n + 1, name + ': appearance parameters')


def shape_of(sm, p, n):
    """Independent generation of a shape: 4 similarity parameters on the
    orthonormalised basis of the mean, then deformation weights under that
    motion."""
    mean = sm.model.mean().points
    comps = sm.model.components[:sm.model.n_active_components]
    sim = (p[:4].dot(sm.similarity_model.components)).reshape(-1, 2) + mean
    mc, tc = mean - mean.mean(0), sim - sim.mean(0)
    den = np.sum(mc * mc)
    a = np.sum(mc * tc) / den
    b = np.sum(mc[:, 0] * tc[:, 1] - mc[:, 1] * tc[:, 0]) / den
    L = np.array([[a, -b], [b, a]])
    d = p[4:].dot(comps).reshape(-1, 2)
    return (sim + d.dot(L.T))[:n]


# ----------------------------------------------------------------- displays
@facet(P, 'displays', st.fixed_dictionaries({
    'seed': gen.seeds, 'iters': st.lists(st.integers(0, 6), min_size=1,
                                         max_size=3),
    'cls': st.sampled_from(['nonparam1', 'param1', 'nonparam', 'param',
                            'aps']),
    'initial': st.booleans(), 'image': st.booleans(),
    'sub': st.booleans(), 'some': st.booleans(),
    'what': st.sampled_from(['iters', 'iters', 'iters', 'errors', 'disp',
                             'costs', 'view'])}), quick=80, thorough=800)
def displays(ctx, s):
    """Displays of the iterations name and show each shape of the run
    (initial, per-scale reconstruction, numbered iteration, final); error,
    displacement and cost plots show the reported values."""
    import matplotlib.pyplot as plt
    rs = gen.rng(s['seed'])
    n = 5
    cls = s['cls']
    its = s['iters'][:1] if cls.endswith('1') else s['iters']
    par = cls != 'nonparam' and cls != 'nonparam1'
    init = cloud(rs, n) if s['initial'] else None
    gt = cloud(rs, n)
    im = Image(rs.rand(1, 12, 13)) if s['image'] else None
    res, labels, shapes = [], [], []
    if init is not None:
        labels.append('Initial')
        shapes.append(init)
    num = 0
    for k, it in enumerate(its):
        it = it if par else max(it, 1)
        sh = [cloud(rs, n) for _ in range(it + (1 if par else 0))]
        kw = dict(image=im, gt_shape=gt, costs=list(rs.rand(len(sh))),
                  initial_shape=init if k == 0 else None)
        pr = [rs.rand(3)] * len(sh)
        if cls == 'aps':
            res.append(APSAlgorithmResult(sh, pr, **kw))
        elif par:
            res.append(ParametricIterativeResult(sh, pr, **kw))
        else:
            res.append(NonParametricIterativeResult(sh, **kw))
        if par:
            labels.append('Reconstruction')
        for _ in range(it):
            num += 1
            labels.append(num)
        shapes += sh
    if not par or its[-1] > 0:
        labels[-1] = 'Final'
    if cls.endswith('1'):
        r = res[0]
    else:
        C = {'nonparam': MultiScaleNonParametricIterativeResult,
             'param': MultiScaleParametricIterativeResult,
             'aps': APSResult}[cls]
        I = [UniformScale(1., 2)] * len(its)
        r = C(res, [1.] * len(its), I, I, image=im, gt_shape=gt)
    w = s['what']
    try:
        if w == 'iters':
            # a drawn subset of the iterations; titles are lower case friendly
            idx = list(range(len(shapes)))
            if s['some']:
                idx = sorted(rs.permutation(len(shapes))[
                    :max(1, len(shapes) // 2)].tolist())
            kw = dict(iters=idx if s['some'] else None)
            r.view_iterations(new_figure=True, subplots_enabled=s['sub'], **kw)
            fig = plt.gcf()
            if s['sub']:
                got = [a.get_title() for a in fig.axes]
            else:
                got = [t.get_text()
                       for t in fig.axes[0].get_legend().texts]
            ctx.equal(len(got), len(idx), 'number of displayed shapes')
            for g, i in zip(got, idx):
                e = labels[i]
                if isinstance(e, int):
                    d = [t for t in g.split() if t.isdigit()]
                    ctx.check('iteration' in g.lower() and len(d) == 1 and
                              int(d[0]) == e, 'iteration %d is called %r', e, g)
                else:
                    ctx.equal(g.lower(), e.lower(), 'title of shape %d' % i)
            for j, i in enumerate(idx):
                ax = fig.axes[j] if s['sub'] else fig.axes[0]
                p = shapes[i].points
                ok = any(len(l.get_xdata()) == n and
                         np.allclose(l.get_xdata(), p[:, 1]) and
                         np.allclose(l.get_ydata(), p[:, 0])
                         for l in ax.lines)
                ctx.check(ok, 'shape %d is not displayed', i)
        elif w == 'view':
            r.view(new_figure=True, render_initial_shape=True,
                   render_gt_shape=True, subplots_enabled=False)
            ax = plt.gcf().axes[0]
            for x in [r.final_shape, gt] + ([init] if init is not None else []):
                p = x.points
                ctx.check(any(len(l.get_xdata()) == n and
                              np.allclose(l.get_xdata(), p[:, 1]) and
                              np.allclose(l.get_ydata(), p[:, 0])
                              for l in ax.lines), 'a shape is not displayed')
        else:
            if w == 'errors':
                r.plot_errors(new_figure=True)
                exp = [default_error(x, gt) for x in shapes]
            elif w == 'disp':
                exp = [np.linalg.norm(a.points - b.points, axis=1).max()
                       for a, b in zip(shapes, shapes[1:])]
                if not exp:
                    raise Discard()
                r.plot_displacements(new_figure=True, stat_type='max')
            else:
                r.plot_costs(new_figure=True)
                exp = [c for q in res for c in q.costs]
            ax = plt.gcf().axes[0]
            ctx.check(any(len(l.get_ydata()) == len(exp) and
                          np.allclose(l.get_ydata(), exp) for l in ax.lines),
                      'the plotted values are not the %s', w)
    finally:
        plt.close('all')
