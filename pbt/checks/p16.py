"""P16: instances and reconstructions of generative models."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats
from scipy.ndimage import map_coordinates

from menpo.shape import PointCloud
from menpofit import aam, clm, aps
from menpofit.transform import (DifferentiablePiecewiseAffine,
                                DifferentiableThinPlateSplines)
from ..core import facet
from .. import gen, fams

P = 'P16'
ALPHA = 1e-9
IMAGES = ['aam_holistic', 'aam_masked', 'uni', 'atm_holistic', 'atm_masked']
SHAPES = ['clm', 'uni', 'aps']


def instance_of(model, w):
    """Mean plus weighted components (weights in standard deviations)."""
    x = model.mean()
    v = (x if isinstance(x, np.ndarray) else x.as_vector()).copy()
    U, l = model.components, model.eigenvalues
    for k, a in enumerate(w or []):
        v = v + a * np.sqrt(l[k]) * U[k]
    return v


def patch_of(s, k):
    """The patch shape of a scale."""
    return s['patches'][k % len(s['patches'])]


def build(s, kind):
    ims = gen.image_set(s['seed'], s['n'], s['pts'], n_channels=s['c'],
                        size=(46, 48), noise=.03)
    kw = dict(scales=s['scales'], diagonal=s['diag'],
              patch_shape=[patch_of(s, k) for k in range(len(s['scales']))],
              max_shape_components=s['ms'])
    if fams.has_appearance(kind):
        kw['max_appearance_components'] = s['ma']
    if kind == 'aps':
        kw['max_appearance_components'] = 3
    m = fams.make(kind, ims, **kw)
    if s.get('active') and kind != 'aps':
        # some components were deactivated
        for k in range(len(s['scales'])):
            for x in (m.shape_models[k].model,
                      getattr(m, 'appearance_models', [None] * 3)[k]):
                if x is not None:
                    x.n_active_components = min(
                        x.n_components, s['active'])
    return ims, m


spec = dict(
    seed=gen.seeds, n=st.integers(4, 7), pts=st.integers(4, 6),
    c=st.integers(1, 2),
    scales=st.sampled_from([[1.], [.6, 1.], [.5, .75, 1.], [.8]]),
    diag=st.integers(24, 36),
    patches=st.lists(st.sampled_from([(7, 5), (5, 9), (9, 9), (5, 5)]),
                     min_size=1, max_size=3),
    ms=st.sampled_from([1, 2, 3, None]), ma=st.sampled_from([1, 2, 3, None]),
    at=st.integers(-3, 2), active=st.sampled_from([0, 0, 1, 2, 3]),
    sw=st.one_of(st.none(), st.lists(st.floats(-1.5, 1.5), max_size=3)),
    aw=st.one_of(st.none(), st.lists(st.floats(-2., 2.), max_size=3)))


def scale_of(s):
    n = len(s['scales'])
    k = s['at'] % n
    # any spelling of the index
    return k, (k if s['at'] >= 0 else k - n)


def weights(w, n):
    return None if w is None else list(w)[:n] or [0.]


def interior(src, q, margin=.02):
    """Reference pixels well inside the convex mesh of src, with the images
    of the corners' barycentric coordinates."""
    from scipy.spatial import Delaunay
    return Delaunay(src).find_simplex(q) >= 0


def shown(ctx, kind, inst, shape, app, template, patch):
    """Compares the image inst with the appearance warped to the shape;
    returns the sampling points."""
    q = inst.landmarks['source']
    masked = 'masked' in kind
    off = (q.points - shape).mean(axis=0)
    ctx.close(q.points, shape + off, 'shape of the instance', rtol=1e-8)
    T = DifferentiableThinPlateSplines if 'masked' in kind else \
        DifferentiablePiecewiseAffine
    ti = inst.mask.true_indices().astype(float)
    ctx.check(len(ti) > 20, 'the instance is empty')
    src = shape + off
    if masked:
        # within the patches, nowhere else
        h = np.array(patch) / 2.
        d = (np.abs(ti[:, None] - src[None]) - h).max(2).min(1)
        ctx.check(not (d > 1.01).any(), 'pixels outside of all patches')
        yy = np.stack(np.meshgrid(*[np.arange(k) for k in inst.shape],
                                  indexing='ij'), -1).reshape(-1, 2)
        d = (np.abs(yy[:, None] - src[None]) - h).max(2).min(1)
        ctx.check(inst.mask.mask.ravel()[d < -1.01].all(),
                  'patch pixels are missing')
        m = T(PointCloud(src), template.landmarks['source']).apply(ti)
        ok = np.ones(len(ti), dtype=bool)
    else:
        from .p05 import bary_map, inside
        from scipy.spatial import Delaunay
        tl = getattr(q, 'trilist', None)
        tl = Delaunay(src).simplices if tl is None else tl
        yy = np.stack(np.meshgrid(*[np.arange(k) for k in inst.shape],
                                  indexing='ij'), -1).reshape(-1, 2)
        b = inside(src, tl, yy.astype(float))
        mk = inst.mask.mask.ravel()
        ctx.check(mk[b > 1e-6].all(), 'pixels of the mesh are missing')
        m = bary_map(src, tl, template.landmarks['source'].points, ti)
        ok = np.isfinite(m).all(1)
        ctx.check(ok.mean() > .8, 'pixels outside of the mesh')
    hi = np.array(template.shape) - 1.
    ok &= (m >= 0).all(1) & (m <= hi).all(1)
    ctx.check(ok.mean() > .5, 'oracle covers too little')
    got = inst.as_vector().reshape(inst.n_channels, -1)
    exp = np.array([map_coordinates(c, m.T, order=1, mode='nearest')
                    for c in app])
    ctx.close(got[:, ok], exp[:, ok], 'appearance of the instance',
              rtol=1e-6, atol=1e-6)
    return m, ok, got


def pixels_of(model, w, kind):
    t = model.mean()
    return t.from_vector(instance_of(model, w)).pixels


def content(x):
    if isinstance(x, (tuple, list)):
        return np.concatenate([content(y) for y in x])
    if hasattr(x, 'pixels'):
        return np.concatenate((x.pixels.ravel(), x.landmarks[
            'source'].points.ravel() if x.has_landmarks else []))
    return x.points.ravel()


def defaults(ctx, m, kw, last, seed):
    """The highest scale is used if none is named."""
    kw = {a: b for a, b in kw.items() if a != 'scale_index'}
    for name in ('instance', 'shape_instance'):
        fn = getattr(m, name, None)
        if fn is not None:
            o = {a: b for a, b in kw.items()
                 if name == 'instance' or a == 'shape_weights'}
            ctx.close(content(fn(**o)), content(fn(scale_index=last, **o)),
                      'default scale of ' + name, rtol=1e-12)
    fn = getattr(m, 'random_instance', None)
    if fn is not None:
        np.random.seed(seed % 2 ** 31)
        a = fn()
        np.random.seed(seed % 2 ** 31)
        ctx.close(content(a), content(fn(scale_index=last)),
                  'default scale of random_instance', rtol=1e-12)


@facet(P, 'images', st.fixed_dictionaries(dict(
    spec, kind=st.sampled_from(IMAGES))), quick=120)
def images(ctx, s):
    """Instances show the weighted appearance (or the template) on the
    weighted shape; missing weights are zero."""
    kind = s['kind']
    _, m = build(s, kind)
    k, at = scale_of(s)
    sm = m.shape_models[k].model
    sw = weights(s['sw'], sm.n_active_components)
    if sw is not None:
        # stay away from folded meshes
        sw = [.5 * w for w in sw]
    kw = dict(shape_weights=sw, scale_index=at)
    shape = instance_of(sm, sw).reshape(-1, 2)
    if kind.startswith('atm'):
        template = m.warped_templates[k]
        app = template.pixels.copy()
    else:
        am = m.appearance_models[k]
        template = am.mean()
        aw = weights(s['aw'], am.n_active_components)
        kw['appearance_weights'] = aw
        app = pixels_of(am, aw, kind)
    ctx.label(kind)
    ctx.nontrivial(bool(s['sw']))
    before = app.copy(), [x.pixels.copy() for x in getattr(
        m, 'warped_templates', [])]
    inst = m.instance(**kw)
    shown(ctx, kind, inst, shape, app, template, patch_of(s, k))
    defaults(ctx, m, kw, len(s['scales']) - 1, s['seed'])
    for x, y in zip(getattr(m, 'warped_templates', []), before[1]):
        ctx.check(np.array_equal(x.pixels, y), 'the template changed')


@facet(P, 'parts', st.fixed_dictionaries(dict(
    spec, kind=st.sampled_from(['aam_patch', 'atm_patch'] + SHAPES),
    graph=st.booleans())), quick=120)
def parts(ctx, s):
    """Shape and patch instances are means plus weighted components."""
    kind = s['kind']
    _, m = build(s, kind)
    k, at = scale_of(s)
    sm = m.shape_models[k].model
    sw = weights(s['sw'], sm.n_active_components)
    exp = instance_of(sm, sw).reshape(-1, 2)
    ctx.label(kind)
    ctx.nontrivial(bool(s['sw']) or bool(s['aw']))
    if kind == 'aam_patch':
        am = m.appearance_models[k]
        aw = weights(s['aw'], am.n_active_components)
        shape, app = m.instance(shape_weights=sw, appearance_weights=aw,
                                scale_index=at)
        ctx.close(app.pixels, pixels_of(am, aw, kind), 'patches', rtol=1e-9)
    elif kind == 'atm_patch':
        shape, app = m.instance(shape_weights=sw, scale_index=at)
        ctx.close(app.pixels, m.warped_templates[k].pixels, 'patches',
                  rtol=1e-12)
    elif kind == 'aps':
        shape = m.instance(shape_weights=sw, scale_index=at,
                           as_graph=s['graph'])
        if s['graph']:
            g = m.deformation_graph[k]
            a = shape.adjacency_matrix.toarray() != 0
            b = g.adjacency_matrix.toarray() != 0
            ctx.check(np.array_equal(a, b), 'edges of the instance')
            if hasattr(g, 'root_vertex'):
                ctx.equal(shape.root_vertex, g.root_vertex, 'root')
    else:
        shape = m.shape_instance(shape_weights=sw, scale_index=at)
    ctx.close(shape.points, exp, 'shape', rtol=1e-9)
    kw = dict(shape_weights=sw)
    if kind == 'aam_patch':
        kw['appearance_weights'] = weights(
            s['aw'], min(a.n_active_components for a in m.appearance_models))
    n = min(x.model.n_active_components for x in m.shape_models)
    kw['shape_weights'] = weights(s['sw'], n)
    if kind not in ('uni', 'aam_holistic'):
        defaults(ctx, m, kw, len(s['scales']) - 1, s['seed'])


def normal(ctx, x, what):
    x = np.ravel(x)
    r = stats.kstest(x, stats.norm().cdf)
    ctx.check(r.pvalue > ALPHA, '%s of random instances are not standard '
              'normal: p-value %.3g, deviation %.3g, %d values', what,
              r.pvalue, np.std(x), len(x))


@facet(P, 'random', st.fixed_dictionaries(dict(
    spec, kind=st.sampled_from(['aam_patch', 'atm_patch', 'aps',
                                'aam_holistic', 'uni', 'atm_holistic',
                                'aam_masked', 'atm_masked']))), quick=80)
def random(ctx, s):
    """Random instances draw every active shape and appearance weight
    independently, in standard deviations."""
    kind = s['kind']
    _, m = build(s, kind)
    k, at = scale_of(s)
    sm = m.shape_models[k].model
    parts_ = kind in ('aam_patch', 'atm_patch', 'aps')
    np.random.seed(s['seed'] % 2 ** 31)
    W, A = [], []
    for _ in range(40 if parts_ else 6):
        r = m.random_instance(scale_index=at)
        if kind == 'aps':
            shape = r.points
        elif parts_:
            shape = r[0].points
        else:
            shape = r.landmarks['source'].points
        d = shape - sm.mean().points
        if not parts_:
            # frames are translated
            d = d - d.mean(axis=0)
        n = sm.n_active_components
        U = sm.components[:n]
        if not parts_:
            V = U.reshape(n, -1, 2)
            V = V - V.mean(axis=1, keepdims=True)
            w = np.linalg.lstsq(V.reshape(n, -1).T, d.ravel(), rcond=None)[0]
            e = V.reshape(n, -1).T.dot(w) - d.ravel()
        else:
            w = U.dot(d.ravel())
            e = U.T.dot(w) - d.ravel()
        ctx.check(np.abs(e).max() < 1e-6, 'random shape outside the model')
        W.append(w / np.sqrt(sm.eigenvalues[:n]))
        if kind in ('aam_patch', 'aam_holistic', 'aam_masked', 'uni'):
            am = m.appearance_models[k]
            n = am.n_active_components
            U, l = am.components[:n], am.eigenvalues[:n]
            mean = am.mean()
            if kind == 'aam_patch':
                v = r[1].as_vector() - mean.as_vector()
                w = U.dot(v)
                e = U.T.dot(w) - v
            else:
                # linear in the weights at the pixels of the instance
                B = [mean.pixels] + [
                    mean.from_vector(mean.as_vector() + u).pixels for u in U]
                if not folded(r, mean):
                    v, B = sampled(kind, r, mean, B)
                    B0, B = B[0], np.array(B[1:]) - B[0]
                    w = np.linalg.lstsq(B.T, v - B0, rcond=None)[0]
                    e = B.T.dot(w) - (v - B0)
                else:
                    continue
            ctx.check(np.abs(e).max() < 1e-5, 'random appearance outside of '
                      'the model by %.3g', np.abs(e).max())
            A.append(w / np.sqrt(l))
    ctx.label(kind)
    W = np.array(W)
    normal(ctx, W, 'shape weights')
    ctx.check(np.std(W, axis=0).min() > 1e-3, 'constant shape weight')
    if len(A) > 1:
        A = np.array(A)
        normal(ctx, A, 'appearance weights')
        ctx.check(np.std(A, axis=0).min() > 1e-3,
                  'constant appearance weight: %r', np.std(A, axis=0).tolist())
        if len(A) >= 40:
            c = np.corrcoef(np.concatenate((W, A), axis=1).T)
            c = c - np.diag(np.diag(c))
            ctx.check(np.abs(c).max() < .9, 'correlated weights')


def folded(inst, template):
    from scipy.spatial import Delaunay
    tl = Delaunay(inst.landmarks['source'].points).simplices

    def area(p):
        a, b, c = p[tl[:, 0]], p[tl[:, 1]], p[tl[:, 2]]
        return (b - a)[:, 0] * (c - a)[:, 1] - (b - a)[:, 1] * (c - a)[:, 0]

    a = area(inst.landmarks['source'].points)
    b = area(template.landmarks['source'].points)
    return np.any(a * b <= 0)


def sampled(kind, inst, template, images_):
    from .p05 import bary_map
    from scipy.spatial import Delaunay
    q = inst.landmarks['source']
    ti = inst.mask.true_indices().astype(float)
    if 'masked' in kind:
        m = DifferentiableThinPlateSplines(
            PointCloud(q.points), template.landmarks['source']).apply(ti)
    else:
        tl = getattr(q, 'trilist', None)
        tl = Delaunay(q.points).simplices if tl is None else tl
        m = bary_map(q.points, tl, template.landmarks['source'].points, ti)
    ok = np.isfinite(m).all(1)
    ok &= (m >= 0).all(1) & (m <= np.array(template.shape) - 1.).all(1)
    v = inst.as_vector().reshape(inst.n_channels, -1)[:, ok].ravel()
    return v, [np.array([map_coordinates(c, m[ok].T, order=1, mode='nearest')
                         for c in im]).ravel() for im in images_]


@facet(P, 'reconstructions', st.fixed_dictionaries(dict(
    spec, kind=st.sampled_from(['aam_' + k for k in sorted(fams.AAMS)] +
                               ['uni']),
    its=st.lists(st.integers(0, 4), min_size=3, max_size=3),
    fit=st.booleans())), quick=100)
def reconstructions(ctx, s):
    """Appearance parameters of all scales are shown by the model of their
    scale, in order."""
    kind = s['kind']
    if kind.startswith('aam_linear'):
        s = dict(s, scales=s['scales'][-1:])
    ims, m = build(s, kind)
    n = len(s['scales'])
    its = s['its'][:n]
    rs = gen.rng(s['seed'], 61)
    ctx.label(kind)
    ctx.nontrivial(n > 1 and min(its) > 0)
    f = None
    if s['fit']:
        alg = 'SimultaneousInverseCompositional' if kind != 'uni' else \
            'AlternatingRegularisedLandmarkMeanShift'
        f = fams.fitter(kind, m, alg, n_shape=1, n_appearance=1)
        r = f.fit_from_shape(ims[0], gen.perturb(
            ims[0].landmarks['PTS'], s['seed'], .5), max_iters=its)
        params = r.appearance_parameters
        its = list(r.n_iters_per_scale)
        ctx.equal(len(params), sum(its) + n, 'number of parameters')
    else:
        params = []
        for k in range(n):
            na = m.appearance_models[k].n_active_components
            params += [rs.randn(na if rs.rand() < .7 else max(1, na - 1))
                       for _ in range(its[k] + 1)]
    exp = []
    i = 0
    for k in range(n):
        am = m.appearance_models[k]
        for _ in range(its[k] + 1):
            c = np.asarray(params[i]).ravel()
            v = am.mean().as_vector() + c.dot(am.components[:len(c)])
            exp.append(v)
            i += 1
    for owner in ([m] if f is None else [m, f]):
        got = owner.appearance_reconstructions(params, its)
        ctx.equal(len(got), len(exp), 'number of reconstructions')
        for j, (g, e) in enumerate(zip(got, exp)):
            g = g.ravel() if isinstance(g, np.ndarray) else g.as_vector()
            ctx.close(g, e, 'reconstruction %d' % j, rtol=1e-8)
