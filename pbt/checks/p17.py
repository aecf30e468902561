"""P17: models are trained from exactly the data they are given."""
import contextlib
import io
import warnings

import numpy as np
from scipy.ndimage import gaussian_filter
from hypothesis import strategies as st

from menpo.feature import no_op
from menpo.image import Image
from menpo.shape import PointCloud
from menpo.transform import Scale
from menpofit.clm import CorrelationFilterExpertEnsemble
from menpofit.modelinstance import OrthoPDM
from menpofit import sdm
from ..core import facet
from .. import gen, fams
from ..ref import (rescale_images_to_reference_shape, align_shapes,
                   compute_features, scale_images, warp_images,
                   extract_patches, build_reference_frame,
                   build_patch_reference_frame, densify_shapes)
from .p04 import feat_sq, feat_neg, feat_half

P = 'P17'
GEN = ['aam_' + k for k in sorted(fams.AAMS)] + \
    ['atm_' + k for k in sorted(fams.ATMS)] + ['clm']
PATCH = (7, 5)
CTX = (13, 13)
FEATS = {'no': no_op, 'sq': feat_sq, 'neg': feat_neg, 'half': feat_half}


def quiet(fn):
    """Result of fn and everything it printed."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = fn()
    return r, out.getvalue()


def options(s, kind):
    n = len(s['scales'])
    kw = dict(scales=list(s['scales']), diagonal=s['diag'],
              holistic_features=[FEATS[f] for f in (s['feats'] * n)[:n]],
              max_shape_components=s['ms'])
    if kind.startswith('aam'):
        kw['max_appearance_components'] = s['ma']
    if kind != 'atm_holistic' and kind != 'aam_holistic' and \
            not kind.endswith('_linear'):
        kw['patch_shape'] = PATCH
    if kind == 'clm':
        kw['context_shape'] = CTX
    if kind.endswith('_linear'):
        # menpo truncates thin plate splines
        kw['transform'] = fams.DifferentiablePiecewiseAffine
    return kw


def train(kind, s, ims, **kw):
    """kw: batch_size, verbose, ..."""
    o = options(s, kind)
    o.update(kw)
    return fams.make(kind, ims, **o)


def same(ctx, a, b, ims, what, tol=1e-7):
    """Two trained models are equal."""
    ctx.close(a.reference_shape.points, b.reference_shape.points,
              what + ': reference shape', rtol=tol)

    def pca(x, y, name, rt=tol):
        mx, my = x.mean(), y.mean()
        f = (lambda m: m if isinstance(m, np.ndarray) else m.as_vector())
        ctx.close(f(mx), f(my), '%s: mean of %s' % (what, name), rtol=rt)
        ctx.equal(x.n_components, y.n_components,
                  '%s: components of %s' % (what, name))
        ctx.equal(x.n_samples, y.n_samples,
                  '%s: samples of %s' % (what, name))
        lx, ly = x.eigenvalues, y.eigenvalues
        ctx.close(lx, ly, '%s: variances of %s' % (what, name),
                  rtol=max(rt, 1e-6))
        U, V = x.components, y.components
        if len(ly) and ly[-1] > 1e-6 * ly[0]:
            ctx.close((U.T * lx).dot(U), (V.T * ly).dot(V),
                      '%s: covariance of %s' % (what, name),
                      rtol=max(rt, 1e-6), atol=1e-12)

    for k in range(len(b.scales)):
        pca(a.shape_models[k].model, b.shape_models[k].model,
            'shape model %d' % k)
        if hasattr(b, 'deformation_models'):
            for nm in ('deformation_models', 'appearance_models'):
                x, y = getattr(a, nm)[k], getattr(b, nm)[k]
                ctx.close(np.ravel(x.mean_vector), np.ravel(y.mean_vector),
                          '%s: mean of %s' % (what, nm), rtol=1e-6)
                d = [np.asarray(m.precision.todense()) if
                     hasattr(m.precision, 'todense') else m.precision
                     for m in (x, y)]
                ctx.close(d[0], d[1], '%s: precision of %s' % (what, nm),
                          rtol=1e-3 if nm[0] == 'a' else 1e-5)
            ctx.check(np.array_equal(
                a.deformation_graph[k].edges, b.deformation_graph[k].edges),
                '%s: deformation graph', what)
        elif hasattr(b, 'appearance_models'):
            pca(a.appearance_models[k], b.appearance_models[k],
                'appearance model %d' % k)
        if hasattr(b, 'warped_templates'):
            ctx.equal(len(a.warped_templates), len(b.warped_templates),
                      what + ': number of templates')
            ctx.close(a.warped_templates[k].pixels,
                      b.warped_templates[k].pixels,
                      '%s: template %d' % (what, k), rtol=tol)
        if hasattr(b, 'expert_ensembles'):
            im, sh = probe(b, ims[0], k)
            ctx.close(a.expert_ensembles[k].predict_response(im, sh),
                      b.expert_ensembles[k].predict_response(im, sh),
                      '%s: experts %d' % (what, k), rtol=1e-6)


def probe(m, im, k):
    return m.holistic_features[k](im), im.landmarks['PTS']


scales_st = st.sampled_from([[1.], [.6, 1.], [.5, .75, 1.], [.8], [1., 1.]])
spec = dict(
    seed=gen.seeds, n=st.integers(3, 6), pts=st.integers(4, 6),
    c=st.integers(1, 2), scales=scales_st, diag=st.integers(22, 30),
    ms=st.sampled_from([None, None, 1, 2, .9]),
    ma=st.sampled_from([None, None, 1, 2, .9]),
    feats=st.lists(st.sampled_from(sorted(FEATS)), min_size=1, max_size=3))


def images(s, n=None):
    return gen.image_set(s['seed'], n or s['n'], s['pts'], n_channels=s['c'],
                         size=(44, 46), noise=.05)


def transform(kind):
    return fams.DifferentiableThinPlateSplines if 'masked' in kind else \
        fams.DifferentiablePiecewiseAffine


def dense(kind, frame, batches):
    # Increments are aligned before they become dense.  This is equivalent but
    # for Procrustes analysis stopping early and menpo truncating splines.
    return [densify_shapes(align_shapes(b) if i else b, frame,
                           transform(kind)) for i, b in enumerate(batches)]


# ------------------------------------------------------------- composition
def vectors(kind, s, ref, batches, k):
    """Shapes and warped images of every batch at scale k, from the builder
    functions as documented."""
    sc = s['scales'][k]
    n = len(s['scales'])
    feat = FEATS[(s['feats'] * n)[:n][k]]
    ref_k = Scale(sc, n_dims=2).apply(ref)
    shapes, warped, scaled, frame = [], [], [], None
    for b in batches:
        x = rescale_images_to_reference_shape(b, 'PTS', ref)
        x = compute_features(x, feat)
        if sc != 1:
            x = scale_images(x, sc)
        sh = [i.landmarks['PTS'] for i in x]
        if 'linear' in kind:
            if frame is None:
                mean = np.mean([a.points for a in align_shapes(sh)], axis=0)
                frame = build_patch_reference_frame(
                    PointCloud(mean), patch_shape=PATCH) \
                    if 'masked' in kind else \
                    build_reference_frame(PointCloud(mean))
            T = transform(kind)
            shapes.append(sh)
            w = warp_images(x, sh, frame, T)
        elif kind.endswith('patch'):
            shapes.append(sh)
            w = extract_patches(x, sh, PATCH)
        elif kind.endswith('masked'):
            shapes.append(sh)
            frame = build_patch_reference_frame(ref_k, patch_shape=PATCH)
            w = warp_images(x, sh, frame, fams.DifferentiableThinPlateSplines)
        elif kind == 'clm':
            shapes.append(sh)
            w = None
        else:
            shapes.append(sh)
            frame = build_reference_frame(ref_k)
            w = warp_images(x, sh, frame, fams.DifferentiablePiecewiseAffine)
        warped.append(w)
        scaled.append((x, sh))
    if 'linear' in kind:
        shapes = dense(kind, frame, shapes)
    return shapes, warped, scaled


class Incremental(object):
    """Reference principal component analysis with forgetting."""

    def __init__(self, X, limit):
        self.mu, self.n = X.mean(0), len(X)
        d = X - self.mu
        self.L, self.stable = d, True
        self.rank(len(X) - 1)
        self.norm = len(X) - 1.
        self.trim(limit)

    def rank(self, r):
        u, sv, vt = np.linalg.svd(self.L, full_matrices=False)
        r = min(r, int((sv > 1e-9 * max(sv[0], 1e-300)).sum()))
        self.sv, self.vt = sv[:r], vt[:r]

    def trim(self, limit):
        if limit is None:
            return
        l = self.sv ** 2
        if isinstance(limit, float):
            c = np.cumsum(l) / l.sum()
            k = int((c < limit).sum()) + 1
            if np.abs(c - limit).min() < 1e-9:
                self.stable = False
        else:
            k = min(limit, len(l))
        if k < len(l) and l[k - 1] - l[k] < 1e-3 * l[0]:
            self.stable = False
        self.sv, self.vt = self.sv[:k], self.vt[:k]

    def add(self, X, ff, limit):
        nb, mb = len(X), X.mean(0)
        na = self.n * ff
        # the spectrum is stored per sample and restored with all samples
        old = self.sv * np.sqrt((self.n - 1.) / self.norm)
        self.L = np.vstack((ff * old[:, None] * self.vt, X - mb,
                            np.sqrt(na * nb / (na + nb)) * (mb - self.mu)))
        self.mu = (na * self.mu + nb * mb) / (na + nb)
        self.rank(len(self.L))
        self.n += nb
        self.norm = na + nb - 1.
        if isinstance(limit, float):
            # relative to a variance that increments do not know
            self.stable = False
        self.trim(limit)

    @property
    def eigenvalues(self):
        return self.sv ** 2 / self.norm


parts_st = st.lists(st.integers(1, 4), min_size=0, max_size=3).map(
    lambda x: x[::-1])


@facet(P, 'composition', st.fixed_dictionaries(dict(
    spec, kind=st.sampled_from(GEN), parts=parts_st,
    sf=st.sampled_from([.6, 1.]), af=st.sampled_from([.7, 1.]),
    ref=st.booleans(), how=st.sampled_from(['later', 'calls', 'batches']))),
    quick=300)
def composition(ctx, s):
    """Shape models, appearance models, templates and experts are those of
    all landmarks and warped images given (in any increments, with their own
    forgetting factors)."""
    kind = s['kind']
    ctx.label(kind)
    parts = list(s['parts'])
    later = s['how'] == 'later' and len(parts) > 0
    if later:
        # trained at once, then incremented in batches of one size
        parts = [parts[0]] * (len(parts) - 1) + [min(parts[-1], parts[0])]
        ctx.label('increments in %d batches' % len(parts))
    elif s['how'] == 'batches' and parts:
        # batches of one size, the last may be smaller
        parts = [s['n']] * (len(parts) - 1) + [min(parts[-1], s['n'])]
    total = s['n'] + sum(parts)
    ims = images(s, total)
    cut = np.cumsum([0, s['n']] + parts)
    batches = [ims[i:j] for i, j in zip(cut[:-1], cut[1:])]
    ctx.nontrivial(len(batches) > 1)
    kw = {}
    if s['ref']:
        kw['reference_shape'] = PointCloud(
            gen.base_points(s['pts'], gen.rng(s['seed'], 23)) * s['diag'] / 3)
    if kind.startswith('atm') or kind == 'clm':
        s['af'] = 1.
    if later:
        ikw = dict(group='PTS', shape_forgetting_factor=s['sf'],
                   batch_size=parts[0])
        rest = ims[s['n']:]
        if kind.startswith('atm'):
            kw['template'] = ims[0]
        elif kind != 'clm':
            ikw['appearance_forgetting_factor'] = s['af']
        m = train(kind, s, batches[0], **kw)
        if kind.startswith('atm'):
            m.increment(ims[-1], [x.landmarks['PTS'] for x in rest], **ikw)
        else:
            m.increment(rest, **ikw)
    elif s['how'] == 'batches' and parts:
        s['sf'] = s['af'] = 1.
        if kind.startswith('atm'):
            kw['template'] = ims[-1]
        m = train(kind, s, ims, batch_size=s['n'], **kw)
    else:
        if kind.startswith('atm'):
            kw['template'] = ims[0]
        m = train(kind, s, batches[0], **kw)
        for i, b in enumerate(batches[1:]):
            if kind.startswith('atm'):
                m.increment(ims[-1], [x.landmarks['PTS'] for x in b],
                            group='PTS', shape_forgetting_factor=s['sf'])
            elif kind == 'clm':
                m.increment(b, group='PTS', shape_forgetting_factor=s['sf'])
            else:
                m.increment(b, group='PTS', shape_forgetting_factor=s['sf'],
                            appearance_forgetting_factor=s['af'])
    n = len(s['scales'])
    ctx.equal(len(m.shape_models), n, 'number of shape models')
    for k in range(n):
        if kind.startswith('atm'):
            sc = Scale(s['scales'][k], n_dims=2)
            sh = [[sc.apply(i.landmarks['PTS']) for i in b] for b in batches]
            if 'linear' in kind:
                mean = PointCloud(np.mean(
                    [a.points for a in align_shapes(sh[0])], axis=0))
                frame = build_patch_reference_frame(mean, patch_shape=PATCH) \
                    if 'masked' in kind else build_reference_frame(mean)
                sh = dense(kind, frame, sh)
        else:
            sh, warped, scaled = vectors(kind, s, m.reference_shape, batches,
                                         k)
        # the shape model is trusted (P01, P03)
        p = OrthoPDM(sh[0], max_n_components=s['ms'])
        for b in sh[1:]:
            p.increment(b, forgetting_factor=s['sf'],
                        max_n_components=s['ms'])
        g = m.shape_models[k]
        ctx.close(g.model.mean().points, p.model.mean().points,
                  'mean shape %d' % k, rtol=1e-6)
        if well_posed(p.model):
            ctx.equal(g.model.n_components, p.model.n_components,
                      'shape components')
            ctx.close(g.model.eigenvalues, p.model.eigenvalues,
                      'shape variances %d' % k, rtol=1e-5)
        if kind.startswith('atm'):
            ctx.equal(len(m.warped_templates), n, 'number of templates')
            t = ims[-1] if len(batches) > 1 else kw['template']
            f = [frame] if 'linear' in kind else [None]
            exp = template(kind, s, m.reference_shape, t, k, f[0])
            ctx.close(m.warped_templates[k].pixels, exp.pixels,
                      'template %d' % k, rtol=1e-7)
        elif kind == 'clm':
            e = CorrelationFilterExpertEnsemble(
                scaled[0][0], scaled[0][1], patch_shape=PATCH,
                context_shape=CTX, patch_normalisation=no_op)
            for x, b in scaled[1:]:
                e.increment(x, b)
            im, b = scaled[-1][0][-1], scaled[-1][1][-1]
            ctx.close(m.expert_ensembles[k].predict_response(im, b),
                      e.predict_response(im, b), 'experts %d' % k, rtol=1e-6)
        else:
            X = [np.array([w.as_vector() for w in b]) for b in warped]
            r = Incremental(X[0], s['ma'])
            for x in X[1:]:
                r.add(x, s['af'], s['ma'])
            a = m.appearance_models[k]
            mean = a.mean()
            ctx.close(mean.as_vector(), r.mu, 'mean appearance %d' % k,
                      rtol=1e-6)
            ctx.equal(a.n_samples, total, 'samples of the appearance')
            if not r.stable:
                ctx.label('tie')
                continue
            j = min(len(r.sv), a.n_components)
            l = r.eigenvalues
            ctx.check(a.n_components >= (l > 1e-8 * l[0]).sum(),
                      'appearance components were lost: %d of %d',
                      a.n_components, len(l))
            ctx.check(np.abs(a.eigenvalues[j:]).sum() < 1e-7 * l[0],
                      'too many appearance components')
            ctx.close(a.eigenvalues[:j], l[:j], 'appearance variances %d' % k,
                      rtol=1e-5)
            U, V = a.components[:j], r.vt[:j]
            x = X[-1][-1] - r.mu
            ctx.close((U.T * a.eigenvalues[:j]).dot(U.dot(x)),
                      (V.T * l[:j]).dot(V.dot(x)), 'appearance covariance',
                      rtol=1e-4)


def local_mean(p):
    return p - p.mean(axis=(-3, -2, -1), keepdims=True)


def compress(p):
    return p / (.3 + np.abs(p))


@facet(P, 'options', st.fixed_dictionaries(dict(
    spec, kind=st.sampled_from(['clm', 'uni', 'aam_patch', 'atm_patch']),
    cos=st.booleans(), norm=st.integers(0, 2),
    offsets=st.lists(st.lists(st.integers(-2, 2), min_size=2, max_size=2),
                     max_size=3, unique_by=tuple),
    ps=st.lists(st.lists(st.integers(4, 9), min_size=2, max_size=2),
                min_size=3, max_size=3),
    more=st.lists(st.integers(0, 7), min_size=2, max_size=2),
    boundary=st.sampled_from([0, 1, 3, 6]),
    sigma=st.sampled_from([None, None, .8, 1.5]),
    inc=st.booleans())), quick=160)
def options_of_patches(ctx, s):
    """Experts and patch models use the cosine mask, normalisation, sample
    offsets, patch and context shape asked for; unified models also the
    boundary and the smoothing."""
    kind = s['kind']
    ctx.label(kind)
    n = len(s['scales'])
    norms = [no_op, local_mean, compress]
    N = [norms[s['norm']]] * n
    ps = [tuple(p) for p in s['ps'][:n]]
    cs = [tuple(a + b for a, b in zip(p, s['more'])) for p in ps]
    feats = [FEATS[f] for f in (s['feats'] * n)[:n]]
    kw = dict(scales=list(s['scales']), diagonal=s['diag'],
              holistic_features=feats, patch_shape=ps)
    off = np.array(s['offsets']) if s['offsets'] else None
    if kind in ('clm', 'uni'):
        kw.update(context_shape=cs, cosine_mask=s['cos'],
                  patch_normalisation=N[0], sample_offsets=off)
    elif kind == 'aam_patch':
        N = [norms[(s['norm'] + i) % 3] for i in range(n)]
        kw['patch_normalisation'] = N
    else:
        kw['patch_normalisation'] = N[0]
    if kind == 'uni':
        kw.update(boundary=s['boundary'], sigma=s['sigma'])
    ims = images(s)
    extra = images(dict(s, seed=s['seed'] + 9), 2) if s['inc'] and \
        kind in ('clm', 'aam_patch') else []
    if kind == 'uni':
        # (not MODEL options of fams: all components are kept)
        kw['max_appearance_components'] = None
    m = fams.make(kind, ims, **kw)
    if extra:
        m.increment(extra, group='PTS')
        ctx.label('increment')
    for k in range(n):
        parts = []
        for b in (ims, extra):
            if not b:
                continue
            x = rescale_images_to_reference_shape(b, 'PTS', m.reference_shape)
            if kind == 'uni' and s['sigma']:
                for i in x:
                    i.pixels = np.array([gaussian_filter(
                        c, s['sigma'], mode='constant') for c in i.pixels])
            x = compute_features(x, feats[k])
            if s['scales'][k] != 1:
                x = scale_images(x, s['scales'][k])
            parts.append((x, [i.landmarks['PTS'] for i in x]))
        if kind in ('clm', 'uni'):
            e = CorrelationFilterExpertEnsemble(
                parts[0][0], parts[0][1], patch_shape=ps[k],
                context_shape=cs[k], patch_normalisation=N[k],
                cosine_mask=s['cos'], sample_offsets=off)
            for x, b in parts[1:]:
                e.increment(x, b)
            im, b = parts[-1][0][-1], parts[-1][1][-1]
            ctx.close(m.expert_ensembles[k].predict_response(im, b),
                      e.predict_response(im, b), 'experts %d' % k, rtol=1e-6)
        if kind == 'clm':
            continue
        if kind == 'uni':
            x, b = parts[0]
            frame = build_reference_frame(
                Scale(s['scales'][k], n_dims=2).apply(m.reference_shape),
                boundary=s['boundary'])
            w = [i.as_vector() for i in warp_images(
                x, b, frame, fams.DifferentiablePiecewiseAffine)]
            p = OrthoPDM(b).model
            g = m.shape_models[k].model
            ctx.close(g.mean().points, p.mean().points, 'mean shape',
                      rtol=1e-7)
            if well_posed(p):
                ctx.close(g.eigenvalues, p.eigenvalues, 'shape variances',
                          rtol=1e-6)
        elif kind == 'atm_patch':
            x = ims[0].rescale_to_pointcloud(m.reference_shape, group='PTS')
            x = scale_images(compute_features([x], feats[k]), s['scales'][k])
            t = x[0].extract_patches(x[0].landmarks['PTS'],
                                     patch_shape=ps[k], as_single_array=True)
            ctx.close(m.warped_templates[k].pixels, N[k](t), 'template',
                      rtol=1e-7)
            continue
        else:
            w = [N[k](i.extract_patches(c, patch_shape=ps[k],
                                        as_single_array=True)).ravel()
                 for x, b in parts for i, c in zip(x, b)]
        w = np.array(w)
        a = m.appearance_models[k]
        ctx.close(a.mean().as_vector(), w.mean(0), 'mean appearance %d' % k,
                  rtol=1e-6)
        sv = np.linalg.svd(w - w.mean(0), compute_uv=False)
        l = sv ** 2 / (len(w) - 1)
        l = l[l > 1e-7 * l[0]]
        ctx.close(a.eigenvalues[:len(l)], l, 'appearance variances',
                  rtol=1e-4)


def well_posed(model):
    l = model.eigenvalues
    return len(l) > 0 and l[-1] > 1e-6 * l[0]


def template(kind, s, ref, im, k, frame):
    n = len(s['scales'])
    sc = s['scales'][k]
    feat = FEATS[(s['feats'] * n)[:n][k]]
    im = im.rescale_to_pointcloud(ref, group='PTS')
    x = compute_features([im], feat)
    if sc != 1:
        x = scale_images(x, sc)
    sh = [x[0].landmarks['PTS']]
    ref_k = Scale(sc, n_dims=2).apply(ref)
    T = transform(kind)
    if kind.endswith('patch'):
        return extract_patches(x, sh, PATCH)[0]
    if frame is None:
        if kind.endswith('masked'):
            frame = build_patch_reference_frame(ref_k, patch_shape=PATCH)
        else:
            frame = build_reference_frame(ref_k)
    return warp_images(x, sh, frame, T)[0]


# -------------------------------------------------------------- invariance
ALL = GEN + ['aps', 'uni']


@facet(P, 'presentation', st.fixed_dictionaries(dict(
    spec, kind=st.sampled_from(ALL), how=st.sampled_from(
        ['verbose', 'iterator', 'group', 'others', 'order', 'big_batch',
         'again', 'dtype', 'loud_increment', 'twice']))), quick=280)
def presentation(ctx, s):
    """Verbosity, containers, unrelated landmark groups, the order of images
    and batches as large as the data make no difference."""
    kind, how = s['kind'], s['how']
    ims = images(s, s['n'] + (2 if kind == 'aps' else 0))
    ctx.label(how)
    if how == 'order' and 'linear' in kind:
        # rounding may add or remove a pixel of the dense shapes
        how = 'again'
    base = {}
    if kind == 'aps':
        base['max_appearance_components'] = 2
    if kind.startswith('atm'):
        base['template'] = ims[0]
    if how == 'loud_increment' and kind not in ('uni', 'aps'):
        a, b = (train(kind, s, ims, **base) for _ in range(2))
        extra = images(dict(s, seed=s['seed'] + 1), 3)

        def inc(m, v):
            if kind.startswith('atm'):
                return m.increment(extra[0],
                                   [i.landmarks['PTS'] for i in extra],
                                   group='PTS', verbose=v)
            return m.increment(extra, group='PTS', verbose=v)

        _, out = quiet(lambda: inc(a, False))
        ctx.equal(out, '', 'printed without being verbose')
        quiet(lambda: inc(b, True))
        same(ctx, b, a, ims, how)
        return
    m, out = quiet(lambda: train(kind, s, ims, **base))
    ctx.equal(out, '', 'printed without being verbose')
    kw = dict(base)
    given = ims
    if how == 'verbose':
        kw['verbose'] = True
    elif how == 'iterator' and kind != 'uni':
        if kind.startswith('atm'):
            o = options(s, kind)
            g, _ = quiet(lambda: fams.ATMS[kind[4:]](
                ims[0], (i.landmarks['PTS'] for i in ims), group='PTS', **o))
            same(ctx, g, m, ims, how)
            return
        if kind in ('aps',):
            given = tuple(ims)
        else:
            o = options(s, kind)
            cls = fams.clm.CLM if kind == 'clm' else fams.AAMS[kind[4:]]
            g, _ = quiet(lambda: cls((i for i in ims), group='PTS', **o))
            same(ctx, g, m, ims, how)
            return
    elif how == 'twice':
        # one image object given twice counts as much as a copy of it
        m, _ = quiet(lambda: train(kind, s, ims + [ims[0].copy()], **base))
        given = ims + [ims[0]]
    elif how == 'group':
        kw['group'] = None
    elif how == 'others':
        given = [i.copy() for i in ims]
        rs = gen.rng(s['seed'], 9)
        for i in given:
            # sorts before and after the group of interest
            for g in ('AAA', 'zzz'):
                i.landmarks[g] = PointCloud(40 * rs.rand(3, 2))
        if kind.startswith('atm'):
            kw['template'] = given[0]
    elif how == 'order':
        given = [ims[i] for i in gen.rng(s['seed'], 4).permutation(len(ims))]
    elif how == 'big_batch' and kind not in ('uni', 'aps'):
        kw['batch_size'] = len(ims) + s['seed'] % 3
    elif how == 'dtype':
        # whole numbers are exact in either precision
        def conv(d):
            out = []
            for i in ims:
                j = Image(np.round(200 * i.pixels).astype(d))
                j.landmarks['PTS'] = i.landmarks['PTS']
                out.append(j)
            return out
        m, _ = quiet(lambda: train(kind, s, conv(np.float64), **dict(
            base, **({'template': conv(np.float64)[0]}
                     if 'template' in base else {}))))
        given = conv(np.float32)
        if 'template' in base:
            kw['template'] = given[0]
    got, out = quiet(lambda: train(kind, s, given, **kw))
    if how != 'verbose':
        ctx.equal(out, '', 'printed without being verbose')
    tol = 1e-4 if how == 'dtype' else 1e-7
    if how == 'dtype':
        near(ctx, got, m)
    else:
        same(ctx, got, m, ims, how, tol)


def near(ctx, a, b):
    """Single precision images: means agree to their precision."""
    for k in range(len(b.scales)):
        ctx.close(a.shape_models[k].model.mean().points,
                  b.shape_models[k].model.mean().points, 'dtype: mean shape',
                  rtol=1e-3)
        if hasattr(b, 'appearance_models'):
            v = [np.ravel(m.appearance_models[k].mean().as_vector())
                 for m in (a, b)]
            ctx.close(v[0], v[1], 'dtype: mean appearance', rtol=1e-3)


# ----------------------------------------------------------------- cascades
@facet(P, 'cascades', st.fixed_dictionaries(dict(
    seed=gen.seeds, n=st.integers(3, 5), pts=st.integers(4, 5),
    scales=st.sampled_from([[1.], [.6, 1.]]), its=st.integers(1, 2),
    cls=st.sampled_from(['RegularizedSDM', 'NonParametricNewton',
                         'ParametricShapeNewton']),
    how=st.sampled_from(['verbose', 'iterator', 'others', 'again', 'group']),
    nper=st.integers(1, 3))), quick=80)
def cascades(ctx, s):
    """Supervised descent training depends on images, options and the state
    of the random generator only."""
    ims = gen.image_set(s['seed'], s['n'], s['pts'], size=(44, 46), noise=.05)
    kw = dict(scales=s['scales'], patch_shape=(5, 5), n_iterations=s['its'],
              n_perturbations=s['nper'], diagonal=26, group='PTS')
    if s['cls'] == 'RegularizedSDM':
        def mk(x, **o):
            return sdm.RegularizedSDM(x, alpha=1., **dict(kw, **o))
    else:
        alg = getattr(sdm, s['cls'])
        from functools import partial

        def mk(x, **o):
            return sdm.SupervisedDescentFitter(
                x, sd_algorithm_cls=partial(alg, alpha=1.),
                **dict(kw, **o))
    ctx.label(s['how'])

    def run(x, **o):
        np.random.seed(7)
        return quiet(lambda: mk(x, **o))

    a, out = run(ims)
    ctx.equal(out, '', 'printed without being verbose')
    given, o = ims, {}
    if s['how'] == 'verbose':
        o['verbose'] = True
    elif s['how'] == 'iterator':
        given = (i for i in ims)
    elif s['how'] == 'group':
        o['group'] = None
    elif s['how'] == 'others':
        given = [i.copy() for i in ims]
        for i in given:
            i.landmarks['AAA'] = PointCloud(40 * np.eye(3, 2))
            i.landmarks['zzz'] = PointCloud(40 * np.eye(3, 2))
    b, _ = run(given, **o)
    ctx.close(b.reference_shape.points, a.reference_shape.points,
              'reference shape', rtol=1e-9)
    for x, y in zip(b.algorithms, a.algorithms):
        ctx.equal(len(x.regressors), len(y.regressors), 'regressors')
        for p, q in zip(x.regressors, y.regressors):
            ctx.close(p.W, q.W, s['how'] + ': regression', rtol=1e-6)
    sh = gen.perturb(ims[0].landmarks['PTS'], s['seed'], 1.)
    ctx.close(b.fit_from_shape(ims[0], sh).final_shape.points,
              a.fit_from_shape(ims[0], sh).final_shape.points,
              s['how'] + ': fit', rtol=1e-6)
