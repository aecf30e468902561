"""P23: active pictorial structures: graphs, Gaussian Markov random fields,
spanning trees and increments."""
import itertools

import matplotlib
matplotlib.use('Agg')
import numpy as np
from hypothesis import strategies as st

from menpo.feature import no_op
from menpo.model import PCAModel
from menpo.shape import (DirectedGraph, PointCloud, PointDirectedGraph,
                         PointTree, Tree, UndirectedGraph)
from menpofit.aps import GenerativeAPS
from menpofit.modelinstance import OrthoPDM
from ..core import facet, Discard
from .. import gen
from ..ref import align_shapes
from .p04 import feat_sq, feat_neg, feat_half

P = 'P23'
FEATS = {'no': no_op, 'sq': feat_sq, 'neg': feat_neg, 'half': feat_half}


def norm_scale(x, **kwargs):
    return 2. * x - .3


# --------------------------------------------------------------------------
# graphs
# --------------------------------------------------------------------------
def edges_of(kind, n, rs):
    """Edges (each pair once) of an undirected graph on n vertices."""
    pairs = list(itertools.combinations(range(n), 2))
    if kind == 'chain':
        return [(i, i + 1) for i in range(n - 1)]
    if kind == 'star':
        return [(0, i) for i in range(1, n)]
    if kind == 'complete':
        return pairs
    if kind == 'cycle':
        return [(i, (i + 1) % n) for i in range(n)]
    if kind == 'empty':
        return []
    m = rs.randint(1, len(pairs) + 1)
    return [pairs[i] for i in sorted(rs.permutation(len(pairs))[:m])]


def undirected(kind, n, rs):
    e = edges_of(kind, n, rs)
    if not e:
        return UndirectedGraph(np.zeros((n, n)))
    return UndirectedGraph.init_from_edges(np.array(e), n)


def deformation(kind, n, rs):
    if kind == 'none':
        return None
    if kind == 'tree':
        # each vertex hangs below an earlier one
        for _ in range(20):
            order = rs.permutation(n)
            e = [(order[rs.randint(i)], order[i]) for i in range(1, n)]
            try:
                return Tree.init_from_edges(np.array(e), n,
                                            root_vertex=int(order[0]))
            except ValueError:
                # menpo takes some numberings for different trees
                pass
        return Tree.init_from_edges(np.array([(0, i) for i in range(1, n)]),
                                    n, root_vertex=0)
    e = [(b, a) if rs.rand() < .5 else (a, b)
         for a, b in edges_of(kind, n, rs)]
    return DirectedGraph.init_from_edges(np.array(e), n)


# --------------------------------------------------------------------------
# reference precisions
# --------------------------------------------------------------------------
def inverse(c, k):
    """(Truncated) inverse and the condition number of what is inverted."""
    l, v = np.linalg.eigh(c)
    l, v = l[::-1], v[:, ::-1]
    if k is None or k >= len(l):
        kept, gap = l, 1.
    else:
        kept, gap = l[:k], (l[k - 1] - l[k]) / l[0]
        v = v[:, :k]
    if kept[-1] <= 0 or gap < 1e-3:
        raise Discard
    return (v / kept).dot(v.T), kept[0] / kept[-1]


def precision(X, edges, n_vertices, mode, k):
    """Sum over the edges of the inverse covariances of their vertices."""
    d = X.shape[1] // n_vertices
    Q = np.zeros((X.shape[1],) * 2)
    cond = 1.
    part = lambda v: np.arange(v * d, (v + 1) * d)
    cov = lambda x: (x - x.mean(0)).T.dot(x - x.mean(0)) / (len(x) - 1.)
    if len(edges) == 0:
        for v in range(n_vertices):
            i = part(v)
            B, c = inverse(cov(X[:, i]), k)
            cond = max(c, cond)
            Q[np.ix_(i, i)] += B
        return Q, cond
    for a, b in edges:
        i, j = part(a), part(b)
        if mode == 'concatenation':
            ij = np.hstack((i, j))
            B, c = inverse(cov(X[:, ij]), k)
            Q[np.ix_(ij, ij)] += B
        else:
            B, c = inverse(cov(X[:, i] - X[:, j]), k)
            Q[np.ix_(i, i)] += B
            Q[np.ix_(j, j)] += B
            Q[np.ix_(i, j)] -= B
            Q[np.ix_(j, i)] -= B
        cond = max(c, cond)
    return Q, cond


def dense(m):
    q = m.precision
    return np.asarray(q.todense() if hasattr(q, 'todense') else q, dtype=float)


# --------------------------------------------------------------------------
# reference spanning trees
# --------------------------------------------------------------------------
def mst_weight_matrix(shapes):
    """Negative log-likelihoods of the relative locations under Gaussians."""
    X = np.array([s.points for s in shapes])
    n, m = X.shape[1], X.shape[0]
    W = np.zeros((n, n))
    for i, j in itertools.combinations(range(n), 2):
        d = X[:, i] - X[:, j]
        d = d - d.mean(0)
        C = d.T.dot(d) / (m - 1.)
        s, ld = np.linalg.slogdet(C)
        W[i, j] = W[j, i] = .5 * np.sum(d.dot(np.linalg.inv(C)) * d) + \
            m * (np.log(2 * np.pi) + .5 * ld)
    return W


def kruskal(W):
    n = len(W)
    e = sorted((W[i, j], i, j) for i, j in
               itertools.combinations(range(n), 2))
    root = list(range(n))
    total = 0.
    for w, i, j in e:
        a, b = root[i], root[j]
        if a != b:
            total += w
            root = [a if r == b else r for r in root]
    return total


def check_tree(ctx, g, shapes, what):
    n = shapes[0].n_points
    ctx.check(isinstance(g, Tree), '%s is not a tree', what)
    ctx.equal(g.root_vertex, 0, what + ': root')
    E = [tuple(e) for e in g.edges]
    ctx.equal(len(E), n - 1, what + ': number of edges')
    reached = {0}
    for _ in range(n):
        reached |= {int(b) for a, b in E if int(a) in reached}
    ctx.equal(reached, set(range(n)), what + ': vertices below the root')
    W = mst_weight_matrix(shapes)
    best = kruskal(W)
    ctx.close(sum(W[a, b] for a, b in E), best, what + ': weight', rtol=1e-6,
              scale=np.abs(W).max())


# --------------------------------------------------------------------------
graphs = st.sampled_from(['chain', 'star', 'complete', 'cycle', 'random',
                          'empty'])
spec = dict(
    seed=gen.seeds, n=st.integers(7, 10), pts=st.integers(3, 5),
    c=st.integers(1, 2), scales=st.sampled_from(
        [[1.], [.6, 1.], [.5, .75, 1.], [1., 1.], [.8]]),
    feats=st.lists(st.sampled_from(sorted(FEATS)), min_size=1, max_size=3),
    diag=st.sampled_from([None, 24, 28]), ref=st.booleans(),
    patch=st.sampled_from([[3, 3], [3, 5], [1, 1]]),
    norm=st.booleans(), procrustes=st.booleans(),
    dtype=st.sampled_from(['float32', 'float64']),
    nac=st.one_of(st.just(3), st.lists(st.integers(1, 4), min_size=3,
                                       max_size=3)),
    app=st.one_of(graphs, st.lists(graphs, min_size=3, max_size=3)),
    shp=st.one_of(st.just(None), st.sampled_from(
        ['chain', 'star', 'complete', 'cycle'])),
    msc=st.sampled_from([None, 1, 2, 3]),
    dfm=st.one_of(st.sampled_from(['none', 'tree', 'chain', 'complete',
                                   'random']), st.lists(
        st.sampled_from(['none', 'tree', 'star', 'random']), min_size=3,
        max_size=3)))


def setup(s, extra=0, group='PTS'):
    n_sc = len(s['scales'])
    ims = gen.image_set(s['seed'], s['n'] + extra, s['pts'],
                        n_channels=s['c'], size=(44, 46), noise=.08)
    for im in ims:
        im.landmarks['other'] = PointCloud(im.landmarks['PTS'].points[:2])
    if s['pts'] < 4:
        # edges of aligned triangles have singular covariances
        s['shp'] = None
    if s['patch'] == [1, 1] and s['c'] == 1:
        # menpo can not invert the variances of single features
        avoid = lambda k: 'chain' if k == 'empty' else k
        s['app'] = [avoid(k) for k in s['app']] \
            if isinstance(s['app'], list) else avoid(s['app'])
    per = lambda v: (list(v)[:n_sc] if isinstance(v, list) else [v] * n_sc)
    rs = gen.rng(s['seed'], 51)
    app = [undirected(k, s['pts'], rs) for k in per(s['app'])]
    if not isinstance(s['app'], list):
        app = [app[0]] * n_sc
    shp = None if s['shp'] is None else undirected(s['shp'], s['pts'], rs)
    dfm = [deformation(k, s['pts'], rs) for k in per(s['dfm'])]
    if not isinstance(s['dfm'], list):
        dfm = [dfm[0]] * n_sc
    nac = per(s['nac'])
    if s['patch'] == [1, 1] and s['n'] > 2 * s['c'] * (
            2 if 'sq' in s['feats'] else 1) + 2:
        # few features: full inverses
        nac = [None] * n_sc
    feats = [FEATS[f] for f in (s['feats'] * n_sc)[:n_sc]]
    kw = dict(
        group='PTS', appearance_graph=app if isinstance(s['app'], list)
        else app[0], shape_graph=shp,
        deformation_graph=dfm if isinstance(s['dfm'], list) else dfm[0],
        holistic_features=feats, diagonal=s['diag'],
        scales=list(s['scales']), patch_shape=tuple(s['patch']),
        use_procrustes=s['procrustes'],
        precision_dtype=np.dtype(s['dtype']).type,
        max_shape_components=s['msc'],
        n_appearance_components=nac if isinstance(s['nac'], list)
        else nac[0])
    if s['norm']:
        kw['patch_normalisation'] = norm_scale
    if s['ref']:
        kw['reference_shape'] = PointCloud(
            ims[0].landmarks['PTS'].points * .9)
    return ims, kw, dict(app=app, shp=shp, dfm=dfm, nac=nac, feats=feats)


def batch_data(s, o, ims, ref):
    """Shapes at the reference scale; shapes and patches per scale."""
    rescaled = [im.rescale_to_pointcloud(ref, group='PTS') for im in ims]
    out = []
    for j, sc in enumerate(s['scales']):
        shapes, patches = [], []
        for im in rescaled:
            f = o['feats'][j](im)
            if sc != 1:
                f = f.rescale(sc)
            sh = f.landmarks['PTS']
            p = f.extract_patches(sh, patch_shape=tuple(s['patch']),
                                  as_single_array=True)
            p = np.asarray(p.pixels if hasattr(p, 'pixels') else p)
            if s['norm']:
                p = norm_scale(p)
            shapes.append(PointCloud(sh.points))
            patches.append(p.ravel())
        out.append((shapes, np.array(patches)))
    return [im.landmarks['PTS'] for im in rescaled], out


def verify(ctx, s, o, m, batches, raw):
    """Compare a model trained on the batches with own statistics."""
    n, n_sc = s['pts'], len(s['scales'])
    data = [batch_data(s, o, b, m.reference_shape) for b in batches]
    edges = lambda g: [tuple(int(v) for v in e) for e in g.edges]
    for j in range(n_sc):
        # ---- deformation graph ----
        g = m.deformation_graph[j]
        if o['dfm'][j] is None:
            check_tree(ctx, g, data[0][0], 'spanning tree of scale %d' % j)
        else:
            ctx.check(g is o['dfm'][j] or (
                type(g) is type(o['dfm'][j]) and
                edges(g) == edges(o['dfm'][j])),
                'deformation graph of scale %d was replaced', j)
        # ---- shapes ----
        sh = [d[1][j][0] for d in data]
        al = [align_shapes(x) for x in sh]
        D = np.array([x.points.ravel() for b in (
            al if s['procrustes'] else sh) for x in b])
        Q, cond = precision(D, edges(g), n, 'subtraction', None)
        if cond < 1e7:
            ctx.close(dense(m.deformation_models[j]), Q,
                      'deformation precision of scale %d' % j,
                      rtol=1e-9 * cond)
        ctx.close(np.ravel(m.deformation_models[j].mean_vector), D.mean(0),
                  'deformation mean of scale %d' % j)
        ctx.equal(m.deformation_models[j].n_samples, len(D), 'samples')
        if raw:
            if o['shp'] is not None:
                S = np.array([x.points.ravel() for x in al[0]])
                Q, cond = precision(S, edges(o['shp']), n, 'concatenation',
                                    None)
                l = np.linalg.eigvalsh(Q)
                if cond > 1e6 or l[0] < 1e-6 * l[-1]:
                    raise Discard
                pdm = OrthoPDM(PCAModel.init_from_covariance_matrix(
                    C=Q, mean=PointCloud(S.mean(0).reshape(-1, 2)),
                    n_samples=len(S), centred=True, is_inverse=True),
                    max_n_components=s['msc'])
                tol = 1e-8 * cond
            else:
                pdm = OrthoPDM(al[0], max_n_components=s['msc'])
                tol = 1e-7
            for a in al[1:]:
                pdm.increment(a, max_n_components=s['msc'])
            x, y = m.shape_models[j].model, pdm.model
            ctx.close(x.mean().points, y.mean().points,
                      'mean shape of scale %d' % j, rtol=tol)
            ctx.equal(x.n_components, y.n_components,
                      'shape components of scale %d' % j)
            ly = y.eigenvalues
            ctx.close(x.eigenvalues, ly, 'shape variances of scale %d' % j,
                      rtol=tol)
            gaps = -np.diff(ly) if len(ly) > 1 else np.array([1.])
            full = s['msc'] is None or gaps.min() > 1e-3 * ly[0]
            if ly[-1] > 1e-5 * ly[0] and full and s['shp'] is None:
                ctx.close((x.components.T * x.eigenvalues).dot(x.components),
                          (y.components.T * ly).dot(y.components),
                          'shape covariance of scale %d' % j,
                          rtol=max(tol, 1e-6))
        # ---- appearance ----
        A = np.vstack([d[1][j][1] for d in data])
        ctx.close(np.ravel(m.appearance_models[j].mean_vector), A.mean(0),
                  'mean appearance of scale %d' % j)
        Q, cond = precision(A, edges(o['app'][j]), n, 'concatenation',
                            o['nac'][j])
        f32 = s['dtype'] == 'float32'
        if cond < (1e3 if f32 else 1e6):
            ctx.label('appearance judged')
            got = dense(m.appearance_models[j])
            ctx.close(got, Q, 'appearance precision of scale %d' % j,
                      rtol=(1e-5 if f32 else 1e-10) * cond)
            ctx.equal(m.appearance_models[j].precision.dtype,
                      np.dtype(s['dtype']), 'type of the precision')


@facet(P, 'models', st.fixed_dictionaries(dict(
    spec, verbose=st.booleans(), inc=st.booleans())), quick=500,
    thorough=3000)
def models(ctx, s):
    """Shape, deformation and appearance models equal own random fields."""
    s = dict(s)
    ims, kw, o = setup(s)
    snaps = [gen.snapshot_image(im) for im in ims]
    if s['verbose']:
        kw['verbose'] = True
    m = GenerativeAPS(ims, can_be_incremented=s['inc'], **kw)
    for im, sn in zip(ims, snaps):
        d = gen.image_diff(im, sn)
        ctx.check(d is None, 'training: %s', d)
    verify(ctx, s, o, m, [ims], True)
    ctx.equal(m.n_scales, len(s['scales']), 'number of scales')
    # ---- reference shape ----
    if s['ref']:
        ctx.close(m.reference_shape.points, kw['reference_shape'].points,
                  'reference shape', rtol=0)
    else:
        mean = np.mean([i.landmarks['PTS'].points for i in ims], 0)
        if s['diag'] is not None:
            mean = mean * s['diag'] / np.linalg.norm(
                mean.max(0) - mean.min(0))
        r = m.reference_shape.points
        ctx.close(r - r.mean(0), mean - mean.mean(0), 'reference shape')
    # ---- description ----
    text = str(m)
    ctx.equal(text.count('Trained using %s' % (
        'PCA' if s['shp'] is None else 'GMRF')), len(s['scales']),
        'shape models in the description')
    # ---- instances ----
    for j in range(len(s['scales'])):
        pca = m.shape_models[j].model
        k = pca.n_active_components
        w = gen.rng(s['seed'], 7).randn(k)
        e = pca.mean().points.ravel() + (w * np.sqrt(
            pca.eigenvalues[:k])).dot(pca.components)
        for graph in (False, True):
            x = m.instance(w, scale_index=j, as_graph=graph)
            ctx.close(x.points.ravel(), e, 'instance')
            g = m.deformation_graph[j]
            if graph:
                ctx.check(isinstance(x, PointTree if isinstance(g, Tree)
                                     else PointDirectedGraph),
                          'the instance is no graph')
                ctx.check(np.array_equal(x.edges, g.edges),
                          'edges of the instance')
                if isinstance(g, Tree):
                    ctx.equal(x.root_vertex, g.root_vertex, 'root')
            np.random.seed(3)
            x = m.random_instance(scale_index=j, as_graph=graph)
            np.random.seed(3)
            y = m.instance(np.random.randn(k), scale_index=j)
            ctx.close(x.points, y.points, 'random instance')
            ctx.equal(hasattr(x, 'edges'), graph, 'random graph')
        ctx.close(m.instance(scale_index=j).points, pca.mean().points,
                  'default instance')


@facet(P, 'increments', st.fixed_dictionaries(dict(
    spec, how=st.sampled_from(['batches', 'increment', 'increments',
                               'batched_increment', 'mixed']),
    more=st.integers(4, 7), bs=st.sampled_from([4, 5, 7]),
    gen=st.booleans())), quick=500, thorough=3000)
def increments(ctx, s):
    """Incremented models have seen every sample once."""
    s = dict(s)
    if s['patch'] == [1, 1] or s['shp']:
        # the covariances of the first batch have to be regular
        s['bs'] = 7
        if s['how'] in ('batches', 'mixed'):
            s['n'] = 7
    ims, kw, o = setup(s, s['more'])
    first, more = ims[:s['n']], ims[s['n']:]
    give = (lambda x: iter(x)) if s['gen'] else list
    split = lambda x, k: [x[i:i + k] for i in range(0, len(x), k)]
    snaps = [gen.snapshot_image(im) for im in ims]
    kw['can_be_incremented'] = True
    bs = s['bs']
    h = s['how']
    # single images can not be aligned
    if h in ('batches', 'mixed'):
        batches = split(first if h == 'mixed' else ims, bs)
        if h == 'batches':
            m = GenerativeAPS(give(ims), batch_size=bs, **kw)
        else:
            m = GenerativeAPS(give(first), batch_size=bs, **kw)
            m.increment(list(more), group='PTS')
            batches = batches + [more]
    else:
        m = GenerativeAPS(list(first), **kw)
        if h == 'increment':
            m.increment(list(more), group='PTS')
            batches = [first, more]
        elif h == 'increments':
            m.increment(list(more[:2]), group='PTS')
            m.increment(list(more[2:]), group='PTS')
            batches = [first, more[:2], more[2:]]
        else:
            m.increment(give(more), group='PTS', batch_size=2)
            batches = [first] + split(more, 2)
    ctx.label(h)
    for im, sn in zip(ims, snaps):
        d = gen.image_diff(im, sn)
        ctx.check(d is None, 'training: %s', d)
    verify(ctx, s, o, m, batches, True)


@facet(P, 'many_points', st.fixed_dictionaries(dict(
    seed=gen.seeds, pts=st.integers(8, 16), n=st.integers(6, 9),
    procrustes=st.booleans(), scales=st.sampled_from([[1.], [.6, 1.]]))),
    quick=40, thorough=400)
def many_points(ctx, s):
    """Trees of shapes with many points are minimal as well, and carry the
    deformation model."""
    ims = gen.image_set(s['seed'], s['n'], s['pts'], size=(50, 52), noise=.08)
    m = GenerativeAPS(ims, group='PTS', diagonal=30, scales=list(s['scales']),
                      patch_shape=(3, 3), n_appearance_components=2,
                      use_procrustes=s['procrustes'],
                      appearance_graph=UndirectedGraph.init_from_edges(
                          np.array([[0, 1]]), s['pts']))
    big = [i.rescale_to_pointcloud(m.reference_shape, group='PTS')
           for i in ims]
    for j, sc in enumerate(s['scales']):
        sh = [(i.rescale(sc) if sc != 1 else i).landmarks['PTS'] for i in big]
        g = m.deformation_graph[j]
        check_tree(ctx, g, [i.landmarks['PTS'] for i in big],
                   'deformation graph of scale %d' % j)
        if s['procrustes']:
            sh = align_shapes(sh)
        D = np.array([x.points for x in sh])
        Q = np.zeros((2 * s['pts'], 2 * s['pts']))
        for a, b in g.edges:
            c = np.linalg.inv(np.cov((D[:, a] - D[:, b]).T))
            for x, y, t in ((a, a, 1), (b, b, 1), (a, b, -1), (b, a, -1)):
                Q[2 * x:2 * x + 2, 2 * y:2 * y + 2] += t * c
        got = np.asarray(m.deformation_models[j].precision)
        ctx.close(got, Q, 'deformation precision', rtol=1e-6)


@facet(P, 'ellipses', st.fixed_dictionaries(dict(
    spec, n_std=st.sampled_from([1, 2, 3.5]), view=st.booleans(),
    inc=st.booleans())), quick=150, thorough=1500)
def ellipses(ctx, s):
    """Ellipses show the spread of the relative locations."""
    import matplotlib.pyplot as plt
    s = dict(s)
    ims, kw, o = setup(s)
    m = GenerativeAPS(ims, can_be_incremented=s['inc'], **kw)
    _, data = batch_data(s, o, ims, m.reference_shape)
    for j in range(len(s['scales'])):
        sh = data[j][0]
        if s['procrustes']:
            sh = align_shapes(sh)
        D = np.array([x.points for x in sh])
        exp = []
        mean = m.shape_models[j].model.mean().points
        for a, b in m.deformation_graph[j].edges:
            d = D[:, a] - D[:, b]
            l = np.linalg.eigvalsh(np.cov(d.T))
            exp.append(np.hstack((sorted(2 * s['n_std'] * np.sqrt(l)),
                                  mean[b][::-1] if s['view'] else mean[b])))
        try:
            m.view_deformation_model(scale_index=j, n_std=s['n_std'],
                                     image_view=s['view'], new_figure=True)
            got = [np.hstack((sorted((p.width, p.height)), p.center))
                   for p in plt.gca().patches]
        finally:
            plt.close('all')
        ctx.equal(len(got), len(exp), 'number of ellipses')
        key = lambda v: tuple(np.round(v, 6))
        ctx.close(np.array(sorted(got, key=key)),
                  np.array(sorted(exp, key=key)), 'ellipses', rtol=1e-4)


@facet(P, 'graphs', st.fixed_dictionaries(dict(
    seed=gen.seeds, which=st.sampled_from(['appearance_graph', 'shape_graph',
                                           'deformation_graph']),
    bad=st.sampled_from(['length', 'type', 'item', 'undirected']))),
    quick=60, thorough=300)
def bad_graphs(ctx, s):
    """Unsuitable graphs are refused."""
    rs = gen.rng(s['seed'])
    ims = gen.image_set(s['seed'], 7, 4, size=(40, 40), noise=.05)
    und = undirected('chain', 4, rs)
    dir_ = deformation('tree', 4, rs)
    right, wrong = (dir_, und) if s['which'] == 'deformation_graph' else \
        (und, dir_)
    v = {'length': [right] * 3, 'type': 'graph', 'item': [right, 3],
         'undirected': wrong}[s['bad']]
    if s['bad'] == 'undirected' and s['seed'] % 2:
        v = [right, wrong]
    kw = dict(appearance_graph=und, scales=(.5, 1.), patch_shape=(3, 3),
              n_appearance_components=2, diagonal=24)
    kw[s['which']] = v
    ctx.raises(ValueError, lambda: GenerativeAPS(ims, group='PTS', **kw),
               'unsuitable %s (%s)' % (s['which'], s['bad']))
