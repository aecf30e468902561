"""P29: fits are chains: longer ones continue shorter ones."""
import numpy as np
from hypothesis import strategies as st

from ..core import facet, Discard
from .. import gen, fams
from . import p27

P = 'P29'
SAME = p27.Same()
ONE = [k for k in p27.KINDS if k not in p27.CASCADES]
# (linear models densify the points they are given in a way that does not
# reproduce all of their own shapes)
EXACT = [k for k in ONE if 'linear' not in k]
# algorithms whose next iteration depends on nothing but the shape
FORGETFUL = ['ProjectOutForwardCompositional',
             'ProjectOutInverseCompositional',
             'ModifiedAlternatingForwardCompositional',
             'ModifiedAlternatingInverseCompositional',
             'WibergForwardCompositional']

spec = dict(p27.spec, kind=st.sampled_from(ONE), c=st.integers(1, 2),
            feats=st.lists(st.integers(0, 3), min_size=3, max_size=3),
            patch=st.lists(st.tuples(st.integers(5, 9), st.integers(5, 9)),
                           min_size=3, max_size=3),
            limits=st.lists(st.integers(0, 5), min_size=3, max_size=3),
            truth=st.booleans())


def data(s):
    ims = gen.image_set(s['seed'], s['images'] + 1, s['n'],
                        n_channels=s['c'], size=(58, 64), noise=.01)
    ims = [SAME.image(im) for im in ims]
    return ims[:-1], ims[-1], gen.perturb(
        ims[-1].landmarks['PTS'], s['seed'], .3, 1.)


def build(s, ims):
    try:
        with np.errstate(all='ignore'):
            return p27.build(s, ims, SAME)
    except (ValueError, np.linalg.LinAlgError):
        # (too little data)
        raise Discard()


def run(s, f, im, start, limits=None):
    kw = {} if limits is None else dict(max_iters=limits)
    if s['kind'] not in p27.CASCADES + ('clm',):
        kw['return_costs'] = True
    if s['truth']:
        kw['gt_shape'] = im.landmarks['PTS']
    fn = f.fit_from_shape
    if s['via'] == 'box':
        start, fn = start.bounding_box(), f.fit_from_bb
    try:
        with np.errstate(all='ignore'):
            return fn(im, start, **kw)
    except (ValueError, np.linalg.LinAlgError):
        raise Discard()


def parts(r, reconstructs=True):
    """The shapes of every scale."""
    x = [p.points for p in r.shapes]
    k, out = len(x) - sum(r.n_iters_per_scale) - \
        reconstructs * len(r.n_iters_per_scale), []
    for n in r.n_iters_per_scale:
        out.append(x[k:k + n + reconstructs])
        k += n + reconstructs
    return out


def gap(xa, xb):
    if len(xa) != len(xb):
        return np.inf
    return max([np.abs(p - q).max() for p, q in zip(xa, xb)] or [0.])


def parameters(r):
    return list(r.homogeneous_parameters
                if hasattr(r, 'homogeneous_parameters')
                else r.shape_parameters)


@facet(P, 'limits', st.fixed_dictionaries(dict(
    spec, at=st.integers(0, 2), more=st.integers(1, 4),
    scales=st.sampled_from([[1.], [.5, 1.], [1., 1.], [.4, .7, 1.]]))),
    quick=260, thorough=4000)
def limits(ctx, s):
    """With a larger limit at some scale, a fit starts with the fit with the
    smaller one: shapes, parameters and costs up to there are the same, and
    all of them if it had converged."""
    train, im, start = data(s)
    k = len(s['scales'])
    j = s['at'] % k
    la = list(s['limits'][:k])
    lb = list(la)
    lb[j] += s['more']
    f = build(s, train)
    one = k == 1
    a = run(s, f, im, start, la[0] if one else la)
    b = run(s, f, im, start, lb[0] if one else lb)
    ctx.label(s['kind'])
    pa, pb = parts(a), parts(b)
    na, nb = a.n_iters_per_scale, b.n_iters_per_scale
    for n, l in zip(list(na) + list(nb), la + lb):
        ctx.check(n <= l, '%d iterations, %d allowed', n, l)
    converged = na[j] < la[j]
    ctx.nontrivial(na[j] > 0 and nb[j] > na[j])
    if converged:
        ctx.label('converged')
        ctx.equal(list(nb), list(na), 'iterations of a converged fit')
        common = len(a.shapes)
    else:
        ctx.check(nb[j] > 0 or nb[j] == lb[j] or na[j] == 0,
                  'no iteration is made')
        common = len(a.shapes) - sum(len(p) for p in pa[j + 1:])
    x = [p.points for p in a.shapes][:common]
    y = [p.points for p in b.shapes][:common]
    d = gap(x, y)
    ctx.check(d <= 1e-9, '%s: first %d shapes of the longer fit differ '
              'by %.3g', s['kind'], common, d)
    n = sum(na) if converged else sum(na[:j + 1])
    scales = k if converged else j + 1
    qa, qb = parameters(a), parameters(b)
    for i in range(n + scales):
        ctx.close(qb[i], qa[i], 'parameters', atol=1e-9)
    if getattr(a, 'costs', None) is not None:
        ca, cb = np.array(a.costs, float), np.array(b.costs, float)
        # (some report the cost of the start of every scale, too)
        extra = len(ca) - sum(na)
        ctx.check(extra in (0, k), '%d costs of %r iterations', len(ca), na)
        ctx.equal(len(cb) - sum(nb), extra, 'number of costs')
        m = n + (scales if extra else 0)
        ctx.close(cb[:m], ca[:m], 'costs', rtol=1e-9, atol=1e-12)


def tolerance(ctx, s, again, reference):
    """How much do the tiniest changes matter for this fit?"""
    e = 0.
    for k in range(3, 6):
        rs = gen.rng(s['seed'], k)
        g = gap(again(lambda im: p27.shaken(im, rs)), reference)
        if not g < 1e-4:
            ctx.label('undecided')
            raise Discard()
        e = max(e, g)
    return max(1e-6, 100 * e)


@facet(P, 'scales', st.fixed_dictionaries(dict(
    spec, kind=st.sampled_from(EXACT), at=st.integers(0, 1),
    n=st.integers(4, 5), images=st.just(9), full=st.just(True),
    scales=st.sampled_from([[.5, 1.], [.7, 1.], [1., 1.], [.4, .7, 1.],
                            [.5, .8, 1.]]))),
    quick=160, thorough=2500)
def scales(ctx, s):
    """A scale without iterations might as well not be there (when all scales
    can show every shape)."""
    train, im, start = data(s)
    k = len(s['scales'])
    j = s['at'] % (k - 1)
    la = [max(1, n) for n in s['limits'][:k]]
    la[j] = 0
    keep = [i for i in range(k) if i != j]
    t = dict(s, **{o: [s[o][i] for i in keep]
                   for o in ('scales', 'feats', 'patch')})
    lb = [la[i] for i in keep]

    def both(change):
        x = [change(i) for i in train]
        y = change(im)
        a = run(s, build(s, x), y, start, la)
        b = run(t, build(t, x), y, start, lb)
        return a, b
    a, b = both(lambda i: i)
    pa, pb = parts(a), parts(b)
    pa = [pa[i] for i in keep]
    ctx.label(s['kind'])
    xa, xb = sum(pa, []), sum(pb, [])
    ctx.nontrivial(gap(xa[-1:], xa[:1]) > .05)
    d = gap(xa, xb)
    if not d <= 1e-6:
        def again(change):
            b = both(change)[1]
            return sum(parts(b), [])
        tol = tolerance(ctx, s, again, xb)
        ctx.check(d <= tol, '%s: without the scale that makes no iterations, '
                  'shapes differ by %.3g (%r and %r iterations)', s['kind'],
                  d, a.n_iters_per_scale, b.n_iters_per_scale)


def forgetful(s):
    """The same case with an algorithm that keeps nothing but shapes."""
    if s['kind'].startswith('aam_'):
        name = FORGETFUL[s['alg'] % len(FORGETFUL)]
        return dict(s, alg=fams.AAM_ALGS.index(name))
    return s


@facet(P, 'continued', st.fixed_dictionaries(dict(
    spec, kind=st.sampled_from(EXACT), first=st.integers(0, 4), then=st.integers(1, 4),
    scales=st.just([1.]), diag=st.just(None))), quick=200, thorough=3000)
def continued(ctx, s):
    """Iterations of algorithms that keep nothing but the shape go on where
    they are interrupted: running n iterations and then m from where they
    ended is running n + m."""
    s = forgetful(s)
    train, im, start = data(s)
    f = build(s, train)
    A = f.algorithms[0]
    im = p27.FEATS[s['feats'][0]](im)
    kw = {} if s['kind'] == 'clm' else dict(return_costs=True)
    n, m = s['first'], s['then']

    def go(im, x, k):
        try:
            with np.errstate(all='ignore'):
                return A.run(im, x, max_iters=k, **kw)
        except (ValueError, np.linalg.LinAlgError):
            raise Discard()

    whole = go(im, start, n + m)
    a = go(im, start, n)
    b = go(im, a.final_shape, m)
    ctx.label(s['kind'])
    xw = [p.points for p in whole.shapes]
    xa = [p.points for p in a.shapes]
    xb = [p.points for p in b.shapes]
    if a.n_iters < n or whole.n_iters == n:
        # (at the last step that is made at the latest)
        ctx.label('converged')
        ctx.check(gap(xw, xa) <= 1e-9, 'a converged fit goes on')
        return
    ctx.nontrivial(n > 0 and b.n_iters > 0 and gap(xb[-1:], xa[:1]) > .05)
    xc = xa + xb[2:]
    d = gap(xw, xc)
    if not d <= 1e-6:
        rs = gen.rng(s['seed'], 3)
        j = go(p27.shaken(im, rs), start, n + m)
        e = gap([p.points for p in j.shapes], xw)
        if not e < 1e-4:
            ctx.label('undecided')
            raise Discard()
        ctx.check(d <= max(1e-6, 1e3 * e),
                  '%s: %d and then %d iterations differ from %d by %.3g (%d '
                  'and %d of them)', s['kind'], n, m, n + m, d, len(xc),
                  len(xw))
        return
    if kw and whole.costs is not None:
        ca, cb, cw = [np.array(r.costs, float) for r in (a, b, whole)]
        extra = len(cw) - whole.n_iters
        ctx.check(extra in (0, 1), '%d costs', len(cw))
        ctx.close(np.concatenate([ca, cb[extra:]]), cw, 'costs', rtol=1e-4,
                  atol=1e-6 * np.max(np.abs(cw), initial=0))


def matrix(p):
    """The affine transform with these parameters."""
    return np.vstack([np.reshape(p, (2, 3), order='F'), np.zeros(3)]) + \
        np.eye(3)


def steps(s, r):
    """How far every iteration moved: the points of the shape or, for
    templates, the parameters of the increment."""
    if s['kind'] != 'lk':
        x = [p.points for p in r.shapes][-r.n_iters - 1:]
        return np.array([np.linalg.norm(a - b) for a, b in zip(x, x[1:])])
    p, name, out = r.homogeneous_parameters, fams.LK_ALGS[s['alg'] % 3], []
    for a, b in zip(p[-r.n_iters - 1:], p[-r.n_iters:]):
        d = np.asarray(b) - a
        if name != 'ForwardAdditive':
            d = np.linalg.solve(matrix(a), matrix(b))
            if name == 'InverseCompositional':
                d = np.linalg.inv(d)
            d -= np.eye(3)
        out.append(np.linalg.norm(d))
    return np.array(out)


@facet(P, 'convergence', st.fixed_dictionaries(dict(
    spec, how=st.integers(0, 2 ** 16), at=st.integers(0, 7),
    then=st.integers(1, 3), between=st.sampled_from([.02, .5, .98]),
    scales=st.just([1.]), diag=st.just(None))), quick=450, thorough=6000)
def convergence(ctx, s):
    """A fit ends with the first step that is no longer than `eps`, and not
    before.  (Linear models measure the dense shape, which is not shown.)"""
    kinds = EXACT + ['lk', 'lk']
    s = dict(s, kind=kinds[s['how'] % len(kinds)])
    train, im, start = data(s)
    im = p27.FEATS[s['feats'][0]](im)
    n = s['at'] + 1 + s['then']

    def go(eps):
        f = build(dict(s, eps=eps), train)
        try:
            with np.errstate(all='ignore'):
                return f.algorithms[0].run(im, start, max_iters=n)
        except (ValueError, np.linalg.LinAlgError):
            raise Discard()

    a = go(-1.)
    ctx.equal(a.n_iters, n, 'iterations without convergence')
    d = steps(s, a)
    if not np.all(np.isfinite(d)):
        raise Discard()
    # the tolerance lies between the lengths of two of the steps
    lengths = np.unique(np.append(d, 0.))
    i = s['at'] % (len(lengths) - 1)
    lo, hi = lengths[i], lengths[i + 1]
    if hi - lo < 1e-9 * (1 + hi):
        raise Discard()
    eps = lo + s['between'] * (hi - lo)
    b = go(eps)
    below = np.flatnonzero(d <= eps)
    k = below[0] + 1 if len(below) else n
    ctx.label(s['kind'])
    ctx.nontrivial(1 < k < n)
    ctx.check(b.n_iters == k, '%s: stops after %d iterations instead of %d: '
              'eps %r, steps %r', s['kind'], b.n_iters, k, eps, d)
    xa = [p.points for p in a.shapes]
    xb = [p.points for p in b.shapes]
    ctx.check(gap(xa[:len(xb)], xb) <= 1e-9, 'shapes differ')


@facet(P, 'repeated_scales', st.fixed_dictionaries(dict(
    spec, kind=st.sampled_from(EXACT), scales=st.just([1., 1.]))), quick=120, thorough=2000)
def repeated_scales(ctx, s):
    """Two scales of the same size and features are one with the iterations
    of both, for algorithms that keep nothing but the shape."""
    s = forgetful(dict(s, feats=[s['feats'][0]] * 3,
                       patch=[s['patch'][0]] * 3))
    train, im, start = data(s)
    n = max(1, s['limits'][0])
    m = max(1, s['limits'][1])
    t = dict(s, scales=[1.])
    a = run(s, build(s, train), im, start, [n, m])
    if a.n_iters_per_scale[0] < n:
        raise Discard()
    b = run(t, build(t, train), im, start, n + m)
    if b.n_iters <= n:
        # (where the first scale ends just so)
        raise Discard()
    ctx.label(s['kind'])
    pa, pb = parts(a), parts(b)
    xa, xb = pa[0] + pa[1][1:], pb[0]
    ctx.nontrivial(gap(xa[-1:], xa[:1]) > .05)
    d = gap(xa, xb)
    if not d <= 1e-6:
        def again(change):
            r = run(t, build(t, [change(i) for i in train]), change(im),
                    start, n + m)
            return parts(r)[0]
        tol = tolerance(ctx, s, again, xb)
        ctx.check(d <= tol, '%s: %d and %d iterations at two equal scales '
                  'differ from %d at one by %.3g', s['kind'], n, m, n + m, d)


@facet(P, 'cascades', st.fixed_dictionaries(dict(
    spec, kind=st.sampled_from(p27.CASCADES), more=st.integers(1, 2),
    at=st.integers(0, 1), counts=st.lists(st.integers(1, 2), min_size=2,
                                          max_size=2),
    scales=st.sampled_from([[1.], [.5, 1.], [1., 1.]]))),
    quick=60, thorough=900)
def cascades(ctx, s):
    """A cascade trained for more iterations at some scale starts with the
    one trained for less: fits agree up to there."""
    train, im, start = data(s)
    k = len(s['scales'])
    j = s['at'] % k
    na = list(s['counts'][:k])
    nb = list(na)
    nb[j] += s['more']
    r = []
    for its in (na, nb):
        t = dict(s, its=its if k > 1 else its[0])
        r.append(run(t, build(t, train), im, start))
    a, b = r
    ctx.label(s['kind'])
    ctx.equal(list(a.n_iters_per_scale), na, 'iterations')
    ctx.equal(list(b.n_iters_per_scale), nb, 'iterations')
    tail = sum(na[j + 1:])
    extra = len(a.shapes) - sum(na)
    xa = [p.points for p in a.shapes]
    xb = [p.points for p in b.shapes]
    ctx.equal(len(xb) - sum(nb), extra, 'number of other shapes')
    # (parametric ones list the reconstructions of every scale)
    per = (k - 1 - j) if extra > k else 0
    n = len(xa) - tail - per
    d = gap(xa[:n], xb[:n])
    ctx.nontrivial(gap(xa[n - 1:n], xa[:1]) > .05)
    ctx.check(d <= 1e-9, '%s: the first %d shapes differ by %.3g', s['kind'],
              n, d)
