"""P09: point to point error measures."""
import math

import numpy as np
from hypothesis import strategies as st

from menpo.shape import PointCloud, PointUndirectedGraph
import menpofit.error as E
from menpofit.error.base import (bb_normalised_error,
                                 distance_normalised_error,
                                 distance_indexed_normalised_error)
from ..core import facet
from .. import gen

P = 'P09'

# ---- independent definitions ------------------------------------------------


def dists(a, b):
    return [math.sqrt(sum((float(x) - float(y)) ** 2 for x, y in zip(p, q)))
            for p, q in zip(a, b)]


def ref_euc(a, b):
    d = dists(a, b)
    return math.fsum(d) / len(d)


def ref_rms(a, b):
    # root of the mean squared *coordinate* difference
    n = 0
    s = []
    for p, q in zip(a, b):
        for x, y in zip(p, q):
            s.append((float(x) - float(y)) ** 2)
            n += 1
    return math.sqrt(math.fsum(s) / n)


def sides(a):
    xs = [float(p[0]) for p in a]
    ys = [float(p[1]) for p in a]
    return max(xs) - min(xs), max(ys) - min(ys)


NORM = {
    'area': lambda a: sides(a)[0] * sides(a)[1],
    'perimeter': lambda a: 2 * sum(sides(a)),
    'avg_edge_length': lambda a: sum(sides(a)) / 2.,
    'diagonal': lambda a: math.hypot(*sides(a)),
}
BB = {'area': E.bb_area, 'perimeter': E.bb_perimeter,
      'avg_edge_length': E.bb_avg_edge_length, 'diagonal': E.bb_diagonal}
ERR = {'euc': (E.euclidean_error, ref_euc),
       'rms': (E.root_mean_square_error, ref_rms)}

base = {
    'seed': gen.seeds,
    'n': st.integers(2, 40),
    'size': st.sampled_from([1e-3, 1., 60., 1e4]),
    'noise': st.sampled_from([0., 1e-6, .05, 3.]),
    'shift': st.sampled_from([0., 0., 1., -40.]),
    'same': st.booleans(),
    'type': st.sampled_from(['cloud', 'array', 'mixed', 'graph']),
}


def shapes(s, n=None, k=3, d=2):
    """k related random shapes of n points (first: fitted, second: truth)."""
    rs = gen.rng(s['seed'])
    n = s['n'] if n is None else n
    gt = s['size'] * (rs.rand(n, d) + s['shift'])
    out = [gt + s['size'] * s['noise'] * rs.randn(n, d) *
           rs.uniform(0, 1, (n, 1)), gt]
    for _ in range(k - 2):
        out.append(s['size'] * rs.uniform(.2, 3) * rs.rand(n, d) + rs.randn(d))
    return out, rs


def wrap(s, *arrs):
    t = s['type']
    res = []
    for i, a in enumerate(arrs):
        a = np.array(a)
        if t == 'cloud' or (t == 'mixed' and i % 2 == 0):
            a = PointCloud(a)
        elif t == 'graph':
            adj = np.zeros((len(a), len(a)), dtype=int)
            adj[0, 1] = adj[1, 0] = 1
            a = PointUndirectedGraph(a, adj)
        res.append(a)
    return res


def pts(o):
    return np.array(o.points if hasattr(o, 'points') else o)


class untouched(object):
    def __init__(self, ctx, *objs):
        self.ctx, self.objs = ctx, objs
        self.before = [pts(o) for o in objs]

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is None:
            for o, b in zip(self.objs, self.before):
                self.ctx.check(np.array_equal(pts(o), b),
                               'an error measure changed its input')
        return False


def same_number(ctx, got, want, msg, rtol=1e-9, atol=1e-300):
    ctx.check(np.ndim(got) == 0, '%s: not a number but %r', msg, got)
    got = float(got)
    ctx.check(abs(got - want) <= rtol * abs(want) + atol, '%s: %r, expected %r',
              msg, got, want)


# ---- facets -----------------------------------------------------------------


@facet(P, 'unnormalised', st.fixed_dictionaries(
    dict(base, d=st.sampled_from([2, 2, 3]))), quick=900,
    rule='shapes differ')
def unnormalised(ctx, s):
    """Euclidean and RMS errors against scalar loops; metric laws."""
    (a, b, c), rs = shapes(s, d=s['d'])
    ctx.nontrivial(s['noise'] > 0)
    ctx.label(s['type'])
    A, B, C = wrap(s, a, b, c)
    tol = 1e-13 * s['size'] * (1 + abs(s['shift']))
    with untouched(ctx, A, B, C):
        for k, (f, r) in ERR.items():
            same_number(ctx, f(A, B), r(a, b), k, atol=tol)
            ctx.check(f(A, A) == 0, '%s of identical shapes is not zero', k)
            ctx.check(abs(f(A, B) - f(B, A)) <= tol, '%s is not symmetric', k)
            if k == 'euc':
                ctx.check(f(A, C) <= f(A, B) + f(B, C) + tol * 10,
                          'triangle inequality')
        i, j = rs.randint(0, s['n'], 2)
        if s['noise'] > 0:
            ctx.check(E.euclidean_error(A, B) > 0 and
                      E.root_mean_square_error(A, B) > 0,
                      'different shapes have no error')
        same_number(ctx, E.distance_two_indices(i, j, A),
                    dists([a[i]], [a[j]])[0], 'distance of two points',
                    atol=tol)
    # points pair up by position
    perm = rs.permutation(s['n'])
    for k, (f, r) in ERR.items():
        same_number(ctx, f(a[perm], b[perm]), r(a, b), k + ' permuted',
                    atol=tol)
        same_number(ctx, f(a[perm], b), r(a[perm], b), k + ' other order',
                    atol=tol)
    # keyword arguments
    same_number(ctx, E.euclidean_error(gt_shape=B, shape=A), ref_euc(a, b),
                'keywords', atol=tol)


@facet(P, 'bounding_boxes', st.fixed_dictionaries(dict(base)), quick=700)
def bounding_boxes(ctx, s):
    """Bounding box measures and the errors they normalise."""
    (a, b, c), rs = shapes(s)
    ctx.label(s['type'])
    A, B, C = wrap(s, a, b, c)
    tol = 1e-13 * s['size'] * (1 + abs(s['shift']))
    with untouched(ctx, A, B, C):
        for k in NORM:
            same_number(ctx, BB[k](B), NORM[k](b), k)
            for e, (f, r) in ERR.items():
                pub = {'euc': E.euclidean_bb_normalised_error,
                       'rms': E.root_mean_square_bb_normalised_error}[e]
                for N, n in ((None, b), (C, c), (A, a)):
                    same_number(ctx, pub(A, B, norm_shape=N, norm_type=k),
                                r(a, b) / NORM[k](n),
                                '%s normalised by %s of %s' % (
                                    e, k, 'truth' if N is None else 'other'),
                                atol=tol / NORM[k](n))
                    same_number(ctx, bb_normalised_error(
                        f, A, B, norm_shape=N, norm_type=k),
                        r(a, b) / NORM[k](n), 'generic ' + e,
                        atol=tol / NORM[k](n))
                if k == 'avg_edge_length':
                    same_number(ctx, pub(A, B), r(a, b) / NORM[k](b),
                                e + ' default normaliser',
                                atol=tol / NORM[k](b))
        for bad in ('Area', 'height'):
            ctx.raises(ValueError, lambda: E.euclidean_bb_normalised_error(
                A, B, norm_type=bad), 'unknown normaliser')
            ctx.raises(ValueError,
                       lambda: E.root_mean_square_bb_normalised_error(
                           A, B, norm_type=bad), 'unknown normaliser')
    # unitless: similarity of both shapes at once
    k = rs.choice(['perimeter', 'avg_edge_length', 'diagonal'])
    z = rs.uniform(.1, 20)
    t = rs.randn(2) * s['size']
    e0 = E.euclidean_bb_normalised_error(A, B, norm_type=k)
    e1 = E.euclidean_bb_normalised_error(a * z + t, b * z + t, norm_type=k)
    ctx.check(abs(e0 - e1) <= 1e-8 * e0 + 1e-10,
              'normalised error depends on scale or position: %r %r', e0, e1)


@facet(P, 'distances', st.fixed_dictionaries(dict(base)), quick=600)
def distances(ctx, s):
    """Errors normalised by a distance or by two points of the truth."""
    (a, b, c), rs = shapes(s)
    ctx.label(s['type'])
    A, B, C = wrap(s, a, b, c)
    tol = 1e-13 * s['size'] * (1 + abs(s['shift']))
    w = rs.rand(2) + .5
    calls = []

    def norm(x, y):
        calls.append((pts(x), pts(y)))
        return float(w[0] * np.abs(pts(x)[0]).sum() +
                     w[1] * np.abs(pts(y)).sum() + 1)
    n_ref = (w[0] * np.abs(a[0]).sum() + w[1] * np.abs(b).sum() + 1)
    i, j = rs.choice(s['n'], 2, replace=False)
    d = dists([b[i]], [b[j]])[0]
    with untouched(ctx, A, B):
        for e, (f, r) in ERR.items():
            fd, fi = {
                'euc': (E.euclidean_distance_normalised_error,
                        E.euclidean_distance_indexed_normalised_error),
                'rms': (E.root_mean_square_distance_normalised_error,
                        E.root_mean_square_distance_indexed_normalised_error)
            }[e]
            same_number(ctx, fd(A, B, norm), r(a, b) / n_ref,
                        e + ' normalised by a function', atol=tol / n_ref)
            same_number(ctx, distance_normalised_error(f, norm, A, B),
                        r(a, b) / n_ref, 'generic ' + e, atol=tol / n_ref)
            same_number(ctx, fi(A, B, i, j), r(a, b) / d,
                        e + ' normalised by two points', atol=tol / d)
            same_number(ctx, fi(A, B, index1=j, index2=i), r(a, b) / d,
                        e + ' normalised by two points (swapped)',
                        atol=tol / d)
            same_number(ctx, distance_indexed_normalised_error(
                f, i, j, A, B), r(a, b) / d, 'generic ' + e, atol=tol / d)
    for x, y in calls:
        ctx.check(np.array_equal(x, a) and np.array_equal(y, b),
                  'the normaliser was called with other shapes')


# indices of every markup within the 68 point markup
IDX = {68: list(range(68)),
       66: [i for i in range(68) if i not in (60, 64)],
       51: list(range(17, 68)),
       49: [i for i in range(17, 68) if i not in (60, 64)]}
EYE_R = list(range(36, 42))      # first eye of the 68 markup
EYE_L = list(range(42, 48))

FACES = {
    # name: (allowed fitted, allowed truth, compared markup, normaliser(gt68))
    'mean_pupil_68_error': ([68], [68], 68, 'pupil'),
    'mean_pupil_49_error': ([68, 66, 51, 49], [68, 66, 51, 49], 49, 'pupil'),
    'outer_eye_corner_68_euclidean_error': ([68], [68], 68, 'outer'),
    'outer_eye_corner_51_euclidean_error': ([68, 51], [68, 51], 51, 'outer'),
    'outer_eye_corner_49_euclidean_error':
        ([68, 66, 51, 49], [68, 66, 51, 49], 49, 'outer'),
    'bb_avg_edge_length_68_euclidean_error': ([68], [68], 68, 'bb'),
    'bb_avg_edge_length_49_euclidean_error':
        ([68, 66, 51, 49], [68], 49, 'bb'),
}


def face_norm(kind, gt):
    if kind == 'pupil':
        return dists([np.mean(gt[EYE_L], axis=0)],
                     [np.mean(gt[EYE_R], axis=0)])[0]
    if kind == 'outer':
        return dists([gt[36]], [gt[45]])[0]
    return NORM['avg_edge_length'](gt)


@facet(P, 'faces', st.fixed_dictionaries(
    dict(base, kind=st.sampled_from(sorted(FACES)),
         pick=st.integers(0, 3), pickg=st.integers(0, 3))), quick=1200,
    rule='shapes differ')
def faces(ctx, s):
    """Face measures for every pair of markups against landmark indices of
    the 68 point markup."""
    (a, b), rs = shapes(s, n=68, k=2)
    fa, fg, cmp_, nk = FACES[s['kind']]
    na, ng = fa[s['pick'] % len(fa)], fg[s['pickg'] % len(fg)]
    ctx.label('%s %d/%d' % (s['kind'], na, ng))
    ctx.nontrivial(s['noise'] > 0)
    s = dict(s, type='graph' if s['type'] == 'graph' else 'cloud')
    A, B = wrap(s, a[IDX[na]], b[IDX[ng]])
    f = getattr(E, s['kind'])
    want = ref_euc(a[IDX[cmp_]], b[IDX[cmp_]]) / face_norm(nk, b)
    tol = 1e-13 * s['size'] * (1 + abs(s['shift'])) / face_norm(nk, b)
    with untouched(ctx, A, B):
        same_number(ctx, f(A, B), want, s['kind'], atol=tol)
    # points outside the compared markup play no role
    if cmp_ == 49 and na in (68, 66, 51):
        a2 = a.copy()
        out = [i for i in range(68) if i not in IDX[49]]
        a2[out] += s['size'] * rs.randn(len(out), 2)
        same_number(ctx, f(wrap(s, a2[IDX[na]])[0], B), want,
                    s['kind'] + ' ignores other points', atol=tol)
    # other markups are rejected
    for n in (67, 50, 48, 69, 66 if 66 not in fa else 10,
              51 if 51 not in fa else 10):
        bad = PointCloud(s['size'] * rs.rand(n, 2))
        ctx.raises(ValueError, lambda: f(bad, B), 'fitted markup %d' % n)
    for n in (67, 50, 48, 69, 66 if 66 not in fg else 10,
              49 if 49 not in fg else 10):
        bad = PointCloud(s['size'] * rs.rand(n, 2))
        ctx.raises(ValueError, lambda: f(A, bad), 'truth markup %d' % n)
