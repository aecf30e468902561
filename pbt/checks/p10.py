"""P10: statistics of errors, cumulative error distributions, their tables
and plots."""
import math

import numpy as np
from hypothesis import strategies as st

import menpofit.error as E
from menpofit.visualize import (statistics_table,
                                plot_cumulative_error_distribution)
from ..core import facet
from .. import gen

P = 'P10'

base = {
    'seed': gen.seeds,
    'n': st.one_of(st.integers(1, 6), st.integers(7, 60)),
    'scale': st.sampled_from([.02, .05, .3, 4.]),
    'ties': st.booleans(),       # many errors exactly equal / on the bins
    'kind': st.sampled_from(['list', 'array', 'npfloats']),
}


def errors(rs, n, scale, ties):
    e = np.abs(rs.randn(n)) * scale
    if ties:
        e = np.round(e / scale * 5) / 5. * scale
    return [float(x) for x in e]


def wrap(kind, e):
    return {'list': list(e), 'array': np.array(e),
            'npfloats': [np.float64(x) for x in e]}[kind]


def ref_ced(e, x):
    return sum(1 for v in e if v <= x) / float(len(e))


def ref_median(e):
    s = sorted(e)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2.


def ref_mad(e):
    m = ref_median(e)
    return ref_median([abs(v - m) for v in e])


def ref_mean(e):
    return math.fsum(e) / len(e)


def ref_std(e):
    m = ref_mean(e)
    return math.sqrt(math.fsum((v - m) ** 2 for v in e) / len(e))


def near(ctx, got, want, msg, tol=1e-9):
    ctx.check(np.ndim(got) == 0, '%s: %r is not a number', msg, got)
    ctx.check(abs(float(got) - want) <= tol * (1e-3 + abs(want)),
              '%s: %r, expected %r', msg, got, want)


def exact_area(e, lo, hi):
    """Area under the (step) CED between lo and hi."""
    return math.fsum(hi - min(max(v, lo), hi) for v in e) / len(e)


@facet(P, 'ced', st.fixed_dictionaries(dict(
    base, nb=st.integers(1, 30), bins=st.sampled_from(
        ['grid', 'random', 'errors', 'unsorted']))), quick=500)
def ced(ctx, s):
    """Proportion of errors not larger than each bin."""
    rs = gen.rng(s['seed'])
    e = errors(rs, s['n'], s['scale'], s['ties'])
    if s['bins'] == 'grid':
        bins = [k * s['scale'] / 5. for k in range(s['nb'])]
    elif s['bins'] == 'errors':
        bins = sorted(rs.choice(e, s['nb']).tolist())
    else:
        bins = (rs.rand(s['nb']) * s['scale'] * 2).tolist()
        if s['bins'] == 'random':
            bins = sorted(bins)
    ctx.label(s['bins'] + ' ' + s['kind'])
    E_in = wrap(s['kind'], e)
    for B in (bins, np.array(bins), [np.float64(b) for b in bins]):
        got = E.compute_cumulative_error(E_in, B)
        ctx.check(len(got) == len(bins), 'number of values')
        for g, b in zip(got, bins):
            near(ctx, g, ref_ced(e, b), 'CED at %r of %r' % (b, e))
        if s['bins'] != 'unsorted':
            ctx.check(all(x <= y for x, y in zip(got, got[1:])),
                      'CED decreases')
    ctx.check(list(E_in) == e, 'errors were changed')
    # order of errors and duplication do not matter
    perm = rs.permutation(len(e))
    ctx.close(E.compute_cumulative_error([e[k] for k in perm] * 2, bins),
              np.array(got), 'CED of shuffled duplicated errors', rtol=1e-12)


auc = dict(base)
auc.update({
    'steps': st.integers(1, 60),
    'step': st.sampled_from([.01, .02, .005, .001, .1, 1 / 3., .07]),
    'frac': st.sampled_from([0., 0., 0., .3, .5, .9]),
    'lo': st.integers(0, 4),
})


@facet(P, 'auc_failure', st.fixed_dictionaries(auc), quick=800,
       rule='some but not all errors exceed the maximum')
def auc_failure(ctx, s):
    """Area under the CED up to the maximum error and failure rate."""
    rs = gen.rng(s['seed'])
    step = s['step']
    lo = s['lo'] * step
    # the maximum as a user would write it, not as the sum of steps
    hi = float('%.9g' % ((s['lo'] + s['steps'] + s['frac']) * step))
    lo = float('%.9g' % lo)
    scale = hi * rs.choice([.2, .7, 2.])
    e = errors(rs, s['n'], scale, False)
    if s['ties']:
        # errors on the bins and on the maximum itself
        for k in range(0, len(e), 2):
            e[k] = float(rs.choice([0., hi, float('%.9g' % (
                rs.randint(0, s['lo'] + s['steps'] + 1) * step))]))
    a, fr = E.area_under_curve_and_failure_rate(
        wrap(s['kind'], e), step_error=step, max_error=hi, min_error=lo)
    want_fr = sum(1 for v in e if v > hi) / float(len(e))
    ctx.nontrivial(0 < want_fr < 1)
    ctx.label('partial last step' if s['frac'] else 'whole steps')
    ctx.check(np.ndim(a) == 0 and np.ndim(fr) == 0, 'not numbers')
    ctx.check(abs(fr - want_fr) < 1e-9, 'failure rate %r, expected %r of %r '
              'with maximum %r', fr, want_fr, e, hi)
    want = exact_area(e, lo, hi) / hi
    # quadrature of a monotone function with values in [0, 1]
    ctx.check(abs(a - want) <= 1.05 * step / hi + 1e-9,
              'area %r, exact area %r with errors %r, step %r, '
              'minimum %r, maximum %r', a, want, e, step, lo, hi)
    tol = 1e-9
    ctx.check(-tol <= a <= (hi - lo) / hi + tol, 'area %r out of range', a)
    # all errors at once too large / nothing wrong
    z, f0 = E.area_under_curve_and_failure_rate([0.] * 3, step, hi, lo)
    ctx.check(abs(z - (hi - lo) / hi) < 1e-9 and abs(f0) < 1e-12,
              'no errors: area %r failure %r', z, f0)
    z, f0 = E.area_under_curve_and_failure_rate([hi * 1.7] * 3, step, hi, lo)
    ctx.check(abs(z) < 1e-12 and abs(f0 - 1) < 1e-12,
              'only failures: area %r failure %r', z, f0)
    if not s['frac'] and s['steps'] % 2 == 0 and not s['ties']:
        # composite Simpson rule on the grid
        y = [ref_ced(e, lo + k * step) for k in range(s['steps'])] + \
            [1 - want_fr]
        w = [1] + [4 if k % 2 else 2 for k in range(1, s['steps'])] + [1]
        near(ctx, a, step / 3. * sum(p * q for p, q in zip(w, y)) / hi,
             'Simpson rule', tol=1e-6)
    # larger errors never increase the area (same bins)
    if e:
        e2 = [v * 1.3 for v in e]
        a2, fr2 = E.area_under_curve_and_failure_rate(e2, step, hi, lo)
        ctx.check(a2 <= a + 1e-9 and fr2 >= fr - 1e-12,
                  'larger errors have a larger area or fewer failures')
    # the minimum defaults to zero
    a3, f3 = E.area_under_curve_and_failure_rate(e, step, hi)
    a4, f4 = E.area_under_curve_and_failure_rate(e, step, hi, 0.)
    ctx.check(a3 == a4 and f3 == f4, 'default minimum')


def ref_measures(e, step, hi, lo):
    a, f = E.area_under_curve_and_failure_rate(np.array(e), step, hi, lo)
    return [ref_mean(e), ref_std(e), ref_median(e), ref_mad(e), max(e),
            float(a), float(f)]


many = dict(base)
many.update({'m': st.integers(1, 5), 'lo': st.sampled_from([0., .01]),
             'hi': st.sampled_from([.05, .1, .3]),
             'step': st.sampled_from([.01, .005])})
NAMES = ['mean', 'std', 'median', 'mad', 'max', 'auc', 'fr']


def method_errors(s, rs):
    es = []
    for k in range(s['m']):
        n = max(1, s['n'] + rs.randint(-3, 4))
        es.append(errors(rs, n, s['scale'] * rs.uniform(.3, 2), s['ties']))
    return es


@facet(P, 'measures', st.fixed_dictionaries(many), quick=400)
def measures(ctx, s):
    """All measures of one set of errors and of several methods at once."""
    rs = gen.rng(s['seed'])
    es = method_errors(s, rs)
    ctx.label('%d methods' % s['m'])
    kw = dict(step_error=s['step'], max_error=s['hi'], min_error=s['lo'])
    got = E.compute_statistical_measures([wrap(s['kind'], e) for e in es],
                                         **kw)
    ctx.check(len(got) == 7, 'seven measures')
    want = [ref_measures(e, s['step'], s['hi'], s['lo']) for e in es]
    for i, name in enumerate(NAMES):
        ctx.check(len(got[i]) == s['m'], 'one %s per method', name)
        for k in range(s['m']):
            near(ctx, got[i][k], want[k][i], '%s of method %d' % (name, k))
    one = E.compute_statistical_measures(wrap(s['kind'], es[0]), **kw)
    for i, name in enumerate(NAMES):
        near(ctx, one[i], want[0][i], '%s of a single set' % name)
    near(ctx, E.mad(wrap(s['kind'], es[0])), ref_mad(es[0]), 'mad')


table = dict(many)
table.update({
    'types': st.one_of(st.none(), st.lists(st.sampled_from(NAMES),
                                           min_size=1, max_size=7,
                                           unique=True)),
    'rename': st.booleans(), 'sort': st.integers(-1, 6),
    'precision': st.integers(2, 6)})


@facet(P, 'table', st.fixed_dictionaries(table), quick=250)
def table_(ctx, s):
    """Statistics tables: rows of the named methods, columns of the chosen
    measures, sorted from best to worst."""
    import pandas
    rs = gen.rng(s['seed'])
    es = method_errors(s, rs)
    names = ['method %d' % k for k in rs.permutation(20)[:s['m']]]
    types = NAMES if s['types'] is None else s['types']
    labels = ['col %d' % k for k in rs.permutation(20)[:len(types)]] \
        if s['rename'] else types
    kw = {}
    if s['types'] is not None:
        kw['stats_types'] = list(types)
    if s['rename']:
        kw['stats_names'] = list(labels)
    sort = None if s['sort'] < 0 else types[s['sort'] % len(types)]
    if sort is not None:
        kw['sort_by'] = sort
    ctx.label('sorted by %s' % sort)
    before = pandas.get_option('display.precision')
    try:
        tab = statistics_table([wrap('list', e) for e in es], list(names),
                               auc_max_error=s['hi'], auc_error_step=s['step'],
                               auc_min_error=s['lo'],
                               precision=s['precision'], **kw)
        text = tab.to_string()
    finally:
        pandas.set_option('display.precision', before)
    ctx.equal(list(tab.columns), list(labels), 'columns')
    ctx.equal(sorted(tab.index), sorted(names), 'methods')
    for name, e in zip(names, es):
        want = ref_measures(e, s['step'], s['hi'], s['lo'])
        for t, l in zip(types, labels):
            near(ctx, tab.loc[name, l], want[NAMES.index(t)],
                 '%s of %s' % (t, name))
    if sort is None:
        ctx.equal(list(tab.index), names, 'order of methods')
    else:
        col = list(tab[labels[types.index(sort)]])
        if sort == 'auc':
            col = col[::-1]
        ctx.check(all(x <= y for x, y in zip(col, col[1:])),
                  'not sorted from best to worst by %s: %r', sort, col)
    shown = [w for w in text.split() if '.' in w]
    ctx.check(all(len(w.split('.')[1]) <= s['precision'] or 'e' in w
                  for w in shown), 'precision of %r', text)
    # wrong requests
    ctx.raises(ValueError, lambda: statistics_table(
        es, names, .1, .01, stats_types=['mean', 'nothing']), 'unknown type')
    ctx.raises(ValueError, lambda: statistics_table(
        es, names, .1, .01, stats_types=['mean', 'std'],
        stats_names=['a']), 'number of names')
    ctx.raises(ValueError, lambda: statistics_table(
        es, names, .1, .01, sort_by='nothing'), 'unknown sorting')
    single = statistics_table(list(es[0]), ['x'], .1, .01)
    ctx.equal(single.shape, (1, 7), 'single set of errors')
    near(ctx, single.loc['x', 'median'], ref_median(es[0]), 'single median')


@facet(P, 'plots', st.fixed_dictionaries(dict(
    many, range=st.one_of(st.none(), st.sampled_from(
        [(0., .2, .01), (.01, .33, .02), (0., 1., .25)])),
    named=st.booleans(), single=st.booleans(), limits=st.booleans())),
    quick=25, thorough=300)
def plots(ctx, s):
    """Curves of the plotted CED."""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    plt.close('all')
    rs = gen.rng(s['seed'])
    es = method_errors(s, rs)
    if s['single']:
        es = es[:1]
    kw = {}
    lo, hi, step = (0., .101, .005) if s['range'] is None else s['range']
    if s['range'] is not None:
        kw['error_range'] = list(s['range'])
    if s['named']:
        kw['legend_entries'] = ['name %d' % k for k in range(len(es))]
    if s['limits']:
        kw['axes_x_limits'] = (0., .05)
        kw['axes_y_limits'] = (.1, .9)
    ctx.label('%d curves' % len(es))
    try:
        plot_cumulative_error_distribution(
            list(es[0]) if s['single'] else [list(e) for e in es], **kw)
        ax = plt.gca()
        lines = ax.get_lines()
        ctx.equal(len(lines), len(es), 'number of curves')
        xs = []
        k = 0
        while lo + k * step < hi - 1e-9:
            xs.append(lo + k * step)
            k += 1
        for l, e in zip(lines, es):
            x, y = l.get_data()
            ctx.close(np.asarray(x), np.array(xs), 'bins of the plot',
                      rtol=1e-9)
            for p, q in zip(x, y):
                near(ctx, q, ref_ced(e, p), 'curve at %r' % p)
        texts = [t.get_text() for t in ax.get_legend().get_texts()]
        ctx.equal(texts, kw.get('legend_entries', ['Curve %d' % i for i in
                                                   range(len(es))]), 'legend')
        xl = kw.get('axes_x_limits', (0., xs[-1]))
        yl = kw.get('axes_y_limits', (0., 1.))
        ctx.close(np.array(ax.get_xlim()), np.array(xl), 'horizontal limits')
        ctx.close(np.array(ax.get_ylim()), np.array(yl), 'vertical limits')
        ctx.raises(ValueError, lambda: plot_cumulative_error_distribution(
            [list(e) for e in es], legend_entries=['a'] * (len(es) + 1)),
            'number of legend entries')
    finally:
        plt.close('all')
