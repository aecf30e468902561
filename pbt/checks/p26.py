"""P26: displays show what their options ask for."""
import contextlib
import copy
from collections import OrderedDict

import numpy as np
from hypothesis import strategies as st

from menpo.image import Image, MaskedImage
from menpo.shape import (LabelledPointUndirectedGraph, PointCloud,
                         PointUndirectedGraph, TriMesh)
from menpo.transform import UniformScale
from menpo.visualize import plot_curve
from menpofit import aps
from menpofit.aps.result import APSAlgorithmResult, APSResult
from menpofit.error import euclidean_bb_normalised_error as default_error
from menpofit.result import (Result, NonParametricIterativeResult,
                             ParametricIterativeResult,
                             MultiScaleNonParametricIterativeResult,
                             MultiScaleParametricIterativeResult)
from menpofit.visualize import (view_image_multiple_landmarks,
                                plot_cumulative_error_distribution)
from ..core import facet, Discard
from .. import gen
from .p23 import deformation as graph

P = 'P26'
COLOURS = ['r', 'g', 'b', 'c', 'm', 'y', 'k', (.2, .4, .7), (.9, .5, .1)]
FONTS = {'font_name': ['serif', 'monospace', 'sans-serif'],
         'font_size': [6, 11, 15], 'font_style': ['normal', 'italic'],
         'font_weight': ['normal', 'bold']}


def fonts(prefix):
    return {prefix + k: st.sampled_from(v) for k, v in FONTS.items()}


colour = st.sampled_from(COLOURS)
LINES = {'render_lines': st.booleans(),
         'line_style': st.sampled_from(['-', '--', '-.', ':']),
         'line_width': st.sampled_from([1, 2.5, 4])}
MARKERS = {'render_markers': st.booleans(),
           'marker_style': st.sampled_from(['o', 's', 'v', 'D', '*']),
           'marker_size': st.sampled_from([3, 6, 9.5]),
           'marker_edge_width': st.sampled_from([.5, 1., 3.])}
LINE_COLOUR = {'line_colour': colour}
MARKER_COLOUR = {'marker_face_colour': colour, 'marker_edge_colour': colour}
AXES = dict(fonts('axes_'), **{
    'render_axes': st.booleans(),
    'axes_x_limits': st.sampled_from([None, (1., 9.), .1]),
    'axes_y_limits': st.sampled_from([None, (2., 8.), .2]),
    'axes_x_ticks': st.sampled_from([None, [2, 5, 7]]),
    'axes_y_ticks': st.sampled_from([None, [3, 4]]),
    'figure_size': st.sampled_from([(7, 7), (5, 4), (10, 6)])})
NUMBERS = dict(fonts('numbers_'), **{
    'render_numbering': st.booleans(),
    'numbers_horizontal_align': st.sampled_from(['center', 'left', 'right']),
    'numbers_vertical_align': st.sampled_from(['bottom', 'top', 'center']),
    'numbers_font_colour': colour})
PICTURE = {'interpolation': st.sampled_from(['bilinear', 'nearest',
                                             'bicubic']),
           # menpo cannot look colour maps up with this matplotlib
           'cmap_name': st.none(), 'alpha': st.sampled_from([1., .4])}
GRID = {'render_grid': st.booleans(),
        'grid_line_style': st.sampled_from(['-', '--', '-.', ':']),
        'grid_line_width': st.sampled_from([.5, 1.5])}
LEGEND = dict(fonts('legend_'), **{
    'render_legend': st.booleans(),
    'legend_title': st.sampled_from(['', 'Shapes']),
    'legend_marker_scale': st.sampled_from([None, 2.]),
    'legend_location': st.integers(1, 10),
    'legend_bbox_to_anchor': st.sampled_from([(1.05, 1.), (.5, .3)]),
    'legend_border_axes_pad': st.sampled_from([None, 2.]),
    'legend_n_columns': st.integers(1, 3),
    'legend_horizontal_spacing': st.sampled_from([None, 3.]),
    'legend_vertical_spacing': st.sampled_from([None, 1.5]),
    'legend_border': st.booleans(),
    'legend_border_padding': st.sampled_from([None, 1.2]),
    'legend_shadow': st.booleans(),
    'legend_rounded_corners': st.booleans()})
LEGEND_ARGS = {'title': 'title', 'loc': 'location',
               'bbox_to_anchor': 'bbox_to_anchor',
               'borderaxespad': 'border_axes_pad', 'ncol': 'n_columns',
               'columnspacing': 'horizontal_spacing',
               'labelspacing': 'vertical_spacing', 'frameon': 'border',
               'borderpad': 'border_padding', 'shadow': 'shadow',
               'fancybox': 'rounded_corners', 'markerscale': 'marker_scale'}


def options(*groups):
    """A strategy for some of the options of the groups."""
    o = {}
    for g in groups:
        o.update(g)
    return st.fixed_dictionaries({}, optional=o)


# ------------------------------------------------------- what figures show
def rgba(c):
    from matplotlib.colors import to_rgba, to_rgba_array
    if c is None or (isinstance(c, str) and c in ('none', 'None')):
        return None
    try:
        return np.array(to_rgba(c))
    except (ValueError, TypeError):
        return np.array(to_rgba_array(c))


def font(t):
    return (tuple(t.get_fontfamily()), t.get_fontsize(), t.get_fontstyle(),
            t.get_fontweight())


def artist(a):
    from matplotlib.collections import LineCollection
    from matplotlib.image import AxesImage
    from matplotlib.lines import Line2D
    from matplotlib.patches import Ellipse, Patch
    from matplotlib.text import Text
    if isinstance(a, Line2D):
        drawn = a.get_linewidth() > 0 and \
            a.get_linestyle() not in ('None', '', ' ')
        marked = a.get_marker() not in (None, 'None', '', ' ')
        return ('line', np.array(a.get_xydata(), dtype=float),
                (a.get_linestyle(), a.get_linewidth(), rgba(a.get_color()))
                if drawn else None,
                (a.get_marker(), a.get_markersize(),
                 rgba(a.get_markerfacecolor()),
                 rgba(a.get_markeredgecolor()), a.get_markeredgewidth())
                if marked else None)
    if isinstance(a, LineCollection):
        return ('edges', [np.array(q) for q in a.get_segments()],
                rgba(a.get_color()), [str(q) for q in a.get_linestyle()],
                [float(q) for q in a.get_linewidth()])
    if isinstance(a, AxesImage):
        return ('image', np.array(a.get_array(), dtype=float),
                a.get_interpolation(), a.get_cmap().name, a.get_alpha(),
                [float(q) for q in a.get_extent()])
    if isinstance(a, Text):
        if a.get_text() == '':
            return None
        return ('text', a.get_text(), np.array(a.get_position(), dtype=float),
                font(a), rgba(a.get_color()), a.get_ha(), a.get_va())
    if isinstance(a, Ellipse):
        t = np.radians(a.angle)
        q = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
        spread = q.dot(np.diag([a.width ** 2, a.height ** 2])).dot(q.T)
        return ('ellipse', np.array(a.center, dtype=float), spread,
                rgba(a.get_facecolor()), rgba(a.get_edgecolor()),
                a.get_linewidth(), str(a.get_linestyle()))
    if isinstance(a, Patch):
        # without the position of the figure on the canvas
        v = a.get_patch_transform().transform_path(a.get_path()).vertices
        return (type(a).__name__, np.array(v), rgba(a.get_facecolor()),
                rgba(a.get_edgecolor()), a.get_linewidth(),
                str(a.get_linestyle()))
    return None


def content(ax):
    """Everything drawn within the axes, in order."""
    r = [artist(a) for a in ax.get_children() if a in ax._children]
    return [q for q in r if q is not None]


def frame(ax):
    """How the axes are presented."""
    f = ax.figure
    f.canvas.draw()
    d = {'on': ax.axison, 'size': tuple(f.get_size_inches()),
         'x limits': np.array(ax.get_xlim()),
         'y limits': np.array(ax.get_ylim())}
    if ax.axison:
        for n, x in (('x', ax.xaxis), ('y', ax.yaxis)):
            lim = sorted(x.get_view_interval())
            d[n + ' ticks'] = np.array([t for t in x.get_ticklocs()
                                        if lim[0] - 1e-9 <= t <= lim[1] + 1e-9])
            d[n + ' fonts'] = sorted(set(font(t)
                                         for t in x.get_ticklabels()))
            d[n + ' label'] = (x.label.get_text(),) + (
                font(x.label) if x.label.get_text() else ())
            g = [l for l in x.get_gridlines() if l.get_visible()]
            d[n + ' grid'] = sorted(set(
                (l.get_linestyle(), l.get_linewidth()) for l in g))
    return d


def alike(a, b, tol=1e-7):
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(a) == sorted(b) and \
            all(alike(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and \
            all(alike(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and \
            np.allclose(a, b, rtol=tol, equal_nan=True,
                        atol=tol * max(1., np.max(np.abs(b), initial=0.)))
    if isinstance(a, float) and isinstance(b, (int, float)):
        return abs(a - b) < 1e-9
    return type(a) == type(b) and a == b


def same_axes(ctx, a, b, what, skip=(), tol=1e-7):
    x, y = content(a), content(b)
    ctx.equal([q[0] for q in x], [q[0] for q in y],
              '%s: kinds of things drawn' % what)
    for k, (p, q) in enumerate(zip(x, y)):
        ctx.check(alike(p, q, tol), '%s: thing %d is %r instead of %r', what, k, p,
                  q)
    p, q = frame(a), frame(b)
    for k in sorted(q):
        ctx.check(k in skip or alike(p[k], q[k], tol),
                  '%s: axes have %s %r instead of %r', what, k, p[k], q[k])


def same_legend(ctx, got, exp, what):
    """exp: legend made by matplotlib from the same options."""
    for l in (got, exp):
        l.figure.canvas.draw()
    ctx.equal([t.get_text() for t in got.texts],
              [t.get_text() for t in exp.texts], what + ': entries')
    for n, f in (
            ('fonts', lambda l: sorted(set(font(t) for t in l.texts))),
            ('title', lambda l: l.get_title().get_text()),
            ('location', lambda l: l._loc),
            ('anchor', lambda l: np.array(l.axes.transAxes.inverted(
            ).transform_bbox(l.get_bbox_to_anchor()).bounds)),
            ('columns', lambda l: l._ncols),
            ('frame', lambda l: l.get_frame_on()),
            ('shadow', lambda l: bool(l.shadow)),
            ('corners', lambda l: type(l.get_frame().get_boxstyle())
             .__name__),
            ('border padding', lambda l: l.borderpad),
            ('vertical spacing', lambda l: l.labelspacing),
            ('horizontal spacing', lambda l: l.columnspacing),
            ('padding', lambda l: l.borderaxespad),
            ('marker scale', lambda l: l.markerscale)):
        ctx.check(alike(f(got), f(exp)), '%s: %s is %r instead of %r', what,
                  n, f(got), f(exp))


@contextlib.contextmanager
def figures():
    import logging
    import matplotlib.pyplot as plt
    logging.getLogger('matplotlib').setLevel(logging.ERROR)
    plt.close('all')
    try:
        yield plt
    finally:
        plt.close('all')


def show(ctx, plt, s, view, *args, **options):
    """Display in a new, the current or another figure, which is returned."""
    keep = copy.deepcopy(options)

    def call(**kw):
        view(*args, **dict(options, **kw))
        for k in keep:
            # menpo extends lists of a single colour
            ctx.check(options[k] == keep[k] or 'colour' in k and
                      options[k] == keep[k] * len(options[k]),
                      'option %s changed from %r to %r', k, keep[k],
                      options[k])

    target = ['new', 'current', 'named'][s['seed'] % 3]
    if target == 'new':
        if s['seed'] % 2:
            plt.figure()
        before = plt.get_fignums()
        call(new_figure=True)
        ctx.equal(len(plt.get_fignums()), len(before) + 1, 'figures')
        return plt.gcf()
    f = plt.figure(3)
    if target == 'named':
        plt.figure(5)
        call(figure_id=3)
    else:
        call()
    ctx.check(plt.gcf() is f, 'drawn in another figure')
    ctx.equal(plt.get_fignums(), [3] if target == 'current' else [3, 5],
              'figures')
    return f


# --------------------------------------------------------------- the shapes
DEFAULTS = dict(
    render_lines=True, line_style='-', line_width=2, render_markers=True,
    marker_style='o', marker_size=4, marker_edge_width=1.,
    render_numbering=False, numbers_horizontal_align='center',
    numbers_vertical_align='bottom', numbers_font_name='sans-serif',
    numbers_font_size=10, numbers_font_style='normal',
    numbers_font_weight='normal', numbers_font_colour='k', render_axes=False,
    axes_font_name='sans-serif', axes_font_size=10, axes_font_style='normal',
    axes_font_weight='normal', axes_x_limits=None, axes_y_limits=None,
    axes_x_ticks=None, axes_y_ticks=None, figure_size=(7, 7))
PICTURE_DEFAULTS = dict(interpolation='bilinear', alpha=1., cmap_name=None)
TITLE_DEFAULTS = dict(
    render_legend=True, legend_title='', legend_font_name='sans-serif',
    legend_font_size=10, legend_font_style='normal',
    legend_font_weight='normal', legend_location=2,
    legend_bbox_to_anchor=(1.05, 1.), legend_border_axes_pad=None,
    legend_n_columns=1, legend_horizontal_spacing=None,
    legend_vertical_spacing=None, legend_border=True,
    legend_border_padding=None, legend_shadow=False,
    legend_rounded_corners=False, legend_marker_scale=None)


def shape(kind, rs, n=5):
    p = gen.base_points(n, rs) * 4 + [7., 6.]
    if kind == 'graph':
        return PointUndirectedGraph.init_from_edges(
            p, np.array([[i, i + 1] for i in range(n - 1)]))
    if kind == 'mesh':
        return TriMesh(p)
    if kind == 'labelled':
        a = np.arange(n)
        return LabelledPointUndirectedGraph.init_from_edges(
            p, np.array([[i, i + 1] for i in range(n - 1)]), OrderedDict([
                ('a', a < 3), ('b', a > 1), ('c', a % 2 == 0)]))
    return PointCloud(p)


def picture(s, rs):
    return None if s['c'] == 0 else Image(rs.rand(s['c'], 14, 13))


def pick(o, defaults):
    return {k: o.get(k, v) for k, v in defaults.items()}


def draw_groups(plt, image, shapes, styles, o, defaults, image_view=True):
    """What menpo draws for the shapes one after another; the figure."""
    kw = pick(o, defaults)
    plt.figure()
    for k, (x, y) in enumerate(zip(shapes, styles)):
        z = dict(kw, **y)
        if image is not None:
            im = image.copy()
            im.landmarks['x'] = x
            if isinstance(im, MaskedImage):
                z['masked'] = o.get('masked', True)
            im.view_landmarks(group='x', channels=o.get('channels'),
                              new_figure=False, render_legend=False,
                              **dict(z, **pick(o, PICTURE_DEFAULTS)))
        else:
            if isinstance(x, LabelledPointUndirectedGraph):
                z['render_legend'] = False
            x.view(new_figure=False, image_view=image_view, **z)
    return plt.gcf()


def verify(ctx, plt, fig, image, names, shapes, styles, o, sub,
           defaults=DEFAULTS, image_view=True, what='view'):
    """The figure shows each shape in its style, on the image if there is
    one, with titles or a legend."""
    t = pick(o, TITLE_DEFAULTS)
    if not names:
        return
    if sub:
        ctx.equal(len(fig.axes), len(names), what + ': number of subplots')
        boxes = [a.get_subplotspec() for a in fig.axes]
        pos = [(b.rowspan.start, b.colspan.start) for b in boxes]
        ctx.check(pos == sorted(set(pos)), 'subplots are not in reading '
                  'order: %r', pos)
        for k, a in enumerate(fig.axes):
            wk = '%s, %s' % (what, names[k])
            ref = draw_groups(plt, image, shapes[k:k + 1], styles[k:k + 1], o,
                              defaults, image_view)
            # automatic ticks depend on the space there is, and late ones
            # have matplotlib's fonts
            auto = [x for x in 'xy' if o.get('axes_%s_ticks' % x) is None]
            same_axes(ctx, a, ref.axes[0], wk, [
                x + y for x in auto for y in (' ticks', ' fonts')])
            p, q = frame(a), frame(ref.axes[0])
            for f in [x + ' fonts' for x in auto if q['on']]:
                ctx.check(not q[f] or set(p[f]) & set(q[f]),
                          '%s: axes have %s %r instead of %r', wk, f, p[f],
                          q[f])
            ctx.check(a.get_legend() is None, wk + ': legend in a subplot')
            ctx.equal(a.get_title(), names[k] if t['render_legend'] else '',
                      wk + ': title')
            if t['render_legend']:
                ctx.equal(font(a.title), (
                    (t['legend_font_name'],), t['legend_font_size'],
                    t['legend_font_style'], t['legend_font_weight']),
                    wk + ': font of the title')
        return
    ctx.equal(len(fig.axes), 1, what + ': number of axes')
    ref = draw_groups(plt, image, shapes, styles, o, defaults, image_view)
    a, b = fig.axes[0], ref.axes[0]
    legend = a.get_legend()
    ctx.equal(legend is not None, bool(t['render_legend']), what + ': legend')
    same_axes(ctx, a, b, what)
    if legend is None:
        return
    # what is drawn for each shape
    own = []
    for k in range(len(shapes)):
        z = dict(defaults, **dict(o, **styles[k]))
        c = []
        if z['render_lines'] and not type(shapes[k]) is PointCloud:
            c.append(rgba(z['line_colour'])[:3])
        if z['render_markers']:
            c += [rgba(z['marker_face_colour'])[:3]]
        own.append(c)
    exp = [k for k in range(len(shapes)) if own[k]]
    ctx.equal([x.get_text() for x in legend.texts], [names[k] for k in exp],
              what + ': entries of the legend')
    hs = legend.legend_handles
    ctx.equal(len(hs), len(exp), what + ': entries of the legend')
    for h, k in zip(hs, exp):
        cs = [h.get_color()]
        if hasattr(h, 'get_marker') and h.get_marker() not in (
                None, 'None', ''):
            cs = [h.get_markerfacecolor()]
        ok = any(np.allclose(rgba(x).ravel()[:3], y) for x in cs
                 for y in own[k])
        ctx.check(ok, '%s: the legend shows %s in %r instead of %r', what,
                  names[k], cs, own[k])
    handles = [plt.Line2D([0], [0]) for _ in exp]
    ref = b.legend(
        handles, [names[k] for k in exp],
        prop={'family': t['legend_font_name'], 'size': t['legend_font_size'],
              'style': t['legend_font_style'],
              'weight': t['legend_font_weight']},
        **{k: t['legend_' + v] for k, v in LEGEND_ARGS.items()})
    same_legend(ctx, legend, ref, what + ': legend')


view_spec = dict(
    seed=gen.seeds, shape=st.sampled_from(['cloud', 'graph', 'graph',
                                           'mesh']),
    c=st.sampled_from([0, 1, 1, 3]), o=options(
        LINES, MARKERS, AXES, NUMBERS, PICTURE, LEGEND),
    sub=st.booleans(), show=st.booleans(), channels=st.booleans())


def common(s):
    o = dict(s['o'])
    if s['c'] > 1 and s['channels']:
        o['channels'] = s['seed'] % s['c']
    return o


def several_channels(s, o):
    """Of several channels, the first one given is shown."""
    if 'channels' in o and s['seed'] // 8 % 2:
        k = o['channels']
        return [k] + [i for i in range(s['c'] - 1, -1, -1) if i != k]
    return o.get('channels')


@facet(P, 'results', st.fixed_dictionaries(dict(
    view_spec, final=st.booleans(), initial=st.booleans(), gt=st.booleans(),
    has=st.tuples(st.booleans(), st.booleans()),
    colours=st.lists(st.permutations(COLOURS), min_size=3, max_size=3))),
    quick=250)
def results(ctx, s):
    """Results show the final, initial and ground truth shapes asked for, each
    in its colours, with the requested style, titles and axes."""
    rs = gen.rng(s['seed'])
    im = picture(s, rs)
    x = [shape(s['shape'], rs) for _ in range(3)]
    r = Result(x[0], image=im, initial_shape=x[1] if s['has'][0] else None,
               gt_shape=x[2] if s['has'][1] else None)
    o = common(s)
    kw = dict(o, render_image=s['show'], subplots_enabled=s['sub'],
              render_final_shape=s['final'], render_initial_shape=s['initial'],
              render_gt_shape=s['gt'])
    names, shapes, styles = [], [], []
    keep = im.pixels.copy() if im is not None else None
    for k, (p, n, on) in enumerate((
            ('final', 'Final', s['final']),
            ('initial', 'Initial', s['initial'] and s['has'][0]),
            ('gt', 'Groundtruth', s['gt'] and s['has'][1]))):
        c = dict(line_colour=s['colours'][k][0],
                 marker_face_colour=s['colours'][k][1],
                 marker_edge_colour=s['colours'][k][2])
        kw.update({'%s_%s' % (p, a): b for a, b in c.items()})
        if on:
            names.append(n)
            shapes.append(x[k])
            styles.append(c)
    ctx.label('%d shapes, %s' % (len(names), 'subplots' if s['sub'] else
                                 'overlay'))
    ctx.nontrivial(bool(s['o']) and bool(names))
    with figures() as plt:
        if 'channels' in kw and names and s['show']:
            kw['channels'] = several_channels(s, o)
        fig = show(ctx, plt, s, r.view, **kw)
        shown = im if s['show'] else None
        verify(ctx, plt, fig, shown, names, shapes, styles, o, s['sub'])
        if not names and shown is not None:
            got = [q for q in content(fig.axes[0]) if q[0] == 'image']
            ctx.equal(len(content(fig.axes[0])), len(got), 'things drawn')
            ctx.check(len(got) >= 1, 'the image is not shown')
    if im is not None:
        ctx.check(np.array_equal(im.pixels, keep) and not im.has_landmarks,
                  'the image changed')


@facet(P, 'iterations', st.fixed_dictionaries(dict(
    view_spec, iters=st.lists(st.integers(0, 4), min_size=1, max_size=3),
    cls=st.sampled_from(['plain', 'parametric', 'multi', 'multi parametric']),
    initial=st.booleans(), some=st.booleans(),
    colours=st.sampled_from(['default', 'one', 'each']))), quick=200)
def iterations(ctx, s):
    """Displays of iterations show each selected shape in its colour and
    style."""
    from menpo.visualize.viewmatplotlib import sample_colours_from_colourmap
    rs = gen.rng(s['seed'])
    im = picture(s, rs)
    par = 'parametric' in s['cls']
    its = s['iters'] if s['cls'].startswith('multi') else s['iters'][:1]
    res, shapes, names = [], [], []
    num = 0
    init = shape(s['shape'], rs) if s['initial'] else None
    if init is not None:
        shapes.append(init)
        names.append('Initial')
    for k, n in enumerate(its):
        n = n if par else max(n, 1)
        x = [shape(s['shape'], rs) for _ in range(n + par)]
        q = dict(image=im, initial_shape=init if k == 0 else None)
        if par:
            names.append('Reconstruction')
            res.append(ParametricIterativeResult(x, [rs.rand(2)] * len(x),
                                                 **q))
        else:
            res.append(NonParametricIterativeResult(x, **q))
        for _ in range(n):
            num += 1
            names.append(num)
        shapes += x
    if s['cls'].startswith('multi'):
        C = MultiScaleParametricIterativeResult if par else \
            MultiScaleNonParametricIterativeResult
        I = [UniformScale(1., 2)] * len(its)
        r = C(res, [1.] * len(its), I, I, image=im)
    else:
        r = res[0]
    o = common(s)
    idx = list(range(len(shapes)))
    if s['some']:
        # in any order
        idx = rs.permutation(len(idx))[:max(1, len(idx) // 2)].tolist()
    n = len(idx)
    kw = dict(o, render_image=s['show'], subplots_enabled=s['sub'],
              iters=(idx[0] if n == 1 and s['seed'] % 2 else list(idx))
              if s['some'] else None)
    jet = sample_colours_from_colourmap(n, 'jet')
    styles = [{} for _ in idx]
    for c in ('line_colour', 'marker_face_colour', 'marker_edge_colour'):
        if s['colours'] == 'default':
            v = jet
        elif s['colours'] == 'one':
            kw[c] = COLOURS[rs.randint(len(COLOURS))]
            v = [kw[c]] * n
        else:
            v = kw[c] = [COLOURS[i % len(COLOURS)]
                         for i in rs.permutation(max(n, 9))[:n]]
        for y, z in zip(styles, v):
            y[c] = z
    ctx.label('%s, %s' % (s['cls'], 'subplots' if s['sub'] else 'overlay'))
    ctx.nontrivial(n > 1)
    with figures() as plt:
        fig = show(ctx, plt, s, r.view_iterations, **kw)
        if s['sub']:
            titles = [a.get_title() for a in fig.axes]
        else:
            l = fig.axes[0].get_legend()
            titles = [t.get_text() for t in l.texts] if l else []
        if len(titles) != n or not all(titles):
            # names are not shown; anything else is judged below
            titles = [''] * n
        verify(ctx, plt, fig, im if s['show'] else None, titles,
               [shapes[i] for i in idx], styles, o, s['sub'])


def per_group(s, o, n, rs):
    """Some of the options as one value per group."""
    args, styles = dict(o), [{} for _ in range(n)]
    for k in sorted(list(LINES) + list(MARKERS) + list(LINE_COLOUR) +
                    list(MARKER_COLOUR)):
        if k not in o:
            continue
        if k in s['lists']:
            pool = {'render_lines': [True, False], 'line_style': ['-', '--'],
                    'line_width': [1, 3.5], 'render_markers': [True, False],
                    'marker_style': ['o', 's', '*'], 'marker_size': [3, 8.5],
                    'marker_edge_width': [1, 2.5]}.get(k, COLOURS)
            v = [pool[rs.randint(len(pool))] for _ in range(n)]
            args[k] = v if s['lists'].index(k) % 3 else v[:1]
            v = args[k] * n if len(args[k]) == 1 else v
        else:
            v = [o[k]] * n
        for y, z in zip(styles, v):
            y[k] = z
    return args, styles


@facet(P, 'landmarks', st.fixed_dictionaries(dict(
    view_spec, n=st.integers(1, 4), o=options(
        LINES, MARKERS, LINE_COLOUR, MARKER_COLOUR, AXES, NUMBERS, PICTURE,
        LEGEND),
    lists=st.lists(st.sampled_from(sorted(LINES) + sorted(MARKERS) +
                                   sorted(LINE_COLOUR) +
                                   sorted(MARKER_COLOUR)), max_size=10),
    titles=st.booleans(), flip=st.booleans(), marks=st.sampled_from(
        [True, True, False]),
    labels=st.sampled_from(['no', 'no', 'all', 'one', 'list', 'each']),
    masked=st.sampled_from([None, None, True, False]),
    bad=st.sampled_from(['', '', '', 'length', 'type']))), quick=200)
def landmarks(ctx, s):
    """Groups of landmarks are shown together or side by side, each with its
    own style."""
    rs = gen.rng(s['seed'])
    im = picture(dict(s, c=max(s['c'], 1)), rs)
    if s['masked'] is not None:
        im = MaskedImage(im.pixels, mask=rs.rand(14, 13) < .6)
    groups = ['g%d' % i for i in rs.permutation(6)[:s['n']]]
    kind = s['shape'] if s['labels'] == 'no' else 'labelled'
    for g in ['other'] + sorted(groups):
        im.landmarks[g] = shape(kind, rs)
    o = common(dict(s, c=im.n_channels))
    if s['masked'] is False or s['masked'] and rs.randint(2):
        o['masked'] = s['masked']
    args, styles = per_group(s, o, s['n'], rs)
    titles = {g: 'Group %s' % g.upper() for g in groups}
    if s['titles']:
        args['subplots_titles'] = titles
    names = [titles[g] if s['titles'] else g for g in groups]
    args.update(render_image=s['show'], subplots_enabled=s['sub'],
                image_view=not s['flip'], render_landmarks=s['marks'])
    pool = [['a'], ['b'], ['c', 'a'], ['b', 'c'], ['a', 'b', 'c']]
    labels = {'no': [None], 'all': [None], 'one': [pool[rs.randint(2)]],
              'list': [pool[rs.randint(2, 5)]],
              'each': [pool[i] for i in rs.permutation(5)[:s['n']]]}[
                  s['labels']]
    if labels[0] is not None:
        args['with_labels'] = labels if s['labels'] == 'each' else labels[0]
    labels = labels * s['n'] if s['labels'] != 'each' else labels
    shown = [im.landmarks[g] if l is None else im.landmarks[g].with_labels(l)
             for g, l in zip(groups, labels)]
    base = dict(DEFAULTS, line_width=1, marker_size=5, marker_edge_width=1,
                line_colour='r', marker_face_colour='r',
                marker_edge_colour='k')
    with figures() as plt:
        if s['bad']:
            k = sorted(LINES)[rs.randint(3)] if rs.randint(2) else \
                sorted(MARKERS)[rs.randint(4)]
            m = s['n'] + 1 + (s['n'] == 1)
            if s['n'] > 2 and rs.randint(2):
                m = s['n'] - 1
            args[k] = [base[k]] * m \
                if s['bad'] == 'length' else {'no': 'value'}
            ctx.raises(ValueError, lambda: view_image_multiple_landmarks(
                im, groups, new_figure=True, **args),
                '%s of wrong %s' % (k, s['bad']))
            return
        if 'channels' in args:
            args['channels'] = several_channels(s, o)
        fig = show(ctx, plt, s, view_image_multiple_landmarks, im, groups,
                   **args)
        ctx.label('%d groups, %s' % (s['n'], 'subplots' if s['sub'] else
                                     'overlay'))
        ctx.nontrivial(s['n'] > 1)
        plain = im.copy()
        for g in list(plain.landmarks):
            del plain.landmarks[g]
        if s['marks']:
            verify(ctx, plt, fig, plain if s['show'] else None, names,
                   shown, styles, o, s['sub'], base, image_view=not s['flip'])
        elif s['show']:
            ref = plt.figure()
            if isinstance(plain, MaskedImage):
                m_kw = dict(masked=o.get('masked', True))
            else:
                m_kw = {}
            plain.view(new_figure=False, channels=o.get('channels'),
                       **m_kw, **{
                k: v for k, v in dict(pick(o, DEFAULTS), **pick(
                    o, PICTURE_DEFAULTS)).items()
                if k.startswith('axes') or k in PICTURE_DEFAULTS or
                k in ('render_axes', 'figure_size')})
            same_axes(ctx, fig.axes[0], ref.axes[0], 'image alone')
        else:
            ctx.equal(len(fig.axes), 0, 'axes of nothing')


# ------------------------------------------------------ deformation models
@facet(P, 'deformation', st.fixed_dictionaries(dict(
    seed=gen.seeds, n=st.integers(5, 8), pts=st.integers(4, 6),
    scales=st.sampled_from([[1.], [.5, 1.], [.5, .75, 1.]]),
    at=st.integers(-3, 2), graph=st.sampled_from(['none', 'tree', 'chain', 'complete']),
    o=st.fixed_dictionaries({}, optional=dict(
        n_std=st.sampled_from([1, 2, 3.5]), image_view=st.booleans(),
        render_graph_lines=st.booleans(), graph_line_colour=colour,
        graph_line_style=LINES['line_style'],
        graph_line_width=LINES['line_width'], ellipse_line_colour=colour,
        ellipse_line_style=LINES['line_style'],
        ellipse_line_width=LINES['line_width'],
        crop_proportion=st.sampled_from([.05, .3, 1.]),
        render_axes=st.booleans(), figure_size=AXES['figure_size'],
        **dict(MARKERS, **dict(MARKER_COLOUR, **fonts('axes_')))))
    )), quick=60)
def deformation(ctx, s):
    """Deformation models are shown as graphs with ellipses in the requested
    style, at the requested scale."""
    from menpo.shape import (PointDirectedGraph, PointTree, Tree,
                             UndirectedGraph)
    from menpo.visualize import plot_gaussian_ellipses
    n_sc = len(s['scales'])
    at = s['at'] if -n_sc <= s['at'] < n_sc else -1
    ims = gen.image_set(s['seed'], s['n'], s['pts'], n_channels=1,
                        size=(44, 46), noise=.08)
    rs = gen.rng(s['seed'], 3)
    g = graph(s['graph'], s['pts'], rs)
    m = aps.GenerativeAPS(ims, group='PTS', holistic_features=lambda x: x,
                          scales=s['scales'], patch_shape=(3, 3),
                          deformation_graph=g, use_procrustes=False,
                          n_appearance_components=2,
                          appearance_graph=UndirectedGraph.init_from_edges(
                              np.array([[0, 1], [1, 2]]), s['pts']))
    o = dict(s['o'])
    base = dict(
        n_std=2, image_view=True, render_graph_lines=True,
        graph_line_colour='b', graph_line_style='-', graph_line_width=1.,
        ellipse_line_colour='r', ellipse_line_style='-',
        ellipse_line_width=1., render_markers=True, marker_style='o',
        marker_size=5, marker_face_colour='k', marker_edge_colour='k',
        marker_edge_width=1., render_axes=False, axes_font_name='sans-serif',
        axes_font_size=10, axes_font_style='normal',
        axes_font_weight='normal', crop_proportion=.1, figure_size=(7, 7))
    base.update(o)
    shapes = np.array([
        im.rescale_to_pointcloud(m.reference_shape, group='PTS')
        .rescale(s['scales'][at]).landmarks['PTS'].points for im in ims])
    mean = m.shape_models[at].model.mean().points
    dg = m.deformation_graph[at]
    covs = [np.cov((shapes[:, b] - shapes[:, a]).T) for a, b in dg.edges]
    ctx.label('%s, scale %d of %d' % (type(dg).__name__, at, n_sc))
    ctx.nontrivial(bool(o))
    with figures() as plt:
        kw = {} if at == -1 and s['seed'] % 2 else {'scale_index': at}
        fig = show(ctx, plt, s, m.view_deformation_model, **dict(o, **kw))
        axes = {k: v for k, v in base.items() if k.startswith('axes_') or
                k in ('render_axes', 'image_view', 'figure_size') or
                k in MARKERS or k in MARKER_COLOUR}
        pg = PointTree(mean, dg.adjacency_matrix, dg.root_vertex) \
            if isinstance(dg, Tree) else \
            PointDirectedGraph(mean, dg.adjacency_matrix)
        plt.figure()
        pg.view(new_figure=False, render_lines=base['render_graph_lines'],
                **dict(axes, **{k: base['graph_' + k] for k in (
                    'line_colour', 'line_style', 'line_width')}))
        plot_gaussian_ellipses(
            covs, [mean[b] for _, b in dg.edges], new_figure=False,
            n_std=base['n_std'], crop_proportion=base['crop_proportion'],
            render_colour_bar=False, **dict(axes, **{
                k: base['ellipse_' + k] for k in (
                    'line_colour', 'line_style', 'line_width')}))
        ref = plt.gcf()
        ctx.equal(len(fig.axes), len(ref.axes), 'number of axes')
        same_axes(ctx, fig.axes[0], ref.axes[0], 'model', tol=1e-4)


# --------------------------------------------------------------- the curves
@facet(P, 'curves', st.fixed_dictionaries(dict(
    seed=gen.seeds, n=st.integers(2, 6), what=st.sampled_from(
        ['errors', 'displacements', 'costs', 'aps costs', 'ced']),
    stat=st.sampled_from(['mean', 'median', 'max', 'min']),
    o=options(LINES, LINE_COLOUR, MARKERS, MARKER_COLOUR, AXES, GRID),
    more=options(LEGEND, {'title': st.just('A title'),
                          'x_label': st.just('Errors'),
                          'y_label': st.just('Share')}),
    curves=st.integers(1, 4), named=st.sampled_from(['yes', 'no', 'wrong']),
    bins=st.sampled_from([None, None, [0., .06, .01], [.02, .11, .03],
                          [0., .05, .011]]))), quick=200)
def curves(ctx, s):
    """Error, displacement, cost and distribution curves are drawn in the
    requested style."""
    rs = gen.rng(s['seed'])
    o = dict(s['o'])
    base = dict(
        render_lines=True, line_colour='b', line_style='-', line_width=2,
        render_markers=True, marker_style='o', marker_size=4,
        marker_face_colour='b', marker_edge_colour='k', marker_edge_width=1.,
        render_axes=True, axes_font_name='sans-serif', axes_font_size=10,
        axes_font_style='normal', axes_font_weight='normal', axes_x_limits=0.,
        axes_y_limits=None, axes_x_ticks=None, axes_y_ticks=None,
        figure_size=(10, 6), render_grid=True, grid_line_style='--',
        grid_line_width=.5)
    x = [shape('cloud', rs) for _ in range(s['n'])]
    gt = shape('cloud', rs)
    costs = list(rs.rand(s['n']))
    what = s['what']
    ctx.label(what)
    ctx.nontrivial(bool(o))
    with figures() as plt:
        if what == 'ced':
            o.update(s['more'])
            errs = [list(.1 * rs.rand(9)) for _ in range(s['curves'])]
            for k in range(s['curves']):
                # methods may be as good as others
                if rs.rand() < .3:
                    errs[k] = list(errs[rs.randint(s['curves'])])
            n = len(errs)
            base.update(axes_x_limits=None, line_colour=None,
                        marker_style='s', marker_size=7,
                        marker_face_colour='w', marker_edge_colour=None,
                        marker_edge_width=2, figure_size=(7, 7),
                        render_legend=True, legend_title=None,
                        legend_font_name='sans-serif', legend_font_size=10,
                        legend_font_style='normal',
                        legend_font_weight='normal', legend_marker_scale=1.,
                        legend_location=2, legend_bbox_to_anchor=(1.05, 1.),
                        legend_border_axes_pad=1., legend_n_columns=1,
                        legend_horizontal_spacing=1.,
                        legend_vertical_spacing=1., legend_border=True,
                        legend_border_padding=.5, legend_shadow=False,
                        legend_rounded_corners=False,
                        title='Cumulative Error Distribution',
                        x_label='Normalized Point-to-Point Error',
                        y_label='Images Proportion')
            base.update(o)
            labels = ['m%d' % k for k in range(n)]
            if s['bins'] is not None:
                o['error_range'] = s['bins']
            if s['named'] == 'wrong':
                o['legend_entries'] = labels + ['m']
                ctx.raises(ValueError,
                           lambda: plot_cumulative_error_distribution(
                               errs, **o), 'too many entries')
                return
            if s['named'] == 'yes':
                o['legend_entries'] = labels
            fig = show(ctx, plt, s, plot_cumulative_error_distribution, errs,
                       **o)
            bins = s['bins'] or [0., .101, .005]
            xs = list(np.arange(*bins))
            ys = [[np.mean(np.array(e) <= b) for b in xs] for e in errs]
            if base['axes_x_limits'] is None:
                # the last error of the range, or where it was told to end
                end = fig.axes[0].get_xlim()[1]
                base['axes_x_limits'] = (0., min(
                    [xs[-1], bins[1]], key=lambda x: abs(x - end)))
            if base['axes_y_limits'] is None:
                base['axes_y_limits'] = (0., 1.)
            base['axes_x_limits'] = tuple(base['axes_x_limits']) \
                if not isinstance(base['axes_x_limits'], float) else \
                base['axes_x_limits']
            base['legend_entries'] = labels \
                if s['named'] == 'yes' else [
                'Curve %d' % k for k in range(n)]
        else:
            if what == 'aps costs':
                I = [UniformScale(1., 2)]
                r = APSResult([APSAlgorithmResult(
                    x, [rs.rand(2)] * len(x), costs=costs)], [1.], I, I)
            else:
                r = NonParametricIterativeResult(x, gt_shape=gt, costs=costs)
            base.update(o)
            if what == 'errors':
                fig = show(ctx, plt, s, r.plot_errors, **o)
                ys = [[default_error(q, gt) for q in x]]
                t = ('Fitting Errors per Iteration', 'Fitting Error')
            elif what == 'displacements':
                fig = show(ctx, plt, s, r.plot_displacements,
                           stat_type=s['stat'], **o)
                ys = [[getattr(np, s['stat'])(np.linalg.norm(
                    a.points - b.points, axis=1)) for a, b in zip(x, x[1:])]]
                n = {'mean': 'Mean', 'median': 'Median', 'max': 'Maximum',
                     'min': 'Minimum'}[s['stat']]
                t = (n + ' displacement per Iteration', n + ' Displacement')
            else:
                fig = show(ctx, plt, s, r.plot_costs, **o)
                ys = [costs]
                t = ('Cost per Iteration', 'Cost Function')
            xs = list(range(len(ys[0])))
            base.update(title=t[0], x_label='Iteration', y_label=t[1],
                        render_legend=False)
        plot_curve(x_axis=xs, y_axis=ys, new_figure=True, **base)
        ref = plt.gcf()
        ctx.equal(len(fig.axes), 1, 'number of axes')
        a, b = fig.axes[0], ref.axes[0]
        same_axes(ctx, a, b, what)
        ctx.equal(a.get_title(), b.get_title(), 'title')
        ctx.equal(font(a.title), font(b.title), 'font of the title')
        l, m = a.get_legend(), b.get_legend()
        ctx.equal(l is None, m is None, 'legend')
        if l is not None:
            same_legend(ctx, l, m, what + ': legend')
