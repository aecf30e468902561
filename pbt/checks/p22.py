"""P22: dlib: conversions, multi-scale ensembles of regression trees."""
import os
import re
import shutil
import tempfile
import warnings
from pathlib import Path

import dlib
import numpy as np
from hypothesis import strategies as st

from menpo.image import Image
from menpo.shape import PointCloud
from menpofit.dlib import DlibERT, DlibWrapper
from menpofit.dlib import conversion as conv
from menpofit.error import euclidean_error
from ..core import facet, Discard
from .. import gen
from .p14 import Perturb, bb_of, in_bounds

P = 'P22'


@facet(P, 'conversions', st.fixed_dictionaries({
    'seed': gen.seeds, 'n': st.integers(1, 9), 'size': st.sampled_from(
        [10., 1000.]), 'integral': st.booleans(),
    'c': st.sampled_from([1, 3, 1, 3, 4, 2, 36]), 'h': st.integers(1, 9),
    'w': st.integers(1, 9), 'dtype': st.sampled_from(
        ['float64', 'uint8', 'float32'])}), quick=1500)
def conversions(ctx, s):
    """Points, boxes, detections, images and options to and from dlib."""
    rs = gen.rng(s['seed'])
    p = rs.rand(s['n'], 2) * s['size']
    if s['integral']:
        p = np.round(p)
    pc = PointCloud(p)
    parts = conv.pointcloud_to_dlib_parts(pc)
    ctx.equal([(q.y, q.x) for q in parts],
              [(int(y), int(x)) for y, x in p], 'parts')
    rect = conv.pointcloud_to_dlib_rect(pc)
    ctx.equal((rect.top(), rect.left(), rect.bottom(), rect.right()),
              tuple(int(v) for v in np.hstack((p.min(0), p.max(0)))),
              'rectangle')
    bb = conv.dlib_rect_to_bounding_box(rect)
    ctx.close(bb.points, bb_of(np.floor(p)), 'bounding box', rtol=0)
    box = PointCloud(rs.rand(5, 2) * s['size'])
    det = conv.bounding_box_pointcloud_to_dlib_fo_detection(box, pc)
    q = conv.dlib_full_object_detection_to_pointcloud(det)
    ctx.close(q.points.astype(float), np.floor(p), 'detection', rtol=0)
    r = det.rect
    ctx.equal((r.top(), r.left(), r.bottom(), r.right()),
              tuple(int(v) for v in np.hstack((box.points.min(0),
                                               box.points.max(0)))),
              'rectangle of the detection')
    ctx.check(np.array_equal(pc.points, p), 'points were modified')
    # images
    px = rs.rand(s['c'], s['h'], s['w'])
    if s['dtype'] == 'uint8':
        px = (px * 255.99).astype(np.uint8)
        exp = px.astype(float)
    else:
        px = px.astype(s['dtype'])
        exp = 255. * px
    im = Image(px)
    ctx.label('%d channels' % s['c'])
    a = conv.image_to_dlib_pixels(im)
    ctx.equal(a.dtype, np.dtype(np.uint8), 'type of the pixels')
    exp = np.moveaxis(exp, 0, -1) if s['c'] == 3 else exp[0]
    ctx.equal(a.shape, exp.shape, 'shape of the pixels')
    ctx.check(np.abs(a - exp).max() <= 1, 'pixels differ')
    # options
    o = dlib.shape_predictor_training_options()
    o.nu = float(rs.rand())
    o.cascade_depth = int(rs.randint(1, 30))
    o.tree_depth = int(rs.randint(1, 9))
    o.num_trees_per_cascade_level = int(rs.randint(1, 99))
    o.oversampling_amount = int(rs.randint(1, 30))
    o.oversampling_translation_jitter = float(rs.rand())
    o.feature_pool_size = int(rs.randint(1, 300))
    o.lambda_param = float(rs.rand())
    o.num_test_splits = int(rs.randint(1, 30))
    o.feature_pool_region_padding = float(rs.rand() - .5)
    o.random_seed = str(rs.randint(99))
    o.num_threads = int(rs.randint(0, 4))
    o.be_verbose = bool(rs.randint(2))
    n = conv.copy_dlib_options(o)
    ctx.equal(str(n), str(o), 'options')
    o.nu = 17.
    ctx.check(n.nu != 17., 'options share their values')


def options(s, j):
    o = dlib.shape_predictor_training_options()
    pick = lambda k: s[k][j] if isinstance(s[k], list) else s[k]
    o.feature_pool_region_padding = pick('padding')
    o.feature_pool_size = pick('pairs')
    o.lambda_param = pick('prior')
    o.nu = pick('nu')
    o.num_test_splits = pick('splits')
    o.num_trees_per_cascade_level = pick('trees')
    o.oversampling_amount = pick('over')
    o.tree_depth = pick('levels')
    n = len(s['scales'])
    o.cascade_depth = s['its'][j] if isinstance(s['its'], list) else \
        int(np.round(s['its'] / float(n)))
    o.be_verbose = False
    return o


def rect_of(x):
    lo, hi = x.min(0), x.max(0)
    v = np.hstack((lo, hi))
    near = np.abs(v - np.round(v))
    if np.any((near > 0) & (near < 1e-6)):
        # decided by rounding errors
        raise Discard
    return dlib.rectangle(left=int(lo[1]), top=int(lo[0]), right=int(hi[1]),
                          bottom=int(hi[0]))


def predict(model, px, x):
    d = model(px, rect_of(x))
    return np.array([[q.y, q.x] for q in d.parts()], dtype=float)


def maybe_list(el):
    return st.one_of(el, st.lists(el, min_size=3, max_size=3))


ert_spec = dict(
    seed=gen.seeds, n=st.integers(2, 4), c=st.sampled_from([1, 3, 5]),
    scales=st.sampled_from([[1.], [.5, 1.], [.6], [.5, .8], [1., 1.],
                            [.5, .75, 1.]]),
    boxes=st.sampled_from(['none', 'one', 'many']),
    diag=st.sampled_from([None, 30, 45]), ref=st.sampled_from(
        ['none', 'none', 'landmarks', 'box']), pert=st.sampled_from([1, 2, 3, 2, 12]),
    padding=maybe_list(st.sampled_from([0, 1, .25, -.1])),
    pairs=maybe_list(st.integers(10, 40)),
    prior=maybe_list(st.sampled_from([.1, .3])),
    nu=maybe_list(st.sampled_from([.1, .4, .8])),
    splits=maybe_list(st.integers(1, 8)),
    trees=maybe_list(st.integers(1, 8)), over=maybe_list(st.integers(1, 3)),
    levels=maybe_list(st.integers(1, 4)),
    its=st.one_of(st.lists(st.integers(1, 5), min_size=3, max_size=3),
                  st.integers(3, 9)),
    noise=st.booleans(), box=st.booleans(), gt=st.booleans(),
    verbose=st.just(False))


@facet(P, 'ensembles', st.fixed_dictionaries(ert_spec), quick=900)
def ensembles(ctx, s):
    """Training and fitting equal own cascades over dlib."""
    n_sc = len(s['scales'])
    ims = gen.image_set(s['seed'], s['n'] + 1, 5, n_channels=s['c'],
                        size=(50, 53), noise=.03)
    rs = gen.rng(s['seed'], 41)
    glob = None
    for k, im in enumerate(ims):
        im.pixels = np.clip(im.pixels, 0, 1)
        if s['boxes'] != 'none':
            glob = 'box_*'
            for j in range(1 if s['boxes'] == 'one' else 2):
                im.landmarks['box_%d' % j] = PointCloud(
                    bb_of(im.landmarks['PTS'].points) + rs.uniform(-3, 3, 2))
            im.landmarks['other'] = PointCloud(
                bb_of(im.landmarks['PTS'].points) + 5)
    train, test = ims[:-1], ims[-1]
    snaps = [gen.snapshot_image(im) for im in ims]
    cut = lambda v: v[:n_sc] if isinstance(v, list) else v
    s = dict(s, **{k: cut(s[k]) for k in ('padding', 'pairs', 'prior', 'nu',
                                          'splits', 'trees', 'over', 'levels',
                                          'its')})
    pert = Perturb(s['seed'])
    kw = {}
    ref = None
    if s['ref'] != 'none':
        ref = PointCloud(train[0].landmarks['PTS'].points * .83)
        if s['ref'] == 'box':
            ref = ref.bounding_box()
        kw['reference_shape'] = ref
    f = DlibERT(train, group='PTS', bounding_box_group_glob=glob,
                diagonal=s['diag'], scales=list(s['scales']),
                n_perturbations=s['pert'], n_dlib_perturbations=s['over'],
                perturb_from_gt_bounding_box=pert, n_iterations=s['its'],
                feature_padding=s['padding'], n_pixel_pairs=s['pairs'],
                distance_prior_weighting=s['prior'],
                regularisation_weight=s['nu'], n_split_tests=s['splits'],
                n_trees=s['trees'], n_tree_levels=s['levels'], **kw)
    for im, sn in zip(ims, snaps):
        d = gen.image_diff(im, sn)
        ctx.check(d is None, 'training: %s', d)
    ctx.label('%d scales, boxes: %s' % (n_sc, s['boxes']))
    # ---- the reference shape ----
    got = bb_of(f.reference_shape.points)
    if ref is None:
        m = np.mean([bb_of(im.landmarks['PTS'].points) for im in train], 0)
        if s['diag'] is not None:
            m = m * s['diag'] / np.linalg.norm(m.max(0) - m.min(0))
        ctx.close(got - got.mean(0), m - m.mean(0), 'reference shape',
                  rtol=1e-9)
    else:
        ctx.close(got - got.mean(0), bb_of(ref.points) -
                  bb_of(ref.points).mean(0), 'reference shape', rtol=1e-9)
    refbox = PointCloud(got)
    # ---- training ----
    rescaled, boxes = [], []
    total = 0
    for im in train:
        im = im.copy()
        im.landmarks['bb'] = im.landmarks['PTS'].bounding_box()
        r = im.rescale_to_pointcloud(refbox, group='bb')
        g = r.landmarks['PTS'].points
        given = [bb_of(g)] if glob is None else \
            [bb_of(r.landmarks[k].points) for k in sorted(r.landmarks)
             if k.startswith('box_')]
        out = []
        for b in given:
            z = [z for q, bb, z in pert.calls
                 if np.allclose(q, bb_of(g), atol=1e-7) and
                 np.allclose(bb, b, atol=1e-7)]
            ctx.equal(len(z), s['pert'], 'perturbations of a bounding box')
            total += len(z)
            out += [bb_of(q) for q in z] + ([b] if glob else [])
        rescaled.append(r)
        boxes.append([in_bounds(b, r) for b in out])
    ctx.equal(total, len(pert.calls), 'number of perturbations')
    models = []
    for j, sc in enumerate(s['scales']):
        pairs = [im.rescale(sc, return_transform=True) if sc != 1 else
                 (im, None) for im in rescaled]
        down = [[t.pseudoinverse().apply(b) if t else b for b in bs]
                for (_, t), bs in zip(pairs, boxes)]
        pxs = [conv.image_to_dlib_pixels(im) for im, _ in pairs]
        dets = []
        for (im, _), bs in zip(pairs, down):
            g = im.landmarks['PTS'].points
            near = np.abs(g - np.round(g))
            if np.any((near > 0) & (near < 1e-6)):
                raise Discard
            dets.append([dlib.full_object_detection(
                rect_of(b), [dlib.point(int(x), int(y)) for y, x in g])
                for b in bs])
        o = options(s, j)
        models.append(dlib.train_shape_predictor(pxs, dets, o))
        boxes = [[bb_of(predict(models[-1], px, b)) for b in bs]
                 for px, bs in zip(pxs, down)]
        boxes = [[t.apply(b) if t else b for b in bs]
                 for (_, t), bs in zip(pairs, boxes)]
    # ---- fitting ----
    for im in (test, train[0]):
        x = gen.perturb(im.landmarks['PTS'], s['seed'], 1., 2.)
        start = x.bounding_box()
        gt = im.landmarks['PTS'] if s['gt'] else None
        if s['box']:
            r = f.fit_from_bb(im, start, gt_shape=gt)
        else:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                r = f.fit_from_shape(im, x, gt_shape=gt)
            ctx.check(any('bounding box' in str(i.message) for i in w),
                      'no warning about the initial shape')
        c = im.copy()
        c.landmarks['start'] = PointCloud(bb_of(start.points))
        big, up = c.rescale_to_pointcloud(refbox, group='start',
                                          return_transform=True)
        cur = up.pseudoinverse().apply(bb_of(start.points))
        exp = []
        for j, sc in enumerate(s['scales']):
            small, t = big.rescale(sc, return_transform=True) \
                if sc != 1 else (big, None)
            y = t.pseudoinverse().apply(cur) if t else cur
            y = predict(models[j], conv.image_to_dlib_pixels(small), y)
            cur = t.apply(y) if t else y
            exp.append(up.apply(cur))
        ctx.equal(len(r.shapes), n_sc, 'number of shapes')
        for j, (a, b) in enumerate(zip(r.shapes, exp)):
            ctx.close(a.points, b, 'shape of scale %d' % j, rtol=1e-9)
        ctx.close(r.final_shape.points, exp[-1], 'final shape', rtol=1e-9)
        if gt is not None:
            ctx.close(r.final_error(euclidean_error), np.mean(np.linalg.norm(
                exp[-1] - gt.points, axis=1)), 'error')
    # ---- description ----
    text = str(f)
    m = re.findall(r'diagonal: ([0-9.]+)', text)
    ctx.equal(len(m), 1, 'mentions of the diagonal')
    # (given reference shapes are not brought to the diagonal)
    ctx.check(abs(float(m[0]) - np.linalg.norm(got.max(0) - got.min(0)))
              <= .0051 or ref is not None and s['diag'] is not None,
              'diagonal %s of a reference shape %r', m[0], got)
    for j in range(n_sc):
        o = options(s, j)
        part = text.split('Scale %s' % s['scales'][j])[1 + (
            j if s['scales'] == [1., 1.] else 0)]
        for line in ('Cascade depth: %d' % o.cascade_depth,
                     'Depth per tree: %d' % o.tree_depth,
                     'Trees per cascade level: %d' %
                     o.num_trees_per_cascade_level,
                     'Feature pool of size %d' % o.feature_pool_size,
                     '%d split tests' % o.num_test_splits,
                     'Regularisation parameter: %.1f' % o.nu,
                     'padding %.1f' % o.feature_pool_region_padding,
                     'Lambda: %.1f' % o.lambda_param,
                     'Total perturbations generated: %d' %
                     (o.oversampling_amount * s['pert']),
                     'Perturbations generated per shape: %d' %
                     o.oversampling_amount):
            ctx.check(re.search(re.escape(line) + r'(\s|$)', part),
                      'the description of scale %d lacks "%s"', j, line)


@facet(P, 'duplicates', st.fixed_dictionaries(dict(
    seed=gen.seeds, n=st.integers(2, 3), glob=st.booleans(),
    pert=st.sampled_from([1, 2, 3]), scales=st.sampled_from([[1.], [.5, 1.]]),
    where=st.integers(0, 3))), quick=40, thorough=300)
def duplicates(ctx, s):
    """An image object that is given twice counts as much as its copy."""
    ims = gen.image_set(s['seed'], s['n'] + 1, 5, size=(50, 53), noise=.03)
    for im in ims:
        im.pixels = np.clip(im.pixels, 0, 1)
        im.landmarks['box_0'] = PointCloud(
            bb_of(im.landmarks['PTS'].points) + 1.5)
    train, test = ims[:-1], ims[-1]
    w = s['where'] % (s['n'] + 1)

    def pert(gt, box):
        # depends on what is perturbed only
        return PointCloud(box.points + 3 * np.sin(
            gt.points.sum() * np.arange(1, 3)))

    def fit(again):
        f = DlibERT(train[:w] + [again] + train[w:], group='PTS',
                    bounding_box_group_glob='box_*' if s['glob'] else None,
                    scales=list(s['scales']), diagonal=40,
                    n_perturbations=s['pert'], n_dlib_perturbations=1,
                    perturb_from_gt_bounding_box=pert, n_iterations=2,
                    n_trees=6, n_tree_levels=2, n_pixel_pairs=30)
        return [f.fit_from_bb(im, im.landmarks['box_0']).final_shape.points
                for im in (test, train[0])]
    a, b = fit(train[0]), fit(train[0].copy())
    for x, y in zip(a, b):
        ctx.close(x, y, 'ensembles trained with an image twice', rtol=1e-9)
    ctx.equal(sorted(train[0].landmarks), ['PTS', 'box_0'],
              'landmark groups of the image given twice')


@facet(P, 'wrapper', st.fixed_dictionaries({
    'seed': gen.seeds, 'how': st.sampled_from(['str', 'path', 'model']),
    'c': st.sampled_from([1, 3]), 'box': st.booleans(), 'gt': st.booleans(),
    'missing': st.booleans()}), quick=400)
def wrapper(ctx, s):
    """Pre-trained dlib models answer as dlib does."""
    ims = gen.image_set(s['seed'], 3, 5, n_channels=s['c'], size=(44, 46))
    for im in ims:
        im.pixels = np.clip(im.pixels, 0, 1)
    o = dlib.shape_predictor_training_options()
    o.cascade_depth = 2
    o.num_trees_per_cascade_level = 4
    o.tree_depth = 2
    o.feature_pool_size = 20
    dets = [[dlib.full_object_detection(rect_of(i.landmarks['PTS'].points), [
        dlib.point(int(x), int(y)) for y, x in i.landmarks['PTS'].points])]
        for i in ims]
    model = dlib.train_shape_predictor(
        [conv.image_to_dlib_pixels(i) for i in ims], dets, o)
    d = tempfile.mkdtemp(prefix='vp22_')
    try:
        arg = model
        if s['how'] != 'model':
            arg = os.path.join(d, 'model.dat')
            model.save(arg)
            if s['how'] == 'path':
                arg = Path(arg)
        f = DlibWrapper(arg)
        if s['missing']:
            try:
                DlibWrapper(os.path.join(d, 'nowhere.dat'))
            except ValueError:
                pass
            else:
                ctx.fail('a missing file is accepted')
    finally:
        shutil.rmtree(d)
    im = ims[1]
    snap = gen.snapshot_image(im)
    x = gen.perturb(im.landmarks['PTS'], s['seed'], 1., 2.)
    gt = im.landmarks['PTS'] if s['gt'] else None
    if s['box']:
        r = f.fit_from_bb(im, x.bounding_box(), gt_shape=gt)
    else:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            r = f.fit_from_shape(im, x, gt_shape=gt)
        ctx.check(any('bounding box' in str(i.message) for i in w),
                  'no warning about the initial shape')
    ctx.check(gen.image_diff(im, snap) is None, 'the image was modified')
    e = predict(model, conv.image_to_dlib_pixels(im), x.points)
    ctx.close(r.final_shape.points.astype(float), e, 'final shape', rtol=0)
    ctx.check(r.initial_shape is None, 'initial shape')
    ctx.check(not r.is_iterative, 'kind of result')
    ctx.check(np.array_equal(r.image.pixels, im.pixels), 'image')
    if gt is not None:
        ctx.close(r.final_error(euclidean_error),
                  np.mean(np.linalg.norm(e - gt.points, axis=1)), 'error')
    else:
        ctx.check(r.gt_shape is None, 'ground truth')
