"""P21: pickled models and fitters, wrapped fitters and their download."""
import contextlib
import copy
import io as sio
import os
import pickle
import shutil
import tempfile
import urllib.request
import urllib.response
from functools import partial
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from menpo.image import Image
from menpo.shape import PointCloud
from menpofit import aam, atm, aps, clm
from menpofit import io as mio
from menpofit import unified_aam_clm as uni
from menpofit.error import euclidean_error
from menpofit.io import PickleWrappedFitter, image_greyscale_crop_preprocess
from ..core import facet, Discard
from .. import gen, fams
from . import p18
from .p18 import fit, numbers, same, images, starts

P = 'P21'
KINDS = fams.MODEL_KINDS + ['lk', 'sdm', 'psdm', 'sdaam', 'ert']


def again(x, how):
    if how == 'copy':
        return copy.deepcopy(x)
    return pickle.loads(pickle.dumps(x, how))


@facet(P, 'pickles', st.fixed_dictionaries(dict(
    p18.spec, what=st.sampled_from(['model', 'grown', 'fitter',
                                    'used fitter', 'result']),
    how=st.sampled_from([4, 2, 3, 5, 'copy']))), quick=450)
def pickles(ctx, s):
    """What comes back from a pickle, or from deepcopy, works the same."""
    ims = images(s)
    x = starts(s, ims, 3)
    kind, what, how = s['kind'], s['what'], s['how']
    model = kind in fams.MODEL_KINDS
    if what in ('model', 'grown') and not model:
        what = 'fitter'
    ctx.label(kind)
    ctx.label(what)
    gt = ims[1].landmarks['PTS']
    if what in ('model', 'grown'):
        grow = what == 'grown' and kind not in ('aps', 'uni')
        m = p18.model_of(s, ims[:4] if grow else ims)
        n = again(m, how)
        if grow:
            for y in (m, n):
                if kind.startswith('atm'):
                    y.increment(ims[0], [i.landmarks['PTS'] for i in ims[3:]],
                                group='PTS')
                else:
                    y.increment(ims[3:], group='PTS')
        f, g = (p18.fitter_of(s, ims, y) for y in (m, n))
        if grow:
            ctx.label('incremented')
        ctx.equal(str(n), str(m), 'description')
    else:
        f = p18.fitter_of(s, ims)
        if what == 'used fitter':
            fit(f, s, ims[0], x[0])
        if what == 'result':
            r = fit(f, s, ims[1], x[1], gt, box=s['box'])
            q = again(r, how)
            same(ctx, numbers(q), numbers(r), 'result', 0)
            ctx.equal(type(q), type(r), 'type')
            ctx.close(q.final_error(), r.final_error(), 'error', rtol=0)
            if r.is_iterative:
                ctx.close(q.errors(), r.errors(), 'errors', rtol=0)
            ctx.equal(str(q), str(r), 'description')
            return
        g = again(f, how)
        ctx.equal(str(g), str(f), 'description')
    for i in (1, 2):
        a = numbers(fit(f, s, ims[i], x[i], gt if i == 1 else None,
                        box=s['box']))
        b = numbers(fit(g, s, ims[i], x[i], gt if i == 1 else None,
                        box=s['box']))
        same(ctx, b, a, 'fit %d' % i, 1e-7)


# ---------------------------------------------------------------- preprocess
@facet(P, 'preprocess', st.fixed_dictionaries({
    'seed': gen.seeds, 'c': st.sampled_from([1, 3, 2, 4]),
    'h': st.integers(12, 40), 'w': st.integers(12, 40),
    'prop': st.sampled_from([None, 0., .25, 1., 2.]),
    'n': st.integers(2, 6), 'u8': st.booleans(),
    'out': st.booleans()}), quick=300)
def preprocess(ctx, s):
    """Default preprocessing of wrapped fitters: the grey image around the
    points, and the translation back to the image."""
    rs = gen.rng(s['seed'])
    px = rs.rand(s['c'], s['h'], s['w'])
    if s['u8']:
        px = (255 * px).astype(np.uint8)
    im = Image(px)
    size = np.array([s['h'], s['w']])
    p = rs.uniform(3, 1, (s['n'], 2)) * 0 + rs.rand(s['n'], 2) * (size - 5) + 2
    if s['out']:
        p[0] = p[0] - rs.uniform(0, 2, 2) - p.min(0)
    if np.min(p.max(0) - p.min(0)) < 1:
        raise Discard
    pc = PointCloud(p)
    im.landmarks['x'] = PointCloud(p)
    snap = gen.snapshot_image(im)
    kw = {} if s['prop'] is None else {'crop_proportion': s['prop']}
    prop = 1. if s['prop'] is None else s['prop']
    out, t = image_greyscale_crop_preprocess(im, pc, **kw)
    d = gen.image_diff(im, snap)
    ctx.check(d is None, 'the image was modified: %s', d)
    ctx.check(np.array_equal(pc.points, p), 'the points were modified')
    grey = px
    if s['c'] == 3:
        f = px.astype(float) / (255. if s['u8'] else 1.)
        grey = np.tensordot([.2126, .7152, .0722], f, 1)[None]
        alt = np.tensordot([.299, .587, .114], f, 1)[None]
        alt2 = np.tensordot([.2989, .5870, .1140], f, 1)[None]
    ctx.equal(out.n_channels, 1 if s['c'] == 3 else s['c'], 'channels')
    o = t.apply(np.zeros((1, 2)))[0]
    ctx.close(t.apply(np.eye(2)), np.eye(2) + o, 'transform')
    ctx.check(np.all(o == np.round(o)), 'whole pixels')
    o = o.astype(int)
    h, w = out.shape
    part = (slice(None), slice(o[0], o[0] + h), slice(o[1], o[1] + w))
    got = out.pixels.astype(float)
    if s['c'] == 3:
        if got.max() > 1.5:
            got = got / 255.
        err = min(np.abs(got - a[part]).max() for a in (grey, alt, alt2))
        ctx.check(err < 6e-3, 'pixels differ by %.3g', err)
    else:
        ctx.close(got, px[part].astype(float), 'pixels', rtol=0)
    b = prop * np.min(p.max(0) - p.min(0))
    lo = np.maximum(p.min(0) - b, 0)
    hi = np.minimum(p.max(0) + b, size - 1)
    ctx.check(np.all(o <= lo) and np.all(o > lo - 1 - 1e-9),
              'crop starts at %s, expected %s', o, lo)
    e = o + np.array([h, w])
    ctx.check(np.all(e >= np.floor(hi)) and np.all(e <= hi + 2),
              'crop ends at %s, expected %s', e, hi)
    ctx.close(out.landmarks['x'].points, p - o, 'landmarks')


# ------------------------------------------------------------------- wrapped
def parts(s, ims):
    """class, args and kwargs of a fitter."""
    kind = s['kind']
    if kind in fams.MODEL_KINDS:
        m = p18.model_of(s, ims)
        alg = p18.alg_of(s)
        k = 'atm' if kind.startswith('atm') else kind[:3]
        mod, cls, name = {
            'aam': (aam, aam.LucasKanadeAAMFitter, 'lk_algorithm_cls'),
            'atm': (atm, atm.LucasKanadeATMFitter, 'lk_algorithm_cls'),
            'clm': (clm, clm.GradientDescentCLMFitter, 'gd_algorithm_cls'),
            'aps': (aps, aps.GaussNewtonAPSFitter, 'gn_algorithm_cls'),
            'uni': (uni, uni.UnifiedAAMCLMFitter, 'algorithm_cls')}[k]
        kw = {name: getattr(mod, alg)}
        kw['n_shape'] = s['n_shape']
        return cls, (m,), kw
    if kind == 'dlibwrap':
        from menpofit.dlib import DlibWrapper
        f = p18.fitter_of(dict(s, kind='ert', scales=[1.]), ims)
        return DlibWrapper, (f.algorithms[0].dlib_model,), {}
    return Existing(p18.fitter_of(s, ims)), (), {}


class Existing(object):
    """Stands for the class of a fitter that exists already."""

    def __init__(self, f):
        self.f = f

    def __call__(self):
        return self.f


def bigger(im, pc):
    return im.rescale(1.25, return_transform=True)


def turned(im, pc):
    new, t = im.rotate_ccw_about_centre(10, retain_shape=False,
                                        return_transform=True)
    return new, t


PRE = {'none': None, 'default': image_greyscale_crop_preprocess,
       'tight': partial(image_greyscale_crop_preprocess, crop_proportion=.2),
       'bigger': bigger, 'turned': turned}


@facet(P, 'wrapped', st.fixed_dictionaries(dict(
    p18.spec, kind=st.sampled_from(KINDS + ['dlibwrap', 'clm', 'sdm']),
    n_shape=st.sampled_from([None, 2]),
    pre=st.sampled_from(['omitted', 'none', 'default', 'tight', 'bigger',
                         'turned']),
    frozen=st.sampled_from([None, 4, 1]), runtime=st.sampled_from([None, 2]),
    colour=st.booleans(), load=st.booleans())), quick=450)
def wrapped(ctx, s):
    """Wrapped fitters work on the preprocessed image and answer in the
    coordinates of the image they were given."""
    s = dict(s, c=1)
    ims = images(dict(s, kind='ert'))
    kind = s['kind']
    ctx.label(kind)
    ctx.label(s['pre'])
    cls, args, kwargs = parts(s, ims)
    iters = kind in fams.MODEL_KINDS or kind == 'lk'
    frozen = {}
    if iters and s['frozen'] is not None:
        frozen = {'max_iters': [s['frozen']] * len(s['scales'])}
    kept = copy.deepcopy(frozen)
    other = {'max_iters': 7} if iters else {}
    pre = PRE.get(s['pre'], image_greyscale_crop_preprocess)
    kw = {} if s['pre'] == 'omitted' else {'image_preprocess': pre}
    make = partial(PickleWrappedFitter, cls, args, kwargs,
                   frozen if s['box'] else other,
                   other if s['box'] else frozen, **kw)
    if s['load'] and kind != 'lk':
        make = pickle.loads(pickle.dumps(make))
    wf = make()
    direct = cls(*args, **kwargs)
    im = ims[0]
    if s['colour'] and s['pre'] in ('omitted', 'default', 'tight'):
        rs = gen.rng(s['seed'], 8)
        mix = rs.rand(3, 1, 1)
        im = Image(np.clip(mix * im.pixels, 0, 1))
        ctx.label('colour')
    start = starts(s, ims, 1)[0]
    if s['box']:
        start = start.bounding_box()
    keep = start.points.copy()
    snap = gen.snapshot_image(im)
    gt = ims[0].landmarks['PTS'] if s['gt'] else None
    run = {}
    if iters and s['runtime'] is not None:
        run['max_iters'] = s['runtime']
    call = dict(run)
    if gt is not None:
        call['gt_shape'] = gt

    def go(f, image, shape, **k):
        np.random.seed(11)
        return (f.fit_from_bb if s['box'] else f.fit_from_shape)(
            image, shape, **k)
    try:
        if iters and s['runtime'] is None:
            # arguments of one fit are those of that fit only
            go(wf, im, start, max_iters=1)
        r = go(wf, im, start, **call)
    except np.linalg.LinAlgError:
        raise Discard
    ctx.equal(frozen, kept, 'arguments of the wrapped fitter')
    ctx.check(gen.image_diff(im, snap) is None, 'the image was modified')
    ctx.check(np.array_equal(start.points, keep), 'the start was modified')
    if pre is None:
        image, t = im, None
    else:
        image, t = pre(im, start)
    moved = start if t is None else t.pseudoinverse().apply(start)
    e = go(direct, image, moved, **dict(frozen, **run))
    back = (lambda x: x) if t is None else t.apply
    if e.initial_shape is None:
        ctx.check(r.initial_shape is None, 'initial shape')
    else:
        ctx.close(r.initial_shape.points, back(e.initial_shape).points,
                  'initial shape', rtol=1e-6)
    ctx.close(r.final_shape.points, back(e.final_shape).points,
              'final shape', rtol=1e-6)
    ctx.equal(r.is_iterative, e.is_iterative, 'kind of result')
    if e.is_iterative:
        ctx.equal(len(r.shapes), len(e.shapes), 'number of shapes')
        for a, b in zip(r.shapes, e.shapes):
            ctx.close(a.points, back(b).points, 'shapes', rtol=1e-6)
        ctx.equal(r.n_iters, e.n_iters, 'iterations')
    if hasattr(e, 'reconstructed_initial_shapes'):
        for a, b in zip(r.reconstructed_initial_shapes,
                        e.reconstructed_initial_shapes):
            ctx.close(a.points, back(b).points, 'reconstructed initial '
                      'shapes', rtol=1e-6)
    for n in ('shape_parameters', 'appearance_parameters'):
        v = getattr(e, n, None)
        if v is not None:
            for a, b in zip(getattr(r, n), v):
                if b is not None:
                    ctx.close(a, b, n, rtol=1e-6)
    ctx.check(np.array_equal(r.image.pixels, im.pixels), 'the image of the '
              'result is the one that was given')
    if gt is not None:
        ctx.close(r.gt_shape.points, gt.points, 'ground truth', rtol=0)
        ctx.close(r.final_error(euclidean_error),
                  np.mean(np.linalg.norm(r.final_shape.points - gt.points,
                                         axis=1)), 'final error')
    im.pixels[:] = 0
    ctx.check(np.array_equal(r.image.pixels, snap[0]), 'the result shares '
              'the pixels of the image')


# ------------------------------------------------------------------ download
@contextlib.contextmanager
def scratch(tag):
    d = Path(tempfile.mkdtemp(prefix='vp21_'))
    old = {}
    try:
        (d / 'src' / 'data').mkdir(parents=True)
        (d / 'srv' / 'menpofit').mkdir(parents=True)
        for k, v in (('menpofit_src_dir_path', lambda: d / 'src'),
                     ('MENPO_URL', (d / 'srv').as_uri())):
            if not hasattr(mio, k):
                raise Discard
            old[k] = getattr(mio, k)
            setattr(mio, k, v)
        if mio.path_of_fitter(tag).parent != d / 'src' / 'data' or \
                not mio.url_of_fitter(tag).startswith('file://'):
            raise Discard
        with contextlib.redirect_stdout(sio.StringIO()):
            yield d
    finally:
        for k, v in old.items():
            setattr(mio, k, v)
        shutil.rmtree(str(d))


class Line(object):
    """A connection delivering at most ``most`` bytes per read, which breaks
    after ``breaks`` bytes."""

    def __init__(self, f, most, breaks):
        self.f, self.most, self.left = f, most, breaks

    def read(self, n=-1):
        if self.left is not None and self.left <= 0:
            raise OSError('connection reset')
        n = self.most if n is None or n < 0 else n
        if self.most is not None:
            n = min(n, self.most)
        if self.left is not None:
            n = min(n, self.left) if n >= 0 else self.left
        b = self.f.read(n if n is not None else -1)
        if self.left is not None:
            self.left -= len(b)
        return b

    def __getattr__(self, k):
        return getattr(self.f, k)


class Slow(urllib.request.FileHandler):
    most = None
    breaks = None

    def file_open(self, req):
        r = urllib.request.FileHandler.file_open(self, req)
        if self.most is None and self.breaks is None:
            return r
        return urllib.response.addinfourl(
            Line(r, self.most, self.breaks), r.headers, r.url)


@contextlib.contextmanager
def connection():
    """Downloads through urllib pass through the yielded handler."""
    h = Slow()
    old = urllib.request._opener
    urllib.request.install_opener(urllib.request.build_opener(h))
    try:
        yield h
    finally:
        urllib.request.install_opener(old)


@facet(P, 'copies', st.fixed_dictionaries({
    'seed': gen.seeds, 'n': st.integers(0, 300),
    'length': st.sampled_from([1, 2, 7, 64, 300, 1024]),
    'most': st.lists(st.integers(1, 80), min_size=1, max_size=5),
    'full': st.booleans()}), quick=150)
def copies(ctx, s):
    """Whatever a stream delivers per read is copied to its end, with an item
    per chunk."""
    blob = gen.rng(s['seed']).bytes(s['n'])
    sizes = []

    class Source(sio.BytesIO):
        def read(self, n=-1):
            k = n if s['full'] else s['most'][len(sizes) % len(s['most'])]
            b = sio.BytesIO.read(self, min(n, k) if n >= 0 else k)
            sizes.append(len(b))
            return b

    out = sio.BytesIO()
    k = 0
    for _ in mio.copy_and_yield(Source(blob), out, length=s['length']):
        k += 1
        ctx.equal(len(out.getvalue()), sum(sizes), 'bytes copied so far')
    ctx.nontrivial(k > 1)
    ctx.label('full reads' if s['full'] else 'short reads')
    ctx.check(out.getvalue() == blob, 'copied %d of %d bytes',
              len(out.getvalue()), len(blob))
    ctx.equal(k, sum(1 for n in sizes if n), 'number of items')


@facet(P, 'downloads', st.fixed_dictionaries({
    'most': st.sampled_from([None, None, 3000, 524287, 700001]),
    'seed': gen.seeds, 'name': st.sampled_from(['a', 'balanced_aam', 'x.y']),
    'size': st.sampled_from([0, 10, 524287, 524288, 524289, 1300000]),
    'verbose': st.booleans(),
    'ops': st.lists(st.sampled_from(['load', 'load', 'load', 'spoil cache',
                                     'cut cache', 'drop cache', 'spoil server',
                                     'cut server', 'new version', 'down',
                                     'break']),
                    min_size=1, max_size=12)}), quick=200,
       rule='something was loaded')
def downloads(ctx, s):
    """Fitters are downloaded once, loaded and invoked, however the
    connection portions them; damaged and partial files are purged so that the
    next attempt starts afresh."""
    rs = gen.rng(s['seed'])
    blob = rs.bytes(s['size'])
    with scratch(s['name']) as d, connection() as line:
        line.most = s['most']
        name = mio.filename_for_fitter(s['name'])
        ctx.check(name.startswith(s['name']) and name.endswith('.pkl'),
                  'file name %s', name)
        ctx.equal(Path(mio.url_of_fitter(s['name'])).name, name, 'URL')
        # plain downloads
        src = d / 'srv' / 'blob'
        src.write_bytes(blob)
        mio.download_file(src.as_uri(), d / 'blob', verbose=s['verbose'])
        ctx.check((d / 'blob').read_bytes() == blob,
                  'the downloaded bytes differ')
        server = d / 'srv' / 'menpofit' / name
        cache = mio.path_of_fitter(s['name'])

        def content(v):
            return pickle.dumps(partial(dict, version=v, blob=blob))
        version = 1
        server.write_bytes(content(version))
        state = None          # of the cache: None, 'bad' or a version
        srv = version         # of the server: 'down', 'bad' or a version
        n = 0
        for op in ['load'] + s['ops']:
            if op == 'spoil cache' and state is not None:
                cache.write_bytes(b'<html>503</html>')
                state = 'bad'
            elif op == 'cut cache' and state is not None:
                b = cache.read_bytes()
                cache.write_bytes(b[:len(b) // 2])
                state = 'bad'
            elif op == 'drop cache' and state is not None:
                cache.unlink()
                state = None
            elif op == 'spoil server':
                server.write_bytes(b'<html>404</html>')
                srv = 'bad'
            elif op == 'cut server':
                server.write_bytes(content(version)[:-7])
                srv = 'bad'
            elif op == 'new version':
                version += 1
                server.write_bytes(content(version))
                srv = version
            elif op == 'down':
                if server.exists():
                    server.unlink()
                srv = 'down'
            elif op == 'break' and state is None and srv != 'down':
                # the connection is lost on the way
                size = server.stat().st_size
                line.breaks = int(rs.randint(0, size))
                ctx.raises(OSError, lambda: mio.load_fitter(s['name']),
                           'lost connection')
                line.breaks = None
                state = 'bad' if cache.exists() else None
                ctx.label('lost connection')
            if op != 'load':
                continue
            if state is None and srv != 'down':
                state = srv
            try:
                got = mio.load_fitter(s['name'])
            except Exception as e:
                ctx.check(state in (None, 'bad'), 'loading failed: %s', e)
                state = None
                ctx.check(not cache.exists(), 'a damaged file is kept')
                ctx.label('failed load')
            else:
                ctx.check(state not in (None, 'bad'), 'a damaged fitter was '
                          'loaded')
                ctx.check(got == dict(version=state, blob=blob),
                          'a different fitter was loaded')
                ctx.check(cache.exists(), 'the download is kept')
                n += 1
    ctx.nontrivial(n > 0)
