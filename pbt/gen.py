"""Shared generators: JSON specs (Hypothesis) and their expansion to objects.

Structure (counts, sizes, options, magnitudes) is drawn by Hypothesis; bulk
floating point content is expanded from a drawn integer ``seed``.
"""
import numpy as np
from hypothesis import strategies as st

from menpo.image import Image
from menpo.shape import PointCloud

seeds = st.integers(0, 2 ** 20)


def rng(seed, *salt):
    v = [int(seed)] + [int(s) for s in salt]
    return np.random.RandomState(np.array(v, dtype=np.uint32))


def rot(th):
    return np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])


def base_points(n, rs, jitter=.15):
    """n well separated points in [-1.15, 1.15]^2, spanning both axes."""
    g = int(np.ceil(np.sqrt(n)))
    ys, xs = np.meshgrid(np.linspace(-1, 1, g), np.linspace(-1, 1, g),
                         indexing='ij')
    p = np.stack([ys.ravel(), xs.ravel()], 1)
    if n < g * g:
        # keep the corners, drop from the middle of the list
        order = np.argsort(-np.abs(p).sum(1), kind='stable')
        p = p[np.sort(order[:n])]
    # Turned a little, so that no point is extreme along both axes: reference
    # frames put such a point exactly on a pixel, where menpo's triangle
    # containment test is undecided by rounding (outside of the code under
    # test).
    p = .85 * p.dot(rot(.35).T)
    return p + rs.uniform(-jitter, jitter, p.shape)


def shape_set(seed, n_shapes, n_pts, amp=.08, scale=20., rot_amp=.3,
              scale_amp=.2, shift=10., centre=(40., 45.)):
    rs = rng(seed, 11)
    b = base_points(n_pts, rs)
    out = []
    for _ in range(n_shapes):
        p = b + amp * rs.randn(*b.shape)
        p = p.dot(rot(rs.uniform(-rot_amp, rot_amp)).T)
        p = p * scale * rs.uniform(1 - scale_amp, 1 + scale_amp)
        p = p + np.array(centre) + rs.uniform(-shift, shift, 2)
        out.append(PointCloud(p))
    return out


def texture(points, size, n_channels, rs, width=4., k=0.0):
    """A smooth image whose content follows the landmarks."""
    yy, xx = np.mgrid[:size[0], :size[1]].astype(float)
    chans = []
    for c in range(n_channels):
        a = np.zeros(size)
        for i, (y, x) in enumerate(points):
            a += (1. if (i + c) % 2 else .6) * np.exp(
                -((yy - y) ** 2 + (xx - x) ** 2) / (2. * (width + i % 3) ** 2))
        a += .1 * np.sin(yy / 7. + c + k) + .1 * np.cos(xx / 6. - k)
        chans.append(a)
    a = np.array(chans)
    a = (a - a.min()) / (a.max() - a.min())
    return a


def image_set(seed, n_images=5, n_pts=6, size=(50, 54), n_channels=1,
              amp=.07, group='PTS', noise=0.0, rot_amp=.1, scale_amp=.1,
              shift=2., fill=.28, dtype=float, sizes=None):
    """Images with landmarks well inside the image; of one size for even
    seeds (or sizes=False), each of a size of its own for odd ones."""
    rs = rng(seed, 23)
    if sizes is None:
        sizes = seed % 2 == 1
    extra = rng(seed, 29).randint(0, 12, (n_images, 2)) if sizes else \
        np.zeros((n_images, 2), dtype=int)
    b = base_points(n_pts, rs)
    ims = []
    for k in range(n_images):
        p = b + amp * rs.randn(*b.shape)
        p = p.dot(rot(rs.uniform(-rot_amp, rot_amp)).T)
        s = rs.uniform(1 - scale_amp, 1 + scale_amp) * min(size) * fill
        pts = p * s + np.array(size) / 2. + rs.uniform(-shift, shift, 2)
        a = texture(pts, tuple(int(v) for v in np.array(size) + extra[k]),
                    n_channels, rs, k=.2 * k)
        if noise:
            a = a + noise * rs.randn(*a.shape)
        im = Image(a.astype(dtype))
        im.landmarks[group] = PointCloud(pts)
        ims.append(im)
    return ims


def perturb(shape, seed, amp_px, rigid_px=0.0, salt=3):
    rs = rng(seed, salt)
    p = shape.points + amp_px * rs.randn(*shape.points.shape)
    p = p + rigid_px * rs.uniform(-1, 1, 2)
    return PointCloud(p)


def same_cloud(a, b, tol=0):
    return a.points.shape == b.points.shape and \
        np.max(np.abs(a.points - b.points)) <= tol


def snapshot_image(im):
    return (im.pixels.copy(), im.pixels.dtype,
            {g: (type(im.landmarks[g]).__name__, im.landmarks[g].points.copy())
             for g in im.landmarks})


def image_diff(im, snap):
    px, dt, lms = snap
    if im.pixels.dtype != dt or im.pixels.shape != px.shape or \
            not np.array_equal(im.pixels, px):
        return 'the pixels changed'
    if sorted(im.landmarks) != sorted(lms):
        return 'landmark groups changed from %s to %s' % (
            sorted(lms), sorted(im.landmarks))
    for g, (t, p) in lms.items():
        if type(im.landmarks[g]).__name__ != t or \
                not np.array_equal(im.landmarks[g].points, p):
            return 'landmark group %s changed' % g
    return None


def num_jac(fn, x0, h=1e-6):
    """Central differences of fn (vector -> array) -> array[..., k]."""
    x0 = np.asarray(x0, dtype=float)
    cols = []
    for k in range(x0.size):
        e = np.zeros(x0.size)
        e[k] = h
        cols.append((np.asarray(fn(x0 + e)) - np.asarray(fn(x0 - e))) / (2 * h))
    return np.stack(cols, -1)
