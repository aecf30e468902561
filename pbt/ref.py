"""What the builder functions of menpofit are documented to do, on menpo."""
import warnings

import numpy as np

from menpo.feature import no_op
from menpo.image import Image, MaskedImage
from menpo.shape import PointCloud
from menpo.transform import GeneralizedProcrustesAnalysis


def align_shapes(shapes):
    """Centred shapes after generalised Procrustes analysis."""
    c = [PointCloud(s.points - s.points.mean(0)) for s in shapes]
    if len(c) == 1:
        return c
    return [t.aligned_source() for t in
            GeneralizedProcrustesAnalysis(c).transforms]


def rescale_images_to_reference_shape(images, group, ref):
    return [i.rescale_to_pointcloud(ref, group=group) for i in images]


def compute_features(images, feature):
    return [feature(i) for i in images]


def scale_images(images, scale):
    return [i if scale == 1 else i.rescale(scale) for i in images]


def build_reference_frame(shape, boundary=3):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return MaskedImage.init_from_pointcloud(
            shape, boundary=boundary, group='source', constrain_mask=True)


def build_patch_reference_frame(shape, boundary=3, patch_shape=(17, 17)):
    f = MaskedImage.init_from_pointcloud(
        shape, boundary=boundary + max(patch_shape), group='source',
        constrain_mask=False)
    return f.constrain_mask_to_patches_around_landmarks(patch_shape,
                                                        group='source')


def warp_images(images, shapes, frame, transform):
    src = frame.landmarks['source']
    return [i.warp_to_mask(frame.mask, transform(src, s),
                           warp_landmarks=False)
            for i, s in zip(images, shapes)]


def extract_patches(images, shapes, patch_shape, norm=no_op):
    return [Image(norm(i.extract_patches(s, patch_shape=patch_shape,
                                         as_single_array=True)))
            for i, s in zip(images, shapes)]


def densify_shapes(shapes, frame, transform):
    """The points of the shapes and of the frame's mask moved with them."""
    src = frame.landmarks['source']
    inside = frame.mask.true_indices()
    return [PointCloud(np.vstack((s.points, transform(src, s).apply(inside))))
            for s in shapes]
