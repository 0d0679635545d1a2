"""Coordinates and affine matrices: homogeneous vectors carry w=1 (points) or w=0 (directions)."""
import numpy as np


@spec('marxs.math.utils.e2h', prop='P05', contract=True)
def e2h(e, w):
    # the three Euclidean components followed by w
    if (w != 0) and (w != 1):
        raise ValueError('w')
    shape = list(e.shape)
    shape[-1] += 1
    h = np.empty(shape)
    h[..., :3] = e
    h[..., 3] = w
    return h


@spec('marxs.math.utils.h2e', prop='P05', contract=True)
def h2e(h):
    w = h[..., 3]
    if np.all(w == 0) or np.allclose(w, 1):
        return h[..., :3]
    if np.all(w != 0):
        return h[..., :3] / w[..., None]
    raise ValueError('mixture')


@spec('marxs.math.utils.norm_vector', prop='P05', contract=True)
def norm_vector(vec):
    return vec / np.sqrt(np.sum(vec**2, axis=-1))[:, None]


@spec('marxs.math.utils.distance_point_point', prop='P13', contract=True)
def distance_point_point(h_p1, h_p2):
    n = max(h_p1.ndim, h_p2.ndim)
    if n == 1:
        return np.linalg.norm(h2e_(h_p1) - h2e_(h_p2), axis=0)
    if n == 2:
        return np.linalg.norm(h2e_(h_p1) - h2e_(h_p2), axis=1)
    raise ValueError('1d or 2d')


from marxs.math.utils import h2e as h2e_


@spec('marxs.math.utils.translation2aff', prop='P08', contract=True)
def translation2aff(vec):
    if len(vec) != 3:
        raise ValueError('3d')
    m = np.eye(4)
    m[:3, 3] = vec
    return m


@spec('marxs.math.utils.zoom2aff', prop='P08', contract=True)
def zoom2aff(zoom):
    m = np.eye(4)
    if np.isscalar(zoom):
        m[:3, :3] = zoom * m[:3, :3]
        return m
    if len(zoom) == 3:
        m[:3, :3] = np.diag(zoom)
        return m
    raise ValueError('scalar or 3')


@spec('marxs.math.utils.mat2aff', prop='P08', contract=True)
def mat2aff(mat):
    m = np.eye(4)
    m[:3, :3] = mat
    return m


@spec('marxs.math.utils.anglediff', prop='P13', contract=True)
def anglediff(phi):
    d = phi[1] - phi[0]
    if d < 0 or d > 2 * np.pi:
        return d % (2 * np.pi)
    return d


@spec('marxs.math.utils.angle_between', prop='P13', contract=True)
def angle_between(angle, border1, border2):
    full = 2 * np.pi
    lo = (full + border1 % full) % full
    hi = (full + border2 % full) % full
    a = (full + angle % full) % full
    if lo < hi:
        return (lo <= a) & (a <= hi)
    return (lo <= a) | (a <= hi)
