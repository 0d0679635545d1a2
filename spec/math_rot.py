"""Rotations, Pluecker lines, random draws, parallel transport."""
import numpy as np
from transforms3d.utils import normalized_vector
from marxs.math.utils import norm_vector, e2h
from marxs.math.polarization import paralleltransport_matrix


@spec('marxs.math.rotations.ex2vec_fix', prop='P08', contract=True)
def ex2vec_fix(e1, efix):
    # columns: new normal, the part of efix perpendicular to it, and their right-handed cross product
    n = normalized_vector(e1)
    f = normalized_vector(efix)
    if np.allclose(n, f) or np.allclose(n, -f):
        raise ValueError('parallel')
    rot = np.empty((3, 3))
    rot[:, 0] = n
    rot[:, 1] = normalized_vector(f - np.dot(f, n) * n)
    rot[:, 2] = np.cross(rot[:, 0], rot[:, 1])
    return rot


@spec('marxs.math.rotations.axangle2mat', prop='P08', contract=True)
def axangle2mat(axes, angles, is_normalized=False):
    # Rodrigues: R = c 1 + (1-c) a a^T + s [a]_x
    if len(angles) != axes.shape[0]:
        raise ValueError('one angle per axis')
    if not is_normalized:
        a = axes / np.linalg.norm(axes, axis=1)[:, None]
    else:
        a = axes
    c = np.cos(angles)
    s = np.sin(angles)
    x = a[:, 0]
    y = a[:, 1]
    z = a[:, 2]
    k = 1 - c
    m = np.array([[k * x * x + c, k * x * y - s * z, k * x * z + s * y],
                  [k * x * y + s * z, k * y * y + c, k * y * z - s * x],
                  [k * x * z - s * y, k * y * z + s * x, k * z * z + c]])
    return m.swapaxes(0, 2).swapaxes(1, 2)


@spec('marxs.math.pluecker.angle_line_plane', prop='P13')
def angle_line_plane(p_line, h_plane):
    return np.arccos(np.dot(p_line[:3], h_plane[:3]) / np.linalg.norm(p_line[:3]) / np.linalg.norm(h_plane[:3]))


@spec('marxs.math.pluecker.e_pointpoint2line', prop='P13')
def e_pointpoint2line(e_p1, e_p2):
    line = np.empty(e_p1.shape[:-1] + (6,))
    line[..., :3] = e_p2 - e_p1
    line[..., 3:] = np.cross(e_p2, e_p1)
    return line


@spec('marxs.math.pluecker.dir_point2line', prop='P13')
def dir_point2line(e_dir, e_pos):
    line = np.empty(e_dir.shape[:-1] + (6,))
    line[..., :3] = e_dir
    line[..., 3:] = np.cross(e_dir, e_pos)
    return line


@spec('marxs.math.pluecker.intersect_line_plane', prop='P13')
def intersect_line_plane(p_line, h_plane):
    # line {U:V}, plane [N:n]: point (VxN - U n : U.N)
    out = np.empty(p_line.shape[:-1] + (4,))
    out[..., :3] = np.cross(p_line[..., 3:], h_plane[:3]) - p_line[..., :3] * h_plane[3]
    out[..., 3] = np.dot(p_line[..., :3], h_plane[:3])
    return out


@spec('marxs.math.pluecker.point_dir2plane', prop='P13', contract=True)
def point_dir2plane(h_point, h_dir):
    n = h_dir / np.linalg.norm(h_dir)
    plane = np.empty(4)
    plane[:3] = n[:3]
    plane[3] = -np.dot(h_point, n) / h_point[3]
    return plane


@spec('marxs.math.random.RandomArbitraryPdf.__init__', prop='P30')
def RandomArbitraryPdf_init(self, x, pdf, randomize_in_bin=True, sort=True):
    if len(x) != len(pdf):
        raise ValueError('length')
    if not np.all(np.array(pdf) >= 0):
        raise ValueError('negative')
    self.x = np.asarray(x)
    self.bin_width = np.hstack(([0], np.diff(x)))
    if not np.all(self.bin_width >= 0):
        raise ValueError('order')
    self.sort = sort
    self.randomize_in_bin = randomize_in_bin
    weight = np.asarray(pdf) * self.bin_width
    if sort:
        self.sortindex = np.argsort(weight)
        self.pdf = weight[self.sortindex]
    else:
        self.pdf = weight
    self.cdf = np.cumsum(self.pdf)


@spec('marxs.math.random.RandomArbitraryPdf.__call__', prop='P30')
def RandomArbitraryPdf_call(self, N):
    u = np.random.uniform(high=self.cdf[-1], size=N)
    i = np.searchsorted(self.cdf, u)
    if self.sort:
        i = self.sortindex[i]
    if self.randomize_in_bin:
        return self.x[i - 1] + self.bin_width[i] * np.random.rand(N)
    return self.x[i]


@spec('marxs.math.polarization.polarization_vectors', prop='P04', contract=True)
def polarization_vectors(dir_array, angles):
    # v1: +y (or +x for photons along y) made perpendicular to the ray; v2 = ray x v1
    pol = np.zeros((len(angles), 4))
    ex = np.array([1., 0., 0.])
    ey = np.array([0., 1., 0.])
    r = dir_array.copy()[:, 0:3]
    r = r / np.linalg.norm(r, axis=1)[:, np.newaxis]
    along_y = np.isclose(r[:, 0], 0) & np.isclose(r[:, 2], 0)
    if hasattr(angles, "unit") and (angles.unit is not None):
        angles = angles.to(u.rad)
    v1 = ~along_y[:, np.newaxis] * (ey - r * np.dot(r, ey)[:, np.newaxis])
    v1 = v1 + along_y[:, np.newaxis] * (ex - r * np.dot(r, ex)[:, np.newaxis])
    v1 = v1 / np.linalg.norm(v1, axis=1)[:, np.newaxis]
    v2 = np.cross(r, v1)
    pol[:, 0:3] = v1 * np.cos(angles)[:, np.newaxis] + v2 * np.sin(angles)[:, np.newaxis]
    return pol


import astropy.units as u


@spec('marxs.math.polarization.paralleltransport_matrix', prop='P04', contract=True)
def ptmatrix(dir1, dir2, jones=np.eye(2), replace_nans=True):
    d1 = norm_vector(dir1)
    d2 = norm_vector(dir2)
    J = np.eye(3)
    J[:2, :2] = jones
    P = np.zeros((d1.shape[0], 3, 3))
    normal = np.cross(d1, d2)
    length = np.linalg.norm(normal, axis=1)
    same = np.isclose(length, 0)
    if (~same).sum() > 0:
        s = normal[~same, :] / length[~same][:, None]
        # local frames (s, p, k) before and after; s is shared
        Oin = np.array([s, np.cross(d1[~same, :], s), d1[~same, :]]).swapaxes(1, 0)
        Oout = np.array([s, np.cross(d2[~same, :], s), d2[~same, :]]).swapaxes(1, 2).T
        P[~same, :, :] = np.einsum('ijk,ikl->ijl', Oout, np.einsum('...ij,kjl->kil', J, Oin))
    factor = 1 if replace_nans else np.nan
    P[same, :, :] = factor * np.eye(3)[None, :, :]
    return P


@spec('marxs.math.polarization.parallel_transport', prop='P04', contract=True)
def parallel_transport(dir_old, dir_new, pol_old, **kwargs):
    m = paralleltransport_matrix(dir_old[:, :3], dir_new[:, :3], **kwargs)
    return e2h(np.einsum('ijk,ik->ij', m, pol_old[:, :3]), 0)


@spec('marxs.math.polarization.Q_reflection', prop='P04')
def Q_reflection(delta_dir):
    if len(delta_dir.shape) != 2:
        raise ValueError('2d')
    q = delta_dir[..., None, :] * delta_dir[..., :, None]
    q = q / (np.linalg.norm(delta_dir, axis=1)**2)[:, None, None]
    return np.eye(4) - 2 * q
