"""Ray / surface intersections: a photon hits only in its forward direction, inside the extent of
the surface, at the nearest such point; local coordinates are in mm along the unit vectors of the element."""
import numpy as np
from transforms3d.affines import decompose44, compose
from transforms3d.axangles import axangle2mat
from marxs.math.utils import e2h, h2e, anglediff, angle_between, norm_vector
from marxs.math.pluecker import point_dir2plane


@spec('marxs.math.geometry.xyz_square', prop='P13', contract=True)
def xyz_square(geometry, r_factor=1):
    c = h2e(geometry['center'])
    y = h2e(geometry['v_y'])
    z = h2e(geometry['v_z'])
    my = h2e(-geometry['v_y'])
    return c + r_factor * np.vstack([y + z, my + z, my - z, y - z])


@spec('marxs.math.geometry.xyz_circle', prop='P13', contract=True)
def xyz_circle(geometry, r_factor=1, philim=[0, 2 * np.pi], n_vertices=90):
    phi = np.linspace(0.5 * np.pi, 2.5 * np.pi, n_vertices, endpoint=False)
    inside = (phi - philim[0]) % (2 * np.pi) < anglediff(philim)
    x = np.cos(phi)
    y = np.sin(phi)
    x[~inside] = 0
    y[~inside] = 0
    vy = r_factor * geometry['v_y']
    vz = r_factor * geometry['v_z']
    return h2e(geometry['center'] + x.reshape((-1, 1)) * vy + y.reshape((-1, 1)) * vz)


@spec('marxs.math.geometry.Geometry.__getitem__', prop='P13')
def Geometry_getitem(self, key):
    if key == 'center':
        return self.pos4d[:, 3]
    if key in ['v_x', 'e_x']:
        v = self.pos4d[:, 0]
    elif key in ['v_y', 'e_y']:
        v = self.pos4d[:, 1]
    elif key in ['v_z', 'e_z']:
        v = self.pos4d[:, 2]
    elif key == 'plane':
        return point_dir2plane(self['center'], self['e_x'])
    else:
        v = self._geometry[key]
        if isinstance(v, np.ndarray) and (v.shape[-1] == 4):
            v = np.dot(self.pos4d, v)
    if key[:2] == 'e_':
        return v / np.linalg.norm(v)
    return v


@spec('marxs.math.geometry.FinitePlane.intersect', prop='P13')
def FinitePlane_intersect(self, dir, pos):
    n = self['e_x']
    # (pos + k dir - center) . n = 0
    along = np.dot(dir, n)
    k = np.dot(self['center'] - pos, n) / along
    if dir.ndim == 2:
        point = pos + k[:, None] * dir
    else:
        point = pos + k * dir
    rel = point - self['center']
    local = np.vstack([np.dot(rel, self['e_y']), np.dot(rel, self['e_z'])]).T
    hit = ((~(along == 0)) & (k >= 0) &
           (np.abs(local[:, 0]) <= np.linalg.norm(self['v_y'])) &
           (np.abs(local[:, 1]) <= np.linalg.norm(self['v_z'])))
    if dir.ndim == 2:
        point[~hit, :3] = np.nan
        local[~hit, :3] = np.nan
    elif (dir.ndim == 1) and not hit:
        point[:3] = np.nan
        local[:3] = np.nan
    return hit, point, local


@spec('marxs.math.geometry.FinitePlane.get_local_euklid_bases', prop='P13')
def FinitePlane_bases(self, interpos_local):
    n = interpos_local.shape[0]
    return np.tile(self['e_y'], (n, 1)), np.tile(self['e_z'], (n, 1)), np.tile(self['e_x'], (n, 1))


@spec('marxs.math.geometry.RectangleHole.outer_shape', prop='P13')
def RectangleHole_outer_shape(self, display):
    return xyz_square_(self)


@spec('marxs.math.geometry.RectangleHole.outer_display', prop='P13')
def RectangleHole_outer_display(self, display):
    return xyz_square_(self, r_factor=display['outer_factor'])


from marxs.math.geometry import xyz_square as xyz_square_, xyz_circle as xyz_circle_, Geometry


@spec('marxs.math.geometry.CircularHole.outer_shape', prop='P13')
def CircularHole_outer_shape(self, display):
    return xyz_circle_(self, r_factor=1, philim=self.phi)


@spec('marxs.math.geometry.CircularHole.outer_display', prop='P13')
def CircularHole_outer_display(self, display):
    return xyz_circle_(self, r_factor=display['outer_factor'])


@spec('marxs.math.geometry.CircularHole.inner_shape', prop='P13')
def CircularHole_inner_shape(self, display):
    return xyz_circle_(self, r_factor=self['r_inner'] / np.linalg.norm(self['v_y']), philim=self.phi)


@spec('marxs.math.geometry.CircularHole.inner_display', prop='P13')
def CircularHole_inner_display(self, display):
    return xyz_circle_(self, r_factor=display['inner_factor'] * self['r_inner'] / np.linalg.norm(self['v_y']),
                       philim=self.phi)


@spec('marxs.math.geometry.Cylinder.__getitem__', prop='P13')
def Cylinder_getitem(self, value):
    if value == 'R':
        return decompose44(self.pos4d)[2][0]
    return Geometry.__getitem__(self, value)


@spec('marxs.math.geometry.Cylinder.from_rowland', prop='P13')
def Cylinder_from_rowland(cls, rowland, width, rotation=0., kwargs={}):
    local = compose([rowland.R, 0, 0], axangle2mat(np.array([0, 0, 1.]), rotation), [rowland.r, rowland.r, width])
    kw = {'pos4d': np.dot(rowland.pos4d, local)}
    kw.update(kwargs)
    return cls(kw)


@spec('marxs.math.geometry.Cylinder.intersect', prop='P13')
def Cylinder_intersect(self, dir, pos, transform=True):
    if not np.all(dir[:, 3] == 0):
        raise ValueError('directions')
    if transform:
        to_local = np.linalg.inv(self.pos4d)
        dir = np.dot(to_local, dir.T).T
        pos = np.dot(to_local, pos.T).T
    p = h2e(pos)
    d = h2e(dir)
    # |p + t d|^2 = 1 in the local x,y plane
    A = np.sum(dir[:, :2]**2, axis=1)
    B = 2 * np.sum(p[:, :2] * dir[:, :2], axis=1)
    C = np.sum(p[:, :2]**2, axis=1) - 1
    disc = B**2 - 4 * A * C
    hit = disc >= 0
    h = hit
    local = np.ones((pos.shape[0], 2))
    local[:] = np.nan
    point = np.ones_like(pos)
    point[:] = np.nan
    if hit.sum() > 0:
        rows = hit.nonzero()[0]
        t1 = (-B[h] + np.sqrt(disc[h])) / (2 * A[h])
        t2 = (-B[h] - np.sqrt(disc[h])) / (2 * A[h])
        q1 = p[:, :2][h, :] + t1[:, np.newaxis] * dir[:, :2][h, :]
        q2 = p[:, :2][h, :] + t2[:, np.newaxis] * dir[:, :2][h, :]
        phi1 = np.arctan2(q1[:, 1], q1[:, 0])
        phi2 = np.arctan2(q2[:, 1], q2[:, 0])
        z1 = p[h, 2] + t1 * dir[h, 2]
        z2 = p[h, 2] + t2 * dir[h, 2]
        lo = self.coos_limits[0][0]
        hi = self.coos_limits[0][1]
        ok1 = (t1 >= 0) & (np.abs(z1) <= 1.) & angle_between(phi1, lo, hi)
        ok2 = (t2 >= 0) & (np.abs(z2) <= 1.) & angle_between(phi2, lo, hi)
        # two valid points: the nearer one counts
        ok1[ok2 & (t2 < t1)] = False
        ok2[ok1 & (t2 >= t1)] = False
        hit[rows] = ok1 | ok2
        local[rows[ok1], 0] = phi1[ok1]
        local[rows[ok1], 1] = z1[ok1]
        local[rows[ok2], 0] = phi2[ok2]
        local[rows[ok2], 1] = z2[ok2]
        point[rows[ok1], :] = e2h(p[rows, :] + t1[:, None] * d[rows, :], 1)[ok1, :]
        point[rows[ok2], :] = e2h(p[rows, :] + t2[:, None] * d[rows, :], 1)[ok2, :]
        local[:, 1] = local[:, 1] * decompose44(self.pos4d)[2][2]
        point = np.dot(self.pos4d, point.T).T
    return hit, point, local


@spec('marxs.math.geometry.Cylinder.parametric_surface', prop='P13')
def Cylinder_surface(self, phi=None, z=None, display={}):
    if phi is None:
        phi = np.linspace(self.coos_limits[0][0], self.coos_limits[0][1], self.n_points)
    else:
        phi = np.asanyarray(phi)
    if z is None:
        z = self.coos_limits[1]
    else:
        z = np.asanyarray(z) / decompose44(self.pos4d)[2][2]
    if (phi.ndim != 1) or (z.ndim != 1):
        raise ValueError('1d')
    phi, z = np.meshgrid(phi, z)
    local = np.array([np.cos(phi), np.sin(phi), z, np.ones_like(z)]).T
    return np.einsum('...ij,...j', self.pos4d, local)


@spec('marxs.math.geometry.Cylinder.get_local_euklid_bases', prop='P13')
def Cylinder_bases(self, interpos_local):
    phi = interpos_local[:, 0]
    o = np.zeros_like(phi)
    e_phi = np.array([-np.sin(phi), np.cos(phi), o, o]).T
    normal = np.array([np.cos(phi), np.sin(phi), o, o]).T
    return (norm_vector(np.einsum('...ij,...j', self.pos4d, e_phi)),
            np.tile(self['e_z'], (interpos_local.shape[0], 1)),
            norm_vector(np.einsum('...ij,...j', self.pos4d, normal)))


@spec('marxs.math.geometry.Cylinder.__init__', prop='P13')
def Cylinder_init(self, kwargs={}):
    pass
