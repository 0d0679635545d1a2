"""Rowland torus: the surface (x^2+y^2+z^2+R^2-r^2)^2 = 4 R^2 (x^2+z^2) in its own frame, and structures whose
elements sit on it."""
import numpy as np
from scipy import optimize
import transforms3d
from marxs.optics.base import OpticalElement
from marxs.base import MarxsElement
from marxs.optics import FlatDetector
from marxs.math.utils import e2h, h2e, anglediff
from marxs.math.geometry import Geometry
from marxs.simulator import ParallelCalculated
from marxs.design.rowland import RowlandTorus


@spec('marxs.design.rowland.find_radius_of_photon_shell', prop='P24')
def shell_radius(photons, mirror_shell, x, percentile=[1, 99]):
    p = FlatDetector(position=np.array([x, 0, 0]), zoom=1e8, pixsize=1.)(photons.copy())
    sel = (p['probability'] > 0) & (p['mirror_shell'] == mirror_shell)
    return np.percentile(np.sqrt(p['det_x'][sel]**2 + p['det_y'][sel]**2), percentile)


@spec('marxs.design.rowland.RowlandTorus.__init__', prop='P24', noreturn=True)
def torus_init(self, R, r, **kwargs):
    self.R = R
    self.r = r
    Geometry.__init__(self, kwargs)
    MarxsElement.__init__(self, **kwargs)


@spec('marxs.design.rowland.RowlandTorus.quartic', prop='P24', contract=True)
def quartic(self, xyz, transform=True):
    if xyz.shape[-1] != 3:
        raise ValueError('Euclidean')
    if transform:
        p = h2e(np.einsum('...ij,...j', np.linalg.inv(self.pos4d), e2h(xyz, 1)))
    else:
        p = xyz
    return ((p**2).sum(axis=-1) + self.R**2 - self.r**2)**2 - 4 * self.R**2 * (p[..., [0, 2]]**2).sum(axis=-1)


@spec('marxs.design.rowland.RowlandTorus.solve_quartic', prop='P24', contract=True)
def solve_quartic(self, origin, v, transform=True):
    o = h2e(origin)
    d = h2e(v)

    def on_ray(k, start, direction):
        return self.quartic(start + k[..., None] * direction, transform=transform)
    sol = optimize.root(on_ray, 0.1 * max(np.abs(self.r - self.R), 0.01 * self.r), args=(o, d))
    if not sol.success:
        raise Exception('no intersection')
    return e2h(o + sol.x[..., None] * d, 1)


@spec('marxs.design.rowland.RowlandTorus.parametric', prop='P24', contract=True)
def parametric(self, theta, phi):
    ring = self.R + self.r * np.cos(theta)
    x = ring * np.cos(phi)
    z = ring * np.sin(phi)
    return np.einsum('...ij,...j', self.pos4d, np.array([x, self.r * np.sin(theta), z, np.ones_like(z)]).T)


@spec('marxs.design.rowland.RowlandTorus.parametric_surface', prop='P24')
def parametric_surface(self, theta, phi, display):
    if (theta.ndim != 1) or (phi.ndim != 1):
        raise ValueError('1-dim')
    t, p = np.meshgrid(theta, phi)
    return self.parametric(t, p)


@spec('marxs.design.rowland.RowlandTorus.xyzw2parametric', prop='P24', contract=True)
def xyzw2parametric(self, xyzw, transform=True, intersectvalid=True):
    if transform:
        xyz = h2e(np.einsum('...ij,...j', np.linalg.inv(self.pos4d), xyzw))
    else:
        xyz = h2e(xyzw)
    if not np.allclose(self.quartic(xyz, transform=False) / self.R**4, 0.):
        raise ValueError('on torus')
    s = np.where(np.sqrt(xyz[:, 0]**2 + xyz[:, 2]**2) < self.R, -1, 1)
    theta = np.arcsin(s * xyz[:, 1] / self.r) + (s < 0) * np.pi
    ring = self.R + self.r * np.cos(theta)
    ok = ring != 0
    phi = np.zeros_like(ring)
    phi[ok] = np.arctan2(xyz[ok, 2] / ring[ok], xyz[ok, 0] / ring[ok])
    if not intersectvalid:
        phi[~ok] = np.nan
    return theta, phi


@spec('marxs.design.rowland.RowlandTorus.normal_parametric', prop='P24', contract=True)
def normal_parametric(self, theta, phi):
    if not ((theta.ndim == 1) and (phi.ndim == 1)):
        raise ValueError('1-d')
    n = np.empty((len(theta), 3))
    n[:, 0] = np.cos(theta) * np.cos(phi)
    n[:, 1] = np.sin(theta)
    n[:, 2] = np.cos(theta) * np.sin(phi)
    return np.einsum('...ij,...j', self.pos4d, e2h(n, 0))


@spec('marxs.design.rowland.RowlandTorus.normal', prop='P24', contract=True)
def normal(self, xyzw):
    if len(xyzw.shape) != 2:
        raise ValueError('(N, 4)')
    theta, phi = self.xyzw2parametric(xyzw, True)
    return self.normal_parametric(theta, phi)


@spec('marxs.design.rowland.RowlandTorus.xyz_from_radiusangle', prop='P24')
def xyz_from_radiusangle(self, radius, angle, start):
    local = self.solve_quartic(np.array([np.mean(start), radius * np.cos(angle), radius * np.sin(angle), 1]),
                               np.array([1, 0, 0, 0]), transform=False)
    return h2e(np.einsum('...ij,...j', self.pos4d, local))


@spec('marxs.design.rowland.design_tilted_torus', prop='P24')
def tilted(f, alpha, beta):
    r = f / (2 * np.cos(alpha))
    R = r * np.sin(np.pi / 2 - beta)
    pos = [f / 2 - R * np.cos(beta - alpha), f / 2 * np.tan(alpha) + R * np.sin(beta - alpha), 0]
    return R, r, transforms3d.affines.compose(pos, transforms3d.axangles.axangle2mat([0, 0, -1], beta - alpha), np.ones(3))


@spec('marxs.design.rowland.double_rowland_from_channel_distance', prop='P24')
def double_rowland(d_BF, R, f):
    d = 0.5 * d_BF
    r = 0.5 * np.sqrt(f**2 + d_BF**2)
    a = np.arctan2(d_BF, f)
    b = -a

    geometry = {'d_BF': d_BF, 'd': d, 'f': f}
    geometry['rowland_central'] = RowlandTorus(R=R, r=r, position=[f - (r + R) * np.cos(a), (r + R) * np.sin(a), 0],
                                               orientation=[[np.cos(a), np.sin(a), 0], [-np.sin(a), np.cos(a), 0], [0, 0, 1]])
    geometry['rowland_central_m'] = RowlandTorus(R=R, r=r, position=[f - (r + R) * np.cos(b), (r + R) * np.sin(b), 0],
                                                 orientation=[[np.cos(b), np.sin(b), 0], [-np.sin(b), np.cos(b), 0], [0, 0, 1]])
    geometry['pos_det_rowland'] = np.array([0, -d, 0, 1])
    shift = np.eye(4)
    shift[:, 3] = geometry['pos_det_rowland']
    geometry['shift_det_rowland'] = shift
    det = RowlandTorus(R, r, pos4d=geometry['rowland_central'].pos4d)
    det.pos4d = np.dot(shift, det.pos4d)
    geometry['rowland_detector'] = det
    geometry['pos_opt_ax'] = {'1': np.array([0, -d, 0, 1]), '1m': np.array([0, d, 0, 1])}
    return geometry


@spec('marxs.design.rowland.ElementsOnTorus.__init__', prop='P24', noreturn=True)
def on_torus_init(self, **kwargs):
    self.rowland = kwargs.pop('rowland')
    self.guess_distance = kwargs.pop('guess_distance', self.rowland.r + self.rowland.R)
    self.d_element = kwargs.pop('d_element')
    self.optimize_axis = np.asanyarray(kwargs.pop('optimize_axis', np.dot(self.rowland.pos4d, np.array([1, 0, 0, 0]))))
    self.id_col = kwargs.pop('id_col', 'facet')
    if 'normal_spec' not in kwargs:
        kwargs['normal_spec'] = lambda p: -self.rowland.normal(p)
    if 'parallel_spec' not in kwargs:
        kwargs['parallel_spec'] = np.dot(self.rowland.pos4d, np.array([0, 1, 0, 0]))
    kwargs['pos_spec'] = self.elempos
    super().__init__(**kwargs)


@spec('marxs.design.rowland.ElementsOnTorus.elempos', prop='P24')
def elempos(self):
    y, z = self.elemposyz()
    yz = np.vstack([np.zeros_like(y), y, z]).T
    start = np.einsum('...ij,...j', self.rowland.pos4d, e2h(yz, 1)) + self.guess_distance * self.optimize_axis
    return np.vstack([self.rowland.solve_quartic(o, self.optimize_axis) for o in start])


@spec('marxs.design.rowland.RectangularGrid.__init__', prop='P24', noreturn=True)
def rect_init(self, **kwargs):
    self.y_range = kwargs.pop('y_range')
    self.z_range = kwargs.pop('z_range', [-1e-10, 1e-10])
    super().__init__(**kwargs)


def centers(lo, hi, d):
    # elements of width d, as many as needed to cover lo..hi, centred on the range
    n = max(1, int(np.ceil((hi - lo) / d)))
    return np.arange(0.5 * (lo + hi - n * d + d), hi, d)


@spec('marxs.design.rowland.RectangularGrid.elemposyz', prop='P24')
def rect_yz(self):
    y, z = np.meshgrid(centers(self.y_range[0], self.y_range[1], self.d_element[0]),
                       centers(self.z_range[0], self.z_range[1], self.d_element[1]))
    return y.flatten(), z.flatten()


@spec('marxs.design.rowland.CircularMeshGrid.__init__', prop='P24', noreturn=True)
def mesh_init(self, **kwargs):
    self.radius = kwargs.pop('radius')
    super().__init__(**kwargs)


@spec('marxs.design.rowland.CircularMeshGrid.elemposyz', prop='P24')
def mesh_yz(self):
    inner, outer = self.radius[0], self.radius[1]
    dy, dz = self.d_element[0], self.d_element[1]
    ypos = []
    zpos = []
    for y in np.arange(-int(np.ceil(2 * outer / dy)) * dy / 2, outer, dy):
        if np.abs(y) > outer:
            z = np.array([0])
        else:
            zo = np.sqrt(outer**2 - y**2)
            if np.abs(y) > inner:
                z = np.arange(-int(np.ceil(2 * zo / dz)) * dz / 2, zo, dz)
            else:
                zi = np.sqrt(inner**2 - y**2)
                half = np.arange(0.5 * (zi + zo) - int(np.ceil((zo - zi) / dz)) * dz / 2, zo, dz)
                z = np.hstack([-half, half])
        ypos.extend([y] * len(z))
        zpos.extend(z)
    return ypos, zpos


@spec('marxs.design.rowland.GratingArrayStructure.__init__', prop='P24', noreturn=True)
def gas_init(self, **kwargs):
    self.phi = kwargs.pop('phi', [0., 2 * np.pi])
    self.radius = kwargs.pop('radius')
    super().__init__(**kwargs)


@spec('marxs.design.rowland.GratingArrayStructure.max_elements_on_radius', prop='P24')
def max_on_radius(self, radius):
    return int(np.ceil((radius[1] - radius[0]) / self.d_element[0]))


@spec('marxs.design.rowland.GratingArrayStructure.distribute_elements_on_radius', prop='P24')
def on_radius(self):
    out = []
    for i in range(len(self.radius) // 2):
        bracket = self.radius[2 * i:2 * i + 2]
        n = int(np.ceil((bracket[1] - bracket[0]) / self.d_element[0]))
        out.append(np.mean(bracket) + np.arange(-n / 2 + 0.5, n / 2 + 0.5) * self.d_element[0])
    return np.hstack(out)


@spec('marxs.design.rowland.GratingArrayStructure.max_elements_on_arc', prop='P24')
def max_on_arc(self, radius):
    return radius * anglediff(self.phi) // self.d_element[1]


@spec('marxs.design.rowland.GratingArrayStructure.distribute_elements_on_arc', prop='P24')
def on_arc(self, radius):
    if len(self.phi) == 1:
        return self.phi
    n = (radius - self.d_element[0] / 2) * anglediff(self.phi) // self.d_element[1]
    size = self.d_element[1] / radius
    gap = (anglediff(self.phi) - n * size) / (n + 1)
    return (self.phi[0] + gap + size / 2 + np.arange(n) * (gap + size)) % (2 * np.pi)


@spec('marxs.design.rowland.GratingArrayStructure.elemposyz', prop='P24')
def gas_yz(self):
    radii = self.distribute_elements_on_radius()
    ang = []
    for r in radii:
        ang.append(self.distribute_elements_on_arc(r))
    rad = np.concatenate([[radii[i]] * len(a) for i, a in enumerate(ang)])
    phi = np.concatenate(ang)
    return rad * np.sin(phi), rad * np.cos(phi)
