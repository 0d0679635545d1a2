"""Mirrors, scatter and multilayer mirrors."""
import numpy as np
import astropy.units as u
from astropy.io import ascii
from marxs.math.utils import norm_vector, e2h, h2e, distance_point_point
from marxs.math.rotations import axangle2mat
from marxs.math.polarization import parallel_transport
from transforms3d.axangles import axangle2mat as axangle2mat_single


def rotate(rot, v):
    return np.einsum('...ij,...i->...j', rot, v)


@spec('marxs.optics.scatter.RadialMirrorScatter.__init__', prop='P29', noreturn=True)
def RadialMirrorScatter_init(self, **kwargs):
    self.inplanescatter = kwargs.pop('inplanescatter').to(u.rad).value
    self.perpplanescatter = kwargs.pop('perpplanescatter', 0. * u.rad).to(u.rad).value


@spec('marxs.optics.scatter.RadialMirrorScatter.specific_process_photons', prop='P29', also=(('P04', 'polarization'),))
def RadialMirrorScatter_process(self, photons, intersect, interpos, intercoos):
    n = intersect.sum()
    olddir = photons['dir'][intersect].data
    radial = h2e(photons['pos'][intersect].data) - self.pos4d[:-1, -1]
    perp = np.cross(h2e(olddir), radial)
    # in the plane of reflection: rotate about the vector perpendicular to it
    if self.inplanescatter != 0:
        inplane = np.random.normal(loc=0., scale=self.inplanescatter, size=n)
        out = e2h(rotate(axangle2mat(perp, inplane), h2e(photons['dir'][intersect])), 0)
    else:
        inplane = np.zeros(n)
        out = photons['dir'][intersect]
    # out of the plane: rotate about the radial vector
    if self.perpplanescatter != 0:
        outplane = np.random.normal(loc=0., scale=self.perpplanescatter, size=n)
        out = e2h(rotate(axangle2mat(radial, outplane), h2e(out)), 0)
    else:
        outplane = np.zeros_like(inplane)
    pol = parallel_transport(photons['dir'].data[intersect, :], out, photons['polarization'].data[intersect, :])
    return {'dir': out, 'polarization': pol, self.inplanescattercol: inplane, self.perpplanescattercol: outplane}


@spec('marxs.optics.scatter.RandomGaussianScatter.specific_process_photons', prop='P29', also=(('P04', 'polarization'),))
def RandomGaussianScatter_process(self, photons, intersect, interpos, intercoos):
    n = intersect.sum()
    with u.set_enabled_equivalencies(u.dimensionless_angles()):
        none = self.scatter == 0
    if none:
        return {}
    k = norm_vector(h2e(photons['dir'][intersect].data))
    # some vector that is not parallel to the ray
    other = np.zeros_like(k)
    ind = np.abs(k[:, 0]) < 0.99999
    other[ind, 0] = 1
    other[~ind, 1] = 1
    if callable(self.scatter):
        angle = self.scatter(photons, intersect, interpos, intercoos).to(u.rad).value
    else:
        angle = np.random.normal(loc=0., scale=self.scatter.to(u.rad).value, size=n)
    tilted = rotate(axangle2mat(np.cross(k, other), angle), k)
    azimuth = np.random.uniform(size=n) * 2 * np.pi
    out = e2h(rotate(axangle2mat(k, azimuth), tilted), 0)
    pol = parallel_transport(photons['dir'].data[intersect, :], out, photons['polarization'].data[intersect, :])
    return {'dir': out, 'polarization': pol, self.scattername: angle}


@spec('marxs.optics.mirror.PerfectLens.specific_process_photons', prop='P31', also=(('P04', 'polarization'),))
def PerfectLens_process(self, photons, intersect, interpos, intercoos):
    # rays parallel to each other meet where the ray through the optical axis reaches the focal length
    k = h2e(photons["dir"][intersect])
    axis = self.geometry["center"] - self.d_center_optax * self.geometry["e_z"]
    focus = h2e(axis) + self.focallength * norm_vector(k)
    dir = norm_vector(e2h(focus - h2e(interpos[intersect]), 0))
    pol = parallel_transport(photons["dir"].data[intersect, :], dir, photons["polarization"].data[intersect, :])
    turn = np.arccos(np.abs(np.einsum("ij,ij->i", h2e(dir), norm_vector(k))))
    # two reflections, each at a quarter of the total angle
    refl = self.reflectivity_interpolator(photons["energy"][intersect], turn / 4, grid=False)
    return {"dir": dir, "polarization": pol, "probability": refl**2}


@spec('marxs.optics.mirror.PerfectLens.__init__', prop='P31', noreturn=True)
def PerfectLens_init(self, **kwargs):
    self.focallength = kwargs.pop('focallength')
    self.d_center_optax = kwargs.pop("d_center_optical_axis", 0)


@spec('marxs.optics.mirror.ThinLens.process_photon', prop='P31')
def ThinLens_process(self, dir, pos, energy, polarization):
    hit, point, local = self.geometry.intersect(dir, pos)
    r = distance_point_point(point, self.geometry['center'][np.newaxis, :])
    if r == 0.:
        new = h2e(dir)
        pol = polarization
    else:
        axis = np.cross(dir[:3], (point - self.geometry['center'])[:3])
        rot = axangle2mat_single(axis, -r / self.focallength)
        new = np.dot(rot, dir[:3])
        pol = e2h(np.dot(rot, polarization[:3]), 0)
    return e2h(new, 0), point, energy, pol, 1.


@spec('marxs.optics.multiLayerMirror.FlatBrewsterMirror.specific_process_photons', prop='P31', also=(('P04', 'polarization'),))
def Brewster_process(self, photons, intersect, intersection, local):
    k = norm_vector(photons['dir'].data[intersect])
    ki = h2e(k)
    # reflection: flip the normal component in the frame of the mirror
    loc = np.dot(np.linalg.inv(self.pos4d), k.T)
    loc[0, :] *= -1
    ko = np.dot(self.pos4d, loc).T
    s = np.cross(ki, self.geometry['e_x'][0:3])
    s = s / np.linalg.norm(s, axis=1)[:, np.newaxis]
    p = np.cross(ki, s)
    pol = h2e(photons['polarization'].data[intersect])
    Rs, Rp = self.fresnel(photons, intersect, intersection, local)
    Is = Rs * np.einsum('ij,ij->i', pol, s)**2
    Ip = Rp * np.einsum('ij,ij->i', pol, p)**2
    if np.any(Is + Ip > 1.001):
        raise ValueError('intensity')
    newpol = norm_vector(-Is[:, np.newaxis] * s + Ip[:, np.newaxis] * np.cross(h2e(ko), s))
    return {'dir': ko, 'probability': np.clip(Is + Ip, 0, 1), 'polarization': e2h(newpol, 0)}


@spec('marxs.optics.multiLayerMirror.FlatBrewsterMirror.fresnel', prop='P31')
def Brewster_fresnel(self, photons, intersect, intersection, local):
    # at the Brewster angle only s polarisation is reflected
    return 1., 0.


@spec('marxs.optics.multiLayerMirror.MultiLayerEfficiency.specific_process_photons', prop='P31')
def MultiLayer_process(self, photons, intersect, intersection, local):
    wave = 1.23984282 / photons['energy'].data[intersect]
    peak, refl, fwhm = self.interp_files(photons[intersect], local[intersect])
    var = fwhm**2 / (8. * np.log(2))
    none = var == 0
    p = np.zeros(len(wave))
    p[~none] = refl[~none] * np.exp(-(wave[~none] - peak[~none])**2 / (2 * var[~none]))
    return {'probability': p / 100}


@spec('marxs.optics.multiLayerMirror.MultiLayerEfficiency.interp_files', prop='P31')
def MultiLayer_interp(self, photons, local):
    refl = ascii.read(self.fileName)
    tested = ascii.read(self.polFile)
    frac = np.interp(photons['energy'], tested['Photon energy'] / 1000, tested['Polarization'])
    half = np.linalg.norm(self.geometry['v_y'])
    y = local[:, 0] / half
    grid = refl['X(mm)'] / half - 1
    return (np.interp(y, grid, refl['Peak lambda']),
            np.interp(y, grid, refl['Peak']) / frac,
            np.interp(y, grid, refl['FWHM(nm)']))
