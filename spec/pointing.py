"""Pointing: sky coordinates of the photons become directions in the spacecraft frame."""
import numpy as np
import astropy.units as u
from astropy.coordinates import SkyCoord
from marxs.math.utils import norm_vector, h2e, e2h
from marxs.math.rotations import axangle2mat


@spec('marxs.source.pointing.FixedPointing.__init__', prop='P27', noreturn=True)
def fixed_init(self, **kwargs):
    self.coords = kwargs.pop('coords')
    if not self.coords.isscalar:
        raise ValueError('scalar')
    self.roll = kwargs.pop('roll', 0. * u.rad)
    self.reference_transform = kwargs.pop('reference_transform', np.eye(4))
    super().__init__(**kwargs)


@spec('marxs.source.pointing.FixedPointing.offset_coos', prop='P27')
def offset_coos(self):
    return self.coords.skyoffset_frame(rotation=self.roll)


@spec('marxs.source.pointing.FixedPointing.photons_dir', prop='P27')
def photons_dir(self, coos, time):
    # photons fly from the sky towards the telescope
    xyz = coos.transform_to(self.offset_coos).cartesian.xyz.T
    return np.einsum('...ij,...j->...i', self.reference_transform, e2h(norm_vector(-xyz), 0))


@spec('marxs.source.pointing.FixedPointing.photons_pol', prop='P27', also=(('P04', 'return'),))
def photons_pol(self, photonsdir, polangle, time):
    if hasattr(polangle, 'unit') and (polangle.unit is not None):
        polangle = polangle.to(u.rad)
    north = SkyCoord(0., 90., unit='deg', frame=self.coords)
    nd = np.dot(self.reference_transform, e2h(north.transform_to(self.offset_coos).cartesian.xyz.T, 0))
    n = norm_vector(nd - photonsdir * np.dot(nd, photonsdir.T)[:, None])
    e = e2h(np.cross(photonsdir[:, :3], n[:, :3]), 0)
    return np.cos(polangle)[:, None] * n + np.sin(polangle)[:, None] * e


@spec('marxs.source.pointing.FixedPointing.process_photons', prop='P27', also=(('P04', 'polarization'),))
def fixed(self, photons):
    photons = super().process_photons(photons)
    photons['dir'] = self.photons_dir(SkyCoord(photons['ra'], photons['dec'], unit='deg'), photons['time'].data)
    photons['polarization'] = self.photons_pol(photons['dir'].data, photons['polangle'].data, photons['time'].data)
    photons.meta['RA_PNT'] = (self.coords.ra.degree, '[deg] Pointing RA')
    photons.meta['DEC_PNT'] = (self.coords.dec.degree, '[deg] Pointing Dec')
    photons.meta['ROLL_PNT'] = (self.roll.to(u.degree).value, '[deg] Pointing Roll')
    photons.meta['RA_NOM'] = (self.coords.ra.degree, '[deg] Nominal Pointing RA')
    photons.meta['DEC_NOM'] = (self.coords.dec.degree, '[deg] Nominal Pointing Dec')
    photons.meta['ROLL_NOM'] = (self.roll.to(u.degree).value, '[deg] Nominal Pointing Roll')
    return photons


@spec('marxs.source.pointing.JitterPointing.__init__', prop='P27', noreturn=True)
def jitter_init(self, **kwargs):
    self.jitter = np.abs(kwargs.pop('jitter'))
    super().__init__(**kwargs)


@spec('marxs.source.pointing.JitterPointing.process_photons', prop='P27', also=(('P04', 'polarization'),))
def jitter(self, photons):
    photons = super().process_photons(photons)
    n = len(photons)
    a = np.random.rand(n) * 2. * np.pi
    ax = np.vstack([np.zeros(n), np.sin(a), np.cos(a)]).T
    if self.jitter > 0:
        ang = np.random.normal(scale=self.jitter.to(u.radian).value, size=n)
        rot = axangle2mat(ax, ang)
        photons['dir'] = e2h(np.einsum('...ij,...i->...j', rot, h2e(photons['dir'])), 0)
        photons['polarization'] = e2h(np.einsum('...ij,...i->...j', rot, h2e(photons['polarization'])), 0)
    return photons
