"""Photon sources: how many photons, when, with which energy, polarisation angle and sky position."""
import numpy as np
import astropy.units as u
from scipy.stats import expon
from astropy.table import Table
from astropy.coordinates import SkyCoord, SkyOffsetFrame
import transforms3d
from marxs.math.random import RandomArbitraryPdf
from marxs.math.polarization import polarization_vectors
from marxs.math.utils import h2e, e2h


@spec('marxs.source.basesources.Source.__init__', prop='P10', noreturn=True)
def source_init(self, energy=1 * u.keV, flux=1 / u.s / u.cm**2, polarization=None, geomarea=1 * u.cm**2, **kwargs):
    self.energy = energy
    self.flux = flux
    self.polarization = polarization
    if geomarea is None:
        self.geomarea = 1
    else:
        self.geomarea = geomarea


@spec('marxs.source.basesources.Source.__call__', prop='P10')
def source_call(self, *args, **kwargs):
    return self.generate_photons(*args, **kwargs)


@spec('marxs.source.basesources.Source.generate_times', prop='P30')
def generate_times(self, exposuretime):
    if callable(self.flux):
        return self.flux(exposuretime, self.geomarea)
    if hasattr(self.flux, 'isscalar') and self.flux.isscalar:
        rate = (self.flux * self.geomarea * u.s).decompose()
        return np.arange(0, exposuretime.to(u.s).value, 1. / rate) * u.s
    raise SourceSpecificationError('flux')


@spec('marxs.source.basesources.Source.generate_energies', prop='P30')
def generate_energies(self, t):
    n = len(t)
    if callable(self.energy):
        e = self.energy(t)
        if len(e) != n:
            raise SourceSpecificationError('size')
        return e
    if hasattr(self.energy, 'columns'):
        upper = self.energy['energy'].to(u.keV).value
        dens = self.energy['fluxdensity'][1:].to((u.s * u.cm**2 * u.keV)**(-1)).value
        return RandomArbitraryPdf(upper, np.hstack(([0], dens)))(n) * u.keV
    if hasattr(self.energy, 'isscalar') and self.energy.isscalar:
        return np.ones(n) * self.energy.to(u.keV, equivalencies=u.spectral())
    raise SourceSpecificationError('energy')


@spec('marxs.source.basesources.Source.generate_polarization', prop='P30')
def generate_polarization(self, times, energies):
    n = len(times)
    if callable(self.polarization):
        pol = self.polarization(times, energies)
        if len(pol) != n:
            raise SourceSpecificationError('size')
        return pol
    if self.polarization is None:
        return np.random.uniform(0, 2 * np.pi, n) * u.rad
    if hasattr(self.polarization, 'columns'):
        x = self.polarization['angle'].to(u.rad).value
        y = self.polarization['probabilitydensity'].to(1 / u.rad).value
        return RandomArbitraryPdf(x, y)(n) * u.rad
    if hasattr(self.polarization, 'isscalar') and self.polarization.isscalar:
        return np.ones(n) * self.polarization
    raise SourceSpecificationError('polarization')


@spec('marxs.source.basesources.Source.generate_photons', prop='P10')
def generate_photons(self, exposuretime):
    times = self.generate_times(exposuretime)
    energies = self.generate_energies(times)
    pol = self.generate_polarization(times, energies)
    photons = Table([times.to(u.s).value, energies.to(u.keV).value, pol.to(u.rad).value, np.ones(len(times))],
                    names=['time', 'energy', 'polangle', 'probability'])
    photons.meta['EXPOSURE'] = (exposuretime.to(u.s).value, 'total exposure time [s]')
    photons['time'].unit = u.s
    photons['energy'].unit = u.keV
    photons['polangle'].unit = u.rad
    return photons


@spec('marxs.source.basesources.AstroSource.__init__', prop='P10', noreturn=True)
def astro_init(self, **kwargs):
    coords = kwargs.pop('coords')
    if isinstance(coords, SkyCoord):
        self.coords = coords
    else:
        self.coords = SkyCoord(coords)
    if not self.coords.isscalar:
        raise ValueError('scalar')
    super().__init__(**kwargs)


@spec('marxs.source.basesources.AstroSource.set_pos', prop='P10', noreturn=True)
def set_pos(self, photons, coo):
    photons['ra'] = coo.icrs.ra.deg
    photons['dec'] = coo.icrs.dec.deg
    photons['ra'].unit = u.degree
    photons['dec'].unit = u.degree


@spec('marxs.source.basesources.PointSource.generate_photons', prop='P10')
def point(self, exposuretime):
    photons = super().generate_photons(exposuretime)
    self.set_pos(photons, self.coords)
    return photons


@spec('marxs.source.basesources.RadialDistributionSource.__init__', prop='P10', noreturn=True)
def radial_init(self, **kwargs):
    self.func = kwargs.pop('radial_distribution')
    self.func_par = kwargs.pop('func_par', None)
    super().__init__(**kwargs)


@spec('marxs.source.basesources.RadialDistributionSource.generate_photons', prop='P10')
def radial(self, exposuretime):
    photons = super().generate_photons(exposuretime)
    n = len(photons)
    phi = np.random.rand(n) * 2. * np.pi * u.rad
    d = self.func(n)
    c = SkyCoord(np.arctan2(np.sin(d) * np.sin(phi), np.cos(d)), np.arcsin(np.sin(d) * np.cos(phi)),
                 frame=SkyOffsetFrame(origin=self.coords))
    self.set_pos(photons, c.transform_to(self.coords))
    return photons


@spec('marxs.source.basesources.SphericalDiskSource.__init__', prop='P10', noreturn=True)
def sphere_init(self, **kwargs):
    outer = kwargs.pop('a_outer')
    inner = kwargs.pop('a_inner', 0. * u.rad)
    super().__init__(radial_distribution=self.radial_distribution, func_par=[outer, inner], **kwargs)


@spec('marxs.source.basesources.SphericalDiskSource.radial_distribution', prop='P10')
def sphere_dist(self, n):
    # uniform in the cosine of the angle from the centre, between inner and outer radius
    r = np.random.rand(n)
    outer, inner = self.func_par[0], self.func_par[1]
    return np.arccos((1. - r) * np.cos(inner) + r * np.cos(outer))


@spec('marxs.source.basesources.DiskSource.__init__', prop='P10', noreturn=True)
def disk_init(self, **kwargs):
    # uniform in the square of the radius
    outer = kwargs.pop('a_outer')
    inner = kwargs.pop('a_inner', 0. * u.rad)
    super().__init__(func_par=[outer, inner], radial_distribution=lambda n: np.sqrt(
        self.func_par[1]**2 + np.random.rand(n) * (self.func_par[0]**2 - self.func_par[1]**2)), **kwargs)


@spec('marxs.source.basesources.GaussSource.__init__', prop='P10', noreturn=True)
def gauss_init(self, **kwargs):
    self.sigma = kwargs.pop('sigma')
    super().__init__(**kwargs)


@spec('marxs.source.basesources.GaussSource.generate_photons', prop='P10')
def gauss(self, exposuretime):
    photons = super().generate_photons(exposuretime)
    n = len(photons)
    x = np.random.normal(scale=self.sigma.value, size=n) * self.sigma.unit
    y = np.random.normal(scale=self.sigma.value, size=n) * self.sigma.unit
    c = SkyCoord(x, y, frame=SkyOffsetFrame(origin=self.coords))
    self.set_pos(photons, c.transform_to(self.coords))
    return photons


@spec('marxs.source.basesources.SymbolFSource.__init__', prop='P10', noreturn=True)
def f_init(self, **kwargs):
    self.size = kwargs.pop('size', 1. * u.degree)
    super().__init__(**kwargs)


@spec('marxs.source.basesources.SymbolFSource.generate_photons', prop='P10')
def letter_f(self, exposuretime):
    photons = super().generate_photons(exposuretime)
    n = len(photons)
    elem = np.random.choice(3, size=n)
    ra = np.ones(n) * self.coords.icrs.ra
    dec = np.ones(n) * self.coords.icrs.dec
    size = self.size
    ra[elem == 0] += size * np.random.random(np.sum(elem == 0))
    ra[elem == 1] += size
    dec[elem == 1] += 0.5 * size * np.random.random(np.sum(elem == 1))
    ra[elem == 2] += 0.8 * size
    dec[elem == 2] += 0.3 * size * np.random.random(np.sum(elem == 2))
    self.set_pos(photons, SkyCoord(ra, dec, frame='icrs'))
    return photons


@spec('marxs.source.labSource.FarLabPointSource.__init__', prop='P10', noreturn=True)
def farlab_init(self, sourcePos, **kwargs):
    self.sourcePos = sourcePos
    if 'flux' not in kwargs:
        kwargs['flux'] = 1 / u.s
    super().__init__(geomarea=None, **kwargs)


@spec('marxs.source.labSource.FarLabPointSource.generate_photons', prop='P10', also=(('P04', 'polarization'),))
def farlab(self, exposuretime):
    photons = super().generate_photons(exposuretime)
    n = len(photons)
    start = np.dot(self.pos4d, np.array([np.zeros(n), np.random.uniform(-1, 1, n), np.random.uniform(-1, 1, n), np.ones(n)]))
    s = self.sourcePos
    direction = np.array([start[0, :] - s[0], start[1, :] - s[1], start[2, :] - s[2], np.zeros(n)])
    photons['pos'] = start.T
    photons['dir'] = direction.T
    photons['polarization'] = polarization_vectors(direction.T, photons['polangle'])
    return photons


@spec('marxs.source.labSource.LabPointSourceCone.__init__', prop='P10', noreturn=True)
def cone_init(self, position=[0, 0, 0], half_opening=np.pi, direction=[1., 0., 0.], **kwargs):
    if len(position) != 3 or len(direction) != 3:
        raise ValueError('Euklid')
    self.dir = e2h(np.asanyarray(direction) / np.linalg.norm(direction), 0)
    self.position = e2h(np.asanyarray(position), 1)
    self.half_opening = half_opening
    if 'flux' not in kwargs:
        kwargs['flux'] = 1 / u.s
    super().__init__(geomarea=None, **kwargs)


@spec('marxs.source.labSource.LabPointSourceCone.generate_photons', prop='P10', also=(('P04', 'polarization'),))
def cone(self, exposuretime):
    photons = super().generate_photons(exposuretime)
    n = len(photons)
    theta = np.random.uniform(0, 2 * np.pi, n)
    # uniform on the sphere: cos(phi) is uniform between 1 and cos(half_opening)
    v = np.random.uniform(0, (1 - np.cos(self.half_opening)) / 2, n)
    phi = np.arccos(1 - 2 * v)
    d = np.array([np.cos(theta) * np.sin(phi), np.sin(theta) * np.sin(phi), np.cos(phi), np.zeros(n)])
    axis = np.cross(h2e(self.dir), [0, 0, 1])
    if np.all(axis == 0):
        axis = np.array([1., 0., 0.])
    rot = transforms3d.axangles.axangle2aff(axis, -np.arccos(self.dir[2]))
    d = np.dot(rot, d)
    photons['pos'] = (np.ones((4, n)) * self.position[:, None]).T
    photons['dir'] = d.T
    photons['polarization'] = polarization_vectors(d.T, photons['polangle'])
    return photons


@spec('marxs.source.basesources.poisson_process', prop='P30')
def poisson_process(rate):
    if not rate.isscalar:
        raise ValueError('scalar')

    def poisson_rate(exposuretime, geomarea):
        fullrate = rate * geomarea
        times = expon.rvs(scale=1. / fullrate.to(1 / u.s),
                          size=int((exposuretime * fullrate * 1.1).to(u.dimensionless_unscaled)))
        while (times.sum() * u.s) < exposuretime:
            more = expon.rvs(scale=1 / fullrate.to(1 / u.s),
                             size=int(((exposuretime - times.sum() * u.s) * fullrate * 1.1).to(u.dimensionless_unscaled)) + 1)
            times = np.hstack([times, more])
        t = np.cumsum(times) * u.s
        return t[t < exposuretime]
    return poisson_rate
