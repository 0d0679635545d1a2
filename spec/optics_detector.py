"""Detectors: pixel coordinates are absolute local coordinates over pixel size, counted from the
centre of the first pixel; detected energies are drawn around the true energy."""
import math
import numpy as np
import astropy.units as u
from scipy.stats import norm
from marxs.math.geometry import decompose44


@spec('marxs.optics.detector.FlatDetector.__init__', prop='P25', noreturn=True)
def FlatDetector_init(self, pixsize=1, ignore_pixel_warning=False, **kwargs):
    self.pixsize = pixsize
    super().__init__(**kwargs)
    t, r, zoom, s = decompose44(self.pos4d)
    ny = int(np.round(2. * zoom[1] / pixsize))
    nz = int(np.round(2. * zoom[2] / pixsize))
    self.npix = [ny, nz]
    self.centerpix = [(ny - 1) / 2, (nz - 1) / 2]


@spec('marxs.optics.detector.FlatDetector.specific_process_photons', prop='P25')
def FlatDetector_process(self, photons, intersect, interpos, intercoos):
    c = intercoos[intersect]
    return {self.detpix_name[0]: c[:, 0] / self.pixsize + self.centerpix[0],
            self.detpix_name[1]: c[:, 1] / self.pixsize + self.centerpix[1]}


@spec('marxs.optics.detector.CircularDetector.__init__', prop='P25', noreturn=True)
def CircularDetector_init(self, pixsize=1, **kwargs):
    self.pixsize = pixsize


@spec('marxs.optics.detector.CircularDetector.specific_process_photons', prop='P25')
def CircularDetector_process(self, photons, intersect, interpos, intercoos):
    c = intercoos[intersect]
    return {self.detpix_name[0]: c[:, 0] * self.geometry['R'] / self.pixsize + self.centerpix[0],
            self.detpix_name[1]: c[:, 1] / self.pixsize + self.centerpix[1]}


@spec('marxs.optics.detector.CCDRedistNormal.sig_ccd', prop='P25')
def sig_ccd(self, energy):
    return np.interp(energy.to(u.keV, equivalencies=u.spectral()), self.tab_width['energy'], self.tab_width['sigma'])


@spec('marxs.optics.detector.CCDRedistNormal.cdf', prop='P25')
def ccd_cdf(self, x, loc):
    return norm().cdf(((x - loc) / self.sig_ccd(loc)).decompose())


@spec('marxs.optics.detector.CCDRedistNormal.interval', prop='P25')
def ccd_interval(self, alpha, loc):
    return np.broadcast_to(norm.interval(alpha), (len(loc), 2)).T * self.sig_ccd(loc) + loc


@spec('marxs.optics.detector.CCDRedistNormal.specific_process_photons', prop='P25')
def ccd_process(self, photons, intersect, interpos, intercoos):
    e = u.Quantity(photons['energy'][intersect])
    return {self.energycol: norm.rvs(loc=e, scale=self.sig_ccd(e).to(u.keV, equivalencies=u.spectral()))}


# ---------------------------------------------------------------- filters, baffles

@spec('marxs.optics.filter.GlobalEnergyFilter.__call__', prop='P01')
def GlobalEnergyFilter_call(self, photons):
    p = self.filterfunc(photons['energy'])
    if np.any(p < 0.) or np.any(p > 1.):
        raise ValueError('range')
    photons['probability'] *= p
    return photons


@spec('marxs.optics.filter.EnergyFilter.specific_process_photons', prop='P01')
def EnergyFilter_process(self, photons, intersect, interpos, intercoos):
    p = self.filterfunc(photons['energy'][intersect])
    if np.any((p < 0) | (p > 1)):
        raise ValueError('probability')
    return {'probability': p}


@spec('marxs.optics.baffles.Baffle.process_photons', prop='P02')
def Baffle_process(self, photons, intersect, points, coords):
    photons['pos'][intersect] = points[intersect]
    photons['probability'][~intersect] = 0
    return photons
