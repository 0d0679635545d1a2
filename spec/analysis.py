"""Analysis: figures of merit are the documented statistics of the photon list that is passed in."""
from copy import copy

import numpy as np
import scipy.optimize
import astropy.units as u
from astropy.stats import sigma_clipped_stats
from astropy.table import Table
from astropy.coordinates import SkyCoord

from marxs.optics import FlatDetector, CircularDetector, OrderSelector
from marxs.design import RowlandTorus
from marxs.analysis import find_best_detector_position
from marxs.analysis.analysis import sigma_clipped_std as sc_std
from marxs.analysis.coords import ProjectOntoPlane
from marxs.analysis.gratings import (effectivearea_from_photonlist, resolvingpower_from_photonlist, average_R_Aeff, AnalysisError)
from marxs.analysis.run_helpers import default_coord
from marxs.math.geometry import Cylinder
from marxs.math.utils import h2e
from marxs.source import PointSource, FixedPointing


@spec('marxs.analysis.analysis.sigma_clipped_std', prop='P28')
def sigma_clipped_std(photons, colname='det_x', **kwargs):
    return sigma_clipped_stats(photons[colname].data, **kwargs)[2]


@spec('marxs.analysis.analysis.mean_width_2d', prop='P28')
def mean_width_2d(photons):
    x = photons['det_x'].data
    y = photons['det_y'].data
    r = np.linalg.norm(np.stack([x - x.mean(), y - y.mean()]), axis=0)
    return np.sum(r) / len(r)


@spec('marxs.analysis.analysis.find_best_detector_position', prop='P28')
def best_position(photons, objective_func=sc_std, objective_func_args={'colname': 'det_x'}, orientation=np.eye(3), **kwargs):
    def width(x, photons):
        det = FlatDetector(position=np.dot(orientation, np.array([x, 0, 0])), orientation=orientation, zoom=1e5, pixsize=1.)
        return objective_func(det(photons.copy()), **objective_func_args)
    return scipy.optimize.minimize_scalar(width, args=(photons,), **kwargs)


@spec('marxs.analysis.analysis.detected_fraction', prop='P28')
def detected_fraction(photons, labels, col='order'):
    prob = np.zeros_like(labels, dtype=float)
    for i, o in enumerate(labels):
        prob[i] = np.sum(photons['probability'][photons[col] == o]) / len(photons)
    return prob


@spec('marxs.analysis.coords.ProjectOntoPlane.__call__', prop='P28')
def project(self, photons):
    v = h2e(photons['pos']) - h2e(self.geometry['center'])
    photons[self.loc_coos_name[0]] = np.dot(v, h2e(self.geometry['e_y']))
    photons[self.loc_coos_name[1]] = np.dot(v, h2e(self.geometry['e_z']))
    return photons


@spec('marxs.analysis.coords.facet_table', prop='P28')
def facet_table(container, project_plane=ProjectOntoPlane()):
    plane = copy(project_plane)
    plane.loc_coos_name = ['facet_projx', 'facet_projy']
    pos = np.stack(container.elem_pos)[:, :, 3]
    tab = plane(Table({'pos': pos}))
    tab['facet_ang'] = np.arctan2(tab['facet_projy'], tab['facet_projx'])
    tab['facet_rad'] = np.sqrt(tab['facet_projx']**2 + tab['facet_projy']**2)
    tab['facet'] = [e.id_num for e in container.elements]
    for i, s in enumerate('xyz'):
        tab[f'facet_{s}'] = h2e(pos)[:, i]
    tab.remove_column('pos')
    return tab


@spec('marxs.analysis.plots.OrderColor.__init__', prop='P28')
def order_color_init(self, colormap='nipy_spectral', max_order=15):
    import matplotlib.pyplot as plt
    cmap = plt.get_cmap(colormap)
    self.color = cmap(np.linspace(0, 1, abs(max_order + 1)))


@spec('marxs.analysis.plots.OrderColor.__call__', prop='P28')
def order_color(self, order):
    kwargs = {}
    kwargs['color'] = 'k' if order == 0 else self.color[abs(order)]
    if order <= 0:
        kwargs['linestyle'] = '-'
    if order > 0:
        kwargs['linestyle'] = ':'
    if order == 0:
        kwargs['lw'] = 4
        kwargs['alpha'] = .7
    else:
        kwargs['lw'] = 2
    return kwargs


@spec('marxs.analysis.run_helpers.monoenergetic_astrosimulation', prop='P28')
def mono(instrument, energy, n_photons=2e4, reference_transform=np.eye(4)):
    source = PointSource(coords=default_coord, energy=energy, flux=1. / u.s / u.cm**2)
    pointing = FixedPointing(coords=default_coord, reference_transform=reference_transform)
    return instrument(pointing(source.generate_photons(n_photons * u.s)))


@spec('marxs.analysis.gratings.resolvingpower_per_order', prop='P28')
def res_per_order(gratings, photons, orders, detector=None, colname='det_x'):
    res = np.zeros_like(orders, dtype=float)
    fwhm = np.zeros_like(orders, dtype=float)
    info = {}
    if detector is None:
        info['method'] = 'Detector position numerically optimized'
        info['fit_results'] = []
        col = 'det_x'
        zeropos = 0.
    elif isinstance(detector, RowlandTorus):
        det = CircularDetector(geometry=Cylinder.from_rowland(detector, width=1e5, rotation=np.pi,
                                                              kwargs={'phi_lim': [-np.pi / 2, np.pi / 2]}))
        info['method'] = 'Circular detector on Rowland circle'
        col = 'detpix_x'
        p0 = det(photons.copy())
        p0 = p0[p0['probability'] > 0.]
        zeropos = sigma_clipped_stats(p0[col])[0]
    else:
        det = detector
        info['method'] = 'User defined detector'
        col = colname
        p0 = det(photons.copy())
        zeropos = sigma_clipped_stats(p0[col])[0]
    for i, order in enumerate(orders):
        sel = OrderSelector([order])
        gratings.elem_args['order_selector'] = sel
        for elem in gratings.elements:
            elem.order_selector = sel
        p = gratings(photons.copy())
        p = p[(p['order'] == order) & (p['probability'] > 0.)]
        if detector is None:
            xbest = find_best_detector_position(p, objective_func=sc_std)
            info['fit_results'].append(xbest)
            det = FlatDetector(position=np.array([xbest.x, 0, 0]), zoom=1e5)
        p = det(p)
        mean, median, std = sigma_clipped_stats(p[col])
        fwhm[i] = 2.3548 * std
        res[i] = np.abs((mean - zeropos) / fwhm[i])
    return res, fwhm, info


@spec('marxs.analysis.gratings.weighted_per_order', prop='P28')
def weighted(data, orders, energy, gratingeff):
    if len(orders) != data.shape[0]:
        raise ValueError('orders')
    if len(energy) != data.shape[1]:
        raise ValueError('energy')
    weights = np.zeros_like(data)
    for i, o in enumerate(orders):
        ind = (gratingeff.orders == o).nonzero()[0]
        if len(ind) != 1:
            raise KeyError('No data')
        s = np.argsort(gratingeff.energy)
        weights[i, :] = np.interp(energy, gratingeff.energy[s], gratingeff.prob[:, ind[0]][s])
    return np.ma.average(data, axis=0, weights=weights)


@spec('marxs.analysis.gratings.average_R_Aeff', prop='P28')
def average(r, aeff, axis=None):
    return np.ma.average(np.ma.masked_invalid(r), weights=aeff, axis=axis), aeff.sum(axis=axis)


@spec('marxs.analysis.gratings.resolvingpower_from_photonlist', prop='P28')
def res_photonlist(photons, orders, col='proj_x', zeropos=None, ordercol='order'):
    if zeropos is None:
        ind = photons[ordercol] == 0
        if ind.sum() < 20:
            raise AnalysisError('Too few')
        zeropos = sigma_clipped_stats(photons[col][ind])[0]
    pos = np.zeros_like(orders, dtype=float)
    std = np.zeros_like(orders, dtype=float)
    for i, o in enumerate(orders):
        ind = photons[ordercol] == o
        if ind.sum() >= 20:
            mean, median, s = sigma_clipped_stats(photons[col][ind].value)
        else:
            mean, s = np.nan, np.nan
        pos[i] = mean
        std[i] = s
    return np.abs(pos - zeropos) / (2.3548 * std), pos, std


@spec('marxs.analysis.gratings.resolvingpower_from_photonlist_robust', prop='P28',
      opaque=('marxs.analysis.gratings.resolvingpower_from_photonlist',))
def res_robust(lphotons, orders, cols, zeropositions, ordercol='order'):
    if len(cols) != len(zeropositions):
        raise ValueError('zeropositions')
    if len(cols) != len(lphotons):
        raise ValueError('lphotons')
    res = np.zeros((len(cols), len(orders)))
    pos = np.zeros_like(res)
    std = np.zeros_like(res)
    for i, (photons, col, zeropos) in enumerate(zip(lphotons, cols, zeropositions)):
        r, p, s = resolvingpower_from_photonlist(photons, orders, col=col, zeropos=zeropos, ordercol=ordercol)
        res[i, :] = r
        pos[i, :] = p
        std[i, :] = s
    ind = np.argmin(res, axis=0)
    n = np.arange(res.shape[1])
    return res[ind, n], pos[ind, n], std[ind, n]


@spec('marxs.analysis.gratings.effectivearea_from_photonlist', prop='P28')
def aeff_photonlist(photons, orders, n_photons, A_geom=1. * u.cm**2, ordercol='order'):
    aeff = np.zeros(len(orders))
    for i, o in enumerate(orders):
        aeff[i] = photons['probability'][photons[ordercol] == o].sum()
    return aeff / n_photons * A_geom


@spec('marxs.analysis.gratings.identify_photon_in_subaperture', prop='P28')
def subaperture(angle, max_ang, ang_0=np.pi / 2):
    a = np.mod(angle, 2 * np.pi)
    return np.isclose(a, ang_0, atol=max_ang) | np.isclose(a, 2 * np.pi - ang_0, atol=max_ang)


@spec('marxs.analysis.gratings.CaptureResAeff.__init__', prop='P28')
def capture_init(self, A_geom=1, order_col='order', orders=np.arange(-10, 11), dispersion_coord='det_x', zeropos=None):
    self.A_geom = A_geom
    self.order_col = order_col
    self.orders = np.asanyarray(orders)
    self.dispersion_coord = dispersion_coord
    self.zeropos = zeropos


@spec('marxs.analysis.gratings.CaptureResAeff.aeff_filter', prop='P28')
def aeff_filter(self, photons):
    return np.ones(len(photons), dtype=bool)


@spec('marxs.analysis.gratings.CaptureResAeff.res_filter', prop='P28')
def res_filter(self, photons):
    ind = np.isfinite(photons[self.dispersion_coord]) & (photons['probability'] > 0)
    if hasattr(photons[self.dispersion_coord], 'mask'):
        ind = ind & ~photons[self.dispersion_coord].mask
    return ind


@spec('marxs.analysis.gratings.CaptureResAeff.__call__', prop='P28')
def capture(self, photons, n_photons=None):
    if n_photons is None:
        n_photons = len(photons)
    aeff = effectivearea_from_photonlist(photons[self.aeff_filter(photons)], self.orders, n_photons, self.A_geom, self.order_col)
    try:
        res, pos, std = resolvingpower_from_photonlist(photons[self.res_filter(photons)], self.orders, col=self.dispersion_coord,
                                                       zeropos=self.zeropos, ordercol=self.order_col)
    except AnalysisError:
        res = np.nan * np.ones(len(self.orders))
    disp = self.orders != 0
    r, a = average_R_Aeff(res[disp], aeff[disp])
    return {'Aeff0': np.sum(aeff[~disp]), 'Aeffgrat': a, 'Aeff': aeff, 'Rgrat': r, 'R': res}


@spec('marxs.analysis.gratings.CaptureResAeff_CCDgaps.__init__', prop='P28')
def ccdgaps_init(self, aeff_filter_col='CCD_ID', **kwargs):
    super().__init__(**kwargs)
    self.aeff_filter_col = aeff_filter_col


@spec('marxs.analysis.gratings.CaptureResAeff_CCDgaps.aeff_filter', prop='P28')
def ccdgaps_filter(self, photons):
    return photons[self.aeff_filter_col] >= 0
