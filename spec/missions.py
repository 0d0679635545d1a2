"""Elements of the missions (P35)."""
from copy import deepcopy

import numpy as np
import astropy.units as u
from astropy.table import Table
from scipy.interpolate import interp1d, RectBivariateSpline
from transforms3d.affines import compose
from transforms3d.euler import euler2mat

from marxs.design.uncertainties import generate_facet_uncertainty
from marxs.math.geometry import Geometry
from marxs.math.utils import norm_vector, xyz2zxy
from marxs.missions.arcus.boom import Rod
from marxs.missions.athena.spo import SPOChannelMirror, ScatterPerChannel
from marxs.missions.lynx.lynx import LynxGAS
from marxs.missions.mitsnl.catgrating import (NonParallelCATGrating, QualityFactor, L1, L2Abs, L2Diffraction, l1transtab, check_lx_dims)
from marxs.optics import PerfectLens, CircleAperture, RadialMirrorScatter
from marxs.simulator import SimulationSetupError
from marxs.utils import tablerows_to_2d, DataFileFormatException


@spec('marxs.utils.generate_test_photons', prop='P35')
def test_photons(n=1):
    return Table({'pos': np.tile(np.array([1., 0., 0., 1.]), (n, 1)), 'dir': np.tile(np.array([-1., 0., 0., 0.]), (n, 1)), 'energy': np.ones(n) * u.keV,
                  'polarization': np.tile(np.array([0., 1., 0., 0.]), (n, 1)), 'probability': np.ones(n)})


@spec('marxs.utils.tablerows_to_2d', prop='P35')
def rows_2d(tab):
    x = tab.columns[0]
    y = tab.columns[1]
    n_x = len(set(x))
    n_y = len(set(y))
    if len(x) != (n_x * n_y):
        raise DataFileFormatException('Data is not on regular grid.')
    xa = x.data.reshape(n_x, n_y)
    ya = y.data.reshape(n_x, n_y)
    if not (np.allclose(xa, xa[:, 0][:, None]) and np.allclose(ya, ya[0, :][None, :])):
        raise DataFileFormatException('Input table x, y not sorted as expected.')
    return x[::n_y], y[:n_y], [tab[d].data.reshape(n_x, n_y) for d in tab.columns[2:]]


# ---------------------------------------------------------------- CAT gratings

@spec('marxs.missions.mitsnl.catgrating.InterpolateEfficiencyTable.__init__', prop='P35')
def eff_init(self, tab, k=1):
    wave, theta, orders = tablerows_to_2d(tab)
    theta = theta.to(u.rad)
    self.orders = np.array([int(n) for n in tab.colnames[2:]])
    self.interpolators = [RectBivariateSpline(wave, theta, d, kx=k, ky=k) for d in orders]


@spec('marxs.missions.mitsnl.catgrating.InterpolateEfficiencyTable.probabilities', prop='P35')
def eff_prob(self, energies, pol, blaze):
    wave = (energies * u.keV).to(u.nm, equivalencies=u.spectral()).value
    p = np.empty((len(self.orders), len(energies)))
    for i, interp in enumerate(self.interpolators):
        p[i, :] = interp.ev(wave, blaze)
    return self.orders, p


@spec('marxs.missions.mitsnl.catgrating.InterpolateEfficiencyTable.__call__', prop='P35')
def eff_call(self, energies, pol, blaze):
    orders, p = self.probabilities(energies, pol, blaze)
    total = np.sum(p, axis=0)
    ind = np.argmax(np.cumsum(p, axis=0) / total > np.random.rand(len(energies)), axis=0)
    return orders[ind], total


@spec('marxs.missions.mitsnl.catgrating.QualityFactor.__init__', prop='P35')
def qual_init(self, qualityfactor={'d': 200. * u.um, 'sigma': 1.75 * u.um}, **kwargs):
    self.factor = np.exp(- (2 * np.pi * qualityfactor['sigma'] / qualityfactor['d'])**2)
    super().__init__(**kwargs)


@spec('marxs.missions.mitsnl.catgrating.QualityFactor.specific_process_photons', prop='P35')
def qual(self, photons, intersect, interpos, intercoos):
    return {'probability': self.factor**(photons['order'][intersect]**2)}


@spec('marxs.missions.mitsnl.catgrating.check_lx_dims', prop='P35')
def lxdims(lx_dims):
    if not (lx_dims['barwidth'] < lx_dims['period']):
        raise ValueError('Period of grating must be larger than bar width.')


@spec('marxs.missions.mitsnl.catgrating.L1.__init__', prop='P35')
def l1_init(self, l1_dims={'bardepth': 0.004 * u.mm, 'period': 0.005 * u.mm, 'barwidth': 0.0009 * u.mm}, **kwargs):
    check_lx_dims(l1_dims)
    self.openfraction = 1 - l1_dims['barwidth'] / l1_dims['period']
    energy = l1transtab['energy'].to(u.keV, equivalencies=u.spectral())
    trans = np.exp(np.log(l1transtab['transmission']) * l1_dims['bardepth'] / (1 * u.micrometer))
    self.transfunc = interp1d(energy, trans)
    kwargs['d'] = l1_dims['period'].to(u.mm).value
    super().__init__(**kwargs)


@spec('marxs.missions.mitsnl.catgrating.L1.specific_process_photons', prop='P35')
def l1_process(self, photons, intersect, interpos, intercoos):
    out = super().specific_process_photons(photons, intersect, interpos, intercoos)
    bars = np.random.rand(intersect.sum()) > self.openfraction
    ind = intersect.nonzero()[0][bars]
    out['dir'][bars] = photons['dir'].data[ind, :]
    out['polarization'][bars] = photons['polarization'].data[ind, :]
    out['order_L1'][bars] = 0
    out['probability'][bars] = self.transfunc(photons['energy'][ind])
    return out


@spec('marxs.missions.mitsnl.catgrating.L2Abs.__init__', prop='P35')
def l2abs_init(self, l2_dims={'bardepth': 0.5 * u.mm, 'period': 0.9622504 * u.mm, 'barwidth': 0.0962250 * u.mm}, **kwargs):
    check_lx_dims(l2_dims)
    self.bardepth = l2_dims['bardepth']
    self.period = l2_dims['period']
    self.barwidth = l2_dims['barwidth']
    super().__init__(**kwargs)
    self.innerfree = self.period - self.barwidth


@spec('marxs.missions.mitsnl.catgrating.L2Abs.specific_process_photons', prop='P35')
def l2abs(self, photons, intersect, interpos, intercoos):
    d = norm_vector(photons['dir'].data[intersect])
    ex, ey, en = self.geometry.get_local_euklid_bases(intercoos[intersect, :])
    angle = np.arccos(np.abs(np.einsum("ij,ij->i", d, en)))
    area = self.period**2 / 2 * np.sqrt(3)
    return {'probability': (self.innerfree / self.period)**2 - self.bardepth * self.innerfree * np.sin(angle) / area}


@spec('marxs.missions.mitsnl.catgrating.L2Diffraction.__init__', prop='P35')
def l2diff_init(self, l2_dims={'bardepth': 0.5 * u.mm, 'period': 0.9622504 * u.mm, 'barwidth': 0.0962250 * u.mm}, **kwargs):
    check_lx_dims(l2_dims)
    self.innerfree = l2_dims['period'] - l2_dims['barwidth']
    super().__init__(**kwargs)


@spec('marxs.missions.mitsnl.catgrating.L2Diffraction.scatter', prop='P35')
def l2diff(self, photons, intersect, interpos, intercoos):
    wave = (photons['energy'].data[intersect] * u.keV).to(u.mm, equivalencies=u.spectral())
    sigma = 1.22 * 0.4 * np.arcsin(wave / self.innerfree)
    return np.random.normal(size=intersect.sum()) * sigma


@spec('marxs.missions.mitsnl.catgrating.NonParallelCATGrating.__init__', prop='P35')
def npcat_init(self, **kwargs):
    self.d_blaze_mm = kwargs.pop('d_blaze_mm', 0)
    self.blaze_center = kwargs.pop('blaze_center', 0)
    super().__init__(**kwargs)


@spec('marxs.missions.mitsnl.catgrating.NonParallelCATGrating.blaze_angle_modifier', prop='P35')
def npcat_blaze(self, intercoos):
    return self.blaze_center + intercoos[:, 0] * self.d_blaze_mm


@spec('marxs.missions.mitsnl.catgrating.catsupportbars', prop='P35', tab=('photons',))
def supportbars(photons):
    if 'facet' in photons.colnames:
        photons['probability'][photons['facet'] < 0] = 0.
    else:
        photons['probability'] = 0.
    return photons


@spec('marxs.missions.mitsnl.catgrating.CATL1L2Stack.__init__', prop='P35')
def stack_init(self, l1_dims={'bardepth': 0.004 * u.mm, 'period': 0.005 * u.mm, 'barwidth': 0.0009 * u.mm},
               l2_dims={'bardepth': 0.5 * u.mm, 'period': 0.9622504 * u.mm, 'barwidth': 0.0962250 * u.mm},
               l1_order_selector=None, qualityfactor={'d': 200. * u.um, 'sigma': 1.75 * u.um}, **kwargs):
    kwargs['elements'] = [NonParallelCATGrating, QualityFactor, L1, L2Abs, L2Diffraction]
    ang = kwargs.pop('groove_angle', 0.)
    kwargs['keywords'] = [{'order_selector': kwargs.pop('order_selector'), 'd': kwargs.pop('d', 0.0002), 'groove_angle': ang},
                          {'qualityfactor': qualityfactor},
                          {'l1_dims': l1_dims, 'order_selector': l1_order_selector, 'groove_angle': np.pi / 2. + ang},
                          {'l2_dims': l2_dims},
                          {'l2_dims': l2_dims}]
    super().__init__(**kwargs)


@spec('marxs.missions.mitsnl.tolerances.OrderSelectorWavy.__init__', prop='P35')
def wavy_init(self, wavysigma, **kwargs):
    self.sigma = wavysigma
    super().__init__(**kwargs)


@spec('marxs.missions.mitsnl.tolerances.OrderSelectorWavy.probabilities', prop='P35')
def wavy(self, energies, pol, blaze):
    return super().probabilities(energies, pol, blaze + self.sigma * np.random.randn(len(blaze)))


@spec('marxs.missions.mitsnl.tolerances.OrderSelectorTopHat.__init__', prop='P35')
def tophat_init(self, tophatwidth, **kwargs):
    self.tophatwidth = tophatwidth
    super().__init__(**kwargs)


@spec('marxs.missions.mitsnl.tolerances.OrderSelectorTopHat.probabilities', prop='P35')
def tophat(self, energies, pol, blaze):
    return super().probabilities(energies, pol, blaze + self.tophatwidth * (np.random.rand(len(blaze)) - 0.5))


@spec('marxs.missions.mitsnl.tolerances.wiggle_and_bar_tilt', prop='P35', also=(('P09', ''),))
def bar_tilt(e, dx=0, dy=0, dz=0, rx=0., ry=0., rz=0., max_bar_tilt=0.):
    tilts = np.random.uniform(low=-max_bar_tilt, high=max_bar_tilt, size=len(e.elements))
    off = np.zeros((len(e.elements), 3))
    off[:, 1] = tilts
    e.elem_uncertainty = generate_facet_uncertainty(len(e.elements), [dx, dy, dz], [rx, ry, rz], rot_offset=-off)
    e.generate_elements()
    grats = e.elements_of_class(NonParallelCATGrating, subclass_ok=False)
    if len(grats) != len(tilts):
        raise SimulationSetupError('one grating per element')
    for elem, t in zip(grats, tilts):
        if not hasattr(elem, 'blaze_center'):
            raise ValueError('no blaze_center')
        elem.blaze_center = t


# ---------------------------------------------------------------- silicon pore optics

@spec('marxs.missions.athena.spo.spogeom2pos4d', prop='P35')
def spopos(spogeom):
    out = []
    for row, ang in zip(spogeom, u.Quantity(spogeom['clocking_angle']).to(u.rad).value):
        out.append(compose([0, row['r_mid'] * np.sin(ang), row['r_mid'] * np.cos(ang)], euler2mat(-ang, 0., 0.),
                           [row['primary_length'], row['azwidth'] / 2., 36 * row['plate_height'] / 2.]))
    return out


@spec('marxs.missions.athena.spo.SPOChannelMirror.__init__', prop='P35')
def spochan(self, **kwargs):
    kwargs['elem_pos'] = kwargs.pop('spo_pos4d')
    geom = kwargs.pop('spo_geom')
    kwargs['elem_class'] = PerfectLens
    kwargs['elem_args'] = {'d_center_optical_axis': list(geom['r_mid']), 'focallength': list(geom['focal_length']),
                           'reflectivity_interpolator': kwargs.pop('reflectivity_interpolator')}
    kwargs['id_col'] = 'xou'
    super().__init__(**kwargs)


@spec('marxs.missions.athena.spo.ScatterPerChannel.__init__', prop='P35')
def scatchan_init(self, **kwargs):
    self.min_id = kwargs.pop('min_id')
    self.max_id = kwargs.pop('max_id')
    super().__init__(**kwargs)


@spec('marxs.missions.athena.spo.ScatterPerChannel.__call__', prop='P35', tab=('photons',), opaque=('marxs.optics.base.OpticalElement.process_photons',))
def scatchan(self, photons):
    hit, pos, coos = self.geometry.intersect(photons['dir'].data, photons['pos'].data)
    hit = (photons['xou'] >= self.min_id) & (photons['xou'] < self.max_id)
    return self.process_photons(photons, hit, photons['pos'].data, coos)


@spec('marxs.missions.athena.spo.spomounting', prop='P35', tab=('photons',))
def mounting(photons):
    photons['probability'][photons['xou'] < 0] = 0.
    return photons


@spec('marxs.missions.arcus.spo.rmid_spo', prop='P35')
def rmid(conf):
    p = np.array(conf['spo_pos4d'])
    return 0.5 * (p[:, 1, 3].max() + p[:, 1, 3].min())


@spec('marxs.missions.arcus.spo.zoom_to_cover_all_spos', prop='P35')
def zoomspo(conf, azscale=.8, rscale=1.1):
    p = np.array(conf['spo_pos4d'])
    azmid = 0.5 * (p[:, 0, 3].max() + p[:, 0, 3].min())
    rmid = 0.5 * (p[:, 1, 3].max() + p[:, 1, 3].min())
    dr = conf['spo_geom']['outer_radius'] - conf['spo_geom']['inner_radius']
    return np.array([1, p[:, 0, 3].max() - azmid + azscale * conf['spo_geom']['azwidth'].max(), p[:, 1, 3].max() - rmid + rscale * dr.max()])


# ---------------------------------------------------------------- boom

@spec('marxs.missions.arcus.boom.Rod.process_photons', prop='P35', tab=('photons',))
def rod(self, photons, intersect, interpos, intercoos):
    if self.outcol not in photons.colnames:
        photons[self.outcol] = False
    photons[self.outcol][intersect] = True
    photons['probability'][intersect] = 0.
    return photons


@spec('marxs.missions.arcus.boom.ThreeSidedBoom.__init__', prop='P35')
def boom_init(self, **kwargs):
    dims = kwargs.pop('boom_dimensions', {})
    for k in dims:
        if hasattr(self, k):
            setattr(self, k, dims[k])
        else:
            raise ValueError('unknown dimension')
    kwargs['elem_pos'] = self.pos_spec()
    kwargs['elem_class'] = Rod
    kwargs['elem_args'] = {}
    super().__init__(**kwargs)


@spec('marxs.missions.arcus.boom.ThreeSidedBoom.one_window', prop='P35')
def window3(self):
    out = [compose([self.l_longeron / 2, self.l_batten / 3**0.5, 0.], np.eye(3), [self.l_longeron / 2, self.d_longeron / 2, self.d_longeron / 2]),
           compose([0., self.l_batten / 4. / 3**0.5, self.l_batten / 4], euler2mat(np.pi / 2, - np.pi / 6, 0, 'szxz'),
                   [self.l_batten / 2, self.d_batten / 2, self.d_batten / 2])]
    for s in (-1, +1):
        out.append(compose([self.l_longeron / 2., self.l_batten / 4. / 3**0.5, self.l_batten / 4], euler2mat(np.deg2rad(90. + s * 34.03), -np.pi / 6, 0, 'szxz'),
                           [self.l_diag / 2., self.d_diag / 2., self.d_diag / 2.]))
    return out


@spec('marxs.missions.arcus.boom.FourSidedBoom.one_window', prop='P35')
def window4(self):
    out = [compose([self.l_longeron / 2, self.l_batten / 2, self.l_batten / 2], np.eye(3), [self.l_longeron / 2, self.d_longeron / 2, self.d_longeron / 2]),
           compose([0., self.l_batten / 2, 0], euler2mat(np.pi / 2, 0, 0, 'syxz'), [self.l_batten / 2, self.d_batten / 2, self.d_batten / 2])]
    ang = np.arcsin(self.l_batten / self.l_diag)
    for s in (+1, -1):
        out.append(compose([self.l_longeron / 2., self.l_batten / 2, 0.], euler2mat(s * ang, 0, 0, 'syxz'), [self.l_diag / 2., self.d_diag / 2., self.d_diag / 2.]))
    return out


@spec('marxs.missions.arcus.boom.ThreeSidedBoom.pos_spec', prop='P35', opaque=('marxs.missions.arcus.boom.ThreeSidedBoom.one_window',))
def boom_pos(self):
    out = []
    for h in range(self.start_bay, self.n_bays):
        for i in range(self.n_sides):
            aff = compose([h * self.l_longeron, 0, 0], euler2mat((i * 2) * np.pi / self.n_sides, 0, 0, 'sxyz'), np.ones(3))
            for p in self.one_window():
                out.append(np.dot(aff, p))
    return out


# ---------------------------------------------------------------- Lynx and AXIS mirrors

@spec('marxs.missions.lynx.mirror.MetaShellMirror.__init__', prop='P35')
def metamirror(self, conf):
    g = conf['metashellgeometry']
    r = np.max(g['r_outer'] * 1.1)
    super().__init__(position=[conf['focallength'], 0, 0], zoom=[20, r, r], elements=[PerfectLens, RadialMirrorScatter],
                     keywords=[{'focallength': conf['focallength']},
                               {'inplanescatter': conf['inplanescatter'], 'perpplanescatter': conf['perpplanescatter']}])


@spec('marxs.missions.lynx.mirror.MetaShellEfficiency.__init__', prop='P35')
def metaeff_init(self, conf):
    data = conf['metashellgeometry']
    eff = conf['metashelleff']
    aeff = np.stack([eff[str(c)].data for c in data['Metashell Serial Number']])
    area = np.pi * (data['r_outer']**2 - data['r_inner']**2)
    self.relative_eff = aeff * 100 / area[:, None]
    self.shells = [(i, interp1d(eff['energy'], self.relative_eff[i - 1, :])) for i in data['Metashell Serial Number']]


@spec('marxs.missions.lynx.mirror.MetaShellEfficiency.__call__', prop='P35', tab=('photons',))
def metaeff(self, photons):
    for i, func in self.shells:
        ind = photons['shell'] == i
        photons['probability'][ind] *= np.clip(func(photons['energy'][ind]), 0., 1.)
    return photons


@spec('marxs.missions.lynx.mirror.PerfectLensSegment.__init__', prop='P35')
def lensseg(self, conf, **kwargs):
    from astropy.utils.data import get_pkg_data_filename
    super().__init__(focallength=conf['focallength'], **kwargs)
    refl = Table.read(get_pkg_data_filename(f"data/{conf['mirrorcoating']}"), format='ascii.ecsv')
    self.reflectivity_interpolator = RectBivariateSpline(refl['energy'], [np.deg2rad(float(c)) for c in refl.colnames[1:]],
                                                         np.stack([refl[c] for c in refl.columns[1:]]).T)


@spec('marxs.missions.AXIS.AXIS.MirrorGeometricScaling.__init__', prop='P35')
def scale_init(self, conf):
    self.scale = conf['mirrorgeometricscaling']


@spec('marxs.missions.AXIS.AXIS.MirrorGeometricScaling.__call__', prop='P35', tab=('photons',))
def scaling(self, photons):
    photons['probability'] = self.scale * photons['probability']
    return photons


@spec('marxs.missions.AXIS.AXIS.RowlandDetArray.__init__', prop='P35')
def axisdet(self, conf):
    off = conf['rowland'].geometry['center'][1]
    k = conf['det_kwargs']
    super().__init__(rowland=conf['rowland'], y_range=np.array(k['y_range']) - off, d_element=k['d_element'], elem_args=k['elem_args'],
                     elem_class=k['elem_class'], guess_distance=25., id_col='CCD_ID')


@spec('marxs.missions.lynx.lynx.RowlandDetArray.__init__', prop='P35')
def lynxdet(self, conf):
    super().__init__(rowland=conf['rowland'], **conf['det_kwargs'], guess_distance=25.)


@spec('marxs.missions.lynx.lynx.reformat_errorbudget', prop='P35', also=(('P09', ''),))
def lynxbudget(budget, globalfac=0.8):
    for row in budget:
        tol = np.array(row[2], dtype=float)
        if row[1] == 'global':
            if globalfac is not None:
                tol *= globalfac
            else:
                tol *= np.random.randn(len(tol))
        row[3] = tol


@spec('marxs.missions.arcus.arcus.reformat_randall_errorbudget', prop='P35', also=(('P09', ''),))
def arcusbudget(budget, globalfac=0.8):
    for row in budget:
        tol = np.array(row[2], dtype=float)
        tol[:3] = tol[:3] / 1000.
        tol[3:] = np.deg2rad(tol[3:] / 3600.)
        tol = tol / 3
        if row[1] == 'global':
            if globalfac is not None:
                tol *= globalfac
            else:
                tol *= np.random.randn(len(tol))
        row[3] = tol
