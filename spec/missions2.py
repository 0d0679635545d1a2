"""Layout and response of Arcus, Lynx and AXIS (P35)."""
import copy
import os
from copy import deepcopy
from os.path import join as pjoin
import string
import glob

import numpy as np
import astropy.units as u
import transforms3d
from astropy.table import Table, QTable
from scipy.interpolate import interp1d
from transforms3d.affines import compose
from transforms3d.axangles import axangle2mat

import marxs.analysis
from marxs import optics, analysis, simulator
from marxs.analysis.gratings import CaptureResAeff_CCDgaps, average_R_Aeff
from marxs.base import check_meta_consistent, check_energy_consistent
from marxs.design import tolerancing as tol
from marxs.design.bendgratings import NumericalChirpFinder, chirp_gratings
from marxs.design.rowland import RectangularGrid, RowlandTorus, design_tilted_torus
from marxs.math.utils import xyz2zxy
from marxs.missions.arcus import boom, spo
from marxs.missions.arcus.arcus import (defaultconf, DetCamera, FiltersAndQE, FocalPlaneDet, CATGratings)
from marxs.missions.arcus.arfrmf import OnCCD, MirrGrat, FiltersQE
from marxs.missions.arcus.analyze_grid import zeropos, analyze_sim, orders_from_meta
from marxs.missions.arcus.load_csv import load_number, load_table, log_tab_metadata
from marxs.missions.arcus.load_csv import DataFileFormatException
from marxs.missions.arcus.ralfgrating import CATfromMechanical, CATWindow
from marxs.missions.arcus.spo import zoom_to_cover_all_spos, rmid_spo
from marxs.missions.arcus.utils import id_num_offset, config, tagversion
from marxs.missions.athena.spo import SPOChannelMirror, ScatterPerChannel, spomounting
from marxs.missions.lynx.mirror import MetaShell, MetaShellAperture, MetaShellMirror, MetaShellEfficiency, PerfectLensSegment
from marxs.missions.lynx.lynx import LynxGAS
from marxs.missions.mitsnl.catgrating import CATL1L2Stack, NonParallelCATGrating, catsupportbars
from marxs.missions.mitsnl.tolerances import wiggle_and_bar_tilt
from marxs.optics import CircularDetector, FlatDetector, GlobalEnergyFilter
from marxs.reduction import ogip
from marxs.simulator import KeepCol, Propagator


# ---------------------------------------------------------------- Arcus data files

@spec('marxs.missions.arcus.load_csv.load_number', prop='P35', opaque=('marxs.missions.arcus.load_csv.log_tab_metadata',))
def arc_number(dirname, filename, valuename):
    tab = Table.read(os.path.join(config['data']['caldb_inputdata'], dirname, filename + '.csv'), format='ascii.ecsv')
    log_tab_metadata(dirname, filename)
    if len(tab) != 1:
        raise DataFileFormatException('one row')
    if tab[valuename].unit is None:
        return tab[valuename][0]
    return u.Quantity(tab[valuename])[0]


@spec('marxs.missions.arcus.load_csv.load_table', prop='P35', opaque=('marxs.missions.arcus.load_csv.log_tab_metadata',))
def arc_table(dirname, filename):
    log_tab_metadata(dirname, filename)
    return Table.read(os.path.join(config['data']['caldb_inputdata'], dirname, filename + '.csv'), format='ascii.ecsv')


@spec('marxs.missions.lynx.load_csv.load_table', prop='P35')
def lynx_table(filename):
    return Table.read(filename, format='ascii.ecsv')


@spec('marxs.missions.lynx.load_csv.load_number', prop='P35')
def lynx_number(filename, valuename):
    from marxs.missions.lynx.load_csv import DataFileFormatException
    tab = Table.read(filename, format='ascii.ecsv')
    if len(tab) != 1:
        raise DataFileFormatException('one row')
    if tab[valuename].unit is None:
        return tab[valuename][0]
    return u.Quantity(tab[valuename])[0]


# ---------------------------------------------------------------- Arcus parts

@spec('marxs.missions.arcus.arcus.reformat_randall_errorbudget', prop='P35', also=(('P09', ''),))
def arcbudget(budget, globalfac=0.8):
    for row in budget:
        t = np.array(row[2], dtype=float)
        t[:3] = t[:3] / 1000.
        t[3:] = np.deg2rad(t[3:] / 3600.)
        t = t / 3
        if row[1] == 'global':
            if globalfac is not None:
                t *= globalfac
            else:
                t *= np.random.randn(len(t))
        row[3] = t


@spec('marxs.missions.arcus.arcus.Aperture.__init__', prop='P35', noreturn=True,
      opaque=('marxs.missions.arcus.spo.zoom_to_cover_all_spos', 'marxs.missions.arcus.spo.rmid_spo'))
def arcaper(self, conf, channels=['1', '1m', '2', '2m'], **kwargs):
    apers = []
    zoom = spo.zoom_to_cover_all_spos(conf, 1.1, 0.8)
    for chan in deepcopy(channels):
        pos = conf['pos_opt_ax'][chan][:3].copy()
        pos[2] += 12200
        if '1' in chan:
            pos[1] += spo.rmid_spo(conf)
        elif '2' in chan:
            pos[1] -= spo.rmid_spo(conf)
        else:
            raise ValueError('No rules for channel')
        pos[2] = 12200
        rect = optics.RectangleAperture(position=pos, zoom=zoom, orientation=xyz2zxy[:3, :3])
        rect.display['outer_factor'] = 1.3
        apers.append(rect)
    super().__init__(elements=apers, **kwargs)


@spec('marxs.missions.arcus.arcus.SimpleSPOs.__init__', prop='P35', noreturn=True,
      opaque=('marxs.missions.arcus.load_csv.load_table', 'marxs.missions.arcus.load_csv.load_number'))
def arcspo(self, conf, channels=['1', '1m', '2', '2m'], **kwargs):
    rot180 = transforms3d.euler.euler2mat(np.pi, 0, 0, 'szyx')
    mirror = []
    for chan in channels:
        pos = conf['pos_opt_ax'][chan][:3].copy()
        pos[2] += 12000
        mirror.append(SPOChannelMirror(position=pos, orientation=np.eye(3) if '1' in chan else rot180,
                                       reflectivity_interpolator=conf['reflectivity_interpolator'], spo_pos4d=conf['spo_pos4d'],
                                       spo_geom=conf['spo_geom'], id_num_offset=id_num_offset[chan]))
        mirror.append(ScatterPerChannel(position=pos, min_id=id_num_offset[chan], max_id=id_num_offset[chan] + 1000,
                                        inplanescatter=conf['inplanescatter'], perpplanescatter=conf['perpplanescatter'],
                                        orientation=xyz2zxy[:3, :3]))
    mirror.append(spomounting)
    self.geometricopening = load_number('spos', 'geometricthroughput', 'transmission') * load_number('spos', 'porespecifications', 'transmission')
    mirror.append(GlobalEnergyFilter(filterfunc=lambda e: self.geometricopening, name='SPOgeometricthrougput'))
    tab = load_table('spos', 'lossterm')
    mirror.append(GlobalEnergyFilter(filterfunc=interp1d(tab['energy'].to(u.keV, equivalencies=u.spectral()), tab[tab.colnames[1]]),
                                     name='Loss_from_nonideal_spos'))
    super().__init__(elements=mirror, **kwargs)


@spec('marxs.missions.arcus.arcus.CATGratings.__init__', prop='P35', noreturn=True, opaque=('marxs.missions.arcus.ralfgrating.CATfromMechanical.__init__',))
def arccat(self, conf, channels=['1', '1m', '2', '2m'], **kwargs):
    elements = []
    for chan in channels:
        m = np.eye(4)
        m[:, 3] = conf['pos_opt_ax'][chan][:]
        elements.append(CATfromMechanical(pos4d=m, channel=chan, conf=conf, id_num_offset=id_num_offset[chan]))
    elements.append(catsupportbars)
    super().__init__(elements=elements, **kwargs)


@spec('marxs.missions.arcus.arcus.FiltersAndQE.get_filter', prop='P35', opaque=('marxs.missions.arcus.load_csv.load_table',))
def arcfilter(self, directory, name):
    tab = load_table(directory, name)
    return GlobalEnergyFilter(filterfunc=interp1d(tab['energy'].to(u.keV, equivalencies=u.spectral()), tab[tab.colnames[1]], **self.kwargs_interp1d),
                              name=name)


@spec('marxs.missions.arcus.arcus.FiltersAndQE.__init__', prop='P35', noreturn=True, opaque=('marxs.missions.arcus.arcus.FiltersAndQE.get_filter',))
def arcfilters(self, conf=None, channels=None, kwargs_interp1d={}, **kwargs):
    self.kwargs_interp1d = kwargs_interp1d
    super().__init__(elements=[self.get_filter(*n) for n in self.filterlist], **kwargs)


@spec('marxs.missions.arcus.arcus.DetCamera.__init__', prop='P35', noreturn=True)
def arccam(self, conf):
    r = conf['rowland_detector'].r
    phi_m = np.arcsin(conf['d'] / r) + np.pi
    ccd = conf['det_kwargs']['elem_args']['zoom'][1]
    gaps = np.array([0, self.d_ccd, self.d_fsupport, self.d_ccd, self.d_ccd, self.d_fsupport, self.d_ccd, self.d_ccd])
    th = (conf['phi_det_start'] + ccd / r) + np.arange(8) * 2 * ccd / r + gaps.cumsum() / r
    theta = np.hstack([phi_m - th - self.offset[0] / r, phi_m + self.offset[1] / r + th])
    theta.sort()
    theta = theta[::-1]
    super().__init__(pos_spec=conf['rowland_detector'].parametric(theta, 0), normal_spec=conf['rowland_detector'].normal,
                     parallel_spec=conf['rowland_detector'].pos4d @ np.array([0, 1, 0, 0]), **conf['det_kwargs'])
    assert len(self.elements) == conf['n_CCDs']
    disp = deepcopy(self.elements[0].display)
    disp['color'] = 'orange'
    for e in self.elements:
        e.display = disp


@spec('marxs.missions.arcus.arcus.FocalPlaneDet.__init__', prop='P35', noreturn=True)
def arcfp(self, **kwargs):
    if ('zoom' not in kwargs) and ('pos4d' not in kwargs):
        kwargs['zoom'] = [.2, 10000, 10000]
    if ('orientation' not in kwargs) and ('pos4d' not in kwargs):
        kwargs['orientation'] = xyz2zxy[:3, :3]
    super().__init__(**kwargs)


@spec('marxs.missions.arcus.arcus.PerfectArcus.add_detectors', prop='P35')
def arcdets(self, conf):
    rot = transforms3d.axangles.axangle2mat(np.array([0, 1, 0]), np.pi)
    rad = conf['rowland_detector'].r
    circ = CircularDetector(orientation=xyz2zxy[:3, :3] @ rot, zoom=[rad, rad, 20], position=[0, 0, np.sqrt(rad**2 - conf['d']**2)])
    circ.display['opacity'] = 0.1
    circ.detpix_name = ['circpix_x', 'circpix_y']
    circ.loc_coos_name = ['circ_phi', 'circ_y']
    proj1 = marxs.analysis.ProjectOntoPlane(orientation=xyz2zxy[:3, :3])
    proj1.loc_coos_name = ['projcirc_x', 'projcirc_y']
    return [circ, proj1, Propagator(distance=-100.), DetCamera(conf), marxs.analysis.ProjectOntoPlane(orientation=xyz2zxy[:3, :3]), FocalPlaneDet()]


@spec('marxs.missions.arcus.arcus.PerfectArcus.add_boom', prop='P35')
def arcboom(self, conf):
    return []


@spec('marxs.missions.arcus.arcus.PerfectArcus.post_process', prop='P35')
def arcpost(self):
    self.KeepPos = KeepCol('pos')
    return [self.KeepPos]


@spec('marxs.missions.arcus.arcus.PerfectArcus.__init__', prop='P35', noreturn=True,
      opaque=('marxs.missions.arcus.arcus.PerfectArcus.add_detectors', 'marxs.missions.arcus.arcus.PerfectArcus.post_process',
              'marxs.missions.arcus.arcus.PerfectArcus.add_boom', 'marxs.simulator.simulator.Sequence.__init__',
              'marxs.missions.arcus.arcus.CATGratings.__init__', 'marxs.missions.arcus.arcus.Aperture.__init__',
              'marxs.missions.arcus.arcus.FiltersAndQE.__init__', 'marxs.missions.athena.spo.SimpleSPOs.__init__', 'marxs.missions.arcus.arcus.SimpleSPOs.__init__'))
def perfectarcus(self, conf=defaultconf, channels=['1', '1m', '2', '2m'], **kwargs):
    elem = []
    for c in self.list_of_classes:
        cl = getattr(self, c)
        if cl is not None:
            elem.append(cl(conf, channels))
    elem.extend(self.add_boom(conf))
    elem.extend(self.add_detectors(conf))
    elem.append(tagversion)
    super().__init__(elements=elem, postprocess_steps=self.post_process(), **kwargs)


@spec('marxs.missions.arcus.arcus.Arcus.__init__', prop='P35', noreturn=True, also=(('P09', ''),),
      opaque=('marxs.missions.arcus.arcus.PerfectArcus.__init__', 'marxs.design.tolerancing.moveglobal', 'marxs.design.tolerancing.wiggle',
              'marxs.missions.mitsnl.tolerances.wiggle_and_bar_tilt'))
def arcus(self, conf=defaultconf, channels=['1', '1m', '2', '2m'], **kwargs):
    super().__init__(conf=conf, channels=channels, **kwargs)
    for row in conf['alignmentbudget']:
        elem = self.elements_of_class(row[0])
        if row[1] == 'global':
            tol.moveglobal(elem, *row[3])
        elif row[1] == 'individual':
            tol.wiggle(elem, *row[3])
        elif row[1] == 'individual_with_tilt':
            wiggle_and_bar_tilt(elem, *row[3])
        else:
            raise NotImplementedError('not implemented')


@spec('marxs.missions.arcus.arcus.ArcusForPlot.add_boom', prop='P35')
def plotboom(self, conf):
    return [boom.FourSidedBoom(orientation=xyz2zxy[:3, :3], position=[0, 0, 546.])]


@spec('marxs.missions.arcus.arcus.ArcusForPlot.add_detectors', prop='P35')
def plotdet(self, conf):
    return [DetCamera(conf)]


@spec('marxs.missions.arcus.arcus.ArcusForSIXTE.add_detectors', prop='P35')
def sixtedet(self, conf):
    return [FocalPlaneDet()]


# ---------------------------------------------------------------- gratings of Arcus

@spec('marxs.missions.arcus.ralfgrating.CATfromMechanical.stack', prop='P35')
def catstack(self, name):
    return np.vstack([self.data[name + 'X'].data, self.data[name + 'Y'].data, self.data[name + 'Z'].data]).T


@spec('marxs.missions.arcus.ralfgrating.CATfromMechanical.__init__', prop='P35', noreturn=True,
      opaque=('marxs.missions.arcus.load_csv.load_table', 'marxs.missions.arcus.ralfgrating.CATfromMechanical.stack',
              'marxs.simulator.simulator.Parallel.__init__'))
def catmech(self, **kwargs):
    self.channel = kwargs.pop('channel')
    self.conf = kwargs.pop('conf')
    self.data = load_table('gratings', 'facets')
    zoom = [[1, row['xsize'] / 2, row['ysize'] / 2] for row in self.data]
    trans = self.stack('')
    rot = np.stack([self.stack('NormN'), self.stack('DispN'), self.stack('GBarN')])
    pos = [compose(trans[i, :], rot[:, i, :].T, zoom[i]) for i in range(len(self.data))]
    mirr = np.eye(4)
    if 'm' in self.channel:
        mirr[0, 0] = 1
    else:
        mirr[0, 0] = -1
    if '2' in self.channel:
        mirr[1, 1] = -1
    pos = np.array([np.dot(mirr, p) for p in pos])
    center = np.eye(4)
    center[:, 3] = pos.mean(axis=0)[:, 3]
    cinv = np.linalg.inv(center)
    kwargs['pos4d'] = np.dot(center, kwargs['pos4d'])
    pos = np.array([np.dot(cinv, p) for p in pos])
    windows, gratings, start, periods = [], [], [], []
    for n in sorted(set(self.data['SPO_MM_num'])):
        ind = self.data['SPO_MM_num'] == n
        win = np.eye(4)
        win[:, 3] = pos[ind, :, :].mean(axis=0)[:, 3]
        winv = np.linalg.inv(win)
        windows.append(win)
        start.append(kwargs.get('id_num_offset', 0) + self.data['facet_num'][ind][0])
        gratings.append([np.dot(winv, pos[j, :, :]) for j in ind.nonzero()[0]])
        periods.append(list(self.data['period'][ind]))
    kwargs['elem_pos'] = windows
    kwargs['elem_class'] = CATWindow
    kwargs['elem_args'] = {}
    kwargs['elem_args']['elem_args'] = [{'d': d, 'order_selector': self.conf['gratinggrid']['elem_args']['order_selector']} for d in periods]
    kwargs['elem_args']['elem_pos'] = gratings
    kwargs['elem_args']['id_num_offset'] = start
    super().__init__(**kwargs)


@spec('marxs.missions.arcus.ralfgrating.CATfromMechanical.generate_elements', prop='P35', opaque=('marxs.simulator.simulator.Parallel.generate_elements',))
def catgen(self):
    super().generate_elements()
    for e in self.elements:
        e.generate_elements()


@spec('marxs.missions.arcus.ralfgrating.CATWindow.__init__', prop='P35', noreturn=True, opaque=('marxs.simulator.simulator.Parallel.__init__',))
def catwin(self, **kwargs):
    kwargs['id_col'] = self.id_col
    kwargs['elem_class'] = CATL1L2Stack
    super().__init__(**kwargs)


@spec('marxs.missions.arcus.ralfgrating.RegularGrid.__init__', prop='P35', noreturn=True,
      opaque=('marxs.missions.arcus.spo.zoom_to_cover_all_spos', 'marxs.missions.arcus.spo.rmid_spo'))
def reggrid(self, conf, channels=['1', '2', '1m', '2m'], **kwargs):
    elements = []
    temp, wy, wz = zoom_to_cover_all_spos(conf, .5, .5)
    rmid = rmid_spo(conf)
    bmat = axangle2mat(np.array([0, 0, 1]), np.deg2rad(-conf['blazeang']))
    bmatm = axangle2mat(np.array([0, 0, 1]), np.deg2rad(conf['blazeang']))
    gg = conf['gratinggrid']
    for chan in channels:
        sig = 1 if '1' in chan else -1
        is_m = -1 if 'm' in chan else +1
        gg['rowland'] = conf['rowland_' + chan]
        gg['elem_args']['orientation'] = bmatm if 'm' in chan else bmat
        gg['normal_spec'] = conf['pos_opt_ax'][chan].copy()
        gg['guess_distance'] = is_m * (conf['rowland_central'].r + conf['rowland_central'].R)
        z = [sig * (rmid - wz), sig * (rmid + wz)]
        z.sort()
        elements.append(RectangularGrid(y_range=[-wy, wy], z_range=z, id_num_offset=id_num_offset[chan], **gg))
    elements.extend([catsupportbars])
    super().__init__(elements=elements, **kwargs)


# ---------------------------------------------------------------- response of Arcus

@spec('marxs.missions.arcus.arfrmf.filename_from_meta', prop='P35', opaque=('marxs.reduction.ogip.filename_from_meta',))
def arcfile(filetype='fits', **kwargs):
    chan = kwargs.pop('ARCCHAN')
    if chan == '1111':
        chan = 'all'
    return f'chan_{chan}' + ogip.filename_from_meta(filetype=filetype, **kwargs)


@spec('marxs.missions.arcus.arfrmf.OnCCD.__init__', prop='P35', noreturn=True,
      opaque=('marxs.missions.arcus.arcus.DetCamera.__init__', 'marxs.missions.arcus.load_csv.load_table'))
def onccd_init(self, conf):
    self.conf = conf
    camera = DetCamera(conf)
    self.corners = np.zeros((len(camera.elements), 2, 2))
    for i, ccd in enumerate(camera.elements):
        self.corners[i, 0, :] = (ccd.geometry['center'] - ccd.geometry['v_y'])[[0, 2]]
        self.corners[i, 1, :] = (ccd.geometry['center'] + ccd.geometry['v_y'])[[0, 2]]
    facets = load_table('gratings', 'facets')
    self.effective_grating_period = np.cos(conf['blazeang'] * u.degree) * np.mean(facets['period']) * facets['period'].unit


@spec('marxs.missions.arcus.arfrmf.OnCCD.__call__', prop='P35')
def onccd(self, channel_mid, order, opt_ax):
    x0 = self.conf['pos_opt_ax'][opt_ax][0]
    alpha = np.arctan2(np.sign(x0) * (self.corners[:, :, 0] - x0), self.conf['f'] - self.corners[:, :, 1]) * u.rad
    theta = np.arcsin(order * u.dimensionless_unscaled * channel_mid.to(u.Angstrom, equivalencies=u.spectral()) / self.effective_grating_period)
    out = np.zeros(len(theta), dtype=bool)
    for row in alpha:
        out[(theta > min(row)) & (theta < max(row))] = True
    return out


@spec('marxs.missions.arcus.arfrmf.FiltersQE.__call__', prop='P35', opaque=('marxs.simulator.simulator.Sequence.__call__',))
def filtqe(self, en_mid):
    tab = super().__call__(Table(data=[en_mid, np.ones(len(en_mid))], names=['energy', 'probability']))
    return tab['probability']


@spec('marxs.missions.arcus.arfrmf.MirrGrat.__init__', prop='P35', noreturn=True)
def mirrgrat_init(self, aefforder, kind='quadratic', fill_value=0., bounds_error=False):
    tab = QTable(aefforder, copy=True)
    tab.sort("wave")
    self.interp = {}
    self.unit = {}
    for o in tab.colnames[1:]:
        self.interp[o] = interp1d(tab['wave'], tab[o], kind=kind, fill_value=fill_value, bounds_error=bounds_error)
        self.unit[o] = tab[o].unit


@spec('marxs.missions.arcus.arfrmf.MirrGrat.__call__', prop='P35')
def mirrgrat(self, channel_mid, order):
    t = self.interp[str(order)](channel_mid.to(u.Angstrom, equivalencies=u.spectral()))
    return np.clip(t, 0, None) * self.unit[str(order)]


@spec('marxs.missions.arcus.arfrmf.mkarf', prop='P35', also=(('P14', ''),),
      opaque=('marxs.missions.arcus.arfrmf.OnCCD.__init__', 'marxs.missions.arcus.arfrmf.OnCCD.__call__', 'marxs.missions.arcus.arfrmf.MirrGrat.__init__',
              'marxs.missions.arcus.arfrmf.MirrGrat.__call__', 'marxs.missions.arcus.arfrmf.FiltersQE.__call__',
              'marxs.missions.arcus.arcus.FiltersAndQE.__init__'))
def arf(channel_edges, order, mirr_grat=None, trans_filters_qe=None, conf=defaultconf, channels=list(defaultconf['pos_opt_ax'].keys())):
    edges = np.sort(channel_edges.to(u.keV, equivalencies=u.spectral()))
    mid = 0.5 * (edges[:-1] + edges[1:])
    onccd = OnCCD(conf)
    if mirr_grat is None:
        mirr_grat = MirrGrat(QTable.read(os.path.join(config['data']['caldb_inputdata'], 'aeff', 'mirr_grat.tab'), format='ascii.ecsv'))
    if trans_filters_qe is None:
        trans_filters_qe = FiltersQE(kwargs_interp1d={'bounds_error': False, 'fill_value': 0.})
    filt = trans_filters_qe(mid)
    sim = mirr_grat(mid, order)
    on = np.zeros(len(filt))
    for chan in channels:
        if chan not in conf['pos_opt_ax'].keys():
            raise ValueError('channel not defined')
        on += onccd(mid, order, chan)
    arf = ogip.ARF(data=[edges[:-1], edges[1:], sim * filt * on, sim, filt, on, edges[1:].to(u.Angstrom, equivalencies=u.spectral()),
                         edges[:-1].to(u.Angstrom, equivalencies=u.spectral())],
                   names=['ENERG_LO', 'ENERG_HI', 'SPECRESP', 'MIRROR_GRAT', 'FILTERS_QE', 'ONCCD', 'BIN_LO', 'BIN_HI'])
    arf.meta['ARCCHAN'] = ''.join(np.isin(list(conf['pos_opt_ax'].keys()), channels).astype(int).astype(str))
    tagversion(arf, ORDER=order)
    return arf


@spec('marxs.missions.arcus.arfrmf.mkrmf0', prop='P35', also=(('P14', ''),),
      opaque=('marxs.reduction.ogip.RMF.ebounds_from_edges', 'marxs.reduction.ogip.RMF.arr_to_rmf_matrix_row'))
def rmf0(bin_edges, *, ccdfwhm, threshold=1e-6):
    from sherpa.models import NormGauss1D
    eb = ogip.RMF.ebounds_from_edges(bin_edges)
    matrix = Table(names=['ENERG_LO', 'ENERG_HI', 'N_GRP', 'F_CHAN', 'N_CHAN', 'MATRIX'],
                   data=[np.zeros(len(eb), dtype=d) for d in [np.float32, np.float32, np.int16, object, object, object]],
                   units=[u.keV, u.keV, None, None, None, None])
    matrix['ENERG_LO'] = eb['E_MIN']
    matrix['ENERG_HI'] = eb['E_MAX']
    matrix.meta['DETCHANS'] = len(bin_edges) - 1
    matrix.meta['LO_THRES'] = threshold
    matrix.meta['TLMIN{}'.format(matrix.colnames.index('F_CHAN') + 1)] = 0
    eb.meta['TLMIN{}'.format(eb.colnames.index('CHANNEL') + 1)] = 0
    for tab in [eb, matrix]:
        tab = tagversion(tab, ORDER=0)
    for r, mid in enumerate(0.5 * (eb['E_MIN'] + eb['E_MAX'])):
        func = NormGauss1D('name')
        func.pos = mid
        func.FWHM = np.interp(mid, ccdfwhm['energy'], ccdfwhm['FWHM'].to(u.keV))
        out = ogip.RMF.arr_to_rmf_matrix_row(func(eb['E_MIN'], eb['E_MAX']), 0, threshold=threshold)
        for i, col in enumerate(['N_GRP', 'F_CHAN', 'N_CHAN', 'MATRIX']):
            matrix[col][r] = out[i]
    return ogip.RMF(matrix, eb, CHANTYPE='PHA', HDUCLAS3='REDIST')


# ---------------------------------------------------------------- grids of simulations

@spec('marxs.missions.arcus.analyze_grid.zeropos', prop='P35', also=(('P28', ''),))
def zero(coord, channel, conf=defaultconf):
    if coord == 'circ_phi':
        return np.arcsin(conf['pos_opt_ax'][channel][0] / conf['rowland_detector'].r)
    if coord == 'circ_y':
        return -conf['pos_opt_ax'][channel][1]
    if coord == 'proj_y':
        return conf['pos_opt_ax'][channel][1]
    if coord == 'proj_x':
        return conf['pos_opt_ax'][channel][0]
    raise NotImplementedError


@spec('marxs.missions.arcus.analyze_grid.analyze_sim', prop='P35', also=(('P28', ''),),
      opaque=('marxs.base.base.check_meta_consistent', 'marxs.base.base.check_energy_consistent', 'marxs.missions.arcus.analyze_grid.zeropos'))
def simana(photons, orders, reference_meta, conf):
    n = len(list(id_num_offset.values()))
    photons['aper_id'] = np.digitize(photons['xou'], bins=list(id_num_offset.values()))
    if reference_meta is not None:
        check_meta_consistent(photons.meta, reference_meta)
    check_energy_consistent(photons)
    names = list(id_num_offset.keys())
    res = np.zeros((n, len(orders)))
    aeff = np.zeros_like(res) * u.cm**2
    for a in range(1, n + 1):
        pa = photons[(photons['aper_id'] == a) & (photons['order_L1'] == 0)]
        cap = CaptureResAeff_CCDgaps(A_geom=photons.meta['A_GEOM'] * u.cm**2, order_col='order', orders=orders, dispersion_coord='circ_phi',
                                     zeropos=zeropos('circ_phi', names[a - 1], conf), aeff_filter_col='CCD')
        out = cap(pa, n_photons=int(pa.meta['EXPOSURE']))
        res[a - 1, :] = out['R']
        aeff[a - 1, :] = out['Aeff']
    return res, aeff


@spec('marxs.missions.arcus.analyze_grid.aeffRfromraygrid', prop='P35', also=(('P28', ''),),
      opaque=('marxs.missions.arcus.analyze_grid.analyze_sim', 'marxs.analysis.gratings.average_R_Aeff'))
def raygrid(inpath, conf, orders=np.arange(-15, 5), allow_inconsistent_meta=False):
    files = glob.glob(os.path.join(inpath, 'wave*.fits'))
    files.sort()
    r0 = Table.read(files[0])
    energies = np.zeros(len(files)) * u.keV
    res = np.zeros((len(files), 4, len(orders)))
    aeff = np.zeros_like(res) * u.cm**2
    for i, f in enumerate(files):
        obs = Table.read(f)
        ri, ai = analyze_sim(obs, orders, None if allow_inconsistent_meta else r0.meta, conf)
        res[i, :, :] = ri
        aeff[i, :, :] = ai
        energies[i] = obs.meta['ENERGY'] * u.keV
    wave = energies.to(u.Angstrom, equivalencies=u.spectral())
    res4, aeff4 = average_R_Aeff(res, aeff, axis=1)
    non0 = orders != 0
    resd, aeffd = average_R_Aeff(res4[:, non0], aeff4[:, non0], axis=1)
    res4.fill_value = np.nan
    out = QTable([energies, wave, aeff, res, aeff4, res4.filled(np.nan), aeffd, resd],
                 names=['energy', 'wave', 'Aeff', 'R', 'Aeff4', 'R4', 'Aeff_disp', 'R_disp'])
    out.meta = r0.meta
    for i, o in enumerate(orders):
        out.meta['ORDER_{}'.format(i)] = o
    return out


@spec('marxs.missions.arcus.analyze_grid.orders_from_meta', prop='P35')
def ordmeta(meta):
    out = []
    i = 0
    while 'ORDER_{}'.format(i) in meta:
        out.append(meta['ORDER_{}'.format(i)])
        i += 1
    return np.array(out)


@spec('marxs.missions.arcus.analyze_grid.csv_per_order', prop='P35', opaque=('marxs.missions.arcus.analyze_grid.orders_from_meta',))
def csvorder(infile, col, outfile):
    tab = Table.read(infile)
    out = Table(tab[col], names=['order_{0}'.format(o) for o in orders_from_meta(tab.meta)])
    out.add_column(tab['wave'], index=0)
    out.write(outfile, format='ascii.csv', overwrite=True)


@spec('marxs.missions.arcus.analyze_grid.tg_resolve_events_circdet', prop='P35', tab='evt', opaque=('marxs.missions.arcus.load_csv.load_table',))
def tgresolve(evt, defaultconf):
    facets = load_table('gratings', 'facets')
    period = np.cos(defaultconf['blazeang'] * u.degree) * np.mean(facets['period']) * facets['period'].unit
    r0 = zeropos('circ_phi', evt.meta['CHANNEL'], defaultconf) * u.rad
    evt['tg_r'] = (-(r0 - evt['circ_phi']) / 2).to(u.degree)
    dist = 2 * defaultconf['rowland_central'].r * u.mm * np.cos(r0 - evt['circ_phi'])
    dy = defaultconf['pos_opt_ax'][evt.meta['CHANNEL']][1] * u.mm - evt['circ_y']
    evt['tg_d'] = np.arctan(dy / dist).to(u.degree)
    evt['tg_mlam'] = (period * np.sin(evt['tg_r'])).to(u.Angstrom)


# ---------------------------------------------------------------- defaults

@spec('marxs.missions.arcus.defaults.DefaultSource.__init__', prop='P35', noreturn=True, opaque=('marxs.source.basesources.PointSource.__init__',))
def defsource(self, **kwargs):
    from marxs.missions.arcus.defaults import sourcekwargs
    for k in sourcekwargs:
        if k not in kwargs:
            kwargs[k] = sourcekwargs[k]
    super().__init__(**kwargs)


@spec('marxs.missions.arcus.defaults.DefaultPointing.__init__', prop='P35', noreturn=True,
      opaque=('marxs.source.pointing.JitterPointing.__init__', 'marxs.missions.arcus.load_csv.load_number'))
def defpointing(self, **kwargs):
    from marxs.missions.arcus.defaults import pointingkwargs
    for k in pointingkwargs:
        if k not in kwargs:
            kwargs[k] = pointingkwargs[k]
    if 'jitter' not in kwargs:
        kwargs['jitter'] = load_number('other', 'pointingjitter', 'FWHM') / 2.3545
    super().__init__(**kwargs)


# ---------------------------------------------------------------- Lynx and AXIS

@spec('marxs.missions.lynx.lynx.add_rowland_to_conf', prop='P35', dicts=('conf',), opaque=('marxs.design.rowland.design_tilted_torus',))
def addrowland(conf):
    conf['alpha'] = conf['alphafac'] * conf['blazeang']
    conf['beta'] = conf['betafac'] * conf['blazeang']
    R, r, pos4d = design_tilted_torus(conf['design_tilted_torus'], conf['alpha'], conf['beta'])
    conf['rowland'] = RowlandTorus(R, r, pos4d=pos4d)
    conf['blazemat'] = transforms3d.axangles.axangle2mat(np.array([0, 0, 1]), -conf['blazeang'])


@spec('marxs.missions.lynx.lynx.LynxGAS.__init__', prop='P35', noreturn=True, opaque=('marxs.design.rowland.CircularMeshGrid.__init__',))
def lynxgas(self, conf):
    gg = conf['gas_kwargs']
    gg['rowland'] = conf['rowland']
    gg['d_element'] = conf['grating_size'] + 2 * conf['grating_frame']
    gg['radius'] = [np.min(conf['metashellgeometry']['r_inner']), np.max(conf['metashellgeometry']['r_outer'])]
    gg['elem_args']['zoom'] = [1., conf['grating_size'][0] / 2., conf['grating_size'][1] / 2.]
    gg['elem_args']['orientation'] = conf['blazemat']
    super().__init__(**gg)
    for e in self.elements:
        e.display = copy.deepcopy(e.display)
        ang = np.arctan2(e.pos4d[1, 3], e.pos4d[2, 3]) % np.pi
        e.display['color'] = 'rgb'[int(ang / np.pi * 3)]


@spec('marxs.missions.lynx.lynx.PerfectLynx.add_mirror', prop='P35', opaque=('marxs.missions.lynx.mirror.MetaShellAperture.__init__', 'marxs.missions.lynx.mirror.MetaShell.__init__'))
def lynxmirror(self, conf):
    return [MetaShellAperture(conf), MetaShell(conf)]


@spec('marxs.missions.lynx.lynx.PerfectLynx.add_gas', prop='P35', opaque=('marxs.missions.lynx.lynx.LynxGAS.__init__',))
def lynxaddgas(self, conf):
    return [LynxGAS(conf), catsupportbars]


@spec('marxs.missions.lynx.lynx.PerfectLynx.add_detectors', prop='P35', opaque=('marxs.missions.lynx.lynx.RowlandDetArray.__init__',))
def lynxdets(self, conf):
    from marxs.missions.lynx.lynx import RowlandDetArray, detcirc, flatdet
    micro = FlatDetector(zoom=[1, 50, 50])
    micro.loc_coos_name = ['microcal_x', 'microcal_y']
    micro.detpix_name = ['microcalpix_x', 'microcalpix_y']
    proj2 = analysis.ProjectOntoPlane()
    proj2.loc_coos_name = ['projcirc_y', 'projcirc_z']
    return [RowlandDetArray(conf), analysis.ProjectOntoPlane(), Propagator(distance=-1000), detcirc, proj2, Propagator(distance=-1000), flatdet,
            Propagator(distance=-1000), micro]


@spec('marxs.missions.lynx.lynx.PerfectLynx.__init__', prop='P35', noreturn=True,
      opaque=('marxs.missions.lynx.lynx.PerfectLynx.add_mirror', 'marxs.missions.lynx.lynx.PerfectLynx.add_gas', 'marxs.missions.lynx.lynx.PerfectLynx.add_detectors',
              'marxs.missions.lynx.lynx.PerfectLynx.post_process', 'marxs.simulator.simulator.Sequence.__init__',
              'marxs.design.bendgratings.chirp_gratings', 'marxs.design.bendgratings.NumericalChirpFinder.__init__'))
def perfectlynx(self, conf={}, **kwargs):
    from marxs.missions.lynx.lynx import filterqe, tagversion, detcirc
    elem = self.add_mirror(conf)
    elem.extend(self.add_gas(conf))
    elem.append(filterqe)
    elem.extend(self.add_detectors(conf))
    elem.append(tagversion)
    super().__init__(elements=elem, postprocess_steps=self.post_process(), **kwargs)
    if ('chirp_energy' in conf) and ('chirp_order' in conf):
        grats = self.elements_of_class(NonParallelCATGrating, subclass_ok=False)
        opt = NumericalChirpFinder(detcirc, order=conf['chirp_order'], energy=conf['chirp_energy'], d=conf['gas_kwargs']['elem_args']['d'])
        chirp_gratings(grats, opt, conf['gas_kwargs']['elem_args']['d'])


@spec('marxs.missions.lynx.lynx.Lynx.__init__', prop='P35', noreturn=True, also=(('P09', ''),),
      opaque=('marxs.missions.lynx.lynx.PerfectLynx.__init__', 'marxs.design.tolerancing.moveglobal', 'marxs.design.tolerancing.wiggle',
            'marxs.simulator.simulator.Sequence.elements_of_class', 'marxs.simulator.simulator.BaseContainer.elements_of_class'))
def lynx(self, conf={}, **kwargs):
    super().__init__(conf=conf, **kwargs)
    for row in conf['alignmentbudget']:
        elem = self.elements_of_class(row[0])
        if row[1] == 'global':
            tol.moveglobal(elem, *row[3])
        elif row[1] == 'individual':
            tol.wiggle(elem, *row[3])
        else:
            raise NotImplementedError('not implemented')


@spec('marxs.missions.lynx.mirror.MetaShellAperture.__init__', prop='P35', noreturn=True, opaque=('marxs.optics.aperture.MultiAperture.__init__',))
def metaaper(self, conf, **kwargs):
    geom = conf['metashellgeometry']
    kwargs['elements'] = [optics.CircleAperture(position=[conf['focallength'] + 200, 0, 0], zoom=[1, s['r_outer'], s['r_outer']],
                                                r_inner=s['r_inner'], id_num=s['Metashell Serial Number']) for s in geom]
    kwargs['id_col'] = 'shell'
    super().__init__(**kwargs)
    disp = {'color': (0.0, 0.75, 0.75), 'opacity': 0.3, 'shape': 'triangulation', 'outer_factor': 1.3, 'inner_factor': 1.}
    for i in range(len(self.elements) - 1):
        self.elements[i].display = deepcopy(disp)
        self.elements[i].display['outer_factor'] = 1.0 * geom['r_inner'][i + 1] / geom['r_outer'][i]
    self.elements[0].display['inner_factor'] = 0
    self.elements[-1].display = deepcopy(disp)
    self.elements[-1].display['outer_factor'] = 1.5


@spec('marxs.missions.lynx.mirror.MetaShell.__init__', prop='P35', noreturn=True,
      opaque=('marxs.missions.lynx.mirror.MetaShellMirror.__init__', 'marxs.missions.lynx.mirror.MetaShellEfficiency.__init__'))
def metashell(self, conf):
    super().__init__(elements=[MetaShellMirror(conf), MetaShellEfficiency(conf)])


@spec('marxs.missions.AXIS.AXIS.PerfectAXIS.add_mirror', prop='P35', opaque=('marxs.missions.lynx.mirror.MetaShellAperture.__init__', 'marxs.missions.lynx.mirror.PerfectLensSegment.__init__'))
def axismirror(self, conf):
    from marxs.missions.AXIS.AXIS import MirrorGeometricScaling
    return [MetaShellAperture(conf), PerfectLensSegment(conf, position=[conf['focallength'], 0, 0], zoom=[1, 1000, 1000]), MirrorGeometricScaling(conf),
            optics.RadialMirrorScatter(inplanescatter=conf['inplanescatter'], perpplanescatter=conf['perpplanescatter'],
                                       position=[conf['focallength'], 0, 0], zoom=[1, 1000, 1000])]


@spec('marxs.missions.AXIS.AXIS.PerfectAXIS.add_detectors', prop='P35', opaque=('marxs.missions.AXIS.AXIS.RowlandDetArray.__init__',))
def axisdets(self, conf):
    from marxs.missions.AXIS.AXIS import RowlandDetArray, detcirc, flatdet, imaging
    proj2 = analysis.ProjectOntoPlane()
    proj2.loc_coos_name = ['projcirc_y', 'projcirc_z']
    return [RowlandDetArray(conf), imaging, analysis.ProjectOntoPlane(), Propagator(distance=-1000), detcirc, proj2, Propagator(distance=-1000), flatdet]


@spec('marxs.missions.AXIS.AXIS.PerfectAXIS.__init__', prop='P35', noreturn=True,
      opaque=('marxs.missions.AXIS.AXIS.PerfectAXIS.add_mirror', 'marxs.missions.AXIS.AXIS.PerfectAXIS.add_gas', 'marxs.missions.AXIS.AXIS.PerfectAXIS.add_detectors',
              'marxs.missions.AXIS.AXIS.PerfectAXIS.post_process', 'marxs.simulator.simulator.Sequence.__init__',
              'marxs.design.bendgratings.chirp_gratings', 'marxs.design.bendgratings.NumericalChirpFinder.__init__', 'marxs.missions.arcus.arcus.FiltersAndQE.__init__'))
def perfectaxis(self, conf={}, gratings=True, **kwargs):
    from marxs.missions.AXIS.AXIS import tagversion, detcirc
    elem = self.add_mirror(conf)
    if gratings:
        elem.extend(self.add_gas(conf))
    elem.append(FiltersAndQE())
    elem.extend(self.add_detectors(conf))
    elem.append(tagversion)
    super().__init__(elements=elem, postprocess_steps=self.post_process(), **kwargs)
    if ('chirp_energy' in conf) and ('chirp_order' in conf):
        grats = self.elements_of_class(NonParallelCATGrating, subclass_ok=False)
        opt = NumericalChirpFinder(detcirc, order=conf['chirp_order'], energy=conf['chirp_energy'], d=conf['gas_kwargs']['elem_args']['d'])
        chirp_gratings(grats, opt, conf['gas_kwargs']['elem_args']['d'])


@spec('marxs.missions.AXIS.AXIS.AXISForPlot.add_detectors', prop='P35', opaque=('marxs.missions.AXIS.AXIS.RowlandDetArray.__init__',))
def axisplot(self, conf):
    from marxs.missions.AXIS.AXIS import RowlandDetArray, imaging
    micro = FlatDetector(zoom=[1, 15, 15])
    micro.loc_coos_name = ['zero_x', 'zero_y']
    micro.detpix_name = ['zero_x', 'zero_y']
    return [RowlandDetArray(conf), imaging]


@spec('marxs.missions.arcus.arcus.DetMany.__init__', prop='P35', noreturn=True, opaque=('marxs.design.rowland.RectangularGrid.__init__',))
def detmany(self, conf, **kwargs):
    super().__init__(rowland=conf['rowland_detector'], elem_class=self.elem_class, elem_args=self.elem_args, d_element=self.d_element,
                     y_range=self.y_range, id_num_offset=1, id_col='CCD', guess_distance=-25.)
