"""OGIP response files (P14) and order sorting (P15)."""
import os
from datetime import datetime
from glob import glob
from os.path import join as pjoin
from warnings import warn

import numpy as np
import matplotlib.pyplot as plt
import astropy.units as u
from astropy.io import fits
from astropy.table import QTable, Table, Column
from scipy import interpolate

from marxs.base import TagVersion
from marxs.reduction import ogip
from marxs.reduction.ogip import (ARF, RMF, ColOrKeyTable, OGIPFormatError, _check_mandatory_keywords, _check_col_and_type)
from marxs.reduction.lsfparm import (make_rmf, CALDB_interp, sherpa_from_spline, flatten_sherpa_model, modelnames, gaussn, lorentzn,
                                     interp1d_2dsignature)
from marxs.analysis.plots import OrderColor


# ---------------------------------------------------------------- OGIP

@spec('marxs.reduction.ogip.filename_from_meta', prop='P14')
def filename(filetype='fits', **kwargs):
    for k in ['ORDER', 'CCDORDER', 'TRUEORD']:
        if (k in kwargs) and isinstance(kwargs[k], (int, np.integer)):
            kwargs[k] = f'{kwargs[k]:+}'
    if 'CCDORDER' in kwargs:
        name = f'_ccdord_{kwargs["CCDORDER"]}_true_{kwargs["TRUEORD"]}'
    else:
        name = f'_{kwargs["ORDER"]}'
    return name + f'.{filetype}'


@spec('marxs.reduction.ogip.ColOrKeyTable.__getitem__', prop='P14')
def cok_get(self, item):
    if isinstance(item, str) and item in self.meta:
        if item in self.colnames:
            warn(f'{item} is both in meta dict and a column.')
        return self.meta[item]
    return super().__getitem__(item)


@spec('marxs.reduction.ogip.ColOrKeyTable.__setitem__', prop='P14')
def cok_set(self, item, value):
    if isinstance(item, str) and (np.ndim(value) == 0 or np.all(np.asanyarray(value) == value[0])):
        if np.ndim(value) == 0:
            self.meta[item] = value
        else:
            self.meta[item] = value[0]
        if item in self.colnames:
            self.remove_column(item)
    else:
        super().__setitem__(item, value)
        if isinstance(item, str):
            self.meta.pop(item, None)


@spec('marxs.reduction.ogip.ColOrKeyColumn.__setitem__', prop='P14')
def cokcol_set(self, index, value):
    super().__setitem__(index, value)
    if np.all(self.data == self.data[0]):
        self._parent_table().meta[self.name] = self.data[0]
        self._parent_table().remove_column(self.name)
    else:
        if self.name not in self._parent_table().colnames:
            self._parent_table().columns[self.name] = self
            if self.name in self._parent_table().meta:
                del self._parent_table().meta[self.name]


@spec('marxs.reduction.ogip._check_mandatory_keywords', prop='P14')
def check_keys(tab, extra_keywords=[]):
    keywords = ['TELESCOP', 'INSTRUME', 'FILTER'] + extra_keywords
    ind = np.isin(keywords, list(tab.meta))
    if not np.all(ind):
        raise OGIPFormatError('Mandatory keywords missing from meta: {}'.format(np.array(keywords)[~ind]))


@spec('marxs.reduction.ogip._check_col_and_type', prop='P14')
def check_cols(tab, req):
    for col, dtype, ndim in req:
        if not ((col in tab.colnames) or (col in tab.meta)):
            raise OGIPFormatError(f'Required column {col} missing.')
        if not any([np.can_cast(tab[col].dtype, d, 'unsafe') for d in dtype]):
            raise OGIPFormatError(f'dtype for {col} must be {dtype}.')
        if not ((ndim is None) or ((ndim == 1) and (col in tab.meta)) or (tab[col].ndim == ndim)):
            raise OGIPFormatError(f'column {col} must have {ndim} dimensions.')


@spec('marxs.reduction.ogip.ARF.write', prop='P14')
def arf_write(self, *args, **kwargs):
    self.meta.update({'EXTNAME': 'SPECRESP', 'HDUCLASS': 'OGIP', 'HDUVERS': '1.1.0', 'HDUCLAS1': 'RESPONSE', 'HDUCLAS2': 'SPECRESP'})
    _check_mandatory_keywords(self)
    super().write(*args, **kwargs, format='fits')


@spec('marxs.reduction.ogip.ARF.read', prop='P14')
def arf_read(cls, *args, **kwargs):
    self = super().read(*args, format='fits', **kwargs)
    _check_col_and_type(self, self.required_cols)
    return self


@spec('marxs.reduction.ogip.RMF.__init__', prop='P14')
def rmf_init(self, matrix, ebounds, CHANTYPE=None, HDUCLAS3=None):
    self.matrix = matrix
    self.ebounds = ebounds
    for m in [self.matrix, self.ebounds]:
        m.meta['DETCHANS'] = len(self.ebounds)
        if CHANTYPE is not None:
            m.meta['CHANTYPE'] = CHANTYPE
        if HDUCLAS3 is not None:
            m.meta['HDUCLAS3'] = HDUCLAS3
    _check_col_and_type(self.matrix, self.matrix_required_cols)
    _check_col_and_type(self.ebounds, self.ebounds_required_cols)
    _check_mandatory_keywords(self.matrix, extra_keywords=['CHANTYPE'])
    _check_mandatory_keywords(self.ebounds, extra_keywords=['CHANTYPE'])


@spec('marxs.reduction.ogip.RMF.read', prop='P14')
def rmf_read(cls, rmffile):
    matrix = ColOrKeyTable.read(rmffile, format='fits', hdu='MATRIX')
    ebounds = ColOrKeyTable.read(rmffile, format='fits', hdu='EBOUNDS')
    _check_col_and_type(matrix, cls.matrix_required_cols)
    _check_col_and_type(ebounds, cls.ebounds_required_cols)
    for tab in [matrix, ebounds]:
        _check_mandatory_keywords(tab, ['CHANTYPE', 'DETCHANS'])
    return cls(matrix, ebounds)


@spec('marxs.reduction.ogip.RMF.ebounds_from_edges', prop='P14')
def ebounds_from_edges(channel_edges):
    edges = channel_edges.to(u.keV, equivalencies=u.spectral()).value
    s = np.argsort(edges)
    ebounds = ColOrKeyTable({'CHANNEL': np.arange(len(channel_edges) - 1, dtype=np.int32), 'E_MIN': edges[s][:-1], 'E_MAX': edges[s][1:]})
    for col in ['E_MIN', 'E_MAX']:
        ebounds[col].unit = u.keV
    return ebounds


@spec('marxs.reduction.ogip.RMF.write', prop='P14')
def rmf_write(self, rmffile, overwrite=False, TLMIN=None):
    _check_col_and_type(self.matrix, self.matrix_required_cols)
    _check_col_and_type(self.ebounds, self.ebounds_required_cols)
    tlm = 'TLMIN{}'.format(self.matrix.colnames.index('F_CHAN') + 1)
    tle = 'TLMIN{}'.format(self.ebounds.colnames.index('CHANNEL') + 1)
    if TLMIN is not None:
        self.matrix.meta[tlm] = TLMIN
        self.ebounds.meta[tle] = TLMIN
    _check_mandatory_keywords(self.matrix, ['CHANTYPE', 'DETCHANS', tlm])
    _check_mandatory_keywords(self.ebounds, ['CHANTYPE', 'DETCHANS', tle])
    self.matrix.meta['EXTNAME'] = 'MATRIX'
    self.matrix.meta['HDUCLASS'] = 'OGIP'
    self.matrix.meta['HDUVERS'] = '1.1.0'
    self.matrix.meta['HDUCLAS1'] = 'RESPONSE'
    self.matrix.meta['HDUCLAS2'] = 'RSP_MATRIX'
    self.ebounds.meta['EXTNAME'] = 'EBOUNDS'
    self.ebounds.meta['HDUCLASS'] = 'OGIP'
    self.ebounds.meta['HDUCLAS1'] = 'RESPONSE'
    self.ebounds.meta['HDUCLAS2'] = 'EBOUNDS'
    self.ebounds.meta['HDUVERS'] = '1.2.0'
    if self.matrix['MATRIX'].dtype == object:
        self.variable_length_to_fixed_length()
    hdulist = fits.HDUList([fits.PrimaryHDU(), fits.table_to_hdu(self.matrix), fits.table_to_hdu(self.ebounds)])
    hdulist.writeto(rmffile, overwrite=overwrite, checksum=True)


@spec('marxs.reduction.ogip.RMF.row', prop='P14')
def rmf_row(self, energy):
    with u.set_enabled_equivalencies(u.spectral()):
        rowind = (energy >= self.matrix['ENERG_LO']) & (energy < self.matrix['ENERG_HI'])
    return self.matrix[rowind.nonzero()[0][0]]


@spec('marxs.reduction.ogip.RMF.en_mid', prop='P14')
def en_mid(self):
    return 0.5 * (self.ebounds['E_MIN'] + self.ebounds['E_MAX'])


@spec('marxs.reduction.ogip.RMF.full_rmf', prop='P14')
def full_rmf(self, energy):
    rmf = np.zeros(len(self.en_mid))
    row = self.row(energy)
    tlmin = self.matrix.meta['TLMIN{}'.format(self.matrix.colnames.index('F_CHAN') + 1)]
    fchan = np.atleast_1d(row['F_CHAN'])
    nchan = np.atleast_1d(row['N_CHAN'])
    for i in range(row['N_GRP']):
        start = np.cumsum(np.concatenate(([0], nchan)))
        rmf[fchan[i] - tlmin: fchan[i] + nchan[i] - tlmin] = row['MATRIX'][start[i]: start[i + 1]]
    return self.ebounds['E_MIN'], self.ebounds['E_MAX'], rmf


@spec('marxs.reduction.ogip.RMF.rmf', prop='P14')
def rmf_rmf(self, energy):
    row = self.row(energy)
    tlmin = self.matrix.meta['TLMIN{}'.format(self.matrix.colnames.index('F_CHAN') + 1)]
    fchan = np.atleast_1d(row['F_CHAN'])
    nchan = np.atleast_1d(row['N_CHAN'])
    ind = np.concatenate([np.arange(fchan[i] - tlmin, fchan[i] + nchan[i] - tlmin) for i in range(row['N_GRP'])])
    return self.ebounds['E_MIN'][ind], self.ebounds['E_MAX'][ind], np.asanyarray(row['MATRIX'])[:len(ind)]


@spec('marxs.reduction.ogip.RMF.rmf_angstrom', prop='P14')
def rmf_angstrom(self, energy):
    en_lo, en_hi, rmf = self.rmf(energy)
    return (en_hi.to(u.Angstrom, equivalencies=u.spectral()), en_lo.to(u.Angstrom, equivalencies=u.spectral()), rmf)


@spec('marxs.reduction.ogip.RMF.arr_to_rmf_matrix_row', prop='P14')
def arr_to_row(arr, TLMIN_F_CHAN, threshold=1e-6):
    ind = arr > threshold
    start_end = np.diff(np.concatenate(([False], ind, [False]))).nonzero()[0].reshape((-1, 2))
    nchan = start_end[:, 1] - start_end[:, 0]
    fchan = start_end[:, 0] + TLMIN_F_CHAN
    assert nchan.shape == fchan.shape
    return len(fchan), list(fchan), list(nchan), list(arr[ind])


@spec('marxs.reduction.ogip.RMF.variable_length_to_fixed_length', prop='P14')
def var_to_fixed(self):
    m = self.matrix
    maxval = max(np.concatenate(m['F_CHAN']).max(), np.concatenate(m['N_CHAN']).max())
    for inttype in [np.int16, np.int32, np.int64]:
        if inttype(maxval) == maxval:
            break
    fchan = np.zeros((len(m), np.max(m['N_GRP'])), dtype=inttype)
    nchan = np.zeros_like(fchan)
    matrix = np.zeros((len(m), max([sum(r) for r in m['N_CHAN']])), dtype=np.float32)
    for i, r in enumerate(m):
        fchan[i, :len(r['F_CHAN'])] = r['F_CHAN']
        nchan[i, :len(r['N_CHAN'])] = r['N_CHAN']
        matrix[i, :len(r['MATRIX'])] = r['MATRIX']
    m['F_CHAN'] = fchan.squeeze()
    m['N_CHAN'] = nchan.squeeze()
    m['MATRIX'] = matrix


@spec('marxs.reduction.ogip.RMF.from_Gauss_sigma', prop='P14', opaque=('marxs.reduction.lsfparm.make_rmf',))
def from_gauss(bin_edges, sigmatab, threshold=1e-6,
               headerkw={'SATELLIT': 'unknown', 'TELESCOP': 'unknown', 'INSTRUME': 'unknown', 'FILTER': 'unknown'}):
    t = sigmatab.copy()
    if 'energy' in t.colnames and 'wave' not in t.colnames:
        t['wave'] = t['energy'].to(u.Angstrom, equivalencies=u.spectral())
        t['sigma_wave'] = t['wave'] * t['sigma_energy'] / t['energy']
    t.sort('wave')
    gauss = np.stack([np.ones(len(t)), t['sigma_wave'].to(u.Angstrom).value, t['wave'].to(u.Angstrom).value]).T
    lsfparm = Table({'NUM_WIDTHS': [1], 'WIDTHS': [[1.]], 'NUM_LAMBDAS': [len(t)], 'EE_FRACS': [np.ones((1, len(t)))],
                     'LAMBDAS': [t['wave']], 'GAUSS1_PARMS': [gauss[None, :, :]]}, units=[None, u.deg, None, None, u.Angstrom, None])
    tag = TagVersion(**headerkw)
    tag(lsfparm)
    return make_rmf(lsfparm[0], bin_edges.to(u.Angstrom, equivalencies=u.spectral()), 1 * u.deg, threshold=threshold, kw_interp={})


# ---------------------------------------------------------------- LSFPARM

@spec('marxs.reduction.lsfparm.flatten_sherpa_model', prop='P14', opaque=('marxs.reduction.lsfparm.flatten_sherpa_model',))
def flatten(model):
    if hasattr(model, 'parts'):
        out = []
        for p in model.parts:
            out.extend(flatten_sherpa_model(p))
        return out
    return [model]


@spec('marxs.reduction.lsfparm.make_rmf', prop='P14', opaque=('marxs.reduction.lsfparm.CALDB_interp', 'marxs.reduction.lsfparm.sherpa_from_spline'))
def make_rmf_spec(lsfparmrow, wave_edges, width, threshold=1e-6, kw_interp={}):
    from marxs.reduction.lsfparm import COPY_LSFPARM_KEYWORDS
    ebounds = RMF.ebounds_from_edges(wave_edges)
    matrix = Table(names=['ENERG_LO', 'ENERG_HI', 'N_GRP', 'F_CHAN', 'N_CHAN', 'MATRIX'],
                   data=[np.zeros(len(ebounds), dtype=d) for d in [np.float32, np.float32, np.int16, object, object, object]],
                   units=[u.keV, u.keV, None, None, None, None])
    matrix['ENERG_LO'] = ebounds['E_MIN']
    matrix['ENERG_HI'] = ebounds['E_MAX']
    matrix.meta['DETCHANS'] = len(wave_edges) - 1
    matrix.meta['LO_THRES'] = threshold
    matrix.meta['TLMIN{}'.format(matrix.colnames.index('F_CHAN') + 1)] = 0
    ebounds.meta['TLMIN{}'.format(ebounds.colnames.index('CHANNEL') + 1)] = 0
    for tab in [ebounds, matrix]:
        for k in COPY_LSFPARM_KEYWORDS:
            if k in lsfparmrow.meta:
                tab.meta[k] = lsfparmrow.meta[k]
    lo = matrix['ENERG_HI'].to(u.Angstrom, equivalencies=u.spectral())
    hi = matrix['ENERG_LO'].to(u.Angstrom, equivalencies=u.spectral())
    splines = CALDB_interp(lsfparmrow, **kw_interp)
    for r, wav in enumerate(0.5 * (lo + hi)):
        full = sherpa_from_spline(splines, width, wav)(lo[::-1], hi[::-1])
        out = RMF.arr_to_rmf_matrix_row(full[::-1], 0, threshold=threshold)
        for i, col in enumerate(['N_GRP', 'F_CHAN', 'N_CHAN', 'MATRIX']):
            matrix[col][r] = out[i]
    return RMF(matrix, ebounds, CHANTYPE='PHA', HDUCLAS3='REDIST')


@spec('marxs.reduction.lsfparm.CALDB_interp', prop='P14')
def caldb_interp(row, kind='cubic', **kwargs):
    out = {}
    if row['NUM_WIDTHS'] > 1:
        interp = interpolate.interp2d
    else:
        interp = interp1d_2dsignature
    for col in row.colnames:
        if col == 'EE_FRACS':
            out[col] = interp(row['WIDTHS'], row['LAMBDAS'], row[col], kind=kind, **kwargs)
        elif modelnames.match(col):
            out[col] = [interp(row['WIDTHS'], row['LAMBDAS'], row[col][:, :, i].squeeze(), kind=kind, **kwargs) for i in [0, 1, 2]]
    return out


@spec('marxs.reduction.lsfparm.sherpa_from_spline', prop='P14')
def from_spline(splines, width, wave):
    from sherpa.models import NormGauss1D, Scale1D
    from sherpa.astro.models import Lorentz1D
    from marxs.reduction.lsfparm import gconv, lconv
    model = []
    for col in splines:
        if col == 'EE_FRACS':
            eef = Scale1D(name='EE_FRACS')
            eef.c0 = splines[col](width.value, wave.value)
            eef.c0.frozen = True
        elif gaussn.match(col) or lorentzn.match(col):
            if gaussn.match(col):
                new = NormGauss1D(name=col)
                conv = gconv
            else:
                new = Lorentz1D(name=col)
                conv = lconv
            new.ampl, new.fwhm, new.pos = np.abs(np.stack([splines[col][i](width.value, wave.value) for i in [0, 1, 2]]).flatten() * conv)
            model.append(new)
    total = np.sum([m.ampl.val for m in model if isinstance(m, NormGauss1D) or isinstance(m, Lorentz1D)])
    for m in model:
        if isinstance(m, NormGauss1D) or isinstance(m, Lorentz1D):
            m.ampl.val = m.ampl.val / total
    return eef * sum(model[1:], model[0])


@spec('marxs.reduction.lsfparm.sherpa2caldb', prop='P14')
def sherpa2caldb(shmodel):
    from sherpa.models import NormGauss1D
    from sherpa.astro.models import Lorentz1D
    from marxs.reduction.lsfparm import gconv, lconv
    d = {}
    for comp in flatten_sherpa_model(shmodel):
        pars = np.array([comp.ampl.val, comp.fwhm.val, comp.pos.val])
        if isinstance(comp, NormGauss1D):
            d[comp.name] = pars / gconv
        elif isinstance(comp, Lorentz1D):
            d[comp.name] = pars / lconv
        else:
            raise Exception(f'Component {comp} not valid for LSFPARM files')
    return d


@spec('marxs.reduction.lsfparm.caldb2sherpa', prop='P14')
def caldb2sherpa(caldb, row, iwidth, iwave):
    from sherpa.astro.models import Lorentz1D
    from sherpa.models import NormGauss1D, Scale1D
    from marxs.reduction.lsfparm import gconv, lconv
    model = []
    for col in caldb.colnames:
        if col == 'EE_FRACS':
            eef = Scale1D(name='EE_FRACS')
            eef.c0 = caldb['EE_FRACS'][row][iwidth, iwave]
            eef.c0.frozen = True
        elif gaussn.match(col):
            newg = NormGauss1D(name=col)
            newg.ampl, newg.fwhm, newg.pos = caldb[col][row][iwidth, iwave, :] * gconv
            model.append(newg)
        elif lorentzn.match(col):
            newg = Lorentz1D(name=col)
            newg.ampl, newg.fwhm, newg.pos = caldb[col][row][iwidth, iwave, :] * lconv
            model.append(newg)
    total = np.sum([m.ampl.val for m in model if isinstance(m, NormGauss1D) or isinstance(m, Lorentz1D)])
    for m in model:
        if isinstance(m, NormGauss1D) or isinstance(m, Lorentz1D):
            m.ampl.val = m.ampl.val / total
    return eef * sum(model[1:], model[0])


@spec('marxs.reduction.lsfparm.interp1d_2dsignature.__init__', prop='P14')
def interp1_init(self, x, y, z, **kwargs):
    super().__init__(y, z, **kwargs)


@spec('marxs.reduction.lsfparm.interp1d_2dsignature.__call__', prop='P14')
def interp1_call(self, x, y):
    return super().__call__(y)


@spec('marxs.reduction.lsfparm.fit_LSF', prop='P14')
def fit_lsf(evt, model, wavebin=0.001, d_wave=0.03, colname='tg_mlam', stat=None, method=None):
    from sherpa.fit import Fit
    from sherpa.data import Data1DInt
    from sherpa import stats, optmethods
    if stat is None:
        stat = stats.LeastSq()
    if method is None:
        method = optmethods.LevMar()
    x = evt[colname].value
    hist, edges = np.histogram(x, weights=evt['probability'], bins=x.mean() + np.arange(- d_wave, d_wave, wavebin))
    sdata = Data1DInt('counts_histogram', edges[:-1], edges[1:], hist, staterror=np.clip(np.sqrt(hist), 1, np.inf))
    return sdata, Fit(sdata, model, stat=stat, method=method).fit()


# ---------------------------------------------------------------- OSIP

@spec('marxs.reduction.osip.OSIPBase.__init__', prop='P15')
def osip_init(self, ccd_redist, offset_orders=[-1, 0, 1], filename_from_meta=ogip.filename_from_meta):
    self.offset_orders = offset_orders
    self.ccd_redist = ccd_redist
    self.filename_from_meta = filename_from_meta


@spec('marxs.reduction.osip.OSIPBase.osip_tab', prop='P15', opaque=('marxs.reduction.osip.OSIPBase.osip_range',))
def osip_tab(self, chan_mid, order):
    r = self.osip_range(chan_mid, order).to(u.eV, equivalencies=u.spectral())
    E = chan_mid.to(u.eV, equivalencies=u.spectral())
    return (r - E) * np.array([-1, 1])[:, np.newaxis]


@spec('marxs.reduction.osip.OSIPBase.osip_range', prop='P15', opaque=('marxs.reduction.osip.OSIPBase.osip_tab',))
def osip_range(self, chan_mid, order):
    w = self.osip_tab(chan_mid, order).to(u.eV, equivalencies=u.spectral())
    E = chan_mid.to(u.eV, equivalencies=u.spectral())
    return E + w * np.array([-1, 1])[:, np.newaxis]


@spec('marxs.reduction.osip.OSIPBase.osip_factor', prop='P15')
def osip_factor(self, chan_mid_nominal, o_nominal, o_true):
    if np.sign(o_nominal) != np.sign(o_true):
        return np.zeros(len(chan_mid_nominal))
    r = self.osip_range(chan_mid_nominal, o_nominal)
    Etrue = chan_mid_nominal.to(u.eV, equivalencies=u.spectral()) * (o_true / o_nominal)
    return self.ccd_redist.cdf(r[1, :], loc=Etrue) - self.ccd_redist.cdf(r[0, :], loc=Etrue)


@spec('marxs.reduction.osip.OSIPBase.apply_osip', prop='P15')
def apply_osip(self, inputarf, outpath, order, outroot='', overwrite=False):
    arf = ogip.ARF.read(inputarf)
    try:
        arf['SPECRESP'] = arf['SPECRESP'] / arf['OSIPFAC']
    except KeyError:
        pass
    m = int(arf.meta['ORDER'])
    energies = 0.5 * (arf['ENERG_LO'] + arf['ENERG_HI'])
    fac = self.osip_factor(energies / m * order, order, m)
    arf['SPECRESP'] = fac * arf['SPECRESP']
    arf['OSIPFAC'] = fac
    arf.meta['INSTRUME'] = f'ORDER_{order}'
    arf.meta['OSIP'] = self.osip_description
    arf.meta['TRUEORD'] = f'{m}'
    arf.meta['CCDORDER'] = f'{order}'
    os.makedirs(outpath, exist_ok=True)
    arf.write(pjoin(outpath, outroot + self.filename_from_meta('arf', **arf.meta)), overwrite=overwrite)


@spec('marxs.reduction.osip.OSIPBase.apply_osip_all', prop='P15')
def apply_osip_all(self, inpath, outpath, orders, inroot='', outroot='', overwrite=False, filename_from_meta_kwargs={}):
    goodarf = None
    for order in orders:
        for t in self.offset_orders:
            if (order + t != 0) and (np.sign(order) == np.sign(order + t)):
                inputarf = pjoin(inpath, inroot + self.filename_from_meta(filetype='arf', ORDER=order + t, **filename_from_meta_kwargs))
                try:
                    self.apply_osip(inputarf, outpath, order, outroot=outroot, overwrite=overwrite)
                    goodarf = inputarf
                except FileNotFoundError:
                    continue
    if goodarf is not None:
        self.plot_summary(goodarf, orders, outpath, outroot)
        self.plot_summed_arf(outpath)


@spec('marxs.reduction.osip.OSIPBase.plot_osip', prop='P15')
def plot_osip(self, ax, grid, order, **kwargs):
    grid = grid.to(u.Angstrom, equivalencies=u.spectral())
    en = (grid / np.abs(order)).to(u.keV, equivalencies=u.spectral())
    w = self.osip_tab(en, order)
    line = ax.plot(grid, en, label=order, **kwargs)
    ax.fill_between(grid.value, (en - w[0, :]).value, (en + w[1, :]).value, color=line[0].get_color(), alpha=.2, label='__no_legend__')
    ax.set_xlabel(f'$m\\lambda$ [{grid.unit.to_string("latex_inline")}]')
    ax.set_ylabel('CCD energy [keV]')
    ax.set_xlim([grid.value.min(), grid.value.max()])
    ax.legend()
    ax.set_title('Order sorting regions')


@spec('marxs.reduction.osip.OSIPBase.plot_mixture', prop='P15')
def plot_mixture(self, ax, grid, order):
    grid = grid.to(u.Angstrom, equivalencies=u.spectral())
    ax.axhspan(1, 2, facecolor='r', alpha=.3, label='extractions overlap')
    en = (grid / np.abs(order)).to(u.keV, equivalencies=u.spectral())
    cm = self.osip_factor(en, order, order)
    ax.plot(grid, cm, label='main order', lw=2)
    for o in self.offset_orders:
        if o == 0:
            continue
        coffset = self.osip_factor(en, order, order + o)
        ax.plot(grid, coffset, label=f'contam {o}', ls={-1: '-', +1: ':'}[np.sign(o)])
        cm += coffset
    ax.plot(grid, cm, 'k', label='sum', lw=3)
    ax.set_xlabel(f'$m\\lambda$ [{grid.unit.to_string("latex_inline")}]')
    ax.set_ylabel('Fraction of photons in OSIP')
    ax.set_title(f'Order {order}')
    ax.set_xlim([grid.value.min(), grid.value.max()])
    ax.set_ylim(0, cm.max() * 1.05)
    ax.legend()


@spec('marxs.reduction.osip.OSIPBase.plot_summary', prop='P15')
def plot_summary(self, inputarf, orders, outpath, outroot=''):
    arf = ogip.ARF.read(inputarf)
    grid = (0.5 * (arf['ENERG_LO'] + arf['ENERG_HI'])).to(u.Angstrom, equivalencies=u.spectral())
    fig, axes = plt.subplots(ncols=2, figsize=(8, 4))
    oc = OrderColor(max_order=np.max(np.abs(orders)))
    for order in orders:
        self.plot_osip(axes[0], grid * abs(arf.meta['ORDER']), order, **oc(order))
    self.plot_mixture(axes[1], grid * abs(arf.meta['ORDER']), orders[len(orders) // 2])
    fig.subplots_adjust(wspace=.3)
    fig.savefig(pjoin(outpath, outroot + 'OSIP_regions.pdf'), bbox_inches='tight')


@spec('marxs.reduction.osip.OSIPBase.plot_summed_arf', prop='P15')
def plot_summed(self, path):
    wavegrid = np.arange(0, 60, .1) * u.Angstrom
    specresp = np.zeros(len(wavegrid)) * u.cm**2
    for f in glob(pjoin(path, '*.arf')):
        arf = ogip.ARF.read(f)
        specresp += np.interp(wavegrid, arf['BIN_LO'][::-1], arf['SPECRESP'][::-1])
    fig, ax = plt.subplots()
    ax.plot(wavegrid, specresp)
    ax.set_xlabel(f'$\\lambda$ [{wavegrid.unit.to_string("latex_inline")}]')
    ax.set_ylabel(f'effective area [{specresp.unit.to_string("latex_inline")}]')
    ax.set_title('Combined effective area of all dispersed orders')
    fig.savefig(pjoin(path, 'ARF_sum.pdf'), bbox_inches='tight')


@spec('marxs.reduction.osip.FixedWidthOSIP.__init__', prop='P15')
def fw_init(self, halfwidth, **kwargs):
    self.halfwidth = halfwidth
    super().__init__(**kwargs)


@spec('marxs.reduction.osip.FixedWidthOSIP.osip_description', prop='P15')
def fw_desc(self):
    return str(self.halfwidth)


@spec('marxs.reduction.osip.FixedWidthOSIP.osip_tab', prop='P15')
def fw_tab(self, chan_mid_nominal, order):
    return np.broadcast_to(self.halfwidth, (2, len(chan_mid_nominal)), subok=True)


@spec('marxs.reduction.osip.FixedFractionOSIP.__init__', prop='P15')
def ff_init(self, fraction, **kwargs):
    self.fraction = fraction
    super().__init__(**kwargs)


@spec('marxs.reduction.osip.FixedFractionOSIP.osip_description', prop='P15')
def ff_desc(self):
    return 'OSIPFrac' + str(self.fraction)


@spec('marxs.reduction.osip.FixedFractionOSIP.osip_range', prop='P15')
def ff_range(self, chan_mid_nominal, order):
    return self.ccd_redist.interval(self.fraction, loc=chan_mid_nominal)


@spec('marxs.reduction.osip.FractionalDistanceOSIP.__init__', prop='P15')
def fd_init(self, fraction=1., **kwargs):
    self.fraction = fraction
    super().__init__(**kwargs)


@spec('marxs.reduction.osip.FractionalDistanceOSIP.osip_description', prop='P15')
def fd_desc(self):
    return 'OSIPDist' + str(self.fraction)


@spec('marxs.reduction.osip.FractionalDistanceOSIP.osip_tab', prop='P15')
def fd_tab(self, chan_mid_nominal, order):
    dE = chan_mid_nominal.to(u.keV, equivalencies=u.spectral()) / abs(order)
    return np.broadcast_to(self.fraction / 2 * dE, (2, len(chan_mid_nominal)), subok=True)
