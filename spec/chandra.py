"""The Chandra model (P36)."""
import numpy as np
import astropy.units as u
from astropy import time
from astropy.table import Table
from astropy.units import Quantity
from astropy.utils.data import get_pkg_data_filename
from transforms3d.affines import compose
from transforms3d.axangles import axangle2mat
from transforms3d.euler import euler2mat
from transforms3d.quaternions import mat2quat
from transforms3d.utils import normalized_vector

from marxs.math.utils import h2e
from marxs import optics
from marxs.optics import FlatGrating, OrderSelector
from marxs.missions.chandra.data import NOMINAL_FOCALLENGTH, TDET, ODET, PIXSIZE, PIX_CORNER_LSI_PAR, TLMINMAX, chip2tdet
from marxs.missions.chandra.det_acis import ACISChip, ACIS_name
from marxs.missions.chandra.fitsheaders import (complete_header, update_header, complete_CC, complete_T, complete_O, add_evt_column_header,
                                                DMKEYWORDS)
from marxs.missions.chandra.hrma_py import mirror_radii


# ---------------------------------------------------------------- dither

@spec('marxs.missions.chandra.dither.LissajousDither.__init__', prop='P36', noreturn=True)
def dither_init(self, **kwargs):
    self.DitherAmp = kwargs.pop('DitherAmp', np.array([8., 8., 0.]) * u.arcsec)
    self.DitherPeriod = kwargs.pop('DitherPeriod', np.array([1000., 707., 1e5]) * u.s)
    self.DitherPhase = kwargs.pop('DitherPhase', np.zeros(3) * u.radian)
    super().__init__(**kwargs)


@spec('marxs.missions.chandra.dither.LissajousDither.dither', prop='P36')
def dither(self, time):
    wave = np.sin(2. * np.pi * u.radian * time[:, None] * u.s / self.DitherPeriod + self.DitherPhase)
    return self.DitherAmp * wave / np.array([np.cos(self.coords.icrs.dec), 1., 1.])


@spec('marxs.missions.chandra.dither.LissajousDither.pointing', prop='P36', opaque=('marxs.missions.chandra.dither.LissajousDither.dither',))
def dither_pointing(self, time):
    nominal = Quantity([self.coords.ra, self.coords.dec, self.roll])
    off = self.dither(time)
    roll = nominal[2] + off[:, 2]
    phi = nominal[0]
    theta = np.pi / 2. * u.rad - nominal[1]
    e_nominal = np.array([np.sin(phi) * np.sin(theta), np.cos(phi) * np.sin(theta), np.cos(theta)])
    phi2 = nominal[0] + off[:, 0]
    theta2 = np.pi / 2. * u.rad - (nominal[1] + off[:, 1])
    e_dither = np.vstack([np.sin(phi2) * np.sin(theta2), np.cos(phi2) * np.sin(theta2), np.cos(theta2)]).T
    out = np.zeros_like(off.value)
    const = False
    if np.allclose(roll.to(u.rad).value, roll[0].to(u.rad).value):
        mat = axangle2mat(e_nominal, -roll[0].to(u.rad).value, is_normalized=True)
        const = True
    for i in range(len(time)):
        if not const:
            mat = axangle2mat(e_nominal, -roll[i].to(u.rad).value, is_normalized=True)
        out[i, :] = np.dot(mat, e_dither[i, :].value)
    return np.vstack([np.arctan2(out[:, 0], out[:, 1]) % (2. * np.pi), np.pi / 2. - np.arccos(out[:, 2]), roll.to(u.rad).value]).T


@spec('marxs.missions.chandra.dither.LissajousDither.photons_dir', prop='P36', opaque=('marxs.missions.chandra.dither.LissajousDither.pointing',))
def dither_dir(self, coos, time):
    ra = coos.ra.rad
    dec = coos.dec.rad
    point = self.pointing(time)
    out = np.zeros((len(ra), 4))
    out[:, 0] = -np.cos(dec) * np.cos(ra)
    out[:, 1] = -np.cos(dec) * np.sin(ra)
    out[:, 2] = -np.sin(dec)
    for i in range(len(ra)):
        mat = euler2mat(point[i, 0], -point[i, 1], -point[i, 2], 'rzyx')
        out[i, :3] = np.dot(mat.T, out[i, :3])
    return np.einsum('...ij,...j->...i', self.reference_transform, out)


@spec('marxs.missions.chandra.dither.LissajousDither.write_asol', prop='P36',
      opaque=('marxs.missions.chandra.dither.LissajousDither.pointing', 'marxs.missions.chandra.fitsheaders.complete_header'))
def asol(self, photons, asolfile, timestep=0.256):
    t = np.arange(0, photons.meta['EXPOSURE'][0], timestep)
    point = np.rad2deg(self.pointing(t))
    asol = Table([t, point[:, 0], point[:, 1], point[:, 2]], names=['time', 'ra', 'dec', 'roll'])
    asol['time'].unit = 's'
    for col in ['ra_err', 'dec_err', 'roll_err', 'dy', 'dz', 'dtheta', 'dy_err', 'dz_err', 'dtheta_err',
                'roll_bias', 'pitch_bias', 'yaw_bias', 'roll_bias_err', 'pitch_bias_err', 'yaw_bias_err']:
        asol[col] = np.zeros_like(t)
        if 'bias' in col:
            asol[col].unit = 'deg / s'
        elif ('dy' in col) or ('dz' in col):
            asol[col].unit = 'mm'
        else:
            asol[col].unit = 'deg'
    asol['q_att'] = [mat2quat(euler2mat(np.deg2rad(p[0]), np.deg2rad(-p[1]), np.deg2rad(-p[2]), 'rzyx')) for p in point]
    for k in photons.meta:
        if ('TYP' not in k) and ('FORM' not in k) and ('TCR' not in k) and ('TCDEL' not in k) and (k not in asol.meta):
            asol.meta[k] = photons.meta[k]
    asol.meta['EXTNAME'] = 'ASPECT'
    complete_header(asol.meta, None, 'ACASOL', ['OGIP', 'TEMPORALDATA', 'ASPECT'])
    asol['time'] += asol.meta['TSTART'][0]
    asol.write(asolfile, format='fits')


# ---------------------------------------------------------------- ACIS

@spec('marxs.missions.chandra.det_acis.ACISChip.__init__', prop='P36', noreturn=True)
def chip_init(self, **kwargs):
    self.TDET = TDET['ACIS']
    self.ODET = ODET['ACIS']
    self.pixsize_in_rad = np.deg2rad(PIXSIZE['ACIS'])
    kwargs['ignore_pixel_warning'] = True
    super().__init__(**kwargs)


@spec('marxs.missions.chandra.det_acis.ACISChip.chip_name', prop='P36')
def chip_name(self):
    return 'ACIS-{0}'.format(ACIS_name[self.id_num])


@spec('marxs.missions.chandra.data.chip2tdet', prop='P36')
def tdet(chip, tdet, id_num):
    th = tdet['theta'][id_num]
    rot = np.array([[np.cos(th), np.sin(th)], [-np.sin(th), np.cos(th)]])
    return tdet['scale'][id_num] * tdet['handedness'][id_num] * np.dot(rot, (chip - 0.5).T).T + (tdet['origin'][id_num] + 0.5)


@spec('marxs.missions.chandra.det_acis.ACISChip.specific_process_photons', prop='P36', opaque=('marxs.missions.chandra.data.chip2tdet',))
def chip(self, photons, intersect, interpos, intercoos):
    chip = intercoos[intersect, :] / self.pixsize + self.centerpix + 1
    tdet = chip2tdet(chip, self.TDET, self.id_num)
    pos = h2e(interpos[intersect, :])
    mn = pos
    mn[:, 0] -= NOMINAL_FOCALLENGTH
    x = mn[:, 1] / mn[:, 0] / self.pixsize_in_rad
    y = mn[:, 2] / mn[:, 0] / self.pixsize_in_rad
    th = np.deg2rad(photons.meta['ROLL_PNT'][0])
    photons.meta['ACSYS1'] = ('CHIP:AXAF-ACIS-1.0', 'reference for chip coord system')
    photons.meta['ACSYS2'] = ('TDET:{0}'.format(self.TDET['version']), 'reference for tiled detector coord system')
    photons.meta['ACSYS3'] = ('DET:ASC-FP-1.1', 'reference for focal plane coord system')
    photons.meta['ACSYS4'] = ('SKY:ASC-FP-1.1', 'reference for sky coord system')
    return {'chipx': chip[:, 0], 'chipy': chip[:, 1], 'tdetx': tdet[:, 0], 'tdety': tdet[:, 1],
            'detx': self.ODET[0] - x, 'dety': self.ODET[1] + y,
            'x': self.ODET[0] - x * np.cos(th) + y * np.sin(th),
            'y': self.ODET[1] + x * np.sin(th) + y * np.cos(th)}


@spec('marxs.missions.chandra.det_acis.ACIS.__init__', prop='P36', noreturn=True, opaque=('marxs.missions.chandra.det_acis.ACIS.calculate_elempos',))
def acis_init(self, chips, **kwargs):
    self.aimpoint = kwargs.pop('aimpoint')
    self.detoffset = np.array([kwargs.pop('DetOffsetX', 0), 0, kwargs.pop('DetOffsetY', 0)])
    kwargs['elem_pos'] = self.calculate_elempos()
    kwargs['elem_class'] = ACISChip
    kwargs['elem_args'] = {'pixsize': 0.024}
    super().__init__(**kwargs)
    self.chips = chips
    self.elements = [self.elements[i] for i in chips]


@spec('marxs.missions.chandra.det_acis.ACIS.get_corners', prop='P36')
def corners(self):
    t = Table.read(PIX_CORNER_LSI_PAR, format='ascii')
    out = []
    for chip in ACIS_name:
        coos = {}
        for c in ['LL', 'LR', 'UR', 'UL']:
            row = t[t['col1'] == 'ACIS-{0}-{1}'.format(chip, c)]
            coos[c] = np.array([float(v) for v in row['col4'][0][1:-1].split()])
        out.append(coos)
    return out


@spec('marxs.missions.chandra.det_acis.ACIS.calculate_elempos', prop='P36', opaque=('marxs.missions.chandra.det_acis.ACIS.get_corners',))
def acis_pos(self):
    corners = self.get_corners()
    out = []
    for i, n in enumerate(ACIS_name):
        p0 = corners[i]['LL']
        ey = corners[i]['LR'] - p0
        ez = corners[i]['UL'] - p0
        a = np.eye(4)
        a[:3, :3] = np.vstack([normalized_vector(np.cross(ey, ez)), ey / 2, ez / 2]).T
        a[:3, 3] = p0 + 0.5 * ey + 0.5 * ez
        a[:3, 3] += self.OLSI
        a[:3, 3] += self.aimpoint
        a[:3, 3] -= self.detoffset
        out.append(a)
    return out


@spec('marxs.missions.chandra.det_acis.ACIS.__call__', prop='P36', tab=('photons',))
def acis(self, photons, *args, **kwargs):
    photons = super().__call__(photons, *args, **kwargs)
    photons.meta['SIM_X'] = self.aimpoint[0] - self.detoffset[0]
    photons.meta['SIM_Y'] = self.aimpoint[1] - self.detoffset[1]
    photons.meta['SIM_Z'] = self.aimpoint[2] - self.detoffset[2]
    photons.meta['DETNAM'] = 'ACIS-' + ''.join([str(i) for i in self.chips])
    photons.meta['INSTRUME'] = ('ACIS', 'Instrument')
    return photons


# ---------------------------------------------------------------- mirror and gratings

@spec('marxs.missions.chandra.hrma_py.Aperture.__init__', prop='P36', noreturn=True)
def aper(self, **kwargs):
    if 'id_col' not in kwargs:
        kwargs['id_col'] = 'mirror_shell'
    if 'elements' not in kwargs:
        kwargs['elements'] = [optics.CircleAperture(position=[NOMINAL_FOCALLENGTH, 0, 0], zoom=[1, r[1], r[1]], r_inner=r[0]) for r in mirror_radii]
    super().__init__(**kwargs)


@spec('marxs.missions.chandra.hrma_py.HRMA.__init__', prop='P36', noreturn=True)
def hrma(self, **kwargs):
    kwargs['position'] = [NOMINAL_FOCALLENGTH, 0, 0]
    kwargs['zoom'] = [1, 650., 650]
    kwargs['elements'] = [optics.PerfectLens, optics.RadialMirrorScatter, optics.EnergyFilter]
    kwargs['keywords'] = [{'focallength': NOMINAL_FOCALLENGTH},
                          {'inplanescatter': 3.6e-6 * u.rad, 'perpplanescatter': 1.2e-6 * u.rad},
                          {'filterfunc': lambda x: np.ones_like(x) * 0.66, 'name': 'support spider, reflectivity, et al.'}]
    super().__init__(**kwargs)


@spec('marxs.missions.chandra.hess.HETG.__init__', prop='P36', noreturn=True, opaque=('marxs.missions.chandra.hess.HETG.calculate_elempos',))
def hetg(self, **kwargs):
    self.hess = Table.read(get_pkg_data_filename('HESSdesign.rdb'))
    kwargs['elem_pos'] = self.calculate_elempos()
    kwargs['elem_class'] = FlatGrating
    ul = np.vstack([self.hess[s + 'ul'].data for s in 'xyz'])
    y = np.vstack([self.hess[s + 'uyf'].data for s in 'xyz'])
    x = np.vstack([self.hess[s + 'uxf'].data for s in 'xyz'])
    ang = -np.arctan2(np.einsum('i...,i...->...', ul, x), np.einsum('i...,i...->...', ul, y))
    kwargs['elem_args'] = {'order_selector': OrderSelector(np.arange(-3, 4)), 'd': [4001.95 * 1e-7] * 192 + [2000.81 * 1e-7] * 144,
                           'name': list(self.hess['hessloc']), 'groove_angle': ang.tolist()}
    super().__init__(**kwargs)
    move = np.eye(4)
    move[:, 3] = [8618., -650 * np.sin(np.deg2rad(60)), 650 * np.cos(np.deg2rad(60)), 1.]
    self.move_center(move)


@spec('marxs.missions.chandra.hess.HETG.calculate_elempos', prop='P36')
def hetg_pos(self):
    hess = self.hess
    cen = np.vstack([hess[s + 'c'].data for s in 'xyz'])
    cen[0, :] += (339.909 - 1.7) * 25.4
    norm = np.vstack([hess[s + 'u'].data for s in 'xyz'])
    x = np.vstack([hess[s + 'uxf'].data for s in 'xyz'])
    y = np.vstack([hess[s + 'uyf'].data for s in 'xyz'])
    out = []
    for i in range(norm.shape[1]):
        if int(self.hess['hessloc'][i][0]) <= 3:
            zoom = np.array([1, 1.035 * 25.4 / 2, 1.035 * 25.4 / 2])
        else:
            zoom = np.array([1, 0.920 * 25.4 / 2, 0.920 * 25.4 / 2])
        rot = np.eye(3)
        rot[:, 0] = norm[:, i]
        rot[:, 1] = x[:, i]
        rot[:, 2] = y[:, i]
        out.append(compose(cen[:, i], rot, zoom))
    return out


# ---------------------------------------------------------------- event files

@spec('marxs.missions.chandra.chandra_global.Chandra.__call__', prop='P36', tab=('photons',))
def chandra(self, photons):
    photons.meta['MISSION'] = ('AXAF', 'Mission')
    photons.meta['TELESCOP'] = ('CHANDRA', 'Telescope')
    return super().__call__(photons)


@spec('marxs.missions.chandra.chandra_global.Chandra.write_evt', prop='P36', opaque=('marxs.missions.chandra.fitsheaders.complete_header',))
def write_evt(self, photons, filename):
    photons.meta['EXTNAME'] = 'EVENTS'
    photons.rename_column('ra', 'marxs_ra')
    photons.rename_column('dec', 'marxs_dec')
    complete_header(photons.meta, photons, 'EVT1', ['OGIP', 'EVENTS', 'ALL'])
    photons.write(filename, format='fits')


@spec('marxs.missions.chandra.fitsheaders.update_header', prop='P36')
def upd_header(header, h):
    for e in h:
        if e[0] not in header:
            header[e[0]] = e[1]


@spec('marxs.missions.chandra.fitsheaders.complete_CC', prop='P36', opaque=('marxs.missions.chandra.fitsheaders.update_header',))
def cc(header, content, hduclass):
    h = [('ORIGIN', 'ASC'), ("HDUDOC", "ASC-FITS-2.0: Rots, McDowell: ASC FITS File Designers Guide"), ("CONTENT", content), ("HDUNAME", header['EXTNAME'])]
    for a, b in zip(['HDUCLASS', 'HDUCLAS1', 'HDUCLAS2', 'HDUCLAS3'], hduclass):
        h += [(a, b)]
    update_header(header, h)


@spec('marxs.missions.chandra.fitsheaders.complete_O', prop='P36', opaque=('marxs.missions.chandra.fitsheaders.update_header',))
def obs(header):
    update_header(header, [("MISSION", ("AXAF", "Mission is AXAF")), ("TELESCOP", ("CHANDRA", "TELESCOPE is Chandra")), ("GRATING", ("NONE", "Grating")),
                           ('DATACLASS', ('SIMULATED', 'see http://marxs.rtfd.org')), ('ONTIME', (header['EXPOSURE'][0], 'Sum of GTIs')),
                           ('DTCOR', (1., 'Dead Time Correction')), ('LIVETIME', (header['EXPOSURE'][0], 'Ontime multiplied by DTCOR')),
                           ('OBSERVER', ('MARXS', 'This is a simulation.')), ('FOC_LEN', (NOMINAL_FOCALLENGTH, 'Assumed focal length'))])


@spec('marxs.missions.chandra.fitsheaders.complete_T', prop='P36', opaque=('marxs.missions.chandra.fitsheaders.update_header',))
def timing(header):
    now = time.Time.now()
    now.format = 'fits'
    end = now + header['EXPOSURE'][0] * u.s
    h = [
        ('DATE', (now.value[:23], 'Date and time of file creation {0}'.format(now.value[23:]))),
        ('DATE-OBS', (now.value[:23], 'TT with clock correction if CLOCKAPP')),
        ('DATE-END', (end.value[:23], 'TT with clock correction if CLOCKAPP')),
        ("TIMESYS", ("TT", "AXAF time will be Terrestrial Time")),
        ("MJDREF", (50814, "MJD of clock start")),
        ("TIMEZERO", (0, "Clock Correction")),
        ("TIMEUNIT", 's'),
        ("BTIMNULL", (0., "Basic Time offset (s)")),
        ("BTIMRATE", (2.5625000912249E-01, "Basic Time clock rate (s / VCDUcount)")),
        ("BTIMDRFT", (2.1806598193841E-17, "Basic Time clock drift (s / VCDUcount^2)")),
        ("BTIMCORR", (0.0000000000000E+00, "Correction applied to Basic Time rate (s)")),
        ("TIMEREF", ("LOCAL", "Time is local for data")),
        ("TASSIGN", ("SATELLITE", "Source of time assignment")),
        ("CLOCKAPP", (True, "Clock correction applied")),
        ("TIERRELA", (1e-9, "Short term clock stability")),
        ("TIERABSO", (1e-4, "Absolute precision of clock correction")),
        ("TIMVERSN", ("ASC-FITS-2.1", "AXAF Fits design document")),
        ("TIMEPIXR", (0., "Time stamp refers to start of bin")),
        ("TIMEDEL", (3.241, "Time resolution of data in seconds")),
        ]
    update_header(header, h)
    start = time.Time(header['DATE-OBS'][0], format='fits')
    start.format = 'cxcsec'
    header["TSTART"] = (start.value, "As in the TIME column: raw space craft clock;")
    header['TSTOP'] = ((start + header['EXPOSURE'][0] * u.s).value, "  add TIMEZERO and MJDREF for absolute TT")
    header['OBS-MJD'] = start.mjd


@spec('marxs.missions.chandra.fitsheaders.add_evt_column_header', prop='P36')
def evthead(header, data):
    for k in list(header):
        if k[:5] in ['TCTYP', 'TCRVL', 'TCDLT', 'TCRPX', 'TLMIN', 'TLMAX']:
            del header[k]
    instr = header['INSTRUME'][0]
    if instr not in TLMINMAX.keys():
        raise KeyError('not specified')
    up = [c.upper() for c in data.colnames]
    if len(set(data.colnames)) != len(set(up)):
        raise KeyError('not unique')
    tl = TLMINMAX[instr]
    odet = ODET[instr]
    for i, k in enumerate(data.colnames):
        if k.upper() in tl:
            header['TLMIN{0}'.format(i + 1)] = tl[k.upper()][0]
            header['TLMAX{0}'.format(i + 1)] = tl[k.upper()][1]
    for k in DMKEYWORDS:
        header[k[0]] = k[1]
    ix = up.index('X') + 1
    header['TCTYP{0}'.format(ix)] = 'RA---TAN'
    header['TCRVL{0}'.format(ix)] = header['RA_PNT']
    header['TCDLT{0}'.format(ix)] = -PIXSIZE[instr]
    header['TCRPX{0}'.format(ix)] = odet[0]
    iy = up.index('Y') + 1
    header['TCTYP{0}'.format(iy)] = 'DEC--TAN'
    header['TCRVL{0}'.format(iy)] = header['DEC_PNT']
    header['TCDLT{0}'.format(iy)] = PIXSIZE[instr]
    header['TCRPX{0}'.format(iy)] = odet[1]
    header['RADECSYS'] = ('ICRS', 'WCS system')


@spec('marxs.missions.chandra.fitsheaders.complete_header', prop='P36',
      opaque=('marxs.missions.chandra.fitsheaders.add_evt_column_header', 'marxs.missions.chandra.fitsheaders.complete_CC', 'marxs.missions.chandra.fitsheaders.complete_T', 'marxs.missions.chandra.fitsheaders.complete_O'))
def header(header, data=None, content='UNKNOWN', hduclass=['UNKNOWN']):
    if content.upper().startswith('EVT'):
        add_evt_column_header(header, data)
    complete_CC(header, content=content, hduclass=hduclass)
    complete_T(header)
    complete_O(header)


@spec('marxs.missions.chandra.fitsheaders.sort_columns', prop='P36')
def sortcol(photons):
    names = photons.colnames
    both = set([c[:-1] for c in names if c[-1] == 'x']).intersection(set([c[:-1] for c in names if c[-1] == 'y']))
    other = set(names) - set([c + 'x' for c in both]) - set([c + 'y' for c in both])
    both = list(both)
    low = [c.lower() for c in both]
    first = []
    for c in ['chip', 'tdet', 'det', '']:
        if c in low:
            i = low.index(c)
            first.append(both.pop(i))
            low.pop(i)
    first.extend(both)
    out = []
    for c in first:
        out.extend([c + 'x', c + 'y'])
    for p in [('ra', 'dec'), ('RA', 'DEC'), ('ra', 'de'), ('RA', 'DE')]:
        if p[0] in other and p[1] in other:
            other -= set(p)
            out.extend(p)
    other = list(other)
    other.sort()
    out.extend(other)
    return photons[out]
