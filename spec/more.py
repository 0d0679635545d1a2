"""Further parts of missions, tolerancing plots, displays and pointing models."""
import datetime
import logging
import os
import string
from copy import deepcopy
from os.path import join as pjoin

import numpy as np
import astropy.units as u
import matplotlib
import matplotlib.pyplot as plt
from astropy.table import Table, Column

from marxs import analysis, optics, simulator
from marxs.design import tolerancing as tol
from marxs.design.bendgratings import NumericalChirpFinder, chirp_gratings
from marxs.design.rowland import RowlandTorus
from marxs.design.tolerancing import select_1dof_changed
from marxs.math.utils import xyz2zxy
from marxs.missions.arcus.arfrmf import filename_from_meta
from marxs.missions.arcus.utils import tagversion, config
from marxs.missions.lynx.lynx import LynxGAS, RowlandDetArray
from marxs.missions.mitsnl.catgrating import NonParallelCATGrating, catsupportbars
from marxs.optics import FlatDetector, PerfectLens
from marxs.reduction.lsfparm import flatten_sherpa_model
from marxs.visualization.threejs import materialspec


# ---------------------------------------------------------------- AXIS and Lynx

@spec('marxs.missions.AXIS.AXIS.PerfectAXIS.add_gas', prop='P35', opaque=('marxs.missions.AXIS.AXIS.LynxGAS.__init__', 'marxs.missions.lynx.lynx.LynxGAS.__init__'))
def axisgas(self, conf):
    from marxs.missions.AXIS.AXIS import LynxGAS
    return [LynxGAS(conf), catsupportbars]


@spec('marxs.missions.AXIS.AXIS.PerfectAXIS.post_process', prop='P35', also=(('P36', ''),))
def axispost(self):
    self.KeepPos = simulator.KeepCol('pos')
    return [self.KeepPos]


@spec('marxs.missions.lynx.lynx.PerfectLynx.post_process', prop='P35')
def lynxpost(self):
    self.KeepPos = simulator.KeepCol('pos')
    return [self.KeepPos]


@spec('marxs.missions.lynx.lynx.LynxForPlot.add_detectors', prop='P35', opaque=('marxs.missions.lynx.lynx.RowlandDetArray.__init__',))
def lynxplotdet(self, conf):
    micro = FlatDetector(zoom=[1, 50, 50])
    micro.loc_coos_name = ['microcal_x', 'microcal_y']
    micro.detpix_name = ['microcalpix_x', 'microcalpix_y']
    return [RowlandDetArray(conf), micro]


@spec('marxs.missions.AXIS.AXIS.AXIS.__init__', prop='P35', noreturn=True, also=(('P09', ''),),
      opaque=('marxs.missions.AXIS.AXIS.PerfectAXIS.__init__', 'marxs.design.tolerancing.moveglobal', 'marxs.design.tolerancing.wiggle',
            'marxs.simulator.simulator.Sequence.elements_of_class', 'marxs.simulator.simulator.BaseContainer.elements_of_class'))
def axis(self, conf={}, **kwargs):
    super().__init__(conf=conf, **kwargs)
    for row in conf['alignmentbudget']:
        elem = self.elements_of_class(row[0])
        if row[1] == 'global':
            tol.moveglobal(elem, *row[3])
        elif row[1] == 'individual':
            tol.wiggle(elem, *row[3])
        else:
            raise NotImplementedError('not implemented')


# ---------------------------------------------------------------- Arcus

@spec('marxs.missions.arcus.arcus.Det16.__init__', prop='P35', noreturn=True, opaque=('marxs.missions.arcus.arcus.DetMany.__init__',))
def det16(self, conf, theta=[3.1255, 3.1853, 3.2416, 3.301], **kwargs):
    self.theta = theta
    super().__init__(conf, **kwargs)
    assert len(self.elements) == 16
    disp = deepcopy(self.elements[0].display)
    disp['color'] = 'orange'
    for e in self.elements:
        e.display = disp


@spec('marxs.missions.arcus.load_csv.log_tab_metadata', prop='P35', noreturn=True)
def logmeta(dirname, filename):
    from marxs.missions.arcus import load_csv
    if not load_csv.hash_displayed:
        text = 'data files in {}: git hash {} (committed on {})'
        logging.info(text.format(config['data']['caldb_inputdata'], load_csv.git_hash, load_csv.git_info))
    logging.info('Loading data from {0}/{1}'.format(dirname, filename))


@spec('marxs.missions.arcus.arfrmf.write_readme', prop='P14', noreturn=True, also=(('P35', ''),),
      opaque=('marxs.missions.arcus.arfrmf.filename_from_meta', 'marxs.missions.arcus.utils.tagversion'))
def readme(osip, outpath, outroot='', ARCCHAN='all'):
    tag = Table()
    tagversion(tag)
    text = ''
    for k, v in tag.meta.items():
        if isinstance(v, str):
            text += f'{k}: {v}\n'
        else:
            text += f'{k}: {v[0]}   // {v[1]}\n'
    with open(pjoin(os.path.dirname(__file__), 'data', 'osip_template.md')) as t:
        template = string.Template(t.read())
    out = template.substitute(tagversion=text,
                              description=f'{osip.__class__}: {osip.osip_description}',
                              offsetorders=osip.offset_orders,
                              filenamemain=filename_from_meta(filetype='arf', ARCCHAN=ARCCHAN, ORDER=-4, CCDORDER=-4, TRUEORD=-4),
                              filenameupper=filename_from_meta(filetype='arf', ARCCHAN=ARCCHAN, ORDER=-4, CCDORDER=-4, TRUEORD=-5),
                              filenamelower=filename_from_meta(filetype='arf', ARCCHAN=ARCCHAN, ORDER=-4, CCDORDER=-4, TRUEORD=-3))
    with open(pjoin(outpath, 'README.md'), 'w') as f:
        f.write(out)


@spec('marxs.missions.athena.spo.SimpleSPOs.__init__', prop='P35', noreturn=True,
      opaque=('marxs.missions.athena.spo.SPOChannelMirror.__init__', 'marxs.missions.athena.spo.ScatterPerChannel.__init__', 'marxs.simulator.simulator.Sequence.__init__'))
def simplespos(self, conf, **kwargs):
    from marxs.missions.athena.spo import geometricthroughput, willingaleloss
    from marxs.missions.athena.spo import SPOChannelMirror, ScatterPerChannel, spomounting
    entrance = [0, 0, 12000]
    super().__init__(elements=[SPOChannelMirror(position=entrance, reflectivity_interpolator=conf['reflectivity_interpolator'],
                                                spo_pos4d=conf['spo_pos4d'], spo_geom=conf['spo_geom']),
                               ScatterPerChannel(position=entrance, min_id=0, max_id=10000, inplanescatter=conf['inplanescatter'],
                                                 perpplanescatter=conf['perpplanescatter'], orientation=xyz2zxy[:3, :3]),
                               spomounting, geometricthroughput, willingaleloss], **kwargs)


# ---------------------------------------------------------------- pointing

@spec('marxs.source.pointing.PointingModel.add_dir', prop='P27', also=(('P05', ''),), tab='photons', known=())
def adddir(self, photons):
    photons.add_column(Column(name='dir', length=len(photons), shape=(4,)))
    photons['dir'].unit = u.mm
    photons['dir'][:, 3] = 0


@spec('marxs.source.pointing.PointingModel.process_photons', prop='P27', tab='photons', known=(), opaque=('marxs.source.pointing.PointingModel.add_dir',))
def pointproc(self, photons):
    self.add_dir(photons)
    return photons


# ---------------------------------------------------------------- tolerancing plots

@spec('marxs.design.tolerancing.WigglePlotter.plot_wiggle', prop='P09', noreturn=True, opaque=('marxs.design.tolerancing.select_1dof_changed',
      'marxs.design.tolerancing.WigglePlotter.plot_one_line'))
def plotwiggle(self, tab, par, parlist, ax, axt=None, axes_facecolor='w', **kwargs):
    t = select_1dof_changed(tab, par, parlist)
    t.sort(par)
    bywave = t.group_by('wave')
    axlist = [ax]
    if axt is None and self.y2label is not None:
        axt = ax.twinx()
        axlist.append(axt)
    elif isinstance(axt, matplotlib.axes.SubplotBase):
        axlist.append(axt)
    for key, g in zip(bywave.groups.keys, bywave.groups):
        if par[0] == 'r':
            x = np.rad2deg(g[par].data)
        else:
            x = g[par]
        self.plot_one_line(ax, axt, key, g, x, **kwargs)
    ax.set_ylabel(self.ylabel)
    if len(axlist) > 1:
        axt.set_ylabel(self.y2label)
    if par[0] == 'd':
        ax.set_xlabel('shift [mm]')
        ax.set_title('Shift along {}'.format(par[1]))
    elif par[0] == 'r':
        ax.set_xlabel('Rotation [degree]')
        ax.set_title('Rotation around {}'.format(par[1]))
    else:
        ax.set_xlabel(par)
    for a in axlist:
        a.set_facecolor(axes_facecolor)
        a.set_axisbelow(True)
        a.grid(axis='x', c='1.0', lw=2, ls='solid')


@spec('marxs.design.tolerancing.WigglePlotter.load_and_plot', prop='P09', opaque=('marxs.design.tolerancing.WigglePlotter.plot_wiggle',))
def loadplot(self, filename, parlist=['dx', 'dy', 'dz', 'rx', 'ry', 'rz'], **kwargs):
    tab = Table.read(filename)
    if 'axes_facecolor' not in kwargs:
        for n, c in self.bg_colors.items():
            if n in filename:
                kwargs['axes_facecolor'] = c
    fig = plt.figure(figsize=(12, 8))
    fig.subplots_adjust(wspace=.6, hspace=.3)
    for i, par in enumerate(parlist):
        ax = fig.add_subplot(2, 3, i + 1)
        self.plot_wiggle(tab, par, parlist, ax, **kwargs)
    return tab, fig


@spec('marxs.design.tolerancing.DispersedWigglePlotter.plot_one_line', prop='P09', noreturn=True)
def plotone(self, ax, axt, key, g, x, R_col='Rgrat', Aeff_col='Aeffgrat'):
    ax.plot(x, g[R_col], label='{:3.1f} $\\AA$'.format(key[0]), lw=1.5)
    axt.plot(x, g[Aeff_col], ':', label='{:2.0f} $\\AA$'.format(key[0]), lw=2)


# ---------------------------------------------------------------- three.js

@spec('marxs.visualization.threejs.box', prop='P16', noreturn=True, opaque=('marxs.visualization.threejs.materialspec',), dicts=('display',))
def threebox(obj, display, outfile):
    if not ('side' in display):
        display['side'] = 'THREE.DoubleSide'
    outfile.write('''
    var geometry = new THREE.BoxGeometry( 2, 2, 2 );
    var material = new THREE.MeshStandardMaterial( {{ {materialspec} }} );
    var mesh = new THREE.Mesh( geometry, material );
    mesh.matrixAutoUpdate = false;
    mesh.matrix.set({matrix});
    scene.add( mesh );'''.format(materialspec=materialspec(display, 'MeshStandardMaterial'),
                                 matrix=', '.join([str(i) for i in obj.pos4d.flatten()])))


@spec('marxs.visualization.threejs.torus', prop='P16', noreturn=True, opaque=('marxs.visualization.threejs.materialspec',), dicts=('display',))
def threetorus(obj, display, outfile):
    theta = display.get('coo1', [0, 2 * np.pi])
    phi = display.get('coo2', [0, 2 * np.pi])
    material = materialspec(obj.display, 'MeshStandardMaterial')
    par = '{0}, {1}, {2}, {3}, {4}, {5}, {6}, {7}'.format(obj.R, obj.r, int(np.rad2deg(theta[1])), int(np.rad2deg(phi[1])),
                                                          theta[1], theta[0], phi[1], phi[0])
    rot = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1.]])
    outfile.write('''
    var geometry = new THREE.ModifiedTorusBufferGeometry({torusparameters});
    var material = new THREE.MeshStandardMaterial({{ {materialspec} }});
    var mesh = new THREE.Mesh( geometry, material );
    mesh.matrixAutoUpdate = false;
    mesh.matrix.set({matrix});
    scene.add( mesh );'''.format(materialspec=material, torusparameters=par,
                                 matrix=', '.join([str(i) for i in np.dot(obj.pos4d, rot).flatten()])))


@spec('marxs.visualization.threejs.triangulation', prop='P16', noreturn=True, opaque=('marxs.visualization.threejs.materialspec',), dicts=('display',))
def threetri(obj, display, outfile):
    xyz, triangles = obj.geometry.triangulate(display)
    material = materialspec(display, 'MeshStandardMaterial')
    outfile.write('// {}\n'.format(obj.name))
    outfile.write('var geometry = new THREE.BufferGeometry(); \n')
    outfile.write('var vertices = new Float32Array([')
    for row in xyz:
        outfile.write('{0}, {1}, {2},'.format(row[0], row[1], row[2]))
    outfile.write(''']);
    // itemSize = 3 because there are 3 values (components) per vertex
    geometry.addAttribute( 'position', new THREE.BufferAttribute( vertices, 3 ) );
    ''')
    outfile.write('var faces = new Uint16Array([')
    for row in triangles:
        outfile.write('{0}, {1}, {2}, '.format(row[0], row[1], row[2]))
    outfile.write(''']);
    // itemSize = 3 because there are 3 values (components) per triangle
    geometry.setIndex(new THREE.BufferAttribute( faces, 1 ) );
    ''')
    outfile.write('''var material = new THREE.MeshStandardMaterial({{ {materialspec} }});
        var mesh = new THREE.Mesh( geometry, material );
        scene.add( mesh );
        '''.format(materialspec=material))


# ---------------------------------------------------------------- Rowland channels

@spec('marxs.design.rowland.add_offset_double_rowland_channels', prop='P24', noreturn=True, dicts=('geometry',), opaque=('marxs.design.rowland.RowlandTorus.__init__',))
def offsetchannels(geometry, offsets={'1': [0, -2.5, -7.5], '1m': [0, -2.5, -2.5], '2': [0, 2.5, 2.5], '2m': [0, 2.5, 7.5]}):
    d = geometry['d']
    geometry['pos_opt_ax'] = {}
    for k in offsets:
        sign = 1 if 'm' in k else -1
        geometry['pos_opt_ax'][k] = np.array([0, sign * d, 0, 1])
    for k, v in offsets.items():
        geometry['pos_opt_ax'][k][:3] += v
    for k in geometry['pos_opt_ax']:
        shift = np.eye(4)
        shift[:, 3] = geometry['pos_opt_ax'][k][:]
        base = 'rowland_central_m' if 'm' in k else 'rowland_central'
        geometry['rowland_' + k] = RowlandTorus(geometry[base].R, geometry[base].r, pos4d=geometry[base].pos4d)
        geometry['rowland_' + k].pos4d = np.dot(shift, geometry['rowland_' + k].pos4d)


# ---------------------------------------------------------------- LSFPARM tables

@spec('marxs.reduction.lsfparm.empty_lsfparmtable', prop='P14', opaque=('marxs.reduction.lsfparm.flatten_sherpa_model',))
def emptylsf(widths, waves, model, extname, order):
    from sherpa.astro.models import Lorentz1D
    from sherpa.models import NormGauss1D
    n, m = len(widths), len(waves)
    tab = Table()
    tab.add_column(Column(data=[n], name='NUM_WIDTHS', dtype=np.int32))
    tab.add_column(Column(data=[widths], name='WIDTHS', dtype=np.float32, shape=(n), unit=u.degree))
    tab.add_column(Column(data=[m], name='NUM_LAMBDAS', dtype=np.int32))
    tab.add_column(Column(data=[waves], name='LAMBDAS', dtype=np.float32, shape=(m), unit=u.Angstrom))
    dwave = np.max(np.diff(waves)) + 1.2
    tab.add_column(Column(data=[waves - dwave], name='TG_LAM_LO', dtype=np.float32, shape=(m), unit=u.Angstrom))
    tab.add_column(Column(data=[waves + dwave], name='TG_LAM_HI', dtype=np.float32, shape=(m), unit=u.Angstrom))
    tab.add_column(Column(name='EE_FRACS', length=1, dtype=np.float32, shape=(n, m)))
    comps = flatten_sherpa_model(model)
    names = [c.name for c in comps]
    if not len(set(names)) == len(names):
        raise ValueError('names of components')
    for c in comps:
        if not isinstance(c, (NormGauss1D, Lorentz1D)):
            raise ValueError('type of components')
    for name in names:
        tab.add_column(Column(name=name + '_PARMS', length=1, dtype=np.float32, shape=(n, m, 3)))
    tab.meta['EXTNAME'] = extname
    tab.meta['CCLS0001'] = 'CPF'
    tab.meta['CDTP0001'] = 'DATA'
    tab.meta['CCNM0001'] = 'LSFPARM'
    tab.meta['RAND_TG'] = '0.0'
    tab.meta['LONGSTRN'] = 'OGIP 1.0'
    tab.meta['CREATOR'] = 'lsfparm.py'
    tab.meta['DATE'] = str(datetime.datetime.now()).replace(' ', 'T')[:19]
    tab.meta['CONTENT'] = 'CDB_' + tab.meta['EXTNAME'] + '_LSFPARM'
    tab.meta['HDUCLASS'] = 'ASC'
    tab.meta['HDUCLAS1'] = 'PARAMETERS'
    tab.meta['HDUCLAS2'] = 'PSF'
    tab.meta['HDUCLAS3'] = 'LSF'
    tab.meta['TG_M'] = order
    tab.meta['ORDER'] = order
    tab.meta['DETNAM'] = 'UNKNOWN'
    tab.meta['INSTRUME'] = 'UNKNOWN'
    tab.meta['CVSD0001'] = '1999-07-22T00:00:00'
    tab.meta['CVST0001'] = '00:00:00'
    tab.meta['TELESCOP'] = 'UNKOWN'
    tab.meta['FILTER'] = 'UNKNOWN'
    return tab


@spec('marxs.reduction.lsfparm.lsfparmtable_add_Chandra_header', prop='P14')
def lsfheader(tab, evt):
    m = tab.meta
    m['CDES0001'] = m['EXTNAME'] + ' line spread function, input for mkgrmf'
    m['DETNAM'] = evt.meta['DetectorType']
    m['INSTRUME'] = evt.meta['DetectorType'].split('-')[0]
    m['CVSD0001'] = '1999-07-22T00:00:00'
    m['CVST0001'] = '00:00:00'
    m['TELESCOP'] = 'CHANDRA'
    m['FILTER'] = 'NONE'
    m['GRATING'] = evt.meta['GratingType']
    m['GRATTYPE'] = m['EXTNAME'] if evt.meta['GratingType'] == 'HETG' else ''
    m['SHELL'] = {'MEG': '1100', 'HEG': '0011', 'LEG': '1111'}[m['EXTNAME']]
    m['CBD10001'] = 'ORDER({})'.format(m['ORDER'])
    m['CBD20001'] = 'RAND_TG({})'.format(m['RAND_TG'])
    m['CBD30001'] = 'SHELL({})'.format(m['SHELL'])
    m['CBO10001'] = 'GRATING({})'.format(m['GRATING'])
    m['CBO20001'] = 'GRATTYPE({})'.format(m['GRATTYPE'])
    m['CBO30001'] = 'TG_M({})'.format(m['TG_M'])
    return tab


@spec('marxs.reduction.lsfparm.plot_LSFfit', prop='P14', noreturn=True, opaque=('marxs.reduction.lsfparm.flatten_sherpa_model',))
def plotlsf(sdata, model, axes):
    for ax in axes:
        ax.plot(sdata.x, sdata.y, 'k', label='Data')
        ax.plot(sdata.x, model(sdata.xlo, sdata.xhi), linewidth=2, label='model')
        for m in flatten_sherpa_model(model):
            ax.plot(sdata.x, m(sdata.xlo, sdata.xhi), linewidth=2, label=m.name)
        ax.set_xlabel('wavelength [Ang]')
    axes[1].set_yscale('log')
    axes[1].set_ylim([1, np.max(sdata.y)])


@spec('marxs.optics.detector.CCDRedistNormal.__init__', prop='P25', also=(('P12', ''),), noreturn=True)
def ccdinit(self, **kwargs):
    self.tab_width = kwargs.pop('tab_width')
    if 'sigma' not in self.tab_width.colnames:
        self.tab_width = self.tab_width.copy()
        self.tab_width['sigma'] = self.tab_width['FWHM'] / self.fwhm2sig
    super().__init__(**kwargs)
