"""Constants: names of output columns and identification columns, numbers of the missions."""


@spec('marxs.optics.detector.CCDRedistNormal.energycol', prop='P24')
def c1():
    return 'energy_detected'


@spec('marxs.optics.detector.CCDRedistNormal.fwhm2sig', prop='P24')
def c2():
    import math
    return 2 * math.sqrt(2 * math.log(2))


@spec('marxs.optics.detector.CircularDetector.loc_coos_name', prop='P24')
def c3():
    return ['det_phi', 'det_y']


@spec('marxs.optics.detector.CircularDetector.detpix_name', prop='P24')
def c4():
    return ['detpix_x', 'detpix_y']


@spec('marxs.optics.detector.CircularDetector.centerpix', prop='P24')
def c5():
    return [0, 0]


@spec('marxs.optics.detector.FlatDetector.loc_coos_name', prop='P24')
def c6():
    return ['det_x', 'det_y']


@spec('marxs.optics.detector.FlatDetector.detpix_name', prop='P24')
def c7():
    return ['detpix_x', 'detpix_y']


@spec('marxs.missions.arcus.arcus.FocalPlaneDet.loc_coos_name', prop='P24')
def c8():
    return ['detfp_x', 'detfp_y']


@spec('marxs.missions.arcus.arcus.FocalPlaneDet.detpix_name', prop='P24')
def c9():
    return ['detfppix_x', 'detfppix_y']


@spec('marxs.math.geometry.Cylinder.loc_coos_name', prop='P12')
def c10():
    return ['phi', 'z']


@spec('marxs.math.geometry.Cylinder.shape', prop='P12')
def c11():
    return 'surface'


@spec('marxs.math.geometry.Cylinder.coos_limits', prop='P12')
def c12():
    import numpy as np
    return [np.array([-np.pi, np.pi]), np.array([-1, 1])]


@spec('marxs.math.geometry.FinitePlane.loc_coos_name', prop='P12')
def c13():
    return ['y', 'z']


@spec('marxs.math.geometry.FinitePlane.shape', prop='P12')
def c14():
    return 'box'


@spec('marxs.math.geometry.Geometry.n_points', prop='P12')
def c15():
    return 50


@spec('marxs.math.geometry.NoGeometry.shape', prop='P12')
def c16():
    return 'none'


@spec('marxs.math.geometry.PlaneWithHole.shape', prop='P12')
def c17():
    return 'triangulation'


@spec('marxs.math.geometry.PlaneWithHole.outer_factor', prop='P12')
def c18():
    return 3


@spec('marxs.math.geometry.PlaneWithHole.inner_factor', prop='P12')
def c19():
    return 0


@spec('marxs.optics.aperture.CircleAperture.default_geometry', prop='P12')
def c20():
    from marxs.math.geometry import CircularHole
    return CircularHole


@spec('marxs.optics.aperture.RectangleAperture.default_geometry', prop='P12')
def c21():
    from marxs.math.geometry import RectangleHole
    return RectangleHole


@spec('marxs.optics.base.OpticalElement.default_geometry', prop='P12')
def c22():
    from marxs.math.geometry import FinitePlane
    return FinitePlane


@spec('marxs.optics.detector.CircularDetector.default_geometry', prop='P12')
def c23():
    from marxs.math.geometry import Cylinder
    return Cylinder


@spec('marxs.missions.arcus.boom.Rod.default_geometry', prop='P12')
def c24():
    from marxs.math.geometry import Cylinder
    return Cylinder


@spec('marxs.simulator.simulator.Parallel.id_col', prop='P12')
def c25():
    return 'element'


@spec('marxs.simulator.simulator.Parallel.uncertainty', prop='P12')
def c26():
    import numpy as np
    return np.eye(4)


@spec('marxs.optics.mirror.PerfectLens.loc_coos_name', prop='P03')
def c27():
    return ['mirror_x', 'mirror_y']


@spec('marxs.optics.grating.FlatGrating.loc_coos_name', prop='P03')
def c28():
    return ['grat_y', 'grat_z']


@spec('marxs.optics.grating.FlatGrating.order_name', prop='P03')
def c29():
    return 'order'


@spec('marxs.optics.grating.FlatGrating.blaze_name', prop='P03')
def c30():
    return 'blaze'


@spec('marxs.optics.scatter.RadialMirrorScatter.inplanescattercol', prop='P03')
def c31():
    return 'inplanescatter'


@spec('marxs.optics.scatter.RadialMirrorScatter.perpplanescattercol', prop='P03')
def c32():
    return 'perpplanescatter'


@spec('marxs.optics.scatter.RandomGaussianScatter.scattername', prop='P03')
def c33():
    return 'scatter'


@spec('marxs.analysis.coords.ProjectOntoPlane.loc_coos_name', prop='P03')
def c34():
    return ['proj_x', 'proj_y']


@spec('marxs.base.base.SimulationSequenceElement.output_columns', prop='P03')
def c35():
    return []


@spec('marxs.base.base.SimulationSequenceElement.id_col', prop='P03')
def c36():
    return None


@spec('marxs.missions.arcus.arcus.ArcusForSIXTE.filter_and_qe_class', prop='P35')
def c37():
    return None


@spec('marxs.missions.arcus.arcus.DetCamera.id_col', prop='P35')
def c38():
    return 'CCD'


@spec('marxs.missions.arcus.arcus.DetCamera.d_fsupport', prop='P35')
def c39():
    return 4.0


@spec('marxs.missions.arcus.arcus.DetCamera.d_ccd', prop='P35')
def c40():
    return 2.15


@spec('marxs.missions.arcus.arcus.DetCamera.offset', prop='P35')
def c41():
    return [-5.0, 5.0]


@spec('marxs.missions.arcus.arcus.DetMany.y_range', prop='P35')
def c42():
    return [-400, 400]


@spec('marxs.missions.arcus.arcus.FiltersAndQE.filterlist', prop='P35')
def c43():
    return [('filters', 'sifilter'), ('filters', 'opticalblocking'), ('filters', 'uvblocking'), ('detectors', 'contam'), ('detectors', 'qe')]


@spec('marxs.missions.arcus.arcus.PerfectArcus.aper_class', prop='P35')
def c44():
    from marxs.missions.arcus.arcus import Aperture
    return Aperture


@spec('marxs.missions.arcus.arcus.PerfectArcus.spo_class', prop='P35')
def c45():
    from marxs.missions.arcus.arcus import SimpleSPOs
    return SimpleSPOs


@spec('marxs.missions.arcus.arcus.PerfectArcus.gratings_class', prop='P35')
def c46():
    from marxs.missions.arcus.arcus import CATGratings
    return CATGratings


@spec('marxs.missions.arcus.arcus.PerfectArcus.filter_and_qe_class', prop='P35')
def c47():
    from marxs.missions.arcus.arcus import FiltersAndQE
    return FiltersAndQE


@spec('marxs.missions.arcus.arcus.PerfectArcus.list_of_classes', prop='P35')
def c48():
    return ['aper_class', 'spo_class', 'gratings_class', 'filter_and_qe_class']


@spec('marxs.missions.arcus.boom.FourSidedBoom.l_longeron', prop='P35')
def c49():
    return 1350.5


@spec('marxs.missions.arcus.boom.FourSidedBoom.l_batten', prop='P35')
def c50():
    return 1308.0


@spec('marxs.missions.arcus.boom.FourSidedBoom.l_diag', prop='P35')
def c51():
    import numpy as np
    l_longeron = 1350.5
    l_batten = 1308.0
    return np.sqrt(l_longeron ** 2 + l_batten ** 2)


@spec('marxs.missions.arcus.boom.FourSidedBoom.d_longeron', prop='P35')
def c52():
    return 10.2


@spec('marxs.missions.arcus.boom.FourSidedBoom.d_batten', prop='P35')
def c53():
    return 8.43


@spec('marxs.missions.arcus.boom.FourSidedBoom.d_diag', prop='P35')
def c54():
    return 1.85


@spec('marxs.missions.arcus.boom.FourSidedBoom.n_bays', prop='P35')
def c55():
    return 8


@spec('marxs.missions.arcus.boom.FourSidedBoom.n_sides', prop='P35')
def c56():
    return 4


@spec('marxs.missions.arcus.boom.Rod.outcol', prop='P35')
def c57():
    return 'hitrod'


@spec('marxs.missions.arcus.boom.ThreeSidedBoom.l_longeron', prop='P35')
def c58():
    return 1.08 * 1000.0


@spec('marxs.missions.arcus.boom.ThreeSidedBoom.l_batten', prop='P35')
def c59():
    return 1.6 * 1000.0


@spec('marxs.missions.arcus.boom.ThreeSidedBoom.l_diag', prop='P35')
def c60():
    import numpy as np
    l_longeron = 1.08 * 1000.0
    l_batten = 1.6 * 1000.0
    return np.sqrt(l_longeron ** 2 + l_batten ** 2)


@spec('marxs.missions.arcus.boom.ThreeSidedBoom.d_longeron', prop='P35')
def c61():
    return 10.2


@spec('marxs.missions.arcus.boom.ThreeSidedBoom.d_batten', prop='P35')
def c62():
    return 8.0


@spec('marxs.missions.arcus.boom.ThreeSidedBoom.d_diag', prop='P35')
def c63():
    return 2.0


@spec('marxs.missions.arcus.boom.ThreeSidedBoom.n_bays', prop='P35')
def c64():
    return 10


@spec('marxs.missions.arcus.boom.ThreeSidedBoom.n_sides', prop='P35')
def c65():
    return 3


@spec('marxs.missions.arcus.boom.ThreeSidedBoom.start_bay', prop='P35')
def c66():
    return 0


@spec('marxs.missions.arcus.ralfgrating.CATWindow.id_col', prop='P35')
def c67():
    return 'facet'


@spec('marxs.missions.arcus.ralfgrating.CATfromMechanical.id_col', prop='P35')
def c68():
    return 'window'


@spec('marxs.missions.mitsnl.catgrating.L1.blaze_name', prop='P35')
def c69():
    return 'blaze_L1'


@spec('marxs.missions.mitsnl.catgrating.L1.order_name', prop='P35')
def c70():
    return 'order_L1'


@spec('marxs.missions.mitsnl.catgrating.L2Diffraction.scattername', prop='P35')
def c71():
    return 'L2Diffraction'


@spec('marxs.missions.athena.spo.ScatterPerChannel.loc_coos_name', prop='P35')
def c72():
    return ['scat_y', 'scat_z']


@spec('marxs.missions.chandra.det_acis.ACIS.OLSI', prop='P36')
def c73():
    import numpy as np
    return np.array([0.684, 0.75, 236.552])


@spec('marxs.missions.chandra.det_acis.ACIS.id_col', prop='P36')
def c74():
    return 'CCD_ID'


@spec('marxs.missions.chandra.hess.HETG.id_col', prop='P36')
def c75():
    return 'facet'


@spec('marxs.reduction.ogip.ARF.required_cols', prop='P14')
def c76():
    import numpy as np
    return [('ENERG_LO', (np.float64,), 1), ('ENERG_HI', (np.float64,), 1), ('SPECRESP', (np.float64,), 1)]


@spec('marxs.reduction.ogip.ColOrKeyTable.Column', prop='P14')
def c77():
    from marxs.reduction.ogip import ColOrKeyColumn
    return ColOrKeyColumn


@spec('marxs.reduction.ogip.PHAI.required_cols', prop='P14')
def c78():
    import numpy as np
    return [('CHANNEL', (np.int32,), 1), ('ENERG_HI', (np.float64,), 1), ('N_GRP', (np.int32,), 1), ('F_CHAN', (np.integer, object), None), ('N_CHAN', (np.integer, object), None), ('MATRIX', (np.float64, object), None)]


@spec('marxs.reduction.ogip.RMF.matrix_required_cols', prop='P14')
def c79():
    import numpy as np
    return [('ENERG_LO', (np.float64,), 1), ('ENERG_HI', (np.float64,), 1), ('N_GRP', (np.int32,), 1), ('F_CHAN', (np.int32, object), None), ('N_CHAN', (np.int32, object), None), ('MATRIX', (np.float64, object), None)]


@spec('marxs.reduction.ogip.RMF.ebounds_required_cols', prop='P14')
def c80():
    import numpy as np
    return [('CHANNEL', (np.int32,), 1), ('E_MIN', (np.float64,), 1), ('E_MAX', (np.float64,), 1)]


@spec('marxs.missions.chandra.data.NOMINAL_FOCALLENGTH', prop='P36')
def c81():
    NOMINAL_FOCALLENGTH = 10061.65
    return NOMINAL_FOCALLENGTH


@spec('marxs.missions.chandra.data.TLMINMAX', prop='P36')
def c82():
    TLMINMAX = {'ACIS': {'CCD_ID': [0, 9], 'CHIPX': [2, 1023], 'CHIPY': [2, 1023], 'TDETX': [2, 8191], 'TDETY': [2, 8191], 'DETX': [0.5, 8192.5], 'DETY': [0.5, 8192.5], 'X': [0.5, 8192.5], 'Y': [0.5, 8192.5], 'PHA': [0, 36855], 'ENERGY': [0, 1000000.0], 'FLTGRADE': [0, 255]}}
    return TLMINMAX


@spec('marxs.missions.chandra.data.AIMPOINTS', prop='P36')
def c83():
    AIMPOINTS = {'ACIS-I': [-0.782, 0, -233.592], 'ACIS-S': [-0.684, 0, -190.133], 'HRC-I': [-1.04, 0, 126.985], 'HRC-S': [-1.43, 0, 250.456]}
    return AIMPOINTS


@spec('marxs.missions.chandra.data.TDET', prop='P36')
def c84():
    import numpy as np
    TDET = {'ACIS': {'version': 'ACIS-2.2', 'theta': np.deg2rad(np.array([90.0, 270.0, 90.0, 270.0, 0, 0, 0, 0, 0, 0])), 'scale': np.ones(10), 'handedness': np.ones(10), 'origin': np.array([[3061, 5131], [5131, 4107], [3061, 4085], [5131, 3061], [791, 1702], [1833, 1702], [2875, 1702], [3917, 1702], [4959, 1702], [6001, 1702]])}}
    return TDET


@spec('marxs.missions.chandra.data.ODET', prop='P36')
def c85():
    ODET = {'ACIS': [4096.5, 4096.5]}
    return ODET


@spec('marxs.missions.chandra.data.PIXSIZE', prop='P36')
def c86():
    PIXSIZE = {'ACIS': 0.492 / 3600.0}
    return PIXSIZE


@spec('marxs.missions.chandra.det_acis.ACIS_name', prop='P36')
def c87():
    ACIS_name = ['I0', 'I1', 'I2', 'I3', 'S0', 'S1', 'S2', 'S3', 'S4', 'S5']
    return ACIS_name


@spec('marxs.missions.chandra.fitsheaders.DMKEYWORDS', prop='P36')
def c88():
    DMKEYWORDS = [('MTYPE1', 'chip'), ('MFORM1', 'chipx,chipy'), ('MTYPE2', 'tdet'), ('MFORM2', 'tdetx,tdety'), ('MTYPE3', 'det'), ('MFORM3', 'detx,dety'), ('MTYPE4', 'sky'), ('MFORM4', 'x,y'), ('MFORM5', 'RA,DEC'), ('MTYPE5', 'EQPOS')]
    return DMKEYWORDS


@spec('marxs.missions.chandra.hrma_py.mirror_radii', prop='P36')
def c89():
    import numpy as np
    mirror_radii = np.array([[598.0, 610.0], [481, 491], [424, 433], [315, 322]])
    return mirror_radii


@spec('marxs.energy2wave', prop='P25')
def c90():
    energy2wave = 1.2398419292004202e-06
    return energy2wave


@spec('marxs.design.tolerancing.reset_6d', prop='P09')
def c91():
    reset_6d = {'dx': 0.0, 'dy': 0.0, 'dz': 0.0, 'rx': 0.0, 'ry': 0.0, 'rz': 0.0}
    return reset_6d


@spec('marxs.math.utils.xyz2zxy', prop='P08')
def c92():
    import numpy as np
    xyz2zxy = np.array([[0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [1.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 1.0]])
    return xyz2zxy


@spec('marxs.missions.arcus.arcus.channels', prop='P35')
def c93():
    channels = ['1', '1m', '2', '2m']
    return channels


@spec('marxs.missions.arcus.arcus.defaultconf', prop='P35')
def c94():
    from marxs.missions.mitsnl.catgrating import CATL1L2Stack
    from marxs.optics import FlatDetector
    from marxs.missions.mitsnl.catgrating import InterpolateEfficiencyTable
    from astropy.table import QTable
    from scipy.interpolate import RectBivariateSpline
    from astropy.table import Table
    from marxs.missions.arcus.arcus import align_requirement
    from marxs.missions.arcus.utils import config
    from marxs.missions.mitsnl.catgrating import l1_order_selector
    from marxs.missions.arcus.load_csv import load_table
    import numpy as np
    import os
    from marxs.design import rowland
    from marxs.missions.athena.spo import spogeom2pos4d
    from marxs.utils import tablerows_to_2d
    import astropy.units as u
    from marxs.math.utils import xyz2zxy
    defaultconf = rowland.double_rowland_from_channel_distance(750.0, 5915.51307, 12000.0 - 123.569239)
    from marxs.design import rowland as rw
    rw.add_offset_double_rowland_channels(defaultconf)
    for k, v in defaultconf.items():
        if isinstance(v, rowland.RowlandTorus):
            v.pos4d = xyz2zxy @ v.pos4d
    for k, v in defaultconf['pos_opt_ax'].items():
        defaultconf['pos_opt_ax'][k] = xyz2zxy @ v
    defaultconf['blazeang'] = 1.8
    defaultconf['n_CCDs'] = 16
    defaultconf['phi_det_start'] = 0.024
    defaultconf['perpplanescatter'] = 1.5 / 2.3545 * u.arcsec
    defaultconf['inplanescatter'] = 7.0 / (2 * 0.68) * u.arcsec
    defaultconf['det_kwargs'] = {'elem_class': FlatDetector, 'elem_args': {'pixsize': 0.024, 'zoom': [1, 24.576, 12.288], 'orientation': np.array([[-1, 0, 0], [0, -1, 0], [0, 0, +1]])}, 'id_num_offset': 1}
    if 'data' in config:
        spogeom = load_table('spos', 'petallayout')
        spogeom['r_mid'] = (spogeom['outer_radius'] + spogeom['inner_radius']) / 2
        spo_pos4d = [np.dot(xyz2zxy, s) for s in spogeom2pos4d(spogeom)]
        defaultconf['spo_pos4d'] = spo_pos4d
        defaultconf['spo_geom'] = spogeom
        reflectivity = tablerows_to_2d(Table.read(os.path.join(config['data']['caldb_inputdata'], 'spos', 'coated_reflectivity.csv'), format='ascii.ecsv'))
        reflectivity_interpolator = RectBivariateSpline(reflectivity[0].to(u.keV), reflectivity[1].to(u.rad), reflectivity[2][0])
        defaultconf['reflectivity_interpolator'] = reflectivity_interpolator
        globalorderselector = InterpolateEfficiencyTable(Table.read(os.path.join(config['data']['caldb_inputdata'], 'gratings', 'efficiency.csv'), format='ascii.ecsv'))
        'Global instance of an order selector to use in all CAT gratings.\n\n    As long as the efficiency table is the same for all CAT gratings, it makes\n    sense to define that globally. If every grating had its own independent\n    order selector, we would have to read the selector file a few hundred times.\n    '
        defaultconf['gratinggrid'] = {'d_element': [32.0, 32.5], 'elem_class': CATL1L2Stack, 'elem_args': {'zoom': [1.0, 28.0 / 2, 28.5 / 2], 'order_selector': globalorderselector, 'l1_dims': {'bardepth': 0.0057 * u.mm, 'period': 0.005 * u.mm, 'barwidth': 0.0009 * u.mm}, 'l2_dims': {'bardepth': 0.5 * u.mm, 'period': 0.9622504 * u.mm, 'barwidth': 0.096225 * u.mm}, 'qualityfactor': {'d': 200.0 * u.um, 'sigma': 1.75 * u.um}, 'l1_order_selector': l1_order_selector}, 'parallel_spec': np.array([1.0, 0.0, 0.0, 0.0])}
        ccdfwhm = QTable.read(os.path.join(config['data']['caldb_inputdata'], 'detectors', 'ccd_2021', 'arcus_ccd_rmf_20210211.txt'), format='ascii.no_header', names=['energy', 'FWHM'])
        ccdfwhm['energy'] *= u.keV
        ccdfwhm['FWHM'] *= u.eV
        defaultconf['ccdredist'] = ccdfwhm
    defaultconf['alignmentbudget'] = align_requirement
    return defaultconf


@spec('marxs.missions.arcus.arcus.align_requirement_smith', prop='P35')
def c95():
    from marxs.missions.arcus.ralfgrating import CATWindow
    from marxs.missions.arcus.ralfgrating import CATfromMechanical
    from marxs.missions.arcus.arcus import DetCamera
    from marxs.missions.athena.spo import SPOChannelMirror
    align_requirement_smith = [[SPOChannelMirror, 'individual', [20, 100, 500, 300, 300, 10], None, 'individual SPO in petal'], [CATfromMechanical, 'global', [1000, 1000, 1000, 300, 300, 600], None, 'CAT petal to SPO petal'], [CATfromMechanical, 'individual', [1000, 1000, 200, 300.0, 180, 300], None, 'CAT windows to CAT petal'], [CATWindow, 'individual', [1000, 1000, 200, 300, 180, 300], None, 'individual CAT to window'], [DetCamera, 'global', [5000, 2000, 1000, 180, 180, 180], None, 'Camera to front assembly']]
    return align_requirement_smith


@spec('marxs.missions.arcus.arcus.align_requirement', prop='P35')
def c96():
    from marxs.missions.arcus.arcus import align_requirement_smith
    from copy import deepcopy
    align_requirement = deepcopy(align_requirement_smith)
    from marxs.missions.arcus.arcus import reformat_randall_errorbudget
    reformat_randall_errorbudget(align_requirement)
    return align_requirement


@spec('marxs.missions.arcus.utils.id_num_offset', prop='P35')
def c97():
    id_num_offset = {'1': 0, '2': 1000, '1m': 10000, '2m': 11000}
    return id_num_offset


@spec('marxs.missions.arcus.defaults.coords', prop='P35')
def c98():
    from astropy.coordinates import SkyCoord
    import astropy.units as u
    coords = SkyCoord(30.0 * u.deg, 30.0 * u.deg)
    return coords


@spec('marxs.missions.arcus.defaults.sourcekwargs', prop='P35')
def c99():
    from marxs.missions.arcus.defaults import coords
    import astropy.units as u
    sourcekwargs = {'coords': coords, 'energy': 0.5 * u.keV, 'flux': 1.0 / u.s / u.cm ** 2}
    return sourcekwargs


@spec('marxs.missions.arcus.defaults.pointingkwargs', prop='P35')
def c100():
    from marxs.missions.arcus.defaults import coords
    from marxs.math.utils import xyz2zxy
    pointingkwargs = {'coords': coords, 'reference_transform': xyz2zxy}
    return pointingkwargs


@spec('marxs.missions.mitsnl.catgrating.d', prop='P35')
def c101():
    d = 0.0002
    return d


@spec('marxs.missions.mitsnl.catgrating.l1_order_selector', prop='P35')
def c102():
    from marxs.optics import OrderSelector
    import numpy as np
    l1_order_selector = OrderSelector(orderlist=np.array([-4, -3, -2, -1, 0, 1, 2, 3, 4]), p=np.array([0.006, 0.0135, 0.022, 0.028, 0.861, 0.028, 0.022, 0.0135, 0.006]))
    return l1_order_selector


@spec('marxs.missions.mitsnl.catgrating.l1_dims', prop='P35')
def c103():
    import astropy.units as u
    l1_dims = {'bardepth': 0.004 * u.mm, 'period': 0.005 * u.mm, 'barwidth': 0.0009 * u.mm}
    return l1_dims


@spec('marxs.missions.mitsnl.catgrating.l2_dims', prop='P35')
def c104():
    import astropy.units as u
    l2_dims = {'bardepth': 0.5 * u.mm, 'period': 0.9622504 * u.mm, 'barwidth': 0.096225 * u.mm}
    return l2_dims


@spec('marxs.missions.mitsnl.catgrating.qualityfactor', prop='P35')
def c105():
    import astropy.units as u
    qualityfactor = {'d': 200.0 * u.um, 'sigma': 1.75 * u.um}
    return qualityfactor


@spec('marxs.missions.mitsnl.catgrating.l1transtab', prop='P35')
def c106():
    from astropy.table import Table
    from astropy.utils.data import get_pkg_data_filename
    l1transtab = Table.read(get_pkg_data_filename('data/SiTransmission.csv'), format='ascii.ecsv')
    return l1transtab


@spec('marxs.missions.athena.spo.spo_pos4d', prop='P35')
def c107():
    import numpy as np
    from marxs.missions.athena.spo import spogeom
    from marxs.missions.athena.spo import spogeom2pos4d
    from marxs.math.utils import xyz2zxy
    spo_pos4d = [np.dot(xyz2zxy, s) for s in spogeom2pos4d(spogeom)]
    return spo_pos4d


@spec('marxs.missions.athena.spo.spogeom', prop='P35')
def c108():
    from astropy.table import Table
    from astropy.utils.data import get_pkg_data_path
    spogeom = Table.read(get_pkg_data_path('data/xous.csv'), format='ascii.ecsv')
    spogeom['r_mid'] = (spogeom['outer_radius'] + spogeom['inner_radius']) / 2
    return spogeom


@spec('marxs.missions.athena.spo.aperture', prop='P35')
def c109():
    from marxs.optics.aperture import CircleAperture
    import numpy as np
    from marxs.missions.athena.spo import spogeom
    from marxs.math.utils import xyz2zxy
    aperture = CircleAperture(position=[0, 0, 12200], zoom=[1, np.max(spogeom['outer_radius']) * 1.05, np.max(spogeom['outer_radius']) * 1.05], orientation=xyz2zxy[:3, :3])
    return aperture


@spec('marxs.missions.lynx.lynx.conf', prop='P35')
def c110():
    from marxs.missions.mitsnl.catgrating import CATL1L2Stack
    from astropy.table import Table
    from marxs.missions.lynx.lynx import align_requirement
    from astropy.utils.data import get_pkg_data_filename
    from marxs.missions.mitsnl.catgrating import l1_order_selector
    import numpy as np
    from marxs import optics
    from marxs.missions.lynx import ralfgrating
    import astropy.units as u
    conf = {'metashellgeometry': Table.read(get_pkg_data_filename('data/metashellgeom.dat'), format='ascii.ecsv'), 'metashelleff': Table.read(get_pkg_data_filename('data/metashelleff.dat'), format='ascii.ecsv'), 'inplanescatter': 2e-06 * u.rad, 'perpplanescatter': 2e-06 * u.rad, 'blazeang': np.deg2rad(1.6), 'focallength': 10000.0, 'design_tilted_torus': 9600.0, 'alphafac': 2.2, 'betafac': 4.4, 'grating_size': np.array([20.0, 50.0]), 'grating_frame': 2.0, 'det_kwargs': {'y_range': [400, 800], 'd_element': [16.884, 16.884], 'elem_class': optics.FlatDetector, 'elem_args': {'zoom': [1, 8.192, 8.192], 'pixsize': 0.016}}, 'gas_kwargs': {'parallel_spec': np.array([0.0, 1.0, 0.0, 0.0]), 'normal_spec': np.array([0, 0, 0, 1]), 'guess_distance': 10000.0, 'elem_class': CATL1L2Stack, 'elem_args': {'d': 0.0002, 'order_selector': ralfgrating.order_selector_Si, 'l1_dims': {'bardepth': 5.7 * u.micrometer, 'period': 0.005 * u.mm, 'barwidth': 0.0005 * u.mm}, 'l2_dims': {'bardepth': 0.5 * u.mm, 'period': 0.966 * u.mm, 'barwidth': 0.05 * u.mm}, 'qualityfactor': {'d': 200.0 * u.um, 'sigma': 0 * u.um}, 'l1_order_selector': l1_order_selector}}}
    from marxs.missions.lynx.lynx import add_rowland_to_conf
    add_rowland_to_conf(conf)
    conf['alignmentbudget'] = align_requirement
    return conf


@spec('marxs.missions.lynx.lynx.conf_5050', prop='P35')
def c111():
    from marxs.missions.lynx.lynx import conf, align_requirement
    import copy
    import numpy as np
    conf_5050 = copy.copy(conf)
    conf_5050['grating_size'] = np.array([50.0, 50.0])
    conf_5050['alignmentbudget'] = align_requirement
    return conf_5050


@spec('marxs.missions.lynx.lynx.conf_chirp', prop='P35')
def c112():
    from marxs.missions.lynx.lynx import conf, align_requirement
    import copy
    import numpy as np
    conf_chirp = copy.copy(conf)
    conf_chirp['grating_size'] = np.array([80.0, 160.0])
    conf_chirp['chirp_energy'] = 0.6
    conf_chirp['chirp_order'] = -5.4
    conf_chirp['alignmentbudget'] = align_requirement
    return conf_chirp


@spec('marxs.missions.lynx.lynx.align_requirement', prop='P35')
def c113():
    from marxs.missions.lynx.lynx import align_requirement_in
    import copy
    align_requirement = copy.deepcopy(align_requirement_in)
    from marxs.missions.lynx.lynx import reformat_errorbudget
    reformat_errorbudget(align_requirement)
    return align_requirement


@spec('marxs.missions.lynx.lynx.align_requirement_in', prop='P35')
def c114():
    from marxs.missions.lynx.lynx import LynxGAS
    from marxs.missions.lynx.lynx import RowlandDetArray
    import numpy as np
    align_requirement_in = [[LynxGAS, 'global', [1, 0.5, 0.5, np.deg2rad(0.01), np.deg2rad(0.01), np.deg2rad(0.01)], None, 'CAT structure to mirrors'], [LynxGAS, 'individual', [0.1, 0.25, 0.25, np.deg2rad(0.1), np.deg2rad(0.2), np.deg2rad(0.1)], None, 'individual CAT gratings structure'], [RowlandDetArray, 'global', [0.1, 1.0, 3.0, np.deg2rad(0.5), np.deg2rad(1), np.deg2rad(0.01)], None, 'Camera to front assembly']]
    return align_requirement_in


@spec('marxs.missions.lynx.lynx.filterqe', prop='P35')
def c115():
    from marxs.missions.lynx.lynx import filterdata
    from scipy.interpolate import interp1d
    from marxs import optics
    filterqe = optics.GlobalEnergyFilter(filterfunc=interp1d(filterdata['energy'] / 1000, filterdata['Total_throughput']))
    return filterqe


@spec('marxs.missions.lynx.lynx.detcirc', prop='P35')
def c116():
    from marxs.math.geometry import Cylinder
    from marxs.missions.lynx.lynx import conf
    import numpy as np
    from marxs import optics
    detcirc = optics.CircularDetector(geometry=Cylinder.from_rowland(conf['rowland'], width=50, rotation=np.pi, kwargs={'phi_lim': [-np.pi / 2, np.pi / 2]}))
    detcirc.loc_coos_name = ['detcirc_phi', 'detcirc_y']
    detcirc.detpix_name = ['detcircpix_x', 'detcircpix_y']
    return detcirc


@spec('marxs.missions.AXIS.AXIS.conf', prop='P35')
def c117():
    from marxs.missions.mitsnl.catgrating import CATL1L2Stack
    from astropy.table import Table
    from astropy.utils.data import get_pkg_data_filename
    from marxs.missions.AXIS.AXIS import l1_order_selector
    import numpy as np
    from marxs import optics
    from marxs.missions.AXIS.AXIS import order_selector_Si
    import astropy.units as u
    conf = {'metashellgeometry': Table.read(get_pkg_data_filename('AXIS_metashellgeom.dat'), format='ascii.ecsv'), 'inplanescatter': 5e-06 * u.rad, 'perpplanescatter': 2.5e-06 * u.rad, 'mirrorcoating': 'ir_reflectivity.dat', 'mirrorgeometricscaling': 0.61, 'blazeang': np.deg2rad(1.6), 'focallength': 9000.0, 'design_tilted_torus': 8600.0, 'alphafac': 2.2, 'betafac': 4.4, 'grating_size': np.array([30.0, 60.0]), 'grating_frame': 2.0, 'det_kwargs': {'y_range': [400, 600], 'd_element': [24.576 * 2 + 0.824 * 2 + 0.5, 24.576 + 0.824 * 2 + 0.5], 'elem_class': optics.FlatDetector, 'elem_args': {'zoom': [1, 24.576, 12.288], 'pixsize': 0.024, 'orientation': np.array([[-1, 0, 0], [0, -1, 0], [0, 0, +1]])}}, 'gas_kwargs': {'parallel_spec': np.array([0.0, 1.0, 0.0, 0.0]), 'normal_spec': np.array([0, 0, 0, 1]), 'guess_distance': 9000.0, 'elem_class': CATL1L2Stack, 'elem_args': {'d': 0.0002, 'order_selector': order_selector_Si, 'l1_dims': {'bardepth': 5.7 * u.micrometer, 'period': 0.005 * u.mm, 'barwidth': 0.0007 * u.mm}, 'l2_dims': {'bardepth': 0.5 * u.mm, 'period': 0.966 * u.mm, 'barwidth': 0.07 * u.mm}, 'qualityfactor': {'d': 200.0 * u.um, 'sigma': 1.5 * u.um}, 'l1_order_selector': l1_order_selector}}}
    from marxs.missions.AXIS.AXIS import add_rowland_to_conf
    add_rowland_to_conf(conf)
    return conf


@spec('marxs.missions.AXIS.AXIS.conf_6060', prop='P35')
def c118():
    from marxs.missions.AXIS.AXIS import conf
    import copy
    import numpy as np
    conf_6060 = copy.copy(conf)
    conf_6060['grating_size'] = np.array([60.0, 60.0])
    return conf_6060


@spec('marxs.missions.AXIS.AXIS.conf_chirp', prop='P35')
def c119():
    from marxs.missions.AXIS.AXIS import conf
    import copy
    import numpy as np
    conf_chirp = copy.copy(conf)
    conf_chirp['grating_size'] = np.array([80.0, 160.0])
    conf_chirp['chirp_energy'] = 0.6
    conf_chirp['chirp_order'] = -5.4
    return conf_chirp


@spec('marxs.missions.AXIS.AXIS.l1_order_selector', prop='P35')
def c120():
    from marxs.optics import OrderSelector
    import numpy as np
    l1_order_selector = OrderSelector(orderlist=np.array([-4, -3, -2, -1, 0, 1, 2, 3, 4]), p=np.array([0.006, 0.0135, 0.022, 0.028, 0.861, 0.028, 0.022, 0.0135, 0.006]))
    return l1_order_selector


@spec('marxs.missions.AXIS.AXIS.detcirc', prop='P35')
def c121():
    from marxs.math.geometry import Cylinder
    from marxs.missions.AXIS.AXIS import conf
    import numpy as np
    from marxs import optics
    detcirc = optics.CircularDetector(geometry=Cylinder.from_rowland(conf['rowland'], width=50, rotation=np.pi, kwargs={'phi_lim': [-np.pi / 2, np.pi / 2]}))
    detcirc.loc_coos_name = ['detcirc_phi', 'detcirc_y']
    detcirc.detpix_name = ['detcircpix_x', 'detcircpix_y']
    return detcirc


@spec('marxs.reduction.lsfparm.COPY_LSFPARM_KEYWORDS', prop='P15')
def c122():
    COPY_LSFPARM_KEYWORDS = ['TELESCOP', 'INSTRUME', 'FILTER', 'DETNAM', 'RAND_TG', 'GRATING', 'GRATTYPE', 'TG_M', 'ORDER', 'SHELL']
    return COPY_LSFPARM_KEYWORDS


@spec('marxs.reduction.lsfparm.modelnames', prop='P15')
def c123():
    import re
    modelnames = re.compile('(GAUSS|LORENTZ)[0-9]+_PARMS')
    return modelnames


@spec('marxs.reduction.lsfparm.gaussn', prop='P15')
def c124():
    import re
    gaussn = re.compile('GAUSS(?P<n>[0-9]+)_PARMS')
    return gaussn


@spec('marxs.reduction.lsfparm.lorentzn', prop='P15')
def c125():
    import re
    lorentzn = re.compile('LORENTZ(?P<n>[0-9]+)_PARMS')
    return lorentzn


@spec('marxs.reduction.lsfparm.gconv', prop='P15')
def c126():
    import numpy as np
    gconv = np.array([1, 2 * np.sqrt(2 * np.log(2)), 1])
    return gconv


@spec('marxs.reduction.lsfparm.lconv', prop='P15')
def c127():
    import numpy as np
    lconv = np.array([1, 1, 1])
    return lconv


@spec('marxs.visualization.mayavi.plot_registry', prop='P16')
def c128():
    from marxs.visualization.mayavi import box
    from marxs.visualization.mayavi import container
    from marxs.visualization.mayavi import cylinder
    from marxs.visualization.mayavi import surface
    from marxs.visualization.mayavi import triangulation
    plot_registry = {'triangulation': triangulation, 'surface': surface, 'box': box, 'container': container, 'cylinder': cylinder}
    return plot_registry


@spec('marxs.visualization.threejs.plot_registry', prop='P16')
def c129():
    from marxs.visualization.threejs import box
    from marxs.visualization.threejs import container
    from marxs.visualization.threejs import torus
    from marxs.visualization.threejs import triangulation
    plot_registry = {'triangulation': triangulation, 'torus': torus, 'box': box, 'container': container}
    return plot_registry


@spec('marxs.visualization.threejsjson.plot_registry', prop='P16')
def c130():
    from marxs.visualization.threejsjson import box
    from marxs.visualization.threejsjson import container
    from marxs.visualization.threejsjson import torus
    from marxs.visualization.threejsjson import triangulation
    plot_registry = {'triangulation': triangulation, 'torus': torus, 'box': box, 'container': container}
    return plot_registry


@spec('marxs.visualization.x3d.plot_registry', prop='P16')
def c131():
    from marxs.visualization.x3d import box
    from marxs.visualization.x3d import container
    from marxs.visualization.x3d import surface
    from marxs.visualization.x3d import triangulation
    plot_registry = {'triangulation': triangulation, 'box': box, 'container': container, 'surface': surface}
    return plot_registry
