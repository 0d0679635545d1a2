"""What the settings given on construction do: every documented keyword is used, defaults are those documented, unknown
ones are an error, and validation errors are raised."""
import numpy as np
import astropy.units as u
from astropy import table
from copy import copy, deepcopy
from transforms3d.affines import compose, decompose44
from transforms3d.axangles import axangle2mat
from marxs.base import MarxsElement, SimulationSequenceElement
from marxs.base.base import _parse_position_keywords
from marxs.math.geometry import Geometry, FinitePlane, NoGeometry
from marxs.optics.base import OpticalElement, FlatOpticalElement
from marxs.optics.aperture import FlatAperture
from marxs.optics.multiLayerMirror import FlatBrewsterMirror, MultiLayerEfficiency
from marxs.visualization.utils import DisplayDict


@spec('marxs.base.base.MarxsElement.__init__', prop='P12', noreturn=True)
def marxs_element_init(self, **kwargs):
    self.name = kwargs.pop('name') if 'name' in kwargs else self.__class__
    if len(kwargs) > 0:
        raise ValueError('unknown arguments')
    self.display = DisplayDict(self, deepcopy(self.display))


@spec('marxs.base.base.MarxsElement.describe', prop='P12')
def describe(self):
    from collections import OrderedDict
    return OrderedDict(element=self.name)


@spec('marxs.optics.base.OpticalElement.__init__', prop='P12', noreturn=True)
def optical_element_init(self, **kwargs):
    geometry = kwargs.pop('geometry', self.default_geometry)
    if isinstance(geometry, Geometry):
        self.geometry = geometry
    elif issubclass(geometry, Geometry):
        self.geometry = geometry(kwargs)
    SimulationSequenceElement.__init__(self, **kwargs)
    if not hasattr(self, 'loc_coos_name'):
        self.loc_coos_name = self.geometry.loc_coos_name


@spec('marxs.optics.base.OpticalElement.pos4d', prop='P12')
def element_pos4d(self):
    return self.geometry.pos4d


@spec('marxs.optics.base.FlatStack.__init__', prop='P07', noreturn=True)
def stack_init(self, **kwargs):
    elements = kwargs.pop('elements')
    keywords = kwargs.pop('keywords')
    super().__init__(**kwargs)
    self.elements = []
    for cls, kw in zip(elements, keywords):
        self.elements.append(cls(pos4d=self.pos4d, **kw))


@spec('marxs.optics.base.FlatStack.process_photons', prop='P07')
def stack_process(self, photons, intersect=None, interpos=None, intercoos=None):
    if intersect.sum() > 0:
        photons = super().process_photons(photons, intersect, interpos, intercoos)
        for layer in self.elements:
            photons = layer.process_photons(photons, intersect, interpos, intercoos)
    return photons


@spec('marxs.math.geometry.Geometry.__init__', prop='P12', noreturn=True, dicts=('kwargs',))
def geometry_init(self, kwargs={}):
    self.pos4d = _parse_position_keywords(kwargs)
    self._geometry = copy(self._geometry)
    self.geometry = self


@spec('marxs.math.geometry.NoGeometry.__init__', prop='P12', noreturn=True)
def no_geometry_init(self, kwargs={}):
    self.geometry = self


@spec('marxs.math.geometry.CircularHole.__init__', prop='P12', noreturn=True, dicts=('kwargs',))
def circular_hole_init(self, kwargs):
    phi = kwargs.pop('phi', [0, 2. * np.pi])
    if np.max(np.abs(phi)) > 10:
        raise ValueError('degrees?')
    if phi[0] > phi[1]:
        raise ValueError('order')
    if phi[1] - phi[0] > 2 * np.pi + 1e-6:
        raise ValueError('too large')
    self.phi = phi
    super().__init__(kwargs)


@spec('marxs.math.geometry.Cylinder.__init__', prop='P12', noreturn=True, dicts=('kwargs',))
def cylinder_init(self, kwargs={}):
    limits = deepcopy(self.coos_limits)
    limits[0] = np.asanyarray(kwargs.pop('phi_lim', [-np.pi, np.pi]))
    self.coos_limits = limits
    Geometry.__init__(self, kwargs)


@spec('marxs.math.geometry.Cylinder.__getitem__', prop='P13')
def cylinder_getitem(self, value):
    if value == 'R':
        return decompose44(self.pos4d)[2][0]
    return super().__getitem__(value)


@spec('marxs.optics.filter.GlobalEnergyFilter.__init__', prop='P12', noreturn=True)
def gef_init(self, **kwargs):
    self.filterfunc = kwargs.pop('filterfunc')
    MarxsElement.__init__(self, **kwargs)


@spec('marxs.optics.filter.EnergyFilter.__init__', prop='P12', noreturn=True)
def ef_init(self, **kwargs):
    self.filterfunc = kwargs.pop('filterfunc')
    OpticalElement.__init__(self, **kwargs)


@spec('marxs.optics.mirror.ThinLens.__init__', prop='P12', noreturn=True)
def thinlens_init(self, **kwargs):
    self.focallength = kwargs.pop('focallength')
    OpticalElement.__init__(self, **kwargs)


@spec('marxs.optics.multiLayerMirror.MultiLayerEfficiency.__init__', prop='P12', noreturn=True)
def mle_init(self, **kwargs):
    self.fileName = kwargs.pop('reflFile')
    self.polFile = kwargs.pop('testedPolarization')
    OpticalElement.__init__(self, **kwargs)


@spec('marxs.optics.multiLayerMirror.MultiLayerMirror.__init__', prop='P12', noreturn=True)
def mlm_init(self, **kwargs):
    data = {'reflFile': kwargs.pop('reflFile'), 'testedPolarization': kwargs.pop('testedPolarization')}
    super().__init__(elements=[FlatBrewsterMirror, MultiLayerEfficiency], keywords=[{}, data], **kwargs)


@spec('marxs.optics.scatter.RadialMirrorScatter.__init__', prop='P12', noreturn=True)
def rms_init(self, **kwargs):
    self.inplanescatter = kwargs.pop('inplanescatter').to(u.rad).value
    self.perpplanescatter = kwargs.pop('perpplanescatter', 0. * u.rad).to(u.rad).value
    OpticalElement.__init__(self, **kwargs)


@spec('marxs.optics.scatter.RandomGaussianScatter.__init__', prop='P12', noreturn=True)
def rgs_init(self, **kwargs):
    if 'scatter' in kwargs:
        self.scatter = kwargs.pop('scatter')
    elif not hasattr(self, 'scatter'):
        raise ValueError('scatter missing')
    OpticalElement.__init__(self, **kwargs)


@spec('marxs.optics.aperture.MultiAperture.__init__', prop='P12', noreturn=True)
def multi_aperture_init(self, **kwargs):
    self.elements = kwargs.pop('elements')
    self.id_col = kwargs.pop('id_col', 'aperture')
    self.id_num_offset = kwargs.pop('id_num_offset', 0)
    super().__init__(**kwargs)
    k = 0
    for elem in self.elements:
        elem.id_col = self.id_col
        elem.id_num = self.id_num_offset + k
        k += 1


@spec('marxs.optics.aperture.FlatAperture.__call__', prop='P26')
def flat_aperture_call(self, photons):
    self.add_colpos(photons)
    n = len(photons)
    self.process_photons(photons, np.ones(n, dtype=bool), photons['pos'], np.zeros((n, 2)))
    return photons


@spec('marxs.optics.base.photonlocalcoords', prop='P13', dicts=(), call=('self', 'photons', '*rest', '**more'))
def local_coords(f, colnames=['pos', 'dir']):
    from functools import wraps

    @wraps(f)
    def wrapper(self, photons, *args, **kwargs):
        to_local = np.linalg.inv(self.pos4d)
        for n in colnames:
            photons[n] = np.einsum('...ij,...j', to_local, photons[n])
        photons = f(self, photons, *args, **kwargs)
        for n in colnames:
            photons[n] = np.einsum('...ij,...j', self.pos4d, photons[n])
        return photons
    return wrapper
