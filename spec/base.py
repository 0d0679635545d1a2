"""Bookkeeping shared by all elements: columns are created before they are written, weights are
multiplied, everything else is assigned, and only for the photons selected."""
import numpy as np
from astropy.table import Table, Row
from astropy.table.column import Column
from transforms3d import affines


@spec('marxs.optics.base._assign_col_value', prop='P01', noreturn=True)
def assign_col_value(photons, col, index, value):
    if col == 'probability':
        if np.any(value < 0) or np.any(value > 1):
            raise ValueError('range')
        photons[col][index] = photons[col][index] * value
    elif col is not None:
        photons[col][index] = value


@spec('marxs.optics.base.OpticalElement.__call__', prop='P03')
def element_call(self, photons):
    hit, point, coords = self.geometry.intersect(photons['dir'].data, photons['pos'].data)
    return self.process_photons(photons, hit, point, coords)


@spec('marxs.optics.base.OpticalElement.process_photons', prop='P03', noreturn=True, sym=('loc_coos_name', 'id_col'))
def process_photons(self, photons, intersect, interpos, intercoos):
    if intersect.sum() == 0:
        return photons
    names = self.loc_coos_name
    if names is not None:
        self.add_output_cols(photons, names)
        photons[names[0]][intersect] = intercoos[intersect, 0]
        photons[names[1]][intersect] = intercoos[intersect, 1]
    if self.id_col is not None:
        photons[self.id_col][intersect] = self.id_num
    photons['pos'][intersect] = interpos[intersect]
    return photons


@spec('marxs.base.base.SimulationSequenceElement.__init__', prop='P03', noreturn=True)
def sse_init(self, **kwargs):
    self.id_num = kwargs.pop('id_num', -9)
    if 'id_col' in kwargs:
        self.id_col = kwargs.pop('id_col')


@spec('marxs.base.base.SimulationSequenceElement.add_output_cols', prop='P03', noreturn=True, sym=('id_col',))
def add_output_cols(self, photons, colnames=[]):
    for n in self.output_columns + colnames:
        if n is None:
            continue
        n = dict(n) if isinstance(n, dict) else {'name': n, 'value': np.nan}
        if n['name'] not in photons.colnames:
            val = n.pop('value', None)
            newcol = Column(length=len(photons), **n)
            if val is not None:
                newcol[:] = val
            photons.add_column(newcol)
    if self.id_col is not None and self.id_col not in photons.colnames:
        self.add_output_cols(photons, colnames=[{'name': self.id_col, 'dtype': int, 'value': -1}])


@spec('marxs.base.base.SimulationSequenceElement.__call__', prop='P03')
def sse_call(self, photons, *args, **kwargs):
    return self.process_photons(photons, *args, **kwargs)


@spec('marxs.base.base._parse_position_keywords', prop='P08', dicts=('kwargs',))
def parse_position(kwargs):
    pos4d = kwargs.pop('pos4d', None)
    if pos4d is None:
        position = kwargs.pop('position', np.zeros(3))
        orientation = kwargs.pop('orientation', np.eye(3))
        zoom = kwargs.pop('zoom', 1.)
        if np.isscalar(zoom):
            zoom = zoom * np.ones(3)
        if len(zoom) != 3:
            raise ValueError('zoom length')
        if np.any(np.array(zoom) <= 0):
            raise ValueError('zoom sign')
        pos4d = affines.compose(position, orientation, zoom)
    elif ('position' in kwargs) or ('orientation' in kwargs) or ('zoom' in kwargs):
        raise ValueError('exclusive')
    if np.linalg.det(pos4d) == 0:
        raise ValueError('singular')
    return pos4d
