"""Containers: every element processes the photons the previous one returned, in order, with the
pre- and post-processing steps around it; placement of repeated elements is a chain of
transformations from the element outwards."""
import numpy as np
import transforms3d
from transforms3d.affines import compose
from marxs.math.geometry import decompose44
from marxs.math.utils import translation2aff, zoom2aff, mat2aff, h2e, e2h
from marxs.math.rotations import ex2vec_fix
from marxs.base import _parse_position_keywords
from marxs.math.geometry import Geometry


@spec('marxs.simulator.simulator.BaseContainer.__init__', prop='P07', noreturn=True)
def container_init(self, **kwargs):
    self.preprocess_steps = kwargs.pop('preprocess_steps', [])
    self.postprocess_steps = kwargs.pop('postprocess_steps', [])
    for elem in self.elements + self.preprocess_steps + self.postprocess_steps:
        if not callable(elem):
            raise SimulationSetupError('not callable')


@spec('marxs.simulator.simulator.BaseContainer.__call__', prop='P07')
def container_call(self, photons):
    for elem in self.elements:
        for p in self.preprocess_steps:
            p(photons)
        photons = elem(photons)
        for p in self.postprocess_steps:
            p(photons)
    return photons


@spec('marxs.simulator.simulator.BaseContainer.elements_of_class', prop='P07')
def elements_of_class(self, cls, subclass_ok=False, stop_at_first=False):
    if subclass_ok:
        same = lambda a, b: isinstance(a, b)
    else:
        same = lambda a, b: type(a) == b
    found = []
    if same(self, cls):
        found += [self]
        if stop_at_first:
            return found
    for e in self.elements:
        if hasattr(e, 'elements_of_class'):
            found += e.elements_of_class(cls, subclass_ok, stop_at_first)
        elif same(e, cls):
            found += [e]
    return found


@spec('marxs.simulator.simulator.BaseContainer.first_of_class_top_level', prop='P07')
def first_of_class(self, cls, subclass_ok=False):
    for i, e in enumerate(self.elements):
        if subclass_ok:
            same = lambda a, b: isinstance(a, b)
        else:
            same = lambda a, b: type(a) == b
        if same(e, cls):
            return i
        elif hasattr(e, 'elements_of_class') and len(e.elements_of_class(cls, subclass_ok)) > 0:
            return i
    return None


@spec('marxs.simulator.simulator.Sequence.__init__', prop='P07', noreturn=True)
def sequence_init(self, **kwargs):
    self.elements = kwargs.pop('elements')


@spec('marxs.simulator.simulator.Parallel.move_center', prop='P08', noreturn=True)
def move_center(self, change4d):
    self.geometry.pos4d = np.dot(change4d, self.pos4d)
    self.elem_pos = [np.dot(np.linalg.inv(change4d), p) for p in self.elem_pos]
    self.generate_elements()


@spec('marxs.simulator.simulator.Parallel.generate_elements', prop='P08', noreturn=True)
def generate_elements(self):
    self.elements = []
    for i in range(len(self.elem_pos)):
        own = {}
        for k, v in self.elem_args.copy().items():
            own[k] = v[i] if isinstance(v, list) and len(v) == len(self.elem_pos) else v
        if 'name' not in own:
            own['name'] = 'Elem {0} in {1}'.format(i, self.name)
        t_all, r_all, z_all, s_all = decompose44(_parse_position_keywords(own))
        if not np.allclose(s_all, 0.):
            raise ValueError('shear')
        t_i, r_i, z_i, s_i = decompose44(self.elem_pos[i])
        t_u, r_u, z_u, s_u = decompose44(self.elem_uncertainty[i])
        if not np.allclose(s_u, 0.):
            raise SimulationSetupError('shear')
        chain = [self.pos4d, self.uncertainty,
                 translation2aff(t_u), translation2aff(t_i), translation2aff(t_all),
                 mat2aff(r_u), mat2aff(r_i), mat2aff(r_all),
                 zoom2aff(z_u), zoom2aff(z_i), zoom2aff(z_all)]
        m = np.eye(4)
        for x in reversed(chain):
            m = np.dot(x, m)
        self.elements.append(self.elem_class(pos4d=m, id_num=self.id_num_offset + i, **own))


@spec('marxs.simulator.simulator.Parallel.__init__', prop='P08', noreturn=True,
      opaque=('marxs.simulator.simulator.Parallel.generate_elements',))
def parallel_init(self, **kwargs):
    geometry = kwargs.pop('geometry', Geometry)
    if isinstance(geometry, Geometry):
        self.geometry = geometry
    elif issubclass(geometry, Geometry):
        self.geometry = geometry(kwargs)
    self.id_num_offset = kwargs.pop('id_num_offset', 0)
    self.elem_class = kwargs.pop('elem_class')
    self.elem_args = kwargs.pop('elem_args', {}).copy()
    elem_pos = kwargs.pop('elem_pos')
    if isinstance(elem_pos, dict):
        keys = list(elem_pos.keys())
        for i in range(len(keys) - 1):
            a, b = elem_pos[keys[i]], elem_pos[keys[i + 1]]
            if not hasattr(a, '__len__') or not hasattr(b, '__len__') or len(a) != len(b):
                raise ValueError('number of entries')
        n = len(elem_pos[keys[0]])
        self.elem_pos = []
        for i in range(n):
            own = {}
            for k in keys:
                own[k] = elem_pos[k][i]
            self.elem_pos.append(_parse_position_keywords(own))
    else:
        self.elem_pos = elem_pos
    super().__init__(**kwargs)
    if 'id_col' not in self.elem_args:
        self.elem_args['id_col'] = self.id_col
    self.elem_uncertainty = [np.eye(4)] * len(self.elem_pos)
    self.generate_elements()


@spec('marxs.simulator.simulator.ParallelCalculated.calculate_elempos', prop='P08')
def calculate_elempos(self):
    out = []
    xyzw = self.get_elemxyzw()
    normals = self.get_spec('normal_spec', xyzw)
    parallels = self.get_spec('parallel_spec', xyzw, normals)
    for i in range(xyzw.shape[0]):
        out.append(compose(h2e(xyzw[i, :]), ex2vec_fix(h2e(normals[i, :]), h2e(parallels[i, :])), np.ones(3)))
    return out


@spec('marxs.simulator.simulator.ParallelCalculated.get_elemxyzw', prop='P08')
def get_elemxyzw(self):
    if callable(self.pos_spec):
        return self.pos_spec()
    return self.pos_spec


@spec('marxs.simulator.simulator.ParallelCalculated.get_spec', prop='P08')
def get_spec(self, specname, xyzw, *args, **kwargs):
    v = getattr(self, specname)
    if callable(v):
        return v(xyzw, *args, **kwargs)
    if len(v) == 4:
        if v[3] == 0:
            return np.tile(v, (xyzw.shape[0], 1))
        return e2h(h2e(xyzw) - h2e(v)[None, :], 1)
    raise ValueError('form')


@spec('marxs.simulator.simulator.ParallelCalculated.__init__', prop='P08', noreturn=True)
def parallelcalc_init(self, **kwargs):
    self.pos_spec = kwargs.pop('pos_spec')
    self.normal_spec = kwargs.pop('normal_spec')
    self.parallel_spec = kwargs.pop('parallel_spec')


@spec('marxs.simulator.simulator.KeepCol.__init__', prop='P07', noreturn=True)
def keepcol_init(self, colname):
    self.colname = colname
    self.data = []


@spec('marxs.simulator.simulator.KeepCol.__call__', prop='P07', noreturn=True)
def keepcol_call(self, photons):
    if self.colname not in photons.colnames:
        raise KeyError('no column')
    self.data.append(photons[self.colname].copy())


@spec('marxs.simulator.simulator.KeepCol.format_positions', prop='P07')
def keepcol_format(self, atol=None):
    if len(self.data) == 0:
        raise ValueError('empty')
    if self.data[0].ndim != 2 or self.data[0].shape[1] != 4:
        raise ValueError('shape')
    d = h2e(np.swapaxes(np.dstack(self.data), 1, 2))
    if atol is None:
        return d
    keep = [0]
    for i in range(1, d.shape[1]):
        if not np.allclose(d[:, keep[-1], :], d[:, i, :], atol=atol, equal_nan=True):
            keep.append(i)
    return d[:, keep, :]


@spec('marxs.simulator.simulator.Propagator.__init__', prop='P07', noreturn=True)
def propagator_init(self, **kwargs):
    self.distance = kwargs.pop('distance')


@spec('marxs.simulator.simulator.Propagator.__call__', prop='P07')
def propagator_call(self, photons):
    photons['pos'] = photons['pos'] + photons['dir'] * self.distance
    return photons


@spec('marxs.simulator.simulator.propagate', prop='P07')
def propagate(photons, d):
    photons['pos'] = photons['pos'] + photons['dir'] * d
    return photons
