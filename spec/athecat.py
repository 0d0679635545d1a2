"""Layout of Athena with critical angle transmission gratings (P35)."""
import copy

import numpy as np

import transforms3d
from marxs import analysis, design, optics, simulator
from marxs.math.utils import xyz2zxy
from marxs.missions.arcus.arcus import FiltersAndQE
from marxs.missions.athena import spo
from marxs.missions.athena.athecat import GAS, RowlandDetArray, detcirc, flatdet, zero, tagversion

from sa.spec import spec


@spec('marxs.missions.athena.athecat.add_rowland_to_conf', prop='P35', opaque=('marxs.design.rowland.design_tilted_torus',))
def athena_rowland(conf):
    conf['alpha'] = conf['alphafac'] * conf['blazeang']
    conf['beta'] = conf['betafac'] * conf['blazeang']
    R, r, pos4d = design.rowland.design_tilted_torus(conf['design_tilted_torus'], conf['alpha'], conf['beta'])
    conf['rowland'] = design.RowlandTorus(R, r, pos4d=pos4d)
    conf['rowland'].pos4d = np.dot(xyz2zxy, conf['rowland'].pos4d)
    conf['blazemat'] = transforms3d.axangles.axangle2mat(np.array([0, 0, 1]), -conf['blazeang'])


@spec('marxs.missions.athena.athecat.RowlandDetArray.__init__', prop='P35')
def athena_dets(self, conf):
    super().__init__(rowland=conf['rowland'], **conf['det_kwargs'], guess_distance=25.)


@spec('marxs.missions.athena.athecat.GAS.__init__', prop='P35', noreturn=True, opaque=('marxs.design.rowland.CircularMeshGrid.__init__',))
def athena_gas(self, conf):
    kw = conf['gas_kwargs']
    size = conf['grating_size']
    kw['rowland'] = conf['rowland']
    kw['d_element'] = size + 2 * conf['grating_frame']
    kw['elem_args']['zoom'] = [1., size[0] / 2., size[1] / 2.]
    kw['elem_args']['orientation'] = conf['blazemat']
    super().__init__(**kw)
    for e in self.elements:
        e.display = copy.deepcopy(e.display)
        ang = np.arctan2(e.pos4d[1, 3], e.pos4d[2, 3]) % np.pi
        e.display['color'] = 'rgb'[int(ang / np.pi * 3)]


@spec('marxs.missions.athena.athecat.PerfectAthecat.add_detectors', prop='P35', opaque=('marxs.missions.athena.athecat.RowlandDetArray.__init__',))
def athena_detectors(self, conf):
    proj2 = analysis.ProjectOntoPlane(orientation=xyz2zxy[:3, :3])
    proj2.loc_coos_name = ['projcirc_y', 'projcirc_z']
    return [RowlandDetArray(conf), analysis.ProjectOntoPlane(orientation=xyz2zxy[:3, :3]), simulator.Propagator(distance=-1000),
            detcirc, proj2, simulator.Propagator(distance=-1000), flatdet, simulator.Propagator(distance=-1000), zero]


@spec('marxs.missions.athena.athecat.PerfectAthecat.post_process', prop='P35')
def athena_post(self):
    self.KeepPos = simulator.KeepCol('pos')
    return [self.KeepPos]


@spec('marxs.missions.athena.athecat.AthecatForPlot.add_detectors', prop='P35', opaque=('marxs.missions.athena.athecat.RowlandDetArray.__init__',))
def athena_plot(self, conf):
    return [RowlandDetArray(conf), zero]


@spec('marxs.missions.athena.athecat.PerfectAthecat.__init__', prop='P35', noreturn=True,
      opaque=('marxs.missions.athena.athecat.PerfectAthecat.add_detectors', 'marxs.missions.athena.athecat.PerfectAthecat.post_process',
              'marxs.missions.athena.athecat.GAS.__init__', 'marxs.missions.athena.spo.SimpleSPOs.__init__',
              'marxs.missions.arcus.arcus.FiltersAndQE.__init__', 'marxs.simulator.simulator.Sequence.__init__',
              'marxs.design.bendgratings.chirp_gratings', 'marxs.design.bendgratings.NumericalChirpFinder.__init__'))
def athena_init(self, conf={}, **kwargs):
    elem = [spo.aperture, spo.SimpleSPOs(conf)]
    if 'gas_kwargs' in conf:
        elem.append(GAS(conf))
    elem.append(FiltersAndQE())
    elem.extend(self.add_detectors(conf))
    elem.append(tagversion)
    super().__init__(elements=elem, postprocess_steps=self.post_process(), **kwargs)
    if ('chirp_energy' in conf) and ('chirp_order' in conf):
        grats = self.elements_of_class(optics.CATGrating, subclass_ok=False)
        d = conf['gas_kwargs']['elem_args']['d']
        opt = design.bendgratings.NumericalChirpFinder(detcirc, order=conf['chirp_order'], energy=conf['chirp_energy'], d=d)
        design.bendgratings.chirp_gratings(grats, opt, d)
