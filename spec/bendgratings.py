"""Gratings that are bent and chirped: surface through the same center, period chosen numerically at each point."""
import numpy as np
from scipy.optimize import minimize_scalar
from scipy.interpolate import RectBivariateSpline
from transforms3d.affines import decompose, decompose44
from marxs.math.geometry import Cylinder
from marxs.math.utils import h2e, e2h, norm_vector
from marxs.utils import generate_test_photons
from marxs.optics import OrderSelector


@spec('marxs.design.bendgratings.bend_gratings', prop='P34')
def bend_gratings(gratings, radius):
    for e in gratings:
        t, rot, z, s = decompose(e.geometry.pos4d)
        half = np.arctan(z[1] / radius)
        c = Cylinder({'position': t - h2e(e.geometry['e_x']) * radius, 'orientation': rot, 'zoom': [radius, radius, z[2]],
                      'phi_lim': [-half, half]})
        c._geometry = e.geometry._geometry
        e.geometry = c
        e.display['shape'] = 'surface'
        for sub in e.elements:
            c = Cylinder({'position': t - h2e(e.geometry['e_x']) * radius, 'orientation': rot, 'zoom': [radius, radius, z[2]],
                          'phi_lim': [-half, half]})
            c._geometry = sub.geometry._geometry
            sub.geometry = c
            sub.display['shape'] = 'surface'


@spec('marxs.design.bendgratings.NumericalChirpFinder.__init__', prop='P34', noreturn=True)
def finder_init(self, detector, order, energy, d=2e-4, colname='detcirc_phi'):
    self.photon = generate_test_photons(1)
    self.detector = detector
    self.energy = energy
    self.order = order
    self.base_d = d
    self.colname = colname


@spec('marxs.design.bendgratings.NumericalChirpFinder.set_grat', prop='P34')
def finder_set_grat(self, grat):
    self.grat = grat
    self.calc_goal()


@spec('marxs.design.bendgratings.NumericalChirpFinder.set_uv', prop='P34')
def finder_set_uv(self, uv):
    self.uv = uv
    self.init_photon()


@spec('marxs.design.bendgratings.NumericalChirpFinder.calc_goal', prop='P34')
def finder_goal(self):
    if not hasattr(self.grat, 'original_orderselector'):
        self.grat.original_orderselector = self.grat.order_selector
    self.grat.order_selector = OrderSelector([self.order])
    self.grat._d = self.base_d
    self.set_uv([0., 0.])
    self.run_photon()
    self.goal = self.photon[self.colname][0]


@spec('marxs.design.bendgratings.NumericalChirpFinder.posongrat', prop='P34')
def finder_pos(self):
    g = self.grat.geometry
    return h2e(g['center'] + self.uv[0] * g['v_y'] + self.uv[1] * g['v_z'])


@spec('marxs.design.bendgratings.NumericalChirpFinder.init_photon', prop='P34')
def finder_init_photon(self):
    pos = self.posongrat()
    self.pos = e2h(1.1 * pos, 1)
    self.dir = norm_vector(-e2h(pos.reshape(1, 3), 0))
    self.reset_photon()


@spec('marxs.design.bendgratings.NumericalChirpFinder.reset_photon', prop='P34')
def finder_reset(self):
    self.photon['pos'] = self.pos
    self.photon['dir'] = self.dir
    self.photon['energy'][:] = self.energy
    self.photon['probability'] = 1


@spec('marxs.design.bendgratings.NumericalChirpFinder.run_photon', prop='P34')
def finder_run(self):
    self.reset_photon()
    self.photon = self.detector(self.grat(self.photon))


@spec('marxs.design.bendgratings.NumericalChirpFinder.optimize_func', prop='P34')
def finder_opt(self, d):
    self.grat._d = d * self.base_d
    self.run_photon()
    return np.abs(self.photon[self.colname][0] - self.goal)


@spec('marxs.design.bendgratings.NumericalChirpFinder.correction_on_d', prop='P34')
def finder_corr(self, uarray=np.array([-0.999, 0, 0.999]), varray=np.array([0])):
    corr = np.ones((len(uarray), len(varray)))
    for j, a in enumerate(uarray):
        for k, b in enumerate(varray):
            self.set_uv([a, b])
            corr[j, k] = minimize_scalar(self.optimize_func, bracket=(.99, 1., 1.01)).x
    return corr


@spec('marxs.design.bendgratings.NumericalChirpFinder.__call__', prop='P34')
def finder_call(self, grat, *args, **kwargs):
    self.set_grat(grat)
    return self.correction_on_d(*args, **kwargs)


@spec('marxs.design.bendgratings.BendNumericalChirpFinder.posongrat', prop='P34')
def bend_pos(self):
    zoom = decompose44(self.grat.geometry.pos4d)[2]
    lim = self.grat.geometry.coos_limits[0]
    phi = np.mean(lim) + self.uv[0] * (lim[1] - lim[0]) / 2
    return h2e(self.grat.geometry.parametric_surface([phi], [self.uv[1] * zoom[2]]))[0, 0, :]


@spec('marxs.design.bendgratings.chirp_gratings', prop='P34')
def chirp(gratings, optimizer, d, uarray=np.array([-0.999, 0, 0.999]), varray=np.array([0])):
    for grat in gratings:
        corr = optimizer(grat, uarray, varray)
        corr = np.tile(corr[:, 0], (3, 1)).T
        ly = np.linalg.norm(grat.geometry['v_y'])
        lz = np.linalg.norm(grat.geometry['v_z'])
        grat.fitted_d_corr = corr
        grat.spline = RectBivariateSpline(ly * uarray, lz * uarray, d * corr, bbox=[-ly, ly, -lz, lz], kx=2, ky=2)

        def func(self, intercoos):
            return self.spline(intercoos[:, 0], intercoos[:, 1], grid=False)
        grat._d = func.__get__(grat)
        grat.order_selector = grat.original_orderselector
