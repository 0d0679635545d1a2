"""Apertures spread photons uniformly over their area and weight them with the projected area."""
import numpy as np
import astropy.units as u
from astropy import table


@spec('marxs.optics.aperture.BaseAperture.add_colpos', prop='P26', noreturn=True)
def add_colpos(photons):
    if 'pos' not in photons.colnames:
        photons.add_column(table.Column(name='pos', length=len(photons), shape=(4,)))
        photons['pos'][:, 3] = 1
        photons['pos'].unit = u.mm


@spec('marxs.optics.aperture.FlatAperture.specific_process_photons', prop='P26', noreturn=False)
def FlatAperture_process(self, photons, intersect, interpos, intercoos):
    x, y = self.generate_local_xy(intersect.sum())
    intercoos[intersect, 0] = x
    intercoos[intersect, 1] = y
    interpos[intersect, :] = self.geometry['center'] + x.reshape((-1, 1)) * self.geometry['v_y'] + \
        y.reshape((-1, 1)) * self.geometry['v_z']
    cosine = -np.dot(photons['dir'][intersect].data, self.geometry['e_x'])
    return {'probability': np.clip(cosine, 0, 1.)}


@spec('marxs.optics.aperture.RectangleAperture.generate_local_xy', prop='P26')
def rect_xy(self, n):
    return np.random.random(n) * 2. - 1., np.random.random(n) * 2. - 1.


@spec('marxs.optics.aperture.RectangleAperture.area', prop='P26')
def rect_area(self):
    return 2 * np.linalg.norm(self.geometry['v_y']) * 2 * np.linalg.norm(self.geometry['v_z']) * u.mm**2


@spec('marxs.optics.aperture.CircleAperture.__init__', prop='P26', noreturn=True)
def circle_init(self, **kwargs):
    super().__init__(**kwargs)
    ry = np.linalg.norm(self.geometry['v_y'])
    if self.geometry['r_inner'] > ry:
        raise ValueError('r_inner')
    if not np.isclose(ry, np.linalg.norm(self.geometry['v_z'])):
        raise GeometryError('ellipse')


@spec('marxs.optics.aperture.CircleAperture.generate_local_xy', prop='P26')
def circle_xy(self, n):
    # uniform in area: uniform in r**2
    phi = np.random.uniform(self.geometry.phi[0], self.geometry.phi[1], n)
    rin = self.geometry['r_inner'] / np.linalg.norm(self.geometry['v_y'])
    r = np.sqrt(np.random.uniform(rin**2, 1., n))
    return r * np.cos(phi), r * np.sin(phi)


@spec('marxs.optics.aperture.CircleAperture.area', prop='P26')
def circle_area(self):
    full = np.pi * (np.linalg.norm(self.geometry['v_y'])**2 - self.geometry['r_inner']**2)
    return full * (self.geometry.phi[1] - self.geometry.phi[0]) / (2 * np.pi) * u.mm**2


@spec('marxs.optics.aperture.MultiAperture.area', prop='P26')
def multi_area(self):
    return u.Quantity([e.area for e in self.elements]).sum()


@spec('marxs.optics.aperture.MultiAperture.__call__', prop='P26')
def multi_call(self, photons):
    self.add_colpos(photons)
    areas = u.Quantity([e.area for e in self.elements])
    which = np.digitize(np.random.rand(len(photons)), np.cumsum(areas) / self.area)
    np.random.shuffle(which)
    for i, elem in enumerate(self.elements):
        for p in self.preprocess_steps:
            p(photons)
        photons = elem.process_photons(photons, which == i, photons['pos'], np.zeros((len(photons), 2)))
        for p in self.postprocess_steps:
            p(photons)
    return photons
