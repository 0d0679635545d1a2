"""Gratings: in the frame (d across, l along the grooves, n normal) only the d component of the
direction changes, by m lambda / d0; the l component is kept, n follows from the norm."""
import math
import numpy as np
from marxs import energy2wave
from marxs.math.utils import norm_vector
from marxs.math.polarization import parallel_transport


@spec('marxs.optics.grating.OrderSelector.__init__', prop='P23')
def OrderSelector_init(self, orderlist, p=None):
    self.orderlist = orderlist
    if p is None:
        self.p = np.ones(len(orderlist)) / len(orderlist)
    else:
        p = np.asanyarray(p)
        if len(p) != len(orderlist):
            raise ValueError('length')
        if p.sum() > 1.:
            raise ValueError('sum')
        if np.any(p < 0):
            raise ValueError('negative')
        self.p = p


@spec('marxs.optics.grating.OrderSelector.__call__', prop='P23')
def OrderSelector_call(self, energy, *args):
    # orders are drawn with the relative weights, the sum of the weights is the transmission
    total = self.p.sum()
    if np.isscalar(energy):
        return np.random.choice(self.orderlist, p=self.p / total), total
    return np.random.choice(self.orderlist, size=len(energy), p=self.p / total), total * np.ones_like(energy)


@spec('marxs.optics.grating.EfficiencyFile.__init__', prop='P23')
def EfficiencyFile_init(self, filename, orders):
    data = np.loadtxt(filename)
    self.energy = data[:, 0]
    if len(orders) != data.shape[1] - 1:
        raise ValueError('columns')
    self.orders = np.array(orders)
    self.prob = data[:, 1:]
    self.totalprob = np.sum(self.prob, axis=1)
    self.cumprob = np.cumsum(self.prob, axis=1) / self.totalprob[:, None]


@spec('marxs.optics.grating.EfficiencyFile.__call__', prop='P23')
def EfficiencyFile_call(self, energies, *args):
    chosen = np.empty(len(energies), dtype=int)
    row = np.empty(len(energies), dtype=int)
    for i, e in enumerate(energies):
        row[i] = np.argmin(np.abs(self.energy - e))
        chosen[i] = np.min(np.nonzero(self.cumprob[row[i]] > np.random.rand()))
    return self.orders[chosen], self.totalprob[row]


@spec('marxs.optics.grating.FlatGrating.__init__', prop='P23', noreturn=True)
def FlatGrating_init(self, **kwargs):
    self.order_selector = kwargs.pop('order_selector')
    self.transmission = kwargs.pop('transmission', True)
    if 'd' not in kwargs:
        raise ValueError('d')
    self._d = kwargs.pop('d')
    angle = kwargs.pop('groove_angle', 0.)
    super(FlatGrating, self).__init__(**kwargs)
    self.geometry._geometry['groove_angle'] = angle


@spec('marxs.optics.grating.FlatGrating.e_groove_coos', prop='P23')
def e_groove_coos(self, intercoos):
    a = self.geometry['groove_angle']
    y, z, n = self.geometry.get_local_euklid_bases(intercoos)
    return (math.sin(-a) * y + math.cos(-a) * z,
            math.cos(-a) * y - math.sin(-a) * z, n)


@spec('marxs.optics.grating.FlatGrating.d', prop='P23')
def grating_d(self, intercoos):
    if callable(self._d):
        return self._d(intercoos)
    return self._d


@spec('marxs.optics.grating.FlatGrating.blaze_angle_modifier', prop='P23')
def blaze_angle_modifier(self, intercoos):
    return np.zeros(intercoos.shape[0])


@spec('marxs.optics.grating.FlatGrating.order_sign_convention', prop='P23')
def order_sign_convention(self, p, e_perp_groove):
    return -1


@spec('marxs.optics.grating.CATGrating.order_sign_convention', prop='P23')
def cat_order_sign(self, p, e_perp_groove):
    s = np.sign(np.einsum("ij,ij->i", p, e_perp_groove))
    s[s == 0] = 1
    return s


def diffract(self, photons, intersect, interpos, intercoos):
    k = norm_vector(photons['dir'].data[intersect])
    l, perp, n = self.e_groove_coos(intercoos[intersect])
    d = -perp
    energy = photons['energy'].data[intersect]
    inplane = norm_vector(k - np.einsum("ij,ij->i", k, l)[:, None] * l)
    blaze = np.arccos(np.clip(np.abs(np.einsum("ij,ij->i", inplane, n)), 0, 1))
    blaze = blaze + self.blaze_angle_modifier(intercoos[intersect, :])
    m, prob = self.order_selector(energy, photons['polarization'].data[intersect], blaze)
    sign = self.order_sign_convention(k, d)
    kd = np.einsum("ij,ij->i", k, d) + sign * m * (energy2wave / energy) / self.d(intercoos[intersect, :])
    kl = np.einsum("ij,ij->i", k, l)
    kn = np.sqrt(1. - kd**2 - kl**2)
    side = np.sign(np.einsum("ij,ij->i", k, n), dtype=float)
    if not self.transmission:
        side = -side
    out = kd[:, None] * d + kl[:, None] * l + (side * kn)[:, None] * n
    return out, m, prob, blaze


@spec('marxs.optics.grating.FlatGrating.diffract_photons', prop='P23')
def diffract_photons(self, photons, intersect, interpos, intercoos):
    return diffract(self, photons, intersect, interpos, intercoos)


@spec('marxs.optics.grating.FlatGrating.specific_process_photons', prop='P23', also=(('P04', 'polarization'),))
def grating_process(self, photons, intersect, interpos, intercoos):
    dir, m, p, blaze = self.diffract_photons(photons, intersect, interpos, intercoos)
    pol = parallel_transport(photons['dir'].data[intersect, :], dir, photons['polarization'].data[intersect, :])
    return {'dir': dir, 'probability': p, 'polarization': pol, self.order_name: m, self.blaze_name: blaze}
