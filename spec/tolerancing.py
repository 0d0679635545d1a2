"""Tolerancing: what is moved and how, which runs are done, and what is recorded for each."""
import numpy as np
import collections
import warnings
from copy import copy
from functools import wraps
from transforms3d import affines, euler
from astropy.table import Table
from astropy import table
import astropy.units as u
from marxs.simulator import Sequence
from marxs.design.uncertainties import generate_facet_uncertainty


@spec('marxs.design.uncertainties.generate_facet_uncertainty', prop='P09')
def facet_uncertainty(n, xyz, angle_xyz, trans_offset=0, rot_offset=0):
    shift = np.random.normal(size=(n, 3), loc=trans_offset, scale=xyz)
    angle = np.random.normal(size=(n, 3), loc=rot_offset, scale=angle_xyz)
    out = []
    for t, a in zip(shift, angle):
        out.append(affines.compose(t, euler.euler2mat(a[0], a[1], a[2], 'sxyz'), np.ones(3)))
    return out


@spec('marxs.design.tolerancing.oneormoreelements', prop='P09', call=('elements', '*args', '**kwargs'))
def one_or_more(func):
    @wraps(func)
    def wrapper(elements, *args, **kwargs):
        if isinstance(elements, collections.abc.Iterable):
            for e in elements:
                func(e, *args, **kwargs)
        else:
            func(elements, *args, **kwargs)
    return wrapper


@spec('marxs.design.tolerancing.wiggle', prop='P09')
def wiggle(e, dx=0, dy=0, dz=0, rx=0., ry=0., rz=0.):
    e.elem_uncertainty = generate_facet_uncertainty(len(e.elements), [dx, dy, dz], [rx, ry, rz])
    e.generate_elements()


@spec('marxs.design.tolerancing.moveglobal', prop='P09')
def moveglobal(e, dx=0, dy=0, dz=0, rx=0., ry=0., rz=0.):
    e.uncertainty = affines.compose([dx, dy, dz], euler.euler2mat(rx, ry, rz, 'sxyz'), np.ones(3))
    e.generate_elements()


@spec('marxs.design.tolerancing.moveindividual', prop='P09')
def moveindividual(e, dx=0, dy=0, dz=0, rx=0, ry=0, rz=0):
    one = affines.compose([dx, dy, dz], euler.euler2mat(rx, ry, rz, 'sxyz'), np.ones(3))
    e.elem_uncertainty = [one] * len(e.elements)
    e.generate_elements()


@spec('marxs.design.tolerancing.moveelem', prop='P09')
def moveelem(e, dx=0, dy=0, dz=0, rx=0., ry=0., rz=0.):
    if not hasattr(e.geometry, 'pos4d_orig'):
        e.geometry.pos4d_orig = e.geometry.pos4d.copy()
    m = affines.compose([dx, dy, dz], euler.euler2mat(rx, ry, rz, 'sxyz'), np.ones(3))
    e.geometry.pos4d = np.dot(m, e.geometry.pos4d_orig)


@spec('marxs.design.tolerancing.varyattribute', prop='P09')
def varyattribute(element, **kwargs):
    for key, val in kwargs.items():
        if not hasattr(element, key):
            raise ValueError('unknown attribute')
        setattr(element, key, val)


@spec('marxs.design.tolerancing.varyperiod', prop='P09')
def varyperiod(element, period_mean, period_sigma):
    if not hasattr(element, '_d'):
        raise ValueError('no period')
    element._d = np.random.normal(period_mean, period_sigma)


@spec('marxs.design.tolerancing.varyorderselector', prop='P09')
def varyorderselector(element, order_selector, *args, **kwargs):
    if not hasattr(element, 'order_selector'):
        raise ValueError('no order selector')
    element.order_selector = order_selector(*args, **kwargs)


@spec('marxs.design.tolerancing.run_tolerances', prop='P09')
def run_tolerances(photons_in, instrum, wigglefunc, wiggleparts, parameters, analyzefunc):
    out = []
    for pars in parameters:
        wigglefunc(wiggleparts, **pars)
        photons = instrum(photons_in.copy())
        row = copy(pars)
        row.update(analyzefunc(photons))
        out.append(row)
    return out


@spec('marxs.design.tolerancing.run_tolerances_for_energies', prop='P09')
def run_for_energies(source, energies, instrum_before, instrum_remaining, wigglefunc, wiggleparts, parameters, analyzefunc,
                     reset=None, t_source=1 / u.s):
    wave = energies.to(u.Angstrom, equivalencies=u.spectral())
    out = []
    for i, e in enumerate(energies):
        source.energy = e
        photons = instrum_before(source.generate_photons(t_source))
        rows = run_tolerances_(photons, instrum_remaining, wigglefunc, wiggleparts, parameters, analyzefunc)
        tab = Table([{k: r[k].value if isinstance(r[k], u.Quantity) else r[k] for k in r} for r in rows])
        tab['energy'] = e
        tab['wave'] = wave[i]
        out.append(tab)
    if reset is not None:
        wigglefunc(wiggleparts, **reset)
    return table.vstack(out)


from marxs.design.tolerancing import run_tolerances as run_tolerances_, run_tolerances_for_energies


@spec('marxs.design.tolerancing.run_tolerances_for_energies2', prop='P09')
def run_for_energies2(source, energies, instrum, cls, wigglefunc, parameters, analyzefunc, reset=None, subclass_ok=False,
                      t_source=1 / u.s):
    ind = instrum.first_of_class_top_level(cls, subclass_ok)
    if ind is None:
        raise Exception('not part')
    before = Sequence(elements=instrum.elements[:ind])
    after = Sequence(elements=instrum.elements[ind:])
    parts = instrum.elements_of_class(cls, subclass_ok)
    return run_tolerances_for_energies(source, energies, before, after, wigglefunc, parts, parameters, analyzefunc, reset, t_source)


@spec('marxs.design.tolerancing.generate_6d_wigglelist', prop='P09')
def wigglelist(trans, rot, names=['dx', 'dy', 'dz', 'rx', 'ry', 'rz']):
    if trans.value[0] != 0 or rot.value[0] != 0:
        warnings.warn('First element of trans and rot should be 0.')
    n_trans = len(trans)
    n_rot = len(rot)
    n = 3 * n_trans
    changes = np.zeros((n_trans * 2 * 3 + n_rot * 2 * 3, 6))
    for i in range(3):
        changes[i * n_trans:(i + 1) * n_trans, i] = trans.to(u.mm).value
        changes[n + i * n_rot:n + (i + 1) * n_rot, i + 3] = rot.to(u.rad).value
    half = int(changes.shape[0] / 2)
    changes[half:, :] = -changes[:half, :]
    one = changes[:half, :]
    allrows = np.unique(changes, axis=0)
    onerows = np.unique(one, axis=0)
    return [dict(zip(names, r)) for r in allrows], [dict(zip(names, r)) for r in onerows]


@spec('marxs.design.tolerancing.select_1dof_changed', prop='P09')
def select_1dof(table, par, parlist=['dx', 'dy', 'dz', 'rx', 'ry', 'rz']):
    ok = np.ones(len(table), dtype=bool)
    for p in set(parlist) - set([par]):
        ok *= table[p] == 0
    return table[ok]
