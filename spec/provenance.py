"""Tags that record where a photon list comes from, and checks that lists fit together."""
import numpy as np
import re
from datetime import datetime
from marxs.base import MarxsElement
from marxs.base.base import ver


@spec('marxs.base.base.TagVersion.__init__', prop='P32', noreturn=True)
def tag_init(self, ORIGIN=('unkwown', 'Institution where file was created'),
             CREATOR=('MARXS', 'Person or program creating file'), **kwargs):
    MarxsElement.__init__(self, name=kwargs.pop('name', self.__class__))
    kwargs['MARXSVER'] = (ver.group('version'), 'MARXS code version')
    if ver.group('gittag') is not None:
        kwargs['MARXSGIT'] = (ver.group('gittag'), 'Git hash of MARXS code')
    if ver.group('dirtydate') is not None:
        kwargs['MARXSTIM'] = (ver.group('dirtydate'), 'Date of dirty version ARCUS code')
    self.tags = kwargs


@spec('marxs.base.base.TagVersion.__call__', prop='P32')
def tag_call(self, photons, *args, **kwargs):
    photons.meta['DATE'] = (datetime.now().isoformat()[:10], 'Date/time of computation')
    for k, v in self.tags.items():
        photons.meta[k] = v
    for k, v in kwargs.items():
        photons.meta[k] = v
    return photons


@spec('marxs.base.base.check_meta_consistent', prop='P32', noreturn=True)
def meta_consistent(meta1, meta2, keywords=['ORIGIN', 'CREATOR', 'MARXSVER', 'MARXSGIT', 'MARXSTIM'], allow_missing=True):
    for k in keywords:
        if k in meta1 and k in meta2:
            assert meta1[k] == meta2[k]
        elif not allow_missing:
            raise KeyError('not in both')
        elif k in meta1 or k in meta2:
            raise KeyError('in one')


@spec('marxs.base.base.check_energy_consistent', prop='P32', noreturn=True)
def energy_consistent(photons):
    if 'energy' in photons.colnames:
        assert np.allclose(photons['energy'], photons['energy'][0])
