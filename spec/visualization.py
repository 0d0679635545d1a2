"""Visualization (P16)."""
import datetime
import json
import os
import urllib.request
import warnings
import tempfile
from functools import wraps
from warnings import warn
from shutil import make_archive
import xml.etree.ElementTree as ET

import matplotlib.colors
import jsonschema
import numpy as np
import x3d.x3d as x3d
from matplotlib.colors import Normalize

from mayavi import mlab
import matplotlib.pyplot as plt
from marxs.math.utils import e2h, h2e
import marxs.visualization.threejs as jsmod
import marxs.visualization.threejsjson as jsonmod
import marxs.visualization.mayavi as maymod
from marxs.visualization.threejs import listofproperties, materialdict, materialspec, _format_plot_rays_input, array2string
from marxs.version import version
from marxs.visualization import threejs, utils
from marxs.visualization.x3d import Scene, _diffuse_material, _format_points, plot_registry, conf, indexed_triangle_set, plot_object
from marxs.visualization.utils import MARXSVisualizationWarning, get_obj_name, get_color


@spec('marxs.visualization.utils.get_obj_name', prop='P16')
def obj_name(obj):
    if hasattr(obj, 'name'):
        return obj.name
    if hasattr(obj, 'func_name'):
        return obj.func_name
    return str(obj)


@spec('marxs.visualization.utils.DisplayDict.__init__', prop='P16')
def dd_init(self, parent, *args, **kwargs):
    self.parent = parent
    super().__init__(*args, **kwargs)


@spec('marxs.visualization.utils.DisplayDict.__getitem__', prop='P16')
def dd_get(self, key):
    if key not in self and hasattr(self.parent, 'geometry'):
        try:
            return getattr(self.parent.geometry, key)
        except AttributeError:
            raise KeyError(key)
    return super().__getitem__(key)


@spec('marxs.visualization.utils.DisplayDict.get', prop='P16')
def dd_get2(self, k, d=None):
    try:
        return self[k]
    except KeyError:
        return d


@spec('marxs.visualization.utils.plot_object_general', prop='P16')
def pog(plot_registry, obj, display=None, **kwargs):
    if display is None:
        if hasattr(obj, 'display') and (obj.display is not None):
            display = obj.display
        else:
            warnings.warn('Skipping: No display dictionary found.', MARXSVisualizationWarning)
            return None
    try:
        shape = display['shape']
    except KeyError:
        warnings.warn('Skipping: "shape" not set in display dict.', MARXSVisualizationWarning)
        return None
    for s in [s.strip() for s in shape.split(';')]:
        if s == 'None':
            return None
        elif s in plot_registry:
            display['color'] = get_color(display)
            return plot_registry[s](obj, display, **kwargs)
    warnings.warn('Skipping: No function to plot.', MARXSVisualizationWarning)
    return None


@spec('marxs.visualization.utils.get_color', prop='P16')
def get_color_(d):
    if 'color' not in d:
        return (1., 1., 1.)
    c = d['color']
    try:
        cout = tuple(c)
        if len(cout) != 3:
            raise TypeError
        for a in cout:
            if not isinstance(a, float) or (a < 0.) or (a > 1.):
                raise TypeError
        return cout
    except TypeError:
        return matplotlib.colors.colorConverter.to_rgb(c)


@spec('marxs.visualization.utils.color_tuple_to_hex', prop='P16')
def tuple_hex(color):
    if all([isinstance(a, float) for a in color]):
        if any(i < 0. for i in color) or any(i > 1. for i in color):
            raise ValueError('Float values in color tuple must be between 0 and 1.')
        out = hex(int(color[0] * 255) * 256**2 + int(color[1] * 255) * 256 + int(color[2] * 255))
    elif all([isinstance(a, int) for a in color]):
        if any(i < 0 for i in color) or any(i > 255 for i in color):
            raise ValueError('Int values in color tuple must be between 0 and 255.')
        out = hex(color[0] * 256**2 + color[1] * 256 + color[2])
    else:
        raise ValueError('Input tuple must be all float or all int.')
    return out[:2] + out[2:].zfill(6)


@spec('marxs.visualization.utils.plane_with_hole', prop='P16')
def pwh(outer, inner):
    n_out = outer.shape[0]
    n_in = inner.shape[0]
    n = n_out + n_in
    triangles = np.zeros((n, 3), dtype=int)
    i_in = 0
    i_out = 0
    for i in range(n):
        if i / n >= i_in / n_in:
            triangles[i, :] = [i_out, n_out + i_in, n_out + ((i_in + 1) % n_in)]
            i_in += 1
        else:
            triangles[i, :] = [(i_out + 1) % n_out, i_out, n_out + (i_in % n_in)]
            i_out = (i_out + 1) % n_out
    return np.vstack([outer, inner]), triangles


@spec('marxs.visualization.utils.combine_disjoint_triangulations', prop='P16')
def combine(list_xyz, list_triangles):
    n_offset = np.cumsum([0] + [a.shape[0] for a in list_xyz[:-1]])
    return np.vstack(list_xyz), np.vstack([list_triangles[i] + n_offset[i] for i in range(len(n_offset))])


@spec('marxs.visualization.utils.triangulate_parametricsurface', prop='P16')
def tri_par(xyz):
    xyz = h2e(xyz).reshape(-1, 3)
    index = np.arange(xyz.shape[0] - 2)
    return xyz, np.vstack([index, index + 1, index + 2]).T


@spec('marxs.visualization.utils.halfbox_corners', prop='P16')
def halfbox(obj, display):
    corners = np.array([[-1, -1, -1], [-1, 1, -1], [-1, -1, 1], [-1, 1, 1], [1, -1, -1], [1, 1, -1], [1, -1, 1], [1, 1, 1]])
    if 'box-half' in display:
        try:
            if display['box-half'][0] == '+':
                factor = 1
            elif display['box-half'][0] == '-':
                factor = -1
            else:
                factor = 0
            xyz = {'x': 0, 'y': 1, 'z': 2}
            if display['box-half'][1] in xyz:
                j = xyz[display['box-half'][1]]
                corners[corners[:, j] == factor, j] = 0
        except:
            pass
    return h2e(np.einsum('ij,...j->...i', obj.pos4d, e2h(corners, 1)))


# ------------------------------------------------------------------ x3d

@spec('marxs.visualization.x3d._diffuse_material', prop='P16')
def diffuse(display):
    return x3d.Material(diffuseColor=[float(a) for a in display['color']], transparency=float(1 - display.get('opacity', 1.0)))


@spec('marxs.visualization.x3d._format_points', prop='P16')
def fmt_points(xyz):
    return [tuple(float(a) for a in np.round(p, conf.xyz_precision + 3)) for p in xyz / 1000]


@spec('marxs.visualization.x3d.indexed_triangle_set', prop='P16')
def its(xyz, index, display, *, scene):
    scene.children.append(x3d.Shape(appearance=x3d.Appearance(material=_diffuse_material(display)),
                                    geometry=x3d.IndexedTriangleSet(coord=x3d.Coordinate(point=_format_points(xyz)),
                                                                    index=[int(i) for i in index.reshape(-1, 3).flatten()],
                                                                    solid=False, colorPerVertex=False)))
    return scene


@spec('marxs.visualization.x3d.surface', prop='P16')
def x3d_surface(obj, display, *, scene):
    xyz = h2e(obj.geometry.parametric_surface(display.get('coo1', None), display.get('coo2', None), display))
    ind = np.arange(xyz.shape[0] * xyz.shape[1], dtype=int).reshape(xyz.shape[0], xyz.shape[1])
    faces = np.stack([ind[:-1, :-1].flatten(), ind[:-1, 1:].flatten(), ind[1:, 1:].flatten(), ind[1:, :-1].flatten(),
                      -np.ones((ind.shape[0] - 1) * (ind.shape[1] - 1), dtype=int)]).T
    scene.children.append(x3d.Shape(appearance=x3d.Appearance(material=_diffuse_material(display)),
                                    geometry=x3d.IndexedFaceSet(coord=x3d.Coordinate(point=_format_points(xyz.reshape((-1, 3)))),
                                                                coordIndex=list([int(i) for i in faces.flatten()]), solid=False, colorPerVertex=False)))
    return scene


@spec('marxs.visualization.x3d.triangulation', prop='P16', opaque=('marxs.visualization.x3d.indexed_triangle_set',))
def x3d_tri(obj, display, *, scene):
    xyz, index = obj.geometry.triangulate(display)
    indexed_triangle_set(xyz, index, display, scene=scene)
    return scene


@spec('marxs.visualization.x3d.box', prop='P16')
def x3d_box(obj, display, *, scene):
    corners = utils.halfbox_corners(obj, display)
    scene.children.append(x3d.Shape(appearance=x3d.Appearance(material=_diffuse_material(display)),
                                    geometry=x3d.IndexedFaceSet(coord=x3d.Coordinate(point=_format_points(corners)),
                                                                coordIndex=[0, 2, 3, 1, -1, 4, 6, 7, 5, -1, 0, 4, 6, 2, -1,
                                                                            1, 5, 7, 3, -1, 0, 4, 5, 1, -1, 2, 6, 7, 3, -1],
                                                                solid=False, colorPerVertex=False)))
    return scene


@spec('marxs.visualization.x3d.container', prop='P16', opaque=('marxs.visualization.x3d.plot_object',))
def x3d_container(obj, display=None, *, scene=None):
    for e in obj.elements:
        plot_object(e, display=None, scene=scene)
    return scene


@spec('marxs.visualization.x3d.plot_object', prop='P16', opaque=('marxs.visualization.utils.plot_object_general',))
def x3d_plot_object(obj, display=None, *, scene=None, **kwargs):
    utils.plot_object_general(plot_registry, obj, display, scene=scene, **kwargs)
    return scene


@spec('marxs.visualization.x3d.plot_rays', prop='P16')
def x3d_rays(data, scalar=None, *, scene=None, cmap=None, normalize_kwargs={}):
    n, N = data.shape[0], data.shape[1]
    if scalar is None:
        scalar = np.ones(n)
    elif scalar.shape == (n, ):
        pass
    elif scalar.shape == (n, N):
        warn('Using only color for first node in each ray.')
        scalar = scalar[:, 0]
    else:
        raise ValueError('Scalar quantity for each point must have shape')
    scalar = Normalize(**normalize_kwargs)(scalar)
    for s in set(scalar):
        color = tuple(np.round(cmap(s), conf.color_precision))
        ind = scalar == s
        scene.children.append(x3d.Shape(appearance=x3d.Appearance(material=x3d.Material(emissiveColor=[float(a) for a in color[:3]])),
                                        geometry=x3d.LineSet(vertexCount=[N] * ind.sum(),
                                                             coord=x3d.Coordinate(point=_format_points(data[ind, :].reshape(-1, 3))))))
    return scene


@spec('marxs.visualization.x3d.Scene.__init__', prop='P16')
def scene_init(self, children=None, **kwargs):
    super().__init__(children=children, **kwargs)
    self.set_X3D_implementation('X3DOM')


@spec('marxs.visualization.x3d.Scene.set_X3D_implementation', prop='P16')
def scene_impl(self, implementation):
    if implementation == 'X3DOM':
        self.js_source = 'https://www.x3dom.org/download/x3dom.js'
        self.css_source = 'https://www.x3dom.org/download/x3dom.css'
        self.x3d_implementation = implementation
    elif implementation == 'X_ITE':
        self.js_source = 'https://cdn.jsdelivr.net/npm/x_ite@9.7.0/dist/x_ite.min.js'
        self.css_source = ''
        self.x3d_implementation = implementation
    else:
        raise ValueError('Unknown X3D implementation')


@spec('marxs.visualization.x3d.Scene._repr_html_', prop='P16')
def scene_repr(self):
    return getattr(self, f'repr_html_{self.x3d_implementation}')()


@spec('marxs.visualization.x3d.Scene.write_html_archive', prop='P16')
def scene_archive(self, base_name, format, *args, **kwargs):
    with tempfile.TemporaryDirectory() as tmpdirname:
        for f in (self.js_source, self.css_source):
            if f:
                urllib.request.urlretrieve(f, os.path.join(tmpdirname, os.path.basename(f)))
        try:
            old_js = self.js_source
            old_css = self.css_source
            self.js_source = os.path.basename(self.js_source)
            self.css_source = os.path.basename(self.css_source)
            with open(os.path.join(tmpdirname, 'figure.html'), 'w') as f:
                f.write(self._repr_html_())
        finally:
            self.js_source = old_js
            self.css_source = old_css
        make_archive(base_name, format, root_dir=tmpdirname, *args, **kwargs)


# ------------------------------------------------------------------ three.js

@spec('marxs.visualization.threejs.array2string', prop='P16')
def a2s(array):
    return np.array2string(array.flatten(), max_line_width=1000, separator=',', formatter={'float_kind': '{0:.1f}'.format})


@spec('marxs.visualization.threejs.materialdict', prop='P16', dicts=('display',))
def matdict(display, material):
    spec = {}
    for k in display:
        if k in listofproperties['Material'] or k in listofproperties[material]:
            if k == 'color':
                spec['color'] = utils.color_tuple_to_hex(display[k]).replace('0x', '#')
            else:
                spec[k] = display[k]
    if 'opacity' in display and 'transparent' not in display:
        spec['transparent'] = 'true'
    return spec


@spec('marxs.visualization.threejs.materialspec', prop='P16', opaque=('marxs.visualization.threejs.materialdict',))
def matspec(display, material):
    m = materialdict(display, material)
    return ', '.join(['{0} : {1}'.format(k, m[k]) for k in m])


@spec('marxs.visualization.threejs._format_plot_rays_input', prop='P16')
def format_rays(data, scalar, cmap, prop):
    n, N = data.shape[0], data.shape[1]
    if scalar is None:
        s = np.zeros((n, N))
    elif scalar.shape == (n, ):
        s = np.tile(scalar, (N, 1)).T
    elif scalar.shape == (n, N):
        s = scalar
    else:
        raise ValueError('Scalar quantity for each point must have shape')
    s_rgb = plt.get_cmap(cmap)(plt.Normalize()(s))
    if 'vertexColors' not in prop:
        prop['vertexColors'] = 2
    return data, s_rgb, prop, n


@spec('marxs.visualization.threejs.plot_rays', prop='P16', opaque=('marxs.visualization.threejs._format_plot_rays_input', 'marxs.visualization.threejs.materialspec',
      'marxs.visualization.threejs.array2string'))
def js_rays(data, outfile, scalar=None, cmap=None, prop={}):
    data, s_rgb, prop, n = _format_plot_rays_input(data, scalar, cmap, prop)
    material = materialspec(prop, 'LineBasicMaterial')
    for i in range(n):
        positions = array2string(data[i, :, :])
        colors = array2string(s_rgb[i, :, :3])
        outfile.write('''
        var geometry = new THREE.BufferGeometry();
        var material = new THREE.LineBasicMaterial({{ {material} }});
        var positions = new Float32Array({positions});
        var colors = new Float32Array({colors});
        geometry.addAttribute( 'position', new THREE.BufferAttribute( positions, 3 ) );
        geometry.addAttribute( 'color', new THREE.BufferAttribute( colors, 3 ) );
        geometry.computeBoundingSphere();
        mesh = new THREE.Line( geometry, material );
        scene.add( mesh );'''.format(positions=positions, colors=colors, material=material))


@spec('marxs.visualization.threejs.plot_object', prop='P16', opaque=('marxs.visualization.utils.plot_object_general',))
def js_obj(obj, display, outfile, **kwargs):
    return utils.plot_object_general(jsmod.plot_registry, obj, display=display, outfile=outfile, **kwargs)


@spec('marxs.visualization.threejs.container', prop='P16', opaque=('marxs.visualization.threejs.plot_object',))
def js_cont(obj, display, outfile):
    return [jsmod.plot_object(e, e.display, outfile) for e in obj.elements]


@spec('marxs.visualization.threejsjson.plot_object', prop='P16', opaque=('marxs.visualization.utils.plot_object_general',))
def json_obj(obj, display=None, **kwargs):
    return utils.plot_object_general(jsonmod.plot_registry, obj, display=display, **kwargs)


@spec('marxs.visualization.threejsjson.container', prop='P16', opaque=('marxs.visualization.threejsjson.plot_object',))
def json_cont(obj, display=None, **kwargs):
    out = []
    for elem in obj.elements:
        o = jsonmod.plot_object(elem, elem.display)
        if isinstance(o, list):
            out.extend(o)
        elif o is not None:
            out.append(o)
    return out


@spec('marxs.visualization.threejsjson.box', prop='P16', opaque=('marxs.visualization.threejs.materialdict',))
def json_box(obj, display):
    out = {'n': 1, 'name': str(obj.name), 'material': 'MeshStandardMaterial', 'materialproperties': materialdict(display, 'MeshStandardMaterial'),
           'geometry': 'BoxGeometry', 'geometrypars': (2, 2, 2), 'pos4d': [obj.pos4d.T.flatten().tolist()]}
    if 'side' not in display:
        out['materialproperties']['side'] = 2
    return out


@spec('marxs.visualization.threejsjson.triangulation', prop='P16', opaque=('marxs.visualization.threejs.materialdict',))
def json_tri(obj, display):
    xyz, triangles = obj.geometry.triangulate(display)
    out = {'n': 1, 'name': str(obj.name), 'material': 'MeshStandardMaterial', 'materialproperties': materialdict(display, 'MeshStandardMaterial'),
           'geometry': 'BufferGeometry', 'geometrytype': 'Mesh', 'pos': [xyz.flatten().tolist()], 'faces': [triangles.flatten().tolist()]}
    if 'side' not in display:
        out['materialproperties']['side'] = 2
    return out


@spec('marxs.visualization.threejsjson.plot_rays', prop='P16', opaque=('marxs.visualization.threejs.materialdict', 'marxs.visualization.threejs._format_plot_rays_input'))
def json_rays(data, scalar=None, prop={}, name='Photon list', cmap=None):
    data, s_rgb, _, n = _format_plot_rays_input(data, scalar, cmap, prop)
    return {'n': n, 'name': name, 'material': 'LineBasicMaterial', 'materialproperties': materialdict(prop, 'LineBasicMaterial'),
            'geometry': 'BufferGeometry', 'geometrytype': 'Line', 'pos': data.reshape((n, -1)).tolist(),
            'color': s_rgb[:, :, :3].reshape((n, -1)).tolist()}


# ------------------------------------------------------------------ mayavi

@spec('marxs.visualization.mayavi.container', prop='P16', opaque=('marxs.visualization.mayavi.plot_object',))
def may_cont(obj, display=None, viewer=None):
    return [maymod.plot_object(e, display=None, viewer=viewer) for e in obj.elements]


@spec('marxs.visualization.mayavi.triangulation', prop='P16')
def may_tri(obj, display, viewer=None):
    xyz, triangles = obj.geometry.triangulate(display)
    return mlab.triangular_mesh(xyz[:, 0], xyz[:, 1], xyz[:, 2], triangles, color=display['color'])


@spec('marxs.visualization.mayavi.surface', prop='P16')
def may_surf(surface, display, viewer=None):
    xyz = h2e(surface.geometry.parametric_surface(display.get('coo1', None), display.get('coo2', None), display))
    return mlab.mesh(xyz[..., 0], xyz[..., 1], xyz[..., 2], figure=viewer, color=display['color'])


@spec('marxs.visualization.mayavi.box', prop='P16')
def may_box(obj, display, viewer=None):
    triangles = [(0, 2, 6), (0, 4, 6), (0, 1, 5), (0, 4, 5), (0, 1, 3), (0, 2, 3),
                 (7, 3, 2), (7, 6, 2), (7, 3, 1), (7, 5, 1), (7, 6, 4), (7, 5, 4)]
    corners = utils.halfbox_corners(obj, display)
    return mlab.triangular_mesh(corners[:, 0], corners[:, 1], corners[:, 2], triangles, color=display['color'])


@spec('marxs.visualization.mayavi.cylinder', prop='P16')
def may_cyl(obj, display, viewer=None):
    x0 = obj.geometry['center'] - obj.geometry['v_x']
    x1 = obj.geometry['center'] + obj.geometry['v_x']
    return mlab.plot3d([x0[0], x1[0]], [x0[1], x1[1]], [x0[2], x1[2]], color=display['color'],
                       tube_radius=np.linalg.norm(obj.geometry['v_y']), tube_sides=display.get('tube_sides', 20))


@spec('marxs.visualization.mayavi.plot_rays', prop='P16')
def may_rays(data, scalar=None, viewer=None, kwargssurface={'colormap': 'Accent', 'line_width': 1, 'opacity': .4}):
    n, N = data.shape[0], data.shape[1]
    if scalar is None:
        s = np.zeros(n * N)
    elif scalar.shape == (n, ):
        s = np.repeat(scalar, N)
    elif scalar.shape == (n, N):
        s = scalar.flatten()
    else:
        raise ValueError('Scalar quantity for each point must have shape')
    a = np.arange(n * N).reshape((-1, N))[:, :-1].flatten()
    src = mlab.pipeline.scalar_scatter(data[:, :, 0].flatten(), data[:, :, 1].flatten(), data[:, :, 2].flatten(), s, figure=viewer)
    src.mlab_source.dataset.lines = np.vstack([a, a + 1]).T
    src.update()
    lines = mlab.pipeline.stripper(src, figure=viewer)
    return src, lines, mlab.pipeline.surface(lines, figure=viewer, **kwargssurface)


# ------------------------------------------------------------------ shapes

@spec('marxs.math.geometry.PlaneWithHole.__init__', prop='P16')
def hole_init(self, kwargs):
    r_inner = kwargs.pop('r_inner', 0.)
    super().__init__(kwargs)
    self._geometry['r_inner'] = r_inner


@spec('marxs.math.geometry.PlaneWithHole.triangulate', prop='P16')
def hole_tri(self, display={}):
    xyz, triangles = utils.plane_with_hole(self.outer_display(display), self.outer_shape(display))
    if self['r_inner'] > 0.:
        xyz2, tri2 = utils.plane_with_hole(self.inner_shape(display), self.inner_display(display))
        xyz, triangles = utils.combine_disjoint_triangulations([xyz, xyz2], [triangles, tri2])
    return xyz, triangles


@spec('marxs.optics.baffles.Baffle.triangulate_inner_outer', prop='P16')
def baffle_tri(self):
    f = self.display.get('outer_factor', 3)
    g = self.geometry
    edge = np.vstack([h2e(g['v_y']) + h2e(g['v_z']), h2e(-g['v_y']) + h2e(g['v_z']), h2e(-g['v_y']) - h2e(g['v_z']), h2e(g['v_y']) - h2e(g['v_z'])])
    return utils.plane_with_hole(h2e(g['center']) + f * edge, h2e(g['center']) + edge)


@spec('marxs.visualization.threejsjson.torus', prop='P16', opaque=('marxs.visualization.threejs.materialdict',))
def json_torus(obj, display, theta0=0., thetaarc=2 * np.pi, phi0=0., phiarc=np.pi * 2):
    theta = display.get('coo1', [0, 2 * np.pi])
    phi = display.get('coo2', [0, 2 * np.pi])
    out = {'n': 1, 'name': str(obj.name), 'material': 'MeshStandardMaterial', 'materialproperties': materialdict(display, 'MeshStandardMaterial'),
           'geometry': 'ModifiedTorusBufferGeometry',
           'geometrypars': (obj.R, obj.r, int(np.rad2deg(theta[1])), int(np.rad2deg(phi[1])), theta[1], theta[0], phi[1], phi[0]),
           'pos4d': [obj.pos4d.T.flatten().tolist()]}
    if 'side' not in display:
        out['materialproperties']['side'] = 2
    return out


@spec('marxs.visualization.threejsjson.write', prop='P16')
def json_write(fileobject, data, photons=None):
    if not isinstance(data, list):
        data = [data]
    date = datetime.datetime.now()
    jdata = {'meta': {'format_version': 1, 'origin': 'MARXS:threejsjson output', 'date': str(date.date()), 'time': str(date.time()),
                      'marxs_version': version}, 'elements': data}
    if photons is not None:
        jdata['runinfo'] = dict(photons.meta)
    if jsonmod.HAS_JSONSCHEMA:
        with open(os.path.join(os.path.abspath(os.path.dirname(__file__)), 'threejs_files', 'jsonschema.json')) as f:
            schema = json.load(f)
        jsonschema.validate(jdata, schema)
    else:
        warnings.warn('Module jsonschema not installed.')
    json.dump(jdata, fileobject)


@spec('marxs.visualization.mayavi.plot_object', prop='P16', opaque=('marxs.visualization.utils.plot_object_general',))
def may_obj(obj, display=None, viewer=None, **kwargs):
    kwargs['viewer'] = viewer
    out = utils.plot_object_general(maymod.plot_registry, obj, display, **kwargs)
    if out is not None and not isinstance(out, list):
        display = display or obj.display
        prop = out.module_manager.children[0].actor.property
        for n in prop.trait_names():
            if n in display:
                setattr(prop, n, display[n])
    return out
