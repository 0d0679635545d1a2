prop('P18', 'Every name, attribute and call in the package resolves, on every path',
     'No path through the package ends in an error because the code itself does not fit together: every name, import and attribute of a module, class or '
     'instance of the package that is used exists at that point, no local variable is used before it has a value, every call of a function, method or '
     'constructor of the package binds to the signature it has (in every class that overrides it), read-only properties are never assigned, '
     'and format strings get the values they name. This includes error messages, optional arguments and rarely used branches.',
     'all functions, all branches and combinations of optional arguments, all derived classes',
     'Python finds such faults only when the line is run; error branches, optional outputs, plotting backends and mission files are run by no test.',
     ['marxs'],
     [('derived classes', 'marxs/optics/base.py'), ('containers calling the interface of elements', 'marxs/simulator/simulator.py'),
      ('missions', 'marxs/missions')],
     over=('inputs', 'configurations'), observe=['NameError, ImportError, AttributeError, UnboundLocalError, TypeError, KeyError of a format string'],
     technique='closed-world name resolution, definite-assignment dataflow and call-signature binding over the class hierarchy', note=TRUST)
prop('P01', 'Photon weights only ever shrink, by factors between 0 and 1',
     'Every element that modifies the weight of a photon multiplies the weight it had by a factor between 0 and 1 for that same photon '
     '(or sets it to zero for photons that are blocked). No element replaces, adds to or increases a weight, so the weight after any '
     'sequence is the product of the individual transmission probabilities.',
     'all photon lists, all elements and all sequences they are put in, all efficiency curves',
     'Tests look at a few elements with a weight that starts at 1, where replacing and multiplying give the same number.',
     ['marxs/optics/base.py', 'marxs/optics/filter.py', 'marxs/optics/grating.py', 'marxs/optics/baffles.py', 'marxs/optics/detector.py',
      'marxs/missions/arcus/spo.py', 'marxs/missions/arcus/boom.py', 'marxs/missions/athena/spo.py', 'marxs/missions/mitsnl/catgrating.py'],
     [('shared assignment of returned columns', 'marxs/optics/base.py:_assign_col_value')],
     observe=['probability column after every element'], technique=VF, note=TRUST)
prop('P02', 'An element changes only photons that intersect it',
     'When a list of photons is passed through an element, the properties of photons that do not hit it stay exactly as they were (an '
     'aperture baffle, which removes photons outside its opening, is the exception). Newly computed properties are assigned to the photons '
     'they were computed for.',
     'all photon lists with any mixture of hits and misses (including none and all), all elements',
     'Tests mostly send photons that all hit; a missing or misaligned row selection shows only for mixtures.',
     ['marxs/optics/base.py', 'marxs/optics/detector.py', 'marxs/optics/grating.py', 'marxs/optics/scatter.py', 'marxs/optics/mirror.py',
      'marxs/missions/arcus/boom.py', 'marxs/missions/athena/spo.py', 'marxs/missions/mitsnl/catgrating.py'],
     [('row selection by the intersection mask', 'marxs/optics/base.py:OpticalElement.process_photons')],
     observe=['every photon column after an element'], technique=VF, note=TRUST)
prop('P03', 'The interaction with an element is recorded on exactly the photons that hit',
     'After an element has processed the photons, those that hit carry the intersection point as position, the local coordinates of that '
     'point in the named local coordinate columns and, where an identification column is requested, the id of the element. Photons '
     'that did not hit keep their position, have no local coordinates from it, and keep their previous id or the value -1.',
     'all elements, all photon lists, all coordinate and id column names',
     'Needs photon lists where some rays hit none, one or several elements; tests check single elements with fixed rays.',
     ['marxs/optics/base.py', 'marxs/base/base.py', 'marxs/simulator/simulator.py', 'marxs/optics/aperture.py'],
     [('recording of positions, ids and local coordinates', 'marxs/optics/base.py:OpticalElement.__call__')],
     observe=['pos, id and coordinate columns'], technique=VF, note=TRUST)
prop('P13', 'Ray-surface intersections satisfy surface and ray equations, in the local frame',
     'For every geometry the reported intersection point lies on the ray and on the surface within its bounds, and local coordinates are '
     'those of this point in the frame of the element; rays that miss are flagged as misses with undefined coordinates. The same frame '
     'gives the tangent and normal vectors used at that point.',
     'all rays, all placements of the surface in space, planes, holes, cylinders and segments of cylinders',
     'Tests sample a few rays on a few placements; sign and solution-branch errors appear only for specific ray/placement combinations.',
     ['marxs/math/geometry.py', 'marxs/math/pluecker.py', 'marxs/math/utils.py'],
     [('intersection routines', 'marxs/math/geometry.py:intersect'), ('line and plane coordinates', 'marxs/math/pluecker.py')],
     over=('inputs',), observe=['hit mask, intersection point, local coordinates'], technique=SPEC, note=TRUST)
prop('P23', 'Gratings obey the diffraction equation and record the order that was used',
     'The direction of a diffracted photon has the component along the grooves unchanged, the component across the grooves changed by '
     'order times wavelength over period, and unit length, on the side of the surface given by transmission or reflection. The order recorded '
     'for a photon is the one used for its direction, and the weight factor is the efficiency selected for that energy.',
     'all photon directions, energies, orders, groove orientations and periods',
     'Tests check a few orders at normal incidence, where sign and projection errors vanish.',
     ['marxs/optics/grating.py'],
     [('diffraction', 'marxs/optics/grating.py:FlatGrating.diffract_photons'), ('order selection', 'marxs/optics/grating.py:OrderSelector')],
     over=('inputs', 'configurations'), observe=['direction, order, blaze and probability of diffracted photons'], technique=SPEC, note=TRUST)
prop('P04', 'Polarization follows every change of direction',
     'Whenever an element changes the direction of a photon, its polarization vector is carried along (parallel transport from the old to the '
     'new direction), so it stays perpendicular to the direction of flight and keeps its length; photons whose direction does not change '
     'keep their polarization. Pointing models and laboratory sources create polarization vectors perpendicular to the photon direction for '
     'the requested polarization angle, and a jitter rotates direction and polarization by the same rotation.',
     'all photon directions and polarizations, all elements that scatter, diffract or reflect',
     'Tests rarely look at polarization after an element, and at normal incidence old and new directions give the same result.',
     ['marxs/math/polarization.py', 'marxs/optics/grating.py', 'marxs/optics/scatter.py', 'marxs/optics/mirror.py',
      'marxs/optics/multiLayerMirror.py', 'marxs/missions/mitsnl/catgrating.py', 'marxs/source/pointing.py', 'marxs/source/labSource.py'],
     [('parallel transport', 'marxs/math/polarization.py:parallel_transport')],
     observe=['dir and polarization columns'], technique=VF + '; ' + SPEC, note=TRUST)
prop('P05', 'Homogeneous coordinates keep their meaning',
     'Points keep weight 1 and directions weight 0: converting between euclidean and homogeneous coordinates divides by the weight for points, '
     'leaves directions alone and refuses input that mixes both, for arrays of any shape, and normalised vectors have unit length.',
     'arrays of points or directions of any shape and any weight',
     'Tests convert a few arrays; the mixed and scaled cases are input dependent.',
     ['marxs/math/utils.py'], [('conversion', 'marxs/math/utils.py:h2e')], over=('inputs',),
     observe=['return values of e2h, h2e, norm_vector'], technique=SPEC, note=TRUST)
prop('P07', 'Containers run every step on the photons of the previous step, in order',
     'A sequence passes the photons through all preprocessing steps, then through its elements in order and then through the postprocessing '
     'steps; every step receives what the previous one returned and the final photons are returned. Objects that are not callable are refused '
     'when the container is made. Monitoring steps store a copy of the column as it was at that time. Searching a container finds the '
     'elements of the requested class.',
     'all nestings and lengths of containers, all step lists',
     'Order and hand-over depend on combinations of nested containers and steps that tests do not enumerate.',
     ['marxs/simulator/simulator.py'], [('container call', 'marxs/simulator/simulator.py:BaseContainer.__call__')],
     over=('inputs', 'configurations'), observe=['calls made to the elements', 'monitor data'], technique=SPEC, note=TRUST)
prop('P08', 'Repeated elements are placed by the documented chain of transformations',
     'Position keywords give the transformation zoom, then rotation, then translation. Each member of a container of parallel '
     'elements is placed by its own position, the transformation common to all members, the uncertainty of the member and the position and '
     'uncertainty of the container, in the documented order; moving the centre does not move the members in space. Each member gets its '
     'own parameters, its own id number and the id column of the container.',
     'all positions, orientations, zooms, uncertainties, numbers of members',
     'Transformations commute for the simple placements used in tests; order errors appear only for combinations of rotation, shift and zoom.',
     ['marxs/base/base.py', 'marxs/simulator/simulator.py', 'marxs/math/utils.py', 'marxs/math/rotations.py'],
     [('member placement', 'marxs/simulator/simulator.py:Parallel.generate_elements'),
      ('position keywords', 'marxs/base/base.py:_parse_position_keywords')],
     observe=['pos4d, id_num and arguments of the members'], technique=SPEC, note=TRUST)
prop('P10', 'Sources create complete photon lists with the requested distribution on the sky',
     'A source returns one row per emission time with time, energy, polarization angle and probability 1 in the documented units. Sky sources '
     'put the photons where the source shape says (disk, ring, Gauss, radial profile, point) around the source coordinates, laboratory '
     'sources give each photon a start position on the aperture or at the source and a direction inside the requested cone.',
     'all source types, coordinates, sizes, exposure times',
     'Only distributions and units are observable; tests check a few moments of a few sources.',
     ['marxs/source/basesources.py', 'marxs/source/labSource.py', 'marxs/math/random.py'],
     [('photon list', 'marxs/source/basesources.py:Source.generate_photons')],
     observe=['columns of the new photon list'], technique=SPEC, note=TRUST)
prop('P25', 'Detectors report the pixel of the hit position and the measured energy',
     'Pixel coordinates are the local coordinates divided by the pixel size plus the centre pixel, for the same photon, on flat and on curved '
     'detectors (where the first coordinate is the arc length). Energy redistribution draws the detected energy of each photon from the '
     'distribution that belongs to its true energy.',
     'all detector placements, sizes, pixel sizes, photon energies',
     'Tests use pixel sizes and centres where errors in the relation cancel.',
     ['marxs/optics/detector.py'], [('pixels', 'marxs/optics/detector.py:FlatDetector.specific_process_photons')],
     observe=['detpix_x, detpix_y, detected energy'], technique=SPEC, note=TRUST)
prop('P26', 'Apertures fill their opening evenly and weight photons by the projected area',
     'Photons start evenly distributed over the opening of the aperture, in its own position and orientation; their weight is reduced by the '
     'cosine of the angle between photon direction and aperture normal, and the area reported is the geometric area of the opening. An aperture '
     'with several openings sends photons to them in proportion to their area.',
     'all shapes, placements and photon directions',
     'Distribution and weights need many photons and inclined incidence.',
     ['marxs/optics/aperture.py'], [('projection', 'marxs/optics/aperture.py:FlatAperture.specific_process_photons')],
     observe=['pos and probability columns', 'area'], technique=SPEC, note=TRUST)
prop('P27', 'Pointing turns sky coordinates into photon directions consistently',
     'The direction of a photon is opposite to the position of its origin in the sky frame centred on the pointing and rotated by the roll '
     'angle, transformed with the reference transformation, with unit length. Polarization angles are measured north through east in that '
     'frame. Pointing keywords in the header are the coordinates and roll used. Jitter is a random rotation about an axis perpendicular to the optical axis with the given width.',
     'all sky positions, roll angles and reference transformations',
     'Tests use a few sky positions, mostly with roll zero.',
     ['marxs/source/pointing.py', 'marxs/missions/chandra/dither.py'],
     [('direction', 'marxs/source/pointing.py:FixedPointing.photons_dir')],
     observe=['dir and polarization columns, header'], technique=SPEC, note=TRUST)
prop('P29', 'Scattering turns directions by the drawn angles and nothing else',
     'Scattered photons keep a unit direction; in-plane and perpendicular scattering angles are drawn independently with the given widths and '
     'rotate the photon in and perpendicular to the plane of reflection; the angle recorded is the one applied; a width of zero leaves the '
     'photons untouched. Weights and positions do not change.',
     'all scattering widths including zero, all directions',
     'The angles are random; tests only check averages for one direction.',
     ['marxs/optics/scatter.py'], [('scattering', 'marxs/optics/scatter.py:RadialMirrorScatter.specific_process_photons')],
     observe=['dir and scatter columns'], technique=SPEC, note=TRUST)
prop('P30', 'Times, energies and polarization angles are drawn from what the source specifies',
     'Emission times lie in the exposure time: evenly spaced for a constant rate, exponential waiting times with the total rate for a Poisson '
     'process. Energies and polarization angles are constant, drawn from the tabulated density using upper bin edges, or those returned by '
     'a function, and a wrong specification or a function that returns an array of the wrong length is refused.',
     'all flux, energy and polarization specifications, exposure times, geometric areas',
     'Random streams; tests check a handful of specifications by their averages.',
     ['marxs/source/basesources.py', 'marxs/math/random.py'],
     [('times', 'marxs/source/basesources.py:Source.generate_times'), ('energies', 'marxs/source/basesources.py:Source.generate_energies')],
     observe=['time, energy and polangle columns'], technique=SPEC, note=TRUST)
prop('P31', 'Lenses and mirrors send photons where the optics formulas say',
     'A perfect lens sends a photon that passes through a point to the focal point of its direction, with a loss for two reflections; a thin lens '
     'bends by distance over focal length; a multilayer mirror reflects with the direction mirrored at its surface and the Fresnel '
     'or tabulated reflectivity of both polarization components at the position and energy of the photon.',
     'all directions, positions, energies, polarization states and focal lengths',
     'Input dependent formulas, tested at a few points.',
     ['marxs/optics/mirror.py', 'marxs/optics/multiLayerMirror.py'],
     [('lens', 'marxs/optics/mirror.py:PerfectLens.specific_process_photons'),
      ('reflection', 'marxs/optics/multiLayerMirror.py:FlatBrewsterMirror.specific_process_photons')],
     over=('inputs',), observe=['dir, polarization and probability columns'], technique=SPEC, note=TRUST)

prop('P24', 'Structures on a Rowland torus sit on the torus and face the right way',
     'The torus functions describe one surface: parametric points satisfy the quartic, the inverse recovers the parameters for points on it '
     '(and refuses others), ray intersections lie on ray and surface, normals are perpendicular to it, in any placement. Element '
     'structures put their elements on the torus within the requested ranges, evenly spaced without overlap, with the default orientation '
     'along the torus normal; the designed tilted and double tori have the documented radii, offsets and orientation.',
     'all torus radii and placements, all points, all grid and array sizes',
     'Formulas over continuous input; tests use a few untilted tori and one or two arrays.',
     ['marxs/design/rowland.py'], [('surface', 'marxs/design/rowland.py:RowlandTorus.quartic'),
      ('element positions', 'marxs/design/rowland.py:ElementsOnTorus.elempos')],
     over=('inputs', 'configurations'), observe=['points, parameters, normals, element positions'], technique=SPEC, note=TRUST)
prop('P12', 'Settings given on construction are used, and unknown ones are an error',
     'Every documented keyword of an element is stored and used with its documented meaning and default, keywords that no class '
     'in the inheritance chain knows raise an error (never ignored), and settings outside their valid range (unordered or too large angle '
     'ranges, apertures whose hole exceeds their size, missing scatter) are rejected.',
     'all combinations of keywords of all element classes',
     'Tests construct elements with the few keywords they need; a dropped or swallowed keyword only matters for the others.',
     ['marxs/base/base.py', 'marxs/optics/base.py', 'marxs/math/geometry.py', 'marxs/optics/aperture.py', 'marxs/optics/filter.py',
      'marxs/optics/mirror.py', 'marxs/optics/scatter.py', 'marxs/optics/multiLayerMirror.py'],
     [('base class consumes or rejects keywords', 'marxs/base/base.py:MarxsElement.__init__')],
     over=('configurations',), observe=['attributes after construction, errors raised'], technique=SPEC, note=TRUST)
prop('P32', 'Photon lists carry the tags of the run, and inconsistent lists are noticed',
     'A version tag step writes the date, the code version and every user supplied tag to the header of the photon list and changes no photon. '
     'Consistency checks accept lists whose tags or energies agree and raise an error whenever a tag differs, is present on one side only '
     '(or missing, where that is not allowed), or the energies of the photons differ.',
     'all tags, all pairs of headers, all photon lists', 'Tests look at one or two keywords.',
     ['marxs/base/base.py'], [('tags', 'marxs/base/base.py:TagVersion'), ('check', 'marxs/base/base.py:check_meta_consistent')],
     over=('inputs', 'configurations'), observe=['header of the photon list, errors'], technique=SPEC, note=TRUST)
prop('P09', 'Tolerance runs move exactly what is asked, for fresh photons, and record it',
     'The functions that perturb an instrument apply exactly the requested shifts (mm) and rotations (rad, about x, y, z in that order) to exactly the '
     'elements given (one or many), measured from the unperturbed position and not on top of an earlier perturbation; random ones draw per '
     'element from the requested widths. A series of runs applies each parameter set in turn to its own copy of the input photons, returns one '
     'row per set with the parameters and the analysis results, labels rows with their energy, and resets the instrument if asked. Lists of single-'
     'parameter changes contain each requested value and its negative once.',
     'all parameter sets, instruments and element selections, any history of earlier perturbations',
     'Tests apply one perturbation to a fresh instrument; accumulation over a series, axis order and unit conversions show only in sequences.',
     ['marxs/design/tolerancing.py', 'marxs/design/uncertainties.py'],
     [('perturbations', 'marxs/design/tolerancing.py:moveelem'), ('series', 'marxs/design/tolerancing.py:run_tolerances')],
     over=('inputs', 'histories'), observe=['position matrices of elements, result table'], technique=SPEC, note=TRUST)
prop('P34', 'Bent and chirped gratings keep their center and focus the chosen order',
     'Bending replaces the surface of a grating by a cylinder of the given radius through the same center with the same extent. Chirping '
     'finds for every sampled position on the grating the period that sends a ray of the chosen energy and order to the point hit by the ray '
     'through the center, interpolates it over the full grating, and puts the original order selector back.',
     'all gratings, radii, energies, orders and sampling points', 'No test covers bent or chirped gratings.',
     ['marxs/design/bendgratings.py'], [('chirp', 'marxs/design/bendgratings.py:NumericalChirpFinder'),
                                        ('bend', 'marxs/design/bendgratings.py:bend_gratings')],
     over=('inputs', 'configurations'), observe=['geometry, period function and order selector of gratings'], technique=SPEC, note=TRUST)
prop('P28', 'Figures of merit are the documented statistics of the photon list',
     'Resolving power, effective area, detected fractions, best focus and projected coordinates are computed from exactly the photons, '
     'columns, orders and weights that are selected: effective areas are weighted sums divided by the number of simulated photons, '
     'resolving powers are distance from the zeroth order over the full width at half maximum, averages are weighted with the effective '
     'area, and too small samples give nan (or an error for the zeroth order).',
     'all photon lists, orders, columns, filters and instruments',
     'Tests compare a few simulated numbers with wide statistical tolerance, so a wrong selection or weight can go unnoticed.',
     ['marxs/analysis/gratings.py', 'marxs/analysis/analysis.py', 'marxs/analysis/coords.py', 'marxs/analysis/run_helpers.py', 'marxs/analysis/plots.py'],
     [('capture of resolution and area', 'marxs/analysis/gratings.py:CaptureResAeff'),
      ('best focus', 'marxs/analysis/analysis.py:find_best_detector_position')],
     observe=['returned numbers and tables'], technique=SPEC, note=TRUST)
prop('P14', 'Response files describe the same redistribution that went in',
     'Response matrices are stored as groups of channels above the threshold and reading the row for an energy gives back the same values in the '
     'same channels, for any first channel number (TLMIN), number of groups and storage format. Channel boundaries are in increasing energy, '
     'energy and wavelength grids are consistent, tables that act on either a column or a header key return the value that was set last, '
     'files that miss required columns or keywords are rejected, and line-spread-function parameters convert to model parameters and back.',
     'all response matrices, channel grids, thresholds, keywords and line spread functions',
     'Tests use one format with one group per row and never evaluate a matrix that was written and read back.',
     ['marxs/reduction/ogip.py', 'marxs/reduction/lsfparm.py'],
     [('response matrix', 'marxs/reduction/ogip.py:RMF'), ('line spread function to RMF', 'marxs/reduction/lsfparm.py:make_rmf')],
     over=('inputs', 'histories'), observe=['response tables, headers, returned responses'], technique=SPEC, note=TRUST)
prop('P15', 'Order sorting multiplies areas by the probability inside the sorting region',
     'For each nominal and true grating order, the order sorting factor is the probability that the detector energy of a photon of the true '
     'order falls between the bounds of the region of the nominal order at the same position on the detector, zero for orders on the other side. '
     'Widths and bounds of a region are equivalent descriptions. An effective area file is multiplied by the factor once: a factor '
     'applied before is removed first, the factor and both orders are recorded, and every combination of nominal order and offset is processed.',
     'all detector resolutions, regions, grids in energy or wavelength, orders and offsets',
     'Tests check symmetric regions and extreme widths; asymmetric regions, repeated application and first order are not covered.',
     ['marxs/reduction/osip.py'],
     [('factor', 'marxs/reduction/osip.py:OSIPBase.osip_factor'), ('application', 'marxs/reduction/osip.py:OSIPBase.apply_osip')],
     over=('inputs', 'histories'), observe=['sorting factors, effective areas, headers'], technique=SPEC, note=TRUST)
prop('P35', 'Elements of the missions apply their documented physics and layout',
     'CAT gratings and their L1 and L2 supports diffract, absorb and blaze with tabulated efficiencies as functions of wavelength and blaze '
     'angle; silicon pore optics, metashells and booms have the documented layout, acceptance windows, focal behaviour and numbering, absorb '
     'exactly the photons that hit a rod and scale the probability by the tabulated or geometric efficiency of the photon; error budgets '
     'reformat to displacements and rotations of the documented elements in the right units. Arcus, Lynx and AXIS assemble mirrors, gratings, '
     'filters and detectors in the order and with the distances, tilts, identification numbers and tolerances of the configuration that is passed '
     'in, and responses (effective area, chip geometry, redistribution) and grating coordinates follow from that same configuration.',
     'all photons, tables and mission configurations',
     'Missions are tested by a few simulations with wide tolerance that need calibration data which are not distributed.',
     ['marxs/missions/mitsnl/catgrating.py', 'marxs/missions/athena/spo.py', 'marxs/missions/arcus', 'marxs/missions/lynx', 'marxs/missions/AXIS/AXIS.py'],
     [('CAT gratings', 'marxs/missions/mitsnl/catgrating.py'), ('boom', 'marxs/missions/arcus/boom.py:Rod'), ('metashells', 'marxs/missions/lynx/mirror.py'), ('Arcus', 'marxs/missions/arcus/arcus.py:Arcus'), ('Lynx', 'marxs/missions/lynx/lynx.py:PerfectLynx'), ('responses', 'marxs/missions/arcus/arfrmf.py')],
     observe=['photon columns, geometry and lists of elements'], technique=SPEC, note=TRUST)
prop('P36', 'The Chandra model places its parts and writes event files as documented',
     'The Lissajous dither moves the pointing by amplitude * sin(2 pi t / period + phase) with the right ascension stretched by cos(dec) and rolls it '
     'about the nominal pointing, for constant and for changing roll; photon directions and the aspect solution use that pointing; ACIS chips and HETG facets sit where '
     'the corner and facet tables put them (shifted by aimpoint and detector offset); chip, tiled, focal plane and sky coordinates follow from the position '
     'with the signs and zero points of the coordinate memo; header keywords are completed from exposure and start time without '
     'overwriting values that are set, and columns keep the order that CIAO expects.',
     'all pointings, dither amplitudes, photon positions, detector offsets and headers',
     'The tests compare one dither file and five photons; no test writes an event file or an aspect solution or moves the detector.',
     ['marxs/missions/chandra'],
     [('dither', 'marxs/missions/chandra/dither.py:LissajousDither'), ('ACIS', 'marxs/missions/chandra/det_acis.py:ACISChip.specific_process_photons'),
      ('event file', 'marxs/missions/chandra/fitsheaders.py')],
     observe=['photon columns and meta, files written'], technique=SPEC, note=TRUST)
prop('P16', 'Displays show the geometry that is simulated',
     'Plotting adds every element that has a display shape exactly once to the scene that is passed in (or a new one) and returns it: boxes '
     'have the corners of the position matrix, planes with holes are closed triangulations of the outer and inner outline, parametric surfaces '
     'and rays keep the order of their points, combined triangulations refer to their own points, colors and materials are those of '
     'the display dictionary (falling back to the geometry), elements without shape are skipped with a warning, and rays are colored by their scalar.',
     'all elements, containers, display settings, ray arrays and backends (x3d, three.js, json, mayavi)',
     'Tests look at a few elements in default position with equal numbers of points and do not run most of the backends.',
     ['marxs/visualization', 'marxs/math/geometry.py', 'marxs/optics/baffles.py'],
     [('selection of plot function', 'marxs/visualization/utils.py:plot_object_general'), ('x3d', 'marxs/visualization/x3d.py'),
      ('triangulation', 'marxs/visualization/utils.py:plane_with_hole')],
     observe=['returned scenes, dictionaries and triangulations'], technique=SPEC, note=TRUST)
prop('P11', 'Objects passed in, defaults and shared settings are not modified',
     'A call changes only the objects it is documented to change (the photon list handed to an element, the object itself in a method that sets it up or '
     'moves it). Arguments such as photon lists of analysis functions, keyword dictionaries and configurations are left as they were, '
     'lists and dictionaries that are defined on class or module level or as default values are never written to, so that making one '
     'instance or running one simulation never changes another one, and processing, intersecting and plotting leave the optical elements unchanged '
     'except for the data they are documented to store.',
     'all functions and methods, all arguments, any order and number of constructions and runs',
     'Tests build one object and look at its result; they do not compare class attributes, defaults and inputs before and after.',
     ['marxs'],
     [('copies before changes', 'marxs/analysis/gratings.py:resolvingpower_per_order'), ('class level defaults', 'marxs/optics/base.py'),
      ('display dictionary', 'marxs/base/base.py:MarxsElement')],
     over=('inputs', 'histories', 'configurations'), observe=['arguments, class and module level objects before and after the call'],
     technique='flow-sensitive interprocedural effect and alias analysis against a reviewed list of permitted writes',
     note='May-alias analysis of all functions; constructs without known aliases are not reported. What a function may change is listed in spec/effects.json.')
prop('P19', 'Invalid input is refused with the documented exception',
     'Arguments that make no sense are refused: geometry that contradicts itself or lies outside of the range of definition, missing or double '
     'keywords, elements without required parameters, unknown orders, columns, units, shapes and formats, photon lists '
     'without the keywords needed, unsorted or negative distributions. The documented exception is raised under exactly the condition specified: '
     'never for valid input, always for invalid input, and nothing is returned or changed before.',
     'all arguments, photon lists and configurations',
     'Tests trigger some errors with one value each; boundaries, further values and errors for valid input are not covered.',
     ['marxs'],
     [('arguments of geometry', 'marxs/math/geometry.py'), ('sources', 'marxs/source/source.py'), ('gratings', 'marxs/optics/grating.py')],
     observe=['exception raised, or the result'], technique=SPEC, note=TRUST)
prop('P17', 'Random numbers come from one seedable stream, one independent draw per photon',
     'Every random value is drawn from the global numpy stream, so that numpy.random.seed makes a simulation repeatable; the package never seeds or replaces '
     'that stream. Values are drawn when photons are generated or processed (or errors are drawn), not when modules are imported, and they are never '
     'cached, shared between photons or dependent on the clock, host or the order of a set. Each value comes from its documented distribution with one independent '
     'draw for each photon (or element). Geometry, displays, analysis and responses use no random numbers.',
     'all elements, sources and error generators, all seeds, any order of runs',
     'Tests that fix a seed never compare two runs, and a shared or cached draw passes every check on averages of one run.',
     ['marxs'],
     [('photon directions', 'marxs/source/source.py'), ('scatter', 'marxs/optics/scatter.py'), ('arbitrary distributions', 'marxs/math/random.py')],
     over=('inputs', 'histories'), observe=['state of numpy.random and the values drawn'],
     technique='name resolution and call-graph closure of all draws, plus canonical value numbering compared with specifications', note=TRUST)
prop('P06', 'No photon and no column is lost on the way through an instrument',
     'Elements, containers, pointing models and other simulation steps return the photon list they were given with all rows in the same order: photons that '
     'miss an element, are absorbed or fall off a detector stay in the list (with a smaller probability or an empty value) and every column that '
     'came in is still there with the same name. No path selects, drops, adds or sorts rows.',
     'all elements, containers and photon lists, including empty ones and lists where no photon hits',
     'Tests send photons that hit, and check the columns they are interested in, not whether lines were dropped or reordered.',
     ['marxs'],
     [('elements', 'marxs/optics/base.py:OpticalElement'), ('containers', 'marxs/simulator/simulator.py:BaseContainer.__call__')],
     observe=['photon list returned'], technique=VF, note=TRUST)
prop('P20', 'Root finding, optimisation and interpolation converge to the accuracy needed',
     'Numerical solutions (bisection and quartic for the Rowland torus, placement of elements on curved surfaces, ray tracing of bent gratings, fits of '
     'alignment budgets, interpolated efficiency tables) converge for all geometries in the range of definition, and their error is negligible compared with the pixel size.',
     'all geometries and numbers of iterations', 'Tests check a few well-conditioned geometries.',
     ['marxs/math', 'marxs/design'], [('torus intersection', 'marxs/design/rowland.py:RowlandTorus.quartic')],
     observe=['distance of the solution to the surface'], claim=False)
na('P20', 'Depends on floating point error and conditioning for runtime values of geometry; no sound static bound is in reach (the equations that are solved are decided under P13, P24, P34).')
prop('P21', 'Monte Carlo averages agree with the distributions and probabilities specified',
     'For large numbers of photons, averages over a photon list (effective area, resolving power, fractions per order, spread) converge to the expectation value of '
     'the specified physics with the statistical error expected.',
     'all sources, instruments and seeds', 'Tests compare single runs with wide margins.',
     ['marxs'], [('effective area', 'marxs/analysis/analysis.py:effectivearea_from_photonlist')],
     observe=['averages over photon lists'], claim=False)
na('P21', 'A statement on averages over runtime samples. That each draw comes from the specified distribution is decided under P17, P26, P29 and P30.')
prop('P22', 'Simulated observations agree with MARX, CIAO and measured data',
     'Positions, effective areas, line spread functions and event files of simulated observations agree with MARX, with CIAO tools, and with data of '
     'real observations and laboratory measurements within their errors.',
     'all observations', 'External programs and data are not part of the test environment.',
     ['marxs/missions/chandra', 'marxs/optics/marx.py'], [('mirror of MARX', 'marxs/optics/marx.py:MarxMirror')],
     observe=['event files'], claim=False)
na('P22', 'The reference is outside of the source (a C library that is not installed, external programs, data), so there is nothing to compare with statically.')
