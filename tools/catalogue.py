"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json.

Run ``python3 tools/catalogue.py`` after editing; both files are rewritten.
"""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
Q, CU, CR = 'defdap/quat.py', 'defdap/crystal_utils.py', 'defdap/crystal.py'
EB, HR, BA = 'defdap/ebsd.py', 'defdap/hrdic.py', 'defdap/base.py'
UT, EX, AC = 'defdap/utils.py', 'defdap/experiment.py', 'defdap/_accelerated.py'
FR, FW = 'defdap/file_readers.py', 'defdap/file_writers.py'
PL, IN = 'defdap/plotting.py', 'defdap/inspector.py'

PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, observe,
         technique, note, state=()):
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe, hook_needed=None),
        technique=technique, note=note))


NOTE = ("Exploration: holds on every case generated from VERIF_SEED (counts in "
        "the evidence file); trusts numpy/scipy and the oracle in the check. ")

# ---------------------------------------------------------------- orientations
prop('Q01', 'Orientation representations agree and round-trip',
     "For every orientation the quaternion, Bunge Euler angle, rotation matrix and "
     "axis-angle forms describe the same passive (sample to crystal) rotation, and "
     "converting to Euler angles and back returns the same orientation with angles in "
     "[0, 2pi), [0, pi], [0, 2pi). Every constructed orientation is a unit quaternion in "
     "the northern hemisphere, and bulk construction from an Euler array equals "
     "construction one at a time.",
     ['inputs'],
     "Every Euler triplet and unit quaternion, including the degenerate PHI = 0, PHI = pi "
     "and 180 degree rotations, any axis scaling and any array of them.",
     "The tests compare a dozen fixed angle sets with stored numbers; conversion errors "
     "live on hemisphere and gimbal branches they do not enumerate.",
     [Q], [('euler/quaternion/matrix conversions', 'Quat.from_euler_angles, from_axis_angle, euler_angles, rot_matrix'),
           ('bulk construction', 'Quat.create_many_quats')],
     ['Quat.quat_coef', 'Quat.euler_angles()', 'Quat.rot_matrix()'],
     'property-based testing: round trips and an independent rotation-matrix oracle',
     NOTE)

prop('Q02', 'Quaternion products and vector transforms are a rotation group action',
     "The product of two orientations is the composition of their rotations (associative, "
     "with the conjugate as inverse), and transforming a vector equals applying the "
     "rotation, preserving lengths and angles and mapping back under the conjugate. Bulk "
     "multiplication of many orientations gives the same result, element by element, as "
     "scalar multiplication, and no such operation changes its operands.",
     ['inputs'],
     "Every pair and triple of orientations, every vector, and every array of orientations.",
     "Tests use a few fixed products; algebraic laws quantify over all pairs and triples.",
     [Q], [('Hamilton product', 'Quat.__mul__'), ('vector transform', 'Quat.transform_vector'),
           ('vectorised product', 'Quat.multiply_many_quats')],
     ['Quat.__mul__', 'Quat.conjugate', 'Quat.transform_vector', 'Quat.multiply_many_quats'],
     'property-based testing: group laws and differential scalar/bulk/matrix check', NOTE)

prop('Q03', 'Misorientation is the symmetry-reduced minimum angle',
     "The symmetry operators of each crystal structure form a group (24 cubic, 12 hexagonal "
     "rotations), and the misorientation of two orientations is the smallest rotation angle "
     "between them over all symmetric equivalents. It is therefore symmetric in its "
     "arguments, unchanged when either is replaced by a symmetric equivalent, between 0 and "
     "the symmetry's maximum, and zero only for equivalent orientations; the single-pair and "
     "bulk forms and the returned closest equivalent agree.",
     ['inputs'],
     "Every pair of orientations and every symmetry operator on either side, for both crystal "
     "structures, including pairs related exactly by symmetry.",
     "Tests check stored values for a few pairs; one wrong operator or sign only shows for the "
     "pairs whose minimum uses it.",
     [Q, CR], [('symmetry tables', 'crystalStructures[...].symmetries'),
               ('minimum over equivalents', 'Quat.mis_ori, Quat.calc_sym_eqvs, Quat.calcMisOri')],
     ['Quat.mis_ori', 'Quat.calcMisOri', 'Quat.calc_sym_eqvs', 'Quat.sym_eqv'],
     'property-based testing: metamorphic symmetry relations and brute-force matrix oracle', NOTE)

prop('Q04', 'Average orientation is central and representation independent',
     "The average of a cluster of orientations lies within the cluster's spread, so averaging "
     "copies of one orientation returns it. Replacing any member by a symmetric equivalent or "
     "reordering the members leaves the average the same orientation up to crystal symmetry, "
     "wherever in orientation space the cluster lies.",
     ['inputs'],
     "Every tight cluster of orientations about any mean, any order, any choice of symmetric "
     "equivalents, both crystal structures.",
     "Tests average a handful of stored orientations whose equivalents never cross the "
     "hemisphere boundary.",
     [Q], [('closest equivalent accumulation', 'Quat.calc_average_ori')],
     ['Quat.calc_average_ori', 'Grain.ref_ori'],
     'property-based testing: metamorphic relations and cluster-radius bound', NOTE)

prop('Q05', 'Fundamental sector directions are symmetric equivalents inside the sector',
     "Reducing a sample direction to the inverse pole figure gives, for every orientation, a "
     "crystal direction inside the fundamental sector of its symmetry (the requested up or down "
     "triangle for hexagonal) that is related to the true crystal direction by a symmetry "
     "operation or inversion. The result does not depend on the length of the sample direction, "
     "on which symmetric equivalent represents the orientation, or on the other orientations "
     "reduced in the same call.",
     ['inputs'],
     "Every orientation (including those mapping the direction onto sector edges and corners), "
     "every non-zero direction, both structures and both triangle conventions.",
     "Tests fix a few orientations in the sector interior.",
     [Q], [('sector search', 'Quat.calc_fund_dirs'), ('polar angles', 'Quat.polar_angles')],
     ['Quat.calc_fund_dirs'],
     'property-based testing: membership/equivalence predicate and batch independence', NOTE)

prop('Q06', 'IPF and Euler colours are valid and consistent',
     "Inverse pole figure colours are finite RGB values in [0, 1] whose largest component is 1, "
     "equal pure red, green and blue at the sector corners, depend only on the crystal direction up "
     "to symmetry, and vary continuously. In a map, each indexed pixel is coloured by its own "
     "phase's rule from its own orientation and every other pixel has the background colour.",
     ['inputs', 'configurations'],
     "Every orientation, direction and crystal structure; every multi-phase map, phase selection "
     "and background colour.",
     "Tests compare colours of a few stored orientations and no multi-phase map.",
     [Q, EB, BA], [('rgb calculation', 'Quat.calc_ipf_colours'),
                   ('per phase map colouring', 'ebsd.Map.calc_ipf_colour, calc_euler_colour')],
     ['Quat.calc_ipf_colours', "ebsd.Map.calc_ipf_colour", "ebsd.Map.calc_euler_colour"],
     'property-based testing: range/corner/continuity/metamorphic checks and per-pixel oracle', NOTE)

# --------------------------------------------------------------------- crystal
prop('C01', 'Crystal axes orthonormalisation matches the lattice',
     "For any lattice the orthonormalisation matrix of lattice vectors reproduces the cell's lengths, "
     "angles and volume, and the plane-normal matrix is its reciprocal, so a plane normal is "
     "perpendicular to exactly the directions that lie in the plane by their indices. The HKL and TSL "
     "conventions place the axes as documented and describe the same lattice.",
     ['inputs', 'configurations'],
     "Every valid set of lattice parameters, both conventions, and every plane and direction index.",
     "Tests compare three stored matrices.",
     [CU], [('L matrix', 'create_l_matrix'), ('Q matrix', 'create_q_matrix'), ('projection', 'project_to_orth')],
     ['create_l_matrix', 'create_q_matrix', 'project_to_orth'],
     'property-based testing: metric-tensor oracle and duality invariant', NOTE)

prop('C02', 'Miller and Miller-Bravais indices convert without loss',
     "Converting plane or direction indices between Miller and Miller-Bravais and back gives "
     "the same plane or direction, the redundant index is always minus the sum of the first "
     "two, and the converted indices describe the same Cartesian line or normal. Reduced "
     "indices are the smallest integers parallel to the input, sign-normalised indices are the "
     "same line, equivalent-index lists are the orbit under the symmetry operators, and labels "
     "of single-digit indices read back to the same integers.",
     ['inputs'],
     "Every small-integer plane and direction for both crystal structures and any c/a ratio.",
     "Tests pin a few index triples.",
     [CU], [('conversion', 'convert_idc'), ('reduction', 'reduce_idc, pos_idc, safe_int_cast'),
            ('orbits', 'equavlent_indicies'), ('labels', 'idc_to_string, str_idx')],
     ['convert_idc', 'reduce_idc', 'pos_idc', 'equavlent_indicies', 'idc_to_string'],
     'property-based testing: round trips, Cartesian oracle and orbit enumeration', NOTE)

prop('C03', 'Slip systems are loaded, grouped and expanded faithfully',
     "Every slip system of a definition file, shipped or user supplied, is loaded once with "
     "its indices and unit Cartesian vectors, and grouping by plane or family puts each system "
     "in exactly one group whose members share that plane or are symmetry related; printed "
     "lists name every system. The generated family is the complete symmetry orbit, is the "
     "same whichever member generates it, and every shipped system's slip direction lies in "
     "its slip plane. Each phase gets the definition that fits its crystal structure and axial "
     "ratio.",
     ['inputs', 'configurations'],
     "All shipped files, every valid generated definition file, every slip system with small indices, any "
     "c/a ratio and any phase.",
     "Tests cover no loading or grouping at all beyond using default files.",
     [CR, CU, 'defdap/slip_systems'], [('loading and grouping', 'SlipSystem.load, SlipSystem.group'),
                ('family generation', 'SlipSystem.generate_family'), ('phase defaults', 'Phase.__init__')],
     ['SlipSystem.load', 'SlipSystem.group', 'SlipSystem.generate_family', 'Phase.slip_systems'],
     'property-based testing: file round trip and orbit/partition oracle', NOTE)

prop('C04', 'Schmid factors and slip traces follow from geometry',
     "For every grain orientation the Schmid factor of each slip system equals |cos(phi) "
     "cos(lambda)| for the load direction whatever its length, lies in [0, 0.5], and reversing "
     "the load, or rotating grain and load together, changes nothing; a plotted Schmid factor "
     "is the largest among the chosen planes and directions. Each slip trace is a unit vector "
     "lying both in the slip plane and in the map plane (reported with the angle of that line; "
     "undefined when the two planes coincide), and neither depends on the symmetric equivalent "
     "used for the orientation other than by permuting the systems.",
     ['inputs', 'configurations'],
     "Every orientation, load direction, crystal structure and slip system set, single or averaged over a "
     "grain's points.",
     "Tests evaluate one map with stored grain values.",
     [EB, CR], [('Schmid factors', 'ebsd.Grain.calc_average_schmid_factors, ebsd.Map.calc_average_grain_schmid_factors'),
                ('traces', 'ebsd.Grain.calc_slip_traces')],
     ['Grain.average_schmid_factors', 'Grain.slip_trace_angles', 'Grain.slip_trace_inclinations'],
     'property-based testing: direct formula oracle and metamorphic rotation/symmetry relations', NOTE)

# ------------------------------------------------------------------------ EBSD
prop('E01', 'Boundaries are exactly where misorientation or phase changes',
     "An edge between two 4-connected pixels is a grain boundary exactly when their phases "
     "differ or their misorientation, reduced by the symmetry of the map's primary phase, "
     "exceeds the tolerance, and a phase boundary exactly when their phases differ; nothing "
     "else is marked. The image, point and line forms of a boundary set describe the same "
     "edges, and a map without boundaries has an empty image.",
     ['inputs', 'configurations'],
     "Every orientation/phase map including single-row and single-grain maps, non-indexed points and several phases, "
     "and every tolerance.",
     "Tests use one 25k pixel map and compare stored arrays; absence of boundaries and non-indexed regions are not sampled.",
     [EB], [('edge detection', 'ebsd.Map.find_boundaries'), ('boundary set forms', 'BoundarySet')],
     ['Map.data.grain_boundaries', 'Map.data.phase_boundaries'],
     'property-based testing against a brute-force per-edge oracle', NOTE)

prop('E02', 'EBSD grains partition the map into connected regions',
     "Grains are exactly the 4-connected regions of indexed pixels not separated by a boundary that hold at least the minimum "
     "number of points: every pixel belongs to one grain, to a removed small region, or is non-indexed, and the label map says "
     "which. Grain ids are consecutive and match labels, and each grain's point list, orientations and phase are those of its "
     "pixels, whatever the boundary layout, minimum size or number of times grains are regenerated.",
     ['inputs', 'configurations', 'histories'],
     "Every map shape (including one pixel wide), orientation/phase pattern, boundary tolerance and minimum grain size, and "
     "repeated regeneration with different parameters.",
     "Tests count the grains of one stored map at one setting.",
     [EB, AC, BA], [('flood fill', '_accelerated.flood_fill, ebsd.Map.find_grains'), ('grain lists', 'base.Map.grains, base.Grain')],
     ['Map.data.grains', 'Map.grains', 'Grain.data.point', 'Grain.phase'],
     'property-based testing against a union-find connected-component oracle', NOTE)

prop('E03', 'Grain reference orientation and misorientation are consistent',
     "Each grain's reference orientation is the symmetry-aware average of its own pixels, each "
     "pixel's in-grain misorientation is its symmetry-reduced angle to that reference, and the "
     "axis components reproduce the rotation between them. The grain's average misorientation "
     "is the mean of the stored per-pixel values, the map form is the same values placed at "
     "the grain's pixels, and a grain of identical orientations has zero misorientation with "
     "no undefined values.",
     ['inputs', 'histories'],
     "Every grain of every generated map, both crystal structures, with and without stored derived values.",
     "Tests compare stored numbers for one map.",
     [EB, Q], [('average', 'Grain.calc_average_ori'), ('misorientation list', 'Grain.build_mis_ori_list'),
               ('map assembly', 'Map.calc_grain_mis_ori, Map.calc_grain_av_oris')],
     ['Grain.ref_ori', 'Grain.data.GROD', 'Grain.data.GROD_axis', 'Grain.average_mis_ori'],
     'property-based testing against a scalar misorientation oracle', NOTE)

prop('E04', 'KAM is the mean misorientation to the four nearest neighbours',
     "The kernel average misorientation of every pixel is the misorientation (not reduced by "
     "symmetry) whose half-angle cosine is the mean of those to its existing 4-connected "
     "neighbours, rows and columns weighing equally, and is zero where the neighbourhood is "
     "uniform. It does not change when the map is mirrored or when all orientations are "
     "rotated together.",
     ['inputs'],
     "Every orientation map of any shape with at least two rows and columns.",
     "Tests compare one stored map.",
     [EB], [('KAM', 'ebsd.Map.calc_kam')], ['Map.data.KAM'],
     'property-based testing against a brute-force neighbour oracle', NOTE)

prop('E05', 'Nye tensor and GND density follow from the orientation gradient',
     "The Nye tensor of a map is the linear function of the orientation gradients (symmetry of "
     "the primary phase) given by forward differences, zero in the last row and column, so a "
     "uniform map has zero tensor, a pure lattice bend produces only the components geometry "
     "allows with magnitude curvature over step size, and transposing the roles of x and y "
     "permutes components accordingly. The GND measure is the documented entrywise sum of "
     "absolute components of that tensor.",
     ['inputs'],
     "Every single-phase map of small orientation gradients about any base orientation, any step size.",
     "Tests store one map's values, which encode whatever the code did when they were recorded.",
     [EB], [('Nye tensor', 'ebsd.Map.calc_nye')], ['Map.data.Nye_tensor', 'Map.data.GND'],
     'property-based testing against an independent reference implementation and analytic bends', NOTE)

prop('E06', 'Rotating an EBSD map rotates every quantity by 180 degrees',
     "After rotating a map by 180 degrees every loaded per-pixel quantity is found at the "
     "opposite pixel and every orientation is the original rotated by 180 degrees about the "
     "map normal; rotating twice restores the map. Data generated earlier (boundaries, grains) "
     "is generated anew, so the outcome does not depend on which derived quantities had been "
     "computed before.",
     ['inputs', 'histories'],
     "Every map and every prior sequence of accesses to orientations, boundaries and grains.",
     "The tests never rotate a map.",
     [EB, UT], [('rotation', 'ebsd.Map.rotate_data')], ['Map.data.orientation', 'Map.data.phase', 'Map.data.band_contrast'],
     'property-based testing: access-history differential and involution', NOTE)

prop('E07', 'Kuwahara filtering averages only within the most uniform quadrant',
     "Filtering replaces each pixel's orientation, except in a two pixel wide frame, by the "
     "average over the most uniform of its overlapping 3 by 3 neighbourhoods of those "
     "orientations within tolerance of its own. Uniform regions and the position of a sharp "
     "straight boundary are preserved, orientations stay unit quaternions within the spread of "
     "their neighbourhood, and a constant map is unchanged wherever it lies in orientation "
     "space.",
     ['inputs'],
     "Every small map, threshold and orientation-space location.",
     "The tests never call the filter.",
     [EB], [('filter', 'ebsd.Map.filter_data')], ['ebsd.Map.filter_data'],
     'property-based testing: invariants and neighbourhood oracle', NOTE)

prop('E08', 'Neighbour network matches grain adjacency',
     "Two grains are linked in the neighbour network exactly when they share a boundary edge "
     "away from the map border, and each link's boundary points are exactly those shared "
     "edges, with a misorientation equal to that between the two grains' reference "
     "orientations by the symmetry of the primary phase. The relation is symmetric and never "
     "involves non-grain pixels.",
     ['inputs'],
     "Every grain layout including small removed regions and several phases.",
     "Only one stored map's edge count could be tested; it is not.",
     [EB, BA], [('network', 'ebsd.Map.build_neighbour_network'), ('segments', 'BoundarySegment')],
     ['Map.neighbour_network', 'BoundarySegment.boundary_points'],
     'property-based testing against a brute-force adjacency oracle', NOTE)


# ------------------------------------------------------------------- base maps
prop('B01', 'Boundary distance map gives the nearest boundary point',
     "The proxigram of a map holds at each pixel the distance in pixels to the nearest grain "
     "boundary point. It is the same however the boundary points are batched and follows the "
     "boundaries whenever it is generated again.",
     ['inputs', 'configurations'],
     "Every boundary layout with at least one boundary point, number of points and batch size.",
     "Tests use one boundary layout and one batch size.",
     [BA], [('distance', 'base.Map.calc_proxigram')], ['Map.data.proxigram', 'Map.calc_proxigram'],
     'property-based testing against a brute-force distance oracle', NOTE)

prop('B02', 'Grain data and map data are consistent views of the same pixels',
     "Extracting a grain's values from any map, rebuilding a map from grain values, and cutting out a grain's own image each put every value at the pixel it "
     "belongs to and the background everywhere else, for scalar, vector and tensor data. Derived lists and maps appear under the same name, and grain averages, bounding boxes, centres, "
     "outlines and coarsened images are those of the grain's own pixels.",
     ['inputs', 'configurations'],
     "Every grain shape and position, data type and order, background value, grain subset and coarsening kernel.",
     "Tests compare a few stored grains and scalar data only.",
     [BA, UT], [('extraction', 'base.Grain.grain_data, grain_map_data'), ('assembly', 'base.Map.grain_data_to_map, grain_data_to_map_data, calc_grain_average'),
                ('geometry', 'Grain.extreme_coords, centre_coords, grain_outline')],
     ['Grain.grain_data', 'Grain.grain_map_data', 'Map.grain_data_to_map_data', 'Map.calc_grain_average', 'Grain.data[...]'],
     'property-based testing: round trips and per-pixel dictionary oracle', NOTE)

prop('D01', 'Data store behaves as a lazily generated keyed store',
     "Through any sequence of operations the store returns what was last stored or generated "
     "under a name, generates each generator's data only when first needed (and again when "
     "asked, or on each access if not to be kept), and stores every output of a multi-output "
     "generator under its own name. Names (each listed once), length, iteration and membership "
     "always agree, metadata is kept per item, cropping and masking apply to map data on "
     "access exactly as its metadata says, and unknown names or duplicates are refused without "
     "changing the store.",
     ['histories'],
     "Every sequence of add, set, get, metadata, generator, regenerate and merge operations.",
     "The store has no tests of its own.",
     [UT], [('store', 'Datastore')], ['Datastore.__getitem__', 'Datastore.keys', 'Datastore.generate', 'Datastore.update'],
     'stateful model-based property testing against a dictionary model', NOTE)

prop('D02', 'Derived data always reflects its source store',
     "Data derived from another store is visible under exactly the names of the source items that match the requested properties, with values computed from the source's "
     "current data and properties overridden as declared. This holds with any number of derivations, chained or mutually linked stores, and changes to either store, "
     "and a failed look-up leaves later look-ups unaffected.",
     ['histories'],
     "Every sequence of store changes and accesses over graphs of linked stores, including cycles such as map and grain.",
     "The store has no tests of its own.",
     [UT, BA], [('derivatives', 'Datastore.add_derivative, lookup_derivative_keys')],
     ['Datastore.__getitem__', 'Datastore.keys', 'Datastore.get_metadata'],
     'stateful model-based property testing of linked stores', NOTE)

# -------------------------------------------------------------------------- IO
prop('F01', 'Saving and reloading an EBSD map preserves it',
     "A map saved to a text file and loaded again has the same shape, step size, phases (with their slip systems), phase indices and band contrast, and the same orientations within the file's "
     "printed precision. The file lists each pixel at its own position, row by row, and the given acquisition rotation. Saving never overwrites an existing file.",
     ['inputs'],
     "Every map size, phase list (cubic and hexagonal, any lattice), phase index image with non-indexed points, and orientation.",
     "Tests never write a file and read it back.",
     [FW, FR, EB], [('writer', 'OxfordTextWriter.write'), ('reader', 'OxfordTextLoader.load')],
     ['ebsd.Map.save', 'ebsd.Map(file)'],
     'property-based testing: save/load round trip', NOTE)

prop('F02', 'EBSD loaders recover the data a file contains',
     "Loading any valid EBSD dataset (Oxford binary pair, Oxford text, EDAX text or in-memory dictionary) yields the shape, step size, phases, acquisition rotation, "
     "phase indices, Euler angles and quality maps the data contains, each value at its own pixel and in the documented unit and convention. Field and column order, "
     "unknown extra fields, comments and additional X-ray windows do not disturb the other values.",
     ['inputs', 'configurations'],
     "Every valid file: any field order and subset of optional fields, EDX windows, phase lists, sizes and values.",
     "Tests load one binary pair with one field layout.",
     [FR, EB], [('loaders', 'OxfordBinaryLoader, OxfordTextLoader, EdaxAngLoader, PythonDictLoader')],
     ['ebsd.Map(file).data', 'ebsd.Map.phases', 'ebsd.Map.step_size'],
     'property-based testing: generated files with known contents', NOTE)

prop('F03', 'DIC loaders recover the displacement field a file contains',
     "Loading any valid DIC file (DaVis text, OpenPIV text or binary, PyVale csv or binary) "
     "yields the sub-window size, map shape, coordinates and displacements it contains, "
     "arranged so that coordinates increase along rows and columns (OpenPIV and PyVale in any "
     "row order; missing PyVale points are zero). The same field stored in different "
     "formats therefore gives the same displacements and strains.",
     ['inputs', 'configurations'],
     "Every grid size of at least two by two, spacing, origin, row order, set of missing points (where the format allows) and displacement field.",
     "Tests load one DaVis file.",
     [FR, HR], [('loaders', 'DavisLoader, OpenPivTextLoader, OpenPivBinaryLoader, PyValeLoader')],
     ['hrdic.Map.data.coordinate', 'hrdic.Map.data.displacement', 'hrdic.Map.shape', 'hrdic.Map.binning'],
     'property-based testing: generated files, cross-format differential', NOTE)

prop('F04', 'Inconsistent or damaged data files are refused, not misread',
     "A file whose contents contradict its header (wrong number of points, wrong DIC spacing "
     "or binning, unknown columns, unsupported grid or symmetry), a file cut short of the data "
     "its header promises, or a missing file is refused with an exception instead of yielding "
     "a map of wrong data. A refused load leaves later loads of valid files unaffected.",
     ['inputs', 'fault_sequences'],
     "Every single corruption of a valid file from the listed classes, for every supported format.",
     "Tests check one bad header per loader at most.",
     [FR], [('checks', 'check_data, header parsing in each loader')], ['ebsd.Map(file)', 'hrdic.Map(file)'],
     'structured fuzzing: mutated valid files must raise', NOTE)

# ----------------------------------------------------------------------- HRDIC
prop('H01', 'Strain measures follow from the displacement field',
     "For any displacement field the deformation gradient is the identity plus the spatial derivative of displacement per sub-window, Green strain is half of F-transpose F minus identity, and the effective shear is the in-plane maximum "
     "shear of that strain. Linear fields give the exact uniform deformation everywhere, rigid motions (including large rotations) give zero strain, and adding a rigid translation changes nothing.",
     ['inputs'],
     "Every displacement field, grid size from two by two and sub-window size.",
     "Tests compare stored arrays of one map.",
     [HR], [('strain', 'hrdic.Map.__init__')], ['hrdic.Map.data.f', 'hrdic.Map.data.e', 'hrdic.Map.data.max_shear'],
     'property-based testing: analytic fields and independent finite-difference oracle', NOTE)

prop('H02', 'Cropping, masking and patterns stay aligned through any history',
     "Whatever sequence of crops, masks and accesses precedes it, each map quantity returned "
     "is the full-field data restricted to the current crop with exactly the currently masked "
     "points masked, and the map dimensions match it; statistics leave masked points out and a "
     "changed crop discards grains and distances found on the old one. Crops replace earlier "
     "ones rather than accumulate and can be undone, homologous points asked to follow the "
     "crop keep pointing at the same material point, and pattern images are cropped to the "
     "same region at their own resolution.",
     ['histories', 'inputs'],
     "Every sequence of crop (any subset of sides), mask (with dilation, replaced or removed), homologous point and pattern operations.",
     "Tests set one crop on one map.",
     [HR, UT, EX], [('crop/mask on access', 'hrdic.Map.set_crop, crop, calc_mask, mask; Datastore.__getitem__')],
     ['hrdic.Map.data[...]', 'hrdic.Map.shape', 'Frame.homog_points'],
     'stateful model-based property testing against numpy slicing', NOTE)

prop('H03', 'DIC grains partition the DIC map and match the EBSD grains',
     "Grains found in a DIC map are disjoint sets of pixels whose labels, ids, point lists and "
     "sizes agree, each linked to the EBSD grain it lies on under the alignment of the maps. "
     "With the warp method every pixel takes the label of the EBSD grain beneath it (nearest "
     "pixel); with flood fill each grain is one 4-connected region left by the warped "
     "boundaries with the boundary pixels to its right or below, smaller regions are marked -2 "
     "and other boundary pixels -1.",
     ['inputs', 'configurations'],
     "Every EBSD grain layout, map size, alignment transform, crop, algorithm and minimum grain size.",
     "Tests run both methods on one pair of maps with one transform.",
     [HR, AC, EX], [('grain finding', 'hrdic.Map.find_grains'), ('flood fill', '_accelerated.flood_fill_dic')],
     ['hrdic.Map.data.grains', 'hrdic.Map.grains', 'hrdic.Grain.ebsd_grain'],
     'property-based testing against connected-component and warp oracles', NOTE)

prop('H04', 'DIC data derived from EBSD follows the current link and alignment',
     "Boundaries and other EBSD quantities seen through a DIC map are those of the EBSD map "
     "currently linked, mapped by the current homologous points and current crop, no matter "
     "which maps, transforms or points were linked or evaluated before (grains found earlier "
     "stay until found again). A map without a link refuses such requests.",
     ['histories'],
     "Every sequence of linking, relinking, homologous point changes, boundary regeneration and accesses.",
     "Tests link once and never relink.",
     [HR, UT, EX], [('link', 'hrdic.Map.link_ebsd_map'), ('warp', 'BoundarySet.from_ebsd_boundaries, warp_to_dic_frame')],
     ['hrdic.Map.data.grain_boundaries', 'hrdic.Map.warp_to_dic_frame'],
     'stateful property testing: history differential against a freshly linked map', NOTE)

prop('U01', 'Reporting progress does not change a computation',
     "A computation decorated to report its progress takes the same arguments, performs the same "
     "steps once and in order, returns the same object or raises the same exception as run on "
     "its own, whatever fractions or texts it reports and however computations are nested or "
     "repeated. Its start, texts and growing percentages up to the last one are printed in order.",
     ['histories', 'inputs'],
     "Every sequence of reports, nesting, argument list and outcome.",
     "The decorator has no test; all long computations (loading, boundaries, grains, averages) run through it.",
     [UT], [('decorator', 'report_progress')], ['report_progress'],
     'property-based testing: generated computations run decorated and plain', NOTE)

prop('M01', 'Reading, calculating and plotting do not depend on what was read before',
     "Any sequence of look-ups, calculations with default settings, plots, exports and "
     "statistics on a map (and a map linked to it) gives for each the result it gives alone on "
     "a freshly loaded map, in any order and however often repeated; none changes the loaded data, "
     "the settings, or an array obtained earlier.",
     ['histories'],
     "Every order and repetition of operations that do not set anything, on every map and linked pair.",
     "Tests use each fixture for one operation, mostly once.",
     [EB, HR, BA, UT], [('lazy data', 'Datastore'), ('cached results', 'ebsd.Grain, ebsd.Map, hrdic.Map')],
     ['Map.data', 'Grain.data', 'Map.plot_map', 'Map.calc_grain_mis_ori', 'Map.save'],
     'stateful property testing: each operation of a history against a fresh map', NOTE)

# ------------------------------------------------------------------ experiment
prop('X01', 'Frame transforms recover the mapping defined by homologous points',
     "The transform between two linked frames maps each homologous point of one onto its "
     "partner: exactly for affine, projective or polynomial generated points, whichever "
     "direction the frames were linked in, and the two directions are mutually inverse for "
     "invertible types (for curved polynomials the reverse is the best fit of the same "
     "points), also when a DIC map is linked to an EBSD map with a type named as documented. "
     "Warped lines, to the pixel-edge grid, and images place each feature where the "
     "transform sends it.",
     ['inputs', 'configurations'],
     "Every well-conditioned generating transform and set of points, every transform type and direction.",
     "Tests use one set of points and one affine transform.",
     [EX], [('transform', 'Experiment.get_frame_transform'), ('warping', 'Experiment.warp_image, warp_lines')],
     ['Experiment.get_frame_transform', 'Experiment.warp_image', 'Experiment.warp_lines'],
     'property-based testing: recover the generating transform', NOTE)

prop('X02', 'Experiments keep maps, increments and homologous points in order',
     "An experiment yields its increments in the order added, iterating over a named map "
     "visits exactly the increments that have it with their index, and maps refer back to the "
     "increment and experiment they were added to. Updating homologous points moves exactly "
     "the requested points (one, or all at once) by the requested amount or to the requested "
     "position, whether typed, clicked (the pixel "
     "under the pointer) or nudged by key.",
     ['histories'],
     "Every sequence of increments, maps, frame links and homologous point operations.",
     "No test covers experiments with several increments or interactive point selection.",
     [EX, BA], [('bookkeeping', 'Experiment, Increment, Frame')], ['Experiment.iter_over_maps', 'Frame.homog_points'],
     'stateful model-based property testing', NOTE)

# ------------------------------------------------------------- linker/inspector
prop('L01', 'Linked EBSD maps share reference orientations faithfully',
     "After linking grains across a series of EBSD maps, each link refers to the intended "
     "grain (the one under the pointer when clicked) in every map, and copying reference "
     "orientations from the first map to the others gives every linked grain exactly the "
     "source grain's reference and, once updated, its average misorientation recomputed "
     "against it, leaving unlinked grains unchanged.",
     ['histories'],
     "Every series of maps and every set of links.",
     "The linker has no tests.",
     [EB], [('linker', 'ebsd.Linker')], ['Linker.links', 'Grain.ref_ori', 'Grain.average_mis_ori'],
     'stateful property testing against a link model', NOTE)

prop('I01', 'Slip line records group correctly and survive saving',
     "Lines drawn on a grain are grouped so that every line belongs to exactly one group: the "
     "nearest by angle within 10 degrees when it joined, otherwise its own; each group's angle "
     "is the average of its current members' angles, whatever lines were added, removed or "
     "regrouped before. Saving the records and loading them into a map with the same grains "
     "restores every line, group, angle, slip system assignment and displacement ratio. After each "
     "action the inspector window shows the grain selected: its strain map and values, unit cell, "
     "slip traces, lines and groups.",
     ['histories'],
     "Every sequence of adding, removing, grouping, saving and loading lines, including steep and vertical ones.",
     "The inspector has no tests.",
     [IN, HR], [('lines and groups', 'GrainInspector.group_lines, remove_line'), ('files', 'GrainInspector.save_file, load_file'), ('window', 'GrainInspector.redraw, redraw_line')],
     ['Grain.points_list', 'Grain.groups_list'],
     'stateful property testing with a line model and save/load round trip', NOTE)

prop('I02', 'Relative displacement ratios recover the imposed slip direction',
     "For a grain whose displacement field is discontinuous across drawn lines by a fixed "
     "vector, the computed relative displacement ratio is that vector's u/v ratio independent "
     "of the size of the jump, and theoretical ratios listed for a slip system are those of "
     "its Burgers vector in the sample frame. The slip bands detected in a synthetic banded "
     "map lie at the bands' angle. The figure of a measured ratio is about the grain it was "
     "measured in: the points sampled, the line fitted and the theoretical ratios of its systems.",
     ['inputs'],
     "Every jump vector, line position, orientation and slip system.",
     "The inspector and band detection have no tests.",
     [IN, EB, HR], [('RDR', 'GrainInspector.calc_rdr, GrainInspector.plot_rdr, ebsd.Grain.calc_rdr'), ('bands', 'hrdic.Grain.calc_slip_bands')],
     ['Grain.rdr', 'GrainInspector.calc_rdr', 'hrdic.Grain.calc_slip_bands'],
     'property-based testing: synthetic fields with known answer', NOTE)

# -------------------------------------------------------------------- plotting
prop('P01', 'Pole figure projections preserve their geometry',
     "Projecting a direction places it along its azimuth (crystal y to the right) at the "
     "radius the projection defines (stereographic: tan of half the polar angle, at most 1 in "
     "the upper hemisphere; Lambert: equal area, at most the square root of 2), and the "
     "inverse is recoverable. IPF points fall within the drawn sector outline and each at the "
     "projection of its fundamental direction, and labels and lines named by indices lie at "
     "those indices.",
     ['inputs', 'configurations'],
     "Every direction, both projections and both crystal structures.",
     "Plotting has no numeric tests.",
     [PL, Q], [('projections', 'PolePlot.stereo_project, lambert_project'), ('points', 'PolePlot.add_points')],
     ['PolePlot.stereo_project', 'PolePlot.lambert_project', 'Quat.plot_ipf'],
     'property-based testing: inverse projection oracle on plotted offsets', NOTE)

prop('P02', 'Plots display the data they are given',
     "A map plot shows the requested component of the requested data unaltered, with "
     "boundaries, grain highlights, grain numbers, slip traces, points and line profiles at "
     "the pixels they belong to; histograms count every finite unmasked value in range once in "
     "the requested number of equal (log: equal ratio) bins; grain plots show only the grain's "
     "pixels. Plotting never alters the map's data or the caller's arguments.",
     ['inputs', 'configurations'],
     "Every map, component choice, set of grains and overlay.",
     "Tests exercise no plot contents.",
     [PL, BA], [('layers', 'MapPlot, GrainPlot, HistPlot, LineSlice')], ['MapPlot.img_layers', 'HistPlot', 'GrainPlot'],
     'property-based testing: artist contents against source arrays', NOTE)


prop('P03', 'Drawn unit cells show the orientation',
     "The unit cell drawn for an orientation is a closed cube or hexagonal prism whose corners are the crystal's lattice directions turned into the sample frame, viewed down the sample normal with x to the right and y up (hexagonal: a-axes by the "
     "HKL convention, or the alternative when asked for). Symmetrically equivalent orientations draw the same cell, and each grain draws the cell of its own phase and reference orientation.",
     ['inputs', 'configurations'],
     "Every orientation, both crystal structures and both axis conventions.",
     "Tests never inspect what is drawn.",
     [Q, PL], [('cells', 'Quat.plot_unit_cell'), ('grains', 'Grain.plot_unit_cell')],
     ['Quat.plot_unit_cell', 'Grain.plot_unit_cell', 'CrystalPlot.add_verts', 'crystalStructures'],
     'property-based testing: drawn polygons against an independently rotated cell, metamorphic over symmetry', NOTE)


def schema_entry(p):
    return {k: p[k] for k in ('id', 'title', 'statement', 'quantifier',
                              'why_tests_cant', 'anchors')}


def main():
    with open(ROOT / 'properties.jsonl', 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(schema_entry(p)) + '\n')
    checks, na = [], []
    for p in PROPS:
        if not (ROOT / 'checks' / f"{p['id'].lower()}.py").exists():
            na.append(dict(property=p['id'], reason='check not built yet'))
            continue
        checks.append(dict(
            property=p['id'],
            quick_cmd=f"bash run.sh {p['id']}",
            thorough_cmd=f"env VERIF_TIER=thorough bash run.sh {p['id']}",
            technique=p['technique'], level='exploration',
            level_note=p['note'].strip()))
    manifest = dict(version=1, setup_cmd='bash setup.sh', checks=checks,
                    not_applicable=na)
    (ROOT / 'MANIFEST.json').write_text(json.dumps(manifest, indent=1) + '\n')
    print(len(checks), 'checks,', len(na), 'not claimed')


if __name__ == '__main__':
    main()
