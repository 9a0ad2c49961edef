"""Writes /verif/properties.jsonl (the statements live here so that they can be edited readably)."""
import json, pathlib

G, S, L, O, A, U = ("differt2d/geometry.py", "differt2d/scene.py", "differt2d/logic.py",
                    "differt2d/optimize.py", "differt2d/abc.py", "differt2d/utils.py")
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))


prop("C01", "Image-method paths are the specular reflection paths",
     "For any transmitter, receiver and ordered list of flat walls, the image-method path starts exactly at the transmitter, ends exactly at the receiver and has one interaction point per wall, in the given order, at the place where the path unfolded through the successive mirror images crosses that wall's supporting line. "
     "Its loss is the sum over the walls of their interaction errors, hence about zero when the path obeys the law of reflection at every wall and clearly positive otherwise; when it does, its length equals the distance between the receiver and the last mirror image of the transmitter. "
     "The result does not depend on the random key, on the orientation of the walls, or on whether the end points are given as points or raw coordinates, and exchanging transmitter and receiver while reversing the wall list reverses the path.",
     ["inputs"], "all positions, all wall lists (any length, orientation, scale; walls repeated or aligned)",
     "The tests trace one square room and one reflection; the law must hold for every geometry and order, which no fixed list of scenes covers.",
     [G], [("ImagePath.from_tx_objects_rx", G), ("Wall.image_of, Wall.normal", G)], ["ImagePath.from_tx_objects_rx", "Path.xys", "Path.loss", "Path.length"])

prop("C02", "A path is declared valid exactly when the three requirements hold",
     "In exact mode, any path checked against any scene is valid if and only if (1) its loss is below the tolerance, (2) its i-th interior point projects inside the i-th interacting object, and (3) none of its legs crosses a scene object other than the one(s) on which that leg starts or ends. "
     "The three partial answers (on its objects, obstructed, valid) are each individually correct, for any number and mix of walls, intelligent surfaces and vertices, any tolerance and any resizing patch.",
     ["inputs", "configurations"], "all paths, losses, object mixes, candidates, tolerances, patches",
     "Tests check one or two hand-made or seeded scenes; a wrong exemption, index or combination shows only for particular arrangements of objects and legs.",
     [G, L], [("Path.on_objects, Path.intersects_with_objects, Path.is_valid", G), ("logical_all/logical_and", L)], ["Path.is_valid", "Path.on_objects", "Path.intersects_with_objects"])

prop("C03", "Scene tracing enumerates every pair and candidate, keeping the physical ones",
     "Tracing all paths of a scene yields, for every (transmitter, receiver) pair in order and every path candidate in order, exactly one entry carrying the right names, the path built for that pair and that candidate, the candidate itself, and its validity. "
     "Tracing only the valid paths yields exactly the entries whose validity is true, in the same order, and in exact mode these are exactly the obstruction-free specular paths an independent tracer finds; order limits, object filters, tolerance and patch are honoured.",
     ["inputs", "configurations"], "all scenes (any number of nodes and objects), order ranges, filters, exact or approximate mode",
     "Tests compare the two tracing calls with each other on one square room; they never compare with an independent tracer nor vary the scene.",
     [S, G], [("Scene.all_paths / all_valid_paths / get_interacting_objects", S)], ["Scene.all_paths", "Scene.all_valid_paths"])

prop("C04", "Path candidates are all and only the admissible object sequences",
     "For any number of objects, the path candidates between two orders (both inclusive) are exactly the sequences of object indices of those lengths in which no object appears twice in a row, each appearing once, shorter sequences first. "
     "An object filter restricts the sequences to the kept objects with unchanged indices, the exact-order option overrides both limits, order zero always yields the single empty candidate, and the result of a call does not depend on earlier calls.",
     ["inputs", "histories"], "all object counts, order ranges and filters, and sequences of calls",
     "Tests look at order 0 and at one filtered scene; the enumeration is combinatorial and cached.",
     [S], [("all_path_candidates, Scene.all_path_candidates", S)], ["Scene.all_path_candidates"])

prop("C05", "Traced paths do not depend on frame, labelling or direction",
     "The set of valid paths of a scene (as sequences of objects and points) is carried along by rotations, reflections, translations and uniform scalings of the whole scene; it is unchanged, up to relabelling, by reordering the objects, reversing the direction of walls, or renaming and reordering nodes. "
     "Exchanging the roles of transmitters and receivers reverses every valid path and loses none; adding an object never makes an invalid path among the old objects valid, and adding one far away from every leg changes no verdict.",
     ["inputs"], "all scenes and all such transformations",
     "No test relates two runs; a dependence on frame, object order or direction is invisible on a single scene.",
     [S, G], [("Scene.all_valid_paths", S), ("Path.is_valid", G)], ["Scene.all_valid_paths"])

prop("C06", "Segment and obstruction tests agree with exact geometry",
     "In exact mode the segment test is true if and only if the two segments' supporting lines cross at a point whose parameter on each segment lies within [-tol, 1+tol], bounds included; segments that are parallel, collinear or reduced to a point never intersect. "
     "The answer does not depend on which segment comes first nor on their direction; a wall obstructs a leg if and only if the test holds for the wall lengthened at each end by patch times its length (shortened when negative, unchanged by default), and a vertex never obstructs.",
     ["inputs", "configurations"], "all segment pairs, tolerances and patches",
     "Six hand-picked configurations are tested, all with the default tolerance and no patch.",
     [G], [("segments_intersect", G), ("Wall.intersects_cartesian, Vertex.intersects_cartesian", G)], ["segments_intersect", "Wall.intersects_cartesian"])

prop("C07", "Wall geometry: parameters, normal, mirror image, vertices, sampling",
     "On any wall, parameter 0 is its origin, 1 its destination, and the map to coordinates is affine; the inverse map returns the parameter of a point on the wall's line, that of its orthogonal projection otherwise, and a parameter is contained if and only if it lies in [0, 1], ends included. "
     "The normal is a unit vector obtained by turning the direction clockwise by 90 degrees; the mirror image of a point is at the same distance on the other side, points of the line are their own images, and mirroring twice gives the point back. "
     "Sampled points lie on the wall and its two vertices are its end points in order; origin, destination and direction of a ray match its coordinates.",
     ["inputs"], "all walls, rays, points, parameters and random keys",
     "Tests use one wall with small integer coordinates and six fixed walls for the normal.",
     [G, A], [("Wall.parametric_to_cartesian, cartesian_to_parametric, contains_parametric, normal, image_of, get_vertices", G), ("Interactable.sample", A), ("Ray.origin, Ray.dest, Ray.t", G)], ["Wall methods", "Ray methods", "Vertex methods"])

prop("C08", "Interaction errors measure the departure from each object's law",
     "For a wall, the interaction error of (before, hit, after) is the squared distance between the unit outgoing direction and the specular reflection of the unit incoming direction: zero exactly on the law of reflection, never above 4, unchanged by reversing the triplet, by moving either end along its leg, by the wall's position, length or direction. "
     "For an intelligent surface it is the squared distance between the unit vectors at the outgoing angle (to the normal) and at the surface's constant angle, whatever the incoming point; for a vertex it is always zero. It is never negative nor undefined, even when two of the points coincide.",
     ["inputs"], "all objects, surface angles and triplets of points",
     "Two triplets per class are tested, one correct and one wrong.",
     [G], [("Wall.evaluate_cartesian, RIS.evaluate_cartesian, Vertex.evaluate_cartesian", G), ("normalize", G)], ["evaluate_cartesian"])

prop("C09", "Accumulating over paths sums the function over the valid paths",
     "For any function, accumulating over the paths of a scene yields one result per (transmitter, receiver) pair, in order, with the right names, even for a pair that has no path candidate: the sum over all path candidates of validity times the function of that transmitter, that receiver, that path and its interacting objects. "
     "Extra positional and keyword arguments reach the function, tracing options are honoured, and the reduced form equals the sum over all pairs.",
     ["inputs", "configurations"], "all scenes, functions, extra arguments, orders, filters, path classes and modes",
     "One object-free scene with one function is tested, so no candidate beyond line of sight is ever accumulated.",
     [S], [("Scene.accumulate_over_paths", S)], ["Scene.accumulate_over_paths"])

prop("C10", "Grid accumulation equals moving the node point by point",
     "Accumulating over a grid of transmitter (resp. receiver) positions gives, for every receiver (resp. transmitter) of the scene, named and in order, an array of the grid's shape whose entry at a position equals the accumulation over paths of the same scene with its transmitters (resp. receivers) replaced by a single node there. "
     "This holds for any grid shape and content, any tracing option, function and extra arguments; the function sees a node of the requested class at that position, the nodes of the swept kind already present in the scene have no influence, and the reduced form is the sum over the named results.",
     ["inputs", "configurations"], "all scenes, grids, functions and options",
     "Tests use object-free scenes and one square grid, so line of sight only and no obstruction.",
     [S], [("Scene.accumulate_on_transmitters_grid_over_paths, accumulate_on_receivers_grid_over_paths", S)], ["both grid accumulation methods"])

prop("C11", "Gradient maps are the derivatives of the value maps",
     "With gradients requested, grid accumulation returns for each position an extra last axis of size two holding the partial derivatives (x then y) of the accumulated value with respect to the swept node's position, wherever the value is differentiable; this includes, in approximate mode, the dependence of the validity on the position. "
     "Requesting value and gradient returns the same value array as the plain call and the same gradient array as the gradient call, and takes precedence; the reduced form sums both.",
     ["inputs", "configurations"], "all scenes, grids, functions, exact and approximate modes, activation slopes",
     "Tests differentiate line of sight in empty scenes only, where validity and reflections play no part.",
     [S, G, L], [("grad / value_and_grad branches of the grid accumulation", S)], ["both grid accumulation methods with grad, value_and_grad"])

prop("C12", "Tracing is defined and differentiable everywhere",
     "Received power maps, path lengths, validities and losses, and their derivatives with respect to the positions of transmitters, receivers and walls' ends, contain no NaN and no infinity, in exact and approximate mode, for any placement of the nodes, except in the presence of walls of zero length or of gaps below a millionth of the scene's size (where 32-bit numbers overflow). "
     "This includes nodes placed on walls, on corners, on top of each other, or aligned so that a mirror construction is parallel to a wall.",
     ["inputs"], "all placements, in particular aligned, coincident and boundary ones, orders and modes",
     "Tests differentiate at generic positions of empty scenes; degenerate alignments need particular coordinates, which regular grids do hit.",
     [G, L, U], [("normalize", G), ("path_length epsilon", G), ("ImagePath backward step", G), ("segments_intersect zero denominator", G), ("nan_to_num in Path.is_valid", G)], ["accumulate_on_*_grid_over_paths(value_and_grad=True)", "jax.grad of public functions"])

prop("C13", "Approximate validity lies in [0,1] and sharpens to the exact verdict",
     "In approximate mode every containment, intersection and validity is a number in [0, 1]: the fuzzy combination (minimum for and, maximum for or, one minus for not) of the activation applied to each elementary inequality of the exact test, with the requested activation function and slope. "
     "Wherever no elementary inequality is within the activation's transition width of equality, rounding the approximate answer gives the exact answer, so it converges to the exact answer as the slope grows.",
     ["inputs", "configurations"], "all scenes and paths, activation functions and slopes",
     "Tests check approximate answers on a handful of configurations with the default slope, only through rounding.",
     [G, L], [("Path.is_valid(approx=True)", G), ("activation and comparisons", L)], ["Path.is_valid", "Path.on_objects", "Path.intersects_with_objects", "segments_intersect", "Wall.contains_parametric"])

prop("C14", "Truth-value operators obey their logic in both modes",
     "In exact mode every comparison, connective, quantifier and truth test returns booleans equal to the array library's own. In approximate mode comparisons are the activation of the signed difference (so greater and less sum to one, and equality gives one half), or/any is the maximum, and/all the minimum, not is one minus, all staying in [0, 1] and obeying De Morgan's laws; being true means above 1 - tol and being false means below tol. "
     "Both activations are increasing, symmetric about (0, 1/2), stay in [0, 1] and match their published formulas for any slope; arrays of equal shape (plain numbers being scalars) combine element by element, and all/any reduce over the requested axes, all of them by default.",
     ["inputs", "configurations"], "all arrays, shapes, axes, slopes, tolerances and modes",
     "Tests restate the implementation on uniform(0,1) arrays of one shape; ties, negative and large values, broadcasting and most axes are never reached.",
     [L], [("the whole module", L)], ["differt2d.logic functions"])

prop("C15", "The approximation switch is scoped, restored and overridable",
     "Whatever the sequence of global settings and nested enabling or disabling contexts, left normally or by an exception, in one thread or in several, the switch inside a context is what that context asked for (until explicitly set again there), and on leaving it is what it was on entry; once all contexts of all threads are left, no change leaks. "
     "A call that does not say which mode to use follows the switch at that time when not previously compiled; an explicit mode always wins. The initial value is on exactly when the documented environment variable is present at import.",
     ["histories", "schedules", "configurations"], "all sequences and nestings of settings, contexts and exits, all thread interleavings at those operations, and environment settings",
     "Tests enter one context at a time, in one thread, and leave it normally.",
     [L], [("set_approx, enable_approx, disable_approx, _LOCK", L)], ["differt2d.logic.ENABLE_APPROX", "functions with approx=None"])

prop("C16", "Scene edits return new scenes and change only what they say",
     "Every editing operation (replace, update, rename nodes; replace, add, filter objects) returns a new scene that equals the result of the same operation on an ordered name-to-position map and an ordered object list, and leaves the original scene, and every earlier one, untouched. "
     "Names keep their insertion order, updating an existing name replaces it in place, renaming unknown names does nothing, and the node collections behave as read-only ordered mappings that raise on unknown keys.",
     ["histories"], "all sequences of edits starting from any scene, including empty ones",
     "Tests apply one edit at a time and mostly check lengths.",
     [S], [("Scene.with_*, update_*, rename_*, add_objects, filter_objects", S), ("PyTreeDict", S)], ["Scene attributes after each operation"])

prop("C17", "Ready-made scenes have the documented geometry",
     "Every named scene, built directly or by name with any node coordinates and ratio, has the documented walls (unit-square room; centred vertical wall or square obstacle of the requested relative size; inner room with an entrance), one transmitter and one receiver at the requested coordinates. "
     "A random scene has the requested numbers of nodes and walls, named by kind and index, with coordinates in [0, 1), no two of them sharing coordinates, reproducible from the key and different for different keys; building from a wall array keeps every wall in order.",
     ["inputs"], "all coordinates, ratios, counts and keys",
     "Tests count objects for default arguments.",
     [S], [("Scene.basic_scene, square_scene, square_scene_with_wall, square_scene_with_obstacle, random_uniform_scene, from_scene_name, from_walls_array", S)], ["Scene attributes"])

prop("C18", "GeoJSON import turns each polygon edge into a wall",
     "Importing a GeoJSON feature collection yields, in document order, one wall per edge of the outer ring of every polygon feature, in order, from each position to the next and from the last back to the first, and ignores features with any other kind of geometry or none. A ring that repeats its first position at the end describes the same edges (a wall of zero length may come in addition). "
     "The transmitter and the receiver are placed at the requested locations of the walls' bounding box (north-west and south-east by default), or at (0,0) and (1,1) when there is no wall; text, bytes, byte arrays and file-like sources give the same scene, and other source types are rejected.",
     ["inputs", "configurations"], "all feature collections, geometry types, locations and source types",
     "One file with two polygons, and an empty collection, are tested.",
     [S], [("Scene.from_geojson", S)], ["Scene.from_geojson"])

prop("C19", "Extents, centre, locations and sampling grids are exact",
     "The bounding box of a point, ray, wall, path or scene is the smallest axis-aligned box containing all its points (for a scene: all its nodes and objects); its centre and its nine named locations are the corresponding points of that box (a bare ray only has the box). "
     "A grid of m by n samples has n rows and m columns (m by m if n is not given), x varying along columns and y along rows, regularly spaced from one edge of the box to the other, both included.",
     ["inputs"], "all objects and scenes, locations and grid sizes",
     "Tests use one wall and one random scene.",
     [A, G, S], [("Plottable.grid, center, get_location", A), ("bounding_box of each class", G), ("Scene.bounding_box", S)], ["bounding_box, center, get_location, grid"])

prop("C20", "Nearest-node queries and pair enumeration",
     "Asking a scene for the transmitter (or receiver) closest to some coordinates returns the name of a node at minimal distance, the first such in the scene's order, together with that distance. "
     "Enumerating pairs gives every (transmitter, receiver) pair exactly once, transmitter-major in the scene's order, each with its name and its point.",
     ["inputs"], "all scenes, node counts and coordinates, including ties",
     "Tests query a point that coincides with a node.",
     [S, G], [("Scene.get_closest_transmitter, get_closest_receiver, all_transmitter_receiver_pairs", S), ("closest_point", G)], ["those methods"])

prop("C21", "The minimisers run the requested optimisation and report its result",
     "Minimising takes exactly the requested number of steps of the given optimiser (Adam at rate 0.1 by default) from the given start, passing the extra arguments to the objective, and returns the last iterate with the objective's value there. "
     "The random variants start from points uniform in the unit hypercube determined by the key; with several trials the trial with the smallest final objective value is returned.",
     ["inputs", "configurations"], "all objectives, starts, keys, step counts, optimisers and trial counts",
     "Tests minimise one convex function to convergence, where off-by-one steps, stale losses and wrong trial choices do not show.",
     [O], [("minimize, minimize_random_uniform, minimize_many_random_uniform", O)], ["differt2d.optimize functions"])

prop("C22", "Minimisation-based paths touch their objects and report their loss",
     "For any objects and key, a path built by the Fermat or the min-path method starts exactly at the transmitter, ends exactly at the receiver, and its i-th interior point lies on the supporting line of the i-th wall or at the i-th vertex; its loss is the sum of the interaction errors along the returned points, and the same key gives the same path. "
     "With enough steps it converges: to the shortest such path for the Fermat method; for both methods, to the specular path when one exists with moderate geometry (always with one wall, nearly always with several); and, for the min-path method, to a path that leaves an intelligent surface at its constant angle. The plain method goes through each object's middle.",
     ["inputs", "configurations"], "all object sequences, including mixes of walls, surfaces and vertices, keys and step counts",
     "Tests cover one wall and one seed for each method.",
     [G, O], [("FermatPath, MinPath, Path .from_tx_objects_rx", G), ("parametric_to_cartesian", G)], ["from_tx_objects_rx of each class"])

prop("C23", "Objects are pytrees: compiled, batched and stacked use changes nothing",
     "Scenes, paths and objects survive flattening and unflattening; for scenes whose objects are all of one kind, tracing, validity and accumulation give the same results, up to rounding, when called directly, compiled with the scene as argument, or batched over positions or stacked walls. "
     "Stacking objects and unstacking them gives the original list back, stacking different kinds is refused, and asking a scene for the object at an index, concrete or traced, returns that object, indices being clamped to the valid range.",
     ["inputs", "configurations"], "all scenes and objects, under jit, vmap and pytree operations",
     "Tests jit one lookup and stack one seeded list.",
     [G, S], [("eqx.Module classes", G), ("stack_leaves, unstack_leaves", G), ("Scene.get_object, stacked_objects, from_stacked_objects", S)], ["the same public calls under jax.jit / jax.vmap"])

prop("C24", "Path length and received power follow their laws",
     "The length of a path is the sum of the lengths of its legs, including repeated points, and is not changed by reversing it or by inserting a point on a leg. "
     "The received power is r_coef to the number of interactions, divided by the squared length plus the squared height, whatever the nodes and objects; with default parameters it is at most the documented reference power, reached at zero distance. Normalising a vector returns its unit vector and length, and leaves a null vector unchanged with length one.",
     ["inputs"], "all paths, coefficients, heights and vectors",
     "One path with one coefficient is tested, with zero height.",
     [U, G], [("received_power, P0", U), ("path_length, normalize, Path.length", G)], ["received_power", "path_length", "normalize"])

prop("C25", "Rotating a ray is a rigid rotation about the given centre",
     "Rotating a ray, wall or surface by any angle about any centre (the origin by default, given as a point or raw coordinates) moves each end to the image of that end under the counter-clockwise rotation by that angle about that centre, and returns a new object of the same kind, otherwise unchanged. "
     "Lengths are preserved, rotations about the same centre compose by adding angles, and the original ray is untouched.",
     ["inputs"], "all rays, angles and centres",
     "Tests only rotate by odd multiples of a half-turn.",
     [G], [("Ray.rotate", G)], ["Ray.rotate"])

prop("C26", "Plotting draws every requested element once, where it is",
     "Plotting a scene adds to the given axes, and returns, one marker per transmitter and receiver at its position, one line per wall between its end points and one marker per vertex, plus one label per node with its name when annotation is on; disabled categories are left out, transmitters are blue and receivers green by default, and style options reach the right category. "
     "Plotting a point, ray or path draws exactly its coordinates; plotting never changes the plotted object.",
     ["inputs", "configurations"], "all scenes and combinations of plotting options",
     "Tests only check that plotting does not raise.",
     [S, G], [("Scene.plot", S), ("Point.plot, Vertex.plot, Ray.plot, RIS.plot, Path.plot", G)], ["artists of a matplotlib Axes"])

prop("C27", "Malformed geometry is rejected, never silently accepted",
     "Building a point, vertex, ray, wall, surface or path with an array of the wrong rank or size, or with integer, complex or boolean coordinates, raises an error and yields no object, even when a well-formed one was built before; "
     "so does calling the geometric queries (segment intersection, path length, normalisation, nearest point or node, an object's parametric coordinate, crossing, residual and mirror image) with such arrays. Any floating-point array of the documented shape is accepted and kept unchanged. "
     "Unknown location names, unknown scene names, key and value lists of different lengths, looking up an unknown node, stacking different kinds of elements and undecodable GeoJSON are refused with an error as well.",
     ["inputs"], "all argument shapes, element types and names",
     "Tests try one bad location, one mismatch and one undecodable text.",
     [G, A, S], [("jaxtyped/beartype checked classes and methods", G), ("PyTreeDict.__check_init__", S)], ["constructors and methods"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
