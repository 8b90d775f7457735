T0 = 'The tests evaluate a few parameters of one or two fixed objects and mostly print the result; '

prop('P07', 'Bezier curves and surfaces evaluate to their Bernstein form',
     'A Bezier curve or surface, polynomial or rational, evaluates at every parameter to the Bernstein combination of its control points: the sum over all control points of the product of the Bernstein polynomials of the degree given by the number of control points. Rational ones divide the weighted sum by the sum of the weights.',
     ['inputs'], 'every number of control points (at least 2 in each direction), every control point and weight, every parameter',
     T0 + 'degree 3 at u = 0.25 only.',
     ['src/basis.rs', 'src/curve/bezier.rs', 'src/surface/bezier.rs'],
     [('triangular Bernstein scheme', 'src/basis.rs bernstein'), ('curve evaluation', 'src/curve/bezier.rs get_point'), ('surface evaluation', 'src/surface/bezier.rs get_point')],
     GV, GVN)

prop('P08', 'B-spline curves and surfaces evaluate to their Cox-de Boor form',
     'A B-spline curve or surface, polynomial or rational, evaluates at every parameter of its domain to the combination of its control points with the normalised B-spline basis functions of its knots and degree; rational ones divide by the sum of the weights. The basis functions obey the Cox-de Boor recurrence with 0/0 read as 0 on any non-decreasing knot vector, and the surface constructors keep or build exactly the control grid, knots and degrees they are given or promise.',
     ['inputs'], 'every degree, every knot vector and number of control points that fit together, every parameter in the domain',
     T0 + 'one cubic knot vector at three parameters.',
     ['src/knot.rs', 'src/curve/bspline.rs', 'src/surface/bspline.rs'],
     [('basis triangle', 'src/knot.rs bspline_basis'), ('curve evaluation', 'src/curve/bspline.rs get_point'), ('surface evaluation and constructors', 'src/surface/bspline.rs')],
     GV, GVN)

prop('P09', 'Derivative curves and surfaces have the hodograph control net and knots',
     'The derivative of a Bezier or B-spline curve, and each partial derivative of a B-spline surface, has as control points the differences of neighbouring control points in the direction of derivation, scaled by the degree over the knot span (0 for a vanishing span), one fewer in that direction. Its degree is one lower and its knot vector is the old one without the first and last knot in the direction of derivation, unchanged in the other. In a direction of degree 0 the partial derivative of a surface is a surface that is zero everywhere: all its control points are zero, and its knots and degrees fit them.',
     ['inputs'], 'every control net, knot vector and degree of at least 1 (for surfaces also 0)',
     'No test looks at a derivative.',
     ['src/curve/bezier.rs', 'src/curve/bspline.rs', 'src/surface/bspline.rs', 'src/knot.rs'],
     [('curve derivatives', 'src/curve/bezier.rs, src/curve/bspline.rs derivative'), ('surface derivatives', 'src/surface/bspline.rs derivative_u, derivative_v')],
     GV, GVN)

prop('P10', 'Knot vector operations compute exactly what their definitions say',
     'Multiplicity, normalisation, removal of the end knots, range, knot spans, expansion of values with multiplicities, Bezier and uniform clamped knots, and insertion of a knot behind the last knot not above it each give the defined knots for every knot vector. The span index of a parameter is the last knot not above it, or the start of the last non-empty span from the last knot on and of the first non-empty span below the first knot. A knot vector holds and shows exactly the knots it is made from, in their order.',
     ['inputs'], 'every non-decreasing knot vector and every parameter',
     T0 + 'two constructors with one argument each.',
     ['src/knot.rs'], [('knot vector methods', 'src/knot.rs')], GV, GVN)

prop('P11', 'Knot insertion, splitting and Bezier conversion keep a B-spline curve',
     'Inserting a knot inside the range gives the knots with the new one behind those not above it and control points of the same curve, raising the multiplicity of a present knot included. Splitting gives two curves clamped at the parameter that are the parts below and above it, clamping repeats the end knots up to the order, and conversion to Bezier pieces gives one piece per non-empty knot span, in order, each with the Bezier points of the curve over its span (with zero control points beyond the ends).',
     ['inputs'], 'all control points and all knot values, for knot patterns (multiplicities up to the order) of degrees 1 to 5 and bounded length; thorough: every pattern of degrees 1 to 3 up to 7, 9 and 10 knots',
     'No test inserts a knot or splits a curve.',
     ['src/curve/bspline.rs', 'src/knot.rs'], [('refinement', 'src/curve/bspline.rs add_knot, split, clamp, to_piecewise_bezier'), ('knots', 'src/knot.rs add_knot')],
     'value graphs over classes of knot patterns (the order of the knots decides every branch), compared with blossoms by normal forms',
     'Static: for each pattern of multiplicities the knots are partial sums of positive unknowns, so that every comparison in the MIR is decided and the value graph of the result is a closed rational expression; the obligation is identity with the polar forms of the curve. Exhaustive in the values, bounded in the patterns. Real arithmetic; parameters nearly equal to a knot but not equal are outside.')

prop('P12', 'Analytic curves and surfaces and their projections are inverse charts',
     'Lines, circles, planes and cylinders evaluate to their parametrisation, projecting an evaluated point gives its parameters back (angles in one turn from 0), and projecting any point gives the parameters of its foot point on a line, plane, circle or cylinder. The ring chart of a cylinder and its inverse undo each other for points on the cylinder.',
     ['inputs'], 'every position, orthonormal frame, radius, line direction, parameter and point',
     T0 + 'one cylinder on a fixed grid.',
     ['src/curve/line.rs', 'src/curve/circle.rs', 'src/surface/plane.rs', 'src/surface/cylinder.rs'],
     [('parametrisations', 'get_point'), ('charts', 'project, project_to_ring, generate_point_from_ring')], GV, GVN)

prop('P13', 'Arc sense refinement keeps the ends and turns the right way',
     'Refining the parameter range of a circle gives a range whose ends are congruent to the given angles modulo a full turn; for angles in one turn from 0 it runs forward for the same sense and backward otherwise, by more than nothing and at most a full turn (a full turn for equal angles). The other curves leave the range as it is.',
     ['inputs'], 'every pair of angles and both senses',
     'No test calls it.',
     ['src/curve/circle.rs', 'src/curve.rs'], [('refine_parameter_range', 'src/curve/circle.rs, src/curve.rs')], GV, GVN)

prop('P15', 'Parameter division and sampling cover exactly the given range',
     'Uniform division gives division + 1 equally spaced values whose first and last are exactly the ends, in either direction; range_at interpolates linearly and clamp_in_range clamps to an unordered range. Adaptive division returns the two ends when the jittered middle point is nearer than the tolerance to the same fraction of the chord and otherwise joins the divisions of both halves without repeating the middle, and a segment samples its own curve at the division of its own range with its own tolerance.',
     ['inputs', 'histories'], 'every range, division, tolerance and curve, every random jitter',
     T0 + 'the doc test divides one range by 8.',
     ['src/utils.rs', 'src/curve.rs'], [('division', 'src/utils.rs uniform_divide, parameter_division, range_at, clamp_in_range'), ('sampling', 'src/curve.rs get_points')], GV, GVN)

prop('P16', 'Nearest-element searches return a true minimum',
     'The nearest point of a non-empty list, the nearest vertex of a polyline and the nearest point of a grid are the first of minimal distance to the query point, and the minimum and maximum by key are those of all items. The distance to a line segment in two and three dimensions is the distance to its nearest point, ends included.',
     ['inputs'], 'every non-empty list, grid, segment and query point',
     'No test calls them.',
     ['src/utils.rs', 'src/utils/point.rs', 'src/curve/polyline.rs'], [('searches', 'src/utils.rs, src/curve/polyline.rs nearest_vertex'), ('segment distance', 'src/utils.rs, src/utils/point.rs')], GV, GVN)

prop('P17', 'Polylines are parametrised by arc length fraction, and projection inverts it',
     'A polyline built from at least two vertices stores the length of every segment and their sum; its point at a parameter is the point at that fraction of the length, clamped to its end vertices. Projecting a point gives the length fraction of the nearest point on the nearest segment.',
     ['inputs'], 'every list of at least two vertices, every parameter and point',
     'No test evaluates a polyline.',
     ['src/curve/polyline.rs'], [('construction, evaluation, projection', 'src/curve/polyline.rs')], GV, GVN)

prop('P24', 'Swept, spun and umbrella surfaces evaluate to their definitions',
     'A sweep surface is the sum of its path point at u and its section point at v, a spin surface is the section point at u turned by the angle v about its axis through its center, right-handed, and the umbrella surface is the cycloid of its radius turned by v.',
     ['inputs'], 'every pair of curves, center, unit axis, radius and parameter',
     'No test evaluates them.',
     ['src/surface/sweep.rs', 'src/surface/spin.rs', 'src/surface/umbrella.rs'], [('get_point', 'src/surface/sweep.rs, spin.rs, umbrella.rs')], GV, GVN)

prop('P03', 'Boxed curves and surfaces and mesh faces answer as what they hold',
     'A boxed curve or surface gives the same point, projection, refined range, normals and trimmed mesh as the object in the box, for the same arguments. The mesh of a trimmed surface is the trim of its surface by its bounds, and a triangle mesh is its own mesh.',
     ['inputs'], 'every boxed curve and surface, every argument',
     'No test calls a boxed object and compares.',
     ['src/curve.rs', 'src/surface.rs', 'src/mesh.rs'],
     [('forwarding impls', 'src/curve.rs, src/surface.rs impl for Box<dyn ..>'), ('faces', 'src/surface.rs TrimmedSurface, src/mesh.rs')], GV, GVN)

prop('P04', 'Grid meshes of surface patches cover every cell with consistent indices',
     'A patch samples its surface at the division points of both ranges, rows along u and columns along v, and its mesh has those points as vertices in row order and two triangles for every cell, (a,b,a+1) and (a+1,b,b+1) with b one row below a, every index in range. Its normals are those of the surface at the same parameters, each undefined one replaced by the first defined one of its neighbours above, below, left and right.',
     ['inputs'], 'every surface, both ranges and division counts (at least 1)',
     'No test meshes a patch and looks at indices or normals.',
     ['src/surface.rs', 'src/mesh.rs'],
     [('point grid', 'src/surface.rs SurfacePatch'), ('triangles', 'src/mesh.rs create_triangles')], GV, GVN)

prop('P05', 'Binary STL output is well-formed for every model',
     'A saved STL file has an 80-byte header that does not start with solid, then the total number of triangles of all faces, then 50 bytes for each triangle of each face in order: a zero normal, its three vertices as little-endian 32-bit floats and a zero attribute. It is created at the given path only, and success is reported.',
     ['inputs'], 'every number of faces and every mesh of each face',
     'A test writes one file and never reads it back.',
     ['src/model.rs'], [('save_as_stl', 'src/model.rs')], GV, GVN)

prop('P06', 'OBJ output numbers vertices and normals globally and writes every face',
     'A saved OBJ file has, for each face in order, its v lines, its vn lines and its f lines, whose indices are the indices of the mesh plus 1 plus the vertices (and, behind //, normals) written before; a mesh without normals writes no normal indices. A saved boundary has its vertices and the closed chain of line elements through them, and each is created at the given path only.',
     ['inputs'], 'every number of faces, every mesh of each face, every boundary of at least two points',
     'Tests write files and never read them back.',
     ['src/mesh.rs', 'src/model.rs', 'src/surface/bspline.rs'],
     [('write_obj, save_as_obj', 'src/mesh.rs, src/model.rs'), ('save_bound_as_obj', 'src/surface/bspline.rs')], GV, GVN)

prop('P22', 'Point files keep every point, in order, with every coordinate',
     'Saving points writes one line per point with its coordinates (and normal) in order, separated by blanks (two-dimensional ones by a comma). Loading gives, in order, the points of all lines that do not start with # and have 3 or 4 items between blanks, tabs and commas (the last three are the coordinates), and an error if one of those is no number or a line is no text; scaling multiplies every coordinate.',
     ['inputs'], 'every list of points, every text',
     'No test loads or saves a point file.',
     ['src/points.rs'], [('save and load', 'src/points.rs')], GV, GVN)

prop('P25', 'Edge loops become clean polygons; winding reversal turns every triangle',
     'The polygon of an edge loop is the concatenation, in order, of the samples of its edges, without points whose squared distance to the one before is at most 1e-7 and without a last point that near to the first; an empty loop gives an empty polygon. Reversing the winding direction of a mesh turns every triangle over and keeps vertices and normals, and the triangle count is a third of the number of indices.',
     ['inputs'], 'every edge loop, every mesh',
     'No test calls them.',
     ['src/surface.rs', 'src/mesh.rs'], [('to_polygon', 'src/surface.rs'), ('reverse_winding_direction, triangle_count', 'src/mesh.rs')], GV, GVN)

prop('P26', 'B-spline surface normals are unit cross products of the partial derivatives',
     'For every list of parameters a three-dimensional B-spline surface gives one normal for each, in order: the cross product of its u and v derivatives there, in that order, divided by its length (which leaves it undefined where they are parallel).',
     ['inputs'], 'every surface and every list of parameters',
     'No test looks at normals.',
     ['src/surface/bspline.rs'], [('get_normals', 'src/surface/bspline.rs')], GV, GVN)

ST = 'gated value graphs of the reader over classes of files (kinds and optional attributes given, every value unknown), compared by normal forms'
STN = ('Static: the MIR of read_model is turned into a value graph with the calls into the STEP parser replaced by a model of its entity tables: the kinds of the referenced '
       'entities are decided by the class of the file, all attribute values are unknowns. Real arithmetic; the STEP parser itself, projection and range refinement (decided '
       'by other properties) are opaque. Bounds of a face are taken in the order in which the parser lists them.')
prop('P18', 'The STEP reader builds each curve and surface from the attributes in the file',
     'Every line, circle, polyline and B-spline curve with knots, referenced by an edge or trimmed by a composite curve, and every plane, cylinder, Bezier, B-spline, rational B-spline (with or without knots) and revolution surface of a face is built with exactly the points, weights, unit axes, lengths, radii, degrees and expanded knots its attributes give. An absent axis is z; an absent reference direction is x, or y if the axis is parallel to x, and it is made perpendicular to the axis and unit; the normal of a plane whose face has the opposite sense is reversed.',
     ['inputs'], 'every attribute value, every number of control points and knots, every supported kind of curve and surface with and without its optional attributes',
     'The test reads two files and looks at no attribute.',
     ['src/model/step_reader.rs'], [('curves', 'src/model/step_reader.rs extract_curve'), ('surfaces', 'src/model/step_reader.rs extract_surface'), ('placements', 'src/model/step_reader.rs axis2_placement_3d')],
     ST, STN)

prop('P19', 'The STEP reader keeps faces, loops and segments in order and honours senses',
     'The model read has one face for each face of a supported surface, in order, with its bounds, and one curve for each composite curve with its trimmed segments, in order. Each edge of a loop covers its curve between the projections of its start and end vertex, refined with the same-sense flag of the edge, reversed if its oriented edge says so, and a bound of opposite orientation has its edges in reverse order and each reversed; a composite segment covers the range between its trimming parameter values, refined with the sense of the trimmed curve and reversed if the segment says so. Surfaces, edge curves, composite segments and bounds of a kind that is not supported are left out; the others stay as they are and in order.',
     ['inputs'], 'all sense and orientation flags, all vertices and trimming values, loops of any number of line edges and of mixed kinds up to 3 edges, up to 4 faces',
     'The test reads two files and looks at no loop.',
     ['src/model/step_reader.rs'], [('read_model', 'src/model/step_reader.rs read_model'), ('edges', 'src/model/step_reader.rs extract_edge_curve'), ('segments', 'src/model/step_reader.rs extract_curve_segment')],
     ST, STN)

prop('P01', 'Nothing happens unasked: no hidden state, output, files or randomness',
     'No public function keeps memory between calls, reads the environment, the clock or other surroundings, prints, opens files or draws random numbers, except: the saving functions create files, the loading and reading functions read files, the STEP reader prints what it does not support and meets the bounds of a face in the order of a hash set, and adaptive parameter division draws random numbers. So every other result depends on the arguments alone.',
     ['inputs', 'histories'], 'every sequence of calls of public functions',
     'Tests cannot show the absence of an effect that depends on input or history.',
     ['src/lib.rs', 'src/utils.rs', 'src/model.rs', 'src/model/step_reader.rs', 'src/points.rs'],
     [('random splits', 'src/utils.rs parameter_division'), ('files', 'src/model.rs, src/mesh.rs, src/points.rs, src/surface/bspline.rs'), ('reports', 'src/model/step_reader.rs')],
     'effect analysis over the call graph of the type-checked program: effect sites have to be dominated by the functions allowed to have them',
     'Static and sound for the listed library functions: trait calls are resolved to every implementation, closures and function values are edges. Effects inside third-party crates are known by name.')

prop('P28', 'No input can reach memory outside its objects: all code is safe Rust',
     'The crate has no unsafe block, function, trait implementation or foreign item of its own, so whatever files, indices, degrees and knots it is given, an access outside of an object ends in an error or panic and never reads or writes other memory.',
     ['inputs', 'programs'], 'every input of every function',
     'A test that happens to stay inside its buffers proves nothing about other inputs.',
     ['src/lib.rs', 'src/knot.rs', 'src/utils.rs'], [('whole crate', 'src')],
     'query over the type-checked program (all bodies, implementations and items)',
     'Decides the absence of unsafe constructs written in the crate; macros of other crates and the crates themselves are trusted.')

prop('P02', 'A failed file operation is always reported, and nothing stays in a buffer',
     'If any operation on a file (creating, writing, seeking, flushing, reading) fails while a model, mesh, drawing, boundary or point list is saved or a point file or STEP file is read, the function returns an error, and otherwise a saving function returns success. Written data are never handed to the system in part only and never left in a buffer that is dropped unflushed.',
     ['inputs', 'fault_sequences'], 'every model, mesh and list, and failure of any one execution of any one operation',
     'Tests never make an operation fail.',
     ['src/model.rs', 'src/mesh.rs', 'src/points.rs', 'src/surface/bspline.rs', 'src/model/step_reader.rs'],
     [('savers', 'src/model.rs, src/mesh.rs, src/points.rs, src/surface/bspline.rs'), ('readers', 'src/points.rs, src/model/step_reader.rs')],
     'value graphs with one call of the operating system failing in its k-th execution (k unknown): the result has to be an error exactly if that execution is reached',
     'Static: each call site of the standard library (and of the svg writer and STEP parser) that can fail is analysed by itself, the number of the failing execution is an unknown. A buffer that is flushed when it is dropped loses errors and counts as not flushed.')

prop('P23', 'SVG drawings hold one path per curve with all its segments in order',
     'A saved SVG has the given width and height in mm and one path for each composite curve, in order, whose data are those of its segments in order, as x and y with two decimals: a line is moved to at the start of its range and drawn to the end of its range, a polyline is moved to at its first vertex and drawn through all others, a cubic B-spline is moved to at its start and drawn as one cubic piece for each Bezier piece. Any other curve is drawn through its samples, moved to only if nothing is drawn before it; the file is created at the given path only.',
     ['inputs'], 'all coordinates and ranges, every number of vertices, Bezier pieces and samples, for curves of one segment, of every pair and of some three segments of the kinds line, polyline, cubic and quadratic B-spline and circle',
     'No test saves a drawing of a known curve and reads it.',
     ['src/model.rs'], [('save_as_svg', 'src/model.rs')],
     'gated value graphs over classes of models (kinds of segments given, all else unknown), compared by normal forms and loop invariants',
     GVN)

prop('P14', 'Projection onto free-form curves and surfaces is clamped Newton iteration',
     'The nearest-parameter search starts at the first of the division + 1 uniform samples of the range that is nearest to the point and makes at most the given number of steps u - f/f\', where f is the derivative of half the squared distance and f\' its derivative, each clamped to the range, ending before a step at which the squared distance or f is at most 1e-7 in size. A polynomial Bezier curve of degree 2 or more searches 0 to 1 with four divisions per degree and a B-spline curve its knot range with four per control point, in 10 steps, with their first two derivatives; degree 1 is projected as the polyline of the control points, carried over to the knots. Each point is projected onto a polynomial B-spline surface by at most 20 such steps in both parameters (with the matrix of second derivatives), clamped to the knot ranges, from the nearest point of the grid of four divisions per row and column of control points.',
     ['inputs'], 'all curves, derivatives, surfaces, points, ranges, divisions and numbers of steps',
     'The one test of a projection prints its result.',
     ['src/utils.rs', 'src/curve/bezier.rs', 'src/curve/bspline.rs', 'src/surface/bspline.rs'],
     [('search', 'src/utils.rs find_nearest_parameter'), ('curves', 'src/curve/bezier.rs, src/curve/bspline.rs project'), ('surface', 'src/surface/bspline.rs project_points')],
     'gated value graphs with the iterations in closed form (first stopping round of a fold), compared by normal forms', GVN)

prop('P20', 'Trimming a surface maps its loops to the chart, triangulates, and maps back',
     'The trim of a plane, cylinder or B-spline surface has as first vertices the points of its loops, in order, and hands their chart coordinates with the offsets of the non-empty loops to the triangulation; without points the mesh is empty. On a plane one loop without convex corners gives an empty mesh, one without concave corners a fan around the mean of its points, any other the ear clipping of its corners, and several loops that of their merged polygon. On cylinders (ring chart with twice their height as pole) and B-spline surfaces the points the mesh generator adds are lifted back to the surface behind the given ones; one counter-clockwise loop gives the triangles turned over, a clockwise one is reversed first and gives them as generated.',
     ['inputs'], 'all surfaces and points of up to 3 loops (thorough: 4), each empty or not, of any length',
     'Tests print triangulations or write them to files; none compares a trimmed mesh.',
     ['src/surface/plane.rs', 'src/surface/cylinder.rs', 'src/surface/bspline.rs'],
     [('plane', 'src/surface/plane.rs trim'), ('cylinder', 'src/surface/cylinder.rs trim'), ('B-spline', 'src/surface/bspline.rs trim')],
     'gated value graphs with the triangulation steps opaque, over classes of empty and non-empty loops, compared by normal forms', GVN)

prop('P21', 'Ear clipping fills every simple polygon, and its plane predicates are exact',
     'For every counter-clockwise simple polygon, taken to be of the corners found by the convexity classification (collinear and repeated points left out), the triangles of the ear clipping are counter-clockwise and fill the polygon without gap or overlap, collinear points and those that become collinear while clipping included. A ring is counter-clockwise when its signed area is positive, a corner is concave when it turns right and dropped when its turn is within 1e-7 of none, for whole polygons and for rings of indices (concave ones sorted), and a point is in a triangle when it is on or left of all three edges up to 1e-7.',
     ['inputs'], 'predicates: all inputs; ear clipping: every orientation of 4, 5 and 6 points, every one with collinear points of 4 and 5, those of a 4 x 4 lattice of 6; samples of 7 and 8 points',
     'The test of the convexity prints one value; no test triangulates a polygon by ear clipping.',
     ['src/utils/polygon.rs', 'src/utils/point.rs'],
     [('ear clipping', 'src/utils/polygon.rs trianglate_polygon'), ('corners', 'src/utils/polygon.rs compute_vertex_convexity, find_concave_vertices'), ('predicates', 'src/utils/polygon.rs is_polygon_counter_clockwise, src/utils/point.rs')],
     'abstract interpretation over order types: the orientations of all triples of points decide every branch, the coordinates stay unknown; predicates by normal forms of value graphs',
     'Static: in each class the signs of the determinants of all triples are given and the coordinates are unknowns, so the MIR yields the index list for all polygons of the class at once; counter-clockwise triangles whose edges cancel up to those of the ring fill it exactly. Polygons with holes are not claimed: see DESIGN.md.')

prop('P27', 'Merging polygons joins every hole to the ring by one doubled bridge',
     'Merging polygons gives one closed ring of indices that starts as the polygon reaching the greatest x (the last of several) in its own order. The others follow by falling greatest x (the last of equals first), each spliced in behind the start of the first edge of the ring so far that is nearest to its first point of greatest x: from that point in its own order around to it again, then the start of that edge once more.',
     ['inputs'], 'one to four polygons of 3 to 5 points, over orders of their x coordinates and of their distances from edges, ties included (a sample of orders; thorough: six times as many)',
     'No test merges polygons.',
     ['src/utils/polygon.rs'], [('order and bridges', 'src/utils/polygon.rs merge_polygons, merge_two_polygons')],
     'abstract interpretation over orders: the orders of the x coordinates and of the distances decide every branch, the coordinates stay unknown',
     'Static: the MIR yields the ring of indices for all points of the class of orders at once, the distance of a point from an edge being an unknown of which only the order is given. Bounded in the number of points. That bridges cross no edge is not claimed: see DESIGN.md.')

prop('P29', 'The mesh generator closes: its triangles bound exactly the polygons given',
     'Whenever mesh generation ends, the mesh starts with the given points, every triangle has three different corners, and the directed edges of all triangles cancel but for the edges of the given polygons in their own direction, so that no part is left out or cut off. Every further point is introduced, in order, as third corner of one triangle as the tip over its other two corners: half the square root of three times their distance to the left of their middle, or times 0.01 where they are nearer than 0.001. Two segments are taken to meet exactly when they have a point in common, and the shape of a triangle is twice its signed area over the sum of its squared sides.',
     ['inputs', 'histories'], 'every choice of the next node: samples of histories of choices and of outcomes of the geometric predicates, for one and two polygons of 3 to 6 points; all coordinates',
     'The one test of the generator writes its mesh to a file.',
     ['src/utils/meshgen.rs'], [('front', 'src/utils/meshgen.rs generate_triangular_mesh'), ('choice', 'src/utils/meshgen.rs find_intersection_with_front')],
     'abstract interpretation over histories of choices: geometric predicates answer anything, the chain of edges is followed exactly',
     'Static: which node is chosen for an edge, or how each geometric predicate answers, is the class; coordinates stay unknown. Histories are sampled, bounded in length. Termination and freedom from overlap depend on the geometry and are not claimed.')


NAT = 'Every test looks at one shape.'
prop('P30', 'Triangulating a polygon with holes fills exactly the region between them',
     'For a counter-clockwise polygon with clockwise holes inside it, the triangles of the merged ring are counter-clockwise and fill the region between outer polygon and holes without gap or overlap.',
     ['inputs'], 'every polygon with any number of disjoint holes', NAT,
     ['src/utils/polygon.rs'], [('bridges', 'src/utils/polygon.rs merge_two_polygons'), ('ear clipping', 'src/utils/polygon.rs trianglate_polygon')],
     na='Whether the bridge to the start of the nearest edge stays inside the region is a metric question (distances against orientations) that no order type decides, so no class of inputs in reach settles it; moreover the present algorithm does not guarantee it (DESIGN.md gives an input), and a repair is another algorithm. What does not depend on the metric is claimed in P21 and P27.')

prop('P31', 'The mesh generator always ends, with triangles that do not overlap',
     'For every polygon with or without holes the advancing front empties after finitely many steps, and the triangles produced have disjoint interiors.',
     ['inputs'], 'every list of points and polygons', NAT,
     ['src/utils/meshgen.rs'], [('front', 'src/utils/meshgen.rs generate_triangular_mesh')],
     na='Termination depends on lengths and angles of points the algorithm itself keeps adding; there is no ranking function over the abstract front (histories that never end exist for consistent answers of single predicates), and a bound on the geometry is out of reach of a static argument. Closedness, which holds along every history, is claimed in P29.')

prop('P32', 'Projection onto a free-form curve or surface finds the globally nearest point',
     'No point of the curve or surface is nearer to the given point than the point at the parameter that the projection returns.',
     ['inputs'], 'every curve, surface and point', NAT,
     ['src/utils.rs', 'src/curve/bspline.rs', 'src/curve/bezier.rs', 'src/surface/bspline.rs'], [('Newton iteration', 'src/utils.rs find_nearest_parameter')],
     na='Newton iteration from a grid of start points finds a stationary point near one of them, not the global minimum: the property does not follow from the code for all inputs, and where it holds, it rests on bounds of derivatives of unknown control points. The iteration itself is claimed exactly in P14.')

prop('P33', 'Sampled curves deviate from the true curve by at most the tolerance',
     'Between two neighbouring samples of an adaptive division the curve stays within the tolerance of their chord, and the division always ends.',
     ['inputs'], 'every curve, range and tolerance', NAT,
     ['src/utils.rs', 'src/curve.rs'], [('adaptive division', 'src/utils.rs parameter_division')],
     na='The division tests one point inside each interval, so the deviation elsewhere and the depth of the recursion depend on bounds of the curvature of an arbitrary curve (a trait object); neither follows from the source. What the division does at each step is claimed in P15.')

prop('P34', 'Results are accurate to a few units in the last place of the floating point type',
     'Evaluation, projection, refinement and triangulation predicates return the values of their real-valued definitions up to a bounded relative rounding error, and nearly degenerate inputs change no decision.',
     ['inputs'], 'every finite input', NAT,
     ['src/basis.rs', 'src/knot.rs', 'src/utils/point.rs', 'src/utils/polygon.rs'], [('predicates', 'src/utils/point.rs'), ('bases', 'src/basis.rs, src/knot.rs')],
     na='Error bounds need ranges for the inputs, which the library does not state: with unbounded coordinates cancellation makes every fixed bound false. All other properties are decided in real arithmetic and say so.')
