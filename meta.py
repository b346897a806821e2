"""The properties, and what the manifest says about their checks.

`python3 gen.py` writes properties.jsonl and MANIFEST.json from this file.
"""

PROPS = []


def P(id, title, statement, over, text, why, files, mechanism, technique=None,
      note=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(
        id=id, title=title, statement=' '.join(statement.split()), over=over,
        text=' '.join(text.split()), why=' '.join(why.split()), files=files,
        mechanism=mechanism, technique=technique,
        note=' '.join((note or '').split())))


I = 'include/walnut/'
S = 'src/walnut/'

P('B01', 'Integer ring arithmetic is exact at every size, also when aliased',
  '''Adding, subtracting, multiplying, shifting left, negating, taking the
  absolute value of, incrementing and decrementing arbitrary precision integers
  (and fused multiply-add, multiply-subtract, 2x2 determinants, and the extreme
  values of a bit width) gives the exact mathematical result for operands of
  every size and sign, for big and built-in integer operands alike. This holds
  along any history of such operations, including when one object is both an
  operand and the destination. No operation changes an integer other than its
  destination, and every result compares equal to the same value built
  directly.''',
  ['inputs', 'histories'],
  '''Every sequence of operations over integers of every size and sign, with
  every pattern of aliasing between operands and destinations.''',
  '''The tests compute a few sums and products near one word boundary each; a
  carry, sign extension or trim that goes wrong needs a particular combination
  of sizes, signs and word contents, or an aliased operand.''',
  [I + 'big_int.h', S + 'big_int.cpp', I + 'big_int_words.h', I + 'big_uint_word.h'],
  [dict(name='carry and sign extension loops, Trim', where=I + 'big_int.h'),
   dict(name='schoolbook multiplication with signed correction', where=S + 'big_int.cpp'),
   dict(name='inline first word plus heap words', where=I + 'big_int_words.h')],
  'reference-model monitor: operation histories shadowed in GMP, under ASan+UBSan')

P('B02', 'Integer division, greatest common divisors and decimal text are exact',
  '''Dividing one arbitrary precision integer by another nonzero one gives the
  quotient rounded towards zero, and the remainder is the dividend minus the
  divisor times that quotient, whatever the sizes and signs. The greatest
  common divisor computed for two integers has the magnitude of the true one.
  Printing an integer gives its decimal digits with a leading minus sign
  exactly when it is negative.''',
  ['inputs'],
  'Every dividend and nonzero divisor, of every size and sign.',
  '''Quotient digits are estimated from the leading bits, so a wrong correction
  only shows for rare digit patterns, which the handful of tested divisions do
  not hit.''',
  [I + 'big_int.h', I + 'big_uint.h', S + 'big_int.cpp'],
  [dict(name='estimate-and-correct long division', where=I + 'big_uint.h'),
   dict(name='sign handling around unsigned division', where=S + 'big_int.cpp')],
  'reference-model monitor: quotients, remainders, GCDs and text against GMP, under ASan+UBSan')

P('B03', 'Integer comparison, sign tests and hashing depend only on the value',
  '''Every comparison of two integers (ordering, equality, three-way, and
  ordering with the operands flipped, against big and built-in integers), every
  sign test and every hash agrees with the mathematical values, and so gives
  the same answer however each value was reached. Copying an integer gives an
  independent equal value, and moving or swapping hands the value over and
  leaves the source usable.''',
  ['inputs', 'histories'],
  '''Every pair of integers, and every history of arithmetic, copies, moves and
  assignments by which they were reached.''',
  '''Equality compares representations, so it is right only if every operation
  leaves a canonical one; tests compare values built the same way.''',
  [I + 'big_int.h', I + 'big_int_words.h'],
  [dict(name='comparison operators and Trim', where=I + 'big_int.h'),
   dict(name='copy, move and resize of the words', where=I + 'big_int_words.h')],
  'reference-model monitor: pairwise order and hash against GMP over multi-path histories, under ASan+UBSan')

P('B04', 'Conversions between floating point and exact values are faithful',
  '''Splitting a finite double into mantissa and exponent, and turning three
  finite doubles into an exact homogeneous point, loses nothing; when a minimum
  exponent of at most zero is given instead, each coordinate is rounded to
  within half a unit of it. Converting an integer to floating point is
  exact when the value is representable and otherwise within a few units in the
  last place, saturating to the infinity of the right sign when out of range.
  Converting an exact point to doubles is accurate to a few units in the last
  place, so that points made from doubles convert back unchanged.''',
  ['inputs'],
  'Every finite double including subnormals, and every integer and exact point.',
  '''The tests convert a few small values; exponents near the ends of the
  range, mixed exponents and wide integers behave differently.''',
  [I + 'double.h', I + 'homo_point3.h', S + 'homo_point3.cpp', S + 'big_int.cpp'],
  [dict(name='Decompose', where=I + 'double.h'),
   dict(name='FromDoubles, FromDoublesExact', where=S + 'homo_point3.cpp'),
   dict(name='conversion operators', where=S + 'big_int.cpp')],
  'reference-model monitor: conversions against GMP rationals, under ASan+UBSan')

P('B05', 'Unsigned word and multi-word primitives are exact',
  '''Addition and subtraction with carries, widening and multiply-add products,
  shifts across words, bit scans, bitwise operations and comparisons on single
  unsigned words agree with wide integer arithmetic for all operands. Unsigned
  multi-word shifting, subtraction, multiplication by a word, shifted
  accumulation, comparison and division give the exact result.''',
  ['inputs'],
  'All pairs of words and carries; all unsigned integers and shift counts.',
  '''Each primitive is tested on a few values, while the cases that matter are
  carries out of a word that is all ones and shifts that land on word edges.''',
  [I + 'big_uint_word.h', I + 'big_uint.h'],
  [dict(name='carry primitives', where=I + 'big_uint_word.h'),
   dict(name='shifted accumulate and subtract', where=I + 'big_uint.h')],
  'reference-model monitor: primitives against 128 bit and GMP arithmetic, under ASan+UBSan')

P('G01', 'Rational rounding and comparison never err, whatever the signs',
  '''Rounding a rational number up (or down) to a given denominator gives the
  smallest (or largest) multiple of one over that denominator that is not below
  (or above) it, for every combination of signs of the numerator and both
  denominators. Comparing two rationals for order and for equality gives the
  exact answer, also when a denominator is negative or when the two differ by
  far less than a floating point number could tell.''',
  ['inputs'],
  'Every numerator, and every pair of nonzero denominators, of every size and sign.',
  '''The tests try a few small fractions; the sign combinations and the
  difference between exact and inexact quotients only go wrong together.''',
  [I + 'rational.h', I + 'big_int.h'],
  [dict(name='remainder sign decides the rounding adjustment', where=I + 'rational.h')],
  'reference-model monitor: GMP rationals as the oracle, under ASan+UBSan')

P('G02', 'Every comparison of geometric values is the order it documents',
  '''Ordering points lexicographically, by topness and by component, and
  vectors by rotation and by half rotation, gives exactly the geometric order;
  the implementation defined orders of 2D lines and of 3D half-spaces are strict
  weak orders whose equivalence is geometric equality. Equality of points,
  lines, half-spaces and directions holds exactly when the geometric objects are
  the same, and for reduced points strict equality and hashing agree with it.
  None of this depends on the homogeneous scale that represents a value,
  including negative scales.''',
  ['inputs'],
  '''Every pair and triple of points, vectors, lines and half-spaces, with every
  homogeneous representation of each.''',
  '''An ordering fails for a pair or a triple: a cycle, or two different values
  taken as equal, needs specific relations between signs, scales and zero
  components. Tests compare a few chosen pairs.''',
  [I + 'homo_point2.h', I + 'homo_point3.h', S + 'homo_point3.cpp', I + 'point3.h',
   S + 'point3.cpp', I + 'vector2.h', I + 'vector3.h', I + 'rational.h',
   I + 'half_space2.h', I + 'half_space2_sideless_compare.h', I + 'half_space3.h',
   I + 'plucker_line.h', S + 'plucker_line.cpp'],
  [dict(name='cross multiplication with a sign flip', where=S + 'homo_point3.cpp'),
   dict(name='quadrant and half turn normalization', where=I + 'vector2.h'),
   dict(name='scaled tuple comparison', where=I + 'half_space3.h')],
  'order-axiom monitor: all pairs and triples of related elements against exact rationals')

P('G03', 'Geometric predicates have the exact sign, for every representation',
  '''Which side of a plane or 2D line a point is on, whether points, lines and
  planes are coincident, whether two parallel planes coincide, and whether three
  points projected along an axis turn counter-clockwise, clockwise or not at
  all, are answered with the sign of the exact real number expression. The
  answer does not depend on how homogeneous points are scaled, including by
  negative factors, and is zero exactly when the objects are degenerate.''',
  ['inputs'],
  '''Every plane, line and point, including points arbitrarily close to, or
  exactly on, the plane or line, in every homogeneous representation.''',
  '''The tests use small integers where floating point would work too; the
  library exists because the sign must be exact for nearly degenerate input.''',
  [I + 'half_space2.h', I + 'half_space3.h', I + 'plucker_line.h',
   I + 'homo_point3.h', S + 'homo_point3.cpp', I + 'point3.h', I + 'point2.h'],
  [dict(name='dot product compared against scaled distance', where=I + 'half_space3.h'),
   dict(name='twist of homogeneous points', where=S + 'homo_point3.cpp')],
  'reference-model monitor: exact rational signs on degenerate and near degenerate geometry')

P('G04', 'Constructed planes, lines, projections and points are exact',
  '''Planes and lines built from points, planes, normals, axes or 2D lines go
  exactly through what they were built from, face the documented direction, and
  are reported invalid exactly when the input is degenerate. Intersections,
  projections, offsets, differences, negations and reductions of points, lines
  and planes give exactly the geometric result; reductions leave coprime
  coordinates and reduced points have positive denominators. None of this
  depends on the scale or sign of homogeneous inputs.''',
  ['inputs'],
  '''Every combination of points, normals and planes, including collinear points
  and parallel planes, in every homogeneous representation.''',
  '''The tests construct axis aligned or small examples with positive
  denominators; a wrong sign for two or three negative denominators, or in one
  of the three projection axes, passes them.''',
  [I + 'half_space3.h', S + 'half_space3.cpp', I + 'plucker_line.h',
   S + 'plucker_line.cpp', I + 'homo_point3.h', S + 'homo_point3.cpp',
   I + 'vector3.h', S + 'vector3.cpp', I + 'vector2.h', I + 'half_space2.h'],
  [dict(name='sign correction by denominators in constructors', where=I + 'half_space3.h'),
   dict(name='Pluecker coordinates of joins and meets', where=S + 'plucker_line.cpp')],
  'reference-model monitor: exact rational reconstruction of every constructed object')

P('G05', 'Bounding boxes classify and intersect points and planes exactly',
  '''A box reports a point as inside, or on the border, exactly when it is, and
  reports a plane as missing it on the positive or negative side exactly when
  all of the box is strictly on that side. For a box with volume, the polygon
  where a plane meets it is exactly that intersection, oriented like the plane,
  and is empty when the two share no area; its walls are exactly its faces
  facing outwards. Box equality and the diagonal length do not depend on the
  common denominator.''',
  ['inputs'],
  '''Every box and every point and plane, including planes through corners,
  along edges and along faces, and every common denominator of either sign.''',
  '''Intersections have 3 to 6 corners depending on the plane, with degenerate
  contacts at corners, edges and faces; tests pick a handful with denominator 1.''',
  [I + 'aabb.h', S + 'aabb.cpp'],
  [dict(name='parallelogram split by the two remaining walls', where=I + 'aabb.h'),
   dict(name='extreme corner along the normal', where=I + 'aabb.h')],
  'reference-model monitor: exact corner enumeration of box and plane')

P('G06', 'The shear comparison agrees with an actual infinitesimal shear',
  '''Comparing two plane normals after the reverse lexicographic shear gives the
  rotation direction that the normals have, projected to the XY plane, when the
  shear is really applied with any small enough parameter, and zero exactly when
  the normals are parallel. Comparing against a split side flips the normal of
  its positive side. Applying the shear to a point with an explicit parameter
  gives exactly the sheared point.''',
  ['inputs'],
  'Every pair of normal vectors, including parallel ones and ones with equal projections.',
  '''The degenerate branches are only taken when XY projections are parallel;
  tests try a few of them with small vectors.''',
  [I + 'r_transformation.h', S + 'r_transformation.cpp'],
  [dict(name='lexicographic comparison of three cross product terms', where=S + 'r_transformation.cpp')],
  'reference-model monitor: exact shear with two stable infinitesimal parameters')

P('P01', 'Splitting a convex polygon partitions it exactly',
  '''Splitting a convex polygon by any plane decides exactly whether it has parts on
  each side or lies in the plane, whichever search is used. When it has parts on
  both sides, the two children are exactly the two clipped halves: convex,
  oriented like the original, and with every vertex of the original in the child
  of its side. Each child edge inherits its data from the original edge it lies
  on, with new vertices and new edges marked as derived.''',
  ['inputs'],
  '''Every convex polygon of 3 to dozens of vertices, with collinear vertices and
  any starting vertex, in any plane, and every splitting plane: through vertices,
  along edges, parallel, or barely touching.''',
  '''Two search strategies are chosen by vertex count and indices wrap around the
  vertex list; each combination of vertices on the plane takes another path.''',
  [I + 'convex_polygon.h', I + 'convex_polygon_split_info.h', S + 'convex_polygon_split_info.cpp',
   I + 'convex_polygon_edge.h', I + 'aabb_convex_polygon.h'],
  [dict(name='linear and bisecting range searches', where=I + 'convex_polygon.h'),
   dict(name='child edge construction around the new shared points', where=I + 'convex_polygon.h')],
  'reference-model monitor: exact rational clipping plus provenance-tracking edge data')

P('P02', 'Polygon searches by direction and half-plane return the right vertices',
  '''Binary searches over a convex polygon agree with exhaustive search: edges along
  and against a direction, the farthest vertex in a 2D or 3D direction with its
  documented tie break, a vertex on a given side of a line or the closest one
  when there is none, and the last vertex before crossing. Both range searches
  return exactly the vertices strictly on each side. Returned indices are always
  valid vertex indices.''',
  ['inputs'],
  '''Every convex polygon, starting vertex, dropped dimension, direction and
  half-plane, including directions along and perpendicular to edges.''',
  '''The searches work cyclically and depend on where the vertex list starts,
  which edge is perpendicular, and the signs of denominators.''',
  [I + 'convex_polygon.h'],
  [dict(name='cyclic bisection with wrapping indices', where=I + 'convex_polygon.h')],
  'reference-model monitor: exhaustive exact search')

P('P03', 'Merging and rearranging polygons preserves their shape',
  '''Merging two polygons along a shared edge succeeds exactly when they have the
  same normal direction and their union is convex; it then yields exactly that
  union, dropping a joint that became collinear exactly when its edges allow it,
  and otherwise leaves both unchanged. Rotating, sorting, splitting an edge,
  inverting, copying and moving keep the shape and data. Polygons are equal
  exactly when they have the same plane, the same cycle of vertices and the same
  edge data.''',
  ['inputs', 'histories'],
  '''Every pair of convex polygons sharing an edge, coplanar or tilted by any
  amount, with any starting vertices and any mix of mergeable edges.''',
  '''Joints are convex, collinear, reflex or folded back, on either end, with
  index wrap around; tests cover a few small squares.''',
  [I + 'convex_polygon.h', I + 'mutable_convex_polygon.h', I + 'convex_polygon_edge.h', I + 'aabb_convex_polygon.h'],
  [dict(name='edge splice by rotate, then removal of collinear joints', where=I + 'convex_polygon.h')],
  'reference-model monitor: exact union cycle with convexity test, and split-then-merge round trips')

P('P04', 'Polygon areas and centroids are exact',
  '''The projected signed area of a convex polygon along every axis, its projected
  centroid along every axis that does not flatten it, and its centroid in space
  are exactly the true rational values, whatever denominators (positive or
  negative) the vertices are written with.''',
  ['inputs'],
  'Every convex polygon, with collinear vertices and any vertex denominators.',
  '''Sums are accumulated over changing common denominators; tests use few
  denominators, mostly positive.''',
  [I + 'convex_polygon.h'],
  [dict(name='running common denominator', where=I + 'convex_polygon.h')],
  'reference-model monitor: exact rational triangulation sums')

P('P05', 'A polygon bounding box stays exact through splits, merges and edits',
  '''The bounding box carried by a polygon contains every vertex and is tight to
  within one unit of its denominator, and its recorded extreme vertices are
  exactly extreme along each axis. This holds after construction and after any
  sequence of splits, merges, rotations, sorts, edge splits, inversions, copies
  and moves.''',
  ['inputs', 'histories'],
  'Every polygon and every sequence of operations on it, with any vertex denominators.',
  '''Children derive their extremes from their parent by index arithmetic that
  depends on where the extreme vertex lies relative to the split; tests check
  single splits of simple polygons.''',
  [I + 'convex_vertex_aabb_tracker.h', I + 'aabb_convex_polygon.h', I + 'rational.h'],
  [dict(name='extreme index remapping in split children', where=I + 'convex_vertex_aabb_tracker.h'),
   dict(name='reuse of parent bounds', where=I + 'convex_vertex_aabb_tracker.h')],
  'invariant monitor over random operation histories, exact recomputation of extremes')

P('O01', 'The output of a boolean operation encloses exactly the right points',
  '''For closed oriented input meshes and any combination of union, intersection,
  subtraction, inversion and their multi-id forms, every point off the surfaces
  has winding number one in the output if it is inside the operation and zero
  otherwise (one less when infinity is inside). Symmetric difference and odd
  filters give output whose crossing parity is right. This holds for any number
  of meshes, touching or coincident, for trees that were already split or
  traversed, and for every choice of split strategy and output visitor.''',
  ['inputs', 'histories'],
  '''Every set of closed meshes (any winding numbers, flipped, nested, repeated or
  sharing facets, edges and vertices), filter expression, insertion order, prior
  splits and traversals of the tree, and k-d tree depth.''',
  '''Errors need specific coincidences: a facet on a split plane, an edge through
  a vertex, content added after a split. Tests use a few cubes and pyramids.''',
  [I + 'bsp_tree.h', I + 'bsp_traverser.h', I + 'bsp_visitor.h', I + 'boolean_operation_filter.h', I + 'bsp_node.h', I + 'plane_partitioner.h', I + 'connecting_visitor.h'],
  [dict(name='partial winding numbers along coincident edges', where=I + 'bsp_node.h'),
   dict(name='filter evaluation on partially known ids', where=I + 'boolean_operation_filter.h'),
   dict(name='early acceptance and rejection in the traversal', where=I + 'bsp_traverser.h')],
  'reference-model monitor: exact winding numbers by ray casting, at points on, near and off every input facet')

P('O02', 'The output of a boolean operation is closed and bounds the result',
  '''The facets output for a boolean operation that does not use symmetric
  differences are valid convex polygons that together cover every edge equally
  often in both directions. Every point inside an output facet lies in no other
  output facet of that orientation, has the result directly below it, and has
  the outside directly above it, except where an oppositely oriented output
  facet lies on it.''',
  ['inputs', 'histories'],
  'The same inputs and histories as for the points enclosed by an output.',
  '''Lost, doubled or wrongly kept coincident facets do not show up in facet
  counts for simple shapes.''',
  [I + 'bsp_node.h', I + 'bsp_traverser.h', I + 'bsp_visitor.h', I + 'connecting_visitor.h', I + 'boolean_operation_filter.h'],
  [dict(name='border contents on coincident planes', where=I + 'bsp_node.h'),
   dict(name='remerging of split polygons', where=I + 'connecting_visitor.h')],
  'invariant monitor: exact edge cover, and exact winding numbers at 2^-600 above and below random facet points')

P('O03', 'Connected boolean output is linked into a closed surface',
  '''When a boolean operation (without symmetric differences) delivers connected
  facets, every edge of every facet has exactly one partner, the partnership is
  mutual, partners run between the same two end points in opposite directions,
  and no other facet at the edge lies within the solid wedge between two
  partners. Walking from edge to edge around a vertex returns to where it
  started. The links, the facets' positions and their bounding boxes stay
  correct when the facets are taken out or moved.''',
  ['inputs', 'histories'],
  'Random pairs and triples of solids that overlap, touch along edges or coincide, any filter, any tree shape.',
  '''The connectors are tested on a few hand-made edges; that every edge of every
  possible output finds the right partner, although facets were split apart and
  merged back, is a claim over all inputs.''',
  [I + 'connecting_visitor.h', I + 'connected_polygon.h', I + 'edge_line_connector.h', I + 'connected_polygon_edge.h'],
  [dict(name='partner assignment', where=I + 'edge_line_connector.h'),
   dict(name='merging polygons and edges after the traversal', where=I + 'connecting_visitor.h')],
  'invariant monitor over the output: mutual partners, exact end points, exact angular order of all facets at each edge')

P('O04', 'Half-edges on a line are paired with the closest facing half-edge',
  '''Given half-edges on lines in a plane, with any overlaps and any number of
  facets around each line, every stretch of a line where polarities alternate
  around it is fully paired: each half-edge with the next one around the line on
  the solid side, splitting edges wherever the pairing changes, without changing
  the shape of any facet. The error callback is called exactly when the
  half-edges come from an open surface. Even then, half-edges whose closest
  neighbor faces them are paired and all others have no partner.''',
  ['inputs'],
  'Every set of facets around lines in common position: random directions, intervals, orders and polarities, closed or open.',
  '''The order of events at one location, splits and re-pairings interact; unit
  tests use a handful of fixed fans.''',
  [I + 'edge_line_connector.h', I + 'connected_polygon.h'],
  [dict(name='sweep along a line', where=I + 'edge_line_connector.h')],
  'model-based monitor: expected pairing by exact angles, for random fans of facets')

P('O05', 'Boolean operations compose',
  '''The output of a boolean operation, taken from any of the output visitors and
  added to another (or a cleared) tree, is an input like any other: a second
  operation on it and further solids gives the winding numbers of the combined
  expression.''',
  ['inputs', 'histories'],
  'All chains of two operations on random solids; outputs have non-integer vertices, split edges and merged facets, which inputs written by hand do not have.',
  '''Unit tests never feed an output into another operation.''',
  [I + 'bsp_tree.h', I + 'bsp_visitor.h', I + 'connecting_visitor.h', I + 'convex_polygon.h'],
  [dict(name='outputs as inputs', where=I + 'bsp_tree.h')],
  'reference-model monitor: exact winding numbers of a combined expression')
P('O06', 'Connected facets stay connected while they are edited and moved',
  '''Along any history of merging connected facets, removing the emptied ones,
  choosing another first vertex, and moving facets to other memory, every edge and
  its partner keep naming each other and keep the same end points in opposite
  order. Merging adds up the areas of the facets and removes exactly the vertices
  that no other facet needs, also from the facets on the other side of the
  affected edges, and none whose edges refuse it; a refused merge changes nothing.
  This holds for open surfaces, where some edges have no partner.''',
  ['histories'],
  'All histories over the facets of any connected mesh, with and without bounding boxes.',
  '''Unit tests merge one arrangement of four rectangles. Merging edges also merges those
  of the partners, and every move patches pointers of other facets.''',
  [I + 'connected_polygon.h', I + 'convex_polygon.h', I + 'aabb_convex_polygon.h', I + 'convex_polygon_edge.h'],
  [dict(name='merging the edges on both sides', where=I + 'connected_polygon.h'),
   dict(name='pointer patching on moves', where=I + 'connected_polygon.h')],
  'history monitor: all links are checked after every operation')
P('O07', 'Facets that were only cut by the search tree come back whole',
  '''When the result of an operation on convex polyhedra, each with one facet per
  plane, is itself convex (an intersection, or a polyhedron united with a part of
  itself), its connected output has exactly one facet in each plane, and a vertex
  only at each true corner. This holds for every order in which facets were added,
  and for every way in which the space was divided before.''',
  ['inputs', 'histories'],
  'All convex polyhedra, all divisions of space, and all traversal strategies.',
  '''Unit tests merge the pieces of single hand placed facets. Whether everything that
  was cut is joined again depends on the order of cuts in different branches, which
  decides the order of merges, and on which vertices the neighbors still need.''',
  [I + 'connecting_visitor.h', I + 'connected_polygon.h', I + 'convex_polygon.h', I + 'bsp_edge_info.h', I + 'edge_line_connector.h'],
  [dict(name='merging in the reverse order of the cuts', where=I + 'connecting_visitor.h'),
   dict(name='merging of polygons and of edges', where=I + 'convex_polygon.h')],
  'invariant monitor over the output: distinct exact planes, true corners, closedness and the Euler characteristic')
P('O08', 'Boolean filters tell what is inside, and what contents can change it',
  '''Given the winding numbers of a region and which inputs have facets in it,
  every filter and every combination of filters reports the region as inside
  exactly when its operation says so, with inputs that were never seen counting
  as empty. A region is never reported as decided when facets in it could still
  change the answer, and always when they cannot, as long as no input occurs
  twice in the expression.''',
  ['inputs'], 'All expressions over all filters, all winding numbers, and all subsets of inputs with facets.',
  '''Whether a region is decided is only visible in how much work a traversal does,
  or in facets that are missing for rare arrangements of inputs.''',
  [I + 'bsp_visitor.h', I + 'boolean_operation_filter.h', I + 'bsp_content_info.h'],
  [dict(name='combination of decided and undecided answers', where=I + 'bsp_visitor.h'),
   dict(name='filters over lists of inputs', where=I + 'boolean_operation_filter.h')],
  'reference-model monitor: evaluation over all windings that the contents can lead to')
P('O09', 'Collected facets name their input and the search planes they lie on',
  '''Every facet that a Boolean operation collects names an input whose surface
  contains it, in its plane. Every search plane which a facet, an edge or a vertex
  names contains it, and is kept for as long as the tree and the planes handed
  over with the facets are. A visitor whose facets were taken works again.''',
  ['inputs', 'histories'], 'All inputs, expressions, trees and split strategies.',
  '''Tests look at the shape of the output. A plane that is named after it is
  gone reads freed memory that usually still has the old contents.''',
  [I + 'bsp_visitor.h', I + 'plane_partitioner.h', I + 'bsp_edge_info.h', I + 'bsp_polygon.h'],
  [dict(name='map from temporary to kept planes', where=I + 'bsp_visitor.h')],
  'provenance monitor: every named plane is read under ASan and checked exactly')
P('S01', 'A BSP tree holds exactly the polygons that were put in it',
  '''Along any history of adding polygons to a BSP tree and splitting its leaves,
  the pieces in the leaves cover exactly the polygons that were added, each
  piece is within the cell of its leaf, faces its original direction, and is
  listed as on the border exactly when it lies in a plane that bounds the cell.
  Every piece and every edge and vertex of it names the first or last of the
  splits that it is coincident with, and the side of it, and the leaf counts
  exactly what it holds for each input.''',
  ['inputs', 'histories'],
  'All histories; polygons may be open, overlapping, and coincident with splits of any order.',
  '''Unit tests check hand placed cubes and triangles with a few axis aligned
  splits. The bookkeeping depends on which splits an edge or vertex is
  coincident with, in which order, and on which side.''',
  [I + 'bsp_node.h', I + 'bsp_polygon.h', I + 'bsp_edge_info.h', I + 'bsp_content_info.h', I + 'bsp_tree.h'],
  [dict(name='splitting of nodes', where=I + 'bsp_node.h'),
   dict(name='coincidence bookkeeping', where=I + 'bsp_edge_info.h')],
  'conservation monitor: exact area of every input plane over the leaves, and recomputed coincidences')
P('S02', 'A BSP tree knows how often each input winds around a cell',
  '''For closed inputs, every cell of a BSP tree that contains no part of the
  surface of an input in its interior records exactly the winding number of that
  input around the points of the cell, and zero for an unknown input. This holds
  for overlapping and repeated meshes, for splits through vertices, edges and
  facets, and for content that is added before or after splits.''',
  ['inputs', 'histories'],
  'All closed inputs, split histories and cells; the winding numbers are accumulated edge by edge from coincidences with splits.',
  '''Unit tests check a few cells around cubes. The winding number is derived
  incrementally from the edges that touch a split, so every degenerate position
  of a surface relative to a split is a separate case.''',
  [I + 'bsp_node.h', I + 'bsp_edge_info.h', I + 'r_transformation.h'],
  [dict(name='winding number updates', where=I + 'bsp_node.h')],
  'reference-model monitor: exact ray casting through the input meshes')
P('S03', 'The border of a BSP cell is the exact polyhedron of the cell',
  '''Asking for the border of any cell of a BSP tree within a bounding box gives a
  closed, connected polyhedron that is exactly the part of the box on the chosen
  sides of the splits along the path, and nothing when that part has no volume.
  Asking for it without the walls of the box gives exactly the facets that lie
  in the splits, facing out of the cell.''',
  ['inputs'],
  'All boxes (also with denominators) and all paths of distinct splits that cross the box or are one of its walls.',
  '''Unit tests use one to three axis aligned splits.''',
  [I + 'bsp_tree.h', I + 'aabb.h', I + 'connecting_visitor.h'],
  [dict(name='borders of nodes', where=I + 'bsp_tree.h')],
  'reference-model monitor: exact convex clipping, compared by closedness, containment and volume')
P('S04', 'Sorted sweep events stay exact through splits and yield the best split',
  '''Sorting polygons along an axis lists where each starts and ends in exact
  order, and picking a split from it finds the place with the lowest estimated
  cost and counts exactly the polygons on each side of it and in it. Splitting by
  it divides the polygons exactly, and leaves sorted lists for both children along
  all three axes that are as exact, through any number of splits.''',
  ['inputs', 'histories'],
  'All polygon sets, axes, exclusions, and sequences of splits; many polygons are flat along an axis, share locations or get split.',
  '''Unit tests check hand placed triangles. The lists of the children are merged
  from those of the parent, with special cases for polygons that are split, flat
  or on the border, which random histories combine.''',
  [I + 'polygon_event_point.h', I + 'bsp_node.h', I + 'bsp_traverser.h', I + 'm_log_n_estimator.h'],
  [dict(name='event points', where=I + 'polygon_event_point.h'),
   dict(name='split cost', where=I + 'm_log_n_estimator.h')],
  'invariant monitor on the event lists after every split, with exact recomputation of extents, counts and costs')
P('S05', 'Picked splits always make progress, and planes are partitioned exactly',
  '''The plane picked to split a node always puts a polygon of the node on the
  border or leaves polygons on both sides, so that splitting always ends with
  cells that have no polygons in their interior. Partitioning any set of polygons
  in a plane, facing either way and overlapping in any way, sends on exactly the
  parts across which the result of the operation changes.''',
  ['inputs'],
  'All polygon sets; more than 40 polygons of one input switch to a different way to pick a plane.',
  '''Unit tests never have enough polygons in a node with denominators that are
  not one, and partition two or three rectangles.''',
  [I + 'bsp_node.h', I + 'plane_partitioner.h', I + 'bsp_visitor.h'],
  [dict(name='picking splits', where=I + 'bsp_node.h'),
   dict(name='2D partitioning', where=I + 'plane_partitioner.h')],
  'progress monitor over full subdivisions, and exact point samples of the plane against the filter')
P('D01', 'Any vertex loop decomposes into valid convex polygons that cover it',
  '''Turning any loop of vertices into convex polygons terminates and gives valid
  convex polygons over the given vertices, whose directed edges add up exactly to
  those of the loop. This holds for loops that are not planar, cross or touch
  themselves, are collinear, or repeat vertices, and for every way to hand in the
  vertices; each vertex keeps its own data. The pieces of a simple loop that is
  convex or monotone in the dimension in use do not overlap, and face the same
  way as the loop; a convex loop stays in one piece.''',
  ['inputs', 'histories'],
  'All loops of integer or rational vertices, in any plane, also through a factory that was used before.',
  '''Unit tests decompose a few hand drawn polygons. Every step makes decisions on
  the order, equality and orientation of vertices which only degenerate loops
  reach, in planes in which each coordinate may be the dropped one.''',
  [I + 'convex_polygon_factory.h', I + 'planar_range.h', I + 'monotone_range.h', I + 'orienting_monotone_decomposer.h', I + 'monotone_decomposer.h', I + 'point3_with_vertex_data.h'],
  [dict(name='the chain of decomposition steps', where=I + 'convex_polygon_factory.h')],
  'conservation monitor: exact cancellation of the directed edges of the pieces and the loop')
P('D02', 'Extruding a loop gives a closed polyhedron with the exact volume',
  '''Extruding any loop of vertices along any vector (with a denominator of either
  sign) gives valid facets that form a closed surface over the vertices of the
  loop and its translation. For a planar loop the enclosed volume is exactly that
  of the sweep, with a sign that depends on the direction of the loop, and a
  simple loop's extrusion winds exactly once around the points of the sweep.''',
  ['inputs'],
  'All loops, including degenerate ones, and vectors, including those in the plane of the loop.',
  '''Unit tests extrude a few squares. The caps are decomposed in opposite
  directions and the sides separately, and all of it has to fit.''',
  [I + 'extrude.h', S + 'extrude.cpp', I + 'convex_polygon_factory.h'],
  [dict(name='caps and sides', where=S + 'extrude.cpp')],
  'reference-model monitor: exact closedness, volume and winding numbers')
P('D03', 'Each decomposition step keeps exactly the outline it was given',
  '''Splitting a loop into planar ranges, each of those into monotone ranges, and
  a pair of chains into triangles or convex pieces makes progress and ends, and
  at each step the directed edges add up to those of the input. Planar ranges are
  in the plane they name and end only at vertices outside of it, chains are sorted
  and share their ends, a loop that is monotone already is one range, and a pair
  of chains gives two triangles less than it has vertices. Every piece has the
  orientation reported for it, which for chains that do not cross is that of their
  outline, and a convex outline stays in one piece.''',
  ['inputs'],
  'All loops and pairs of chains, every combination of dropped and monotone dimensions, forward and bidirectional iterators.',
  '''Unit tests use hand drawn chains. Degenerate chains (collinear, crossing,
  with vertical runs or shared starts) combine in more ways than are drawn.''',
  [I + 'planar_range.h', I + 'monotone_range.h', I + 'monotone_triangulator.h', I + 'monotone_decomposer.h', I + 'orienting_monotone_decomposer.h', I + 'concat_range.h'],
  [dict(name='monotone triangulation', where=I + 'monotone_triangulator.h')],
  'conservation monitor: exact cancellation of directed edges, and recomputed orientations')
P('M01', 'Topmost and farthest vertices and the centroid of a mesh are exact',
  '''For any non-empty set of facets the topmost vertex and the vertex farthest
  along any direction are vertices of the facets with the greatest height and
  extent. The centroid of a closed mesh is exactly that of its solid, whatever
  denominators the vertices have, whichever way the facets face, and for several
  disjoint or nested shells.''',
  ['inputs'],
  'All meshes with rational vertices; volumes of either sign.',
  '''Unit tests measure two or three boxes with integer vertices. Mixed
  denominators go through a different accumulation.''',
  [I + 'mesh.h', I + 'convex_polygon.h', I + 'homo_point3.h'],
  [dict(name='accumulation with a running denominator', where=I + 'mesh.h')],
  'reference-model monitor: exact rational moments of the solid')
P('M02', 'Repaired meshes have planar facets and keep their topology',
  '''Repairing a mesh whose vertices are off of the planes of their facets gives,
  for every facet, pieces which are exactly planar and whose outline is that of
  the facet; all facets agree on where each vertex went. Facets that already are
  planar, and vertices that need not move, stay exactly as they were, and slightly
  moved corners of a box stay close to where they were and the facets keep facing
  the same way.''',
  ['inputs', 'histories'],
  'All manifold meshes, in any order of facets and vertices, and any amount of noise; facets with collinear vertices where the mesh needs no repair.',
  '''Unit tests repair a few small meshes. Planes are built incrementally from
  constrained vertices, nudged, and facets are split when no plane fits, all of
  which depends on the order in which facets and vertices are processed.''',
  [I + 'mesh_plane_repairer.h', S + 'mesh_plane_repairer.cpp', I + 'nudging_plane_builder.h', S + 'nudging_plane_builder.cpp'],
  [dict(name='constraint order and facet splits', where=S + 'mesh_plane_repairer.cpp'),
   dict(name='nudged planes', where=S + 'nudging_plane_builder.cpp')],
  'online monitor of the producer, with exact planarity and a consistent vertex assignment as the oracle')
P('M03', 'All facets around a vertex get the same double coordinates',
  '''Mapping the vertices of connected facets to double precision gives the same
  coordinates for every representation of one vertex, whatever numerator and
  denominator each facet represents it with, and in every order of queries; the
  coordinates are those of one of the representations. Mapping does not merge
  different vertices.''',
  ['inputs', 'histories'],
  'All connected meshes with any number of representations per vertex, and all query orders.',
  '''Unit tests map one vertex with two representations. Groups of
  representations are merged while edges are followed, in an order that depends on
  the mesh.''',
  [I + 'vertex_double_point3_mapper.h', I + 'redirectable_value.h', I + 'double_point3.h', S + 'double_point3.cpp'],
  [dict(name='redirecting values around a vertex', where=I + 'vertex_double_point3_mapper.h')],
  'history monitor: agreement over all queries')
P('V01', 'VTK meshes import and export exactly',
  '''Importing a VTK mesh gives valid convex polygons over its points, moved to the
  nearest multiples of the quantum if one is requested, that cover its cells
  (polygons and triangle strips) exactly with the direction of each cell, or the
  opposite direction on request. Exporting polygons with coordinates that doubles
  can represent and importing them again gives the same polygons, with each
  distinct point written once.''',
  ['inputs'],
  'All cell kinds, shared and repeated points, single and double precision, strips of every length.',
  '''Unit tests import and export one or two cells. Quantization, strips, bent
  quadrilaterals and repeated points are only reached by other data.''',
  ['vtk_interface/include/walnut/vtk_to_walnut_mesh.h', 'vtk_interface/include/walnut/walnut_to_vtk_mesh.h', I + 'double_point3.h'],
  [dict(name='cell traversal and quantization', where='vtk_interface/include/walnut/vtk_to_walnut_mesh.h')],
  'reference-model monitor: exact edge cover of the imported cells, and round trips')
P('V02', 'The VTK filter gives the union, intersection or difference of its inputs',
  '''The output of the VTK boolean filter is a closed mesh whose solid contains
  exactly the points that the chosen operation gives, up to the quantization of
  its inputs and the rounding of new vertices to doubles. This includes empty inputs,
  inputs with several components and coinciding facets, and running the filter
  again after changing its settings.''',
  ['inputs', 'histories'],
  'One to three closed VTK meshes, and all settings of the filter. Points within rounding distance of a facet are excluded.',
  '''The filter has no unit tests. Its order of traversal, the sign of the second
  input and the mapping of vertices each have to be right for all inputs.''',
  ['vtk_interface/src/vtkWalnutBooleanFilter.cpp', I + 'bsp_tree.h', I + 'connecting_visitor.h', I + 'boolean_operation_filter.h', I + 'vertex_double_point3_mapper.h'],
  [dict(name='filter pipeline', where='vtk_interface/src/vtkWalnutBooleanFilter.cpp')],
  'reference-model monitor: winding numbers of the output at clear points')
P('L01', 'An object with an ownership handle always has exactly one holder',
  '''Along any history of creating, moving, swapping, lending and returning
  ownership handles, and of moving the objects they are for, exactly one handle
  reaches each object; a handle that lent it out gets it back when the borrower is
  destroyed or overwritten, and handles follow objects that are moved. Null
  handles can be created, moved and compared like others.''',
  ['histories'],
  'All histories over several objects and handles, for typed and untyped handles.',
  '''Unit tests use one lender and one borrower. Each move patches pointers in
  the object, the lender and the borrower.''',
  [I + 'deed.h'], [dict(name='pointer patching on moves', where=I + 'deed.h')],
  'model-based monitor of random operation histories')
P('L02', 'Redirected shared values always resolve to the value of their group',
  '''Along any history of redirecting values to each other, moving and copying
  them, every handle gives the value of the primary that its group was redirected
  to, and each value is created and destroyed exactly once.''',
  ['histories'], 'All histories; redirecting a value again that already follows another one is excluded.',
  'Unit tests redirect two or three values. Chains are shortened while they are read.',
  [I + 'redirectable_value.h'], [dict(name='path compression', where=I + 'redirectable_value.h')],
  'model-based monitor of random operation histories')
P('L03', 'Views of concatenated and transformed sequences behave like the sequence',
  '''Iterating a concatenation of any nesting of sequences, including empty ones,
  forwards and backwards, by single steps and by offsets, from either end, gives
  exactly the elements in the order in which the sequences were joined; comparing
  and subtracting iterators agrees with positions. Iterating through a
  transformation gives the transformed elements and keeps the transformation.''',
  ['inputs'], 'All nestings of up to four sequences of any size.',
  'Unit tests walk two or three short ranges in one direction.',
  [I + 'concat_range.h', I + 'transform_iterator.h'],
  [dict(name='crossing range borders', where=I + 'concat_range.h')],
  'reference-model monitor: a flat copy of the sequence')
P('L04', 'Cost estimates stay within their error bound',
  '''The estimate of m log n is within one plus about three percent of the exact
  value for every m and n, in every order of queries, does not decrease when m
  grows, and the cost of splitting a node is the sum of the estimates of both
  sides.''',
  ['inputs', 'histories'], 'All m up to four times n, and n up to 2^50.',
  'Unit tests compare a handful of values.',
  [I + 'm_log_n_estimator.h', S + 'm_log_n_estimator.cpp'],
  [dict(name='table of logarithms', where=S + 'm_log_n_estimator.cpp')],
  'reference-model monitor in floating point')
P('X01', 'No operation reads memory it has not set, or loses memory it allocated',
  '''For every valid input, exact arithmetic, geometric predicates, cutting and
  merging polygons, Boolean operations with every kind of visitor and filter,
  decomposing outlines, extruding, repairing meshes, partitioning and measuring
  never depend on uninitialized memory, never access memory that they do not
  own, and have released everything they allocated once their objects are gone.''',
  ['inputs', 'histories'],
  'All inputs of the public operations, in every combination that the documentation allows.',
  '''Tests pass with uninitialized memory whenever it happens to contain zeros,
  and do not notice memory which is lost.''',
  [I + 'big_int_words.h', I + 'bsp_node.h', I + 'bsp_edge_info.h', I + 'connected_polygon.h',
   I + 'convex_polygon_edge.h', I + 'convex_vertex_aabb_tracker.h', I + 'mesh_plane_repairer.h'],
  [dict(name='words of integers which are resized without being copied', where=I + 'big_int_words.h'),
   dict(name='tree nodes owned by their parents', where=I + 'bsp_node.h')],
  'runtime monitoring by valgrind memcheck: definedness of every value that is used, per-job leak accounting',
  '''Held on the executions observed: valgrind tracks every bit of every value
  that the real code reads.''')
P('X02', 'Independent operations may run in several threads on shared inputs',
  '''Threads which each run their own operations, and only read the integers,
  points, planes, polygons and meshes which they share, never race with each
  other, and each gets the results which it would get alone. Nothing in the
  library is modified behind a read.''',
  ['schedules', 'inputs'],
  'All interleavings of operations on separate objects which share constant inputs.',
  '''No test starts a thread. A cache inside an object that is only read, or a
  static scratch variable, gives right results in every sequential test.''',
  [I + 'big_int.h', I + 'bsp_tree.h', I + 'bsp_traverser.h', I + 'convex_polygon.h',
   I + 'connecting_visitor.h', S + 'm_log_n_estimator.cpp'],
  [dict(name='no mutable members and no shared scratch state', where=I + 'convex_polygon.h'),
   dict(name='static tables', where=S + 'm_log_n_estimator.cpp')],
  'race detection: ThreadSanitizer over concurrent jobs on shared inputs, plus comparison with sequential results',
  '''Held on the schedules observed: happens-before race detection reports a
  race whether or not it changed a result.''')
P('X03', 'Results depend on the inputs only, not on memory, history or compiler',
  '''Running the same operation on equal inputs again gives the same results,
  whatever ran before, whatever memory contains, and wherever objects are placed
  in memory. Optimized, unoptimized and assertion-free builds by different
  compilers compute the same results. Where the facets of a Boolean result are
  cut or ordered differently, they cover exactly the same surface.''',
  ['inputs', 'histories', 'configurations'],
  'All inputs, all memory layouts and contents, and all supported builds.',
  '''The tests run once, in one build, in a fresh process, where memory is mostly
  zero and objects are allocated in increasing order.''',
  [I + 'bsp_traverser.h', I + 'connecting_visitor.h', I + 'bsp_node.h', I + 'polygon_event_point.h',
   I + 'big_int.h', I + 'big_uint_word.h'],
  [dict(name='maps which are keyed by addresses', where=I + 'bsp_traverser.h'),
   dict(name='assertions with side effects', where=I + 'bsp_node.h'),
   dict(name='word primitives with compiler specific variants', where=I + 'big_uint_word.h')],
  'differential monitoring: repeated runs in disturbed memory and digests compared across builds',
  '''Held on the executions observed: digests of all results, compared across
  memory layouts and three builds.''')
