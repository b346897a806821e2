"""The monitored properties: which harness drives each one, and how much."""

CHECKS = {}


def add(prop, harness, quick, thorough, rule, **kw):
    h = harness if isinstance(harness, list) else [harness]
    CHECKS[prop] = dict(harness=h, quick=quick, thorough=thorough, rule=rule,
                        **kw)


add('B01', 'h_bigint.cpp', 6000, 200000,
    'each case is a random history of 40 operations over a pool of 6 integers '
    'with aliasing; non-trivial when a result needs more than one word; '
    'distinct by the sequence of operations, result sizes and signs')
add('B02', 'h_bigint.cpp', 12000, 400000,
    'each case is 12 divisions chosen to hit quotient digit estimation edges, '
    '3 greatest common divisors and 2 decimal printings; non-trivial when an '
    'operand needs more than one word; distinct by operand sizes and low bits')
add('B03', 'h_bigint.cpp', 8000, 300000,
    'each case is a set of integers reached along different histories which is '
    'compared pairwise; non-trivial when equal values were reached along '
    'different histories; distinct by values')
add('B04', 'h_bigint.cpp', 16000, 500000,
    'each case converts integers to floating point, doubles to exact rational '
    'points, and back; non-trivial beyond one word; distinct by operand sizes')
add('B05', 'h_bigint.cpp', 16000, 500000,
    'each case is 20 rounds of word primitives and 4 rounds of unsigned '
    'multi-word primitives on boundary values; non-trivial beyond one word; '
    'distinct by operand low bits')

add('G01', 'h_geom.cpp', 120000, 1000000,
    'each case rounds one rational to another denominator both ways and '
    'compares it with a related rational; non-trivial with a nonzero '
    'numerator and more than 8 bits; distinct by operands')
add('G02', 'h_geom.cpp', 8000, 150000,
    'each case orders 6 related elements of each of 8 ordered types pairwise '
    '(and triple wise where the order is unspecified); distinct by coordinates',
    require={'equal_pairs': 1000, 'negative_denominators': 100})
add('G03', 'h_geom.cpp', 20000, 200000,
    'each case evaluates predicates for 3 planes and lines on points that are '
    'on them, or as little as 2^-150 off; distinct by coordinates',
    require={'on_plane': 1000, 'twist_one_negative_denominator': 1000})
add('G04', 'h_geom.cpp', 40000, 200000,
    'each case runs every construction on random, often degenerate, points; '
    'non-trivial when the three points are not collinear; distinct by points',
    require={'parallel_intersections': 50, 'intersections': 1000})
add('G05', 'h_geom.cpp', 12000, 150000,
    'each case is a box, points in, out and on its border, and planes through '
    'it, its corners and edges; non-trivial when the box has volume; distinct '
    'by corners', require={'intersections_with_6_corners': 20})
add('G06', 'h_geom.cpp', 200000, 600000,
    'each case compares two normals, often parallel or with equal projections; '
    'non-trivial when they are not parallel; distinct by normals')
add('P01', 'h_poly.cpp', 2500, 150000,
    'each case is a convex polygon split by 4 planes, each through 4 entry '
    'points; non-trivial when a plane leaves parts on both sides; distinct by '
    'vertices and side counts', require={'split_two_vertices': 50, 'split_one_vertex': 50,
    'touching': 50, 'on_plane': 20, 'polygons_bisected': 100})
add('P02', 'h_poly.cpp', 5000, 150000,
    'each case runs every search for 4 directions and half-planes on a polygon; '
    'non-trivial for 5 or more vertices; distinct by vertices',
    require={'straddling': 100, 'touching': 100, 'one_sided': 50})
add('P03', 'h_poly.cpp', 8000, 200000,
    'each case tries to merge 2 polygons (boxed and not), a split and re-merge, '
    'and one of each edit; non-trivial when the merge succeeds; distinct by '
    'vertices', require={'merged': 100, 'refused_concave': 50, 'refused_normal': 50,
    'collinear_vertices_removed': 50, 'remerged': 100})
add('P04', 'h_poly.cpp', 30000, 300000,
    'each case checks all projections of one polygon; non-trivial for 4 or '
    'more vertices; distinct by vertices', require={'negative_denominators': 100})
add('P05', 'h_poly.cpp', 6000, 150000,
    'each case is a history of 12 operations, with the box checked after each; '
    'non-trivial with a split; distinct by vertices and operations',
    require={'children': 1000, 'edge_splits': 100, 'merges': 100})

add('O01', 'h_bool.cpp', 1800, 60000,
    'each case builds 1 to 3 meshes, a random filter expression, and a BSP tree '
    '(empty or already split), traverses it, and compares the winding number '
    'of the output with the expression at up to 14 points; non-trivial when '
    'the points include both inside and outside; distinct by output facets',
    require={'points_inside': 300, 'points_outside': 300, 'parity_points': 100,
             'connected': 50, 'connected_boxed': 50, 'collected': 50,
             'presplit_trees': 50, 'retraversals': 50})
add('O02', 'h_bool.cpp', 2200, 60000,
    'each case runs an operation like O01, checks that the output is closed as '
    'an exact edge cover, and probes both sides of up to 6 facets; non-trivial '
    'with more than 3 facets; distinct by output facets',
    require={'facets_probed': 500, 'connected': 50, 'connected_boxed': 50,
             'collected': 50, 'back_to_back': 1})
add('O03', 'h_connect.cpp', 2500, 80000,
    'each case runs an operation like O01 through a connecting visitor, and '
    'checks every partner, and every facet around each edge; non-trivial with '
    'more than 3 facets; distinct by output facets',
    require={'pairs': 10000, 'shared_edges': 300, 'moved': 200, 'boxes': 1000,
             'presplit_trees': 100})
add('O04', 'h_connect.cpp', 4500, 150000,
    'each case connects facets in random directions around random intervals of '
    '1 to 3 lines in a plane; non-trivial with more than 3 facets; distinct by '
    'facets', require={'closed_fans': 1000, 'open_fans': 300, 'split_edges': 500,
    'pairs': 10000, 'shared_edges': 3000, 'unpaired': 1000, 'duplicates': 50})
add('O05', 'h_bool.cpp', 1500, 50000,
    'each case runs an operation on the output of a previous operation, from '
    'one of the visitors, and compares winding numbers with the combined '
    'expression; non-trivial when the points include both inside and outside; '
    'distinct by output facets',
    require={'chained': 500, 'trees_reset': 100, 'from_collector': 100,
             'from_connecting': 100, 'from_connecting_boxed': 100,
             'presplit_trees': 100})

add('O06', 'h_connect.cpp', 2000, 60000,
    'each case connects the facets of a mesh and merges, sorts, moves and '
    'erases them; non-trivial with a merge; distinct by history',
    require={'merged': 1500, 'refused': 2000, 'swapped': 1000, 'moved_all': 1000,
             'sorted': 1000, 'erased': 500, 'open': 200, 'kept_collinear': 200,
             'kept_pinned': 100, 'copies_split': 100})
add('O07', 'h_connect.cpp', 6000, 300000,
    'each case makes 1 to 3 convex polyhedra with one facet in each plane, '
    'connects the output of their intersection (or of the union of the first '
    'with it), from an empty or already split tree, and checks that each plane '
    'has one facet, and each vertex is a corner; non-trivial when the output '
    'has fewer facets than the input; distinct by facets',
    require={'restored': 2000, 'intersections': 1000, 'polyhedra': 2500,
             'presplit_trees': 1000})

add('O08', 'h_bool.cpp', 60000, 1000000,
    'each case asks a random filter expression about 6 nodes with random '
    'contents, and compares the answers with all windings that the contents '
    'may lead to; non-trivial when contents cannot change the result; distinct '
    'by expression',
    require={'could_change': 5000, 'fixed_with_contents': 5000,
             'exact_answers': 5000, 'inputs_absent': 2000,
             'union_ids': 500, 'intersect_ids': 500, 'subtract_ids': 500,
             'filter_xor': 500})
add('O09', 'h_bool.cpp', 2000, 60000,
    'each case collects the facets of an operation, and checks the input and '
    'the planes which every facet and edge names; non-trivial with more than 3 '
    'facets; distinct by facets',
    require={'planes_named': 20000, 'partition_planes': 1000,
             'visitors_again': 100})
add('S01', 'h_bsp.cpp', 1800, 80000,
    'each case is a history of adding polygons to a BSP tree and splitting its '
    'leaves, after which every polygon of every leaf is checked; non-trivial '
    'with a split and more than one polygon; distinct by history',
    require={'border_polygons': 300, 'interior_polygons': 3000,
             'corner_edges': 100, 'created_edges': 1000, 'manual_splits': 500,
             'automatic_splits': 300})
add('S02', 'h_bsp.cpp', 1000, 80000,
    'each case adds 1 to 3 closed meshes to a tree in any order with splitting '
    'and compares the winding number of every cell without interior polygons '
    'with one counted with a ray; non-trivial with a split; distinct by meshes',
    require={'cells_free': 1000, 'cells_with_borders': 500, 'cells_inside': 300,
             'cells_multiple': 50})
add('S03', 'h_bsp.cpp', 1500, 60000,
    'each case takes the border of one cell of a tree within a box and compares '
    'it with the box clipped by the same planes; non-trivial when the cell is '
    'not empty; distinct by box and planes',
    require={'cells': 500, 'cells_on_walls': 50, 'empty_cells': 100,
             'without_walls': 500})
add('S04', 'h_bsp.cpp', 3000, 100000,
    'each case sorts polygons along all axes, finds the cheapest split, splits '
    'the node by it, and so on for the children, up to 5 levels; non-trivial '
    'with a split; distinct by polygons',
    require={'event_splits': 3000, 'flat_polygons': 10000,
             'splits_with_border': 1000, 'splits_with_both': 1000})
add('S05', 'h_bsp.cpp', 4000, 100000,
    'each case either splits a node by picked planes until it has no interior '
    'polygons, or partitions polygons in a plane and compares the output with '
    'the filter at 12 points; non-trivial when a point is covered; distinct by '
    'polygons', require={'picked_splits': 5000, 'quarter_turn_splits': 100,
    'quarter_turns': 500, 'large_nodes': 200, 'plane_points_on': 2000,
    'plane_points_off': 2000})
add('D01', 'h_decomp.cpp', 5000, 150000,
    'each case decomposes 1 to 3 vertex loops with one factory, and compares '
    'the directed edges of the pieces with those of the loop; non-trivial when '
    'a loop becomes several pieces; distinct by vertices',
    require={'simple_monotone_loops': 1000, 'loops_nonplanar': 200,
             'loops_with_spikes': 200, 'loops_closed_explicitly': 100,
             'loops_with_repeats': 200, 'pieces_beyond_triangles': 2000,
             'vertex_data': 5000, 'planes_given': 300, 'bidirectional_inputs': 500,
             'convex_loops_kept': 100})
add('D02', 'h_decomp.cpp', 3000, 80000,
    'each case extrudes a vertex loop along a vector and checks that the result '
    'is closed, and its volume and winding numbers; non-trivial when it has a '
    'volume; distinct by vertices and vector',
    require={'outward': 200, 'inward': 200, 'flat': 200, 'points_inside': 400})
add('D03', 'h_decomp.cpp', 2500, 80000,
    'each case splits one loop into planar and monotone ranges, and '
    'triangulates and decomposes one pair of chains; non-trivial when the '
    'chains become several pieces; distinct by vertices',
    require={'monotone_ranges': 2000, 'planar_ranges': 1500, 'triangles': 10000,
             'simple_chains': 800, 'crossing_chains': 200,
             'convex_beyond_triangles': 2000, 'convex_kept': 300,
             'repeated_vertices': 150, 'planar_stops': 500,
             'monotone_kept': 800})

add('M01', 'h_mesh.cpp', 3000, 80000,
    'each case measures one closed mesh (centroid, topmost and farthest '
    'vertices); non-trivial for more than one component or mixed denominators; '
    'distinct by facets',
    require={'centroids': 500, 'directions': 1000, 'mixed_denominators': 200,
             'inside_out': 100})
add('M02', 'h_mesh.cpp', 6000, 100000,
    'each case moves the vertices of a mesh off of the planes of its facets and '
    'repairs it; non-trivial with a split facet; distinct by vertices',
    require={'pieces': 3000, 'split_facets': 100, 'whole_facets': 1000,
             'already_planar': 100, 'repaired': 500, 'coincident': 20,
             'moved_boxes': 30, 'cleared': 200, 'collinear': 300,
             'meshes_without_need_to_split': 100})
add('M03', 'h_mesh.cpp', 1200, 20000,
    'each case maps the vertices of connected facets to doubles; non-trivial '
    'when vertices have several representations; distinct by vertices',
    require={'merges': 500, 'vertices_with_representations': 500,
             'vertices_with_many_representations': 100, 'open_meshes': 100})
add('V01', 'h_vtk.cpp', 2400, 30000,
    'each case imports VTK cells of every kind, with and without quantization, '
    'and exports polygons; distinct by points', vtk=True,
    require={'strips': 300, 'flipped': 50, 'quantized': 200,
             'imported_polygons': 2000, 'exported_polygons': 2000})
add('V02', 'h_vtk.cpp', 1000, 20000,
    'each case runs the VTK filter on two meshes and compares the winding '
    'number of the output at sample points; non-trivial with points inside and '
    'outside; distinct by output', vtk=True,
    require={'unions': 50, 'intersections': 50, 'differences': 50,
             'points_inside': 300, 'points_outside': 300, 'quantized': 100,
             'empty_inputs': 10, 'updates_again': 100})
add('L01', 'h_misc.cpp', 40000, 1000000,
    'each case is a history of 60 operations on 4 deeds of 5 objects against a '
    'model; distinct by history',
    require={'lends': 5000, 'borrowed_from_object': 500,
             'lent_objects_moved': 500, 'null_pointers': 100, 'returns': 1000,
             'objects_destroyed': 500})
add('L02', 'h_misc.cpp', 40000, 1000000,
    'each case is a history of redirections, moves and copies of values against '
    'a model; distinct by history',
    require={'primaries_redirected': 1000, 'followers_moved': 1000, 'copies': 1000})
add('L03', 'h_misc.cpp', 40000, 1000000,
    'each case builds a nested view of several ranges and walks it in every '
    'direction; distinct by contents',
    require={'views_prepended': 1000, 'views_appended': 1000,
             'transformed_steps': 5000, 'offsets': 5000})
add('L04', 'h_misc.cpp', 60000, 1000000,
    'each case compares cost estimates with exact values; distinct by operands',
    require={'estimates': 10000, 'split_costs': 5000})
add('X01', 'h_env.cpp', 3000, 60000,
    'each case runs one job (arithmetic, geometry, splitting, Boolean '
    'operations, decomposition, repair, partitioning, measuring) with all '
    'memory accesses watched by valgrind; distinct by results',
    sanitize=False, flags=['-DVF_MEMCHECK'], jobs=1, cpu_limit=300,
    confirm_cpu=900,
    wrap=['valgrind', '-q', '--leak-check=full', '--num-callers=20',
          '--error-limit=no', '--max-stackframe=8000000'],
    require={'watched_jobs': 100})
add('X02', 'h_env.cpp', 400, 8000,
    'each case runs 6 jobs on shared inputs in 4 threads at once under the '
    'thread sanitizer and compares all results with those of one thread; '
    'non-trivial when runs overlapped; distinct by inputs',
    sanitize=False, flags=['-fsanitize=thread'], jobs=6, cpu_limit=120,
    confirm_cpu=600, shards=4,
    require={'overlapping_runs': 1000, 'same_job_groups': 20,
             'mixed_job_groups': 20})
add('X03', 'h_env.cpp', 8000, 300000,
    'each case runs one job three times with other contents and addresses of '
    'memory and in three builds (g++ unoptimized with assertions, g++ -O3 '
    'without, clang++ -O2), and compares the results; distinct by results',
    sanitize=False, jobs=1,
    variants={'gcc-O0': ('g++', ['-O0']),
              'gcc-O3': ('g++', ['-O3', '-DNDEBUG']),
              'clang-O2': ('clang++', ['-O2'])},
    require={'results_compared_between_builds': 1000})
