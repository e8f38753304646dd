#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one place for statements)."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
S = 'src/'
def P(id, title, statement, over, text, why, files, mech, observe, state='', level='proof', note='', tech='deductive verification of the real functions (contracts over LLVM IR of /repo, loop summaries, z3/cvc5); contracts re-evaluated on the compiled library'):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, state=state, level=level, note=note, tech=tech)
PROPS = [
P('P01', 'Index maps move every entry to the right place and nothing else',
  'Gathering, scattering, accumulating, expanding and permuting an array through an index map gives exactly the array the map defines, for every array length, entry width and element type, including empty arrays. Entries the map does not reach keep their value (or take the stated initial value), composed maps act like applying one after the other, and inverting an injective map or permutation gives its inverse.',
  ['inputs'], 'all valid maps, fans and marks, all lengths and widths within the index range, all element types the library instantiates',
  'A test samples a few short arrays; a wrong stride or offset that shows only for a width, an empty source or a map that skips entries survives it.',
  ['src/Omega_h_map.cpp'], [('gather/scatter/expand', 'src/Omega_h_map.cpp'), ('composition and inversion of maps', 'src/Omega_h_map.cpp')], 'arrays returned by or written through the public index-map functions'),
P('P02', 'Prefix sums, sorting and map inversion give exact, ordered relations',
  'The offsets computed from counts are the exact running sums; sorting keys of one to three components yields a stable permutation into non-decreasing lexicographic order; inverting a many-to-one map lists, for every target, exactly the sources that map to it, once each. Offsets of an inverted sorted map, collected marks and products of fans are likewise exact.',
  ['inputs'], 'all count arrays whose sum fits the index type, all keys, all maps, including targets with no source',
  'Unit tests check a handful of small arrays; targets without sources, trailing empty groups and ties among keys are rare in samples but routine in meshes.',
  ['src/Omega_h_map.cpp', 'src/Omega_h_sort.cpp', 'src/Omega_h_int_scan.cpp', 'src/Omega_h_scan.hpp'], [('scan', 'src/Omega_h_int_scan.cpp, src/Omega_h_scan.hpp'), ('sort by keys', 'src/Omega_h_sort.cpp'), ('inversion of maps', 'src/Omega_h_map.cpp')], 'offset, permutation and inverse arrays returned'),
P('P03', 'Element-wise array algebra and reductions compute their definitions',
  'Each element-wise array operation returns, at every index, its scalar definition applied to the operands, with scalar operands broadcast cyclically over components where documented. Sums, minima, maxima, equality, searches and component extraction or interleaving over arrays of any length give the mathematically defined result, with the stated value for empty arrays.',
  ['inputs'], 'all lengths, element values (reals stand for floating point) and component counts',
  'The tests touch a few operations with short arrays; an index or bound error in a rarely used operation or for an unusual component count is not sampled.',
  ['src/Omega_h_array_ops.cpp', 'src/Omega_h_reduce.hpp'], [('element-wise operations', 'src/Omega_h_array_ops.cpp'), ('reductions', 'src/Omega_h_reduce.hpp, src/Omega_h_array_ops.cpp')], 'values returned by the public array operations'),
P('P04', 'Derived mesh adjacencies are exactly the relation their inputs define',
  'Deriving lower-dimensional entities, upward adjacency, transitive downward adjacency and neighbour graphs from given connectivity produces exactly the incidences that the reference element ordering defines. Each upward entry carries the correct local position and relative orientation, upward lists are ordered by entity index, and matching an entity to its stored copy reports the orientation that maps one vertex list onto the other.',
  ['inputs'], 'all meshes of simplices or hypercubes of every dimension, any numbering, any stored orientation',
  'Tests look at one or two element meshes and at box meshes whose numbering is regular; orientation and ordering errors appear only for irregular numberings.',
  ['src/Omega_h_adj.cpp', 'src/Omega_h_align.cpp'], [('derivation of adjacencies', 'src/Omega_h_adj.cpp'), ('reference element tables', 'src/Omega_h_simplex.hpp, src/Omega_h_hypercube.hpp')], 'adjacency arrays and codes returned'),
P('P05', 'Orientation codes form a group that acts faithfully on vertex lists',
  'Packing a local position, rotation and flip into a code and unpacking it returns the same three values. Composing two codes acts like applying one after the other, inverting a code undoes it, and applying a code to a vertex list and to a single vertex or edge index agree.',
  ['inputs'], 'all codes and all vertex positions for edges, triangles and quadrilaterals',
  'Tests compose a few triangle codes by hand; an error confined to one rotation-and-flip combination or to one entity degree escapes.',
  ['src/Omega_h_align.hpp', 'src/Omega_h_align.cpp'], [('code packing and algebra', 'src/Omega_h_align.hpp'), ('application to vertex lists', 'src/Omega_h_align.cpp')], 'codes and aligned arrays returned'),
P('P06', 'Reference element tables agree with one another',
  'For simplices and hypercubes of every dimension, the tables that name the vertices of each side, the sides around each sub-entity, opposite entities and entity counts are mutually consistent: an up entry names a side that really contains the sub-entity at the stated position with the stated flip, opposite entities share no vertex, and counts match the tables. All boundary sides are numbered so that side orientation is consistent over the element.',
  ['inputs'], 'every element family, dimension, boundary entity and local vertex',
  'The tables are long nested conditionals; tests compare a few entries, so one wrong digit in a rarely used branch survives.',
  ['src/Omega_h_simplex.hpp', 'src/Omega_h_hypercube.hpp', 'src/Omega_h_element.hpp'], [('simplex tables', 'src/Omega_h_simplex.hpp'), ('hypercube tables', 'src/Omega_h_hypercube.hpp'), ('family dispatch', 'src/Omega_h_element.hpp')], 'values of the table functions'),
P('P07', 'Parallel loops give the same result under every schedule',
  'No two iterations of a parallel loop in the array, map, graph, adjacency, marking and mesh-modification kernels write the same location with different values, and none reads a location another iteration writes, except through atomic updates whose order does not affect the result relied upon. Hence every schedule of the iterations produces the same arrays.',
  ['schedules', 'inputs'], 'all interleavings of the iterations of each covered kernel, all valid inputs',
  'The test build runs loops serially, so a conflict between iterations cannot show in it at all.',
  ['src/Omega_h_for.hpp', 'src/Omega_h_map.cpp', 'src/Omega_h_adj.cpp', 'src/Omega_h_refine_topology.cpp'], [('parallel loop', 'src/Omega_h_for.hpp'), ('kernels', 'src/Omega_h_map.cpp, src/Omega_h_adj.cpp, src/Omega_h_array_ops.cpp, src/Omega_h_mark.cpp, src/Omega_h_refine_topology.cpp')], 'arrays written by the kernels under permuted iteration orders'),
P('P08', 'Reproducible sums do not depend on the order of the summands',
  'The 128-bit integers used for summation add, subtract, negate, shift and compare exactly like mathematical integers whenever the result fits, and conversion from double keeps the represented multiple of the unit. A reproducible sum therefore yields bit-identical results for every order or distribution of its summands.',
  ['inputs', 'schedules'], 'all 128-bit operand values, all summand orders',
  'Carries and borrows between the halves occur for rare operands; tests with small values never carry.',
  ['src/Omega_h_int128.hpp', 'src/Omega_h_int128.cpp', 'src/Omega_h_array_ops.cpp'], [('128-bit arithmetic', 'src/Omega_h_int128.hpp'), ('reproducible sum', 'src/Omega_h_array_ops.cpp')], 'results of the sum and of the integer operations'),
P('P09', 'Linear partitions tile the global numbering exactly',
  'Assigning global numbers to ranks linearly gives each number one rank and one in-range local index, distinct numbers get distinct pairs, and inverting the pair recovers the number. Part sizes reported for each rank match the assignment, sum to the total, and differ by at most one, for every total and rank count including fewer numbers than ranks.',
  ['inputs', 'configurations'], 'all totals, rank counts and global numbers',
  'Remainder handling shows only for particular totals and rank counts; tests run on at most a few ranks.',
  ['src/Omega_h_linpart.cpp', 'src/Omega_h_bipart.cpp'], [('linear partition', 'src/Omega_h_linpart.cpp'), ('bipartition', 'src/Omega_h_bipart.cpp')], 'owner ranks, owner indices and part sizes'),
P('P10', 'Space-filling-curve keys are a bijection that walks neighbouring cells',
  'Converting integer grid coordinates to the curve position and back returns the same coordinates, in one, two and three dimensions. Regrouping the bits of the position keeps the order of positions, so sorting by the regrouped keys visits cells along the curve, where consecutive cells are face neighbours; coordinates outside the unit box are clamped into the grid.',
  ['inputs'], 'all grid coordinates at every resolution up to the one the library uses',
  'Tests compare a few points at low resolution; an error in one bit position affects isolated points only.',
  ['src/Omega_h_hilbert.hpp', 'src/Omega_h_hilbert.cpp'], [('axes to curve and back', 'src/Omega_h_hilbert.hpp'), ('point sorting', 'src/Omega_h_hilbert.cpp')], 'keys returned for grid points'),
P('P11', 'Base-64 encoding round-trips every byte string',
  'Encoding any byte string gives text of exactly the announced length over the standard alphabet with standard padding, and decoding that text with the original length restores every byte. No length or byte value is an exception, decoding writes only the requested bytes, and text containing other characters is rejected.',
  ['inputs'], 'all byte strings of every length and all decoder input characters',
  'Only particular byte patterns and length remainders exercise each table entry and the padding paths.',
  ['src/Omega_h_base64.cpp'], [('encode/decode', 'src/Omega_h_base64.cpp')], 'encoded text and decoded bytes'),
P('P12', 'Binary files read back exactly what was written, on either byte order',
  'Values, arrays, strings and meshes written to a binary stream and read back with the same settings are bit-identical, with or without compression and with or without byte swapping. Byte swapping is an involution that reverses the bytes of each value, so files written on a machine of the other byte order are read correctly.',
  ['inputs', 'configurations'], 'all array contents and lengths (including empty), element types, compression and byte-order settings',
  'The tests write a few meshes on one machine; the swapping path never runs there.',
  ['src/Omega_h_file.cpp'], [('binary streams', 'src/Omega_h_file.cpp')], 'arrays and values read back'),
P('P13', 'Chosen independent sets are independent and maximal',
  'Among the candidates, no two chosen entities are adjacent and every rejected candidate has a chosen neighbour. The choice prefers higher quality with ties broken by global number, so each step decides every local maximum and the result does not depend on local numbering.',
  ['inputs', 'schedules'], 'all graphs, quality values (with ties) and candidate sets',
  'Independence must hold for every graph; ties and chains of equal quality are rare in sampled meshes.',
  ['src/Omega_h_indset_inline.hpp', 'src/Omega_h_indset.cpp'], [('selection step', 'src/Omega_h_indset_inline.hpp'), ('order', 'src/Omega_h_indset.cpp')], 'state marks after each step and at the end'),
P('P14', 'Splitting edges replaces each element by halves that tile it',
  'Splitting chosen edges replaces every adjacent entity by exactly two entities in which one end of the edge is replaced by the new midpoint, in an orientation that keeps the sign of the element volume; the interior entities connect the midpoint to the opposite part. Product counts and their grouping per split edge are exact.',
  ['inputs'], 'all meshes, all sets of split edges, every local edge position, orientation and dimension',
  'Inverted halves occur only for particular local edge and rotation combinations that small tests do not all reach.',
  ['src/Omega_h_refine_topology.cpp'], [('split topology', 'src/Omega_h_refine_topology.cpp')], 'vertex lists of new entities'),
P('P15', 'Collapsing edges rewires the cavity onto the kept vertex',
  'Collapsing vertices onto their neighbours keeps exactly the cavity entities not adjacent to the collapsed edge, replacing only the collapsed vertex by the vertex it merges with, so the local vertex order and orientation persist. Entities around the collapsed edge, and the sides that merge, are the ones marked as removed. Each key vertex collapses along the edge it chose, and a candidate survives the model checks exactly if no entity would end up on a different model dimension.',
  ['inputs'], 'all meshes, all sets of collapses and directions, every local position and orientation',
  'Wrong side or vertex choices depend on local edge index, rotation and direction together; tests reach few combinations.',
  ['src/Omega_h_coarsen_topology.cpp', 'src/Omega_h_collapse.hpp', 'src/Omega_h_collapse_rail.cpp', 'src/Omega_h_check_collapse.cpp'], [('collapse topology', 'src/Omega_h_coarsen_topology.cpp'), ('choice of the collapsed edge', 'src/Omega_h_collapse_rail.cpp'), ('model checks', 'src/Omega_h_check_collapse.cpp')], 'vertex lists of new entities, removal marks, rails and surviving candidates'),
P('P16', 'Edge swaps retriangulate the same cavity with consistent orientation',
  'Swapping an edge between two triangles connects the two opposite vertices and yields two triangles with the original orientation. For a ring of tetrahedra, every tabulated configuration is a triangulation of the ring polygon whose interior edges are exactly the listed edges, and the new triangles and tetrahedra are built from it with consistent orientation.',
  ['inputs'], 'all ring sizes, configurations, local edge positions and orientations',
  'There are hundreds of table entries; tests run one or two configurations.',
  ['src/Omega_h_swap2d_topology.cpp', 'src/Omega_h_swap3d_topology.cpp', 'src/Omega_h_swap3d_tables.hpp', 'src/Omega_h_swap3d_loop.hpp'], [('2D swap', 'src/Omega_h_swap2d_topology.cpp'), ('3D swap and tables', 'src/Omega_h_swap3d_topology.cpp, src/Omega_h_swap3d_tables.hpp')], 'vertex lists of new entities'),
P('P17', 'Every shared entity has one owner, and data flows from owners to all copies',
  'Choosing owners from copies picks exactly one copy per entity, by the smallest remaining load then smallest rank rule documented, identically on every rank. An exchange plan built from owner references delivers each owner value to every copy and reduces copy values to the owner exactly once each, and its inverse undoes it.',
  ['inputs', 'configurations'], 'all copy-to-owner relations over any number of ranks',
  'Tests run on a few ranks with regular partitions; an entity with many copies or a rank with none is not sampled.',
  ['src/Omega_h_owners.cpp', 'src/Omega_h_dist.cpp'], [('owner choice', 'src/Omega_h_owners.cpp'), ('exchange plan', 'src/Omega_h_dist.cpp')], 'owner arrays and exchanged values'),
P('P18', 'Shared array storage is released once, and never while in use',
  'An array stays allocated while any handle to it exists and is released exactly when the last handle goes away, whatever sequence of copies, moves, assignments (including to itself) and destructions occurs. When allocation tracking is on, the tracked list contains exactly the live allocations and its byte counts are exact.',
  ['histories'], 'all sequences of handle operations, with and without allocation tracking',
  'Leaks, double frees and stale list links depend on the order of operations, of which tests perform only a few.',
  ['src/Omega_h_shared_alloc.cpp', 'src/Omega_h_shared_alloc.hpp'], [('reference counting', 'src/Omega_h_shared_alloc.hpp'), ('allocation tracking', 'src/Omega_h_shared_alloc.cpp')], 'use counts, released storage and the tracked totals'),
P('P19', 'Small vectors, matrices and tensors obey linear algebra',
  'Products, transposes, determinants, inverses, cross products, traces, norms and the packed storage of symmetric matrices in one to three dimensions satisfy their defining identities over the real numbers. Packing a symmetric matrix into components and unpacking it is the identity for every ordering the library uses.',
  ['inputs'], 'all real component values, all dimensions one to three',
  'Numerical tests with a few matrices accept an error confined to one component or cancelled by symmetry of the sample.',
  ['src/Omega_h_matrix.hpp', 'src/Omega_h_vector.hpp'], [('vectors and matrices', 'src/Omega_h_vector.hpp, src/Omega_h_matrix.hpp')], 'values returned'),
P('P20', 'Mesh modification keeps untouched entities and their data intact',
  'After any modification, entities that were not modified keep their vertices, tags and global identity under the new numbering, each modified cavity is represented by exactly its products, and the old-to-new numbering is a bijection between kept old entities and their new copies. Global numbers of the new mesh stay unique and contiguous.',
  ['inputs', 'histories'], 'all meshes, all sets of modified entities and product counts',
  'Numbering errors need specific mixes of kept, removed and new entities to overlap.',
  ['src/Omega_h_modify.cpp', 'src/Omega_h_transfer.cpp'], [('renumbering and connectivity', 'src/Omega_h_modify.cpp'), ('same-entity transfer', 'src/Omega_h_transfer.cpp')], 'new connectivity, numbering and tag arrays'),
P('P21', 'Marking finds exactly the entities with the stated property',
  'Marking by adjacency marks an entity exactly when some (or, where stated, all) of its adjacent entities are marked; exposed sides are exactly those with fewer than two elements; marks by classification select exactly the matching entities or their closure. Marking never changes other data and works for empty sets.',
  ['inputs'], 'all meshes, marks and classification values',
  'Errors show only for entities with particular adjacency counts or positions.',
  ['src/Omega_h_mark.cpp'], [('marking', 'src/Omega_h_mark.cpp')], 'mark arrays returned'),
P('P22', 'Graph operations preserve exactly the stated nodes and edges',
  'Merging, filtering, gathering and extending adjacency graphs keeps for every node exactly the edges the operation defines, in order, with offsets consistent with the edge list. Reductions and weighted averages over a graph combine exactly the adjacent values.',
  ['inputs'], 'all graphs including nodes without edges, all keep-marks and data widths',
  'Empty nodes and mixed degrees are what breaks offset arithmetic and are under-sampled.',
  ['src/Omega_h_graph.cpp'], [('graph operations', 'src/Omega_h_graph.cpp')], 'offset and edge arrays returned'),
P('P23', 'Counter-based random numbers match the published generator and stay in range',
  'The generator applies exactly the published ten-round block function to the counter and key, every value depends only on counter and key, and uniform numbers lie in the unit interval from 0 to 1. Consecutive draws use each generated word once, so no draw repeats another by construction.',
  ['inputs', 'histories'], 'all counters, keys and numbers of draws',
  'Tests check a few statistical moments; a wrong round constant or a reused word keeps them plausible.',
  ['src/Omega_h_random_inline.hpp', 'src/Omega_h_random.cpp'], [('generator', 'src/Omega_h_random_inline.hpp')], 'words and numbers generated'),
P('P24', 'Adaptive refinement numbering of parents and children is consistent',
  'In non-conforming refinement, packing a child position and parent dimension into a code and unpacking returns them, child counts and the child vertex tables describe a subdivision whose vertices are exactly the parent nodes, and children lists are the inverse of parent references ordered by child index.',
  ['inputs'], 'all parent dimensions, child dimensions, child positions and parent arrays',
  'The tables are large nested conditionals of which the tests visit a small part.',
  ['src/Omega_h_amr.hpp', 'src/Omega_h_amr_topology.cpp', 'src/Omega_h_hypercube.hpp', 'src/Omega_h_adj.cpp'], [('codes and tables', 'src/Omega_h_amr.hpp, src/Omega_h_hypercube.hpp'), ('children', 'src/Omega_h_adj.cpp')], 'codes, tables and children arrays'),
P('P25', 'Extracting a sub-mesh renumbers without loss',
  'Extracting a sub-mesh gives each kept entity the connectivity, orientation codes, tags and parents of the original under the new numbering. References to dropped parents become absent and owner references follow the renumbering.',
  ['inputs'], 'all meshes and kept-entity selections closed under boundary',
  'Errors in one dimension or tag type need that dimension and type to be present with dropped entities in between.',
  ['src/Omega_h_unmap_mesh.cpp'], [('sub-mesh extraction', 'src/Omega_h_unmap_mesh.cpp')], 'connectivity and tags of the new mesh'),
P('P26', 'Metric interpolation and eigen-decomposition are accurate',
  'Metric interpolation, eigen-decomposition and size-field limits satisfy their defining equations to floating-point accuracy for all symmetric positive matrices.',
  ['inputs'], 'all metric tensors', 'Accuracy must hold for ill-conditioned tensors that tests do not sample.',
  ['src/Omega_h_metric.hpp', 'src/Omega_h_eigen.hpp'], [('metrics', 'src/Omega_h_metric.hpp')], 'metric tensors returned'),
P('P27', 'Migration and ghosting keep the distributed mesh equal to the global one',
  'Redistributing a mesh among ranks or adding ghost layers never loses, duplicates or alters entities: gathering all owned entities gives the same global mesh before and after.',
  ['configurations', 'histories'], 'all partitions, rank counts and sequences of redistributions',
  'Only a few ranks and meshes are tested.', ['src/Omega_h_migrate.cpp', 'src/Omega_h_ghost.cpp'], [('migration', 'src/Omega_h_migrate.cpp')], 'gathered mesh'),
P('P28', 'Text parsers accept exactly their grammar',
  'The grammar, regular-expression and expression facilities accept exactly the texts of their language and evaluate expressions to the value the usual precedence rules define.',
  ['inputs', 'programs'], 'all input texts', 'Languages are infinite.', ['src/Omega_h_regex.cpp', 'src/Omega_h_build_parser.cpp', 'src/Omega_h_expr.cpp'], [('parsers', 'src/Omega_h_build_parser.cpp')], 'accept/reject and values'),
]
NA = {
 'P26': 'iterative eigen-decomposition and transcendental functions in floating point: the deductive back ends here (z3, cvc5) decide neither floating-point error bounds nor exp/log/acos, and the statement is false over exact reals because of the tolerances in the code',
 'P27': 'a whole-program history over MPI messages on many ranks and through Mesh tag tables (std::map, virtual calls, shared_ptr): no contract within reach of a function-by-function verifier expresses the global mesh; its building blocks (owner choice, exchange plan, sub-mesh extraction) are covered by P17, P20 and P25',
 'P28': 'LALR table construction and automata over std::set/std::map/std::any: the C++ standard containers are outside what the verification-condition generator can execute symbolically, and language equality is not expressible as a first-order contract of one call',
}
LEVEL_NOTE = {}
def main():
    built = {f[:-3].upper() for f in os.listdir(os.path.join(H, 'props')) if f.startswith('p') and f[1:-3].isdigit() and f.endswith('.py')}
    with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'observe_at': [p['observe']]}}
            f.write(json.dumps(d) + '\n')
    checks = []; na = []
    for p in PROPS:
        if p['id'] in built:
            checks.append({'property': p['id'], 'quick_cmd': 'python3-vt run.py %s quick' % p['id'], 'thorough_cmd': 'python3-vt run.py %s thorough' % p['id'], 'technique': p['tech'], 'level': p['level'], 'level_note': p['note'] or LEVEL_NOTE.get(p['id'], 'every obligation of the listed contracts is generated from /repo and discharged for all inputs; functions listed in bounded_not_proved of the evidence, if any, are only checked on concrete inputs')})
        else: na.append({'property': p['id'], 'reason': NA.get(p['id'], 'no check registered yet')})
    json.dump({'version': 1, 'setup_cmd': 'python3-vt setup.py', 'checks': checks, 'not_applicable': na}, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
main()
