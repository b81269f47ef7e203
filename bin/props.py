"""Which generated checks decide which property."""
O2 = ['-O2']
SAN = ['-O1', '-g0', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']
NOEXT = ['-DPOLY_OPS_NO_COMPILER_EXTENSIONS']

EXES = {
    'bool_ops': dict(src='harness/bool_ops.cpp', flags=O2),
    'bool_ops_ld': dict(src='harness/bool_ops.cpp', flags=O2 + ['-DLONG_REAL']),
    'bool_api': dict(src='harness/bool_api.cpp', flags=['-O1'], extra=['harness/second_unit.cpp']),
    'offset': dict(src='harness/offset.cpp', flags=['-O1']),
    'ints_gcc': dict(src='harness/large_ints.cpp', flags=['-O1']),
    'ints_gcc_noext': dict(src='harness/large_ints.cpp', flags=['-O1'] + NOEXT),
    'ints_clang': dict(src='harness/large_ints.cpp', cxx='clang++', flags=['-O1']),
    'ints_clang_noext': dict(src='harness/large_ints.cpp', cxx='clang++', flags=['-O1'] + NOEXT),
    'raster': dict(src='harness/raster.cpp', flags=['-O1']),
    'raster_san': dict(src='harness/raster.cpp', flags=SAN),
    'basics': dict(src='harness/basics.cpp', flags=SAN),
    'python': dict(python=True),
    'robust': dict(src='harness/robust.cpp', flags=SAN),
    'ints_small': dict(src='harness/large_ints.cpp', flags=['-O1', '-DSMALL_TYPES']),
}

PROPS = {
    'B01': dict(
        technique='property-based testing against an exact winding-number model',
        targets=[dict(prop='exact', exe='bool_ops', share=3), dict(prop='generic', exe='bool_ops', share=2), dict(prop='exact', exe='bool_ops_ld')],
        rule='Random sets of subject and clip loops (lattice shapes scaled so that every crossing is an integer point; general shapes of every size) and a random operation; '
             'the output is compared at sampled points with the exact operation on the exact winding numbers of the input. Non-trivial: sampled points inside and outside of the result.',
        assumptions=['coordinates whose differences fit the coordinate type (the documented limit)', 'in general position: points further from every input edge than the accumulated rounding (2 units per crossing chain) are compared']),
    'B02': dict(
        technique='property-based testing with an exact segment-pair invariant',
        targets=[dict(prop='cross', exe='bool_ops', share=3), dict(prop='cross', exe='bool_ops_ld')],
        rule='Random loops with many crossings, coincident edges and near-parallel edges; every pair of output edges is classified with exact arithmetic. Non-trivial: the input has crossings and at least one of them is not on an integer point.'),
    'B03': dict(
        technique='property-based testing of output invariants',
        targets=[dict(prop='shape', exe='bool_ops')],
        rule='As for the crossings; output loops are checked for size, repeated points, orientation against nesting, winding numbers of 0 and 1 only, and the same output for the same input. Non-trivial: at least two output loops.'),
    'B04': dict(
        technique='property-based testing against exact nesting and the flat output (differential)',
        targets=[dict(prop='tree', exe='bool_api')],
        rule='Random loops; hierarchy output compared with the flat output and with exact point-in-polygon nesting. Non-trivial: a loop nested in another one.'),
    'B05': dict(
        calls=True,
        technique='differential property-based testing of equivalent calls',
        targets=[dict(prop='api', exe='bool_api')],
        rule='Random loops through every way of supplying them and of requesting the result (free functions, class, sinks, containers, point types, memory resources). Non-trivial: at least two output loops.'),
    'B06': dict(
        technique='property-based testing against a winding-number model with a rounding margin',
        targets=[dict(prop='near', exe='bool_ops', share=3), dict(prop='near', exe='bool_ops_ld')],
        rule='Random loops where the boundary of the output may move by rounding: nearly parallel lines, long slivers, large coordinates, also with long double as the real type of 64-bit coordinates; compared away from the boundary. Non-trivial: points inside and outside of the result.'),
    'B07': dict(
        technique='stateful (model-based) testing of call histories',
        targets=[dict(prop='reuse', exe='bool_api')],
        rule='Random histories of add, execute, reset and destroyed results on one clipper, every result compared with that of a new clipper. Non-trivial: at least two executions.'),
    'B08': dict(
        technique='fuzzing with structured hostile inputs and injected faults, under AddressSanitizer and UndefinedBehaviorSanitizer',
        targets=[dict(prop='failing', exe='robust'), dict(prop='hostile', exe='robust')],
        rule='Random hostile loops (crowded, coincident, empty, extreme, coordinates at the limits) through every operation, output and offset with every allocation counted, and the same with an allocation or an input range that fails at a random moment, after which the clipper is reset and used again; '
             'no sanitizer report, no leak, no foreign memory, the failure reported, and the results after it as from a new clipper. Non-trivial: the operation has loops in its result, and in the failing case the failure happened.',
        assumptions=['out of memory while adding points that are tracked is not decided (the program is terminated)', 'the pool of libstdc++ 13 breaks by itself after a failed allocation and is replaced by a plain forwarding one']),
    'T01': dict(
        technique='property-based testing of attribution invariants and callback contract',
        targets=[dict(prop='track', exe='bool_api')],
        rule='Random loops with tracked original points; the reported indices are checked against the positions of the input points. Non-trivial: the output has points.'),
    'O01': dict(
        technique='property-based testing against a distance model',
        targets=[dict(prop='outset', exe='offset'), dict(prop='inset', exe='offset')],
        rule='Random simple loops with holes, neighbours, slits and antennas, random magnitude and arc step; the output is compared with exact distances at sampled points. Non-trivial: points inside and outside of the result.'),
    'O02': dict(
        technique='property-based testing against a distance model',
        targets=[dict(prop='open', exe='offset')],
        rule='Random open lines (crossing and doubling back on themselves, repeated points) and lone points; compared with exact distances. Non-trivial: points inside and outside of the result.'),
    'O03': dict(
        technique='property-based testing against a distance and winding model',
        targets=[dict(prop='combine', exe='offset')],
        rule='Random mixtures of plain and offset, open and closed subject and clip shapes under each operation. Non-trivial: points inside and outside of the result and at least two shapes.'),
    'O04': dict(
        technique='property-based testing of attribution invariants',
        targets=[dict(prop='origin', exe='offset')],
        rule='Random loops and lines with well separated vertices, tracked original points. Non-trivial: at least four input points.'),
    'O05': dict(
        calls=True,
        technique='differential property-based testing of equivalent calls',
        targets=[dict(prop='offapi', exe='offset')],
        rule='Random closed and open loops (empty, degenerate, self-crossing ones too) through every overload, kind of range, point, coordinate and index type, output and memory resource; results are compared with those of adding one loop at a time. Non-trivial: the result has loops.'),
    'L01': dict(
        calls=True,
        technique='property-based testing against an independent big-integer model',
        targets=[dict(prop='ints', exe=e) for e in ('ints_gcc', 'ints_gcc_noext', 'ints_clang', 'ints_clang_noext', 'ints_small')],
        rule='Random operands with long runs of equal bits, boundary values and every size and signedness, every operator compared with an independent big-integer model. Non-trivial: two operands other than zero.'),
    'R01': dict(
        technique='property-based testing against exact rational scan lines',
        targets=[dict(prop='raster', exe='raster', share=2), dict(prop='raster', exe='raster_san')],
        rule='Random loops (small grids with many crossings, shared points and coincident lines, partly outside of the picture), picture sizes, fill rules, coordinate types and histories of drawing, adding and clearing; '
             'every pixel of every row is compared with an exact calculation of the spans. Non-trivial: pixels painted and pixels left blank.'),
    'W01': dict(
        technique='property-based testing against the exact area (metamorphic: reversal, equivalent representations)',
        targets=[dict(prop='winding', exe='basics')],
        rule='Random loops (polygons, triangles, rectangles with repeated points) anywhere in the range of the coordinate type, passed as every kind of range; winding_dir, the sink and triangle_winding are compared with twice the exact area. Non-trivial: an area other than zero.',
        assumptions=['differences of coordinates fit the coordinate type (the documented limit)']),
    'V01': dict(
        calls=True,
        technique='property-based testing against 128-bit and long double arithmetic, under AddressSanitizer and UndefinedBehaviorSanitizer',
        targets=[dict(prop='points', exe='basics')],
        rule='Random points up to the limits of each type (also equal, parallel and boundary values) through every operator and function for all sixteen pairs of types, where the exact result fits. Non-trivial: two different points other than the origin.',
        assumptions=['results that the type of the result cannot hold are not decided']),
    'S01': dict(
        calls=True,
        technique='property-based testing against direct reads of the memory, under AddressSanitizer and UndefinedBehaviorSanitizer',
        targets=[dict(prop='strided', exe='basics')],
        rule='Random layouts of loops in memory (every order of the dimensions, gaps, negative strides, seven pairs of stored and converted types); every operation of random access iterators is compared with reading the memory. Non-trivial: more than one loop of more than one point.'),
    'P01': dict(
        technique='differential property-based testing of the Python functions against the C++ library',
        targets=[dict(prop='pyfun', exe='python')],
        rule='Random calls of union, normalize, boolean_op, offset and winding_dir with loops as lists, tuples and arrays of seventeen types and twelve memory layouts, every kind of casting, output type, hierarchy, tracking and kind of iterable; '
             'structure, types and values are compared with the C++ library called with plain vectors, and reference counts with those before. Non-trivial: the result has loops.',
        assumptions=['the C++ library itself is decided by the other properties']),
    'P02': dict(
        technique='stateful (model-based) differential testing of call histories of the Python classes',
        targets=[dict(prop='pyclip', exe='python')],
        rule='Random histories of adding loops and offsets, execution, reset, index assignment and invalid calls on Clipper and TrackedClipper, on one or four threads; every result is compared with that of a C++ clipper with the same history. Non-trivial: an execution with loops in its result.',
        assumptions=['the C++ library itself is decided by the other properties']),
}
for _k, _v in PROPS.items():
    _v.setdefault('assumptions', [])

LEVEL_NOTES = {
    'B01': 'Trusts the harness model (winding numbers by exact 128-bit arithmetic) and samples of each plane, not all of it.',
    'B06': 'Points nearer to an input edge than the accumulated rounding are not decided.',
    'O01': 'Points nearer to the ideal boundary than the rounding and arc tolerance are not decided.',
    'O02': 'Points nearer to the ideal boundary than the rounding and arc tolerance are not decided.',
    'O03': 'Points nearer to the ideal boundary than the rounding and arc tolerance are not decided.',
}
