#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that it stays readable)."""
import json
import os
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=['include/poly_ops/' + f if not f.startswith('py/') else f for f in files],
                               mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=observe, hook_needed=None)))


TESTS = 'The existing tests run fixed pictures and a few hundred random shapes compared by drawn bitmaps; '
prop('B01', 'Boolean operations produce exactly the region they name',
     'The result of union, intersection, difference, symmetric difference and normalisation covers exactly the points that the operation selects from the winding numbers of the subject and clip loops, whenever every crossing of input lines lies on an integer point. '
     'Where crossings must be rounded, points further than the rounding distance from every input line are still classified correctly.',
     ['inputs'], 'every set of subject and clip loops (self-intersecting, overlapping, coincident, degenerate, repeated points), every operation, the coordinate range that the type supports',
     TESTS + 'coincident edges, many-line crossings and their order are sampled a handful of times and one-pixel faults vanish in the bitmap tolerance.',
     ['clip.hpp', 'base.hpp', 'sweep_set.hpp'],
     [('sweep line that splits lines at crossings', 'clip.hpp clipper::self_intersection'), ('line balance and choice of kept lines', 'clip.hpp calc_line_bal, line_balance::result'), ('reconnection into loops', 'clip.hpp clipper::do_op')],
     ['loops returned by clipper::execute, boolean_op, union_op, normalize_op'])
prop('B02', 'Output lines never cross',
     'In the output of a boolean operation no two lines cross and no line passes through an end point of another line; lines only meet at points that are end points of both.',
     ['inputs'], 'every set of loops, in particular when crossings are rounded to integer points and the moved lines cross further lines',
     TESTS + 'a crossing introduced by rounding needs particular near-parallel lines.',
     ['clip.hpp', 'base.hpp'], [('lines are split again when rounding moves them', 'clip.hpp self_intersection, check_intersection')], ['loops returned by clipper::execute'])
prop('B03', 'Output loops are well formed and the output is deterministic',
     'Output loops have at least two points and no consecutive equal points, the outside of the output has winding number 0 and its inside 1, outer boundaries run clockwise and holes counter-clockwise, no loop crosses itself or another one where they meet at a point, and the same input always gives the same output.',
     ['inputs'], 'every set of loops and every operation', TESTS + 'orientation and winding numbers are not looked at.',
     ['clip.hpp'], [('reversal of lines and reconnection', 'clip.hpp follow_balance, do_op'), ('collection of loops', 'clip.hpp find_loops')], ['loops returned by clipper::execute'])
prop('B04', 'Hierarchical output has the same lines and the true nesting',
     'The hierarchy has the same lines as the flat output and lists every loop exactly once, as a direct child of the innermost loop that encloses it, so that solids and holes alternate from level to level, and no loop crosses itself or another one where they meet at a point. (Where lines of the output coincide, which is allowed, the nesting is not claimed, only the lines.)',
     ['inputs'], 'every set of loops, including nested, touching and coincident ones', TESTS + 'hierarchies are compared for a few fixed pictures.',
     ['clip.hpp'], [('samples of lines above and below each intersection', 'clip.hpp calc_line_bal, insert_anchor_point'), ('parent assignment', 'clip.hpp loop_hierarchy')], ['inner_loops() of the hierarchical result'])
prop('B05', 'Every way of asking for the same operation gives the same result',
     'Free functions, the class, incremental insertion, single loops or ranges of loops, any container, point type, coordinate type and index type, borrowed or owned results and any memory resource lead to the same output for the same loops.',
     ['inputs', 'configurations'], 'every set of loops and every documented way of supplying it and taking the result', TESTS + 'most overloads are never instantiated or used once.',
     ['clip.hpp', 'base.hpp'], [('adding loops', 'clip.hpp clipper::add_loops, point_sink'), ('free functions', 'clip.hpp boolean_op, union_op, normalize_op'), ('temporary ranges', 'clip.hpp temp_polygon_range and relatives')], ['results of all entry points'])
prop('B06', 'Boolean operations stay accurate on hostile geometry',
     'On nearly parallel lines, slivers, very dense and very large coordinates the output still covers the right region except within the accumulated rounding distance of the input lines.',
     ['inputs'], 'every set of loops up to the limits of 16-bit, 32-bit and 64-bit coordinates', TESTS + 'their coordinates are small.',
     ['clip.hpp', 'base.hpp', 'large_ints.hpp'], [('exact comparison of slopes and intersections', 'base.hpp triangle_winding, intersects; large_ints.hpp'), ('order of lines at the sweep line', 'clip.hpp sweep_cmp')], ['loops returned by clipper::execute'])
prop('B07', 'A clipper behaves like a new one after any history of calls',
     'Whatever operations, resets and point sinks preceded, the result of an operation only depends on the loops added since the last reset or execution.',
     ['histories'], 'every sequence of adding loops, executing (both outputs, all operations), resetting, tracking and dropping results', TESTS + 'reuse is tried once or twice.',
     ['clip.hpp'], [('reset and implicit reset', 'clip.hpp clipper::reset, execute, add_loop')], ['results of consecutive executions'])
prop('B08', 'Memory stays sound, whatever happens',
     'No input within the limits of the coordinate type leads to undefined behaviour, a failed assertion, endless work or leaked memory; all memory for the work and the result comes from and goes back to the memory resource that was given; '
     'a result of a temporary clipper owns its data; and when memory runs out or an input range throws, the exception reaches the caller, nothing leaks, and after a reset the clipper works as if new.',
     ['inputs', 'histories', 'fault_sequences'], 'every set of loops (degenerate, crowded, coincident, at the limits of the type), every operation and offset, every moment at which an allocation or an input range fails', TESTS + 'no allocation fails in them and no sanitizer is used.',
     ['clip.hpp', 'offset.hpp', 'base.hpp', 'sweep_set.hpp'], [('memory of the sweep', 'clip.hpp clipper, do_op, find_intersections'), ('sinks that add points', 'clip.hpp point_sink, base_point_sink'), ('ownership of results', 'clip.hpp temp_polygon_proxy, borrowed_temp_polygon_*')], ['sanitizer reports', 'allocations and deallocations of the memory resource', 'exceptions', 'results after a failure'])
prop('T01', 'Original points are attributed completely and correctly',
     'With point tracking, every output point lists only input points of a loop it lies on, no input point is listed twice, an input point at a place of its own is listed there if that place is in the output, and the points that were removed are passed on to the next remaining point of their loop. '
     'The tracker callbacks announce every point once, in order, and never refer to a discarded point again.',
     ['inputs', 'histories'], 'every set of loops, every operation, flat and hierarchical output', TESTS + 'tracking is exercised on one picture.',
     ['clip.hpp', 'offset.hpp'], [('merging of discarded points', 'clip.hpp merge_discarded, do_op'), ('callbacks when lines are split', 'clip.hpp split_segment, insert_anchor_point'), ('sets of original points', 'offset.hpp origin_point_tracker; mini_flat_set.hpp')], ['original_points of output points', 'i_point_tracker callbacks'])
prop('O01', 'Insets and outsets of closed shapes are exact distance regions',
     'Outsetting adds exactly the points within the magnitude of the shape, and insetting removes exactly those within it of the boundary, up to rounding and the error that the arc step size allows.',
     ['inputs'], 'every simple closed shape with holes, slits and antennas, every magnitude (also larger than the shape) and arc step size', TESTS + 'offsets are only drawn or compared for two pictures.',
     ['offset.hpp', 'clip.hpp', 'base.hpp'], [('offset of corners and arcs', 'offset.hpp add_offset_point'), ('removal of inverted geometry', 'clip.hpp line_balance')], ['loops returned by offset and execute'])
prop('O02', 'Offsets of open lines and lone points cover exactly the stroke',
     'The offset of open lines and single points covers exactly the points within the magnitude of them, up to rounding and the error that the arc step size allows, wherever lines cross, turn back or repeat points.',
     ['inputs'], 'every open line or lone point, every positive magnitude and arc step size', TESTS + 'one open line is tried.',
     ['offset.hpp'], [('there and back along the line', 'offset.hpp _add_offset_open'), ('lone points', 'offset.hpp offset_lone_point')], ['loops returned by offset and execute'])
prop('O03', 'Offset shapes take part in boolean operations like plain ones',
     'Plain, outset and open shapes can be mixed as subject and clip in one operation, and the result is that of the operation on the regions they cover.',
     ['inputs', 'histories'], 'every mixture of plain and offset, open and closed shapes and every operation', TESTS + 'no test mixes them.',
     ['offset.hpp', 'clip.hpp'], [('adding offset loops to a clipper', 'offset.hpp add_offset and relatives')], ['loops returned by execute'])
prop('O04', 'Offset output points are attributed to the points they came from',
     'With point tracking, each point of an offset shape is attributed to input points near it, indices count all input points in the order they were added, and every distinct input point is represented.',
     ['inputs', 'histories'], 'every shape with well separated corners, repeated points, several loops in sequence', TESTS + 'no test looks at the indices.',
     ['offset.hpp'], [('original indices of offset points', 'offset.hpp add_offset_point, _add_offset_open, _add_offset_closed')], ['original_points of output points'])
prop('O05', 'Every way of offsetting gives the same result',
     'offset, add_offset, add_offset_subject, add_offset_clip and their tracked versions, with loops closed by default, any container or view, point type, coordinate and index type, owned or temporary loops, flat or hierarchical output and any memory resource '
     '(to which everything taken from it is given back) lead to the same lines for the same loops, magnitude and step.',
     ['inputs', 'configurations'], 'every set of closed or open loops (also empty ones), every magnitude and step and every documented way of asking for the offset', TESTS + 'most overloads are never instantiated.',
     ['offset.hpp', 'clip.hpp'], [('overloads', 'offset.hpp add_offset, add_offset_subject, add_offset_clip, offset'), ('choice of how to walk a range backwards', 'offset.hpp add_offset, _add_offset_open')], ['results of all entry points'])
prop('L01', 'Wide integer arithmetic agrees with mathematics',
     'Addition, subtraction, multiplication, division with remainder, shifts, comparison, negation and conversion of integers wider than the machine word give the mathematically right value (modulo the width), with and without compiler extensions.',
     ['inputs', 'configurations'], 'all operands of all widths and signednesses, on each compiler and configuration', 'The existing tests divide and multiply a limited number of random values in one configuration; carries across words need particular bit patterns.',
     ['large_ints.hpp'], [('word-wise arithmetic', 'large_ints.hpp compound_xint operations')], ['results of the operators and free functions'])

prop('R01', 'The rasterizer paints exactly the spans of each scan line',
     'Each row of the picture is painted exactly where the winding number of the shape satisfies the fill rule along the scan line (with both end pixels), in order, never outside of the picture, and scan_lines reports each span with its winding number, however lines cross or coincide and whatever was drawn before.',
     ['inputs', 'histories'], 'every set of loops, picture size and fill rule within the coordinate limits', TESTS + 'one picture is drawn, to compare offsets.',
     ['polydraw.hpp', 'sweep_set.hpp'], [('swapping lines at crossings', 'polydraw.hpp rasterizer::swap_and_check, intersects'), ('order of events', 'polydraw.hpp events_t'), ('spans', 'polydraw.hpp scan_line_sweep_state')], ['draw callbacks', 'scan_line values'])
prop('W01', 'winding_dir gives twice the signed area of any loop',
     'winding_dir, winding_dir_sink and triangle_winding give exactly twice the signed area (positive for clockwise) for every loop whose extent fits the coordinate type, wherever it lies in the range of the type and whatever kind of range or point type holds it; reversing the loop changes only the sign.',
     ['inputs'], 'every loop of 16, 32 and 64 bit coordinates', 'The existing tests do not call it on coordinates near the limits or on anything but a vector.',
     ['base.hpp'], [('sum over the lines', 'base.hpp winding_dir_sink, winding_dir, triangle_winding')], ['value returned by winding_dir'])
prop('V01', 'Point arithmetic and measures are exact',
     'The element-wise operators on points (of the same and of mixed coordinate types), vdot, square, vcast, swap, comparison and point_less, conversion from arrays, spans and user-defined points, coord_ops::mul and triangle_winding give the mathematically exact '
     'value whenever the type of the result can hold it, and vmag, vangle, perp_vector, vround and the rounding functions of coord_ops the value to within rounding of the real type.',
     ['inputs', 'configurations'], 'all coordinates of every mixture of 16, 32 and 64 bit integers and double', 'The existing tests do not call these functions by themselves, only those instances that the algorithms use, with small coordinates.',
     ['base.hpp'], [('operators', 'base.hpp point_t, operator+ - * /'), ('measures', 'base.hpp vdot, square, vmag, vangle, perp_vector, triangle_winding'), ('conversions', 'base.hpp point_ops, vcast, vround, coord_ops')], ['values returned'])
prop('S01', 'Views of raw memory read the points the strides describe',
     'blob_to_point_range, blob_to_point_range_range and make_strided_range give the points at the addresses that the strides describe (converted to the coordinate type, nothing outside of them is read) for every layout, including negative strides, and their iterators obey the laws of random access (distance, order, offsets, reversal), so that operations on them equal those on copies.',
     ['inputs'], 'every number of loops and points, every order of dimensions, gap and sign of the strides other than zero, every pair of stored and converted types', 'The existing tests read one layout forwards.',
     ['strided_itr.hpp', 'base.hpp'], [('iterator arithmetic', 'strided_itr.hpp strided_itr'), ('nested views', 'base.hpp blob_to_point_range_range')], ['points given by the views'])
prop('P01', 'The Python functions give the results of the C++ library for any array',
     'union, normalize, boolean_op, offset and winding_dir of the Python module give the same loops, hierarchy and original indices as the C++ library, for loops given as sequences or arrays of any layout and any type that the casting rule admits, in the requested output type or the common type of the inputs; other input is refused with an exception. Inputs are left as they are and no references are leaked.',
     ['inputs'], 'every loop, array type, memory layout, casting rule, output type, combination of options', 'The existing tests pass contiguous arrays of one type and do not ask for hierarchies with tracked points.',
     ['py/_polyops.pyx', 'py/common.pxd'], [('iteration over arrays', 'common.pxd polyops_npy_range, npy_point_iterator'), ('conversion of results', '_polyops.pyx poly_proxy_to_py, tracked_poly_proxy_to_py_common, proxy_range_to_py'), ('types', '_polyops.pyx load_loop, check_dtype')], ['values returned to Python'])
prop('P02', 'Python clippers behave like C++ clippers under any history of calls',
     'Any history of adding loops and offsets (singly or in bulk, to either set), executing, resetting and setting the next index on Clipper and TrackedClipper gives the results of the same history in C++. Invalid calls raise an exception and add nothing (of a bulk call, the loops before the refused one are added), and clippers on different threads do not affect each other.',
     ['histories', 'schedules'], 'every history of valid and invalid calls, on one or several threads', 'The existing tests use the classes for one operation each.',
     ['py/_polyops.pyx', 'py/common.pxd'], [('adding and common type', '_polyops.pyx Clipper._add_loop, _add_loops, TrackedClipper._add_offsets, load_loop'), ('execution and reset', '_polyops.pyx Clipper.execute, TrackedClipper.execute')], ['values returned by execute, next_orig_i'])
#NEXT
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
