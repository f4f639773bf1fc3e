PROPS = [
 dict(id='C04', title='Detector patches tile the image and own disjoint working memory',
  statement='For every image size and every supported thread count, the patches that the fast region detectors process in parallel together cover every image pixel exactly once. Each patch works in slices of the shared working buffers that lie inside the allocated buffers, are large enough for the patch with a one-pixel frame, and do not overlap the slices of another patch; a patch keeps seam records on exactly those sides where another patch follows. This also holds when a detector object is reused for an image of another size.',
  over=['inputs', 'configurations', 'histories'], q='all image heights and widths, all supported thread counts, both connectivities, any sizes of the buffers left by an earlier run',
  why='No test runs the detectors at all, and a test would sample a few sizes; wrong remainders, offsets or capacities show only for particular sizes and thread counts.',
  files=['basicimg/src/img_fast_mser_v1.cpp', 'basicimg/src/img_fast_mser_v2.cpp', 'basicimg/include/img_fast_mser_v1.h', 'basicimg/include/img_fast_mser_v2.h'],
  mech=[('patch layout and buffer allocation', 'img_fast_mser_v1::allocate_memory*, img_fast_mser_v2::allocate_memory')],
  check='c_tiling.py', level='proof', technique='abstract interpretation with symbolic image sizes (polynomial domain)',
  note='For all sizes: layout, offsets, capacities are exact polynomials in the image size. Trusts the clang front end, the interpreter in checks/ai.py, no arithmetic overflow, malloc success.'),
]
PROPS += [
 dict(id='C02', title='Shared state is used only while its own mutex is held',
  statement='The logger and its settings and files, the algorithm statistics, the matrix cache and the reference counter of shared matrix storage may be used from several threads at once. Every read or write of their mutable state happens while the mutex of that same object is held, a read-modify-write is one critical section, and nothing hands out access to the state beyond the critical section. Every lock taken is released on every path, and no operation takes a mutex it already holds.',
  over=['schedules'], q='all interleavings of any number of threads calling the public operations',
  why='The tests use one thread; a data race, lost update or self-deadlock needs a particular interleaving or call path.',
  files=['basiclog/src/basiclog.cpp', 'basiclog/include/basiclog.h', 'basicsys/src/sys_alg_analyzer.cpp', 'basicsys/src/sys_thread_lock.cpp', 'basicmath/src/mt_mat_cache.cpp', 'basicmath/src/mt_mat.cpp', 'basicmath/include/mt_mat.h'],
  mech=[('RAII lock', 'sys_thread_lock'), ('logger', 'log_logger, log_file_logger'), ('statistics', 'sys_alg_analyzer'), ('matrix cache', 'mt_mat_cache'), ('reference counter', 'mt_mat::reference_info')],
  check='c_locks.py', level='other', technique='lock-set analysis over the resolved syntax tree with call-graph summaries',
  note='Sound for lock scopes of RAII guards; aliases of guarded state are followed through local variables only. Replacing the global logger (init_logger/release) while it is in use is outside the property.'),
]
PROPS += [
 dict(id='C07', title='Region growing examines every neighbour of every pixel exactly once',
  statement='The flood-fill detectors (fast v1 and v2, linear linked, ms, opencv and opencv3 style) examine, for every pixel they grow through, exactly its four neighbours, or its eight neighbours with 8-connectivity, each of them once, in every patch. A pixel that is left for a darker neighbour goes on with the direction after the one it was left at when it is taken up again. A neighbour that is entered or queued is marked at once, so that no pixel is entered or queued twice, and frame cells outside the image are never entered.',
  over=['inputs', 'configurations'], q='all images and gray values, all image sizes, all supported thread counts, both connectivities',
  why='The tests never run a detector; a missing direction, a wrong resume index or a wrong row step changes regions only for particular shapes of gray levels.',
  files=['basicimg/src/img_fast_mser_v1.cpp', 'basicimg/src/img_fast_mser_v2.cpp', 'basicimg/src/img_linked_linear_mser.cpp', 'basicimg/src/img_ms_mser.cpp', 'basicimg/src/img_opencv_mser.cpp', 'basicimg/src/img_opencv3_mser.cpp'],
  mech=[('direction tables', 'allocate_memory* of each detector'), ('growing loops', 'make_tree_patch (v1, v2), make_tree / build_tree (linked linear, ms), extractPass (opencv), extract_pixel (opencv3)')],
  check='c_neigh.py', level='other', technique='abstract interpretation of the neighbour scan as a transfer function over its direction counter',
  note='Gray values are unknown, cells take one representative per kind (fresh, fresh on a patch border, visited, frame); the image size is symbolic.'),
]
PROPS += [
 dict(id='C06', title='Region growing starts from a faithful copy and histogram of the image',
  statement='Before a flood-fill detector (fast v1 and v2, linear linked, ms, opencv and opencv3 style) grows regions, every image pixel is stored in its own cell of the working image: unchanged in a pass for minima, inverted (255 minus the value) in a pass for maxima, whatever the order of the passes, the size, the row step and continuity of the image. No cell starts visited, and the cells around each patch are frame cells that are never entered. The gray histogram counts each pixel of the patch once under the level it is grown at, and every heap bucket has room for exactly the pixels of its level. In the linear linked detector, pixels outside a mask (image or value mask) are stored and counted at the extra level 256 instead.',
  over=['inputs', 'configurations', 'histories'], q='all images, image sizes, row steps, supported thread counts, both passes in any combination, all mask kinds of the linear linked detector',
  why='No test runs a detector; a missing inversion, a bucket one entry too small or a stale frame cell shows only for particular images, polarities or second passes.',
  files=['basicimg/src/img_fast_mser_v1.cpp', 'basicimg/src/img_fast_mser_v2.cpp', 'basicimg/src/img_linked_linear_mser.cpp', 'basicimg/src/img_ms_mser.cpp', 'basicimg/src/img_opencv_mser.cpp', 'basicimg/src/img_opencv3_mser.cpp'],
  mech=[('working image and histogram', 'process_tree_patch* / build_tree / make_tree of each detector, up to the growing loop')],
  check='c_fill.py', level='other', technique='abstract interpretation to store polynomials, decided on small instances of the polynomials',
  note='Stores are polynomials in image size, row step and loop counters; the final cover, layout and counting rules are decided by evaluating them for several small sizes and all 256 byte values, so sizes beyond those rest on the polynomials having no further case split.'),
]
PROPS += [
 dict(id='C08', title='Regions are reported with their own gray level in the list of their own pass',
  statement='A region found in the pass for minima is reported in the first list of the result, one found in the pass for maxima in the second list, and a pass that is not enabled adds nothing. The gray level that is reported for a region is its level in the original image: the level the region grew to in the pass for minima, 255 minus that level in the pass for maxima. The pixel memory that belongs to a pass is stored with that pass. This holds for every detector that reports regions, whichever passes are enabled.',
  over=['inputs', 'configurations'], q='all detectors, all choices of passes, all gray levels, all memory modes and thread counts (unknown to the analysis)',
  why='No test runs a detector; an inverted or shifted level or a wrong list shows only for particular passes, memory modes or levels.',
  files=['basicimg/src/img_mser_base.cpp', 'basicimg/src/img_fast_mser_v1.cpp', 'basicimg/src/img_fast_mser_v2.cpp', 'basicimg/src/img_linked_linear_mser.cpp', 'basicimg/src/img_ms_mser.cpp', 'basicimg/src/img_opencv_mser.cpp', 'basicimg/src/img_opencv3_mser.cpp', 'basicimg/src/img_origin_mser.cpp', 'basicimg/src/img_vlfeat_mser.cpp'],
  mech=[('orchestration', 'img_mser_base::extract'), ('reporting', 'extract_pixel of each detector')],
  check='c_report.py', level='other', technique='per-input constant propagation through extract() with resolved virtual calls',
  note='Gray levels are sampled (powers of two, extremes, constants the reporting code compares with); all other inputs are unknown. The idiap detector reports no regions.'),
]
PROPS += [
 dict(id='C05', title='Patches are merged along every seam, each neighbour pair exactly once',
  statement='When the fast detectors (v1 and v2) split an image into patches, every patch is grown exactly once, before any merging; then the regions of every two neighbouring pixels that lie on both sides of a seam are connected exactly once, whatever the image size, the number of threads, the gray values and the pass, and no other pixels are connected. A region that was merged into another one is replaced by the one it was merged into before it is connected. Iterations of a parallel merging loop never work on the same patches. Sorting the seam positions by level only changes their order: every position is listed once.',
  over=['inputs', 'configurations', 'schedules'], q='all image sizes and gray values, all supported thread counts, both connectivities and passes',
  why='No test runs a detector; a pair of pixels that is missed, connected twice or looked up in the wrong patch shows only for particular sizes, thread counts and gray values.',
  files=['basicimg/src/img_fast_mser_v1.cpp', 'basicimg/src/img_fast_mser_v2.cpp', 'basicmath/include/mt_helper.h'],
  mech=[('build step', 'build_tree, build_tree_parallel_*'), ('seam merging', 'merge_tree_parallel_*, merge_tree_parallel_step'), ('running sums', 'mt_helper::integral_array')],
  check='c_seam.py', level='other', technique='abstract interpretation of the build step; the connected cells as polynomials, compared with the seam neighbours on instances',
  note='Cells are polynomials in image size and loop counters, decided on several sizes per thread count; gray values that order the merging are enumerated per position over three representatives. Known finding: 8-connectivity does not connect diagonal neighbours across seams.'),
]
PROPS += [
 dict(id='C03', title='Memory and handles are released exactly once and not used afterwards',
  statement='Every buffer, object, file and directory handle that the libraries allocate or open is released exactly once, by the operation that matches how it was obtained, on every path, and is neither used nor kept reachable afterwards; nothing is overwritten before it is released. Destroying an object releases what it took over. An object that releases memory in its destructor is never copied member by member: its copies are deep, counted, or impossible, and assigning an object to itself leaves it intact. Storage that several matrices share is released when, and only when, the last of them goes.',
  over=['histories', 'inputs'], q='all sequences of constructing, copying, assigning, reusing and destroying objects, all paths through every function',
  why='Tests look at results, not at memory; a leak, a double release or a use after release needs a particular history (reuse with another size, self assignment, early return) and is usually silent.',
  files=['basiclog/src', 'basicsys/src/sys_buffer.cpp', 'basicsys/src/sys_path.cpp', 'basicsys/src/sys_thread_lock.cpp', 'basicmath/src/mt_mat.cpp', 'basicmath/include/mt_block_memory.h', 'basicmath/src/mt_auto_derivative.cpp', 'basicimg/src/img_mser_base.cpp', 'basicimg/src/img_fast_mser_v1.cpp', 'basicimg/src/img_fast_mser_v2.cpp', 'basicimg/src/img_vlfeat_mser.cpp', 'basicimg/include/img_connected_component.h'],
  mech=[('shared storage', 'mt_mat::try_deallocate, reference_info'), ('detector buffers', 'allocate_memory, clear_memory_cache and destructors'), ('reported regions', 'img_mser, img_multi_msers'), ('streams', 'sys_*_file_buffer_*')],
  check='c_own.py', level='other', technique='inclusion-based flow analysis of allocations, path-sensitive ownership typestate, rule-of-three lint',
  note='Paths are followed within one function and the helpers it calls on the same object; values of counters and flags are facts, not numbers. Memory handed to unknown functions or containers is not followed further.'),
]
PROPS += [
 dict(id='C09', title='A detector object can be used again: a run does not see what an earlier run left',
  statement='The regions a detector reports depend on the image, the mask and the settings of that run alone. A detector object, a result object, or both, that were used before - for another image, another size, another number of threads, the other connectivity, other passes - give the same regions as new ones: whatever a run changes in the detector, in the records of its patches or in the result, it sets anew before it reads it. Buffers kept between runs only save allocations. The same holds for the second pass of a run, which does not see the first.',
  over=['histories', 'configurations', 'inputs'], q='all sequences of runs of a detector object, every detector, number of threads, choice of passes and mask type',
  why='No test runs a detector, let alone twice; state that is left over shows only for particular sequences of sizes and settings, and then as a few wrong regions.',
  files=['basicimg/src/img_mser_base.cpp', 'basicimg/src/img_fast_mser_v1.cpp', 'basicimg/src/img_fast_mser_v2.cpp', 'basicimg/src/img_linked_linear_mser.cpp', 'basicimg/src/img_ms_mser.cpp', 'basicimg/src/img_opencv_mser.cpp', 'basicimg/src/img_opencv3_mser.cpp', 'basicimg/src/img_origin_mser.cpp', 'basicimg/src/img_vlfeat_mser.cpp', 'basicimg/src/img_idiap_mser.cpp'],
  mech=[('one run', 'img_mser_base::extract'), ('per-run set-up', 'allocate_memory, build_tree of every detector'), ('results', 'img_multi_msers::operator=')],
  check='c_reuse.py', level='other', technique='interprocedural upward-exposed-read analysis of member state with constant propagation of the configuration',
  note='Members, array elements and the fields of patch records are followed; the contents of large buffers are followed only as a whole (filled by a loop or not), contents reached through stored pointers are not. Buffers that are replaced when the wanted size changes count as brought up to date.'),
]
PROPS += [
 dict(id='C10', title='Code chosen by the element type of a matrix works on that type',
  statement="Where a function branches on a matrix's element type (mt_Depth: U8, I8, U16, I16, U32, I32, U64, I64, F32, F64), the code it reaches for a type reads and writes elements of exactly that type, signedness and width included; where it branches on the types of two matrices, each matrix is handled by its own type. A type without code is reported as unsupported, never handled as another type. Translations of element types to names or foreign type codes and back are inverse to each other, and the size table gives the size of each type.",
  over=['inputs', 'configurations'], q='all element types and all combinations of the element types of two matrices, in every function that branches on them',
  why='The tests use a few element types per operation; a wrong signedness or width shows only for one type of ten (a hundred pairs) and only for values that differ in the two readings.',
  files=['basicmath/src/mt_mat.cpp', 'basicmath/src/mt_mat_math_operation.cpp', 'basicmath/src/mt_mat_serialize.cpp', 'basicmath/src/mt_pooling.cpp', 'basicmath/src/mt_convolution.cpp', 'basicmath/src/mt_auto_derivative_tree.cpp', 'basicmath/src/ml_multiplication.cpp', 'basicmath/src/mt_data_type.cpp', 'basicmath/include/mt_data_type.h', 'basicimg/src/img_img.cpp'],
  mech=[('dispatch', 'every switch or if chain on mt_Depth values'), ('names and codes', 'mt_Depth_Channel::depth_str / depth_i32, img_img::depth_from_opencv / depth_from_basiccv'), ('sizes', 'mt_Depth_Size')],
  check='c_depth.py', level='other', technique='specialisation of each dispatching function to every assignment of element types; typed constructs reached must have the assigned types',
  note='Element types are read off template arguments, pointer types, pointer casts and sizeof in the dispatching function; what the chosen template does inside is not followed. Preconditions stated by basiclog_assert are assumed.')
]
PROPS += [
 dict(id='N01', title='Reported regions are exactly the maximally stable extremal regions of the image',
  statement='For every image and every setting of delta, size limits, variation, similarity and polarity, a detector reports exactly the connected components of level sets that are maximally stable, each with exactly its own pixels, and all detectors agree on them.',
  over=['inputs', 'configurations'], q='all images, all settings',
  why='The repository has no test of a detector; equality with the definition can only be sampled by tests.',
  files=['basicimg/src/img_fast_mser_v1.cpp', 'basicimg/src/img_fast_mser_v2.cpp', 'basicimg/src/img_opencv_mser.cpp'],
  mech=[('stability', 'recognize_mser of every detector'), ('pixels', 'extract_pixel of every detector')],
  na='the stability criterion compares sizes accumulated over unbounded, data-dependent merge histories and floating-point ratios; no sound static argument in reach bounds them (the static parts are claimed as C04-C09)'),
 dict(id='N02', title='Matrix operations and derivatives give the mathematically defined numbers',
  statement='Arithmetic, reductions, pooling, filtering, decompositions and automatic derivatives on matrices return the values their mathematical definition prescribes, up to rounding, for every shape, layout and depth.',
  over=['inputs'], q='all matrices',
  why='Unit tests compare a few matrices.',
  files=['basicmath/src/mt_mat.cpp', 'basicmath/src/mt_mat_math_operation.cpp', 'basicmath/src/mt_auto_derivative.cpp'],
  mech=[('operations', 'mt_mat, mt_mat_helper, mt_auto_derivative')],
  na='numeric results quantify over run-time element values and shapes; static analysis can decide which elements are touched, not that the formulas are the intended ones'),
 dict(id='N03', title='The fast detectors are faster than the others and scale with threads',
  statement='The fast detectors process an image in time linear in its pixels and faster with more threads.',
  over=['inputs', 'schedules'], q='all images and machines',
  why='Timing is not tested.',
  files=['basicimg/src/img_fast_mser_v1.cpp', 'basicimg/src/img_fast_mser_v2.cpp'],
  mech=[('parallel patches', 'build_tree_parallel_*')],
  na='running time depends on the machine and on data; not a property of the source that a static rule decides'),
]
