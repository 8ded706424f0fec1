"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
N, G, C, F, I = 'igakit/nurbs.py', 'igakit/transform.py', 'igakit/cad.py', 'igakit/igalib.f90', 'igakit/io.py'


def prop(id, title, statement, over, quant, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=observe, hook_needed=None)))


OBJ = ('every valid NURBS object of dimension 1 to 3 (any degrees, clamped, half-open, periodic or irregular end knots, '
       'repeated interior knots, any positive weights, any number of fields, domains of any scale and position)')

prop('C01', 'Evaluation returns the rational B-spline value everywhere',
     'Evaluating an object (calling it or evaluating fields) at any parameters of its domain returns the exact rational tensor-product B-spline combination of its control points, and of its fields or of the user-supplied control values, up to rounding. Scalars, sequences, arrays and omitted arguments give the documented shapes, a grid value equals the value of the same point evaluated alone, and both ends of the domain belong to it.',
     ['inputs'], OBJ + '; every parameter in the domain including knots, ends and their floating-point neighbours; every argument form',
     'The tests evaluate a few fixed objects (mostly clamped, uniform, unit domain) at a few points and mostly compare the code with itself.',
     [N, F], [('NURBS.__call__/evaluate', N), ('FindSpan, BasisFuns, TensorProd1-3', F)], ['returned arrays of NURBS.__call__ and NURBS.evaluate'])

prop('C02', 'Derivatives of order 1 to 4 are the true derivatives',
     'gradient, hessian and derivative of orders 1 to 4 return the exact partial derivatives of the rational map or of given fields with respect to the parameters, in the documented index order, symmetric in the derivative indices; where a derivative jumps at a knot the value from the right is returned (from the left at the right end). With physical derivatives requested, the gradient is the parametric gradient composed with the inverse Jacobian of the map.',
     ['inputs'], OBJ + '; every parameter of the domain; default, given scalar and given vector fields',
     'The tests check shapes and a few low-order identities of non-rational or symmetric objects; a missing product-rule term vanishes on most sampled objects.',
     [N, F], [('NURBS.gradient/hessian/derivative', N), ('DersBasisFuns, Rationalize, Geometry_*', F)], ['returned arrays'])

prop('C03', 'Knot insertion and refinement never change the object',
     'Inserting a knot any allowed number of times, or refining with any list of values in any order, leaves the domain and every evaluated point and field value unchanged up to rounding. The resulting knot vector is exactly the old one merged with the inserted values, other axes keep their knots, and inserting until the degree is reached stops there.',
     ['inputs'], OBJ + '; every axis (also negative), every value of the domain (existing knots, near-duplicates of knots, ends), every allowed number of insertions',
     'The tests insert fixed values in a handful of clamped objects; near-duplicate knots, repeated knots, unclamped ends and several axes are combinations that are not sampled.',
     [N, F], [('NURBS.insert/refine', N), ('InsertKnot, RefineKnotVector', F)], ['knots, control data and evaluations after insert/refine'])

prop('C04', 'Degree elevation never changes the object',
     'Raising the degree of any axis by any amount leaves the domain and every evaluated point and field unchanged up to rounding, raises the degree by exactly that amount, and keeps the continuity at every interior knot (its multiplicity grows by the same amount).',
     ['inputs'], OBJ + '; every axis; elevations by 0 to several degrees',
     'The tests elevate a few clamped objects with few spans; interior multiplicities, non-uniform spans and unclamped ends are not sampled together.',
     [N, F], [('NURBS.elevate', N), ('DegreeElevate', F)], ['knots, control data and evaluations after elevate'])

prop('C05', 'Knot removal stays within the deviation asked for',
     'Removing a knot never moves any evaluated point, nor changes any field value, by more than the deviation the caller allows per removed knot (up to rounding), removes at most the requested number of copies and only of that value, and leaves the object alone when nothing may be removed. A knot that was just inserted can be removed again, giving back the original geometry, whenever the deviation allowed exceeds the rounding errors of the two steps.',
     ['inputs'], OBJ + '; every value and count, every deviation from 0 to very large',
     'The tests remove only knots that were just inserted in a few objects; that a removal is refused when it would deform the object is hardly sampled.',
     [N, F], [('NURBS.remove', N), ('RemoveKnot', F)], ['knots, control data and evaluations after remove'])

prop('C06', 'Clamping and unclamping never change the object',
     'Clamping or unclamping either or both sides of an axis leaves the object\'s domain and every evaluated point and field unchanged up to rounding. After clamping, the object interpolates its end control points at the chosen sides; after unclamping with a continuity, the end knots repeat periodically with that continuity.',
     ['inputs', 'histories'], OBJ + '; each side and both; every continuity from 0 to degree-1; sequences of both operations',
     'The tests clamp/unclamp a few uniform clamped curves of low degree with equal spans.',
     [N, F], [('NURBS.clamp/unclamp', N), ('Clamp, Unclamp', F)], ['knots, control data and evaluations after clamp/unclamp'])

prop('C07', 'Slices, extractions and boundaries restrict the object',
     'A slice between two parameters is an object over exactly that interval that agrees with the original everywhere on it; extracting at a parameter or taking a boundary gives the object of one dimension less that agrees with the original there, fields included. The original object is left unchanged.',
     ['inputs'], OBJ + '; every axis and every interval or value, including knots of any multiplicity and ends',
     'The tests cut a few clamped objects at mid-span values.',
     [N, F], [('NURBS.slice/extract/boundary', N), ('Extract', F)], ['returned objects'])

prop('C08', 'Transpose, swap, reverse and remap only reparametrize',
     'Transposing or swapping axes permutes the arguments of the map; reversing axes substitutes a+b-u on exactly those axes (twice gives the same map back); remapping an axis substitutes the affine map onto exactly the requested domain. Control values, fields and knot multiplicities are otherwise preserved.',
     ['inputs', 'histories'], OBJ + '; every permutation, every set of axes, every target domain',
     'The tests check a few fixed objects, mostly symmetric knots on the unit domain, where e.g. a wrong axis or a not-mirrored knot vector does not show.',
     [N], [('NURBS.transpose/swap/reverse/remap', N)], ['knots, control data and evaluations'])

prop('C09', 'Geometric transforms act on points as affine maps',
     'Translating, moving, scaling, rotating or transforming an object maps every evaluated point by the corresponding affine map (rotation by the right-hand rule about any axis of any length) and leaves fields, weights and parametrization unchanged. Composed transforms act like applying their parts in the order composed, an inverse transform undoes its transform, and applying a transform to points equals applying it to an object through those points.',
     ['inputs', 'programs'], 'every transform composed of translations, scalings, rotations in any documented argument form; ' + OBJ,
     'The tests compose a few fixed transforms and compare with the same code; rational objects with fields and general rotation axes are not sampled.',
     [G, N], [('transform', G), ('NURBS.transform/translate/scale/rotate', N)], ['transform.matrix, transformed points, objects after transforms'])

prop('C10', 'No operation changes its arguments or another object',
     'Apart from the documented in-place change of the receiver, no operation of the library modifies the arrays, lists or objects passed to it, and no later in-place operation on an object changes any other object that was created from it, cloned, copied, sliced or extracted from it, or used with it in a construction, nor the arrays it was built from. Arrays that a query returned (points, fields, evaluated values, nodes) can be overwritten without effect on any object. Editing the control points of an object or the matrix of a transform in place changes no other object either, except a clone, which is documented to share them (and the arrays an object was directly built on).',
     ['histories', 'programs'], 'every sequence of operations over a population of objects derived from one another, with arrays and lists (read-only or not) as arguments',
     'The tests look at results, never at the arguments or at the sibling objects afterwards; aliasing shows only after a later in-place operation.',
     [N, C, G, I], [('copies in NURBS.__init__/clone/copy', N), ('copies in cad functions', C)], ['byte-wise snapshots of all other objects and arrays before and after each call'])

prop('C11', 'Invalid requests are refused and harm nothing',
     'A request outside of an operation\'s domain (invalid axis, side, degree, count or continuity, a parameter outside of the knot range of an insertion/extraction/slice, knots or control data of impossible sizes) raises an exception. It never terminates the process, and the object it was made on is left exactly as it was and remains usable.',
     ['inputs', 'histories'], 'every operation with every kind of out-of-range argument on every valid object',
     'The tests try few invalid requests and never check the object afterwards; the native layer can stop the process or read out of bounds instead.',
     [N, C, F, 'igakit/igalib.pyf', I], [('assertions in NURBS methods', N), ('check() clauses of the wrapper', 'igakit/igalib.pyf')], ['exception or not, state of the object, survival of the process'])

prop('C12', 'The native library never leaves its arrays nor reads undefined data',
     'No sequence of library calls, valid or refused, makes the native code access memory outside of the arrays it was given, use uninitialized memory, or execute undefined behaviour; results do not depend on the previous content of memory.',
     ['inputs', 'histories', 'configurations'], 'every call of the public operations and of the low-level module on all object shapes, degrees and knot structures',
     'An out-of-bounds access of a few bytes is invisible to result-checking tests in an uninstrumented build.',
     [F, 'igakit/igalib.pyf', N], [('array dimensions and loop bounds', F), ('sizes computed by the wrapper', 'igakit/igalib.pyf')], ['sanitizer reports, bounds-check aborts, comparison between builds with differently filled memory'])

prop('C13', 'Concurrent use of objects and of the library is safe',
     'Threads that work on different objects, or that only query (evaluate, differentiate, read) the same object, get exactly the results they would get alone, with no data race in the native code.',
     ['schedules'], 'every interleaving of threads evaluating, differentiating, modifying their own objects, and constructing objects, including concurrent native calls',
     'All tests are single-threaded; hidden module-level scratch state would never show.',
     [F, 'igakit/igalib.pyf', N], [('no SAVEd/module state', F), ('threadsafe wrapper', 'igakit/igalib.pyf')], ['race detector reports, results compared with sequential execution'])

prop('C14', 'Basis, span, node and quadrature queries match their definitions',
     'Spans, breaks with multiplicities, Greville, Lagrange and Lobatto nodes, knot-vector construction, span and multiplicity lookup, basis functions and their derivatives, and per-element basis and quadrature data agree with their mathematical definitions: basis functions are nonnegative and sum to one, their derivatives sum to zero, Gauss rules integrate polynomials of the stated degree exactly, and every non-empty span is counted exactly once.',
     ['inputs'], 'every knot vector (repeated knots, unclamped ends, any scale), degree and parameter; every supported rule size',
     'The tests sample few uniform knot vectors; multiplicities, irregular ends and larger rules are not covered.',
     [N, F], [('FindSpan, FindMult, EvalBasisFuns, SpanIndex, Greville, GaussLegendreRule, GaussLobattoRule, BasisData', F), ('NURBS.spans/breaks/greville/lagrange/lobatto', N)], ['returned arrays'])

prop('C15', 'Primitive shapes are geometrically exact',
     'circle produces points at exactly the given radius from the given center covering exactly the given angle range monotonically in its plane; line, linear, bilinear, trilinear and grid produce exactly the multilinear map through the given points, with the requested resolution, degree and continuity.',
     ['inputs'], 'every radius, center, angle range of any size and sign up to a full turn, every corner data and documented argument form',
     'The tests use a few default arguments and quarter/half/full circles.',
     [C], [('circle, line, linear, bilinear, trilinear, grid', C)], ['evaluations of the constructed objects'])

prop('C16', 'Extrusion, revolution and sweep produce the stated surfaces',
     'extrude gives the profile translated along the displacement, linearly in the new parameter; revolve gives the profile rotated about the given axis through the given point by exactly the given angle range (each generatrix is an exact arc); sweep gives the sum of section and trajectory. All hold pointwise for rational profiles and every parameter.',
     ['inputs'], 'every profile curve or surface, every displacement, rotation point, axis direction and length, and angle range',
     'The tests revolve and extrude few profiles about coordinate axes.',
     [C], [('extrude, revolve, sweep', C)], ['evaluations of the constructed objects'])

prop('C17', 'Compatibility and ruled constructions preserve their inputs',
     'compat returns one object per input that represents the same map, reparametrized affinely onto the common enclosing domain, while all share degrees and knot vectors, in which no interior knot is new to all inputs or repeated more than the least smooth input needs at the common degree; ruled gives the object that joins two inputs linearly, reproducing each of them at one end of the new axis and their combination of homogeneous coordinates between.',
     ['inputs'], 'every set of objects of equal dimension with arbitrary degrees, knots, end conditions, multiplicities and domains',
     'The tests combine few objects with nested or equal knot vectors.',
     [C], [('compat, ruled', C)], ['knots and evaluations of the constructed objects'])

prop('C18', 'Coons patches reproduce all four boundary curves',
     'A Coons patch of four curves with matching corners has exactly those curves as its boundaries, whatever their degrees, knots and weights, and it is the bilinear patch when the curves are straight lines; curves whose corners do not match are refused.',
     ['inputs'], 'every four curves with matching corners, of any degrees, knots, scales, and corner weights that agree',
     'The tests build a few patches from lines and arcs of unit weight at the corners.',
     [C], [('coons', C)], ['boundary evaluations of the patch'])

prop('C19', 'Joining concatenates two objects without changing either',
     'Joining two objects along an axis where their ends meet gives one object that reproduces the first on its own domain and the second, shifted, on the rest, for all other axes unchanged; neither input is modified.',
     ['inputs'], 'every pair of objects with a common end, of any dimension, degrees, knots, end conditions and axis',
     'The tests join few curves; different degrees or knots and higher dimension are hardly sampled.',
     [C], [('join', C)], ['evaluations of the joined object'])

prop('C20', 'Uniform refinement keeps the geometry and delivers the discretization asked for',
     'Refining an object to a degree, continuity and number of subdivisions keeps the domain and every evaluated point, and produces exactly the requested degree, inter-element continuity and element breaks; a degree, factor or continuity that cannot be had is refused.',
     ['inputs', 'configurations'], 'every object and every combination of factor, degree and continuity the operation documents',
     'The tests check few combinations on Bezier-like objects.',
     [C], [('refine', C)], ['knots and evaluations after refine'])

prop('C21', 'PetIGA files round-trip and follow the file format',
     'An object written to a PetIGA file and read back has knots and control data identical in the written precision, whatever subset of control and fields is written; the file is laid out as the format specifies (big-endian headers and values, stated order), and independently produced files are read correctly. Vectors and matrices read and written through the same interface keep every value and come back in the number type of the file.',
     ['inputs', 'configurations'], 'every object, every precision and scalar kind, geometry dimension and with/without control and fields',
     'The tests round-trip a few objects through the same code, so a symmetric error in writer and reader goes unnoticed.',
     [I], [('PetIGA.read/write/read_vec/write_vec/read_mat', I)], ['bytes of the file, re-read objects'])

prop('C22', 'Truncated or corrupted PetIGA files are rejected',
     'Reading a PetIGA object, vector or matrix file that ends prematurely at any byte, or whose identifiers, counts or sizes contradict the format or the rest of the file, raises an exception; it never returns an object with made-up content.',
     ['fault_sequences', 'crash_points', 'inputs'], 'every proper prefix (a writer or copy stopped at any byte) and every corrupted header field of every written file',
     'The tests only read complete files.',
     [I], [('PetIGA.read and header checks', I)], ['exception or returned object for each damaged file'])

prop('C23', 'VTK output is well-formed and carries the sampled data',
     'The VTK file written for an object is a conforming legacy structured- or rectilinear-grid file whose dimensions, coordinates, scalar and vector arrays are exactly the evaluations of the object at the sampling points asked for, in VTK order (first index fastest), for every dimension and any subset of fields.',
     ['inputs', 'configurations'], 'every object, sampler, and selection of scalar and vector fields',
     'The tests only check that writing does not fail.',
     [I], [('VTK.write', I)], ['bytes of the file against an independent parser and evaluator'])

prop('C24', 'Properties hold along any history of operations',
     'After any sequence of geometry-preserving operations (insertion, refinement, elevation, clamping, unclamping, transposition, reversal, remapping, slicing, joining, copying) an object still evaluates to the composition of the original map with the accumulated reparametrization, and every object reached stays a valid NURBS object on which all operations work.',
     ['histories'], 'every sequence of operations on every object, and the repository\'s own demonstrations and tests as histories',
     'The tests apply one or two operations to fresh objects; states reached only by several operations (unclamped then elevated then sliced) are never visited.',
     [N, C, F], [('NURBS methods', N)], ['knots, control data, evaluations after each step, against a shadow map'])

prop('C25', 'Plots show the object\'s own points, lines and surfaces',
     'What the plotting interface hands to a drawing backend is the object\'s control points, control net, knot points/lines and evaluated curve or surface points themselves: every vertex of a drawn curve or surface lies on the object, drawn knots are at its breaks, and the object is left unchanged.',
     ['inputs', 'configurations'], 'every object of dimension 1 to 3 and every plot request, resolution and color option',
     'Plotting needs a graphical backend, so the tests never look at what is drawn.',
     ['igakit/plot.py', 'igakit/plot_mpl.py', 'igakit/plot_myv.py'], [('plotter.cpoint/cwire/kpoint/kwire/curve/surface', 'igakit/plot.py')], ['arrays received by a recording backend'])

prop('C26', 'An object holds exactly the data it was built from',
     'Constructing an object from knots, control points, weights and fields in any accepted form and number type yields an object whose points, weights, fields, homogeneous control data, knots, degrees, shape, dimension, breaks, spans and Greville points are exactly those given (or implied), and it stays so on copies, clones, pickled and rebuilt objects and through changes made with the documented setters and transformations; omitted weights are one, omitted coordinates zero, and omitted control points give the identity map; weights or fields of another shape, and weights given beside homogeneous control points, are refused.',
     ['inputs', 'configurations'], OBJ + '; every accepted container, number type and memory layout, every combination of optional data, points of two, three or four components, array or coordinate-list fields',
     'The tests build objects from plain double arrays in one layout and look at few accessors.',
     [N], [('NURBS.__init__, points, weights, fields, control, knots, degree, shape, breaks, spans, greville, copy, clone', N)], ['every accessor of every object built'])

prop('C27', 'Results do not depend on what happened before',
     'Every operation, construction, query, file and low-level call returns the same for the same request, whatever calls (of the same or other objects, valid or refused) preceded it in the process and whatever the environment (directory, random state, print options, garbage collection, warnings, other variables); an object that was queried and changed answers exactly like one newly built from its current knots and control data; and no call changes the state of the interpreter.',
     ['histories'], 'every sequence of calls on every set of objects, in particular of similar requests on objects that agree in part of their data',
     'A test asks each question once, in one order and one environment; stale caches, reused buffers and state left by a failure show up only in the second question.',
     [N, C, I, F, G], [('NURBS methods and accessors', N), ('constructions', C), ('readers and writers', I), ('igalib', F)], ['results of each call alone in a new process, and among others'])

prop('C28', 'Equivalent ways of stating a request give the same result',
     'Arguments that mean the same give the same result: any container, number type, layout, negative or positive axis, positional, keyword or omitted default, scalar or repeated value, unsorted or sorted list, one call for several values or one after another, a method, its synonym or the function of the same name, and chaining of results in place.',
     ['inputs', 'configurations'], 'every request of the public interface on every object, stated in every equivalent way',
     'The tests state each request in one way.',
     [N, C, I, G, 'igakit/plot.py'], [('argument handling of NURBS methods', N), ('argument handling of cad functions', C), ('transform', G)], ['results of each form on copies of one object'])

prop('C29', 'Everything that a call takes is given back',
     'Repeating any call, valid or refused, does not keep taking memory (of the interpreter or the native code), open files or threads; the objects and arrays of a call are released once the caller drops them, and the reference counts of operands are what they were; nothing is printed, and no file appears that was not asked for.',
     ['histories', 'inputs'], 'every number of repetitions of every call, with the same or with ever new operands',
     'Tests run each call a few times in a short process and never measure.',
     [N, C, I, F], [('all public functions', N), ('f2py interface', 'igakit/igalib.pyf'), ('readers and writers', I)], ['interpreter blocks, C heap, reference counts, weak references, file descriptors, threads, directory contents, standard output'])

prop('C30', 'A file write that returns has written the whole file',
     'When writing a PetIGA object, vector or VTK file cannot be completed (no space at any point of the file, failing device or system call, impossible name, a value that is refused half-way), the call raises instead of returning, the object is as before, no file stays open, and a file written later under the same name is complete and correct whatever becomes of the failure; existing longer files are replaced completely, and nothing but the named file is touched. Reads that fail raise.',
     ['fault_sequences', 'crash_points'], 'every byte offset at which writing can fail, every writer, precision, object and kind of file name',
     'The tests only write small files to a disk with space; a lost write error shows up as a damaged file much later.',
     [I], [('PetIGA.write, write_vec, VTK.write', I)], ['exceptions, bytes of the files, open descriptors after injected failures'])

prop('C31', 'No unit, axis or coordinate is special',
     'Stating a request in other units gives the result in those units: when coordinates, weights, fields or the knots of an axis are all multiplied by a factor, every evaluation, derivative, operation, construction, query, file and drawing changes by that factor (and nothing else: the same requests are accepted, the same knots come out) up to rounding, except where an absolute deviation decides (removal of knots, also by join, and the corner check of coons). In the same way, permuting the parametric axes or the coordinates of the operands permutes the result.',
     ['inputs', 'configurations'], OBJ + '; every factor, every permutation of axes and coordinates, every request without an absolute deviation',
     'The tests use objects of size one over domains of length one; an absolute tolerance or a loop that mixes up two axes or coordinates works there.',
     [N, C, F, G, I], [('NURBS methods', N), ('constructions', C), ('native algorithms', F), ('transform', G)], ['results on an object and on the same object in other units or order'])

prop('C32', 'A call that fails half-way leaves everything as it was',
     'When something that a call needs fails while it runs (memory, the native code, a numpy function, another operation, or an array-like, sampler or drawing backend of the caller raises), the exception comes out of the call, and the receiver, all other operands, the state of the interpreter and the open files are what they were before; the same call made again without the failure gives the full result. Only the file being written may be incomplete.',
     ['fault_sequences', 'crash_points'], 'every public request on every object, and every point inside at which it calls something that can fail',
     'In the tests nothing fails, or only the checks at the beginning of a call do.',
     [N, C, G, I, 'igakit/plot.py'], [('in-place methods of NURBS', N), ('constructions on clones', C), ('transform', G), ('writers', I)], ['operands, interpreter state and descriptors after each injected failure; result of the repeated call'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
