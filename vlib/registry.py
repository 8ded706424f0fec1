"""What check.py needs to know about each property (standard library only)."""

COMMON = ['the reference semantics in vlib/ref.py (80-bit Cox-de Boor recursion) is correct',
          'nothing is claimed about requests that the seeded generators do not produce']


class Meta(object):
    level = 'exploration'
    jobs = 8
    title = ''

    def __init__(self, quick, thorough, rule, minimum=None, flavours=('plain',),
                 assumptions=(), level='exploration', thorough_flavours=None, jobs=8,
                 per_flavour=None, technique='runtime monitors', note=''):
        self.q, self.t = quick, thorough
        self.rule = rule
        self.mins = minimum or {}
        self.fl, self.tfl = tuple(flavours), tuple(thorough_flavours or flavours)
        self.assumptions = COMMON + list(assumptions)
        self.level, self.jobs = level, jobs
        self.per = per_flavour or {}
        self.technique, self.note = technique, note

    def flavours(self, tier):
        return self.tfl if tier == 'thorough' else self.fl

    def count(self, tier, flavour):
        n = self.t if tier == 'thorough' else self.q
        return int(n * self.per.get(flavour, 1.0)) or 1

    def total(self, tier):
        return sum(self.count(tier, f) for f in self.flavours(tier))

    def limit(self, tier):
        return 1500 if tier == 'thorough' else 420

    def minimum(self, tier):
        return self.mins

    def env(self, tier, flavour):
        return {}

    def wrapper(self, tier, flavour):
        return None


OBJ = ('one seeded random NURBS object (dimension 1-3, degree 1-11, clamped/periodic/irregular ends, '
       'repeated knots, weights, fields of any count, domains of width 1e-17 to 1e10) ')
PROPS = {}
PROPS['C01'] = Meta(27000, 270000, OBJ + 'evaluated at parameters covering every span, knot, end and one-ulp '
                    'neighbour in every accepted argument form; non-trivial: a distinct object, all points compared',
                    {'evaluated-points': 20000, 'arg:scalar': 50, 'point-objects': 20, 'evaluate': 100})
PROPS['C02'] = Meta(7500, 75000, OBJ + 'differentiated (orders 1-4, default and given fields, mapped gradients of '
                    'regular maps); non-trivial: a distinct object',
                    {'derivative%d' % k: 500 for k in (1, 2, 3, 4)} | {'gradient:mapped': 200})
PROPS['C03'] = Meta(25000, 250000, OBJ + 'refined by 1-4 insert/refine calls (new, repeated, near-duplicate and end values in '
                    'every argument form, maximal and zero counts); non-trivial: a distinct resulting object',
                    {'insert': 500, 'refine': 500, 'refine-vs-insert': 100, 'insert:near': 50, 'insert:knot': 50})
PROPS['C04'] = Meta(30000, 300000, OBJ + 'elevated 1-2 times by 0-7 degrees; non-trivial: a distinct resulting object',
                    {'elevate': 800, 'elevate:unclamped': 100, 'elevate-adds-up': 100})
PROPS['C05'] = Meta(50000, 500000, OBJ + 'with a knot removed: after insertion (must come off again), against deviations near '
                    'the decision bound, refusals at deviation 0, absent/end/neighbouring values; non-trivial: a distinct '
                    'resulting object', {'insert-remove': 300, 'remove:removed': 400, 'remove:kept': 300})
PROPS['C06'] = Meta(30000, 300000, OBJ + 'under 1-3 clamp/unclamp calls on every side and continuity; non-trivial: a distinct '
                    'resulting object', {'clamp:changed': 100, 'unclamp': 800})
PROPS['C07'] = Meta(30000, 300000, OBJ + 'restricted by chains of slice/extract/boundary at knots, ends, near-knots and inner '
                    'values; non-trivial: a distinct object', {'slice': 1000, 'extract:end': 200, 'extract:knot': 50,
                                                              'extract:inner': 200, 'extract:point': 50})
PROPS['C08'] = Meta(36000, 360000, OBJ + 'under 1-4 transpose/swap/reverse/remap calls; non-trivial: a distinct resulting object',
                    {'transpose': 300, 'swap': 300, 'reverse': 500, 'remap': 500, 'reverse-twice': 300})
PROPS['C09'] = Meta(20000, 200000, OBJ + 'under 1-3 translate/move/scale/rotate calls and a composed transform program of 1-4 '
                    'steps with its inverse; non-trivial: a distinct object and program',
                    {'transform-steps': 1000, 'inverses': 500, 'rotate': 500, 'transform': 500})
PROPS['C14'] = Meta(4950, 50000, OBJ + 'queried for spans, breaks, Greville/Lagrange/Lobatto nodes; direct basis, span, '
                    'multiplicity, knot-vector, quadrature and basis-data calls; non-trivial: a distinct set of axes',
                    {'basis-points': 3000, 'quadrature-rules': 19, 'basis-data': 100, 'knot-vectors': 100,
                     'knot-vectors:wrapped': 50, 'collocation-points': 200, 'identity-maps': 100})
PROPS['C15'] = Meta(15000, 150000, 'two circles/arcs, a line, a linear, bilinear and trilinear map and a grid from random arguments in '
                    'every documented form; non-trivial: a distinct argument set',
                    {'circle': 1000, 'grid': 500, 'line': 500, 'linear': 500, 'bilinear': 500, 'trilinear': 500,
                     'grid:wrapped': 100, 'circle:spans3': 50})
PROPS['C16'] = Meta(36000, 360000, OBJ + 'of dimension 1-2 extruded, revolved (any point, axis direction and angle range) or swept '
                    'along a random curve; non-trivial: a distinct result',
                    {'extrude': 200, 'revolve': 500, 'sweep': 200, 'revolve:dim2': 100})
PROPS['C17'] = Meta(22500, 225000, 'one to three objects with unrelated, nested, elevated, remapped or nearly equal axes made '
                    'compatible, or two joined by a ruled object; non-trivial: a distinct result',
                    {'compat': 400, 'ruled': 200, 'compat:knots': 5000, 'family:nudged': 50, 'family:mapped': 50})
PROPS['C18'] = Meta(22500, 225000, 'four curves between four (weighted) corners with unrelated degrees, knots and domains; '
                    'mismatched corners must be refused; non-trivial: a distinct patch',
                    {'coons': 800, 'coons:refused': 100, 'coons:bilinear': 50})
PROPS['C19'] = Meta(27000, 270000, 'two objects with a common end, unrelated or cut from one object, joined along any axis; '
                    'non-trivial: a distinct result', {'join': 800, 'join:dim2': 200, 'join:dim3': 100})
PROPS['C20'] = Meta(48000, 480000, OBJ + 'refined to random degrees, continuities and (per-span) factors in every accepted form; '
                    'non-trivial: a distinct result', {'cad.refine': 800, 'cad.refine:elevated': 200, 'refused': 500})
PROPS['C21'] = Meta(38400, 384000, OBJ + 'written in a random precision/scalar/index kind and subset and read back, files of an '
                    'independent writer, vectors and matrices; non-trivial: distinct file contents',
                    {'round-trips': 300, 'foreign-files': 150, 'vectors': 300, 'matrices': 150, 'fields-written': 100,
                     'identity-geometry': 50, 'second-generation': 50},
                    assumptions=['vlib/fmt.py states the PetIGA layout'])
PROPS['C22'] = Meta(1000, 5000, 'object, vector and matrix files of every kind cut at every byte, every header integer '
                    'replaced by up to 13 contradicting values, wrong settings and foreign files; non-trivial: distinct '
                    'file contents', {'prefixes': 20000, 'corrupted:p': 300, 'corrupted:vecid': 300, 'corrupted:size': 300,
                                      'corrupted:matrix': 300, 'files-cut-at-every-byte': 60}, level='fault_enumeration',
                    note='Every truncation point of each generated file up to 900 bytes and every listed corruption of each '
                         'header integer is executed; the files themselves are sampled. Not judged: changes that contradict '
                         'nothing in the file (dropped payload bits, sizes of a file without payload, trailing data).')
PROPS['C23'] = Meta(50000, 500000, OBJ + 'written as VTK with random samplers, geometry switch, own or given fields and attribute '
                    'lists; non-trivial: a distinct file', {'files': 500, 'structured': 300, 'rectilinear': 100, 'SCALARS': 300,
                                                           'VECTORS': 300, 'fields:given': 200},
                    assumptions=['vlib/fmt.py states the legacy VTK grammar'])
PROPS['C25'] = Meta(1600, 10000, OBJ + 'drawn by four random requests (options, axes, resolutions) on a recording backend, on '
                    'matplotlib with recording axes, or on the mayavi backend over stand-in modules; non-trivial: a distinct object',
                    {'vertices': 20000, 'segments': 3000, 'cells': 300, 'raw-points': 100, 'mpl:drawn': 10,
                     'rec:kwire': 30, 'rec:ksurf': 10, 'rec:curve': 30, 'rec:volume': 3, 'myv:cwire': 10},
                    assumptions=['mayavi is not installed: its backend is judged up to the arrays it gives to tvtk'])
PROPS['C10'] = Meta(14400, 144000, 'a history of 14 (22) operations over a population of objects, arrays, lists and transforms that share '
                    'origins; after each one every snapshot but the receiver\'s is compared; non-trivial: a distinct history',
                    {'snapshots-compared': 50000, 'op:elevate': 50, 'op:clone': 100, 'op:cad.compat': 100, 'op:transform': 100,
                     'op:cad.coons': 50, 'op:vtk': 20, 'answers-overwritten': 2000, 'argument:readonly': 200})
PROPS['C11'] = Meta(13500, 135000, OBJ + 'and twenty invalid requests on it, on cad functions, on the constructor and on the low-level '
                    'module; non-trivial: a distinct object and set of requests',
                    {'refused': 20000, 'used-afterwards': 1500} |
                    {'request:' + k: 300 for k in ('bad_axis', 'bad_side', 'bad_value', 'bad_count', 'bad_continuity', 'bad_range',
                                                   'bad_permutation', 'bad_point', 'bad_order', 'bad_mapping', 'bad_fields',
                                                   'bad_transform', 'constructor', 'dimensions', 'cad_refine', 'cad_grid',
                                                   'l_degree', 'l_value', 'l_count', 'l_rules', 'l_sizes', 'l_span', 'l_map')})
PROPS['C24'] = Meta(1800, 15000, 'first the tests, docstrings and demos of the repository under all monitors, then histories of 4-14 (30) '
                    'operations on one object with a shadow of the original map; non-trivial: a distinct history',
                    {'steps': 3000, 'shadow-points': 100000, 'observed': 200, 'op:elevate': 100, 'op:unclamp': 200,
                     'op:join': 100, 'op:slice': 200, 'op:extract': 30, 'op:compat': 100, 'programs:functions': 20,
                     'programs:demos': 8})
PROPS['C12'] = Meta(2700, 30000, 'the generators of C01-C08, C11, C14, C16-C20 and C24, or 25 direct native calls in random array layouts '
                    'and 6 refused ones together with 8 requests of the rest of the library, on an AddressSanitizer/UBSan/bounds-checked build and on two builds with different garbage '
                    'in uninitialized memory; non-trivial: a distinct object or call list',
                    {'native-calls': 20000, 'native-refused': 5000, 'python-calls': 8000, 'borrowed': 1500, 'compared-between-builds': 1000,
                     'outputs-hashed': 20000} | {'native:' + n: 20 for n in (
                         'FindSpan', 'FindMult', 'FindSpanMult', 'EvalBasisFuns', 'EvalBasisFunsDers', 'SpanIndex', 'Greville',
                         'InsertKnot', 'RemoveKnot', 'Clamp', 'Unclamp', 'RefineKnotVector', 'DegreeElevate', 'Extract', 'Evaluate0',
                         'Evaluate1', 'Evaluate2', 'Evaluate3', 'Gradient1', 'Gradient2', 'Gradient3', 'Hessian1', 'Hessian2',
                         'Hessian3', 'ThirdDer1', 'ThirdDer2', 'ThirdDer3', 'FourthDer1', 'FourthDer2', 'FourthDer3', 'KnotVector',
                         'GaussLegendreRule', 'GaussLobattoRule', 'BasisData', 'BasisDataCol')},
                    flavours=('asan', 'poison', 'poison2'),
                    technique='AddressSanitizer, UBSan, Fortran bounds checks; bitwise comparison of builds with different '
                              'uninitialized memory',
                    assumptions=['knot vectors passed to the native code are non-decreasing with interior multiplicities up to the degree',
                                 'gcc instruments every access of the Fortran code; small overruns inside one numpy block are seen by '
                                 'the Fortran bounds checks only'])
PROPS['C13'] = Meta(1400, 20000, 'jobs (queries of shared objects, in-place work on private ones, constructions, files, native calls) run alone '
                    'and then preempted at a line or bytecode by another thread, in 2-5 threads with random yields, or in 2-5 threads '
                    'inside the native code; non-trivial: a distinct set of jobs',
                    {'preemptions': 800, 'compared': 5000, 'yields': 3000, 'mode:stress': 100, 'threads': 500},
                    flavours=('plain', 'tsan'), per_flavour={'tsan': 0.17},
                    technique='ThreadSanitizer; line-level preemption and stress with results compared to runs alone',
                    assumptions=['schedules are sampled: preemption at lines and bytecodes of igakit, not inside numpy'])
PROPS['C26'] = Meta(24000, 240000, 'knots, control points, weights and fields in every accepted form and type, every combination of them, '
                    'objects without control points; copies, clones, rebuilt and changed objects; non-trivial: distinct data',
                    {'accessors': 20000, 'form:tuple': 300, 'form:float32': 300, 'form:strided': 300, 'built:0-identity': 100,
                     'built:2-pair': 50, 'built:fields-bare': 100, 'changes': 2000})
PROPS['C27'] = Meta(1200, 24000, 'job lists of similar requests, each run alone in a process of its own and then together in several orders '
                    'and environments; objects queried and changed in turns, compared with newly built ones; non-trivial: a distinct '
                    'job list or history',
                    {'compared': 3000, 'jobs-alone': 1000, 'answers': 15000, 'change:refused': 100,
                     'change:elevate': 100, 'change:remap': 100})
PROPS['C28'] = Meta(9000, 80000, 'one request stated in several equivalent ways on copies of one object: containers, number types, layouts, '
                    'signs of axes, keywords, defaults, synonyms, one call for several; non-trivial: a distinct object or request',
                    {'pairs': 8000, 'form:strided': 500, 'form:float32': 200, 'request:insert': 50, 'request:refine': 50})
PROPS['C30'] = Meta(1200, 20000, OBJ + 'written as PetIGA, vector or VTK file while the file may not grow beyond an offset (every one for '
                    'small files), to a full device, to impossible and unusual names, with arguments refused after the file was opened, '
                    'and with single system calls that fail; non-trivial: a distinct file',
                    {'limited-writes': 50000, 'names': 1000, 'midway': 500, 'failed-reads': 200, 'files-limited-at-every-byte': 100},
                    assumptions=['strace is used to make single system calls of the check\'s own child processes fail; where it cannot '
                                 'attach, that part of the workload is left out (event "untraced")'])
PROPS['C29'] = Meta(500, 6000, 'eight requests (on shared operands, constructions, files, native calls, refused ones) repeated 40 (160) times '
                    'each in a forked process, or random requests with new operands every time; non-trivial: a distinct list of requests',
                    {'repeated': 50000, 'released': 10000, 'refcounts': 5000, 'fresh-calls': 10000},
                    assumptions=['growth below half an interpreter block, 16 bytes of heap or half a file per call is not seen'])
PROPS['C31'] = Meta(32000, 320000, OBJ + 'and four requests on it, each stated again with coordinates, weights, fields and knots in other '
                    'units (powers of two up to 2^80), axes and coordinates in another order; non-trivial: a distinct result',
                    {'pairs': 10000, 'request:elevate': 100, 'request:remove': 100, 'request:join': 100, 'request:coons': 100,
                     'request:physical gradient': 100, 'request:low-level': 100, 'change:axes': 500, 'change:knots': 500})
PROPS['C32'] = Meta(6000, 60000, 'one random request on operands of its own; each call that igakit makes in it (of native code, numpy, igakit, '
                    'the caller\'s array-likes, samplers and backends; at most 30 (200)) raises in one execution each; non-trivial: a '
                    'request and a failing call',
                    {'failures': 10000, 'failed:native': 500, 'failed:igakit': 1000, 'failed:numpy': 1000, 'failed:caller': 200} |
                    {'request:' + k: 20 for k in ('insert', 'refine', 'elevate', 'remove', 'clamp', 'unclamp', 'order', 'remap', 'move',
                                                  'cut', 'eval', 'compat', 'join', 'coons', 'cadrefine', 'transform', 'petiga', 'vtk', 'plot')},
                    assumptions=['calls that only store the computed result at the end of an operation do not fail'])
