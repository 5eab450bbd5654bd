# every property: claimed (claim=level note) or not applicable (na=reason)
ENG = 'Verified: the real functions, parsed from /repo on every run. '
TB = (' Trusted: the verifier in /verif/vc (Python semantics, loop rule), Z3/cvc5, assumed contracts on Python built-ins; floats are mathematical reals plus NaN/inf cases. '
      'Each contract is also executed on seeded concrete inputs against the same specification.')

prop('P01', 'Arithmetic is exact or fails with its documented error',
     'For every pair of int, long, float or double operands, the arithmetic, comparison, logical and bitwise operators return the mathematically exact result, truncated or IEEE-converted as '
     'documented, when it fits the declared result type. When the result does not fit (overflow) or the operation is undefined (division or modulus by zero) they raise the documented numbered error, and they never '
     'return an out-of-range or silently rounded integer (powers alone are computed in double precision).',
     ['inputs'], 'all operand values of each operand type, including the extremes of int and long',
     'The tests evaluate a few small operands per operator; overflow boundaries, negative divisors and longs beyond 2^53 are a vanishing part of the input space.',
     ['titus/lib/core.py', 'titus/util.py', 'titus/signature.py'],
     [('operators and their overflow checks', 'titus/lib/core.py'), ('Java-like power', 'titus/lib/core.py powLikeJava')],
     claim=ENG + 'Every operator of the core library per operand type; + - * etc. over unbounded symbolic integers.' + TB)

prop('P02', 'Comparison of values is a schema-directed total order',
     'For any two values of the same type, comparison returns -1, 0 or 1 as the order prescribed for that type: numeric for numbers (not-a-number above everything), lexicographic for strings, bytes and arrays, '
     'declaration order for enumerations, first differing non-ignored field in declared order (reversed for descending fields) for records. The less-than, greater-than, equality and comparison operators and min/max all agree with it.',
     ['inputs'], 'all pairs of values of each type shape, arrays of any length, records with any number of fields',
     'Tests compare a handful of pairs; the order laws quantify over all pairs and all record layouts.',
     ['titus/datatype.py', 'titus/lib/core.py'], [('schema-directed comparison', 'titus/datatype.py compare'), ('operators built on it', 'titus/lib/core.py')],
     claim=ENG + 'Comparison per type shape; components are compared through the contract (structural induction).' + TB)

prop('P04', 'Values crossing the engine boundary match their declared types',
     'Reading a JSON value at a declared type either yields the value that JSON denotes at that type or is rejected; input data handed to an engine is accepted exactly when it matches the declared input type '
     '(integers in range, enumeration symbols declared, every record field present; text that spells a number, boolean or null is read as one) and is otherwise rejected before any user code runs; writing a value as JSON preserves it, including the tag of a union member.',
     ['inputs', 'configurations'], 'all values and all type shapes: scalars, enums, fixed, arrays, maps and records of any size; unions of up to three member types',
     'Tests feed well-formed data and a few malformed examples; conformance quantifies over every value and schema.',
     ['titus/datatype.py', 'titus/genpy.py'], [('input checking', 'titus/datatype.py checkData'), ('JSON decoding', 'titus/datatype.py jsonDecoder'), ('JSON encoding', 'titus/datatype.py jsonEncoder')],
     claim=ENG + 'Component types are opaque and handled through the contract (structural induction on the type); unions are verified for fixed widths up to three members.' + TB)

prop('P09', 'Array indexing, slicing and editing follow the index rules',
     'For every array and every index or range, including negative and out-of-range ones, extracting, slicing and replacing sub-arrays, and appending, inserting, replacing, removing and rotating items, return exactly the documented '
     'items in order, or raise the documented numbered error; the argument arrays are never modified.',
     ['inputs'], 'all arrays of any length and item type, all integer indices',
     'Tests use a few arrays of length 3 to 10; index arithmetic at the boundaries and for negative indices is input-dependent.',
     ['titus/lib/array.py', 'titus/util.py'], [('index normalisation', 'titus/util.py negativeIndex, startEnd'), ('array functions', 'titus/lib/array.py')],
     claim=ENG + 'Arrays are mathematical sequences of symbolic length and opaque items; argument immutability is an obligation of every contract.' + TB)

prop('P10', 'Array search, set and functional operations equal their definitions',
     'For every array and every (side-effect free) user function, counting, finding, contains, starts/ends-with, map, filter, filter-map, fold, reduce, zip, flat-map, take/drop-while, distinct, union, intersection, difference, set equality, subset '
     'and disjointness, flatten, sliding windows and quantifiers (with their index-taking variants) return exactly what their mathematical definition prescribes, in order, or raise the documented numbered error, and never modify their arguments.',
     ['inputs', 'programs'], 'all arrays of any length, all pure function arguments',
     'Tests apply a few lambdas to a few short arrays; the definitions quantify over all arrays and all function arguments.',
     ['titus/lib/array.py', 'titus/fcn.py', 'titus/util.py'], [('array functions', 'titus/lib/array.py'), ('function application', 'titus/util.py callfcn')],
     claim=ENG + 'User functions are uninterpreted (pure, total); loops are verified with inferred or contract-supplied invariants.' + TB)

prop('P11', 'Sorting, extreme values and array statistics are exact for every array',
     'For every array: sort and sortLT return its items in increasing order, equal items in their original order; shuffle a rearrangement; max, min, argmax, argmin and their LT, N and NLT variants the first (first n) items or indices in order, '
     'ties in the order of appearance; median and n-tile the items (or, for floats, interpolations) at the documented ranks; sum and product the exact total or the overflow error; mean, geometric mean and sum of logarithms their definition. '
     'Empty arrays, negative n and undefined fractions give the documented numbered error or value. Arguments are never modified.',
     ['inputs', 'programs'], 'all arrays of any length, all strict weak orders as comparison function, all n',
     'Tests sort and rank a few fixed arrays; ties, duplicates, empty and one-item arrays and arbitrary comparison functions are not sampled together.',
     ['titus/lib/array.py', 'titus/datatype.py'], [('selection of the n best', 'titus/lib/array.py highestN, lowestN, argHighestN, argLowestN'), ('statistics', 'titus/lib/array.py')],
     claim=ENG + "Python's sorted is assumed to be a stable sort by the given comparison (whose correctness is the obligation) and random.shuffle a permutation; selection loops are verified against a fold that inserts each item at its rank." + TB)

prop('P12', 'Map operations return exactly the documented entries',
     'For every map, whatever the order in which its entries were added: look-up, adding, removing, restricting, overlaying, splitting and joining maps, keys and values, the set operations on keys, maps used as sets of values (toset, in, add), map, filter, filter-map, flat-map, zip and '
     'correspondence with user functions, and the argmax/argmin families return exactly the entries (keys, values) their definition prescribes, ties by key, or raise the documented numbered error, and never modify their arguments.',
     ['inputs', 'programs'], 'all maps of any size, all pure function arguments, all strict weak orders as comparison function',
     'Tests use a few literal maps built in one order; the definitions quantify over all maps, orders of insertion and function arguments.',
     ['titus/lib/map.py'], [('map functions', 'titus/lib/map.py')],
     claim=ENG + 'Maps are mathematical finite maps with an arbitrary iteration order of symbolic length.' + TB)

prop('P13', 'Mathematical functions return the documented value on the whole domain',
     'For every number, absolute value, sign, copysign, floor, ceiling, round and rint return the exact result or raise the documented overflow error; square root, logarithms (any base), exponentials, trigonometric and hyperbolic functions and hypot '
     'return the value of the function they are named after, not-a-number outside its domain, and infinity where the result is too large for a double, and never fail with anything but the documented numbered error. '
     'The tests for not-a-number and infinity and the replacements of such numbers agree with that.',
     ['inputs'], 'all doubles, including not-a-number, the infinities and arguments whose result overflows; all int and long values for the functions defined on them',
     'Tests evaluate each function at a few moderate arguments; ends of domains, ties in rounding, overflow and special values are missed.',
     ['titus/lib/pfamath.py', 'titus/lib/impute.py'], [('functions', 'titus/lib/pfamath.py'), ('isnan, isinf, isnum, errorOnNonNum, defaultOnNonNum', 'titus/lib/impute.py')],
     claim=ENG + "Transcendental functions of Python's math module are uninterpreted functions with their documented domains and an arbitrary overflow condition: what is proved is which function is applied to what, and every case around it." + TB)

prop('P14', 'String functions return exactly the documented strings',
     'For all strings and integers, length, substring (with negative and out-of-range indices), splicing, contains/count/index/rindex/startswith/endswith, join, split, concatenation, repetition, formatting of numbers and hexadecimals with width and precision, '
     'upper and lower case, stripping, replacing the first, last or every occurrence, and translation return exactly what their definition prescribes, or raise the documented numbered error.',
     ['inputs'], 'all strings, all indices, widths and precisions, arrays of any length',
     'Tests use short ASCII samples; boundaries of the index rules, overlapping and empty patterns and odd widths are not sampled.',
     ['titus/lib/pfastring.py', 'titus/util.py'], [('string functions', 'titus/lib/pfastring.py')],
     claim=ENG + "Python's string methods (find, count, split, join, replace, strip, format) are assumed contracts or uninterpreted functions; index arithmetic, case distinctions and argument order are proved." + TB)

prop('P15', 'Conversions between types keep the value or fail as documented',
     'For every value, reading a number as signed or unsigned with the given number of bits, conversion of numbers to int, long, float and double, the fan-out functions of booleans, ints, strings and enumerations, enumeration to string or position, '
     'fixed to and from bytes, slicing, encoding and decoding of bytes (character sets, base64), and replacing missing values return exactly the value prescribed, or raise the documented numbered error when there is none; nothing is silently truncated '
     'beyond what is documented.',
     ['inputs'], 'all values of the argument types, all bit counts, ranges and dictionaries of any length',
     'Tests convert a few in-range values; the boundaries, the out-of-vocabulary cases and malformed encodings are a vanishing part of the inputs they use.',
     ['titus/lib/cast.py', 'titus/lib/bytes.py', 'titus/lib/enum.py', 'titus/lib/fixed.py', 'titus/lib/impute.py'],
     [('casts and fan-outs', 'titus/lib/cast.py'), ('bytes', 'titus/lib/bytes.py'), ('enum, fixed', 'titus/lib/enum.py, titus/lib/fixed.py'), ('missing values', 'titus/lib/impute.py')],
     claim=ENG + 'Codecs and base64 are uninterpreted functions with their failure conditions; bytes are strings of Latin-1 characters. cast.json and cast.avro are not covered.' + TB)

prop('P17', 'Kernels, links, metrics and interpolations compute their formulas',
     'For every input, kernel functions, link functions (of a number, an array or a map), softmax, metrics (including those over arrays with missing values and weights, and binary similarities), table lookup and interpolation, binning and the '
     'updates of change detection return the value of their documented formula over all components - sums over exactly the positions of the inputs, nearest entries and brackets chosen as documented, counters advanced as documented - '
     'and misaligned or degenerate inputs raise the documented numbered error; arguments whose exponential is too large give the limit.',
     ['inputs'], 'all vectors and tables of any length, all finite components (and nan and infinities where a function inspects them), all pure metrics given as functions',
     'Tests evaluate each function on one or two short vectors; ties, missing values at particular positions, unequal lengths and extreme arguments are not sampled.',
     ['titus/lib/kernel.py', 'titus/lib/link.py', 'titus/lib/metric.py', 'titus/lib/interp.py', 'titus/lib/stat/change.py'],
     [('kernels', 'titus/lib/kernel.py'), ('links', 'titus/lib/link.py'), ('metrics', 'titus/lib/metric.py'), ('interpolation', 'titus/lib/interp.py'), ('updateTrigger, updateCUSUM, zValue', 'titus/lib/stat/change.py')],
     claim=ENG + 'Components are mathematical reals; exp, log, sqrt, tanh, erf are uninterpreted functions with basic facts (positivity, domain, range of overflow). rbf is specified for gamma >= 0.' + TB)

prop('P18', 'Models score and update by their documented rule',
     'For every datum and model, scoring functions return the value of the documented rule: support vector machines the weighted kernel sums plus constant, naive Bayes the log-likelihood (zero or invalid parameters rejected), '
     'nearest-neighbour and cluster searches the items of least distance in order (the earlier one where equal), ball searches exactly the items within the radius in their order, means the componentwise (weighted) mean, '
     'tree tests the documented comparison of field and value (missing fields, memberships, and/or/xor, surrogates), chi-square accumulators the running sums; models and data are never modified; '
     'misaligned dimensions, empty models and bad parameters raise the documented numbered error.',
     ['inputs'], 'all data and models of any size, all finite components, all pure metrics, kernels and node tests given as functions',
     'Tests score a few fixed models; ties, unequal dimensions at a later row, keys missing from one side and empty models are not sampled.',
     ['titus/lib/model/svm.py', 'titus/lib/model/naive.py', 'titus/lib/model/neighbor.py', 'titus/lib/model/cluster.py', 'titus/lib/model/tree.py', 'titus/lib/model/reg.py', 'titus/lib/stat/pfatest.py'],
     [('score', 'titus/lib/model/svm.py'), ('gaussian, multinomial, bernoulli', 'titus/lib/model/naive.py'), ('mean, nearestK, ballR', 'titus/lib/model/neighbor.py'),
      ('closest, closestN, updateMean', 'titus/lib/model/cluster.py'), ('simpleTest, missingTest, compoundTest, surrogateTest', 'titus/lib/model/tree.py'), ('residual, pull, updateChi2, reducedChi2', 'titus/lib/model/reg.py, titus/lib/stat/pfatest.py')],
     claim=ENG + 'Components are mathematical reals; log and sqrt are uninterpreted functions with basic facts. Tree tests are specified for numeric, string and array types of field and value. Not covered: walking whole trees, neural layers of several layers, '
     'Gaussian processes, regressions on numpy arrays, k-means iteration. Weighted means with zero total weight are executed, not proved.' + TB)

prop('P19', 'Streaming statistics and histograms accumulate as documented',
     'For every datum, weight and accumulator record, updating returns a record with the same other fields in which count, mean, variance, covariance, weighted averages and Holt-Winters level, trend and seasonal factors follow the documented recurrence; '
     'forecasts are the documented extrapolation; a sliding window keeps the last windowSize items and the statistics of those it keeps; a histogram adds the weight to the one bin that contains the number (under-, over- and nanflow apart, growing when documented) '
     'and leaves every other bin as it was; a counter adds to the given key only; topN keeps the N largest in order. The accumulator given is never modified; out-of-range parameters raise the documented numbered error.',
     ['inputs', 'histories'], 'all data, weights, accumulators of any size with any other fields, hence every history of updates',
     'Tests push a few numbers; weights that are zero or negative, edges of bins, empty and growing histograms, windows shrunk between calls and level-dependent fields are not sampled.',
     ['titus/lib/stat/sample.py'],
     [('update, updateCovariance, updateWindow', 'titus/lib/stat/sample.py'), ('updateEWMA, updateHoltWinters(Periodic), forecast1, forecastHoltWinters', 'titus/lib/stat/sample.py'), ('fillHistogram, fillHistogram2d, fillCounter, topN', 'titus/lib/stat/sample.py')],
     claim=ENG + 'Numbers are mathematical reals (a number is assigned to the bin its real quotient says; rounding at the very edges is executed only). Outcomes in which a total weight divided by is zero, and updateCovariance over maps, '
     'are outside the contracts.' + TB)

DOC = ('Verified: for each document of a catalogue (one per language form and combination of forms; sub-expressions are arbitrary user functions: uninterpreted, effectful, possibly failing), the real titus reads, '
       'type-checks and compiles the document on every run, and the generated method together with the titus.genpy runtime it calls is proved to refine the reference semantics for every input, state and behaviour of those functions. ')
DTB = (' Documents outside the catalogue are covered only as far as they are compositions of its forms. Trusted: reference semantics in vc/pfasem.py, the verifier in /verif/vc, Z3/cvc5; the compiler runs natively on the catalogue '
       '(its output, not its code, is verified). Each contract is also executed on seeded concrete inputs.')

prop('P05', 'Cells and pools change only as directed, atomically, and roll back on failure',
     'Reading a cell or pool item at a path yields the stored part; updating it replaces exactly the addressed part by the given value or by the user function applied to the old part (to the initial value when the pool item does not exist yet), '
     'returns the new value, and leaves every other part, item, cell and pool, and every value read earlier, unchanged. An update of a shared cell or pool item reads the current value and publishes the new one while holding its lock, which is '
     'released even when the update fails; a failing update stores nothing. When an action or a merge fails, every cell and pool marked rollback has the value it had at the start. A path that does not exist raises the documented numbered error.',
     ['inputs', 'states', 'schedules'], 'all cell and pool contents, all inputs, all behaviours and failures of the user functions, any interference by other threads between lock and unlock',
     'Tests update a few cells with fixed values; isolation of the untouched parts, failure in the middle of an update and interference from other threads are not sampled.',
     ['titus/genpy.py'], [('get, update, Cell, Pool', 'titus/genpy.py'), ('generated action and merge methods', 'titus/genpy.py GeneratePython')],
     claim=DOC + 'Shared storage is verified by lock-based rely/guarantee: the value is arbitrary on acquisition and checked on release. Deleting a pool item takes no lock (as documented in DESIGN).' + DTB)

prop('P06', 'Engine phases run user code once, with documented context and results',
     'For every input, an action first checks the input against the declared type (a mismatch runs no user code and changes nothing), then evaluates the action once with input, name, version, instance, metadata, counters (and tally) in scope; '
     'map engines return its value, emit engines pass each emitted value to the emit callback in order, fold engines store and return the new tally; actionsStarted counts every accepted call and actionsFinished only the ones that succeed. '
     'A failing action or merge leaves the tally unchanged. begin, end and merge evaluate their code once with their documented context and no others.',
     ['inputs', 'states', 'histories'], 'all inputs, tallies, counters and instance numbers, all behaviours and failures of the user functions',
     'Tests run each engine style on a few records; the counters, tally and callbacks after failures are hardly looked at.',
     ['titus/genpy.py', 'titus/fcn.py'], [('generated begin/action/end/merge', 'titus/genpy.py GeneratePython.__call__'), ('emit', 'titus/pfaast.py EmitFcn')],
     claim=DOC + DTB)

prop('P07', 'Control structures follow the documented evaluation order and branching',
     'For every input, do-blocks, if/then/else, cond, while, do-until, for, foreach, forkey, cast and partial cast, ifnotnull, try with and without filters, error, log, emit and the short-circuit && and || evaluate exactly the sub-expressions the '
     'language prescribes, each as often and in the order prescribed, yield the prescribed value, and let every error through (with its message and code) except those a try is told to catch.',
     ['inputs', 'programs'], 'all inputs, array and map sizes, iteration counts, and all behaviours and failures of the sub-expressions',
     'Tests run each structure on one or two examples with pure sub-expressions; evaluation counts, order and errors in the middle of loops are not visible to them.',
     ['titus/genpy.py'], [('runtime helpers ifThen .. tryCatch', 'titus/genpy.py'), ('code generation per form', 'titus/genpy.py GeneratePython.__call__')],
     claim=DOC + 'Loops are related to the reference loop by an invariant found by the verifier (any number of iterations).' + DTB)

prop('P08', 'Names denote what lexical scope says',
     'For every input, a name read in an expression denotes the nearest enclosing declaration; let binds only in its own block, set reassigns the declaring scope; user functions see only their parameters; inline functions see the scope they are '
     'written in; function references and partial application (fill) pass each argument to the parameter it is meant for; extracting and updating a path of a value (attr) yields a changed copy and never alters the original value.',
     ['inputs', 'programs'], 'all inputs and all behaviours of the sub-expressions, any number of loop iterations',
     'Tests check single values of small programs; mixing up scopes, parameters or shared structure shows only for particular values or nestings.',
     ['titus/genpy.py', 'titus/util.py'], [('DynamicScope', 'titus/util.py'), ('call, callfcn, labeledFcn', 'titus/genpy.py and titus/util.py'), ('FcnRefFill, Let, SetVar code generation', 'titus/genpy.py')],
     claim=DOC + DTB)

prop('P16', 'Time limits bound every phase',
     'Each of begin, action, end and merge has its own time limit (its specific option, else the general one; zero or negative means none), measured from its start; every iteration of every loop form checks it before running the loop body, '
     'and once the elapsed time exceeds the limit the phase stops with a timeout error, and never before.',
     ['inputs', 'schedules'], 'all elapsed times (the clock jumps once, at any time after the start, by any amount), all inputs and iteration counts',
     'No test lets the clock run out: a loop form that forgets to look at the clock passes them all.',
     ['titus/genpy.py', 'titus/options.py'], [('ExecutionState.checkTime', 'titus/genpy.py'), ('loop helpers', 'titus/genpy.py doWhile .. doForkeyval'), ('EngineOptions', 'titus/options.py')],
     claim=DOC + DTB)
