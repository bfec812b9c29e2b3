NOTE = ('Decides the property for every value of the free inputs (seed words, state fields, draws, parameters) on the listed instantiations and call sequences; '
        'loops over unbounded quantities are unrolled to the bound recorded in evidence. Obligations the domain cannot discharge are counted as undetermined in the evidence and are not claimed. '
        'Trusts clang\'s lowering to LLVM IR, the transfer functions in tools/terms.h, and models of libm, libstdc++ number formatting and operator new.')
ENG = ['linear_congruential.hpp', 'mersenne_twister.hpp', 'subtract_with_carry.hpp', 'lagged_fibonacci.hpp', 'discard_block.hpp', 'ranlux.hpp', 'shuffle_order.hpp', 'additive_combine.hpp', 'xor_combine.hpp', 'linear_feedback_shift.hpp', 'inversive_congruential.hpp', 'independent_bits.hpp', 'mixmax.hpp', 'splitmix64.hpp']
prop('S01', 'Saving an engine as text and loading it back continues the same sequence',
     'Whatever state an engine is in, writing it to a text stream and reading it into any engine of the same type succeeds, gives an engine that compares equal to the original and produces the same further outputs. Writing leaves the engine unchanged; reading consumes exactly the text the engine wrote, so that other values and other engines saved before or after it in the same stream are read back correctly.',
     ['inputs', 'histories'], 'every engine type and template instance in the catalogue, every seed/state value, positions throughout and across the state block, loading into engines with any earlier history, text alone in the stream or followed by more text',
     'The tests save one default-seeded engine and only compare with ==; they never save at a block boundary, never put anything after the text and never check the stream position.',
     ENG, [('stream operators', 'operator<< / operator>> of each engine'), ('mt19937 state rewinding', 'mersenne_twister.hpp compute()')], NOTE)
prop('S02', 'Engines that compare equal produce the same outputs; copies compare equal',
     'If two engines of the same type compare equal, every further sequence of outputs they produce is the same. An engine always equals its copies and assigned copies, comparison is symmetric, and != is always the negation of ==.',
     ['inputs', 'histories'], 'every pair of engine states of each engine type, at equal and different positions in the state block',
     'The tests compare an engine only with a copy of itself or with one that has drawn a value; no test builds two engines that differ in a single component of the state.',
     ENG, [('equality operators', 'BOOST_RANDOM_DETAIL_EQUALITY_OPERATOR in each engine')], NOTE)
prop('S03', 'Re-seeding an engine equals constructing it afresh from the same seed',
     'Whatever an engine has been used for, seeding it with the default seed, a value, a seed sequence or an iterator range leaves it equal to, saving the same text as, and producing the same outputs as an engine newly constructed from that same seed. Default construction is default seeding. Copies and assignments of engines produce the outputs of the original and do not affect it.',
     ['inputs', 'histories'], 'every prior state and position of each engine type, every seed value, every content of the seed sequence or range',
     'The tests seed engines only straight after construction and with a few constants; iterator seeding is disabled in the test file.',
     ENG + ['detail/seed.hpp', 'detail/seed_impl.hpp'], [('seed()', 'seed overloads and constructors of each engine')], NOTE)
prop('S04', 'Seeding from an iterator range reads exactly the words the engine needs',
     'Constructing or seeding an engine from an iterator range reads, in order and once each, exactly the number of 32-bit words its state needs, and leaves the first iterator just after the last word used. It never reads at or past the end; a range that is too short is reported by std::invalid_argument. Composite engines seed their parts one after the other from the same range, and an engine gets the state a seed sequence producing the same words would give it.',
     ['inputs'], 'every engine type, every range length from empty to longer than needed, every content of the words, single-pass input iterators',
     'The iterator-seeding test cases are compiled out (#if 0) in the test suite; no test uses a short range.',
     ENG + ['detail/seed_impl.hpp'], [('word extraction', 'detail/seed_impl.hpp get_one_int, fill_array_int, fill_array_real')], NOTE)
prop('S05', 'Discarding z values leaves an engine where drawing z values would',
     'From any state, discarding z values leaves an engine that compares equal to, and continues exactly like, a copy of it from which z values were drawn and ignored.',
     ['inputs', 'histories'], 'every engine type and seed; positions at, before and after block boundaries; z from 0 to several state blocks',
     'The tests discard once, from a freshly constructed engine, with one count.',
     ENG, [('discard', 'discard() of each engine'), ('jump arithmetic', 'mersenne_twister.hpp discard_many, detail/polynomial.hpp')], NOTE)
prop('S06', 'Engine outputs always lie within the range the engine advertises',
     'Whatever seed or saved state an engine starts from, every value it returns is at least min() and at most max(); for engines producing floating point values in [0,1), every value is at least 0 and strictly less than 1.',
     ['inputs', 'histories'], 'every state of each engine type, including states given by value seeds, seed sequences and saved text',
     'The tests check the range of some thousand outputs of default-seeded engines; the extreme outputs are not reached by sampling.',
     ENG, [('output functions', 'operator() of each engine'), ('modular arithmetic', 'detail/const_mod.hpp')], NOTE)
DIST = ['uniform_int_distribution.hpp', 'uniform_smallint.hpp', 'uniform_int.hpp', 'uniform_real_distribution.hpp', 'uniform_real.hpp', 'uniform_01.hpp', 'bernoulli_distribution.hpp', 'binomial_distribution.hpp', 'geometric_distribution.hpp', 'negative_binomial_distribution.hpp', 'poisson_distribution.hpp', 'exponential_distribution.hpp', 'gamma_distribution.hpp', 'weibull_distribution.hpp', 'extreme_value_distribution.hpp', 'normal_distribution.hpp', 'lognormal_distribution.hpp', 'chi_squared_distribution.hpp', 'non_central_chi_squared_distribution.hpp', 'cauchy_distribution.hpp', 'fisher_f_distribution.hpp', 'student_t_distribution.hpp', 'laplace_distribution.hpp', 'triangle_distribution.hpp', 'beta_distribution.hpp', 'hyperexponential_distribution.hpp', 'discrete_distribution.hpp', 'piecewise_constant_distribution.hpp', 'piecewise_linear_distribution.hpp', 'uniform_on_sphere.hpp']
prop('S09', 'A distribution keeps, reports and compares exactly the parameters it was given',
     'A distribution or parameter object constructed with, or later set to, some parameters reports exactly those values from its accessors and param(), whatever it held before. Parameter objects compare equal exactly when all their values are equal; distributions with equal parameters and no buffered state compare equal, ones with different parameters do not, and != is the negation of ==. Copies, assignments and reset() keep the parameters, and constructor arguments left out take their documented defaults.',
     ['inputs', 'histories'], 'every distribution, every valid parameter value (list-valued distributions: a set of weight lists of different lengths), every earlier parameter set replaced by every later one',
     'The tests use one or two constant parameter sets per distribution and never replace a longer parameter list by a shorter one.',
     DIST, [('param_type and param()', 'param_type, param(), accessors, operator== of each distribution')], NOTE)
DRAWNOTE = ('Decides the property for every value drawn by the engine and every parameter value in the catalogue\'s ranges (list-valued distributions: fixed lists of different shapes; wide integer distributions: constant ranges of every arithmetic case), '
            'for ideal engines with 32-bit, odd and 64-bit ranges. Rejection loops are unrolled to the bound in the evidence; longer runs of rejected draws are not covered. ' + NOTE.split('. ', 1)[1])
prop('S08', 'Drawing with explicit parameters depends only on those parameters and the engine',
     'Calling a distribution with an engine and an explicit parameter object returns the value, and consumes the engine draws, that a distribution holding those parameters would, whatever parameters the called object itself holds. The call changes neither the called object\'s own parameters nor the parameter object. (discrete_distribution documents a separate algorithm for explicit parameters: for it, the result is the same for any two called objects.)',
     ['inputs', 'histories'], 'every distribution, every pair of held and explicit parameter sets, every sequence of engine values, engines of different ranges',
     'The tests only check that d(eng, p) compiles and gives plausible values for one constant parameter set.',
     DIST, [('operator()(urng, parm)', 'the two-argument call operators of each distribution')], DRAWNOTE)
prop('S11', 'reset(), copying and re-parameterising leave no trace of earlier draws',
     'After reset() a distribution equals, returns the values of, and consumes the same engine draws as a newly constructed one with the same parameters, whatever it drew before. A copy of a used distribution continues exactly like the original, a distribution given other parameters and reset behaves like a new one with those, and drawing never changes the reported parameters.',
     ['inputs', 'histories'], 'every distribution and parameter value, every earlier draw, every sequence of engine values',
     'The tests call reset() on distributions that keep no state and never compare with a fresh object after draws.',
     DIST, [('operator() and reset()', 'call operators, reset() and param(p) of each distribution')], DRAWNOTE)
prop('S12', 'Drawn values lie in the documented range and drawing never goes out of bounds',
     'A value drawn from a distribution with valid parameters is a number that lies within [min(), max()], strictly below the upper end for uniform_real_distribution, uniform_01 and generate_canonical; discrete_distribution returns an index of its weights, never one of weight zero. Drawing never reads or writes outside a table or object, divides an integer by zero, overflows a signed integer, shifts out of range or trips an assertion, whatever values the engine returns.',
     ['inputs'], 'every distribution and valid parameter value in the catalogue, every sequence of engine values including the extreme ones, engines of signed, narrow, odd, 32-bit, 64-bit and floating-point ranges',
     'The tests draw some thousand values from mt19937 with a few parameter sets; the extreme engine values that reach the ends of the range and of the tables are practically never drawn.',
     DIST + ['generate_canonical.hpp', 'detail/int_float_pair.hpp', 'detail/uniform_int_float.hpp'], [('operator()', 'call operators of each distribution'), ('range helpers', 'detail/signed_unsigned_tools.hpp, uniform_int_distribution.hpp generate_uniform_int')], DRAWNOTE + ' Bounds are decided by interval analysis refined by the path guards; a few bounds of the rejection algorithms (beta, non-central chi-squared, Poisson PTRS, binomial BTRD, triangle end points) stay undetermined.')
IRT = 'Trusts clang\'s lowering to LLVM IR and the list of external functions the analysis knows (libm, libstdc++, allocation).'
ALL = ENG + DIST + ['sobol.hpp', 'niederreiter_base2.hpp', 'faure.hpp', 'detail/qrng_base.hpp', 'detail/gray_coded_qrng.hpp', 'seed_seq.hpp', 'variate_generator.hpp', 'random_number_generator.hpp', 'generate_canonical.hpp']
prop('S07', 'Separate objects share no state, and const operations change nothing',
     'Every engine, distribution, quasi-random generator and utility object keeps all of its state in itself: what it returns depends only on the calls made on that object, so distinct objects may be used from different threads, or in any interleaving, without affecting each other or racing. Const member functions change neither the object nor anything else, and no operation modifies an argument it takes by const reference, so that reading one object from several threads is safe.',
     ['schedules', 'histories', 'inputs'], 'every public member function of every engine, distribution, quasi-random generator and utility template; every schedule of operations on distinct objects',
     'The tests are single threaded and use one object at a time; a cache in a static variable gives the right values in all of them.',
     ALL, [('whole headers', 'all member functions; tables such as detail/int_float_pair.hpp and the quasi-random tables are shared constants')],
     'Covers every function of the instantiations in ir/all.cpp, whatever the inputs: no path is cut. The interleaving scenarios (value graph) cover the listed types and a few draws each. ' + IRT,
     technique='interprocedural effect (mod/ref) analysis of the LLVM IR call graph, with value-graph interleaving obligations')
prop('S13', 'Every operation ends: no loop can run on without drawing or finishing',
     'Every operation of the library ends: a loop either draws a fresh value from the engine (or reads further input) each time round, so that it ends once the engine returns an accepted value, or counts towards a bound. No parameter value, engine state, seed, or sequence of engine values makes an operation spin without consuming anything.',
     ['inputs', 'histories'], 'every loop of every public member function of every engine, distribution, quasi-random generator and utility template',
     'A loop that spins does so for a rare draw or state (such as a uniform value next to one) that a sampling test does not meet; hangs are not reported as failures by such tests at all.',
     ALL, [('rejection loops', 'operator() of the distributions'), ('search loops', 'inversion and table searches; poisson_distribution.hpp invert, binomial_distribution.hpp invert, piecewise distributions'), ('bounded loops', 'state updates, seeding and discard')],
     'Decides that no loop has a way round which neither draws (or reads input) nor makes progress on an exit test of a counter, pointer, list position or geometrically moving floating-point variable; it does not bound how often an engine may be rejected, nor prove that the counter meets its bound when the step could jump over it. Covers the instantiations in ir/all.cpp. ' + IRT,
     technique='loop (CFG and dataflow) progress analysis of the LLVM IR')
prop('S14', 'The built-in constant tables satisfy the equations that define them',
     'Every constant table the library computes with has the values its algorithm defines: the mixmax skip tables jump the documented power-of-two distances, the ziggurat, Stirling and factorial tables hold the correctly rounded values of their formulas, Sobol and Niederreiter polynomials are the primitive and irreducible ones in order with valid direction numbers (odd, in range, with Sobol\'s property A), and the primes of Faure are the primes.',
     ['inputs'], 'every entry of every table (all dimensions of the quasi-random tables, all skip rows, all ziggurat layers)',
     'A sampled draw reads a handful of entries; the tests use the first few dimensions of the quasi-random tables, a few skip rows and validate distributions statistically, which a single wrong entry does not disturb.',
     ['mixmax.hpp', 'detail/mixmax_skip_N17.ipp', 'normal_distribution.hpp', 'exponential_distribution.hpp', 'binomial_distribution.hpp', 'poisson_distribution.hpp', 'detail/sobol_table.hpp', 'detail/niederreiter_base2_table.hpp', 'faure.hpp'],
     [('constant tables', 'the static const arrays in the listed files')],
     'Decides every entry of the tables that have a defining equation; Sobol direction numbers, which are free choices within their constraints, are additionally compared with recorded digests of the published tables. The tables are read from the compiled IR of the current source. The defining equations are evaluated with exact rational or GF(2)/modular arithmetic in passes/S14.py, which is trusted.',
     technique='constant-table verification of the compiled IR initialisers against their defining equations (exact arithmetic)')
prop('S15', 'random_device returns its device\'s bytes in order and reports every failure',
     'random_device opens the device it is given (by default /dev/urandom) once, for reading, and closes it once when destroyed; every value is made of the next four bytes the device delivers, in order and none skipped, however the device splits them over reads. A device that cannot be opened, a failed read and the end of the device are each reported by a system_error carrying the error code (0 for the end of the device): no value is ever returned that the device did not deliver. generate fills exactly its range.',
     ['fault_sequences', 'inputs', 'histories'], 'every way the device splits a value over reads, a failure or end of device at any read, every content and every error code, before and after failures',
     'The tests read /dev/urandom, which never fails, never ends and never delivers part of a value; random_device has no test of its failure paths.',
     ['src/random_device.cpp', 'random_device.hpp'], [('partial reads', 'src/random_device.cpp impl::next'), ('errors', 'src/random_device.cpp impl::error')],
     'Analyses src/random_device.cpp (POSIX branch) with open, read and close replaced by a model device and boost.system by plain values; bytes, descriptor and error codes are free, the splits of up to three consecutive values and the failure positions are enumerated. The Windows branch is not compiled here and not covered.')
prop('S10', 'Distributions and parameter sets survive a round trip through text',
     'A distribution or parameter object written to a text stream with enough precision for its floating-point type and read back, into any object of the same type, compares equal to and reports the same parameters as the one written. Writing changes neither the object nor the stream\'s format; reading consumes exactly the text that was written, so that whatever follows in the stream is read back correctly.',
     ['inputs', 'histories'], 'every distribution and its param_type, every parameter value in the catalogue, reading into objects holding any other parameters, alone in the stream or followed by other values and objects',
     'The tests write and read one constant parameter set per distribution, at the end of the stream.',
     DIST + ['detail/vector_io.hpp'], [('stream operators', 'operator<< and operator>> of each distribution and param_type'), ('lists', 'detail/vector_io.hpp')], NOTE + ' Number formatting is modelled: a value read back equals the one written when the stream\'s precision suffices for its type.')
prop('S16', 'Quasi-random generators: same k-th vector however it is reached; ends reported',
     'A quasi-random generator yields the vectors of the published sequence (Sobol and Niederreiter in Gray-code order without the zero vector, Faure), in range, coordinate by coordinate: seeding with k, discarding, drawing, generate, copying and a text round trip (into a generator of any dimension) that reach the same position give equal generators and the same values from there on, and generators at different positions differ. A dimension of zero or beyond the tables is refused with invalid_argument; drawing, seeding or discarding past the last vector throws range_error and leaves the generator as it was.',
     ['inputs', 'histories'], 'sobol_engine with free direction numbers, niederreiter_base2_engine and faure_engine; dimensions 1 to 12; word widths 3 to 64; positions, seeds and discards across vector boundaries and at the end of the sequence; reading into generators of other dimensions and positions',
     'The tests compare the first hundred vectors of a few dimensions to a relative tolerance of 6e-6 and never change the dimension, use other widths, or check state after an error.',
     ['detail/qrng_base.hpp', 'detail/gray_coded_qrng.hpp', 'sobol.hpp', 'niederreiter_base2.hpp', 'faure.hpp'], [('seeding, discarding and text', 'detail/qrng_base.hpp, detail/gray_coded_qrng.hpp'), ('direction numbers', 'sobol_lattice::resize, niederreiter_base2_lattice::resize, binomial_coefficients')],
     'Value-graph equality with independent formulations of the three sequences, over free direction numbers for Sobol; the Niederreiter sequence is compared in the digits whose power of the polynomial is complete (the remaining low-order digits, at most degree - 1 bits, follow no published rule). Positions and counts are enumerated (tens per generator), not arbitrary. ' + IRT)
prop('S23', 'Adaptors and utilities combine generators and distributions as documented',
     'variate_generator returns what its distribution returns with its engine, using its own copy, the engine referred to or the engine pointed to as its type says; random_number_generator(n) is a uniform integer below n from the generator it refers to; uniform_01 keeps no state. An engine\'s generate fills exactly its range with 32-bit words made of the usable bits of successive outputs, each used once, and an empty range draws nothing; generate_canonical forms its fraction from as many draws as the bits asked for need. An engine adaptor constructed from engine objects holds copies of them, however they are passed, and leaves them alone.',
     ['inputs', 'histories'], 'every sequence of engine values, integer engines of 17 ranges (powers of two, odd, offset, 1 to 64 bits) and floating-point engines of 16 to 53 bits, every argument, ranges of length 0, 1 and more',
     'generate is exercised by no test for most engines, never with an empty range or an engine whose width does not divide 32; generate_canonical is tested only for lying in [0, 1).',
     ['variate_generator.hpp', 'random_number_generator.hpp', 'uniform_01.hpp', 'generate_canonical.hpp', 'detail/seed_impl.hpp', 'detail/ptr_helper.hpp', 'detail/generator_bits.hpp'], [('word filling', 'detail/seed_impl.hpp generate_from_int, generate_from_real'), ('engine by value, reference, pointer', 'detail/ptr_helper.hpp')], NOTE)
prop('S22', 'Engines produce the sequences their published definitions give',
     'From every state, each engine returns the values of the recurrence it is named after, for the predefined parameters and any other valid ones: linear and inverse congruential, Mersenne Twister, subtract-with-carry, lagged Fibonacci, Tausworthe, SplitMix64 and MIXMAX. The adaptors (discard_block, shuffle_order, independent_bits, xor_combine, additive_combine) return what their definition gives for the outputs of their base engines.',
     ['inputs', 'configurations', 'histories'], 'every state field value of each engine in the catalogue, runs across at least one whole state block, unusual template parameters (word sizes below the type\'s width, moduli near 2^31, 2^32, 2^63 and 2^64, base ranges that are odd, offset, tiny or full), every sequence of base outputs for the adaptors',
     'The tests compare the 10000th output of the predefined engines from their default seed; other parameters, states and the rarely taken arithmetic paths are not compared with anything.',
     ENG + ['detail/const_mod.hpp', 'detail/large_arithmetic.hpp'], [('recurrences', 'operator() and twist()/fill() of each engine'), ('modular arithmetic', 'detail/const_mod.hpp, detail/large_arithmetic.hpp')], NOTE + ' Engines whose arithmetic needs a value-dependent Euclid loop or a 128-bit product are compared on enumerated states; Schrage-method instances stay undetermined symbolically.')
prop('S24', 'Every way of constructing a list-valued distribution gives the same parameters',
     'discrete, piecewise constant, piecewise linear and hyperexponential distributions and their param_types have the parameters their documentation states whichever constructor was used: iterators (also single-pass), ranges, initializer lists, or a function sampled over an interval. Weights are normalised to probabilities or densities that add up to one, zero weights stay zero, integer weights are kept; extra weights are ignored, and too few values give exactly the default distribution.',
     ['inputs', 'configurations'], 'every constructor of each list-valued distribution and its param_type, weight lists of 0 to 7 entries with zeros and unnormalised sums, real, float, signed and unsigned weight types, free interval boundaries',
     'The tests construct with one list per constructor and never compare param_type constructors with those of the distribution, or use too few boundaries with given weights.',
     ['discrete_distribution.hpp', 'piecewise_constant_distribution.hpp', 'piecewise_linear_distribution.hpp', 'hyperexponential_distribution.hpp'], [('constructors', 'constructors of each list-valued distribution and param_type'), ('normalisation', 'hyperexp_detail::normalize, real_alias_table::normalize, densities()')], NOTE + ' Weight lists are enumerated constants; normalised values are compared to a relative tolerance of 1e-6, everything else exactly.')
prop('S21', 'Seeding gives the documented initial state',
     'Whatever an engine is seeded from - nothing, a value, a seed sequence or an iterator range - it continues with the sequence its definition gives from the state its documentation states for that seed: words combined low word first and reduced to the state\'s width, the value recurrences, default seeds and carries of the C++ standard, never the all-zero state of an engine that cannot leave it, with adaptors seeding their bases and filling their tables in order. seed_seq generates the words its definition gives for every sequence, range length and output type.',
     ['inputs', 'configurations'], 'every value, every word of a seed sequence or range, every engine of the catalogue and unusual parameters (odd word sizes, moduli near powers of two, signed results), fresh and used engines; seed sequences of 0 to 40 words filling ranges of 0 to 630 words of 32 or 64 bits',
     'The tests compare one value after default seeding, and for other seeds only that two engines seeded alike agree; range seeding tests are compiled out.',
     ENG + ['seed_seq.hpp', 'detail/seed_impl.hpp', 'detail/generator_seed_seq.hpp'], [('seeding', 'seed() of each engine; detail/seed_impl.hpp seed_one_int, get_one_int, seed_array_int, fill_array_int, seed_array_real, fill_array_real'), ('seed sequence', 'seed_seq::generate'), ('skipping', 'mixmax_engine::apply_bigskip')], NOTE + ' Words and values are free where the engine is linear in them; MIXMAX and the inverse congruential engines, and long seed_seq ranges, are compared on enumerated seeds (every single identifier bit for MIXMAX). LCG words for integer types narrower than 32 bits follow no documented rule and are left out.')
prop('S19', 'Whole-number draws have exactly the documented shares',
     'Given an engine whose values are all equally likely, uniform_int_distribution (whatever the two ranges), random_number_generator and independent_bits_engine give every value of their range from exactly equally many engine values, and uniform_smallint to within one. discrete_distribution gives every index exactly the share of its integer weight - also when the weights\' sum overflows the weight type - and weighted, success-probability and counting distributions give each outcome its probability to the engine\'s resolution.',
     ['inputs', 'configurations'], 'every sequence of engine values, counted, for engines of 2 to 65536 values (also signed, offset, full-width and real-valued) with target ranges below, equal to and above the engine\'s; integer and real weight lists with zeros, ties and overflowing sums; up to 7 draws per value',
     'Tests check distributions statistically with engines of 2^32 or 2^64 values, where a bias of one part in a million or a value lost at the end of an odd range cannot be seen.',
     ['uniform_int_distribution.hpp', 'uniform_smallint.hpp', 'uniform_int.hpp', 'discrete_distribution.hpp', 'bernoulli_distribution.hpp', 'binomial_distribution.hpp', 'geometric_distribution.hpp', 'poisson_distribution.hpp', 'piecewise_constant_distribution.hpp', 'piecewise_linear_distribution.hpp', 'uniform_01.hpp', 'uniform_real_distribution.hpp', 'random_number_generator.hpp', 'independent_bits.hpp', 'detail/uniform_int_float.hpp', 'detail/int_float_pair.hpp'],
     [('rejection and bucket arithmetic', 'generate_uniform_int; independent_bits_engine::operator()'), ('alias tables', 'discrete_distribution.hpp integer_alias_table, real_alias_table, init, operator()')],
     'Counts, over the value graph of the draw, the engine value sequences leading to each result; sequences longer than the stated number of draws are left out whole, which leaves the shares among the rest exact. Engine sizes are small constants (the code is generic in them); conclusions for the large engines rest on the same source being instantiated. ' + IRT,
     technique='value-graph abstract interpretation with exact tabulation of the graph over the finite draw space')
prop('S20', 'A draw is the documented transformation of the engine\'s values',
     'Every distribution turns the values it takes from the engine into the result its documented method defines: inversion formulas, ziggurats, rejection with the stated acceptance test, sums and quotients of other draws, alias selection followed by a draw inside the bin. For equal engine values the result equals that formula\'s to rounding, whatever the parameters and whether they are held by the distribution or passed to the call. Exactly the engine values the method needs are consumed, no more and no fewer.',
     ['inputs', 'configurations'], 'every distribution; parameters free within ranges that cover each branch of the method; every sequence of engine values for engines of 32 bits, 64 bits, odd, signed and floating-point ranges; grids of engine values placed at the acceptance boundaries of the ziggurat and transformed-rejection methods',
     'The tests compare histograms of a few parameter sets; a wrong acceptance constant, a wrong tail, a draw too many, or an error confined to one layer or one parameter region moves them by less than the test\'s threshold.',
     DIST + ['detail/int_float_pair.hpp'], [('transformations', 'operator() of each distribution'), ('ziggurats', 'normal_distribution.hpp unit_normal_distribution, exponential_distribution.hpp unit_exponential_distribution'), ('transformed rejection', 'binomial_distribution.hpp generate, poisson_distribution.hpp generate')],
     'Value-graph equality with reference formulations of the documented methods, compared to rounding; acceptance regions are in addition tabulated exactly over grids of engine values. ' + DRAWNOTE,
     technique='value-graph abstract interpretation against reference formulations, with exact tabulation over grids of engine values')
prop('S17', 'Damaged text is refused, and never makes an object go out of bounds',
     'Reading an engine, distribution, parameter object or quasi-random generator from text that is empty, cut short after any item, or has a foreign character where a number belongs fails the stream; so does text giving lists of mismatching lengths or, for the classes that check them, parameters or state outside their range. A distribution or quasi-random generator whose reading failed is unchanged. Whatever an engine was read from, including arbitrary numbers, using it afterwards stays in bounds and trips no assertion.',
     ['inputs'], 'every engine, distribution, param_type and quasi-random generator of the catalogue; every cut point and every item replaced by a foreign character (a sample of items for states of more than 100 words); engine state items replaced by arbitrary numbers; list items and brackets left out',
     'The tests only read back text the library has just written.',
     ENG + DIST + ['detail/vector_io.hpp', 'detail/qrng_base.hpp'], [('stream operators', 'operator>> of each engine, distribution and param_type'), ('lists', 'detail/vector_io.hpp read_vector')],
     'Damage is at the level of whole items (numbers, brackets, separators); digits missing from a number give another valid number. Distributions that do not check their parameters when reading are not claimed to refuse invalid ones. ' + NOTE)
prop('S18', 'Documented preconditions are enforced, and only those',
     'With assertions enabled, the constructors that check their documented parameter requirements (bernoulli, beta, exponential, gamma, geometric, hyperexponential, non-central chi-squared, normal, poisson, triangle, uniform integer and real distributions, weights given by a function, random_number_generator\'s argument) fail an assertion for every parameter value outside the documented domain, NaN included, and for none inside it, its ends included. Template arguments outside the documented requirements of the engine, distribution and quasi-random templates do not compile; valid ones do.',
     ['inputs', 'programs'], 'every parameter value (free real and integer parameters, NaN, the ends of each domain) of each checked constructor of the distributions and their param_types; programs instantiating the templates just outside and just inside their requirements',
     'The tests construct with valid parameters only; a missing or too strict check is never exercised, and programs that must not compile cannot be unit tests.',
     DIST + ['linear_congruential.hpp', 'discard_block.hpp', 'linear_feedback_shift.hpp', 'shuffle_order.hpp', 'subtract_with_carry.hpp', 'sobol.hpp', 'niederreiter_base2.hpp', 'random_number_generator.hpp'], [('BOOST_ASSERT', 'constructors of each distribution and param_type'), ('BOOST_STATIC_ASSERT', 'class templates')],
     'Assertions are turned into exceptions of the analysis; the equivalence assertion-fails iff parameters-invalid is decided over free parameter values. Some classes check in one of their two constructors only; only the checks that exist are claimed. ' + NOTE,
     technique='value-graph abstract interpretation of the constructors, and compile-fail witness programs for the template requirements')
prop('S25', 'Deprecated names behave exactly like the current classes they stand for',
     'An engine under its deprecated name (linear_congruential, mersenne_twister, lagged_fibonacci, subtract_with_carry, additive_combine, discard_block, linear_feedback_shift, xor_combine, shuffle_output and their _01 forms), constructed or seeded in any form, equals, has the range of and returns the values of the current engine it stands for, and its copies continue like the original. uniform_int and uniform_real draw like uniform_int_distribution and uniform_real_distribution; the deprecated geometric_distribution counts from one with success probability 1 - p, and the deprecated lognormal_distribution takes the mean and standard deviation of the variable itself. uniform_01 over an engine returns what uniform_01 returns for that engine, held by value, reference or pointer as asked.',
     ['inputs', 'histories'], 'every seed value, content of a seed sequence, range or generating function, every parameter value and engine value; instances of each deprecated template',
     'The tests do not use the deprecated engine names at all, and the deprecated distributions with one parameter set.',
     ['linear_congruential.hpp', 'mersenne_twister.hpp', 'lagged_fibonacci.hpp', 'subtract_with_carry.hpp', 'additive_combine.hpp', 'discard_block.hpp', 'linear_feedback_shift.hpp', 'uniform_int.hpp', 'uniform_real.hpp', 'geometric_distribution.hpp', 'lognormal_distribution.hpp', 'uniform_01.hpp', 'detail/generator_seed_seq.hpp', 'detail/seed.hpp'], [('deprecated classes', 'the show_deprecated sections of each header')], NOTE)
prop('S26', 'Every header stands alone and every class models its documented concept',
     'Every public header compiles on its own, more than once, in several source files of a program, without exceptions, and after headers that define min and max as macros. Every engine, distribution, quasi-random generator, seed sequence and adaptor supports every operation of the documented concept in every argument form with the documented types: const and non-const copies, value, sequence and range seeds, comparison of const objects, narrow and wide streams, engines of the standard library. Ranges of engines are constant expressions, static constants have their documented values and definitions, and no seed, sequence or parameter converts implicitly to an engine or distribution.',
     ['programs', 'configurations'], 'every public header, every predefined engine and instances of every template, every distribution over float and double or several integer types; C++11 to C++20, two compilers (thorough)',
     'A template member that no test instantiates is never type-checked; the tests include several headers at once and use one form of each operation.',
     ALL, [('interfaces', 'the class definitions in each header'), ('overload selection', 'detail/seed.hpp'), ('range macros', 'BOOST_PREVENT_MACRO_SUBSTITUTION')], 'Decides the stated requirements for the listed instantiations: the type checker accepts or rejects each witness program. Requirements are those of doc/concepts.qbk and of the documented members.', technique='type-level witnesses: programs and static assertions accepted or rejected by the type checker; inspection of the linkage of compiled symbols')
# ---- outside the reach of this technique
prop('N01', 'Engine outputs have the statistical quality claimed for each generator',
     'Every generator passes the statistical quality level given for it in the documentation (equidistribution dimension, lattice structure, uniformity and independence of successive outputs over its whole period).',
     ['inputs', 'histories'], 'every seed, whole periods',
     'The tests run chi-square style tests on a few thousand values with wide tolerance.',
     ENG, [('operator()', 'operator() of each engine')], NOTE, claim=False,
     reason='A statement about the distribution of whole periods (2^19937 and the like): no static argument over the source bounds it. What source analysis can settle - that the code computes the published recurrence with the published constants from the specified state - is claimed as S21 and S22.')
prop('N02', 'Values drawn from continuous distributions follow the documented density',
     'For a perfectly uniform engine, the values of every continuous distribution occur with the documented probability density, up to the resolution of the floating-point type.',
     ['inputs'], 'every parameter value, every engine range',
     'The tests run Kolmogorov-Smirnov style tests for a few parameter sets; an error in a tail or a rare branch passes them.',
     DIST, [('operator()', 'call operators of each distribution')], DRAWNOTE, claim=False,
     reason='The law of a rejection method with real arithmetic is a measure-theoretic statement about unboundedly many draws; equality of value graphs cannot settle it. What is decidable is claimed: the exact shares of finite discrete cases (S19), the agreement of each method with an independent formulation of the published algorithm draw by draw (S20), bounds (S12), termination (S13).')
prop('N03', 'Drawing and discarding take the documented expected time',
     'Each engine and distribution needs the documented (amortised or expected) number of operations and engine draws per value, and the jump-ahead of mersenne_twister and linear congruential engines is faster than drawing.',
     ['inputs', 'histories'], 'every state and parameter value',
     'The tests do not measure time.',
     ENG + DIST, [('operator(), discard()', 'each engine and distribution')], NOTE, claim=False,
     reason='Expected running time of rejection loops depends on the acceptance probability, a real integral over the parameters; S13 decides only that every loop makes progress or draws.')
prop('N04', 'random_device is unpredictable',
     'Values of random_device cannot be predicted from earlier ones.',
     ['inputs'], 'every sequence of values',
     'A test cannot observe unpredictability.',
     ['src/random_device.cpp'], [('next', 'random_device::impl::next')], NOTE, claim=False,
     reason='A property of the operating system\'s source, not of this code; what the code contributes (every bit handed out was read from the device, failures are reported) is S15.')
