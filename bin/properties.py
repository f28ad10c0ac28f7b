"""The properties (source of properties.jsonl) and what each check assures (source of MANIFEST.json). bin/gen.py writes both."""
P = []
def prop(id, title, statement, over, text, why, files, mech, note, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, note=note, observe=observe or [], hook=hook))

# ---------------------------------------------------------------- Kalman
prop('K01', 'A Kalman estimator computes the Kalman recursion, step for step',
 'For every regular linear model (dynamics, output, control and noise matrices) and every sequence of controls and measurements, each update yields the state estimate, '
 'gain and estimation-error covariance that the textbook predict/correct recursion yields from the previous ones, and the elapsed time grows by the time step. '
 'Over long runs the estimate stays at the recursion\'s value instead of drifting away from it or diverging, for one and for two measurements and controls.',
 ['inputs', 'histories'], 'all models, all data histories, all run lengths',
 'There is no test of the estimator at all; agreement must hold for every model and every history, and numerical divergence shows only after dozens of updates of particular models.',
 ['include/dsp/kalman.hpp', 'include/num/matrix.hpp'],
 [('state prediction and correction', 'include/dsp/kalman.hpp:update'), ('covariance update', 'include/dsp/kalman.hpp:update'), ('matrix algebra', 'include/num/matrix.hpp')],
 'Exhaustive over bounded models and histories, compared in exact rational arithmetic with an independent recursion on every step, plus long double-precision runs.', ['state, gain, covariance and time observers'])
prop('K02', 'The error covariance stays symmetric, non-negative and data-independent',
 'With non-negative noise and initial covariances, the estimation-error covariance is symmetric and positive semidefinite after every update, a correction never increases it beyond the predicted covariance, and it never depends on the measured or control values. '
 'This holds after any number of updates.',
 ['inputs', 'histories'], 'all admissible models and data histories',
 'No test looks at the covariance; the guarantee ranges over all models and histories.',
 ['include/dsp/kalman.hpp', 'include/num/matrix.hpp'],
 [('covariance update', 'include/dsp/kalman.hpp:update'), ('matrix transposition and inversion', 'include/num/matrix.hpp')],
 'Exact check of symmetry and semidefiniteness on every step of every explored model and history; double-precision long runs with a rounding allowance.')
prop('K03', 'Estimators are independent, deterministic and own their model',
 'What an estimator reports depends only on the model it was constructed from and its own sequence of updates: copies continue independently from where they were taken, observing changes nothing, other estimators and later changes to the objects it was constructed from have no effect (also where an update interrupts that of another estimator midway), and equal histories give bit-identical results. '
 'Everything observable before the first update is defined and has its initial value.',
 ['histories'], 'all interleavings of updates, copies, observations and re-construction over several estimators',
 'The tests never hold two estimators or copy one; aliasing and history effects need particular operation sequences.',
 ['include/dsp/kalman.hpp'], [('value members', 'include/dsp/kalman.hpp')],
 'All bounded operation sequences over three estimators, compared bit for bit with fresh estimators fed the same own history.')
prop('K04', 'A noise-free or degenerate model still gives a defined, correct estimate',
 'When the innovation covariance of a single-measurement model is zero, or so small that its reciprocal exceeds the numeric type, an update performs the prediction with zero gain instead of dividing by zero. '
 'When the sensor is noise-free and the innovation covariance regular, the corrected state reproduces the measurement, exactly in exact arithmetic and to rounding in floating point, whatever the size of the covariances and data. '
 'A single-measurement estimator of a stable or constant system with a noise-free sensor, finite data and non-negative covariances of moderate size yields neither an infinity nor a not-a-number, however many updates it performs.',
 ['inputs', 'histories'], 'all models at the boundary of regularity, all sizes of covariances and data, runs of any length',
 'No test has a singular model; the boundary is a thin set that samples miss, and rounding leads an estimator there only after a number of updates.',
 ['include/dsp/kalman.hpp', 'include/num/matrix.hpp'], [('scalar inversion maps zero to zero', 'include/num/matrix.hpp:inverted')],
 'All 0/1/-2 style dynamics, outputs and covariances with a noise-free sensor, three steps, in exact, double and float arithmetic; five reasons for a zero innovation covariance with state, control and covariance sizes 2^-200..2^200; noise-free sensors of models near the bases; 60 updates of 8 stable dynamics with all outputs and covariances of a list.')
prop('K05', 'Estimator and filters in fixed-point arithmetic keep to their recursions',
 'Instantiated for fixed-point numbers, the Kalman estimator, the biquad section in each realization, the cascade and the one-pole filter yield what their recursions yield, to within the rounding of the multiplications and divisions the recursion consists of, for every model, coefficient set and signal whose values the format can hold. '
 'The covariance stays symmetric, time advances exactly, and over long runs the estimate settles at the value of the recursion instead of drifting away from it.',
 ['inputs', 'histories'], 'all models, coefficient sets, data histories and formats',
 'No test runs an estimator or a filter in fixed-point arithmetic, and rounding accumulates with the history.',
 ['include/dsp/kalman.hpp', 'include/num/fixed-point.hpp', 'include/num/matrix.hpp', 'include/dsp/biquad.hpp', 'include/dsp/biquad-cascade.hpp', 'include/dsp/onepole.hpp'],
 [('predict and correct', 'include/dsp/kalman.hpp:update'), ('fixed-point operators', 'include/num/fixed-point.hpp'), ('filter steps', 'include/dsp/biquad.hpp:step')],
 'Exhaustive over bounded models, coefficient sets, signals and histories, against the recursion in extended precision with a running bound on what rounding every operation may have added.')
# ---------------------------------------------------------------- matrix
prop('M01', 'Matrix arithmetic is linear algebra for every conforming shape',
 'Sums, differences, scalings and products of conforming matrices, rows, columns and scalars (square matrices for matrix-matrix and matrix-column products) yield exactly the linear-algebra result, for integer and real elements. '
 'Operands are never modified, also when the same object appears on both sides or receives the result, and computations that interrupt one another do not mix.',
 ['inputs'], 'all element values and conforming shapes, all aliasings',
 'The tests compute one example per operation, for 2x2 or 2x1 integers.',
 ['include/num/matrix.hpp'], [('operators', 'include/num/matrix.hpp')],
 'All operands within a few entry changes of dense bases (and all small 2x2 pairs), shapes 1x1 to 4x4 and vectors, compared with an independent reference.')
prop('M02', 'Transposition mirrors a matrix and the identity is neutral',
 'Transposing yields the matrix with rows and columns exchanged, twice gives the original back, and the transpose of a product is the product of the transposes in reverse order (row, column and 2x2 matrices). '
 'The identity matrix of any order leaves every matrix and vector it is multiplied with unchanged, and every identity created is fresh.',
 ['inputs'], 'all element values of the supported shapes',
 'The tests transpose one example per shape.', ['include/num/matrix.hpp'], [('transposition', 'include/num/matrix.hpp:transposed'), ('identity', 'include/num/matrix.hpp:eye')],
 'All matrices over small value sets, all pairs of 2x2 matrices over 4 (thorough 5) values.')
prop('M03', 'Inverting a regular matrix or scalar gives its inverse',
 'For every regular 2x2 matrix, symmetric or not, the inverse multiplied with the matrix from either side is the identity, and for every non-zero scalar the inverse is its reciprocal; a zero scalar inverts to zero. '
 'The operand is left unchanged.',
 ['inputs'], 'all regular 2x2 matrices, all scalars',
 'The tests invert one matrix and fix a wrong result for it; nothing multiplies back.', ['include/num/matrix.hpp'], [('inversion', 'include/num/matrix.hpp:inverted')],
 'All 2x2 matrices over small and wide-range value sets, exactly and in double and float; the transposed inverse of non-symmetric matrices is a listed known finding.')
prop('M04', 'Every access path of a matrix reads and writes the same cell',
 'A matrix holds in every cell exactly what was last assigned to it, whichever of the access forms (row and column, linear index, checked access, iteration, construction, assignment) wrote or reads it, and writing one cell changes no other. '
 'Cells an initializer list does not reach are zero; copies are independent of their source; dimensions never change; the text form lists the rows in order.',
 ['histories'], 'all sequences of writes, copies and reads',
 'The tests write once and read back through the same form.', ['include/num/matrix.hpp', 'include/num/matrix-io.hpp'], [('element access', 'include/num/matrix.hpp')],
 'All operation sequences of bounded length on two matrices of ten shapes, every cell read back through every path after every operation.')
# ---------------------------------------------------------------- fixed point
prop('F01', 'Fixed-point conversion is exact where it can be and nearest otherwise',
 'Converting a real number to fixed point stores the nearest representable value (ties away from zero) and converting an integer stores it exactly, whenever the result is in range. '
 'Converting a fixed-point value to a real number, to text or to its raw representation and back loses nothing, and to an integer truncates toward zero.',
 ['inputs', 'configurations'], 'all values of all formats of 8, 16 and 32 bit',
 'The tests convert a handful of values in two formats.', ['include/num/fixed-point.hpp', 'include/num/fixed-point-io.hpp'], [('constructors', 'include/num/fixed-point.hpp'), ('as, as_double', 'include/num/fixed-point.hpp')],
 'Every 8 and 16 bit value of every format, boundary and near-tie values (thorough: all 2^32 values of four formats) for 32 bit.')
prop('F02', 'Fixed-point arithmetic is the exact result rounded to the format',
 'For every pair of values of a fixed-point format, sum, difference and negation are exact, a product is the exact product rounded down and a quotient the exact quotient rounded toward zero to the resolution, whenever that result is in range, without losing intermediate bits. '
 'Compound assignment and mixing with integers or reals give the same values as the plain operators on converted operands.',
 ['inputs', 'configurations'], 'all pairs of values of all formats',
 'The tests compute one example per operator; overflow of an intermediate needs particular operand pairs.', ['include/num/fixed-point.hpp'], [('promotion for product and quotient', 'include/num/fixed-point.hpp:promote'), ('operators', 'include/num/fixed-point.hpp')],
 'All pairs in 8 bit, boundary x all (thorough: all pairs in three formats) in 16 bit, all boundary pairs in 32 bit, every format.')
prop('F03', 'Fixed-point comparison orders values as the numbers they represent',
 'All six comparisons of two fixed-point values of a format, or of a fixed-point value with an integer, agree with the comparison of the represented numbers, for every pair of values including the extremes of the format.',
 ['inputs'], 'all pairs of values of all formats', 'The tests compare a few small values.', ['include/num/fixed-point.hpp'], [('comparison operators', 'include/num/fixed-point.hpp')],
 'All pairs in 8 bit, boundary pairs and boundary x all otherwise, every format.')
prop('F04', 'Fixed-point expressions act only on the variable they assign',
 'In any sequence of fixed-point operations on several variables, each variable holds exactly the value the sequence assigned to it: operands are never changed, a compound assignment changes only its left side, also when both sides are the same variable, and the value of an expression is the value stored.',
 ['histories'], 'all operation sequences over shared variables', 'The tests apply single operators to temporaries.', ['include/num/fixed-point.hpp'], [('compound operators', 'include/num/fixed-point.hpp')],
 'All sequences of 4 (thorough 5) operations over two variables in five formats.')
# ---------------------------------------------------------------- biquad
prop('B01', 'Every biquad realization computes the difference equation',
 'For every set of coefficients and every input sequence, the output of a biquad filter equals b0*x[n] + b1*x[n-1] + b2*x[n-2] - a1*y[n-1] - a2*y[n-2], starting from rest, in each of its realizations (default, direct form 2, transposed) and for real, complex, integer and fixed-point numbers. '
 'Stable filters keep doing so over arbitrarily long runs.',
 ['inputs', 'histories'], 'all coefficients, all input sequences', 'The tests step one impulse through fixed coefficient sets.', ['include/dsp/biquad.hpp'], [('step functions', 'include/dsp/biquad.hpp:step')],
 'All coefficient sets within a few changes of four bases x all input sequences of length 5-7, exactly, in six number types; long runs against an extended-precision recursion.')
prop('B02', 'A biquad remembers exactly its own inputs since reset',
 'A biquad\'s output depends only on its coefficients and on the inputs it received itself since construction or its last reset: a reset filter behaves as new with the same coefficients, copies and assignments carry coefficients and signal history over and continue independently, swapping exchanges both completely, and observing or printing changes nothing. Filters whose steps interrupt one another do not influence each other.',
 ['histories'], 'all operation sequences over several filters', 'The tests use one filter and one operation at a time.', ['include/dsp/biquad.hpp'], [('state', 'include/dsp/biquad.hpp'), ('swap, reset', 'include/dsp/biquad.hpp')],
 'All sequences of 5 (thorough 6) operations of 11 kinds over two filters, in every realization, judged against the difference equation over each filter\'s own history.')
prop('B03', 'Biquad zeros, poles, gain, coefficients and stability agree',
 'A biquad built from zeros, poles and gain (each pair real or complex conjugate) has the coefficients of that transfer function, and the zeros and poles it reports are the roots of its numerator and denominator. '
 'It reports being stable exactly when both poles have magnitude at most one, which is when its impulse response stays bounded.',
 ['inputs'], 'all pole and zero pairs, all coefficients', 'The tests check one or two examples, none at or near the unit circle.', ['include/dsp/biquad.hpp'], [('root finding', 'include/dsp/biquad.hpp:solve'), ('conversion', 'include/dsp/biquad.hpp:to_coeff'), ('stability', 'include/dsp/biquad.hpp:is_stable')],
 'All pairs over a dyadic set of poles and zeros, the whole coefficient plane on a grid checked against the stability triangle and the running filter. Complex poles exactly on the unit circle are not decided (rounding).')
prop('B04', 'A biquad\'s reported response is what the running filter does',
 'The frequency response a biquad reports at any normalized frequency is its transfer function on the unit circle: a sinusoid of that frequency run through a stable filter comes out with exactly that gain and phase shift once settled.',
 ['inputs'], 'all coefficients, all frequencies', 'The tests evaluate the response of one filter at one or two frequencies.', ['include/dsp/biquad.hpp'], [('response', 'include/dsp/biquad.hpp:response')],
 'All coefficient sets of a bounded family x 65 frequencies, and all filters of a stable family run to steady state for every rational frequency with period up to 12 (24).')
# ---------------------------------------------------------------- cascade
prop('C01', 'A filter cascade is a bounded list of sections',
 'Appending, inserting, removing, replacing and clearing change the sections of a cascade exactly as they would change a list: order, count, capacity, coefficients and the signal history of every other section are preserved, replace hands back the previous section, and iteration visits exactly the current sections. '
 'Copies of a cascade are independent.',
 ['histories'], 'all sequences of container operations within capacity', 'The tests perform single operations on small cascades.', ['include/dsp/biquad-cascade.hpp'], [('container operations', 'include/dsp/biquad-cascade.hpp')],
 'All operation sequences of bounded length (5-7) at every position for capacities 1, 2, 3, 4 and 7, judged against a list of sections with their histories.')
prop('C02', 'A cascade filters a signal as its sections in series',
 'The output of a cascade is the input passed through all its current sections in order, in each realization, its response is the product of theirs, it is stable exactly when every section is, and resetting it resets every section; the empty cascade passes signals unchanged. '
 'This remains so when sections are added, removed or replaced in mid-signal.',
 ['inputs', 'histories'], 'all cascades, signals, reset points and edits', 'The tests run single-section or fixed cascades for a few samples.', ['include/dsp/biquad-cascade.hpp'], [('step, response, is_stable, reset over all sections', 'include/dsp/biquad-cascade.hpp')],
 'All cascades of up to 3 sections from a library of six, all short signals with a reset at every position, all bounded edit sequences.')
# ---------------------------------------------------------------- one-pole
prop('O01', 'A one-pole filter computes its recursion and reports its response',
 'For every coefficient pair and input sequence the output of a one-pole filter is b0*x[n] - a1*y[n-1] from its own inputs since construction or reset, with copies, swaps and resets acting on coefficients and history as a whole and observation changing nothing. '
 'The frequency response it reports is the gain and phase a settled sinusoid experiences.',
 ['inputs', 'histories'], 'all coefficients, inputs and operation sequences', 'The one-pole filter has no tests.', ['include/dsp/onepole.hpp'], [('step', 'include/dsp/onepole.hpp:step'), ('response', 'include/dsp/onepole.hpp:response')],
 'All operation sequences of bounded length over two filters x coefficient grid; all coefficients of a grid x frequencies.')
prop('O02', 'A one-pole filter\'s reported pole and stability are the true ones',
 'The pole a one-pole filter reports is the root of its denominator, its zero is at the origin, and it reports being stable exactly when the pole has magnitude at most one, in agreement with its running impulse response.',
 ['inputs'], 'all coefficients', 'The one-pole filter has no tests.', ['include/dsp/onepole.hpp'], [('solve', 'include/dsp/onepole.hpp:solve'), ('is_stable', 'include/dsp/onepole.hpp')],
 'Every coefficient on a fine grid, including both boundaries, each filter also run.')
# ---------------------------------------------------------------- design
prop('D01', 'Low, high, band-pass and band-stop designs realize their prototype',
 'For every corner frequency below half the sample rate and every quality factor, the designed second-order low-pass, high-pass, band-pass and band-stop filters are stable and have at every frequency the response of the corresponding analog prototype with the corner frequency exactly in place: unity gain where they pass, zero where they block, and gain Q (pass) at the corner of low and high pass. '
 'The dB gain parameter has no influence on them, and mixed and integer parameter types give the same design, at the precision of the widest of the types (float if all are integers).',
 ['inputs', 'configurations'], 'all corner frequencies, sample rates, quality factors and parameter types', 'There are no tests of filter design.', ['include/dsp/biquad-design.hpp', 'include/dsp/filter-design.hpp'], [('design methods', 'include/dsp/biquad-design.hpp'), ('prewarping', 'include/dsp/filter-design.hpp:prewarp')],
 'A grid of corner frequencies, rates, quality factors and parameter types, each design compared at 35 frequencies with the prototype.')
prop('D02', 'Shelving and peaking equalizers give exactly the requested gain',
 'A low-shelf, high-shelf or peaking design of G dB has a gain of G dB at DC, at half the sample rate or at its center frequency respectively and 0 dB at the opposite end(s), follows its second-order analog prototype in between, is stable, and a cut is the exact inverse of the boost of the same size; 0 dB leaves signals alone. Mixed and integer parameter types give the same design, at the precision of the widest of the types (float if all are integers).',
 ['inputs'], 'all gains, frequencies and quality factors', 'There are no tests of filter design.', ['include/dsp/biquad-design.hpp', 'include/dsp/filter-design.hpp'], [('design methods', 'include/dsp/biquad-design.hpp'), ('dB to factor', 'include/dsp/filter-design.hpp:dbV_factor')],
 'A grid of gains from -40 to 40 dB, frequencies, rates and quality factors, each compared at 34 frequencies with the prototype.')
prop('D03', 'Type 1 Chebyshev designs meet their pass- and stop-band specification',
 'A type 1 Chebyshev low- or high-pass design has the smallest order that can meet the given pass-band ripple and stop-band attenuation, stays within the ripple over the whole pass band and below the attenuation over the whole stop band, and has exactly the equiripple magnitude of that order at every frequency. '
 'The cascade made from it is stable, has all its sections, and its reported half-power frequency is where the power is half. Mixed and integer parameter types give the same design, at the precision of the widest of the types (float if all are integers).',
 ['inputs'], 'all specifications', 'There are no tests of filter design.', ['include/dsp/chebyshev-design.hpp'], [('type 1 design', 'include/dsp/chebyshev-design.hpp:chebyshev1_lp_hp_impl'), ('cascade creation', 'include/dsp/chebyshev-design.hpp:make_biquad_cascade')],
 'All specifications over a grid of edges, ripples, attenuations and rates (order up to 12, steep ones up to 60), each compared at 69 frequencies with the Chebyshev polynomial.')
prop('D04', 'Type 2 Chebyshev designs meet their pass- and stop-band specification',
 'A type 2 Chebyshev low- or high-pass design has the smallest order that can meet the given pass-band ripple and stop-band attenuation, stays within the ripple over the whole pass band and below the attenuation over the whole stop band, and has exactly the inverse-Chebyshev magnitude of that order at every frequency. '
 'The cascade made from it is stable, has all its sections, and its reported half-power frequency is where the power is half. Mixed and integer parameter types give the same design, at the precision of the widest of the types (float if all are integers).',
 ['inputs'], 'all specifications', 'There are no tests of filter design.', ['include/dsp/chebyshev-design.hpp'], [('type 2 design', 'include/dsp/chebyshev-design.hpp:chebyshev2_lp_hp_impl'), ('cascade creation', 'include/dsp/chebyshev-design.hpp:make_biquad_cascade')],
 'As for type 1, with the inverse-Chebyshev magnitude.')
prop('D05', 'One-pole designs pass at unity, attenuate monotonically and mirror',
 'A one-pole low-pass (high-pass) design is stable, has unit gain at DC (half the sample rate) and a magnitude falling monotonically towards the other end; it depends only on the ratio of frequency and sample rate, a higher frequency passes more (less), and the high-pass is the low-pass mirrored at a quarter of the sample rate. '
 'Integer and mixed parameter types give the same design, at the precision of the widest of the types (float if all are integers).',
 ['inputs'], 'all frequencies and sample rates', 'There are no tests of filter design.', ['include/dsp/onepole-design.hpp'], [('design methods', 'include/dsp/onepole-design.hpp')],
 'A grid of frequencies, rates and parameter types, each compared at 65 frequencies and run to steady state. The exact knee position is not specified by the repository and not checked.')
prop('D06', 'The ready-made low- and high-pass filters stream their design',
 'Each ready-made low- or high-pass filter, sample by sample, outputs what the second-order design for its corner frequency, sample rate and quality factor outputs for its own input so far; it passes or blocks constant and alternating inputs accordingly and settles at gain Q at the corner. '
 'Several filters used alternately, and copies, do not influence each other.',
 ['inputs', 'histories'], 'all parameters, all interleavings of several filters', 'There are no tests of these filters.', ['include/dsp/filter.hpp', 'include/dsp/biquad-design.hpp'], [('streaming operator', 'include/dsp/filter.hpp')],
 'All interleaved input sequences of length 6 (7) over two filters, every sample judged against an independent design and recursion; steady-state amplitudes over a grid.')
prop('D07', 'Decibel and frequency conversions are consistent',
 'Power and amplitude ratios convert to 10 and 20 times their decimal logarithm in dB, a dB figure converts to the factor (at least one, the sign of the figure being ignored) it stands for, and both directions are inverse to each other for real numbers. '
 'Frequency pre-warping yields the tangent of pi times the frequency-to-rate ratio for any parameter types.',
 ['inputs'], 'all levels, ratios and frequencies', 'There are no tests of these conversions.', ['include/dsp/filter-design.hpp'], [('conversions', 'include/dsp/filter-design.hpp')],
 'Fine grids of levels, ratios and frequencies in double, float and int, against extended precision.')
# ---------------------------------------------------------------- core, std
prop('R01', 'Counting ranges yield exactly their values, without drift',
 'A range from first to last yields first, first+step, first+2*step and so on, each once, as long as the value is below last, for any positive step, and nothing when first is not below last; without a step it counts by one up to a last that is a whole number of steps away, and without last it never ends. '
 'Real-valued ranges do not accumulate rounding error, a range can be traversed repeatedly and with pre- or post-increment, and iterator copies are independent positions.',
 ['inputs', 'histories'], 'all bounds, steps and value types', 'The tests traverse one range of each kind.', ['include/core/range.hpp'], [('range proxies and iterators', 'include/core/range.hpp')],
 'All integer ranges within bounds, dyadic and fractional real steps with long runs, endless ranges to 3000 (100000) items.')
prop('R02', 'Index ranges and text helpers do exactly what they say',
 'Index ranges of containers, arrays and lists visit 0 to size-1 in order, each once. '
 'Replacing text replaces the first occurrence only and leaves the rest and the source untouched, a line has exactly the requested length and character, and a list prints all its elements in order.',
 ['inputs'], 'all sizes, texts and patterns', 'The tests use one example each.', ['include/core/range.hpp', 'include/core/text.hpp', 'include/core/vector-io.hpp', 'include/core/shims.hpp'], [('indices', 'include/core/range.hpp:indices'), ('text helpers', 'include/core/text.hpp')],
 'All sizes up to 300 (2000), all texts up to 7 (9) letters over two letters with all patterns up to 3.')
prop('T01', 'Text output shows every value where it belongs',
 'Writing a matrix, fixed-point number, vector, filter or filter design to a stream writes every value, in order and in the number format the stream asks for: a matrix row by row on lines of its own, a fixed-point number as the number it represents, a filter with the coefficients, state, poles, zeros and stability it reports, a cascade with its size, capacity and sections in order. '
 'Writing hands the stream on, leaves its format as it was and changes nothing in the object.',
 ['inputs'], 'all values, shapes and stream formats', 'The tests write a few objects in the default format, to print them.', ['include/num/matrix-io.hpp', 'include/num/fixed-point-io.hpp', 'include/core/vector-io.hpp', 'include/dsp/biquad-io.hpp', 'include/dsp/biquad-cascade-io.hpp', 'include/dsp/onepole-io.hpp', 'include/dsp/chebyshev-design-io.hpp'], [('matrix', 'include/num/matrix-io.hpp:operator<<'), ('filters', 'include/dsp/biquad-io.hpp:operator<<')],
 'Exhaustive over bounded contents and stream formats: the numbers in the text, in order, are the object\'s values as the stream writes them one by one.')
prop('S01', 'Built-in copy, fill, equal and swap touch exactly their ranges',
 'The library\'s own copy, fill, equality and swap algorithms process exactly the elements of the given ranges, in order, return the position after the last element written, and work for any iterator kind, including overlapping copies to the left and values that live inside the filled range\'s array. '
 'Swapping moves values completely, also for an object with itself and for move-only types.',
 ['inputs'], 'all ranges, positions and contents', 'The tests cover one array each.', ['include/std/algorithm.hpp', 'include/std/utility.hpp'], [('algorithms', 'include/std/algorithm.hpp'), ('swap', 'include/std/utility.hpp')],
 'All source ranges and destinations within an array of 8, all pairs of sequences up to length 5 (6) over three values, list, stream and forward iterators.')
# ---------------------------------------------------------------- micro-controller
REG = ['include/mcu/register.hpp']
MCU = ['include/mcu/atmega328.hpp', 'include/mcu/register.hpp']
prop('U01', 'Accessing a register field affects that field alone',
 'Reading a bit field of a device register yields the field\'s current value and changes nothing; writing, setting, clearing or toggling it gives the field exactly the requested value, whatever the register held before. '
 'The other bits of the register keep their value and never change even for a moment, and no other register is accessed, for byte and word registers and every field position and width.',
 ['inputs', 'configurations'], 'all fields, register contents and values', 'The tests run on a PC and do not exercise the register layer at all.', REG,
 [('field access', 'include/mcu/register.hpp:bitfield_t'), ('access policies', 'include/mcu/register.hpp:detail')],
 'The compiled firmware runs on an instruction-level processor model; every field, register content and value; every device access is monitored.')
prop('U02', 'Combined register assignments take effect as one write',
 'Field assignments of one register that are joined by commas reach the register together, in a single write that gives each field its value and keeps the bits of no field; a later assignment of the same statement never undoes an earlier one. '
 'A lazily expressed assignment writes once per statement, statements take effect in program order, and values that fit their field never spill into a neighbour.',
 ['inputs', 'histories'], 'all combinations of fields, contents and values', 'The tests do not exercise the register layer.', REG,
 [('write proxies', 'include/mcu/register.hpp:write_proxy')],
 'All pairs and a family of larger combinations of fields, each for all 256 register contents and all values, run instruction by instruction with every device write monitored.')
prop('U03', 'Peripheral settings set and report what their names say',
 'Setting a timer, converter, comparator, EEPROM, two-wire, external interrupt or port option of the ATmega328P to a named value puts the bits the datasheet gives for it into the right register, reading the option back yields that value, and every other option of the device keeps its value, except that interrupt flags of the same register may be cleared. '
 'Word-sized values are written and read in the byte order the hardware requires, and all register names denote the device\'s addresses.',
 ['inputs', 'configurations'], 'all settings, values and register contents', 'The tests do not exercise the peripheral layer.', MCU,
 [('peripherals', 'include/mcu/atmega328.hpp'), ('fields', 'include/mcu/register.hpp:bitfield_t')],
 'Every setting x every named value x all contents of its register x several contents of all others, against a table made from the datasheet.')
prop('U04', 'Clearing an interrupt flag clears that flag and no other',
 'Reading an interrupt flag reports whether it is pending; clearing it clears that flag only, whatever else is pending in the same register, and a flag that rises while another is being cleared is not lost. '
 'Waiting for a flag ends when it rises, and forcing a compare match strobes the right channel without changing settings.',
 ['inputs', 'schedules'], 'all flags, all pending combinations, all moments another flag may rise', 'The tests do not exercise the peripheral layer.', MCU,
 [('interrupt flags', 'include/mcu/atmega328.hpp'), ('clear by writing one', 'include/mcu/register.hpp:clearbit_w1_t')],
 'Every flag x all register contents; every pair of flags with the second rising before every instruction of the clearing function.')
prop('U05', 'Values shared with an interrupt are never torn',
 'An atomically read value that an interrupt handler changes is one the variable really had, and an atomically written value is seen by the handler either completely or not at all, for integer, floating-point and structure types of any size, wherever the interrupt strikes. '
 'The same holds for 16-bit device registers that share the temporary register with those a handler uses, an interrupt is delayed but not lost, and interrupts are enabled again afterwards; the status register guard restores the status it found.',
 ['schedules'], 'all moments at which interrupts can strike', 'No test can place an interrupt at each instruction; the tests do not exercise this layer.', MCU,
 [('atomic access', 'include/mcu/register.hpp:atomic'), ('status register guard', 'include/mcu/atmega328.hpp:scoped_sreg'), ('interrupt guard', 'include/mcu/register.hpp:scoped_interrupt_guard')],
 'All placements of up to two interrupts at the instruction boundaries of each access, on three optimization levels.')
prop('U06', 'A two-wire write follows the protocol and reports its outcome',
 'A blocking two-wire write of a byte to an address performs start, address with the write bit, data byte and stop in this order, each only after the previous one is complete, and reports success exactly if all of them were acknowledged; after a step that failed it sends nothing more but a stop. '
 'However long each step takes, no command interrupts a running transfer, and initialization sets rate, prescaler, pull-ups and enable bits as requested while leaving other pins alone.',
 ['inputs', 'histories'], 'all addresses, bytes, bus answers and delays', 'The tests do not exercise the peripheral layer; a bus cannot be made to answer in every way.', MCU,
 [('blocking transfer', 'include/mcu/atmega328.hpp:twi'), ('initialization', 'include/mcu/atmega328.hpp:twi')],
 'All addresses, bytes, all 32^3 status sequences and delays on a model of the bus interface.')
prop('U07', 'Pins, LEDs, ports and the PWM output drive exactly their pin',
 'Switching, toggling, enabling or reading a pin or LED acts on the pin it names and on no other, whatever the port holds; an input reads the level at the pin and an output can be read back. '
 'The PWM output is set up for the requested waveform and outputs each value unchanged, leaving other pins and timers alone.',
 ['inputs', 'histories'], 'all pins, register contents, levels and sequences', 'The tests do not exercise the peripheral layer.', MCU,
 [('pins and ports', 'include/mcu/atmega328.hpp'), ('PWM', 'include/mcu/atmega328.hpp:pwm')],
 'All pins x operations x register contents, all short sequences over several LEDs, all PWM values.')
prop('X01', 'Fixed-point numbers behave on the micro-controller as on a PC',
 'On the AVR target, with its 16-bit int and 32-bit double, fixed-point construction, conversion, arithmetic, comparison and limits yield exactly the values they yield on a PC: results are exact up to the format\'s rounding, for every format and every operand whose result fits the format.',
 ['inputs', 'configurations'], 'all operands, formats and operations on the target', 'The tests run on a PC only; integer promotion and floating point differ on the target.', ['include/num/fixed-point.hpp', 'include/std/limits.hpp', 'include/std/type_traits.hpp'],
 [('arithmetic', 'include/num/fixed-point.hpp'), ('limits on AVR', 'include/std/limits.hpp')],
 'Compiled firmware on the processor model against exact integer arithmetic: all pairs for 8 bit, boundary pairs for 16 and 32 bit.')
prop('X02', 'The Kalman estimator keeps to its recursion on the micro-controller',
 'On the AVR target, in 32-bit floating point, every update yields the state estimate, gain, covariance and time of the textbook predict/correct recursion as far as single precision can resolve them, for every regular model and every history, also over long runs. '
 'Several estimators on the device do not influence each other, and a copy continues from the state it was copied from.',
 ['inputs', 'histories'], 'all models and histories, on the target', 'The tests run on a PC and do not cover the estimator.', ['include/dsp/kalman.hpp', 'include/num/matrix.hpp', 'include/std/utility.hpp', 'include/std/algorithm.hpp'],
 [('predict and correct', 'include/dsp/kalman.hpp:update'), ('matrix algebra', 'include/num/matrix.hpp')],
 'The compiled firmware on the processor model, against the recursion in exact arithmetic.')
prop('X03', 'Matrices and the std replacements work on the micro-controller as on a PC',
 'On the AVR target, matrix construction, access, arithmetic, products, transposition and inversion give the values they give on a PC for 8-, 16- and 32-bit integers, floating point and fixed point. '
 'The replacements of the C++ standard library used there (copy, fill, equal, swap, move, initializer lists, integer limits, type traits, construction and assignment of complex numbers) behave as the originals do.',
 ['inputs', 'configurations'], 'all operands, ranges and types on the target', 'The tests run on a PC, where the originals are used instead of the replacements.', ['include/num/matrix.hpp', 'include/std/algorithm.hpp', 'include/std/utility.hpp', 'include/std/limits.hpp', 'include/std/type_traits.hpp', 'include/std/complex.hpp'],
 [('matrix operations', 'include/num/matrix.hpp'), ('std replacements', 'include/std')],
 'The compiled firmware on the processor model, against plain host arithmetic.')
prop('X04', 'Fixed-point estimation on the micro-controller equals that on a PC',
 'On the AVR target, an estimator in fixed-point arithmetic reports bit for bit the state estimate, gain, covariance and time that it reports on a PC for the same model and the same history, for 16- and 32-bit formats, and they lie within the rounding of its operations of the recursion. '
 'Two estimators on the device do not influence each other, and a copy continues from the state it was copied from.',
 ['inputs', 'histories'], 'all models and histories, on the target', 'The tests run on a PC and do not cover the estimator.', ['include/dsp/kalman.hpp', 'include/num/fixed-point.hpp', 'include/num/matrix.hpp', 'include/std/limits.hpp'],
 [('predict and correct', 'include/dsp/kalman.hpp:update'), ('fixed-point operators', 'include/num/fixed-point.hpp'), ('wide intermediate type', 'include/num/fixed-point.hpp')],
 'The compiled firmware on the processor model, against the same estimator on the host and the recursion with a running rounding bound.')
prop('E01', 'The AVR example programs do what they announce, whenever interrupts strike',
 'The ADC-to-DAC example, built from the library\'s register layer and run from reset, sets up LED, converter, PWM and a heartbeat of exactly one millisecond; toggles the LED exactly six times at 100 ms; then lights it each 100 ms while the result lies in the upper half, puts it off each second, and each second passes the latest result, limited to what the PWM accepts, to the PWM output. '
 'No interrupt of heartbeat or converter, at any instruction, makes it act on a mixed value, act twice, miss a turn, or stop. The two smaller interrupt examples toggle the LED each second, and light it while the result lies in the upper half.',
 ['schedules'], 'all moments of interrupts, on the target', 'The examples are only compiled; the tests run on a PC without interrupts.', ['include/mcu/atmega328.hpp', 'include/mcu/register.hpp', 'example/avr/avr-adc-dac-isr-atmega.e.cpp', 'example/avr/avr-adc-isr.e.cpp', 'example/avr/avr-blink-led-isr.e.cpp'],
 [('atomic access', 'include/mcu/atmega328.hpp:atomic'), ('status register', 'include/mcu/atmega328.hpp:scoped_sreg'), ('mailboxes', 'example/avr/avr-adc-dac-isr-atmega.e.cpp'), ('converter, timer and pin registers', 'include/mcu/atmega328.hpp')],
 'The compiled examples on the processor and device model, with ticks and conversions before every instruction.')
