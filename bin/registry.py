"""What each check runs: explorers (source, flags), bounds in words, assumptions."""
EXACT = dict(flags=['-DNUMTYPE=Rat'], fallback=[['-DNUMTYPE=double']])
PLAIN = dict(fallback=[['-DPLAIN_TYPES']])

CHECKS = {
 'K01': dict(explorers=[dict(name='kalman-recursion', src=['K01.cpp'], **EXACT)],
   bounds='units of signals, covariances, measurements, state and controls changed by 2^-200..2^200 over all models within one change (thorough two) of a base; models: 3 base models x all changes of at most 2 (thorough 3) entries over 8 values, 3 updates each; all input histories of length 3 '
          '(thorough 4) over 12 (control, measurement) symbols; all 3^4 dynamics x 3^(2M) outputs; 700 (thorough 5000, for some 70000) step runs under every '
          'input of period 2; system order 2, 1-2 measurements, 1-2 controls',
   assumptions=['system order 2 (the only order the library implements inversion/transposition for)']),
 'K02': dict(explorers=[dict(name='kalman-covariance', src=['K02.cpp'], **EXACT)],
   bounds='models: 3 base models x all changes of at most 2 (thorough 3) entries over 8 values within the covariance domain, 3 steps, two data histories each, exact; '
          'all data sequences of length 3 over up to 20 symbols against the zero-data run; five pairs of data sizes 1e-30..1e30; sizes 2^-120..2^120 of P, Q, R and data, exact; 400 (thorough 3000, for the bases 70000) step runs of every model one change from a base, in double, and half as long with covariances 2^-200..2^200, against the zero-data run',
   assumptions=['positive semidefinite noise and initial covariances', 'system order 2']),
 'K03': dict(explorers=[dict(name='kalman-isolation', src=['K03.cpp'], **EXACT)],
   bounds='all preemptions of each of 8 kinds of computation at each of its operations (2100 to 3100 per shape) by each other one, 4 shapes; all sequences of 5 (thorough 6) operations over three estimators (update with two symbols, read, copy, rebuild), each estimator compared bit for bit with a '
          'fresh one fed its own history and with one in a process of its own; pairs of models that differ in one entry (6 values) x all orders of 2+2 (3+3) updates; up to 257 live and 256 gone estimators x up to 300 updates x 4 orders; 11 time steps x 14 update counts up to 70000 x argument overwriting'),
 'K04': dict(explorers=[dict(name='kalman-degenerate', src=['K04.cpp'], **EXACT)],
   bounds='all 3^4 dynamics x 3^2 outputs x 2^5 covariances (noise-free sensor) x controls x 3 measurements, 3 steps; 5 reasons for a zero innovation covariance x sizes 2^-200..2^200 (float 2^-30..2^30) of state, control and covariance; noise-free sensors of all models within 2 (thorough 3) entry changes of the bases x those sizes; 60 updates of 8 dynamics x 25 outputs x 36 covariances x 3 correlations; exact, double, float'),
 'K05': dict(explorers=[dict(name='fixed-point-estimator', src=['K05.cpp'])],
   bounds='7 estimator shapes and formats (32 bit with 15 and 20 fractional bits, 16 bit with 8; 1-2 measurements and controls): 3 base models x all changes of at most 3 (thorough 4) entries over 6 values, 4 updates each; all histories of length 4 (5) over the control and measurement lists; '
          'runs of 2000 (20000, for some 70000) steps for 100 constant inputs in three formats; sections within 3 (4) changes over 8 coefficients x all signals of 4 samples over 4 values; all cascades of up to 3 sections from 4 x all signals of 6 (7) samples; one-pole: 64 coefficient pairs x all signals of 6 samples; three formats',
   assumptions=['runs in which a value leaves a quarter of the format, or in which rounding may amount to a quarter of a value, are excluded']),
 'M01': dict(explorers=[dict(name='matrix-arithmetic', src=['M01.cpp'], **PLAIN)],
   bounds='all preemptions of 19 kinds of computation at each of their steps by each other, 2x2 and 3x3; row times rectangular matrix; numbers only the whole of a 32- or 64-bit integer, double or long double holds, within 2 changes; real elements scaled by 2^-300..2^300 (float 2^-40..2^40); operand families: dense and zero bases with all changes of at most 2 (thorough 3) entries over 5 values, for exact, double, float, int, int8; '
          'all 2x2 products over a 3-value domain; shapes 1x1..4x4, rows and columns up to 8; all aliased forms; 25 larger shapes (up to 33x33, 260x260, 70000x1, 1x70000) with a cell of either operand changed'),
 'M02': dict(explorers=[dict(name='matrix-transpose', src=['M02.cpp'], **PLAIN)],
   bounds='all matrices of at most 5 elements over 5 values, larger ones within 3 entry changes of a dense base; all pairs of 2x2 matrices over 4 (thorough 5) values; rows and columns of up to 70000, identities of up to 130; extreme values of 8 number types'),
 'M03': dict(explorers=[dict(name='matrix-inverse', src=['M03.cpp'], **PLAIN)],
   bounds='units of the coordinates 2^-220..2^220, scalars 2^-1000..2^1000; all 2x2 matrices over 8 (thorough 12) values, all over a wide-range domain of 7 values, B*B\'+D innovation covariances over 5 values; exact, double, float; scalars: 81 binary exponents x 9',
   assumptions=['matrices with a determinant that the element type can resolve (relative size above 1/1000 for double and float)']),
 'M04': dict(explorers=[dict(name='matrix-access', src=['M04.cpp'], **PLAIN)],
   bounds='all sequences of up to 3 (thorough 4) operations (12 kinds x every cell) on two matrices, every cell read back through every access path after every operation; 10 shapes; extreme and special values of 9 number types through 10 ways of writing; 20 larger shapes (up to 300x300, 70000x1) written through each access path, copied, moved, printed'),
 'F01': dict(explorers=[dict(name='fixed-conversion', src=['F01.cpp'])],
   bounds='8 and 16 bit: every value of every format; 32 bit: boundary values of every format (thorough: all 2^32 values of four formats), near-tie reals for each'),
 'F02': dict(explorers=[dict(name='fixed-arithmetic', src=['F02.cpp'])],
   bounds='8 bit: all pairs in every format; 16 bit: boundary x all (thorough: all 2^32 pairs for three formats); 32 bit: all pairs of boundary values; results outside the format excluded'),
 'F03': dict(explorers=[dict(name='fixed-order', src=['F03.cpp'])],
   bounds='8 bit: all pairs in every format; 16 and 32 bit: all pairs of boundary values, boundary x all'),
 'F04': dict(explorers=[dict(name='fixed-sequences', src=['F04.cpp'])],
   bounds='all sequences of 4 (thorough 5) operations of 12 kinds over two variables, aliased or not, from 3 starts, 5 formats; sequences that leave the format excluded'),
 'B01': dict(explorers=[dict(name='biquad-recursion', src=['B01.cpp'], **PLAIN)],
   bounds='inputs and gains of 2^-200..2^200 (float 2^-100..2^100), coefficients of 2^-100..2^60; coefficient sets within 3 (thorough 4) changes over 6 values of 4 bases x all input sequences of length 5-6 (5-7) over 3 values; 7 number types; long runs of 1500 (20000, for some 70000) steps over a family of 64 stable filters and all inputs of period up to 3'),
 'B02': dict(explorers=[dict(name='biquad-isolation', src=['B02.cpp'], **PLAIN)],
   bounds='all preemptions of 10 kinds of computation at each of their operations by each other; all sequences of 5 (thorough 6) operations of 11 kinds over two filters, 3 realizations, double and float; 3 (4) operations of 8 kinds for int, long long, long double, fixed point and complex; 20 coefficient sets of sizes 1e-30 to 1e9 x histories of 9 lengths up to 300 (11, up to 5000; for some 70000) of sizes 2^-100..2^100, then each of 9 ways to reset, copy, assign, swap, move or observe; up to 300 filters at once'),
 'B03': dict(explorers=[dict(name='biquad-zpk', src=['B03.cpp'])],
   bounds='quadratics in units of 2^-150..2^150; all real and conjugate pairs over 7 real and 4 imaginary parts, gains 2 (4); coefficient plane [-2.5,2.5]x[-2,2] in steps of 1/16 (1/64), two numerators; poles 2^-2..2^-40 inside and outside the circle; 600 quadratics', assumptions=['complex poles closer to the unit circle than 2^-41, or on it, are not decided']),
 'B04': dict(explorers=[dict(name='biquad-response', src=['B04.cpp'])],
   bounds='coefficient sets within 2 (3) changes of 3 bases x 73 frequencies; 45 stable filters x all frequencies of period up to 12 (24), run for 600 steps'),
 'C01': dict(explorers=[dict(name='cascade-list', src=['C01.cpp'])],
   bounds='all sequences of 5-6 (thorough 6-7) enabled operations at every position, capacities 1, 2, 3, 4, 7; cascades of up to 300 sections x 1-2 (2-3) operations at every position, with a section of the cascade itself as the argument; sequences of 4-5 (5-6) operations on sections that differ in nothing but their history; two cascades of capacity 1-3 in any state x all sequences of 3-4 (4-5) operations with assignments, copies, moves and swaps between them'),
 'C02': dict(explorers=[dict(name='cascade-signal', src=['C02.cpp'], **PLAIN)],
   bounds='all preemptions of 12 kinds of computation at each of their operations by each other; inputs and gains of 2^-200..2^200; int, long double, fixed-point and complex cascades of up to 3 sections; all cascades of up to 3 sections from 6, signals of length 4-5 (5-6) over 3 values, reset at every position, 3 realizations; all edit sequences of 6 (7) steps; cascades of up to 300 sections over up to 1200 (6000; up to 2 sections 70000) samples'),
 'O01': dict(explorers=[dict(name='onepole-recursion', src=['O01.cpp'], **PLAIN)],
   bounds='inputs and gains of 2^-200..2^200, coefficients of 2^-100..2^60; 35 coefficient pairs x all sequences of 4-5 (5-6) operations of 9 kinds over two filters; all preemptions of 6 kinds of computation; 25 pairs x 4 (5) operations for int, long long, long double, fixed point and complex; 315 coefficient pairs x 49 frequencies; steady state for every frequency of period up to 12; histories of up to 300 (5000; for some 70000) inputs of all sizes before reset, copy, swap; up to 300 filters at once'),
 'O02': dict(explorers=[dict(name='onepole-pole', src=['O02.cpp'])],
   bounds='coefficient in [-3,3] in steps of 1/256 (1/4096), 3 gains, double and float; coefficients of all sizes and the neighbours of one; 60 linear equations and those of sizes 2^-200..2^200'),
 'D01': dict(explorers=[dict(name='design-basic', src=['D01.cpp'])],
   bounds='17 frequency ratios (1e-5 to 0.499) x 13 quality factors (0.001 to 10000) x 7 rates (1e-6 to 1e9) x 3 gains x 3 parameter typings x 4 kinds, 35 frequencies each; whole-number and float parameters with a real one in each place; thorough: 498 x 41 fine grid'),
 'D02': dict(explorers=[dict(name='design-shelf', src=['D02.cpp'])],
   bounds='43 (171) gains (0, 0.001 to 90 dB) x 13 frequency ratios x 9 quality factors (0.001 to 10000) x 2 rates x 3 kinds, 34 frequencies each; 2200 whole-number parameter sets in 8 typings'),
 'D03': dict(explorers=[dict(name='chebyshev-1', src=['D03.cpp'])],
   bounds='12x12 band edges x 7 ripples x 8 attenuations x 2 (5) rates, order up to 12, 69 frequencies each; 864 steep designs, order up to 60; integer, float and mixed parameters, a real one in each place; thorough: 48x48 edges x 8 x 8', assumptions=['specifications whose exact order is within 1e-3 of an integer are excluded']),
 'D04': dict(explorers=[dict(name='chebyshev-2', src=['D04.cpp'])],
   bounds='12x12 band edges x 7 ripples x 8 attenuations x 2 (5) rates, order up to 12, 69 frequencies each; 864 steep designs, order up to 60; integer, float and mixed parameters, a real one in each place; thorough: 48x48 edges x 8 x 8', assumptions=['specifications whose exact order is within 1e-3 of an integer are excluded']),
 'D05': dict(explorers=[dict(name='onepole-design', src=['D05.cpp'])],
   bounds='53 frequency ratios x 6 rates x 2 kinds x 4 parameter typings; 110 whole-number sets with a real one in either place; 400 (2000) ratios x 3 rates for mirror, scale and order'),
 'D06': dict(explorers=[dict(name='ready-made', src=['D06.cpp'])],
   bounds='units of signal and time 2^-200..2^200; 24 filters x 2 partners x all interleaved input sequences of length 6 (7) over 3 values; 64 designs run to steady state at 3 frequencies; 84 designs (f/fs 0.002 to 0.49, Q 0.02 to 30) over runs of up to 5000 (for some, thorough for all, 70000) samples; up to 300 filters at once'),
 'D07': dict(explorers=[dict(name='conversions', src=['D07.cpp'])],
   bounds='0 to 120 dB in steps of 0.05 (0.005), 81 x 41 and 121 x 121 ratios (2^-840..2^840), 0 to 2400 dB at the far ends, 503 frequency ratios x 6 rates; double, float and int'),
 'R01': dict(explorers=[dict(name='ranges', src=['R01.cpp'])],
   bounds='all integer ranges within +-40 (+-120), steps to 20 (60), 5 value types; fractional steps, up to 280 (7400) items; endless ranges to 3000 (100000) items; mixed argument types; all ranges of 8-bit types with 15 (all) steps; ranges ending at the limits of 6 wider types; real ranges of sizes 2^-1000..2^900 with four ends; up to 100000 items; float ranges of more than 2^24 items'),
 'R02': dict(explorers=[dict(name='indices-text', src=['R02.cpp'])],
   bounds='container sizes below 300 (2000) and 23 up to 1000000, ten array sizes; all texts of up to 7 (9) letters over 2 letters x all patterns of up to 3 x 5 replacements; texts of up to 70000 letters, any bytes; lines to 199 and eleven up to 70000'),
 'T01': dict(explorers=[dict(name='text-output', src=['T01.cpp'])],
   bounds='6 stream formats x all 8-bit and 16-bit fixed-point numbers of 4 formats, vectors of up to 4 (thorough 5) of 6-9 values, matrices of 11 shapes and 6 types with any two entries changed, filters within 2 changes of 5 and up to 3 steps, all cascades of up to 3 sections from 5'),
 'S01': dict(explorers=[dict(name='algorithms', src=['S01.cpp'])],
   bounds='all source ranges x destinations in an array of 8; all pairs of sequences of up to 5 (6) elements over 3 values; 31 lengths from 9 to 70000, five containers and five element types, six places of a difference'),
}
def AVR(name, src, firmware, **k):
    return dict(name=name, src=[src], kind='avr', firmware=firmware, **k)

SIMULATED = ['the instruction-level ATmega328P model (harness/avrsim.hpp) and its device model; the model is itself checked against the host\'s arithmetic and the datasheet\'s flag rules by the self-test explorer of X01', 'firmware compiled by the installed avr-g++ with the flags of the project\'s own build (-O2)']
CHECKS.update({
 'U01': dict(explorers=[AVR('register-fields', 'U01.cpp', ['fields'])],
   bounds='all 36 fields of three byte registers x all 256 contents x all field values, read, write, set, clear, toggle; all fields of a word register x boundary contents and values; every device access of every instruction monitored', assumptions=SIMULATED),
 'U02': dict(explorers=[AVR('combined-writes', 'U02.cpp', ['combine-pairs', 'combine-more'])],
   bounds='all pairs of disjoint fields of up to three bits and a family of triples and wider fields x all 256 contents x all values that fit; statement sequences over two registers', assumptions=SIMULATED),
 'U03': dict(explorers=[AVR('settings', 'U03.cpp', ['settings', 'names'])],
   bounds='every setting of the register layer x every named value x all 256 contents of its register x three contents of all other device registers; all pairs of settings in one register; all 16-bit values of the word registers within boundary contents', assumptions=SIMULATED),
 'U04': dict(explorers=[AVR('flags', 'U04.cpp', ['flags', 'names'])],
   bounds='every interrupt flag x all 256 contents x three contents of the other device registers; every pair of flags with the second rising before any instruction of the clearing function; all strobes; polling with every delay', assumptions=SIMULATED),
 'U05': dict(explorers=[AVR('atomic', 'U05.cpp', ['atomic', ('atomic-s', ['-Os']), ('atomic-3', ['-O3'])], fwsrc={'atomic-s': 'atomic', 'atomic-3': 'atomic'})],
   bounds='13 kinds of variable x 3 value sets; up to two interrupts, each at every instruction boundary; reads, writes, two accesses in a row, waiting loops; OCR1A and PWM value against an interrupt that writes OCR1B; three optimization levels; status register: all 256 x 256 contents',
   assumptions=SIMULATED + ['interrupts are enabled when atomic() is used (it enables them at the end)']),
 'U06': dict(explorers=[AVR('two-wire', 'U06.cpp', ['twi'])],
   bounds='every address x every byte; all 32^3 status sequences; all delays of up to 6 polls per step; two writes in a row; all bit rates x prescalers x port contents of the initialization', assumptions=SIMULATED + ['after a failed step nothing but a STOP may follow; the state of the bus after it is not specified']),
 'U07': dict(explorers=[AVR('pins', 'U07.cpp', ['pins'])],
   bounds='all 23 pins x 15 operations x all 256 register contents (and outside levels) x three contents of the other device registers; all sequences of 4 (5) operations over four LEDs; all ports; PWM: initialization from every register content, all 65536 values', assumptions=SIMULATED),
 'X01': dict(explorers=[AVR('avr-fixed', 'X01.cpp', ['fixed']), AVR('avr-selftest', 'A00.cpp', ['selftest'])],
   bounds='8 bit formats: all pairs; 16 and 32 bit: all pairs of boundary values; conversions from and to every integral type and float; running sums of 3 (4) operations; and 8-, 16-, 32-bit and float arithmetic of the simulated processor against the host', assumptions=SIMULATED),
 'X02': dict(explorers=[AVR('avr-kalman', 'X02.cpp', ['kalman'])],
   bounds='models: 3 base models x all changes of at most 2 (thorough 3 for one measurement) entries over 6 values, 3 updates each; all histories of length 3 (4) over 12 symbols; all sequences of 4 (6) operations over two estimators; runs of 250 (1500) steps under every input of period 2; 6 (48) runs of 33500 (140000) steps; system order 2, 1-2 measurements and controls',
   assumptions=SIMULATED + ['models whose recursion 32-bit floating point can resolve to 1e-4; compared to within 2e-3']),
 'X04': dict(explorers=[AVR('avr-kalman-fixed', 'X04.cpp', [('kalman-fixed-32', ['-DKF_T=int32_t', '-DKF_F=15']), ('kalman-fixed-16', ['-DKF_T=int16_t', '-DKF_F=8'])],
        fwsrc={'kalman-fixed-32': 'kalman-fixed', 'kalman-fixed-16': 'kalman-fixed'})],
   bounds='32 bit with 15 fractional bits (1-2 measurements and controls), 16 bit with 8: 3 base models x all changes of at most 2 (thorough 3) entries over 6 values, 3 updates each; all sequences of 4 (6) operations over two estimators; runs of 200 (2000) steps for 100 constant inputs, 6 (16) of 33500 (140000) steps',
   assumptions=SIMULATED + ['runs in which a value leaves a quarter of the format, or in which rounding may amount to a quarter of a value, are excluded']),
 'X03': dict(explorers=[AVR('avr-matrix-std', 'X03.cpp', ['shims'] + [('matrix-' + n, ['-DELEMENT=%s,%s' % (n, t)] + (['-DREAL'] if n == 'f' else []))
        for n, t in (('i8', 'int8_t'), ('i16', 'int16_t'), ('i32', 'int32_t'), ('f', 'float'), ('x', 'fx'))], fwsrc={'matrix-' + n: 'matrix' for n in ('i8', 'i16', 'i32', 'f', 'x')})],
   bounds='78 matrix operations x 5 element types: operands of up to 8 elements in all assignments of 3 values (thorough up to 6 elements of 5 values), larger ones within 2 (3) changes of a dense base; all symmetric 2x2 inverses over 10 values; std: all ranges within an array of 16, all integer limits, 32 type-trait statements', assumptions=SIMULATED),

 'E01': dict(explorers=[AVR('adc-to-dac', 'E01.cpp', ['example', 'example-adc', 'example-blink'])],
   bounds='the example from reset: settings; the six toggles and 100 ms and 1 s ticks of the two seconds after, with the tick before every instruction of several rounds of the main loop x one or two conversions finishing at every instruction of the handling x 12 pairs of results; 2.4 (5.4) seconds on end for 6 tick rates x 12 conversion rates x 3 input ramps; the two smaller interrupt examples',
   assumptions=SIMULATED + ['a tick is handled before the next one of its own mailbox; time is counted in instructions']),
})
NOT_APPLICABLE = {}
