HOOKS = None
NA = {}
T = 'The repository has one smoke program without assertions: '
PROPS = [
dict(id='C01', title='Parametrised CRC equals its mathematical definition for every message',
 statement='For every width (8, 16, 32), polynomial, initial value, reflection setting, final xor and every non-empty message, the generic CRC returns exactly the remainder the parametrised CRC definition prescribes, reading only the message. Null data, zero length or an unsupported width yields 0 without touching memory. Omitted parameters mean initial value 0, no reflection and no final xor.',
 over=['inputs', 'configurations'], text='all messages of any length, all parameter sets, all three widths',
 why=T + 'it prints a few CRCs of one fixed message and checks nothing; the claim quantifies over all messages and 2^96 parameter sets.',
 files=['src/crc.cpp', 'src/include/crc.hpp'], mech=[('crc::generic', 'src/crc.cpp'), ('crc::reflect', 'src/crc.cpp')],
 note='crc::generic and reflect under contract for symbolic message length; loop over bytes by an inductive invariant against a bit-serial specification; the fixed 8/32-step inner loops are unrolled completely.'),
dict(id='C02', title='Every named CRC function implements its published algorithm',
 statement='Each named CRC convenience function, for every message, returns what the generic CRC returns with the width, polynomial, initial value, reflection flags and final xor published for that algorithm, and reproduces the published check value for the standard message.',
 over=['inputs', 'configurations'], text='all 42 named variants, all messages of any length',
 why=T + 'only some variants are called on one message and nothing is compared; a wrong constant in any variant goes unnoticed.',
 files=['src/include/crc.hpp', 'src/crc.cpp'], mech=[('named variants', 'src/include/crc.hpp')],
 note='Every variant is proved to call the generic CRC with the catalogue parameters (modular: generic replaced by its contract, proved in C01), for all messages; check values evaluated on the real code.'),
dict(id='C03', title='Bit-field operations read and write exactly the bits they name',
 statement='Over an area of any whole number of 32-bit words with any contents, each single-bit, n-bit (1..32) and float write changes exactly the addressed bits to the given value and no other bit, each read returns the bits currently stored (positions past the end read as 0), and bulk set, clear and dump affect or copy every bit. No operation on an in-range index touches memory outside the area. An unconfigured field refuses every operation.',
 over=['inputs', 'histories', 'configurations'], text='all area sizes, contents, indices, widths and values; one arbitrary operation from an arbitrary state, hence every history',
 why=T + 'it exercises a handful of indices; word-straddling accesses at every offset and the last word are never compared.',
 files=['src/bitfield.cpp', 'src/include/bitfield.hpp'], mech=[('read_uint32/write_uint32 word straddling', 'src/bitfield.cpp'), ('set/clear/toggle/mask', 'src/include/bitfield.hpp')],
 note='Every public operation proved bit-precisely for symbolic area size, contents, index, width and value, with memory-safety and UB obligations. Area size assumed a multiple of 4 bytes (what bitArea yields), index in range.'),
dict(id='C04', title='A delay line always holds exactly the last n samples in order',
 statement='A tapped delay line of any length n, after any sequence of insertions starting from its setup or flush value, returns at tap i the sample inserted i insertions ago (the setup value when fewer were inserted), with tap 0 the newest, tap n-1 the oldest and the oldest accessor agreeing. An index past the end yields the out-of-range answer of the line, never memory outside the area. Flush refills every tap.',
 over=['histories', 'inputs', 'configurations'], text='all lengths, all contents, every sequence of insertions and flushes (inductive representation invariant)',
 why=T + 'it inserts a few samples; the claim is about every history, every length (also one) and the wrap-around of the ring.',
 files=['src/tdl.cpp', 'src/include/tdl.hpp'], mech=[('insertNewest ring head/tail', 'src/tdl.cpp'), ('getAtIndex', 'src/tdl.cpp')],
 note='Representation invariant of the ring established by setup/flush and preserved by insertSample for unbounded n; reads proved against the logical history. Internal (field-level) harnesses carry the invariant; black-box histories also evaluated natively.'),
dict(id='C05', title='Q16.16 arithmetic is correctly rounded or flagged as overflow',
 statement='For all operands, fixed-point addition, subtraction, negation, increment and decrement give the exact result, multiplication and division by a non-zero operand give the nearest representable value (ties away from zero), and whenever the true result is not representable the overflow indication is returned instead of a wrapped value. Comparisons order the represented numbers. Compound assignments agree with the plain operators and operands are never changed otherwise.',
 over=['inputs'], text='all 2^64 operand pairs (overflow operand excluded for division)',
 why=T + 'it prints a few sums and products; the rounding and overflow boundaries are a vanishing fraction of 2^64 pairs.',
 files=['src/fp16.cpp', 'src/include/fp16.hpp'], mech=[('fp16::mul cross products and rounding', 'src/fp16.cpp'), ('fp16::div restoring division', 'src/fp16.cpp'), ('fp16::add/sub/saturate', 'src/fp16.cpp')],
 note='add, sub, mul, neg, inc, dec, comparisons proved for all operands. Division: bounded stand-in (all numerators for fixed divisors) plus native evaluation of the contract over all operands; labelled bounded.'),
dict(id='C06', title='Q16.16 conversions, rounding, wrapping and text are faithful',
 statement='Converting integers and doubles to fixed point and back is exact, floats are within one unit of the last place, toInt/rounding/floor/ceil/absolute give the mathematically specified integer or the overflow indication, angle wrapping returns an in-range angle that differs by whole turns, the square root is within one unit, functions outside their domain report overflow, and the decimal text is the value rounded to the requested number of decimals, terminated, within 13 bytes.',
 over=['inputs'], text='all 2^32 raw values, all floats in range, all decimals arguments',
 why=T + 'it converts a handful of values; halves, negative values and the ends of the range are not compared.',
 files=['src/fp16.cpp', 'src/include/fp16.hpp'], mech=[('toInt/rounding/floor/ceil', 'src/fp16.cpp'), ('wrapToPi/wrapTo180 loops', 'src/fp16.cpp'), ('toASCII/itoa', 'src/fp16.cpp'), ('sqrt', 'src/fp16.cpp')],
 note='Conversions, roundings, wrapping (inductive invariants) and text proved for all inputs (five-decimal digits at thorough tier for magnitudes below one; shape for all). Square-root accuracy on positive inputs is evaluated natively only.'),
dict(id='C07', title='sort, reverse and rotate rearrange exactly as specified, losing nothing',
 statement='Sorting leaves the array in the order of the comparison (ascending by default, or as the user comparator prescribes) holding exactly the same elements; reverse over any index range mirrors that range and nothing else; rotate by any positive or negative amount moves every element by that amount modulo the length; swap exchanges its arguments. Elements outside the stated range, and memory outside the array, are never touched.',
 over=['inputs', 'configurations'], text='reverse and swap: all contents and index ranges; rotate: all amounts for several lengths; sort: all contents up to length 5, sampled above',
 why=T + 'it sorts one array and prints it; duplicates, the stability of contents, comparators and boundary rotations are not compared.',
 files=['src/include/algorithm.hpp'], mech=[('algorithm::sort (iterative quick sort)', 'src/include/algorithm.hpp'), ('algorithm::rotate', 'src/include/algorithm.hpp'), ('algorithm::reverse', 'src/include/algorithm.hpp')],
 note='reverse: loop invariant, arbitrary range in an array of 2^20. rotate: proved for lengths 1,2,4,5,7 and every amount. sort: bounded stand-in (all contents for n<=4 fully, n=5 order), larger arrays sampled natively; labelled bounded.'),
dict(id='C08', title='Search, count and fill algorithms answer correctly for every array',
 statement='For every array content and predicate: find and find_if return the first match (null when none), any_of/all_of/none_of and count_if reflect exactly the elements satisfying the predicate, replace and replace_if change exactly the matching elements, fill and for_each reach every element once, binary_search on a sorted range returns an index holding the key exactly when it is present. Nothing outside the array or range is read or written.',
 over=['inputs', 'configurations'], text='all contents of arrays of 2^20 elements, arbitrary predicates, arbitrary index ranges',
 why=T + 'these templates are hardly called and never compared with anything.',
 files=['src/include/algorithm.hpp'], mech=[('find/find_if/replace/replace_if', 'src/include/algorithm.hpp'), ('binary_search', 'src/include/algorithm.hpp'), ('count_if/any_of/all_of/none_of', 'src/include/algorithm.hpp')],
 note='Every loop cut with inferred or supplied inductive invariants (no bound on iterations); the predicate is an arbitrary table.'),
dict(id='C09', title='Matrix operations compute the linear-algebra result element by element',
 statement='For all element values: elementwise sum, difference and negation, scaling, adding or subtracting a scalar, increments, transpose, matrix product (also in compound form and with itself), equality, diagonal and identity fills, element access and the infinity norm equal their mathematical definition for square and rectangular shapes; compound forms modify only their target; the inverse of an invertible matrix multiplied by the matrix is the identity.',
 over=['inputs', 'configurations'], text='all real element values for representative shapes up to 3x3/1x4 (inverse: 1x1, 2x2 proved; up to 4x4 sampled)',
 why=T + 'it prints a product and an inverse; wrong compound forms, non-square shapes and zero pivots go unnoticed.',
 files=['src/include/mat.hpp'], mech=[('operator* / operator*=', 'src/include/mat.hpp'), ('inv (Gauss-Jordan with pivoting)', 'src/include/mat.hpp'), ('normInf', 'src/include/mat.hpp')],
 note='Template instantiated at representative shapes; float arithmetic treated as real arithmetic; 3x3/4x4 inverse sampled natively only.'),
dict(id='C10', title='Interpolation passes through its table and never reads outside it',
 statement='For any strictly increasing table: next, previous and nearest return the value of the following, preceding and closest node (end values outside the table); linear returns the point of the segment containing x, extending the end segments outside; sine follows half a cosine between neighbours and stays between the end values outside; cubic, hermite, spline and constrained spline pass through every node, splines reproduce collinear points, and the constrained spline is the cubic with the constrained slopes. Unusable tables give NaN, refused settings change nothing, and no read leaves the table.',
 over=['inputs', 'configurations'], text='all table sizes (hermite/constrained spline: representative sizes), contents and x',
 why=T + 'it prints interpolated values of one table at a few points.',
 files=['src/interp1.cpp', 'src/include/interp1.hpp'], mech=[('interval search in each method', 'src/interp1.cpp'), ('cSpline derivatives', 'src/interp1.cpp'), ('setMethod table', 'src/interp1.cpp')],
 note='Unbounded table size with inductive search invariants for next, previous, nearest, linear, sine, cubic, spline; tables of 2..5 points for hermite, spline on lines and constrained spline. Float arithmetic as reals (selection methods bit-exact); cos axiomatised; interior formula of hermite/splines sampled natively.'),
dict(id='C11', title='Smoothing filters follow their recursion from the first sample on',
 statement='After setup or reset, the first output of every smoothing filter is the first sample; from then on, for every history: LPF1 and LPF2 follow their first and second order recursion (a constant passes unchanged), the moving means return the mean of the last N samples, outlier removal returns the sample or the running mean when it is farther than alpha times its magnitude, the gaussian filter weights the last N samples with a normalised non-negative kernel, exponential weighting, Kalman and double exponential smoothing follow their recursions and the first two stay between previous output and sample, and the adaptive filter applies the LMS update. Setup accepts exactly the documented parameter ranges and a refused setup changes nothing. Only the given arrays are touched.',
 over=['histories', 'inputs', 'configurations'], text='all sample histories of any length, all parameters in range; window sizes 1..8 representative',
 why=T + 'it pushes one noisy signal through a few filters and prints it; start-up, reset, long histories and window order are not compared.',
 files=['src/smoother.cpp', 'src/include/smoother.hpp', 'src/ltisys.cpp', 'src/tdl.cpp'], mech=[('smooth() of each filter', 'src/smoother.cpp'), ('discreteSystem::updateFIR', 'src/ltisys.cpp'), ('setup() of each filter', 'src/smoother.cpp')],
 note='Unbounded histories: loops cut with ghost models run alongside (LPF1/2, EXPW, KLMN, DESF) or arbitrary caller-owned windows (MWM1, GMWF, ALNF). O(1) mean and outlier removal: bounded histories from setup plus longer native runs. Floats as reals; sqrt/exp by contract.'),
dict(id='C12', title='RMS estimate composes its three stages and stays within the signal range',
 statement='After setup, the first estimate is the magnitude of the first sample, a signal of constant magnitude c (any signs) is estimated as c, and every estimate equals the first-order low-pass of the moving mean of the square root of the exponentially weighted mean square with the current parameters. It is never negative and never exceeds the largest magnitude seen. Setup needs a window, parameters are accepted exactly in (0,1], and refused settings change nothing.',
 over=['histories', 'inputs', 'configurations'], text='all sample histories (range), stage composition for bounded histories and longer sampled ones',
 why=T + 'it prints the estimate of one sine wave.',
 files=['src/rms.cpp', 'src/include/rms.hpp', 'src/smoother.cpp'], mech=[('rms::update', 'src/rms.cpp'), ('rms::setParams', 'src/rms.cpp')],
 note='Range proved for every history (window 1, inductive bounds on the filter states); stage composition proved for 2-3 steps and sampled for 40. Floats as reals; sqrt by contract.'),
dict(id='C13', title='The PID control action always lies within the configured limits',
 statement='Whatever references, measurements, gains, modes, directions, weights, manual inputs, filter settings, resets, model references or auto tuning preceded, every control action of a configured controller lies within the limits in force (0 and 100 until set). Limits are accepted exactly when max exceeds min; refused ones leave the old limits in force, accepted ones hold from the next action. A setup with a time step that is not positive is refused, and an unconfigured controller refuses every setting and returns the reference.',
 over=['histories', 'inputs', 'configurations'], text='every sequence of operations of any length with any float arguments (NaN results of the arithmetic excepted)',
 why=T + 'it closes one loop with one setting and compares nothing; the claim is about every history, mode and setting.',
 files=['src/pid.cpp', 'src/include/pid.hpp'], mech=[('pidController::control saturation', 'src/pid.cpp'), ('pidController::setSaturation', 'src/pid.cpp')],
 note='Float arithmetic uninterpreted (so for any rounding), comparisons bit-precise; every public setter in an unbounded history loop, limits by induction.'),
dict(id='C14', title='The PID controller computes the documented control law in every history',
 statement='For every history of references and measurements and every setting (gains, direction, reference weights clamped to [0,1], dead band, derivative filter, anti-windup and tracking gains, manual or automatic mode, resets, changed on the way or not), each control action equals the documented PID law with trapezoidal integral, filtered two-point derivative, anti-windup feedback, bumpless transfer and the optional model reference term. Gain conversions (time constants, series form) are exact. The auto tuner changes no gain before the requested steps have passed nor after completing.',
 over=['histories', 'inputs', 'configurations'], text='every history of any length, every accepted setting',
 why=T + 'it closes one loop with one setting and compares nothing.',
 files=['src/pid.cpp', 'src/include/pid.hpp', 'src/numa.cpp'], mech=[('pidController::control', 'src/pid.cpp'), ('pidAutoTuning::step', 'src/pid.cpp')],
 note='A model of the law runs alongside the real controller in an unbounded loop; equality of the two states is inductive. Floats as reals; tuner timing with uninterpreted float arithmetic. The tuned gain values themselves are not claimed.'),
dict(id='C15', title='Discrete systems satisfy the difference equation of their transfer function',
 statement='For all coefficients with a non-zero leading denominator, all inputs and all initial states, the outputs of a discrete system satisfy a0*y[k] + a1*y[k-1] + ... = b0*u[k] + b1*u[k-1] + ..., from rest and from any given state, whichever polynomial is longer. Limits clamp the output only and are accepted exactly when max exceeds min; an input window of n samples delays by n-1 steps, a transport delay of n by n. The FIR update of a window of any length shifts it by one and returns the weighted sum. Incomplete setups are refused.',
 over=['histories', 'inputs', 'configurations'], text='every state and hence every history for the listed orders; FIR windows of any length',
 why=T + 'it prints one step response; orders, unequal lengths and limits are not compared.',
 files=['src/ltisys.cpp', 'src/include/ltisys.hpp', 'src/tdl.cpp'], mech=[('discreteSystem::update', 'src/ltisys.cpp'), ('discreteSystem::updateFIR', 'src/ltisys.cpp')],
 note='The equation is proved over enough steps from an arbitrary state, so it holds at every later step; polynomial lengths 1..4 in eleven combinations (each a full proof, other lengths not covered). FIR for symbolic length by induction. Floats as reals.'),
dict(id='C16', title='Continuous systems integrate the canonical form of their transfer function',
 statement='For all coefficients with a non-zero leading denominator, time steps and input histories, each output of a continuous system equals that of the controllable canonical state-space form of its transfer function, direct feedthrough included, with all derivatives taken from the states before the step and integrated by the selected rule. Given initial states are taken each for its own state. Limits clamp the output only, an input window of n samples delays by n-1 steps, and incomplete setups are refused.',
 over=['histories', 'inputs', 'configurations'], text='every input history of any length for orders 1 to 4 and the three selectable rules',
 why=T + 'it prints one step response and compares nothing.',
 files=['src/ltisys.cpp', 'src/include/ltisys.hpp', 'src/numa.cpp'], mech=[('continuousSystem::update', 'src/ltisys.cpp'), ('continuousSystem::setInitStates', 'src/ltisys.cpp')],
 note='A state-space model runs alongside the real system in an unbounded loop; equality of states is inductive. Orders 1-4 (each a full proof). Floats as reals.'),
dict(id='C17', title='Integration and derivation rules are exact on the signals they are made for',
 statement='From any past, each integration rule of a numerical state adds exactly its quadrature formula and each derivation rule returns its difference quotient; the rectangular and Simpson rules are exact for constants, the trapezoidal rule for straight lines, the quadratic rule for parabolas, and the three-point derivatives for parabolas. A sample becomes part of the past exactly when updating is requested, derivation never changes the value, and arithmetic with a state uses its current value.',
 over=['inputs', 'histories'], text='all states, samples, time steps and polynomial signals',
 why=T + 'it never compares an integral or a derivative with its true value.',
 files=['src/numa.cpp', 'src/include/numa.hpp'], mech=[('nState::integrate', 'src/numa.cpp'), ('nState::derive', 'src/numa.cpp')],
 note='Rules proved from arbitrary states (so at every step of every history); exactness over one and two steps on symbolic polynomials. Floats as reals; operators bit-precise.'),
dict(id='C18', title='Membership functions and rule consequents follow their defining shapes',
 statement='For every input and every ordered parameter set, each built-in membership function (triangular, trapezoidal, generalised bell, gaussian and its two-sided form, sigmoid and its difference and product, s-, z- and pi-shaped, linear, concave, singleton, spike, constant) equals its textbook formula and stays in [0,1], also at vertical edges; inputs are first limited to their range, the height scales the set and negation complements it. Sugeno consequents are the stated constant or linear combination of the inputs, and each Tsukamoto consequent inverts its monotone set: evaluated at the firing strength it yields a point whose membership is that strength.',
 over=['inputs', 'configurations'], text='all inputs, parameters, heights and firing strengths',
 why=T + 'it runs one fuzzy system on fixed inputs and prints the result.',
 files=['src/fis.cpp', 'src/fisCore.cpp', 'src/include/fis.hpp'], mech=[('fis::core membership functions', 'src/fisCore.cpp'), ('fis::instance::fuzzify', 'src/fis.cpp')],
 note='Observed through the public interface only (strength of a one-premise rule, output of a one-rule system). Floats as reals, vertical edges bit-precise. exp, log, pow and cos are assumed to be functions with exp>0 and exp/log inverse, never evaluated.'),
dict(id='C19', title='Fuzzy rules fire with the strength their premises and connectives prescribe',
 statement='The strength of every rule is the combination, from left to right, of the memberships of its premises (negated where written IS NOT) under the chosen AND (min, product) and OR (max, probabilistic or) operators, times the rule weight, limited to [0,1]; each consequent contributes to exactly the output it names with the strength of its own rule, so a Sugeno output is the weighted average or weighted sum over its rules. Defaults are the documented ones. Malformed tables, unset systems, methods that do not fit the system type and tags out of range are refused and change nothing.',
 over=['inputs', 'configurations'], text='all memberships, weights and consequent values; every connective pattern of up to three premises, up to three rules and three outputs',
 why=T + 'one fixed table on fixed inputs, printed.',
 files=['src/fis.cpp', 'src/fisCore.cpp', 'src/include/fis.hpp'], mech=[('fis::instance::inference', 'src/fis.cpp'), ('fis::instance::fuzzyAggregate', 'src/fis.cpp'), ('fis::instance::setParameter', 'src/fis.cpp')],
 note='Bounded in the shape of the table (at most three rules of at most three premises, three outputs: the table walk is unrolled), unbounded in every number. Floats as reals.'),
dict(id='C20', title='Aggregation and defuzzification return the output their definitions prescribe',
 statement='For a Mamdani system the aggregated set, at each of the 100 evaluation points that divide the output range evenly, is the chosen combination (max, sum, probabilistic or) of the consequent sets, each cut (min) or scaled (product) by its rule strength and complemented where written IS NOT; centroid, bisector, middle, largest and smallest of maximum return what they are named after; each output has a set of its own. Tsukamoto systems return the weighted average of the values induced by the strengths. Whatever the sets yield, strengths stay in [0,1] and outputs never leave their range. Storing the aggregated set needs room for every point.',
 over=['inputs', 'configurations'], text='all consequent sets (arbitrary functions into [0,1]), strengths and output ranges, at all 100 evaluation points',
 why=T + 'it prints one defuzzified value.',
 files=['src/fis.cpp', 'src/fisCore.cpp', 'src/include/fis.hpp'], mech=[('fis::instance::deFuzzify', 'src/fis.cpp'), ('fis::instance::fuzzyAggregate', 'src/fis.cpp'), ('fis::core::deFuzzCentroid', 'src/fisCore.cpp')],
 note='Two-rule systems with arbitrary set functions; the 100-point loop is complete (fixed in the code). The middle of maximum is proved for 12 points only and searched natively at 100 (labelled bounded). Range confinement for arbitrary floats with arithmetic uninterpreted; the rest floats as reals. Two output methods of confinement (largest, middle) share the final clamp and are not proved separately.'),
dict(id='C21', title='Exact float helpers give the exact answer for every bit pattern',
 statement='For every float, infinities, subnormals and signed zeros included: classification and its predicates, absolute value, sign, copysign and comparison within a tolerance, truncation, floor, ceil, rounding (halves away from zero) and fraction, the next representable value towards another, splitting into fraction and power of two and joining them again (one rounding, overflow to infinity), Max and Min, and limiting to a range return exactly what they are defined to be. A midpoint lies between its ends. Modulo and remainder are the dividend less a whole multiple of the divisor (floored and truncated quotient); a modulo is zero or has the sign of the divisor and is never larger; rem by zero is not a number. Wrapped angles lie in [0,360], [-180,180], [0,2pi], [-pi,pi].',
 over=['inputs'], text='all 2^32 floats, or all pairs and triples of them (modulo values: moderate magnitudes, floats as reals)',
 why=T + 'it prints a few values; zeros, subnormals, infinities and huge quotients are never compared.',
 files=['src/ffmath.cpp', 'src/include/ffmath.hpp'], mech=[('classify/rexp/ldexp/nextAfter', 'src/ffmath.cpp'), ('mod/rem/wrapTo*', 'src/ffmath.cpp'), ('floor/ceil/rounding/trunc', 'src/ffmath.cpp')],
 note='Bit-precise IEEE proofs over all floats. ldexp: proved for all floats at exponents 3, -5, 130, -130, 300, -300, other exponents evaluated natively (bounded). Values of mod and rem: floats as reals with floor/trunc by their contracts. Angles up to 1e30 in magnitude. Both ends of the wrap ranges are allowed (documentation and code disagree on which end whole turns map to).'),
dict(id='C22', title='Mapping, interpolation and point-in-figure tests follow the geometry',
 statement='For all arguments, normalize and map lie on the straight line through both end points of their ranges; lerp lies on the line from a to b, gives exactly a at 0, exactly b at 1, exactly a when both ends are equal, and stays between them for positions in [0,1]; midpoint is half the sum even where the sum overflows. A point is in a circle exactly when its distance from the centre is at most the radius, and in a polygon (away from its edges) exactly when the even-odd rule says so: inside a triangle it lies on the same side of all edges.',
 over=['inputs'], text='all coordinates and parameters; triangles in full, larger polygons as noted',
 why=T + 'none of these functions is compared with anything.',
 files=['src/ffmath.cpp', 'src/include/ffmath.hpp'], mech=[('inPolygon', 'src/ffmath.cpp'), ('lerp/map/normalize/midpoint', 'src/ffmath.cpp')],
 note='Floats as reals for the values; lerp end points bit-precise for all finite floats. Polygons: three vertices proved (four at thorough tier), four and seven vertices evaluated natively (bounded). Range nesting of lerp evaluated natively.'),
dict(id='C23', title='Elementary functions keep their domains, special values and stated accuracy',
 statement='For every float, square and inverse square roots and logarithms of negative numbers, arc sine and cosine and atanh outside [-1,1], acosh below 1 and factorials of negative numbers are not a number; zeros, poles, infinities, NaN, overflow and underflow give their defined values; exp2 and log2 are exact at whole powers of two; factorial is the product. Inside their domains the functions are within these errors of the true value: sqrt 3e-6, rSqrt 2.5e-3, recip 4e-3, cbrt 5e-5, rCbrt 1e-6, exp, exp2, exp10, sinh, cosh 2e-5 relative; sin, cos 2e-3, asin, acos 0.015, atan, atan2 0.008, erf, erfc 0.025 absolute; logarithms, tanh, atanh 2e-6, asinh 1e-5; hypot 5e-6 relative.',
 over=['inputs'], text='domains and special values: all 2^32 floats; accuracy: sampled over the whole domain (bounded)',
 why=T + 'a few arguments are printed; whole sign ranges (cubic root, asinh, tanh of negative numbers) were wrong and went unnoticed.',
 files=['src/ffmath.cpp', 'src/include/ffmath.hpp'], mech=[('sqrt/rSqrt/cbrt', 'src/ffmath.cpp'), ('exp2/log2', 'src/ffmath.cpp'), ('sin/atan/tanh/erf', 'src/ffmath.cpp')],
 note='Domains, special values, exact powers of two and factorial proved bit-precisely. The accuracy half is a bounded stand-in (hundreds of millions of arguments compared with the host library), never counted as proved: transcendental functions are outside the reach of the provers. pow is not claimed for negative or zero bases.'),
dict(id='C24', title='Orthogonal polynomials and special functions equal their definitions',
 statement='Hermite, Legendre, associated Legendre (no phase), Laguerre and associated Laguerre polynomials equal their textbook polynomials, orders above the degree give zero, and arguments that are not a number give not a number. The gamma function and its logarithm have their poles where they belong. Inside the stated domains gamma, log-gamma, beta, the elliptic integrals, the exponential integral, zeta and the Bessel and Neumann functions agree with their mathematical definitions to the tolerance stated with each check.',
 over=['inputs'], text='all arguments of the polynomials up to degree 6; special functions sampled over their domains (bounded)',
 why=T + 'none of the special functions is compared with anything.',
 files=['src/ffmath.cpp', 'src/include/ffmath.hpp'], mech=[('hermite/legendre/poly_laguerre_*', 'src/ffmath.cpp'), ('tgamma/lgamma/expint', 'src/ffmath.cpp'), ('cyl_bessel_*/ellint_*', 'src/ffmath.cpp')],
 note='Polynomials: degrees up to 6 (Hermite, Legendre), 4 (Laguerre and associated) proved for all arguments, floats as reals. Special functions: bounded stand-in (compared natively with the host library), never counted as proved; cyl_bessel_i only up to 3 and Neumann orders in steps of 1/8 (outside, the series used are inaccurate).'),
]
