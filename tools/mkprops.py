import json
P=[]
def p(id,title,st,over,qt,why,files,mech,**k):
    assert len(title)<=80,title
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(k)
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
UT="The unit programs print a handful of values and assert nothing; the accuracy programs average bit differences over random pools."
H="include/"
p("C01","Exponential is within a few ulp over its whole finite range",
 "For every double x in [-708, 708] the fast double exponential has relative error at most 2^-51, and for every float x in [-87.3, 88.72] the fast single exponential has relative error at most 2^-22. No input in those ranges gives infinity, zero or NaN.",
 ["inputs"],"every representable double in [-708,708] and every float in [-87.3,88.72]",UT+" 2^64 inputs cannot be sampled: a wrong exponent scale or range-reduction constant shows only for a few exponents.",
 [H+"exp.h",H+"vdtcore_common.h"],[("range reduction by multiples of ln2","include/exp.h fast_exp/fast_expf"),("2^n built from exponent bits","include/exp.h, include/vdtcore_common.h uint642dp/uint322sp")],observe_at="return value of vdt::fast_exp / vdt::fast_expf")
p("C02","Logarithm is within a few ulp for every positive normal argument",
 "For every normal double x in [2^-1022, 1e307] and every normal positive float x the fast logarithm has relative error at most two machine epsilons of its precision, including arguments next to 1 where the result tends to zero. The logarithm of 1 is exactly 0.",
 ["inputs"],"every positive normal double up to 1e307 and every positive normal float",UT+" Cancellation next to 1 and the mantissa split next to sqrt(1/2) are single-point effects in 2^63 inputs.",
 [H+"log.h",H+"vdtcore_common.h"],[("mantissa/exponent split on bits","include/vdtcore_common.h getMantExponent"),("rational approximation and ln2 recombination","include/log.h")],observe_at="return value of vdt::fast_log / vdt::fast_logf")
p("C03","Sine and cosine are accurate in every quadrant up to |x| = 5000",
 "For every double x with |x| <= 5000 the fast sine and cosine differ from the true value by at most 3e-16, and for every float with |x| <= 5000 by at most 2^-23. For |x| <= pi/4 the sine also has relative error of at most two machine epsilons, for arguments down to the smallest normal number.",
 ["inputs"],"all doubles and floats with |x| <= 5000, both functions, all 6366 octant pairs",UT+" Each quadrant takes a different swap/sign path and the reduction constants lose digits only for particular large arguments.",
 [H+"sincos.h",H+"sin.h",H+"cos.h"],[("quadrant selection and three-part reduction","include/sincos.h reduce2quadrant"),("swap and sign selection","include/sincos.h fast_sincos")],observe_at="return values of fast_sin, fast_cos, fast_sinf, fast_cosf")
p("C04","Tangent keeps relative accuracy away from its poles and zeros, and near zero",
 "For every argument with |x| <= 5000 that is at least 1/64 away from every multiple of pi/2 the fast tangent has relative error at most 6 machine epsilons in double and 8 in single precision. For |x| <= pi/4, down to the smallest normal number, the relative error is at most 4e-15 in double and 4 machine epsilons in single precision, and every subnormal argument gives a finite result no larger in magnitude than the argument.",
 ["inputs"],"all doubles and floats in the stated ranges",UT+" The branch-free reciprocal selection misbehaves only for isolated tiny arguments.",
 [H+"tan.h"],[("quadrant reduction","include/tan.h reduce2quadranttan"),("branch-free choice between t and -1/t","include/tan.h fast_tan/fast_tanf")],observe_at="return values of fast_tan, fast_tanf")
p("C05","Arcsine and arccosine are accurate on all of [-1, 1]",
 "For every x in [-1, 1] the fast arcsine has relative error of at most 2 machine epsilons in double and 4 in single precision, down to the smallest normal argument. The fast arccosine differs from the true value by at most 4 machine epsilons of its precision, and the results lie in [-pi/2, pi/2] and [0, pi] up to the same error.",
 ["inputs"],"every double and float in [-1,1]",UT+" The two approximation branches meet at one threshold and the endpoint behaves like a square root.",
 [H+"asin.h"],[("branch split and square-root form near 1","include/asin.h fast_asin/fast_asinf"),("linear branch for tiny arguments","include/asin.h")],observe_at="return values of fast_asin, fast_acos and their float forms")
p("C06","Arctangent is accurate for every finite argument",
 "For every finite argument of normal magnitude the fast arctangent has relative error at most 2 machine epsilons in double and 4 in single precision. Arguments of any size, including the largest finite ones and infinities, give a result within that error of the true value, which for infinities is plus or minus pi/2.",
 ["inputs"],"every normal finite double and float, and the infinities",UT+" The interval split has two thresholds and a reciprocal branch reaching up to 1.8e308.",
 [H+"atan.h"],[("three-interval reduction with extended constants","include/atan.h fast_atan/fast_atanf")],observe_at="return values of fast_atan, fast_atanf")
p("C07","Two-argument arctangent is right in all quadrants and on the axes",
 "For all finite y and x, not both zero, whose smaller-to-larger magnitude ratio is zero or a normal number and whose sum of magnitudes does not overflow, the fast two-argument arctangent differs from the true angle in (-pi, pi] by at most 4 machine epsilons of its precision. For y = 0 and x = 0 the result is 0, for y = 0 and x < 0 it is pi, and for x = 0 it is plus or minus pi/2 following the sign of y.",
 ["inputs"],"all pairs of finite doubles and all pairs of finite floats, quotient not subnormal",UT+" The pair space is 2^128; octant folding has eight sign/swap combinations and zero guards.",
 [H+"atan2.h",H+"atan.h"],[("octant folding, zero guard and unfolding","include/atan2.h fast_atan2/fast_atan2f")],observe_at="return values of fast_atan2, fast_atan2f")
p("C08","Hyperbolic tangent is accurate and saturates at plus or minus one",
 "For every normal argument the fast hyperbolic tangent has relative error of at most 8 machine epsilons of its precision (16 below 16 times the smallest normal number) and never exceeds 1 in magnitude by more than 2 machine epsilons. Arguments beyond 20 in double and beyond 9.1 in single precision, including infinities, give exactly plus or minus 1 following the sign of the argument.",
 ["inputs"],"every double and float",UT+" Saturation threshold and argument-halving interact only close to the cut.",
 [H+"tanh.h"],[("saturation cut","include/tanh.h"),("argument halving and doubling","include/tanh.h")],observe_at="return values of fast_tanh, fast_tanhf")
p("C09","Inverse square root meets its iteration-count accuracy for every argument",
 "For every positive normal double the fast inverse square root has relative error at most 4 machine epsilons and its approximate variant at most 6e-11. For every positive normal float the fast inverse square root has relative error at most 4.8e-6 and its approximate variant at most 1.8e-3.",
 ["inputs"],"every positive normal double and float, all four functions",UT+" The bit-trick start value depends on exponent parity and mantissa; the worst case sits in two narrow bands per exponent.",
 [H+"sqrt.h"],[("bit-level start value","include/sqrt.h fast_isqrt_general/fast_isqrtf_general"),("Newton iterations","include/sqrt.h")],observe_at="return values of fast_isqrt, fast_approx_isqrt and float forms")
p("C10","Fast reciprocal meets its iteration-count accuracy with the right sign",
 "For every normal double whose reciprocal is normal the fast reciprocal has relative error at most 8 machine epsilons and its approximate variant at most 1.2e-10. For every such float the errors are at most 1e-5 and 3.6e-3, and in all cases the result has the sign of the argument.",
 ["inputs"],"every normal double and float of either sign with a normal reciprocal",UT+" Same bit-trick as the inverse square root plus sign transplant.",
 [H+"inv.h",H+"sqrt.h"],[("sign transplant and squaring of the inverse root","include/inv.h fast_inv_general/fast_invf_general")],observe_at="return values of fast_inv, fast_approx_inv and float forms")
p("C11","Odd and even functions are exactly symmetric, bit for bit",
 "For every non-NaN argument x, non-zero where a function does not keep the sign of zero, the fast sine, tangent, arcsine, arctangent, hyperbolic tangent and (for finite x) reciprocals at -x return exactly the negated bits of their value at x, and the fast cosine exactly the same bits. Negating a non-zero first argument of the two-argument arctangent exactly negates its result.",
 ["inputs"],"every bit pattern of the argument(s) that is not NaN (reciprocals: finite arguments), both precisions",UT+" No test compares f(x) and f(-x).",
 [H+"sincos.h",H+"tan.h",H+"asin.h",H+"atan.h",H+"atan2.h",H+"tanh.h",H+"inv.h"],[("sign mask extraction and restoration","include/vdtcore_common.h getSignMask, dpXORuint64, dpORuint64 and float forms")],observe_at="return bits")
p("C12","Out-of-range, infinite and NaN arguments give the specified results",
 "The fast exponential returns infinity for every argument above its overflow limit (708 double, 88.73 single) and 0 below -708 or -88; the fast logarithm returns NaN for negative and +infinity for infinite arguments; the fast arcsine and arccosine return NaN outside [-1, 1]. Every fast unary function and the two-argument arctangent return NaN when an argument is NaN.",
 ["inputs"],"every bit pattern outside the operating ranges, both precisions",UT+" Tests use a few representative specials and do not assert on them.",
 [H+"exp.h",H+"log.h",H+"asin.h",H+"tanh.h",H+"atan.h",H+"atan2.h",H+"sincos.h",H+"tan.h",H+"sqrt.h",H+"inv.h"],[("limit overrides at the end of each function","include/exp.h, include/log.h, include/tanh.h"),("unordered comparisons","include/log.h, include/atan2.h")],observe_at="return values")
p("C13","Array functions apply the scalar function to each element and nothing else",
 "For every function in the array interface, every array length and every input contents, output element i has exactly the bits of the scalar function of the same name and precision applied to input element i (elements i of both inputs, in order, for two-argument functions). Elements at and beyond the length are neither read nor written, inputs are unchanged, and length 0 touches nothing.",
 ["inputs","configurations"],"all 48+ array functions, all contents, every length 0..11 (quick) or 0..24 (thorough), twenty single lengths up to 1025, one function of each kind (thorough: all) at 66047","No unit test calls the array interface of most functions; the definitions exist only in generated code.",
 ["src/signatures_generator.py",H+"vdtMath.h"],[("generated definitions","src/signatures_generator.py -> src/vdtMath_signatures.cc"),("declarations","include/*.h")],observe_at="output array and memory accesses of every *v function")
p("C14","Preload build replaces each math-library symbol by its fast counterpart",
 "When the library is generated in preload mode, every replaced C math function name in double and single precision is defined exactly once and returns, for all arguments, the bits of the fast function of the same name and precision with arguments in the same order.",
 ["inputs","configurations"],"every generated preload symbol, all argument bits","The preload configuration is off in the tested build.",
 ["src/signatures_generator.py","CMakeLists.txt"],[("preload generator","src/signatures_generator.py create_preload_* ")],observe_at="return values of the generated symbols")
p("C15","Combined sine-cosine agrees exactly with the separate functions",
 "For every argument the combined sine-and-cosine call stores exactly the bits returned by the separate fast sine and cosine of the same precision, writes both outputs, and depends on the argument only. The fast arccosine equals the rounded difference of pi/2 and the fast arcsine for every argument in [-1, 1].",
 ["inputs"],"every argument bit pattern, both precisions","No test compares them.",
 [H+"sincos.h",H+"sin.h",H+"cos.h",H+"asin.h"],[("output selection","include/sincos.h fast_sincos/fast_sincosf"),("wrappers","include/sin.h include/cos.h")],observe_at="stored outputs against returned values")
p("C16","No floating-point trap or undefined conversion inside the operating ranges",
 "For arguments in the documented operating ranges no fast function divides by zero, performs an invalid operation, overflows in an intermediate step, converts an out-of-range value to an integer or overflows a signed integer; in particular the two-argument arctangent raises no exception flag when either or both arguments are zero. Results are therefore the same with floating-point traps enabled.",
 ["inputs"],"every argument in the operating ranges, both precisions (tangent: at least 1/64 away from the non-zero multiples of pi/2; quick tier: a subset of binades and periods)","Tests run with flags masked and never inspect them.",
 [H+"atan2.h",H+"atan.h",H+"tan.h",H+"sincos.h",H+"exp.h",H+"log.h",H+"asin.h"],[("division guards","include/atan2.h, include/atan.h, include/tan.h"),("float to int conversions","include/vdtcore_common.h fpfloor, include/sincos.h")],observe_at="FE_INVALID/FE_DIVBYZERO/FE_OVERFLOW after the call")
p("C17","Different-bit metric is the bit length of the representation distance",
 "For any two values of one precision the reported different bit is 0 exactly when the representations are identical, and otherwise the position (counting from 1) of the highest set bit of the absolute difference of their integer representations. It is symmetric in its arguments.",
 ["inputs"],"all pairs of doubles and all pairs of floats","Accuracy programs consume the metric but nothing checks it; pairs are 2^128.",
 [H+"diagnostic/vdtdiag_helper.h"],[("distance and logarithm","include/diagnostic/vdtdiag_helper.h diffbit")],observe_at="return value")
p("C18","Hex persistence of floating-point values is lossless",
 "Writing any float or double through the hexadecimal stream manipulator and reading it back through the matching one yields the same bits, for sequences of values on one stream, and leaves the stream in decimal mode. A pool, response or comparison written to a file and reloaded therefore holds the same values in the same order.",
 ["inputs","histories"],"all bit patterns; sequences of 5 values; objects of 4 rows (quick) or 6 rows (thorough) of arbitrary values and of up to 300 rows repeating two arbitrary values","The file round trip is run by hand-inspected programs on random finite values only.",
 [H+"diagnostic/vdtdiag_filePersistence.h",H+"diagnostic/vdtdiag_random.h",H+"diagnostic/vdtdiag_fcnResponse.h",H+"diagnostic/vdtdiag_fcnComparison.h"],[("manipulators","include/diagnostic/vdtdiag_filePersistence.h")],observe_at="value read back")
p("C19","Comparison statistics match the recorded bit differences",
 "For two equally long result lists the comparison reports as minimum, maximum and mean the minimum, maximum and arithmetic mean of the element-wise different bits, reports a difference exactly when some pair of elements differs in its bits, and reports a spread of -1 for a single element and the sample variance otherwise.",
 ["inputs"],"all contents of lists of length 1..3 (quick) or 1..5 (thorough), and lists of 4, 5, 17 and 300 elements repeating two arbitrary pairs","The comparison programs print statistics nobody asserts on.",
 [H+"diagnostic/vdtdiag_interfaces.h",H+"diagnostic/vdtdiag_helper.h"],[("statistics loop","include/diagnostic/vdtdiag_interfaces.h m_calcStats"),("bit differences","include/diagnostic/vdtdiag_interfaces.h m_fillBitDiffs")],observe_at="printed statistics members")
p("C20","Elapsed time equals the difference of the two clock readings",
 "For any two monotonic clock readings, the second not earlier than the first, the timer reports their difference in nanoseconds, also when the interval crosses a second boundary. The reported value never depends on earlier measurements.",
 ["inputs"],"all pairs of valid clock readings up to 200 years apart, readings below 2^40 s","A test cannot choose the clock readings; it would have to hit a second boundary by chance.",
 [H+"diagnostic/vdtdiag_helper.h"],[("time difference","include/diagnostic/vdtdiag_helper.h timer")],observe_at="elapsed-time accessor")
p("C21","Response objects hold each function value for its own input, in order",
 "Evaluating a scalar or array function over a list of inputs (one or two lists) stores, for every index, the function applied to the input(s) at that index, keeps the inputs, and has as many outputs as inputs.",
 ["inputs"],"all contents of input lists of 0, 1, 2, 3, 5, 8 and 17 elements, and of 300 elements repeating 20 arbitrary ones, any function","Tests print responses of fixed functions only.",
 [H+"diagnostic/vdtdiag_fcnResponse.h",H+"diagnostic/vdtdiag_interfaces.h"],[("evaluation loops","include/diagnostic/vdtdiag_fcnResponse.h constructors")],observe_at="stored outputs")
p("C22","Command-line options are recognised by either name with their argument",
 "For every argument list, an option counts as set exactly when its short or long name, up to the first '=' sign, was given, and its argument is the text after that sign. Unknown or repeated options make parsing fail.",
 ["inputs"],"all texts of one argument up to 7 bytes, two up to 6, three up to 5, over a fixed set of declared options; one to three arbitrary bytes inside names and arguments of up to 290 characters over thirteen options","The tested programs are run without options.",
 [H+"diagnostic/vdtdiag_simpleCmd.h"],[("parser","include/diagnostic/vdtdiag_simpleCmd.h parseCmd, isSet, getArgument")],observe_at="isSet/getArgument after parsing")
p("C23","Random pools hold the requested count of numbers inside their own interval",
 "A random pool built for an interval, a size and a seed holds exactly that many numbers, each inside the interval; a two-dimensional pool holds that many in each coordinate, each inside that coordinate's own interval. Two pools built with the same interval, size and seed hold the same numbers in the same order.",
 ["inputs"],"all intervals with finite bounds, all seeds from 0 to 2^31-1, sizes 0..5 and 300 (quick) and up to 33 (thorough)","The programs that use the pools fix interval, seed and size; a mixed-up bound of one coordinate still gives plausible numbers.",
 [H+"diagnostic/vdtdiag_random.h",H+"diagnostic/vdtdiag_interfaces.h"],[("filling a pool","include/diagnostic/vdtdiag_interfaces.h IrandomPool::fillVector"),("pool constructors","include/diagnostic/vdtdiag_random.h")],observe_at="the lists of numbers of the pools")
p("C24","Benchmarks time every evaluation once and report the mean of the recorded time",
 "A benchmark of a scalar or array function over one or two input lists evaluates, in every repetition, the function once for each index in order and with the inputs of that index. The reported mean is the time spent in the last requested number of repetitions divided by the number of evaluations in them, so that time spent in the warm-up repetitions before does not count.",
 ["inputs"],"all durations up to 2^20 ns per evaluation, 1..5 elements and 1..4 repetitions, all four calling forms in both precisions","Measured times cannot be chosen by a test and nobody knows the right answer; counting a warm-up repetition changes the mean by little.",
 [H+"diagnostic/vdtdiag_fcnPerformance.h",H+"diagnostic/vdtdiag_helper.h"],[("measurement loops","include/diagnostic/vdtdiag_fcnPerformance.h measureTime*"),("mean","include/diagnostic/vdtdiag_fcnPerformance.h calculate_mean_and_err")],observe_at="getAvg and the calls of the benchmarked function")
p("C25","Benchmark tables pair every name with its function and argument pool",
 "Every entry of the function tables used by the benchmark and accuracy programs computes, for every argument, the function its name states in the stated precision and calling form, and refers to the argument pool on which that function is defined: positive numbers for logarithm and inverse square root, [-1, 1] for arcsine and arccosine, the exponent range for exponentials, the symmetric pool for the others. Every function appears exactly once, also when a table is filled a second time.",
 ["inputs"],"all 112 entries of the eight tables, all argument values inside the pool of the entry","A wrong entry compares or times a function against itself and the programs report success.",
 [H+"diagnostic/vdtdiag_fcnTuples.h"],[("table fillers","include/diagnostic/vdtdiag_fcnTuples.h getFunctionTuples, getFunctionTuplesvect")],observe_at="table entries")
p("C26","Printed bit patterns and differences show exactly the values compared",
 "The text of a floating-point value as bits consists of its sign, exponent and mantissa fields, highest bit first, separated by single blanks. The print-out of a difference names both values, their different bit and, when asked for, both bit texts; the print-outs comparing two functions do so for each argument in order, with the value of the first function first.",
 ["inputs"],"all bit patterns of both precisions; lists of 0..3 and 9 arguments, any two functions, scalar and array form, one and two arguments","The print-outs are read by people and asserted on by nothing; a swapped field or argument still looks plausible.",
 [H+"diagnostic/vdtdiag_helper.h"],[("bit text","include/diagnostic/vdtdiag_helper.h getbsasstr"),("print-outs","include/diagnostic/vdtdiag_helper.h print_different_bit, printFuncDiff")],observe_at="text written to standard output")
p("C27","Listings of pools, responses and comparisons show every element once, in order",
 "Printing a random pool, a response or a comparison writes its heading and then one line per element, in order, with the index, the number of elements and the stored values of that element (for a comparison also both bit patterns and their different bit) at the full number of digits of the precision. A comparison ends with the same maximum, minimum, mean and spread of the different bits as its file holds.",
 ["inputs"],"all contents; pools and responses of 0..3, 12 and 300 elements, comparisons of 1..2 (thorough: 3) elements, both precisions, one and two arguments and the older forms","Listings are only looked at by people.",
 [H+"diagnostic/vdtdiag_random.h",H+"diagnostic/vdtdiag_fcnResponse.h",H+"diagnostic/vdtdiag_fcnComparison.h",H+"diagnostic/vdtdiag_interfaces.h"],[("listings","print methods of the pool, response and comparison classes")],observe_at="text written to standard output")
p("C28","The comparison program compares each reference file with its own test file",
 "For lists of reference and test files of equal length the comparison program prints one table line per pair, in order, and writes one comparison file per pair holding the inputs and outputs of the reference and the outputs of the test file; pairs with a missing file are named and skipped without affecting the others. Without a run name, without files, with lists of different length or with unknown options it fails and writes nothing.",
 ["inputs","configurations"],"all file contents of 1..3 rows per file, one to four pairs of all four kinds, every position of a missing file, all lists of up to 4 bytes from two letters and the separator","No test runs the program with options.",
 ["progs/vdtArithmComparison.cpp",H+"diagnostic/vdtdiag_fcnComparison.h",H+"diagnostic/vdtdiag_fcnResponse.h",H+"diagnostic/vdtdiag_simpleCmd.h"],[("list of files","progs/vdtArithmComparison.cpp list2vector"),("pairing and choice of precision","progs/vdtArithmComparison.cpp main")],observe_at="exit status, table and comparison files")
p("C29","The accuracy program records every function on arguments from its own interval",
 "A run of the accuracy-recording program with a run name and a size writes, for every function in both precisions and in scalar and array form, one response file named after the run and the function, whose header states that function and precision and which holds that many rows. Every recorded argument lies in the interval the function is measured on and every recorded value is that function of that argument; without a run name, with unknown options or when help is asked for nothing is written.",
 ["inputs","configurations"],"all results of the random generator, sizes 1..3, all 108 functions and forms","The program writes files nobody reads back in the tests; a value recorded for another function or argument pool goes unnoticed.",
 ["progs/vdtArithmBenchmark.cpp",H+"diagnostic/vdtdiag_fcnTuples.h",H+"diagnostic/vdtdiag_fcnResponse.h",H+"diagnostic/vdtdiag_random.h"],[("recording","progs/vdtArithmBenchmark.cpp saveResponses, saveResponses2D, main")],observe_at="files written by the program")
p("C30","Bit helpers exchange, mask and split values exactly",
 "Taking a value as its bits and back gives the same bits; combining it with a mask by and, or, exclusive or does so on every bit, and its sign mask is its sign bit alone. Splitting any positive normal number gives a mantissa in [0.5, 1) with the same fraction bits and the exponent of the leading bit. The branch-free floor of an argument x of magnitude below 2^22 is an integer n with n <= x <= n+1, and is the floor of x whenever x is positive or not an integer.",
 ["inputs"],"all words and masks of both precisions, all positive normal numbers; floor: all arguments of magnitude below 2^22","No unit test calls the helpers; a wrong bit shows only through isolated arguments of the functions built on them.",
 [H+"vdtcore_common.h"],[("conversions, masks, split and floor","include/vdtcore_common.h dp2uint64, dpANDuint64, getSignMask, getMantExponent, fpfloor and float forms")],observe_at="return values of the helpers")
p("C31","Help and messages of the option parser name the right options",
 "The help lists every declared option once, in the order of declaration, with both names and its text; help for one option shows that option alone, found by either of its full names, and says so when there is none. A refused command line is answered with one message naming the unknown or repeated option, and an accepted one that does not ask for help prints nothing.",
 ["inputs"],"all names of up to 6 bytes for the help of one option, of up to 5 bytes on the command line, five declared options","The tested programs are run without options and their output is not read.",
 [H+"diagnostic/vdtdiag_simpleCmd.h"],[("help and messages","include/diagnostic/vdtdiag_simpleCmd.h printHelp, parseCmd")],observe_at="standard output")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
