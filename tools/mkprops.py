#!/usr/bin/env python3
"""Writes properties.jsonl (the properties are kept here because a table is easier to edit than JSON lines)."""
import json, os
X='dpm/detail/x86/'; G='dpm/detail/generic/'
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=False)))
IC=['inputs','configurations']
prop('P01','Integer lane-wise arithmetic, bitwise and shift operators equal the scalar ones',
 "For every integer element type, vector width and alignment, and instruction set, each element of a + - * / % & | ^ ~ << >> (with vector or scalar right operand, as compound assignment, or as increment/decrement) and of the constant-count logical/arithmetic shifts equals what the built-in scalar operator gives for that element's operands, wherever the scalar operation is defined. A count shift must fill with zeros (logical) or copies of the sign (arithmetic; >> of a signed element). Compound forms leave the result in the left operand; postfix forms return the old value.",
 IC,"all operand values of all integer types x all vector shapes (including partially filled native registers) x instruction sets",
 "No existing test performs integer arithmetic at all; operand space, element position, register remainder and the per-ISA code paths multiply beyond any list of examples.",
 [X+'type.hpp',X+'addsub.hpp',X+'muldiv.hpp',X+'bitwise.hpp',G+'type.hpp'],
 [('operators on native vectors',X+'type.hpp'),('emulated 64-bit / 8-bit / 256-bit shifts and multiplications',X+'bitwise.hpp, '+X+'muldiv.hpp'),('scalar loops',G+'type.hpp')],['result elements of each operator'])
prop('P02','Floating-point operators and square root are correctly rounded in every element',
 "For every floating-point vector shape and instruction set, each element of a + - * /, unary + -, ++/--, compound assignment, and sqrt is the correctly rounded scalar result (including infinities, signed zeros, subnormals; NaN where the scalar result is NaN). The fused forms (fma, multiply-add and its negated variants) give either the single- or the double-rounded value of the scalar expression. Reciprocal and reciprocal square root are within 2^-11 relative error for float and exact within 1 ulp per rounding step for double.",
 IC,"all operand bit patterns x vector shapes x instruction sets",
 "Existing tests never look at these operators; a swapped operand in one tail or ISA path needs the right value in the right lane to show.",
 [X+'addsub.hpp',X+'muldiv.hpp',X+'mbase.hpp',X+'pow.hpp',G+'type.hpp',G+'math.hpp'],
 [('native add/sub/mul/div/fma',X+'addsub.hpp, '+X+'muldiv.hpp, '+X+'mbase.hpp'),('sqrt, rcp, rsqrt',X+'pow.hpp')],['result elements'])
prop('P03','Comparison operators select exactly the elements the scalar comparison selects',
 "For every element type, vector shape and instruction set, the mask returned by == != < <= > >= (and ! on integers) is true in exactly the elements for which the built-in scalar comparison is true, including signed/unsigned extremes, NaN, signed zeros and infinities. The mask has the vector's number of elements.",
 IC,"all pairs of element values x element types x vector shapes x instruction sets",
 "No existing test compares vectors with these operators against the scalar result for integers; signedness and emulated 64-bit comparisons depend on operand halves.",
 [X+'cmp.hpp',X+'type.hpp',G+'type.hpp'],[('native and emulated comparisons',X+'cmp.hpp')],['mask elements'])
prop('P04','Floating-point classification and quiet comparisons',
 "isfinite, isinf, isnan, isnormal, signbit, fpclassify and isunordered/isless/islessequal/isgreater/isgreaterequal/islessgreater give in every element the result of the C library function of that name, for every bit pattern. The quiet comparisons (is...greater/less/unordered) never raise the invalid-operation flag for a quiet NaN operand.",
 IC,"all floating-point bit patterns (quiet NaNs) x vector shapes x instruction sets",
 "The existing tests use isnan only as a helper; subnormal, signed and NaN payload classes of each lane are not sampled, nor are exception flags.",
 [X+'class.hpp',X+'cmp.hpp',G+'math.hpp'],[('bit tests and ordered/unordered compares',X+'class.hpp')],['mask elements','floating-point exception flags'])
prop('P05','Mask algebra and mask reductions depend on exactly the elements of the mask',
 "Logical/bitwise operators and comparisons of masks act element by element; all_of, any_of, none_of, some_of, the count of true elements and the index of the first/last true element equal those computed from the elements. Whatever lies in the unused part of the underlying registers never changes a result. Writing one mask element (directly or through its reference) changes that element only.",
 IC,"all masks (exhaustive up to 12 elements, generated above) x element sizes x shapes x instruction sets, with arbitrary padding",
 "Mask reductions are not tested; partially filled registers are exactly where the padding must be ignored.",
 [X+'type.hpp',X+'transform.hpp',X+'utility.hpp','dpm/detail/alias.hpp',G+'type.hpp'],
 [('mask operators and reductions',X+'type.hpp'),('masking of the register remainder',X+'transform.hpp')],['mask elements','reduction results'])
prop('P06','Memory transfers copy exactly the selected elements and touch nothing else',
 "Loading reads exactly the vector's elements (converted when the memory type differs), storing writes exactly them, and never a byte before, after or between; with a mask only the selected elements are read or written and the others keep their value. This holds for every alignment tag whose requirement the pointer meets, for generator and broadcast construction, and for single element access. A load followed by a store is the identity.",
 IC,"all element types and memory types x shapes x alignment tags x pointer misalignments x masks",
 "The tests only copy to and from exactly sized aligned arrays; out-of-bounds accesses of partial registers stay unnoticed without guard pages and canaries.",
 [X+'type.hpp',X+'cvt.hpp',G+'type.hpp'],[('copy_from/copy_to and masked forms',X+'type.hpp'),('vector conversions while copying',X+'cvt.hpp')],['destination memory including canaries','accesses to guard pages'])
prop('P07','Blend takes each element from the operand its mask element selects',
 "Blending two vectors, two masks or two scalars under a mask yields in every element the first operand's element where the mask is true and the second's where it is false, bit for bit, for every element type, vector shape and instruction set.",
 IC,"all masks x operand values x element types x shapes x instruction sets",
 "The blend test does not compile in this tree, so nothing exercises it.",
 [X+'type.hpp',X+'transform.hpp',G+'type.hpp'],[('blend',X+'type.hpp'),('native blends and their SSE2 emulation',X+'transform.hpp')],['result elements'])
prop('P08','Shuffle returns exactly the requested elements in the requested order',
 "A shuffle of a vector or mask with any list of in-range indices (repetitions, reversals, wider or narrower than the source) yields a value of that many elements whose i-th element is bit for bit the source element with the i-th index. The source is left unchanged and only its elements are read.",
 ['inputs','programs','configurations'],"all index lists (generated families and random lists) x element types x shapes x instruction sets",
 "The shuffle test does not compile in this tree; index lists form a combinatorial space.",
 [X+'transform.hpp',X+'type.hpp',G+'type.hpp','dpm/utility.hpp'],[('shuffle',X+'transform.hpp'),('index sequence utilities','dpm/utility.hpp')],['result elements'])
prop('P09','Horizontal reductions combine every element exactly once',
 "Reducing a vector with plus, multiplies, and, or, xor, min, max or a caller's associative commutative function, and the named horizontal sum/product/and/or/xor, equals folding the scalar operation over all elements of the vector and nothing else (exactly for integers and min/max; up to reassociation rounding for floating-point sums and products). Unused register parts never contribute.",
 IC,"all element values x element types x shapes (every register remainder) x operations x instruction sets",
 "No existing test calls a reduction; each remainder length selects a different code path.",
 [X+'type.hpp',X+'transform.hpp',X+'minmax.hpp',G+'type.hpp'],[('reduce, reduce_min, reduce_max, hadd...',X+'type.hpp')],['reduction results'])
prop('P10','Conversions between vector types convert every element like a scalar cast',
 "Implicit, explicit and named conversions between vectors or masks of the same number of elements (other element type, other alignment, scalar, packed or fixed-size storage) yield in every element the scalar static_cast of the source element, for all values where that cast is defined. Converting to another storage kind and back is the identity.",
 IC,"all (source type, destination type) pairs x values x shapes x instruction sets",
 "Tests convert only between a handful of float shapes; packed integer/float conversions with 64-bit or unsigned operands are emulated per ISA.",
 [X+'cvt.hpp',X+'type.hpp',G+'type.hpp'],[('conversion operators, simd_cast, static_simd_cast, to_fixed_size...',G+'type.hpp'),('native conversions',X+'cvt.hpp')],['result elements'])
prop('P11','Floating-point manipulation functions are bit-exact',
 "frexp, ldexp, scalbn, scalbln, modf, ilogb, logb, nextafter and copysign give in every element exactly the value (and second result) the C library function of that name gives, for every bit pattern including zeros, subnormals, infinities and extreme exponents, and NaN for NaN. The value returned for zero, infinity or NaN is the one the C standard prescribes.",
 IC,"all bit patterns x exponents x vector shapes x instruction sets",
 "Existing tests use a few dozen values per function with all lanes equal; exponent extremes, subnormals and mixed lanes are not covered.",
 [X+'fmanip.hpp',X+'frexp.cpp',X+'scalbn.cpp',X+'modf.cpp',X+'logb.cpp',X+'nextafter.cpp',G+'math.hpp'],
 [('exponent/mantissa bit manipulation',X+'fmanip.hpp'),('library kernels',X+'frexp.cpp, '+X+'scalbn.cpp, '+X+'modf.cpp, '+X+'logb.cpp, '+X+'nextafter.cpp')],['result elements'])
prop('P12','Rounding to integral values is exact under every rounding mode',
 "ceil, floor, trunc, round, rint and nearbyint return in every element exactly the value of the C library function for that element under the rounding mode in force (sign of zero included), and the versions converting to an integer type return the same value as an integer whenever it is representable. The rounding mode is the same after the call as before.",
 ['inputs','configurations','histories'],"all bit patterns x 4 rounding modes x vector shapes x instruction sets",
 "There is no test for rounding functions; SSE2 emulation, halfway cases and dynamic rounding modes interact.",
 [X+'round.hpp',G+'math.hpp'],[('native and emulated rounding',X+'round.hpp')],['result elements','rounding mode before/after'])
prop('P13','Min, max, clamp, abs, remainders and interpolation equal the scalar functions',
 "min, max, minmax and clamp (vector or scalar bounds, no NaN operands) return the scalar result element by element for every integer and floating-point type; abs/fabs clear the sign; fmax and fmin return the other operand when exactly one is NaN; fdim, fmod, remainder and remquo equal the C library functions; lerp(a,b,0) is a, and lerp is within rounding error of a+t(b-a) elsewhere.",
 IC,"all operand values x types x shapes x instruction sets",
 "None of these functions is tested.",
 [X+'minmax.hpp',X+'mbase.hpp',G+'type.hpp',G+'math.hpp'],[('min/max and emulations',X+'minmax.hpp'),('basic math',X+'mbase.hpp')],['result elements'])
prop('P14','Trigonometric functions are accurate for every argument',
 "sin, cos, tan, the combined sine and cosine, asin, acos and atan return in every element a value within a few units in the last place of the exact result (for sine, cosine and tangent plus the error of reducing the argument, a fraction of the spacing of the argument), for every finite argument however large, near zeros, poles and the borders of the internal ranges. The sign of zero is kept, and infinities, arguments outside the domain and NaN give what the C library gives.",
 IC,"all bit patterns (neighbours of multiples of Pi/4 in particular) x vector shapes x instruction sets x compilers",
 "The existing tests sample equal lanes on a coarse grid with a relative tolerance of 1e-3 for floats; range reduction errors occur at isolated arguments and in isolated lanes.",
 [X+'trig.hpp',X+'sincos.cpp',X+'tan.cpp',X+'asincos.cpp',X+'atan.cpp',X+'polevl.hpp',G+'math.hpp'],
 [('range reduction and polynomials',X+'sincos.cpp, '+X+'tan.cpp'),('inverse functions',X+'asincos.cpp, '+X+'atan.cpp')],['result elements'])
prop('P15','Logarithms are accurate for every argument',
 "log, log2, log10 and log1p return in every element a value within a few units in the last place (absolute near one, where the result crosses zero; relative for log1p near zero) of the exact logarithm, for every positive argument, subnormal numbers and neighbours of one and of powers of two included. Zero gives negative infinity, negative arguments and NaN give NaN, infinity gives infinity.",
 IC,"all bit patterns x vector shapes x instruction sets x compilers",
 "The existing tests use a few dozen values with equal lanes; the table of logarithms has an entry per leading mantissa bits and subnormals take another path.",
 [X+'exp.hpp',X+'log.cpp',X+'log2.cpp',X+'log10.cpp',X+'log1p.cpp',X+'lut.hpp','dpm/detail/fconst.cpp',G+'math.hpp'],
 [('logarithm kernels and tables',X+'log.cpp, '+X+'log2.cpp, '+X+'log10.cpp, '+X+'log1p.cpp')],['result elements'])
prop('P16','Hypotenuse, powers and two-argument arctangent are accurate for every pair',
 "hypot, pow and atan2 return in every element a value within two units in the last place of the exact result for every pair of arguments, without avoidable overflow or underflow; hypot neither overflows for large nor loses precision for small or subnormal or very different arguments. Infinite, zero and NaN arguments give what the C library gives.",
 IC,"all pairs of bit patterns (independent and of related exponents) x vector shapes x instruction sets",
 "The existing hypot test samples a handful of pairs with equal lanes; overflow and underflow of intermediate squares depend on both exponents.",
 [X+'hypot.cpp',X+'pow.hpp',X+'trig.hpp',G+'math.hpp'],[('scaled hypotenuse',X+'hypot.cpp'),('element-wise fallbacks',G+'math.hpp')],['result elements'])
prop('P17','Every other math function applies the C library function per element',
 "Exponentials, cbrt, hyperbolic functions and their inverses, erf, erfc, tgamma and lgamma equal the C library function of that name in every element, for every argument. Overloads on integer vectors or on mixed element types give vectors of the promoted type (double, or long double when an argument is long double) whose elements equal the C library function applied to the promoted arguments.",
 IC,"all argument values x element type combinations x vector shapes x instruction sets",
 "None of these overloads is instantiated by an existing test, except for a few exponentials of one type.",
 [G+'math.hpp',X+'exp.hpp',X+'hypbl.hpp',X+'errfn.hpp',X+'pow.hpp','dpm/math.hpp'],[('element-wise functions and promotions',G+'math.hpp')],['result elements','result type'])
prop('P18','Every error-handling configuration keeps its documented guarantees',
 "With the library built without error handling, elements whose arguments and result are finite and within range and domain are as accurate as with it, whatever erroneous values the neighbouring elements hold. With only NaN propagation enabled a NaN argument gives a NaN result in the same element. Making the extension namespace non-inline changes neither which programs compile (with qualified names) nor any result.",
 ['configurations','inputs'],"documented build options x all bit patterns x vector shapes x instruction sets",
 "The existing tests are built for one option set only (error handling on).",
 [G+'math.hpp',X+'except.hpp',X+'sincos.cpp',X+'tan.cpp',X+'asincos.cpp',X+'exp.hpp',X+'scalbn.cpp',X+'logb.cpp',X+'hypot.cpp',X+'modf.cpp',X+'nextafter.cpp','dpm/detail/config.hpp'],
 [('conditional error paths',X+'except.hpp'),('option handling','dpm/detail/config.hpp')],['result elements','compilation'])
prop('P19','Each result element depends on the same elements of the operands only',
 "A math function, arithmetic operator or comparison of vectors gives an element the same result whatever its position, the values of its neighbours, the contents of the unused part of the registers and the calls made before. The operands of the call keep their values, the floating-point control state (rounding mode, masks) is the same after the call as before, and exception flags which were already raised stay raised.",
 ['inputs','histories','configurations'],"all operand values x neighbours x positions x padding x flag states x vector shapes x instruction sets",
 "The existing tests fill every element with the same value and call each function once; leaks between elements (a shared slow path, a mask of the wrong width) need neighbours of different kinds.",
 [X+'sincos.cpp',X+'tan.cpp',X+'asincos.cpp',X+'atan.cpp',X+'log.cpp',X+'log1p.cpp',X+'hypot.cpp',X+'scalbn.cpp',X+'frexp.cpp',X+'modf.cpp',X+'except.hpp',X+'fmanip.hpp',G+'math.hpp'],
 [('paths taken when any element is special',X+'except.hpp, '+X+'sincos.cpp, '+X+'log.cpp, '+X+'hypot.cpp'),('masking of unused register parts',X+'transform.hpp')],['result elements','operand bytes','floating-point environment'])
prop('P20','No operation has undefined behaviour for operands within its preconditions',
 "Using any vector or mask operation (construction, element access, memory transfer, arithmetic, comparison, conversion, shuffle, blend, reduction or math function) with operands for which the scalar operation is defined executes no undefined behaviour in the library: no access outside an object, through a misaligned pointer or to a dead object, no signed overflow or excessive shift, no out-of-range conversion, no invalid bool. This holds for unoptimised and optimised code of both compilers.",
 IC+['programs'],"all operations x element types x vector shapes x instruction sets x compilers",
 "Undefined behaviour usually gives the expected result in the build under test; the existing tests run without sanitizers.",
 [X+'type.hpp',X+'transform.hpp',X+'bitwise.hpp',X+'muldiv.hpp',X+'cvt.hpp',X+'fmanip.hpp',X+'trig.hpp',X+'lut.hpp',G+'type.hpp',G+'math.hpp','dpm/detail/alias.hpp'],
 [('native vector code',X+'type.hpp'),('scalar loops and emulation',G+'type.hpp'),('table look-up',X+'lut.hpp')],['sanitizer reports'])
prop('P21','Concurrent calls do not interfere',
 "Threads which call math functions, operators and comparisons at the same time, on operands shared between them, the first call of the process included, get the results a single thread gets, and no two of them access the same memory without synchronisation when one of the accesses is a write.",
 ['schedules','inputs','configurations'],"all interleavings of calls x functions x vector shapes x instruction sets",
 "The existing tests are single-threaded; hidden state (lazily filled tables, static scratch buffers) shows only when calls overlap.",
 [X+'sincos.cpp',X+'tan.cpp',X+'log.cpp',X+'log2.cpp',X+'log10.cpp',X+'log1p.cpp',X+'lut.hpp','dpm/detail/fconst.cpp',X+'hypot.cpp',X+'scalbn.cpp',X+'modf.cpp',G+'math.hpp'],
 [('kernels and constant tables of the library','dpm/detail/fconst.cpp, '+X+'log.cpp, '+X+'sincos.cpp')],['result elements of every thread','data race reports'])
prop('P22','Processor feature detection reports exactly the usable features',
 "On every x86 processor the feature queries answer true exactly for the features which the processor reports and, for those needing wider registers, whose register state the operating system has enabled; the vendor queries recognise exactly their vendor. No processor leaf is read beyond the highest one supported, and the extended control register is read only where it exists.",
 ['inputs','histories'],"all processors (highest leaf, vendor, feature words, operating system state), in any order of queries",
 "A test can observe the one processor it runs on only.",
 [X+'cpuid.hpp',X+'cpuid.cpp'],[('cpuid and xgetbv queries and their caching',X+'cpuid.cpp')],['answers of the queries','instructions executed'])
prop('P23','Constant evaluation gives the results of execution',
 "An expression of vectors or masks which can be evaluated by the compiler in a constant expression (construction, element access, memory transfer, operators, comparisons, conversion, shuffle, blend, reduction and math functions) has there, in every element, the value the same expression has when executed, for every element type, vector shape and instruction set.",
 ['programs','inputs','configurations'],"all constant expressions x operand values x element types x shapes x instruction sets",
 "The existing tests evaluate nothing at compile time; most functions have a separate path for constant evaluation.",
 [X+'type.hpp',X+'mbase.hpp',X+'fmanip.hpp',X+'trig.hpp',X+'exp.hpp',X+'pow.hpp',X+'round.hpp',X+'class.hpp',X+'minmax.hpp',G+'type.hpp',G+'math.hpp'],
 [('the branches for constant evaluation',X+'type.hpp, '+X+'mbase.hpp')],['constants computed by the compiler','result elements'])
prop('P24','Vector types have the layout, tags and native views their tags promise',
 "A vector or mask type reports the number of elements and the alignment of its tag, is aligned accordingly and at least as large as its elements, and the tags derived from others (native, compatible, deduced, rebound, resized, common) have the element count asked for. The view of a vector as native registers shows its elements in order and writing through it changes exactly those; copies, assignments, moves and swaps keep every element bit for bit.",
 ['programs','inputs','configurations'],"all element types x element counts x alignments x instruction sets",
 "The existing tests never inspect layout, tags or the native view; each element count selects another register split.",
 [X+'abi.hpp',X+'type.hpp',X+'type_fwd.hpp',G+'abi.hpp',G+'type.hpp','dpm/traits.hpp','dpm/utility.hpp'],
 [('tags and deduction',G+'abi.hpp, '+X+'abi.hpp'),('storage and native view',X+'type.hpp')],['sizes and alignments','elements and bytes of the views'])
prop('P25','Emulation on architectures without vector instructions gives the scalar results',
 "Built for an architecture whose vector instructions the library does not support, the library and its headers compile, and every vector and mask operation (arithmetic, comparison, memory transfer, conversion, shuffle, blend, reduction, math function) gives in every element the result of the scalar operation, for every element type (long double included), tag and element count.",
 IC,"all operations x operand values x element types x vector shapes",
 "The existing tests are built for x86 with SSE2 or later, so the emulation is instantiated for few shapes, and its math functions never.",
 [G+'type.hpp',G+'math.hpp',G+'abi.hpp','dpm/simd.hpp','dpm/math.hpp','dpm/detail/x86/math_fwd.hpp'],
 [('generic vector implementation',G+'type.hpp'),('generic math functions',G+'math.hpp')],['result elements','compilation'])
#MORE
here=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(here,'w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')
print(len(P),'properties')
for p in P:
    for f in p['anchors']['files']: assert os.path.exists('/repo/'+f),(p['id'],f)
