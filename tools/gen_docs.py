#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below (run by hand after editing; the outputs are committed)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'symbolic execution of the LLVM IR of the real code, verification conditions decided by SMT (z3, cvc5), counterexamples replayed natively'
INP = ['inputs', 'configurations']
TCANT = 'The unit tests compare a few dozen values on one or two instantiations; the property ranges over every bit pattern of every operand and over all formats. '

P = []
def prop(id, title, statement, text, why, files, mech, over=INP, state=(), observe=(), note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None),
                  note=note, na=na))

P8H = 'include/posit8.hpp'
PH, UH, BH, FH = 'include/posit.h', 'include/unpacked.h', 'include/bithippop.hpp', 'include/floattraits.hpp'
ST = [('v', 'the posit pattern, sign extended in the holder', PH), ('exponent/fraction/type', 'the unpacked number', UH)]

prop('C01', 'A pattern decodes to the value the posit format assigns to it',
     'Every bit pattern of every posit format (holder, total bits, exponent bits, NaN/infinity variant) decodes to exactly the value the format defines: two\'s complement sign, regime run, exponent bits (missing ones read as 0), fraction, plus zero, NaN and infinities. '
     'The field view (regime, exponent field, fraction), the full view and the classification queries all agree with that definition.',
     'all bit patterns, per instantiation', TCANT + 'Regimes that leave no room for exponent or fraction bits, minimum/maximum patterns and holders wider than the posit are barely sampled.',
     [PH, BH], [('unpack_low / unpack_posit / unpacked_low2full', PH), ('decode_posit_rs, findbitleftmostC, join_reg_exp', PH + ', ' + BH)], state=ST, observe=['unpack()', 'unpack_low()', 'isNaN()', 'isinfinity()', 'iszero()', 'isnegative()', 'isone()'])
prop('C02', 'Encoding truncates and saturates correctly and inverts decoding',
     'Encoding any number (sign, any exponent, any fraction, or zero/infinity/NaN) yields the largest posit not above it in magnitude, never zero or a special pattern for a non-zero finite number: below the smallest posit it gives the smallest, above the largest it gives the largest. '
     'Decoding a posit and encoding it again, in the full or the field view, or through an IEEE format wide enough for it, returns the same pattern.',
     'all unpacked numbers (every exponent of the exponent type, every fraction) and all patterns, per instantiation', TCANT + 'Saturation and shifts as wide as the holder are only reached by extreme exponents.',
     [PH, UH], [('pack_posit / pack_low / unpacked_full2low / split_reg_exp', PH), ('shift_right_full', BH)], state=ST, observe=['Posit(Unpacked)', 'pack_low', 'Posit((float)p)', 'Posit((double)p)'])
prop('C03', 'A float or double converts to the posit truncated from its value',
     'Constructing a posit from any float or double (normal, denormal, signed zero, infinity, NaN), or from raw IEEE single bits, gives the posit truncated toward zero from its exact value with saturation at the smallest and largest magnitudes; NaN gives NaN (or the unsigned infinity when the format has no NaN) and zero gives zero.',
     'all 2^32 singles and all 2^64 doubles, per instantiation', TCANT + 'Denormals, NaN payloads and values outside the posit range are not sampled for narrow fraction types.',
     [PH, UH, FH], [('Unpacked(float/double), unpack_float/unpack_xfloat', UH), ('pack_posit', PH)], state=ST, observe=['Posit(float)', 'Posit(double)', 'Posit(single_tag, bits)'])
prop('C04', 'Integers convert to posits and back by truncation with saturation',
     'Constructing a posit from any 32 bit integer gives the posit truncated toward zero from it (saturating at the largest). Converting a posit to an integer truncates its value toward zero and saturates at the ends of the integer range.',
     'all 2^32 integers and all patterns, per instantiation', TCANT + 'The most negative integer, values at or beyond 2^31 and fractions wider than 32 bits are not tried.',
     [PH, UH], [('Posit(int)', PH), ('Unpacked int conversions', UH)], state=ST, observe=['Posit(int)', '(int)p'])
prop('C05', 'A posit converts to the IEEE value of its exact value, truncated',
     'Converting any posit to float or double (or to the bits of an IEEE single) gives exactly its value when the format can hold it and otherwise the value truncated toward zero saturating at the largest finite value of the format and going through its denormals down to +0; NaN gives NaN, infinity gives infinity and zero gives +0.',
     'all patterns, per instantiation', TCANT + 'Conversions near the denormal and overflow limits of the IEEE formats need exponent fields no test uses.',
     [PH, UH, FH], [('pack_xfloati / pack_float / operator float/double', UH), ('as_float_bin', PH)], state=ST, observe=['(float)p', '(double)p', 'as_float_bin()'])
prop('C06', 'Negation and absolute value are exact on every pattern',
     'Negation returns the posit of exactly opposite value for every pattern, keeps zero, NaN and the unsigned infinity, swaps signed infinities, and is its own inverse; absolute value returns the operand or its opposite, whichever is not negative, and keeps NaN. Every spelling (operator, member, free function) returns the same pattern.',
     'all patterns, per instantiation', TCANT + 'The top pattern, whose two\'s complement is itself, is not sampled in holders wider than the posit.',
     [PH], [('neg, operator-, abs, std::abs', PH)], state=ST, observe=['-p', 'p.neg()', 'neg(p)', 'p.abs()', 'std::abs(p)'])
prop('C07', 'Comparisons order posits as their values',
     'The six comparison operators agree with the order of the represented values for all pairs of posits: NaN is unordered (only != holds), infinities lie beyond the finite numbers, equality holds exactly for equal values. Minimum and maximum follow that order; next and previous step to the neighbouring finite posit and stay there at the two ends and on specials.',
     'all pairs of patterns, per instantiation', TCANT + 'Order is a property of pairs; NaN and the ends of the range are not compared.',
     [PH], [('comparison operators, std::min/max, next, prev', PH)], state=ST, observe=['== != < <= > >=', 'std::min', 'std::max', 'next()', 'prev()'])
prop('C08', 'Sums and differences are the exact result, truncated',
     'For any two posits of a format whose working fraction has at least two spare bits, the sum and the difference are the exact real result truncated toward zero to a posit (with saturation); only for an effective subtraction of operands so far apart that bits leave the working fraction may an inexact result be the next posit away from zero. '
     'x - x is zero, zero is neutral, NaN absorbs, infinities behave as in the extended reals with opposite signed infinities giving NaN, and the compound assignment gives the same result.',
     'all pairs of patterns, per instantiation with FT bits >= N-1-es', TCANT + 'Alignment distance, cancellation, carry and normalisation depend on both operands together.',
     [PH, UH], [('operator+ / operator- / operator+=', PH), ('Unpacked operator+, normalized, alignment shifts', UH)], state=ST, observe=['a+b', 'a-b', 'a+=b'])
prop('C09', 'Products are the exact product, truncated',
     'For any two posits of a format whose working fraction has at least two spare bits, the product is the exact product truncated toward zero to a posit, with saturation to the smallest and largest magnitudes and the sign rule; zero times finite is zero, zero times infinity is NaN (the top pattern), NaN absorbs. One is neutral, minus one negates, and the compound assignment gives the same result.',
     'all pairs of patterns, per instantiation', TCANT + 'Carry out of the mantissa product and saturation combine both operands.',
     [PH, UH], [('operator*, operator*=', PH), ('Unpacked operator*', UH)], state=ST, observe=['a*b', 'a*=b'])
prop('C10', 'Quotients are the exact quotient, truncated',
     'For any two posits of a format whose working fraction has at least two spare bits, the quotient is the exact quotient truncated toward zero to a posit with saturation and the sign rule; x/0 is the infinity (NaN where the format has none), 0/0 and infinity/infinity are NaN, finite/infinity is zero, NaN absorbs. Dividing by one and minus one is exact and the compound assignment gives the same result.',
     'all pairs of patterns, per instantiation', TCANT + 'Whether the quotient mantissa is below or above one and the truncated tail depend on both operands.',
     [PH, UH], [('operator/, operator/=', PH), ('Unpacked operator/', UH)], state=ST, observe=['a/b', 'a/=b'])
prop('C11', 'Reciprocal, halving and doubling are exact or truncated',
     'The reciprocal of a posit is the exact reciprocal truncated toward zero (powers of two exactly), with 1/0 the infinity (NaN where there is none) and 1/infinity zero, in every spelling. Halving and doubling, which work on the fields directly, return the exact half and double truncated toward zero and saturated, and leave zero and specials alone.',
     'all patterns, per instantiation', TCANT + 'Regime changes under halving/doubling happen at particular exponents only.',
     [PH, UH], [('inv, half, twice', PH), ('Unpacked inv', UH)], state=ST, observe=['p.inv()', '~p', 'inv(p)', 'p.half()', 'p.twice()'])
prop('C14', 'Unpacked soft-float arithmetic is correct for every operand',
     'The unpacked soft-float type adds, subtracts, multiplies, divides, inverts and negates any two numbers whose fractions leave two spare bits giving the exact result truncated within the fraction (a borrow from bits shifted out allowed), normalised, with the IEEE-like algebra of zero, infinity and NaN; equality and inequality are complementary and a NaN is never equal.',
     'all types, signs and fractions, exponents up to 2^13 (16 bit) or 2^20 in magnitude, per fraction/exponent type', TCANT + 'Only a few sums are tested and only on one or two fraction types.',
     [UH], [('operator + - * /, inv, normalized, operator==', UH)], state=ST[1:], observe=['Unpacked operators'])
prop('C15', 'Unpacked numbers convert to and from IEEE half, single and double',
     'Reading any half, single or double (denormals, infinities and NaN included) yields its exact value (truncated to the fraction type), and writing any unpacked number yields the IEEE value truncated toward zero, saturating at the largest finite value and underflowing gradually to +0; reading what was written returns the number.',
     'all IEEE bit patterns and all unpacked numbers, per fraction/exponent type', TCANT + 'Denormals, and fraction types narrower than the IEEE fraction, are hardly tested.',
     [UH, FH], [('unpack_xfloat, pack_xfloati, unpack_float', UH), ('float traits', FH)], state=ST[1:], observe=['Unpacked(float)', 'Unpacked(double)', 'pack_xfloati', '(float)u', '(double)u'])
prop('C16', 'Fixed point and integer conversions of unpacked numbers are exact',
     'Reading any signed fixed point number with any supported number of fraction bits yields its exact value, and writing truncates toward zero with saturation at the ends of the fixed point range; zero gives zero and the most negative value is handled.',
     'all fixed point values and all unpacked numbers, per fraction type and fixed point format', TCANT + 'Only the round trip of one value is compiled in the test of fixed point.',
     [UH, 'include/fixedtraits.hpp'], [('unpack_fixed / pack_fixed / unpack_int', UH)], state=ST[1:], observe=['unpack_fixed', 'pack_fixed'])
prop('C12', 'Special values follow one algebra and finite operands stay finite',
     'Addition, subtraction, multiplication, division, reciprocal, halving, doubling and fused multiply-add of zero, NaN and (signed or unsigned) infinities give the value the format\'s algebra prescribes: NaN absorbs, 0*infinity, 0/0 and infinity/infinity are NaN, opposite signed infinities cancel to NaN, anything else with an infinity is an infinity (or zero when divided by it). '
     'Finite operands never yield a special pattern, except a division by zero; a non-zero product, quotient or reciprocal is never zero and has the sign of the exact result; a sum is zero only for opposite operands.',
     'all patterns of all operands, per instantiation (including formats whose working fraction is too narrow for exact results)', TCANT + 'Special operands in either position, and saturation instead of overflow to a special pattern, are not tested.',
     [PH, UH], [('operators of Posit and Unpacked, infinity/NaN branches', UH), ('pack_posit of specials', PH)], state=ST, observe=['+ - * / inv half twice fma'])
prop('C13', 'Fused multiply-add and dot products round once',
     'For formats whose working fraction holds a full product, fma(a,b,c), the two-term dot product and the POSITMUL expression forms a*b+c, c+a*b, a*b+c*d and a*b-c*d give the exact real result truncated once toward zero (only when an effective subtraction drops bits of the smaller term may an inexact result be the next posit away from zero), with the algebra of the special values. '
     'A one-term dot product is the product, an empty one is zero, and a longer one equals accumulating the unpacked products in order.',
     'all patterns of all three or four operands, per instantiation', TCANT + 'There are 2^96 to 2^128 operand tuples; fma and dot are tested on one value each.',
     [PH, UH], [('fma, dot, dotPosit, UnpackedMul expression operators', PH), ('Unpacked operator* and operator+', UH)], state=ST, observe=['fma(a,b,c)', 'Posit::dot', 'a*b+c with POSITMUL'])
prop('C21', 'Named constants and numeric_limits are right for every format',
     'zero, one, mone, two, onehalf, max, min, lowest, nan, inf, pinf, ninf and infinity have the patterns of those values in every format (two and onehalf truncated where the format cannot hold them), and numeric_limits agrees: max, min, lowest, epsilon (the distance from one to its successor), exponent range, infinity/NaN flags and values. '
     'No finite posit lies beyond max/lowest or between zero and min; one plus one is two and two times onehalf is one.',
     'all instantiations in the list and all patterns for the bounds', TCANT + 'The constants are computed per template instantiation and are tested in one or two.',
     [PH], [('Posit constants, PT constants, std::numeric_limits<Posit>', PH)], state=ST, observe=['Posit::max() ...', 'std::numeric_limits<Posit>'])
prop('C23', 'Unit range helpers compute what they say',
     'isUnitRange holds exactly for the values from 0 to 1; on these, urOneMinus gives the reflected pattern, which for formats without exponent bits is exactly 1-x, and urDeltaPs gives the product x*(1-x) of the posit arithmetic; pseudosigmoid and pseudosoftplus are the bit-level functions of Gustafson: the pattern with the top bit flipped shifted right by two and by one within the format.',
     'all patterns, per instantiation', TCANT + 'Negative operands and holders wider than the posit behave differently and are not sampled.',
     [PH], [('isUnitRange, urOneMinus, urDeltaPs, pseudosigmoid, pseudosoftplus', PH)], state=ST, observe=['p.pseudosigmoid()', 'p.urOneMinus()', 'p.urDeltaPs()'])
prop('C24', 'Analysis reports the true fields of a pattern',
     'analyze() reports for every pattern its sign, regime value and length, number of exponent and fraction bits present, exponent field, total exponent and left aligned fraction as the format defines them, and flags infinity and NaN; for zero and specials the fields are zero.',
     'all patterns, per instantiation', TCANT + 'It is only printed by a tool.',
     [PH], [('Posit::analyze, PositInfo', PH)], state=ST, observe=['p.analyze()'])
prop('C26', 'Arithmetic obeys the symmetric laws bit for bit',
     'Whatever the format and its working precision: a+b = b+a, a*b = b*a, a-b = a+(-b), (-a)+(-b) = -(a+b), (-a)*b = a*(-b) = -(a*b), (-a)/b = a/(-b) = -(a/b) for non-zero b, a-a = 0 and a/a = 1 for finite non-zero a, -(-a) = a, |-a| = |a|, 1/(-a) = -(1/a).',
     'all patterns and pairs, per instantiation (including formats whose working fraction is too narrow for exact results)', TCANT + 'Asymmetries between operands need particular exponent distances or signs.',
     [PH, UH], [('operators of Posit', PH), ('Unpacked operators', UH)], state=ST, observe=['+ - * / neg abs inv'])
prop('C17', 'The tabulated 8 bit posit is the posit<8,0>',
     'posit8 behaves as the 8 bit posit without exponent bits and with NaN: for every operand its table based +, -, *, /, +=, *=, reciprocal, half, double and square are the exact result truncated toward zero and saturated, with the algebra of zero and NaN; 2^x is one of the two posits around the exact value; negation, absolute value, order of numbers, min/max, classification, constants and numeric_limits are those of the value. '
     'It converts from int, float and double by truncation and to float and double exactly (to int by truncation), and to and from Posit<8,0> and the unpacked number without changing the value.',
     'all pairs of patterns and all ints, floats and doubles', TCANT + 'The test prints a few operations; the 65536 entries of a table and its indexing with negative patterns are not compared with anything.',
     [P8H, 'src/posit8.cpp', 'src/posit8_gen.cpp'], [('operators over posit8ns tables, uu()', P8H), ('table generation', 'src/posit8_gen.cpp'), ('constructors', 'src/posit8.cpp')], state=[('opadd, opmul, opdiv, opinv ...', 'tables indexed by the unsigned patterns', 'src/posit8_gen.cpp'), ('v', 'the pattern', P8H)], observe=['operators of posit8', 'conversions of posit8'])
prop('C18', 'The tabulated 10 and 12 bit posits are the posits <10,2> and <12,2>',
     'posit10 and posit12 behave as posits of 10 and 12 bits with two exponent bits and NaN: for every operand +, -, *, /, +=, *=, reciprocal, half, double and square are the exact result truncated toward zero and saturated (for posit10, whose tables come from single precision, a difference of operands more than 18 binades apart may be the next posit away from zero), with the algebra of zero and NaN; 2^x within the range of single precision is one of the two posits around the exact value. '
     'Negation, absolute value, order of numbers, min/max, classification, constants and numeric_limits are those of the value, and conversions from and to int, float, double, Posit and unpacked numbers truncate or keep the value.',
     'all pairs of patterns and all ints, floats and doubles', TCANT + 'The million entries of each posit10 table are never compared with anything.',
     ['include/posit10.hpp', 'include/posit12.hpp', 'src/posit10.cpp', 'src/posit12.cpp', 'src/posit10_gen.cpp', 'src/posit12_gen.cpp'], [('operators over posit10ns/posit12ns tables, uu()', 'include/posit10.hpp, include/posit12.hpp'), ('table generation', 'src/posit10_gen.cpp, src/posit12_gen.cpp'), ('constructors', 'src/posit10.cpp, src/posit12.cpp')],
     state=[('opadd, opmul, opdiv, opinv ...', 'tables indexed by the unsigned patterns', 'src/posit10_gen.cpp'), ('v', 'the pattern', 'include/posit10.hpp')], observe=['operators of posit10 and posit12', 'conversions of posit10 and posit12'])
prop('C19', 'The committed tables are those the generators produce',
     'Every entry of the tables kept in the source tree for posit8 and posit12 (sum, product, quotient, reciprocal, half, square, power of two and value as float) equals the entry the generator program produces from the library at the same place.',
     'every index of every table', 'The build regenerates the tables, so no test sees the committed ones, although they are what a user who compiles the sources directly gets.',
     ['src/posit8_tbl.cpp', 'src/posit12_tbl.cpp', 'src/posit8_gen.cpp', 'src/posit12_gen.cpp'], [('committed tables', 'src/posit8_tbl.cpp, src/posit12_tbl.cpp'), ('generators', 'src/posit8_gen.cpp, src/posit12_gen.cpp')],
     state=[('posit8ns::op*, posit12ns::op*', 'result tables', 'src/posit8_tbl.cpp, src/posit12_tbl.cpp')], observe=['table entries'])
prop('C20', 'Emulated small floats compute in float or double and truncate',
     'anyfloat_emu of any exponent/fraction size behaves as an IEEE-like format (denormals, infinities, NaN): converting to float, double or int gives the exact value (truncated or saturated where the target is narrower), converting from float, double or int truncates toward zero, saturating at the largest finite value and keeping infinities and NaN; a value converted out and back is unchanged. '
     'Sum, difference, product, quotient, reciprocal, half, double, multiply-add and the compound assignments are the operation in the implementation type (float or double, round to nearest) on the exact operands, then truncated to the format; comparisons, min/max, negation, absolute value, sign and the named constants are those of the values.',
     'all patterns of all operands and all floats, doubles and ints, for the IEEE-like formats in the list', TCANT + 'The anyfloat test prints; denormals, NaN and saturation of narrow formats are not compared.',
     ['include/anyfloat.hpp', UH, FH], [('anyfloat_emu operators and conversions', 'include/anyfloat.hpp'), ('make_floati / pack_xfloati / pack_xfloat', UH), ('any_floattrait', FH)], state=[('v', 'the bits of the small float', 'include/anyfloat.hpp')], observe=['operators and conversions of anyfloat_emu'])
prop('C25', 'The float based posit agrees with the posit and computes in float or double',
     'PositF encodes, decodes, converts (float, double, int, unpacked), negates, compares numbers, steps, classifies and names constants exactly as the posit of the same format (conversions to int and IEEE by truncation). Its sum, difference, product, quotient, reciprocal, half, double, multiply-add and compound assignments are the operation of the implementation type (float or double, round to nearest even) on the operands truncated to that type, then truncated to the posit with saturation; zero is neutral in sums, NaN absorbs.',
     'all patterns of all operands, per instantiation', TCANT + 'Its test compares sums with a single second operand.',
     ['include/positf.h', UH], [('PositF operators and conversions', 'include/positf.h'), ('unpack/pack through Posit', PH)], state=[('v', 'the posit pattern', 'include/positf.h')], observe=['operators and conversions of PositF'])
prop('C27', 'The tabulated 8 bit float computes in single precision and truncates',
     'binary8tab (5 exponent and 2 fraction bits, with denormals, infinities and NaN) returns for every operand the single precision sum, difference, product, quotient, reciprocal, half, double and square of the exact operands, truncated to the format (saturating at its largest finite value); conversions from float, double and int truncate, conversions to float and double are exact, to int truncate; comparisons, min/max, negation, absolute value, sign, constants and numeric_limits are those of the values.',
     'all pairs of patterns and all ints, floats and doubles', TCANT + 'It is not tested at all: its test is commented out of the build.',
     ['include/binary8.hpp', 'src/binary8.cpp', 'src/binary8_gen.cpp'], [('operators over binary8ns tables', 'include/binary8.hpp'), ('table generation', 'src/binary8_gen.cpp'), ('constructors', 'src/binary8.cpp')], state=[('opadd, opmul, opdiv ...', 'tables indexed by the unsigned patterns', 'src/binary8_gen.cpp'), ('v', 'the bits of the float', 'include/binary8.hpp')], observe=['operators and conversions of binary8tab'])
prop('C28', 'Half precision numbers convert and compute correctly with and without F16C',
     'float16n32 converts any half to float and double exactly and any float to half by truncation (saturating, underflowing gradually) in the portable code and by rounding to nearest even (overflowing to infinity) with the F16C instructions; sums, differences, products, quotients, squares, reciprocals, halves, square roots, remainders, multiply-add and compound assignments are the single precision operation on the exact operands followed by that conversion; order and equality, negation, absolute value and constants are those of the values and half to float and back is the identity.',
     'all patterns of all operands and all floats, for both conversion paths', TCANT + 'Its test prints one value, on whichever path the build machine selects.',
     ['include/float16native32.hpp', UH], [('float16nto32, float32to16n (two versions)', 'include/float16native32.hpp'), ('float16n32 operators', 'include/float16native32.hpp')], state=[('value', 'the bits of the half', 'include/float16native32.hpp')], observe=['operators and conversions of float16n32'])
prop('C22', 'No operand makes the library execute undefined behaviour',
     'No operation of the number types (decoding, encoding, every conversion, arithmetic, fused operations, comparisons, helpers, constants, table lookups), whatever the operand patterns, shifts by a negative amount or by the operand width or more, overflows a signed integer, divides by zero, scans an empty word for a bit, '
     'converts an out of range floating point number to an integer, or reads outside an array: the result never depends on the compiler, its optimisation level or the machine.',
     'all bit patterns of all operands, per instantiation', TCANT + 'On the build machine an undefined shift often gives the expected bits; the operands that reach one are rare (extreme regimes, cancelled fractions).',
     [PH, UH, BH, FH, 'include/anyfloat.hpp', 'include/positf.h', 'include/float16native32.hpp', P8H], [('shifts of pack_low/unpack_low, alignment and normalisation shifts', PH + ', ' + UH), ('shift_right_full, findbitleftmostC', BH)], state=ST, observe=['every operation, compiled with -fsanitize checks that trap'])
prop('C29', 'Bit helpers extract, place and count the bits they name',
     'The bit helpers the number types are built on do what they say for every word and position, with and without the processor\'s bit instructions: leading zero count, masks of any number of ones, reading and replacing a bit field, bits at either end, moving a left or right aligned value to another width, right shifts by any amount, absolute value; '
     'float2bits, which finds the bits of a float by arithmetic so that it can run at compile time, returns exactly the bits of every float (zero without sign, one NaN).',
     'all words of 8 to 64 bits and all positions inside the word; all floats', 'The test prints one word and one position; a wrong field position or a zero width only shows on others.',
     [BH, 'include/floatconst2bits.hpp'], [('bitmask, bitset_get, bitset_getT, bitset_part, findbitleftmostC, cast_msb, cast_right_to_left, shift_right_full', BH), ('float2bits, count_leading_zeroes', 'include/floatconst2bits.hpp')], observe=['bitset_get(x,off,size)', 'bitset_part(x,v,off,size)', 'float2bits(f)'])
prop('C30', 'Every lane of the SIMD posit8 does what posit8 does',
     'Each of the 32 lanes of simd_posit8_32 gives, for every content of the registers, what the scalar tabulated posit8 gives for that lane: sum, difference, product, quotient, reciprocal, square, exp2, negation, half, double, and conversion to float; '
     'lanes never influence each other (no index carries over, no lane is dropped or repeated); negative and NaN masks are per lane and infinity is never reported; construction from an int or a float fills every lane with the encoding posit8 has for it.',
     'all contents of all 256 bit registers; all floats and ints', 'No test uses the SIMD type; a shuffled or sign extended lane index is right for half of the values or some of the lanes.',
     ['include/simdposit8.hpp', 'src/simdposit8.cpp', P8H], [('simd_posit8_32 operators', 'src/simdposit8.cpp')], state=[('register', '32 posit8 lanes', 'include/simdposit8.hpp')], observe=['a + b, a - b, a * b, a / b, -a, inv, square, exp2, half, twice', '(std::array<float,32>)a'])
prop('C31', 'The 128-bit integer the library brings for compilers without one behaves like one',
     'Where the compiler has no 128-bit integer, the library uses its own (unsigned128) as the double-width word of 64-bit fractions. For every operand its sum, difference, order, shifts by 0 to 127, conversions and leading zero count are those of a 128-bit integer, its product of two 64-bit words is the exact 128-bit product and its quotient of a normalised double word by a word is the exact truncated quotient; '
     'so the product and the quotient of unpacked numbers with 64-bit fractions are the ones a build with a native 128-bit integer gives.',
     'all 64-bit words and 128-bit operands, all shift distances', 'No test is built without the native integer, so this code is never run; carries between the halves and shifts by 0 or 64 show only on particular operands.',
     ['include/typehelpers.hpp', UH], [('unsigned128, nextintop<uint64_t>::extramul / extradiv', 'include/typehelpers.hpp'), ('operator *, operator /', UH)], state=[('hi, lo', 'the two words of the integer', 'include/typehelpers.hpp')], observe=['extramul(a,b)', 'extradiv(n,d)', 'a*b and a/b of Unpacked<uint64_t,int> built with -U__SIZEOF_INT128__'])
#NEXT
if __name__ == '__main__':
    sys.path[:0] = [os.path.join(ROOT, 'checks'), os.path.join(ROOT, 'engine')]
    import registry
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P: f.write(json.dumps({k: v for k, v in p.items() if k not in ('note', 'na')}) + '\n')
    checks, na = [], []
    for p in P:
        if p['na']: na.append(dict(property=p['id'], reason=p['na'])); continue
        r = registry.PROPS[p['id']]
        checks.append(dict(property=p['id'], quick_cmd='./check %s quick' % p['id'], thorough_cmd='./check %s thorough' % p['id'], technique=TECH, level=r.level,
                           level_note=p['note'] or 'Decided for every operand value of each listed instantiation (bounds in the evidence file); trusts clang\'s IR, the IR encoder (validated against the compiled code on each run), the reference semantics and the solvers. Goals the solver leaves open are listed in the evidence as undecided and not counted as held.'))
    json.dump(dict(version=1, setup_cmd='./setup', checks=checks, not_applicable=na,
                   notes='One driver for all checks: engine/main.py; DESIGN.md explains the method. No hooks in /repo are used; fix: commits are listed in known_findings.json.'), open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
