#!/usr/bin/env python3
"""Rewrites MANIFEST.json from the tables below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'contract-based deductive verification (Verus) of code extracted from /repo on every run'
CHECKS = {
 'C01': 'all obligations of operator+,-,+=,-=,++,--,unary,add,subtract,negate,abs and their callees in AddSub.cpp; operands up to 0x30000000 limbs',
 'C02': 'all obligations of operator*,*=,multiply and SquMul.cpp (schoolbook and Karatsuba, multiply and square); operands up to 2^28 limbs',
 'C03': 'all obligations of operator/,%,/=,%=,divide,remainder,div_rem and DivRem.cpp (Knuth D); operands up to 0x30000000 limbs',
 'C04': 'all obligations of pow and its callees in PowMod.cpp, BitsBuffer.cpp and SquMul.cpp; values up to 0x30000000 limbs, every exponent',
 'C05': 'all obligations of mod_pow and its callees in PowMod.cpp, BitsBuffer.cpp, FastReducer.cpp (Barrett reduction), DivRem.cpp and SquMul.cpp; operands up to 0x30000000 limbs, every modulus length on both sides of ReducerThreshold',
 'C06': 'all obligations of greatest_common_divisor and its callees in GcdInv.cpp (Lehmer with Jebelean\'s condition, Euclid), BitsBuffer.cpp and DivRem.cpp; operands up to 0x30000000 limbs',
 'C07': 'all obligations of <<, >>, <<=, >>= and their callees; every shift count of int, values up to 0x38000000 limbs before / 0x30000000 after the shift',
 'C08': 'all obligations of &, |, ^, ~ and their assigning forms and callees, over the infinite two\'s complement digits',
 'C09': 'all obligations of compare_to, equals, the six relations, Compare/Max/Min, the predicates, is_power_of_two and get_hash_code',
 'C10': 'all obligations of to_byte_array (both forms), get_byte_count, the byte-array constructor and their callees, and the lemma that decoding an encoding gives the value back; values up to 0x1ffffff0 limbs, arrays up to 0x7ffffff0 bytes',
 'C11': 'all obligations of to_string, parse, try_parse and their callees, and the lemma that parsing the decimal text of x gives x; texts up to 0x7ffffff0 characters, values up to 0x7fffffff limbs (to_string may throw above 214748364 limbs)',
 'C12': 'all obligations of the four integer constructors and the four native conversion operators',
 'C13': 'all obligations of BigInteger(double), operator double and their callees, over the 64-bit pattern of the double (the union of a double and its bits is read as that pattern)',
 'C14': 'the canonical-form postcondition wf(..) of every public constructor, operator and function returning or storing a BigInteger, with everything it rests on',
 'C15': 'every index, pointer, overflow, shift, division, assert and termination obligation of every function of the library (including log, log10, operator float), operands up to the limits in the contracts',
 'C17': 'frame conditions of every public function (a parameter given read-only is never written; the translation rejects a write) and the contracts of x op= x and of div_rem with its remainder also an operand, proved on instances of the same source with the parameters bound to one object',
 'C18': 'all obligations of log (both forms), log10 and csharp_log_wrapper: special cases exact, otherwise a relative error of at most 12 (natural log: 14) units of 2^-52, proved from ln(xy) = ln x + ln y and ln x <= x - 1 under the assumptions that IEEE operations round within one unit and std::log within one unit',
 'C19': 'all obligations of to_biginteger, to_py_int and every function registered with pybind11 (operators, constructors, conversions, bytes, hash, logarithms; arguments converted by pybind11 as declared), and of the library below them; Python ints below 2^(32*0x0ffffff0) in magnitude, BigIntegers up to 0x0ffffff0 limbs; CPython\'s _PyLong_NumBits/_PyLong_AsByteArray/_PyLong_FromByteArray int comparisons, hash, float and the buffer protocol by trusted contracts',
 'C16': 'all obligations of get_bit_length and leading_zeros_count',
}
NA = {}
props = [json.loads(l)['id'] for l in open(ROOT + '/properties.jsonl')]
m = dict(version=1, setup_cmd='true', checks=[], not_applicable=[])
for p in props:
    if p in CHECKS:
        m['checks'].append(dict(property=p, quick_cmd='python3 tool/check.py %s' % p, thorough_cmd='VERIF_TIER=thorough python3 tool/check.py %s' % p, technique=T, level='proof', level_note=CHECKS[p]))
    else: m['not_applicable'].append(dict(property=p, reason=NA.get(p, 'not claimed yet: contracts in progress')))
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1); open(ROOT + '/MANIFEST.json', 'a').write('\n')
