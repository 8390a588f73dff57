"""Per property: the functions whose contracts state it (the rest of the proof is their call cone)."""
G = 'BigInteger::'; W = 'BigIntegerCalculator::'
def m(*a): return [G + x for x in a]
ROOTS = {
 'C01': m('operator+=(B)', 'operator-=(B)', 'operator++()', 'operator++(i)', 'operator--()', 'operator--(i)', 'operator-()', 'operator+()', 'add(B,B)', 'subtract(B,B)', 'negate(B)', 'abs(B)') + ['operator+(B,B)', 'operator-(B,B)'],
 'C02': m('operator*=(B)', 'multiply(B,B)') + ['operator*(B,B)'],
 'C03': m('operator/=(B)', 'operator%=(B)', 'divide(B,B)', 'remainder(B,B)', 'div_rem(B,B,B)') + ['operator/(B,B)', 'operator%(B,B)'],
 'C04': m('pow(B,i)'),
 'C05': m('mod_pow(B,B,B)'),
 'C06': m('greatest_common_divisor(B,B)'),
 'C07': m('operator<<=(i)', 'operator>>=(i)') + ['operator<<(B,i)', 'operator>>(B,i)'],
 'C08': m('operator&=(B)', 'operator|=(B)', 'operator^=(B)', 'operator~()') + ['operator&(B,B)', 'operator|(B,B)', 'operator^(B,B)'],
 'C09': m('compare_to(B)', 'equals(B)', 'is_zero()', 'is_one()', 'is_even()', 'is_power_of_two()', 'sign()', 'get_hash_code()') + ['operator%s(B,B)' % o for o in ('<', '<=', '>', '>=', '==', '!=')] + ['Compare(B,B)', 'Max(B,B)', 'Min(B,B)'],
 'C10': m('BigInteger(y,b,b)', 'to_byte_array(b,b)', 'to_byte_array(e,b,b,q)', 'get_byte_count(b)'),
 'C11': m('parse(s)', 'to_string()', 'try_parse(s,B)'),
 'C12': m('BigInteger(i)', 'BigInteger(u)', 'BigInteger(l)', 'BigInteger(L)', 'operator int()', 'operator unsigned int()', 'operator long()', 'operator unsigned long()'),
 'C13': m('BigInteger(d)', 'operator double()'),
 'C16': m('get_bit_length()'),
}
# client code (client/client.cpp): default arguments, laws over several operations
for _p, _k in {'C01': ['user_undo(B,B)'], 'C07': ['user_shift(B,i)'], 'C09': ['user_same(B,B)'], 'C10': ['user_bytes(B)', 'user_bytes_unsigned(B)', 'user_bytes_mode(B)', 'user_byte_count(B)', 'user_from_bytes(y)', 'user_from_bytes_unsigned(y)', 'user_bytes_round(B)'],
               'C11': ['user_text_round(B)'], 'C12': ['user_int(i)', 'user_uint(u)', 'user_long(l)', 'user_ulong(L)'], 'C13': ['user_double(d)']}.items(): ROOTS[_p] += _k
ALLAPI = sorted({k for v in ROOTS.values() for k in v})
LOGS = m('log(B)', 'log(B,d)', 'log10(B)')
ROOTS['C18'] = LOGS
CTORS = m('BigInteger()', 'BigInteger(i,v)', 'BigInteger(v,b)', 'BigInteger(v)', 'zero()', 'one()', 'minus_one()')
REST = m('greatest_common_divisor(v,v)', 'get_bits()', 'to_uint32_array()', 'sign_internal()', 'operator float()', 'double_IsFinite(d)', 'double_IsNaN(d)', 'double_IsInfinity(d)') + LOGS
ROOTS['C14'] = ALLAPI + CTORS + m('greatest_common_divisor(v,v)')
ROOTS['C15'] = ALLAPI + CTORS + REST
ROOTS['C17'] = ALLAPI + REST
_P = ['py:__%s__(%s)' % (o, t) for o in ('lt', 'le', 'eq', 'gt', 'ge', 'add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'divmod', 'and', 'or', 'xor', 'lshift', 'rshift', 'pow') for t in ('B,B', 'B,J')]
_P += ['py:__r%s__(B,J)' % o for o in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'divmod', 'and', 'or', 'xor', 'lshift', 'rshift', 'pow')]
ROOTS['C19'] = ['to_biginteger(J,b)', 'to_py_int(B,b,b)', 'py:init(J)', 'py:__int__(B)', 'py:__index__(B)'] + _P + ['py:__pow__(%s)' % t for t in ('B,B,B', 'B,J,B', 'B,B,J')] + ['py:__%s__(B)' % o for o in ('neg', 'pos', 'abs', 'invert')] + ['py:log(B)', 'py:log(J)', 'py:log(B,d)', 'py:log(J,d)', 'py:log10(J)'] + ['py:%s' % k for k in ('init(Y)', '__bytes__(B)', 'to_array(B,b,b)', 'to_array(B|is_unsigned,is_bigendian)', '__float__(B)', '__deepcopy__(B,J)', '__str__(B)', 'zero()', 'one()', 'minus_one()', 'is_power_of_two(B)', 'is_even(B)', 'log10(B)', 'get_bit_Length(B)', 'sign(B)', '__hash__(B)')]
# instances of a function with two of its parameters bound to the same object (property C17, contracts/o_alias.py)
ALIAS = [G + 'operator%s=(B)@rhs=this' % o for o in '+-*&|^'] + [G + 'operator%s=(B)@div=this' % o for o in '/%'] + [G + 'div_rem(B,B,B)@' + a for a in ('dividend=remainder', 'divisor=remainder', 'all')]
# postconditions a property does not depend on: a failure of one of these is not a failure of the property; the
# postcondition is dropped from the contract and the rest is proved again without it
def droppable(prop, key, ens):
    if prop == 'C15': return True
    if prop == 'C14': return 'wf(' not in ens
    if prop == 'C17': return '@' not in key
    return key not in ROOTS[prop]
