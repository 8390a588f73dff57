// Client code: what a user writes, in the user's words. It is verified (contracts/r_client.py) against the contracts of the
// library alone, so that default arguments and laws that join several operations are obligations as well.
// Not compiled into anything; clang reads it together with /repo's public header.
#include "bigintegercpp/BigInteger.h"

byte_array user_bytes(const BigInteger& x) { return x.to_byte_array(); }
byte_array user_bytes_unsigned(const BigInteger& x) { return x.to_byte_array(true); }
byte_array user_bytes_mode(const BigInteger& x) { return x.to_byte_array(BigInteger::AllocateArray); }
int user_byte_count(const BigInteger& x) { return x.get_byte_count(); }
BigInteger user_from_bytes(byte_array bytes) { return BigInteger(bytes); }
BigInteger user_from_bytes_unsigned(byte_array bytes) { return BigInteger(bytes, true); }
BigInteger user_bytes_round(const BigInteger& x) { return BigInteger(x.to_byte_array()); }
BigInteger user_text_round(const BigInteger& x) { return BigInteger::parse(x.to_string()); }
BigInteger user_undo(const BigInteger& a, const BigInteger& b) { return (a + b) - b; }
BigInteger user_shift(const BigInteger& x, int n) { return (x << n) >> n; }
int user_int(int v) { BigInteger x(v); return static_cast<int>(x); }
unsigned int user_uint(unsigned int v) { BigInteger x(v); return static_cast<unsigned int>(x); }
long user_long(long v) { BigInteger x(v); return static_cast<long>(x); }
unsigned long user_ulong(unsigned long v) { BigInteger x(v); return static_cast<unsigned long>(x); }
double user_double(double v) { BigInteger x(v); return static_cast<double>(x); }
bool user_same(const BigInteger& a, const BigInteger& b) { return (a < b) || (a == b) || (a > b); }
