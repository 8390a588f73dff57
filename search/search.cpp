// Failing-input search and replay on the real library (oracle: boost cpp_int).
//   search run  PROP SECONDS SEED PROCS OUT   -> exit 1 and OUT written if a failing case is found, else 0
//   search case FILE                          -> re-run one case, exit 1 if it fails
#include <bigintegercpp/BigInteger.h>
#include <exceptions.h>
#include <boost/multiprecision/cpp_int.hpp>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <random>
#include <sstream>
#include <fstream>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <cmath>

using Z = boost::multiprecision::cpp_int;
using std::string; using std::vector;
typedef std::mt19937_64 Rng;

struct Case { string op; Z a, b, c; int64_t n = 0; string bytes; };
struct Fail { string prop, msg; };

static string hexs(const Z& x) { std::ostringstream o; Z t = x < 0 ? Z(-x) : x; if (x < 0) o << '-'; o << "0x" << std::hex << t; return o.str(); }
static Z unhex(const string& s) { bool n = s[0] == '-'; Z r(n ? s.substr(1) : s); return n ? Z(-r) : r; }
static string hexb(const string& s) { static const char* d = "0123456789abcdef"; string r; for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; } return r; }
static string unhexb(const string& s) { string r; for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char) std::stoi(s.substr(i, 2), 0, 16); return r; }

static Z absz(const Z& x) { return x < 0 ? Z(-x) : x; }
static vector<uint32_t> limbs(const Z& x) { vector<uint32_t> r; Z t = absz(x); if (t != 0) export_bits(t, std::back_inserter(r), 32, false); return r; }
static Z fromlimbs(const vector<uint32_t>& v) { Z r = 0; if (!v.empty()) import_bits(r, v.begin(), v.end(), 32, false); return r; }
static bool small(const Z& x) { return absz(x) < (Z(1) << 31); }
static BigInteger mk(const Z& x) {
    if (small(x)) return BigInteger((int) static_cast<long>(x), uint_array());
    return BigInteger(x < 0 ? -1 : 1, limbs(x));
}
static Z val(const BigInteger& x) {
    auto b = x.get_bits();
    if (b.empty()) return Z(x.sign_internal());
    Z r = fromlimbs(b); return x.sign_internal() < 0 ? Z(-r) : r;
}
static bool canon(const BigInteger& x) {
    auto b = x.get_bits(); int s = x.sign_internal();
    if (b.empty()) return s != INT_MIN;
    return (s == 1 || s == -1) && b.back() != 0 && (b.size() > 1 || b[0] >= 0x80000000u);
}
static Z fdiv2(const Z& x, unsigned s) { if (x >= 0) return x >> s; return -((-x + (Z(1) << s) - 1) >> s); }

struct Ctx {
    vector<Fail> fails; string prop; const Case& k;
    Ctx(const Case& c, string p) : prop(p), k(c) {}
    void bad(const string& p, const string& m) { fails.push_back({p, m}); }
    void chk(bool ok, const string& m) { if (!ok) bad(prop, m); }
    void eq(const BigInteger& r, const Z& e, const string& what) {
        Z v = val(r);
        if (v != e) bad(prop, what + ": got " + hexs(v) + " expected " + hexs(e));
        if (!canon(r)) bad("C14", what + ": not canonical: sign=" + std::to_string(r.sign_internal()) + " limbs=" + std::to_string(r.get_bits().size()) + " value " + hexs(v));
    }
    void same(const BigInteger& r, const Z& e, const string& what) {
        if (val(r) != e || !canon(r)) bad("C17", what + " changed: got " + hexs(val(r)) + " expected " + hexs(e));
    }
};
static void ologchk(Ctx& x, const char* what, double r, const Z& v, double b, int tol);

static Z oracle_bit(const Z& a, const Z& b, int op) {
    unsigned n = 64; if (a != 0) n = std::max(n, (unsigned) msb(absz(a)) + 66); if (b != 0) n = std::max(n, (unsigned) msb(absz(b)) + 66);
    Z m = Z(1) << n; Z x = a < 0 ? Z(a + m) : a, y = b < 0 ? Z(b + m) : b;
    Z r = op == 0 ? Z(x & y) : op == 1 ? Z(x | y) : Z(x ^ y);
    if (r >= (Z(1) << (n - 1))) r -= m;
    return r;
}
static Z ogcd(Z a, Z b) { a = absz(a); b = absz(b); while (b != 0) { Z t = a % b; a = b; b = t; } return a; }
static Z omodpow(const Z& v, Z e, const Z& m) {
    Z am = absz(m), b = absz(v) % am, r = 1 % am; bool odd = (e & 1) != 0;
    while (e != 0) { if ((e & 1) != 0) r = r * b % am; b = b * b % am; e >>= 1; }
    return v < 0 && odd ? Z(-r) : r;
}
static Z obytes(const string& s, bool uns, bool be) {
    Z r = 0; if (s.empty()) return r;
    for (size_t i = 0; i < s.size(); i++) r = (r << 8) | (unsigned char) (be ? s[i] : s[s.size() - 1 - i]);
    unsigned char top = be ? s[0] : s[s.size() - 1];
    if (!uns && (top & 0x80)) r -= Z(1) << (8 * s.size());
    return r;
}
static size_t obitlen(const Z& x) { // least n with -2^n <= x < 2^n
    if (x == 0 || x == -1) return 0;
    return x > 0 ? msb(x) + 1 : msb(Z(-x - 1)) + 1;
}
static Z odbl(double d) {
    int e; double f = std::frexp(std::fabs(d), &e); uint64_t m = (uint64_t) std::ldexp(f, 53); e -= 53;
    Z r = m; if (e >= 0) r <<= e; else if (e <= -64) r = 0; else r >>= -e;
    return d < 0 ? Z(-r) : r;
}
static double otodbl(const Z& x) {
    if (x == 0) return 0.0;
    Z t = absz(x); unsigned n = msb(t) + 1; if (n > 1024) return x < 0 ? -INFINITY : INFINITY;
    int e = 0; if (n > 53) { e = n - 53; t >>= e; }
    double d = std::ldexp((double) static_cast<uint64_t>(t), e); return x < 0 ? -d : d;
}
static Z oparse(const string& s) {
    size_t i = 0; bool neg = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; i++; }
    size_t j = i; while (j < s.size() && s[j] >= '0' && s[j] <= '9') j++;
    while (i + 1 < j && s[i] == '0') i++;
    Z r = j > i ? Z(s.substr(i, j - i)) : Z(0); return neg ? Z(-r) : r;
}
template<class F> static int thrown(F f) { // 0 none 1 DivideByZero 2 overflow 3 out_of_range 4 runtime 5 other
    try { f(); return 0; } catch (const DivideByZero&) { return 1; } catch (const std::overflow_error&) { return 2; }
    catch (const std::out_of_range&) { return 3; } catch (const std::runtime_error&) { return 4; } catch (...) { return 5; }
}
#define NOTHROW(stmt, what) do { int t_ = thrown([&] { stmt; }); if (t_) x.bad(x.prop, string(what) + " threw exception kind " + std::to_string(t_)); } while (0)

typedef void (*OpF)(Ctx&, const Case&);
struct OpD { const char* name; const char* prop; OpF f; };

#define BIN(NM, PR, EXPR, ORA) {NM, PR, [](Ctx& x, const Case& k) { BigInteger A = mk(k.a), B = mk(k.b); Z e = ORA; \
    NOTHROW({ BigInteger r = EXPR; x.eq(r, e, NM); }, NM); x.same(A, k.a, "left operand"); x.same(B, k.b, "right operand"); }}
#define ASG(NM, PR, OP, ORA) {NM, PR, [](Ctx& x, const Case& k) { BigInteger A = mk(k.a), B = mk(k.b); Z e = ORA; \
    NOTHROW({ BigInteger& r = (A OP B); x.chk(&r == &A, NM " returns another object"); x.eq(A, e, NM); }, NM); x.same(B, k.b, "right operand"); }}
#define ALI(NM, OP, ORA) {NM, "C17", [](Ctx& x, const Case& k) { BigInteger A = mk(k.a); Z e = ORA; \
    NOTHROW({ A OP A; x.eq(A, e, NM); }, NM); }}
#define UN(NM, PR, EXPR, ORA) {NM, PR, [](Ctx& x, const Case& k) { BigInteger A = mk(k.a); Z e = ORA; \
    NOTHROW({ BigInteger r = EXPR; x.eq(r, e, NM); }, NM); x.same(A, k.a, "operand"); }}
#define UNM(NM, PR, EXPR, ORA) {NM, PR, [](Ctx& x, const Case& k) { BigInteger A = mk(k.a); Z e = ORA; \
    NOTHROW({ BigInteger r = EXPR; x.eq(r, e, NM); x.eq(A, e, NM); }, NM); }}
#define DIVX(NM, EXPR, ORA, CHKA) {NM, "C03", [](Ctx& x, const Case& k) { BigInteger A = mk(k.a), B = mk(k.b); \
    if (k.b == 0) { x.chk(thrown([&] { BigInteger r = EXPR; }) == 1, NM " by zero does not throw DivideByZero"); } \
    else { Z e = ORA; NOTHROW({ BigInteger r = EXPR; x.eq(r, e, NM); }, NM); } \
    if (CHKA) x.same(A, k.a, "left operand"); x.same(B, k.b, "right operand"); }}

template<class T> static void toint(Ctx& x, const Case& k, const char* nm) {
    BigInteger A = mk(k.a); Z lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    bool in = k.a >= lo && k.a <= hi; T r = 0; int t = thrown([&] { r = A.operator T(); });
    if (in) { x.chk(t == 0, string(nm) + " threw on a value in range"); if (!t) x.chk(Z(r) == k.a, string(nm) + " gave " + hexs(Z(r)) + " for " + hexs(k.a)); }
    else x.chk(t == 2, string(nm) + " did not throw overflow_error out of range (kind " + std::to_string(t) + ")");
    x.same(A, k.a, "operand");
}
static int sgn(const Z& z) { return z < 0 ? -1 : z > 0 ? 1 : 0; }

static const OpD OPS[] = {
    BIN("add", "C01", A + B, Z(k.a + k.b)), BIN("sub", "C01", A - B, Z(k.a - k.b)),
    ASG("add_assign", "C01", +=, Z(k.a + k.b)), ASG("sub_assign", "C01", -=, Z(k.a - k.b)),
    BIN("static_add", "C01", BigInteger::add(A, B), Z(k.a + k.b)), BIN("static_sub", "C01", BigInteger::subtract(A, B), Z(k.a - k.b)),
    UNM("pre_inc", "C01", ++A, Z(k.a + 1)), UNM("pre_dec", "C01", --A, Z(k.a - 1)),
    UNM("post_inc", "C01", A++, Z(k.a + 1)), UNM("post_dec", "C01", A--, Z(k.a - 1)),
    UN("neg", "C01", -A, Z(-k.a)), UN("plus", "C01", +A, k.a), UN("negate", "C01", BigInteger::negate(A), Z(-k.a)), UN("abs", "C01", BigInteger::abs(A), absz(k.a)),
    BIN("mul", "C02", A * B, Z(k.a * k.b)), ASG("mul_assign", "C02", *=, Z(k.a * k.b)), BIN("static_mul", "C02", BigInteger::multiply(A, B), Z(k.a * k.b)),
    UN("square", "C02", A * A, Z(k.a * k.a)),
    {"mul_negsame", "C02", [](Ctx& x, const Case& k) { BigInteger A = mk(k.a), B = mk(-k.a); NOTHROW(x.eq(A * B, Z(-k.a * k.a), "mul_negsame"), "mul_negsame"); }},
    DIVX("div", A / B, Z(k.a / k.b), true), DIVX("rem", A % B, Z(k.a % k.b), true),
    DIVX("div_assign", (A /= B), Z(k.a / k.b), false), DIVX("rem_assign", (A %= B), Z(k.a % k.b), false),
    DIVX("static_div", BigInteger::divide(A, B), Z(k.a / k.b), true), DIVX("static_rem", BigInteger::remainder(A, B), Z(k.a % k.b), true),
    {"div_rem", "C03", [](Ctx& x, const Case& k) { BigInteger A = mk(k.a), B = mk(k.b), R = mk(k.c);
        if (k.b == 0) { x.chk(thrown([&] { BigInteger q = BigInteger::div_rem(A, B, R); }) == 1, "div_rem by zero does not throw DivideByZero"); }
        else NOTHROW({ BigInteger q = BigInteger::div_rem(A, B, R); x.eq(q, k.a / k.b, "div_rem quotient"); x.eq(R, k.a % k.b, "div_rem remainder"); }, "div_rem");
        x.same(A, k.a, "dividend"); x.same(B, k.b, "divisor"); }},
    {"pow", "C04", [](Ctx& x, const Case& k) { BigInteger A = mk(k.a); int e = (int) k.n;
        if (e < 0) { x.chk(thrown([&] { BigInteger::pow(A, e); }) == 3, "pow with a negative exponent does not throw out_of_range"); }
        else { Z r; if (absz(k.a) <= 1) r = k.a == -1 && e % 2 == 0 ? Z(1) : e == 0 ? Z(1) : k.a; else { r = 1; Z b = k.a; unsigned n = e; while (n) { if (n & 1) r *= b; n >>= 1; if (n) b *= b; } }
            NOTHROW(x.eq(BigInteger::pow(A, e), r, "pow"), "pow"); }
        x.same(A, k.a, "operand"); }},
    {"pow_huge", "C04", [](Ctx& x, const Case& k) { // the size bound must overflow: exponent so large that it throws at once
        BigInteger A = mk(k.a); if (absz(k.a) < (Z(1) << 64)) return;
        x.chk(thrown([&] { BigInteger::pow(A, 2000000000); }) == 2, "pow beyond the size bound does not throw overflow_error"); }},
    {"mod_pow", "C05", [](Ctx& x, const Case& k) { BigInteger A = mk(k.a), E = mk(k.b), M = mk(k.c);
        if (k.b < 0) x.chk(thrown([&] { BigInteger::mod_pow(A, E, M); }) == 3, "mod_pow with a negative exponent does not throw out_of_range");
        else if (k.c == 0) x.chk(thrown([&] { BigInteger::mod_pow(A, E, M); }) == 1, "mod_pow with modulus zero does not throw DivideByZero");
        else { Z e = omodpow(k.a, k.b, k.c); NOTHROW(x.eq(BigInteger::mod_pow(A, E, M), e, "mod_pow"), "mod_pow"); }
        x.same(A, k.a, "value"); x.same(E, k.b, "exponent"); x.same(M, k.c, "modulus"); }},
    BIN("gcd", "C06", BigInteger::greatest_common_divisor(A, B), ogcd(k.a, k.b)),
    {"shl", "C07", [](Ctx& x, const Case& k) { BigInteger A = mk(k.a); int s = (int) k.n; Z e = s >= 0 ? Z(k.a * (Z(1) << s)) : s <= -100000000 ? Z(k.a < 0 ? -1 : 0) : fdiv2(k.a, (unsigned) -(int64_t) s);
        NOTHROW(x.eq(A << s, e, "shl"), "shl"); x.same(A, k.a, "operand"); NOTHROW({ A <<= s; x.eq(A, e, "shl_assign"); }, "shl_assign"); }},
    {"shr", "C07", [](Ctx& x, const Case& k) { BigInteger A = mk(k.a); int s = (int) k.n; Z e = s < 0 ? Z(k.a * (Z(1) << (unsigned) -(int64_t) s)) : s >= 100000000 ? Z(k.a < 0 ? -1 : 0) : fdiv2(k.a, (unsigned) s);
        NOTHROW(x.eq(A >> s, e, "shr"), "shr"); x.same(A, k.a, "operand"); NOTHROW({ A >>= s; x.eq(A, e, "shr_assign"); }, "shr_assign"); }},
    BIN("and", "C08", A & B, oracle_bit(k.a, k.b, 0)), BIN("or", "C08", A | B, oracle_bit(k.a, k.b, 1)), BIN("xor", "C08", A ^ B, oracle_bit(k.a, k.b, 2)),
    ASG("and_assign", "C08", &=, oracle_bit(k.a, k.b, 0)), ASG("or_assign", "C08", |=, oracle_bit(k.a, k.b, 1)), ASG("xor_assign", "C08", ^=, oracle_bit(k.a, k.b, 2)),
    UN("not", "C08", ~A, Z(-k.a - 1)),
    {"compare", "C09", [](Ctx& x, const Case& k) { BigInteger A = mk(k.a), B = mk(k.b); int c = sgn(k.a - k.b);
        NOTHROW({ int r = A.compare_to(B); x.chk((r < 0) == (c < 0) && (r > 0) == (c > 0), "compare_to gave " + std::to_string(r));
        x.chk((A < B) == (c < 0), "<"); x.chk((A > B) == (c > 0), ">"); x.chk((A <= B) == (c <= 0), "<="); x.chk((A >= B) == (c >= 0), ">=");
        x.chk((A == B) == (c == 0), "=="); x.chk((A != B) == (c != 0), "!="); x.chk(A.equals(B) == (c == 0), "equals");
        if (c == 0) x.chk(A.get_hash_code() == B.get_hash_code(), "hash"); }, "compare"); x.same(A, k.a, "left"); x.same(B, k.b, "right"); }},
    {"predicates", "C09", [](Ctx& x, const Case& k) { BigInteger A = mk(k.a); Z t = k.a; bool p2 = t > 0 && (t & (t - 1)) == 0;
        NOTHROW({ x.chk(A.sign() == sgn(k.a), "sign gave " + std::to_string(A.sign())); x.chk(A.is_zero() == (k.a == 0), "is_zero"); x.chk(A.is_one() == (k.a == 1), "is_one"); x.chk(A.is_even() == (k.a % 2 == 0), "is_even");
        x.chk(A.is_power_of_two() == p2, "is_power_of_two"); }, "predicates"); x.same(A, k.a, "operand");
        BigInteger C = BigInteger::zero(); C = A + BigInteger::one(); C = C - BigInteger::one(); x.chk(C.get_hash_code() == A.get_hash_code() && C == A, "hash or == of the same value computed differently"); }},
    {"to_bytes", "C10", [](Ctx& x, const Case& k) { BigInteger A = mk(k.a); bool u = k.n & 1, be = k.n & 2;
        if (u && k.a < 0) { x.chk(thrown([&] { A.to_byte_array(u, be); }) != 0, "unsigned bytes of a negative value do not throw"); x.chk(thrown([&] { A.get_byte_count(u); }) != 0, "unsigned byte count of a negative value does not throw"); x.same(A, k.a, "operand"); return; }
        NOTHROW({ byte_array r = A.to_byte_array(u, be); string s(r.begin(), r.end());
        size_t want = k.a == 0 ? 1 : u ? (msb(k.a) / 8 + 1) : obitlen(k.a) / 8 + 1;
        x.chk(s.size() == want, "to_byte_array length " + std::to_string(s.size()) + " expected " + std::to_string(want));
        x.chk(obytes(s, u, be) == k.a, "to_byte_array bytes " + hexb(s));
        x.chk(A.get_byte_count(u) == (int) want, "get_byte_count");
        byte_array r2 = A.to_byte_array(BigInteger::AllocateArray, u, be); x.chk(r2 == r, "to_byte_array(mode)"); x.chk((be || (u ? A.to_byte_array(true) : A.to_byte_array()) == r) && (be || u || A.to_byte_array(BigInteger::AllocateArray) == r), "to_byte_array default arguments"); if (!u) x.chk(A.get_byte_count() == (int) r.size(), "get_byte_count default argument"); if (!be) x.eq(u ? BigInteger(r, true) : BigInteger(r), k.a, "BigInteger(bytes) default arguments");
        x.eq(BigInteger(r, u, be), k.a, "round trip"); }, "to_byte_array"); x.same(A, k.a, "operand"); }},
    {"from_bytes", "C10", [](Ctx& x, const Case& k) { bool u = k.n & 1, be = k.n & 2; byte_array v(k.bytes.begin(), k.bytes.end());
        NOTHROW(x.eq(BigInteger(v, u, be), obytes(k.bytes, u, be), "from bytes"), "from bytes"); }},
    {"to_string", "C11", [](Ctx& x, const Case& k) { BigInteger A = mk(k.a); NOTHROW({ string s = A.to_string(); x.chk(s == k.a.str(), "to_string gave " + s);
        x.eq(BigInteger::parse(s), k.a, "parse(to_string)"); BigInteger t = BigInteger::one(); x.chk(BigInteger::try_parse(s, t), "try_parse returned false"); x.eq(t, k.a, "try_parse"); }, "to_string"); x.same(A, k.a, "operand"); }},
    {"parse", "C11", [](Ctx& x, const Case& k) { NOTHROW({ string s = k.bytes; Z e = oparse(k.bytes); x.eq(BigInteger::parse(s), e, "parse"); BigInteger t = BigInteger::one(); x.chk(BigInteger::try_parse(s, t), "try_parse returned false"); x.eq(t, e, "try_parse"); }, "parse"); }},
    {"from_i32", "C12", [](Ctx& x, const Case& k) { int32_t v = (int32_t) k.n; NOTHROW(x.eq(BigInteger(v), Z(v), "BigInteger(int)"), "ctor"); }},
    {"from_u32", "C12", [](Ctx& x, const Case& k) { uint32_t v = (uint32_t) k.n; NOTHROW(x.eq(BigInteger(v), Z(v), "BigInteger(unsigned)"), "ctor"); }},
    {"from_i64", "C12", [](Ctx& x, const Case& k) { int64_t v = k.n; NOTHROW(x.eq(BigInteger(v), Z(v), "BigInteger(int64)"), "ctor"); }},
    {"from_u64", "C12", [](Ctx& x, const Case& k) { uint64_t v = (uint64_t) k.n; NOTHROW(x.eq(BigInteger(v), Z(v), "BigInteger(uint64)"), "ctor"); }},
    {"to_i32", "C12", [](Ctx& x, const Case& k) { toint<int>(x, k, "operator int"); }}, {"to_u32", "C12", [](Ctx& x, const Case& k) { toint<unsigned>(x, k, "operator unsigned"); }},
    {"to_i64", "C12", [](Ctx& x, const Case& k) { toint<long>(x, k, "operator long"); }}, {"to_u64", "C12", [](Ctx& x, const Case& k) { toint<unsigned long>(x, k, "operator unsigned long"); }},
    {"from_double", "C13", [](Ctx& x, const Case& k) { double d; memcpy(&d, &k.n, 8);
        if (!std::isfinite(d)) { x.chk(thrown([&] { BigInteger r(d); }) == 2, "BigInteger(inf or nan) does not throw overflow_error"); return; }
        Z e = odbl(d); NOTHROW(x.eq(BigInteger(d), e, "BigInteger(double)"), "BigInteger(double)");
        if (std::trunc(d) == d) NOTHROW({ BigInteger t(d); x.chk((double) t == d, "double round trip"); }, "round trip"); }},
    {"to_double", "C13", [](Ctx& x, const Case& k) { BigInteger A = mk(k.a); NOTHROW({ double r = A.operator double(); double e = otodbl(k.a); std::ostringstream o; o.precision(20); o << "to double gave " << r << " expected " << e; x.chk(r == e, o.str()); }, "to double"); x.same(A, k.a, "operand"); }},
    {"bit_length", "C16", [](Ctx& x, const Case& k) { BigInteger A = mk(k.a); NOTHROW({ uint64_t r = A.get_bit_length(); x.chk(r == obitlen(k.a), "get_bit_length gave " + std::to_string(r) + " expected " + std::to_string(obitlen(k.a))); }, "get_bit_length"); x.same(A, k.a, "operand"); }},
    ALI("alias_add", +=, Z(2 * k.a)), ALI("alias_sub", -=, Z(0)), ALI("alias_mul", *=, Z(k.a * k.a)), ALI("alias_and", &=, k.a), ALI("alias_or", |=, k.a), ALI("alias_xor", ^=, Z(0)),
    {"alias_div", "C17", [](Ctx& x, const Case& k) { BigInteger A = mk(k.a); if (k.a == 0) { x.chk(thrown([&] { A /= A; }) == 1, "0/=0"); return; } NOTHROW({ A /= A; x.eq(A, 1, "alias_div"); }, "alias_div"); }},
    {"alias_rem", "C17", [](Ctx& x, const Case& k) { BigInteger A = mk(k.a); if (k.a == 0) { x.chk(thrown([&] { A %= A; }) == 1, "0%=0"); return; } NOTHROW({ A %= A; x.eq(A, 0, "alias_rem"); }, "alias_rem"); }},
    {"alias_divrem", "C17", [](Ctx& x, const Case& k) { if (k.b == 0) return; BigInteger A = mk(k.a), B = mk(k.b);
        NOTHROW({ if (k.n & 1) { BigInteger q = BigInteger::div_rem(A, B, A); x.eq(q, k.a / k.b, "quotient"); x.eq(A, k.a % k.b, "remainder"); x.same(B, k.b, "divisor"); }
        else { BigInteger q = BigInteger::div_rem(A, B, B); x.eq(q, k.a / k.b, "quotient"); x.eq(B, k.a % k.b, "remainder"); x.same(A, k.a, "dividend"); } }, "div_rem"); }},
    {"ctor_limbs", "C14", [](Ctx& x, const Case& k) { vector<uint32_t> v(k.bytes.size() / 4); if (!v.empty()) memcpy(v.data(), k.bytes.data(), v.size() * 4); Z e = fromlimbs(v); if (k.n & 1) e = -e;
        NOTHROW({ BigInteger r(v, (bool) (k.n & 1)); x.eq(r, e, "BigInteger(limbs, negative)"); }, "ctor"); }},
    {"log_finite", "C15", [](Ctx& x, const Case& k) { BigInteger A = mk(k.a); NOTHROW({ BigInteger::log(A); BigInteger::log10(A); BigInteger::log(A, 2.0); }, "log"); }},
    {"log", "C18", [](Ctx& x, const Case& k) { BigInteger A = mk(k.a); double b; memcpy(&b, &k.n, 8); NOTHROW({ ologchk(x, "log(value, base)", BigInteger::log(A, b), k.a, b, 12); ologchk(x, "log10", BigInteger::log10(A), k.a, 10, 12); ologchk(x, "log", BigInteger::log(A), k.a, 2.7182818284590451, 14); }, "log"); x.same(A, k.a, "operand"); }},
    {"to_float", "C15", [](Ctx& x, const Case& k) { BigInteger A = mk(k.a); NOTHROW((void) A.operator float(), "to float"); }},
};
static void ologchk(Ctx& x, const char* what, double r, const Z& v, double b, int tol) {
    std::ostringstream o; o.precision(20); o << what << " base " << b << " gave " << r << " expected "; bool ok;
    if (v < 0 || std::isnan(b) || b < 0 || b == 1 || ((b == 0 || std::isinf(b)) && v != 1)) { ok = std::isnan(r); o << "nan"; }
    else if (v == 1) { ok = r == 0; o << 0; }
    else if (v == 0) { ok = std::isinf(r) && (r < 0) == (b > 1); o << (b > 1 ? "-inf" : "inf"); }
    else { long e = msb(v) > 63 ? (long) msb(v) - 63 : 0; long double m = (long double) static_cast<uint64_t>(Z(v >> e));
        long double l = (std::log(m) + e * 0.693147180559945309417232121458176568L) / (b == 2.7182818284590451 && tol == 14 ? 1.0L : std::log((long double) b));
        ok = std::isfinite(r) && std::fabs((long double) r - l) <= (tol + 1) * 0x1p-52L * std::fabs(l); o << l; }
    x.chk(ok, o.str());
}
static const int NOPS = sizeof(OPS) / sizeof(OPS[0]);

// ---------------------------------------------------------------- generation
static uint64_t rnd(Rng& g, uint64_t n) { return g() % n; }
static uint32_t limb(Rng& g) {
    switch (rnd(g, 12)) { case 0: return 0; case 1: return 0xFFFFFFFFu; case 2: return 0x80000000u; case 3: return 0x7FFFFFFFu; case 4: return 1; case 5: return 0xFFFFFFFEu;
        case 6: return 1u << rnd(g, 32); case 7: return (1u << rnd(g, 32)) - 1; case 8: return (uint32_t) (g() >> (32 + rnd(g, 32))); default: return (uint32_t) g(); }
}
static int lcount(Rng& g, int cap) {
    static const int sp[] = {15, 16, 17, 30, 31, 32, 33, 34, 35, 47, 48, 62, 63, 64, 65, 66, 67, 95, 96, 97, 126, 127, 128, 129, 130, 131, 190, 254, 255, 256, 257, 258, 260, 300};
    int n; switch (rnd(g, 10)) { case 0: case 1: case 2: case 3: n = rnd(g, 6); break; case 4: case 5: n = rnd(g, 12); break; case 6: n = rnd(g, 40); break; default: n = sp[rnd(g, sizeof(sp) / sizeof(sp[0]))]; }
    return n > cap ? (int) rnd(g, cap + 1) : n;
}
static Z mag(Rng& g, int n) {
    vector<uint32_t> v(n); int mode = rnd(g, 6); uint32_t f = limb(g);
    for (int i = 0; i < n; i++) {
        if (mode == 0) v[i] = (uint32_t) g(); else if (mode == 1) v[i] = limb(g); else if (mode == 2) v[i] = f; else if (mode == 3) { if (rnd(g, 8) == 0) f = limb(g); v[i] = f; }
        else if (mode == 4) v[i] = rnd(g, n < 4 ? 2 : n / 2) == 0 ? limb(g) : 0; else v[i] = rnd(g, n < 4 ? 2 : n / 2) == 0 ? limb(g) : 0xFFFFFFFFu;
    }
    if (n && v[n - 1] == 0 && rnd(g, 4)) v[n - 1] = limb(g) | 1;
    return fromlimbs(v);
}
static Z edge(Rng& g) {
    static const int sh[] = {0, 1, 7, 8, 15, 16, 23, 24, 30, 31, 32, 33, 39, 40, 47, 52, 53, 54, 55, 56, 62, 63, 64, 65, 95, 96, 97, 127, 128, 1022, 1023, 1024, 1025};
    Z r = Z(1) << sh[rnd(g, sizeof(sh) / sizeof(sh[0]))]; r += (int) rnd(g, 5) - 2; return r;
}
static Z gen(Rng& g, int cap) {
    Z r; switch (rnd(g, 10)) { case 0: r = edge(g); break; case 1: r = (Z(1) << rnd(g, 32 * (lcount(g, cap) + 1))) + (int) rnd(g, 5) - 2; break;
        case 2: r = (int) rnd(g, 300) - 150; break; case 3: { r = 1; Z t = 10; unsigned n = rnd(g, cap * 9 + 2); while (n) { if (n & 1) r *= t; t *= t; n >>= 1; } r += (int) rnd(g, 5) - 2; break; }
        default: r = mag(g, lcount(g, cap)); }
    return rnd(g, 2) ? Z(-r) : r;
}
static Z rel(Rng& g, const Z& a, int cap) { // related to a
    switch (rnd(g, 14)) { case 0: return a; case 1: return -a; case 2: return a + 1; case 3: return a - 1; case 4: return a >> rnd(g, 70); case 5: return a * limb(g);
        case 6: { Z q = mag(g, 1 + rnd(g, 4)); return q == 0 ? Z(1) : Z(a / q); } case 7: return a / 2; case 8: return a + (Z(1) << rnd(g, 200)); case 9: return a - (Z(1) << rnd(g, 200));
        case 10: { size_t l = limbs(a).size(); return mag(g, l); } case 11: return a ^ 0; default: return gen(g, cap); }
}
static bool capped(const Z& x, int l) { return x == 0 || msb(absz(x)) < (unsigned) 32 * l; }
static Case mkcase(Rng& g, const OpD& o) {
    Case k; k.op = o.name; string n = o.name; int cap = 20; uint64_t h = rnd(g, 100); if (h < 25) cap = 80; if (h < 12) cap = 300; if (h > 60) cap = 5;
    if (n == "gcd") {
        Z d = rnd(g, 3) ? mag(g, rnd(g, 6)) : Z(1);
        if (rnd(g, 4) == 0) { // Fibonacci-like: long runs of quotient 1 with occasional large ones
            Z x = mag(g, 1 + rnd(g, 2)) + 1, y = mag(g, rnd(g, 2)); int m = rnd(g, cap * 40 + 3); for (int i = 0; i < m && capped(x, cap); i++) { Z q = rnd(g, 10) ? Z(1 + rnd(g, 2)) : Z(limb(g)) + 1; if (rnd(g, 60) == 0) q = mag(g, 3) + 1; Z t = q * x + y; y = x; x = t; }
            k.a = x * d; k.b = y * d;
        } else { k.a = gen(g, cap) * d; k.b = rel(g, k.a, cap) * (rnd(g, 2) ? Z(1) : d); }
        if (rnd(g, 2)) std::swap(k.a, k.b);
    } else if (n == "pow" || n == "pow_huge") {
        int c = rnd(g, 3) ? 3 : 40; k.a = gen(g, c); size_t l = limbs(k.a).size() + 1; k.n = (int64_t) rnd(g, std::max<size_t>(3, std::min<size_t>(400, 600 / l))); if (rnd(g, 20) == 0) k.n = -1 - (int64_t) rnd(g, 5); if (rnd(g, 50) == 0) k.n = INT_MIN;
        if (absz(k.a) <= 1 && rnd(g, 2)) k.n = rnd(g, INT_MAX);
    } else if (n == "mod_pow") {
        int c = rnd(g, 4) == 0 ? 70 : rnd(g, 2) ? 5 : 2; k.c = rnd(g, 5) ? gen(g, c) : Z(Z(1) << (32 * (28 + rnd(g, 8)))); if (rnd(g, 8) == 0) k.c = (k.c << 1) - (int) rnd(g, 3);
        k.a = rnd(g, 2) ? rel(g, k.c, c) : gen(g, c + 2); if (rnd(g, 6) == 0) { size_t l = limbs(k.c).size(); k.a = (Z(1) << (32 * l)) - 1 - rnd(g, 3); }
        k.b = absz(gen(g, limbs(k.c).size() > 20 ? 2 : 4)); if (rnd(g, 3) == 0) k.b = rnd(g, 20); if (rnd(g, 40) == 0) k.b = -k.b; if (rnd(g, 40) == 0) k.c = 0;
    } else if (n == "shl" || n == "shr") {
        k.a = gen(g, cap); k.n = rnd(g, 3) ? (int64_t) rnd(g, 200) : (int64_t) 32 * rnd(g, 12); if (rnd(g, 4) == 0) { size_t l = limbs(k.a).size(); k.n = 32 * l - 3 + (int64_t) rnd(g, 6); }
        if (rnd(g, 3) == 0) k.n = -k.n; if (rnd(g, 40) == 0) k.n = n == "shl" ? INT_MIN : INT_MAX; if (rnd(g, 60) == 0) k.n = n == "shl" ? -INT_MAX : INT_MAX - 1;
        if (rnd(g, 4) == 0) k.a = -((Z(1) << (32 * (1 + rnd(g, 6)))) - 1 - (rnd(g, 2) ? Z(0) : mag(g, rnd(g, 4))));
    } else if (n == "from_bytes" || n == "ctor_limbs" ) {
        int l = rnd(g, rnd(g, 3) ? 14 : 80); if (n == "ctor_limbs") l &= ~3; for (int i = 0; i < l; i++) k.bytes += (char) (rnd(g, 3) == 0 ? g() : rnd(g, 2) ? 0 : rnd(g, 2) ? 0xff : 0x80);
        if (rnd(g, 3) == 0) for (int i = 0, m = rnd(g, 9) & (n == "ctor_limbs" ? ~3 : ~0); i < m; i++) { char c = rnd(g, 2) ? 0 : (char) 0xff; if (rnd(g, 2)) k.bytes = c + k.bytes; else k.bytes += c; } 
        if (n == "ctor_limbs") while (k.bytes.size() & 3) k.bytes += '\0'; k.n = rnd(g, 4);
    } else if (n == "to_bytes") { k.a = gen(g, cap); k.n = rnd(g, 4); if (rnd(g, 3) == 0) k.a = (Z(1) << (8 * rnd(g, 30) + 7 * rnd(g, 2))) * (rnd(g, 2) ? 1 : -1) + (int) rnd(g, 3) - 1;
    } else if (n == "parse") {
        if (rnd(g, 3) == 0) k.bytes = rnd(g, 2) ? "-" : "+"; int m = rnd(g, 3) ? rnd(g, 40) : rnd(g, 300); bool nine = rnd(g, 4) == 0, z = rnd(g, 4) == 0; for (int i = 0; i < m; i++) k.bytes += nine ? '9' : z ? '0' : (char) ('0' + rnd(g, 10));
        if (rnd(g, 3) == 0) { k.bytes += (char) ("-+ ,.x/:\0e"[rnd(g, 10)]); for (int i = 0, e = rnd(g, 3); i < e; i++) k.bytes += (char) ('0' + rnd(g, 10)); } if (rnd(g, 6) == 0) k.bytes = (char) ("-+ 0/:"[rnd(g, 6)]) + k.bytes;
        k.bytes.erase(std::remove(k.bytes.begin(), k.bytes.end(), '\0'), k.bytes.end());
    } else if (n.substr(0, 5) == "from_" && n != "from_double") { Z e = rnd(g, 2) ? edge(g) : Z((uint64_t) g() >> rnd(g, 64)); k.n = (int64_t) static_cast<uint64_t>(e & Z(~0ull)); if (rnd(g, 2)) k.n = (int64_t) (0 - (uint64_t) k.n);
    } else if (n == "from_double") {
        uint64_t b = g(); if (rnd(g, 2)) { int e = 1023 + (int) rnd(g, 140) - 5; b = (b & 0x800FFFFFFFFFFFFFull) | ((uint64_t) e << 52); } if (rnd(g, 8) == 0) { static const int ee[] = {1, 2, 0x3FE, 0x3FF, 0x400, 0x7FC, 0x7FD, 0x7FE}; b = (b & 0x800FFFFFFFFFFFFFull) | ((uint64_t) ee[rnd(g, 8)] << 52); } if (rnd(g, 4) == 0) b &= ~((1ull << rnd(g, 53)) - 1); if (rnd(g, 4) == 0) b |= ((1ull << rnd(g, 53)) - 1); if (rnd(g, 30) == 0) b = (b & (1ull << 63)) | (0x7FFull << 52) | (rnd(g, 2) ? 0 : g() >> 13);
        if (rnd(g, 20) == 0) b &= 0x800FFFFFFFFFFFFFull; if (rnd(g, 30) == 0) b &= 1ull << 63; memcpy(&k.n, &b, 8);
    } else if (n == "log") {
        static const double sp[] = {2, 10, 2.7182818284590451, 0.5, 0.1, 1, 0, -0.0, -1, -2, 3, 16, 1e300, 1e-300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, INFINITY, -INFINITY, NAN, 1.0000000000000002, 0.99999999999999989};
        double d = sp[rnd(g, 22)]; uint64_t b = g(); if (rnd(g, 2)) { memcpy(&b, &d, 8); } else if (rnd(g, 2)) b = (b & 0x000FFFFFFFFFFFFFull) | ((uint64_t) (1023 - 3 + rnd(g, 8)) << 52); memcpy(&k.n, &b, 8);
        k.a = rnd(g, 3) == 0 ? edge(g) : rnd(g, 8) == 0 ? Z(rnd(g, 4)) : gen(g, cap); if (k.a < 0 && rnd(g, 6)) k.a = -k.a;
    } else if (n.substr(0, 3) == "to_" && n != "to_string" && n != "to_float") { k.a = rnd(g, 2) ? edge(g) : gen(g, rnd(g, 2) ? 4 : 36); if (rnd(g, 2)) k.a = -k.a;
    } else { k.a = gen(g, cap); k.b = rnd(g, 2) ? rel(g, k.a, cap) : gen(g, cap); k.c = gen(g, 3); k.n = rnd(g, 4); string p = o.prop;
        if (p == "C03" || n == "alias_divrem") { // hard quotients
            if (rnd(g, 3) == 0) { int bl = 1 + rnd(g, 6), ql = 1 + rnd(g, 6); vector<uint32_t> b(bl), q(ql); for (auto& t : b) t = limb(g); for (auto& t : q) t = limb(g); if (rnd(g, 2)) b[bl - 1] = 0x80000000u >> (rnd(g, 2) ? 0 : rnd(g, 31)); if (rnd(g, 2) && bl > 1) b[bl - 2] = rnd(g, 2) ? 0 : 0xFFFFFFFFu;
                Z B = fromlimbs(b), Q = fromlimbs(q); if (B == 0) B = 1; k.b = rnd(g, 2) ? B : Z(-B); k.a = B * Q + (rnd(g, 3) == 0 ? Z(-1) : rnd(g, 2) ? Z(B - 1) : Z(mag(g, bl) % B)); if (rnd(g, 2)) k.a = -k.a; }
            if (rnd(g, 60) == 0) k.b = 0; } 
        if (p == "C02" && rnd(g, 3) == 0) { // products just above or below a short multiple of a power of 2^32: long runs of 0 or 0xFFFFFFFF limbs
            Z t = (mag(g, 1 + rnd(g, 2)) + 1) << (32 * (1 + rnd(g, 2 * cap))); if (n == "square" || n == "mul_negsame") k.a = sqrt(t) + (int) rnd(g, 2);
            else { Z m = mag(g, lcount(g, cap)) + 1; k.a = m; k.b = t / m + (int) rnd(g, 2); if (rnd(g, 2)) k.a = -k.a; if (rnd(g, 2)) k.b = -k.b; } }
        if (rnd(g, 2)) std::swap(k.a, k.b); }
    return k;
}
static vector<Fail> runcase(const Case& k) {
    for (int i = 0; i < NOPS; i++) if (k.op == OPS[i].name) { Ctx x(k, OPS[i].prop); OPS[i].f(x, k); return x.fails; }
    return {{"?", "unknown operation " + k.op}};
}
static string ser(const Case& k) { return "op " + k.op + "\na " + hexs(k.a) + "\nb " + hexs(k.b) + "\nc " + hexs(k.c) + "\nn " + std::to_string(k.n) + "\nbytes =" + hexb(k.bytes) + "\n"; }
static Case deser(std::istream& f) { Case k; string l; while (std::getline(f, l)) { size_t p = l.find(' '); if (p == string::npos) continue; string t = l.substr(0, p), v = l.substr(p + 1);
    if (t == "op") k.op = v; else if (t == "a") k.a = unhex(v); else if (t == "b") k.b = unhex(v); else if (t == "c") k.c = unhex(v); else if (t == "n") k.n = std::stoll(v); else if (t == "bytes") k.bytes = unhexb(v.substr(1)); } return k; }

struct Shm { volatile uint64_t serial; volatile int state; volatile uint32_t len; volatile uint64_t done; char buf[1 << 20]; char msg[1 << 16]; };

int main(int argc, char** argv) {
    if (argc >= 3 && string(argv[1]) == "case") { std::ifstream f(argv[2]); Case k = deser(f); std::cout << "replaying\n" << ser(k); std::cout.flush(); alarm(60);
        auto v = runcase(k); for (auto& x : v) std::cout << "FAIL " << x.prop << " " << x.msg << "\n"; if (v.empty()) std::cout << "no failure\n"; return v.empty() ? 0 : 1; }
    if (argc < 7) return 2;
    string prop = argv[2]; double secs = atof(argv[3]); uint64_t seed = strtoull(argv[4], 0, 10); int procs = atoi(argv[5]); string out = argv[6];
    vector<const OpD*> ops; bool any = prop == "ALL", all = any || prop == "C14" || prop == "C15" || prop == "C17";
    for (int i = 0; i < NOPS; i++) if (all || prop == OPS[i].prop) ops.push_back(&OPS[i]);
    if (ops.empty()) return 0;
    vector<Shm*> sh(procs); vector<pid_t> pid(procs); vector<uint64_t> last(procs, 0); vector<time_t> since(procs); vector<int> gen_(procs, 0);
    for (auto& s : sh) { s = (Shm*) mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); s->done = 0; }
    string errbase = out + ".err";
    auto start = [&](int w) { pid_t p = fork(); if (p == 0) {
            int fd = open((errbase + std::to_string(w)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2); dup2(fd, 1);
            Rng g(seed * 1000003 + w * 7919 + gen_[w] * 104729); Shm* s = sh[w]; s->state = 0;
            for (;;) { Case k = mkcase(g, *ops[rnd(g, ops.size())]); string t = ser(k); if (t.size() >= sizeof(s->buf)) continue; memcpy(s->buf, t.data(), t.size()); s->len = t.size(); s->serial++; 
                auto v = runcase(k); s->done++; for (auto& f : v) if (any || f.prop == prop || (!all && f.prop != "C14" && f.prop != "C17")) { string m = f.prop + " " + f.msg; strncpy(s->msg, m.c_str(), sizeof(s->msg) - 1); s->state = 1; _exit(9); } }
        } pid[w] = p; since[w] = time(0); };
    for (int w = 0; w < procs; w++) start(w);
    double t0 = time(0); int found = -1; string why;
    while (found < 0 && time(0) - t0 < secs) { usleep(50000);
        for (int w = 0; w < procs && found < 0; w++) { int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
            if (r == pid[w]) { found = w; if (sh[w]->state == 1) why = sh[w]->msg; else { std::ifstream e(errbase + std::to_string(w)); std::stringstream b; b << e.rdbuf(); why = "abnormal exit, status " + std::to_string(st) + "\n" + b.str().substr(0, 4000); } pid[w] = -1; break; }
            if (sh[w]->serial != last[w]) { last[w] = sh[w]->serial; since[w] = time(0); } else if (time(0) - since[w] > 40) { found = w; why = "no answer after 40 s (hang)"; } } }
    for (int w = 0; w < procs; w++) if (pid[w] > 0) { kill(pid[w], SIGKILL); waitpid(pid[w], 0, 0); }
    uint64_t n = 0; for (auto s : sh) n += s->done; std::cout << "cases " << n << "\n";
    for (int w = 0; w < procs; w++) unlink((errbase + std::to_string(w)).c_str());
    if (found >= 0) { std::ofstream f(out); f << "property " << prop << "\n" << string(sh[found]->buf, sh[found]->len) << "observed " << why << "\n"; std::cout << "found: " << why << "\n"; return 1; }
    return 0;
}
