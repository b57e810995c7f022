//! time_quick: 100
//! time_thorough: 600
//! bound: every pair of native types, every value representable in the target; strings of up to 4 digits in full, of up to 19 digits with one symbolic digit around the ends of int and long, decimal fractions of up to 3+4 digits with exponents
//! assume: floating values cast to integers are representable there
#include "common.h"
#include "conv.h"

template <class T> static T cast_(const var& v, int way);
static var cast_var(const var& v, int t) {
    switch (t) {
    case TYPE_CHAR: return castChar(v);
    case TYPE_INT: return castInt(v);
    case TYPE_LONG: return castLong(v);
    case TYPE_FLOAT: return castFloat(v);
    case TYPE_DOUBLE: return castDouble(v);
    case TYPE_CFLOAT: return castCFloat(v);
    default: return castCDouble(v);
    }
}
static var cast_get(const var& v, int t) {
    switch (t) {
    case TYPE_CHAR: return var(v.cast<char>());
    case TYPE_INT: return var(v.cast<int>());
    case TYPE_LONG: return var(v.cast<long>());
    case TYPE_FLOAT: return var(v.cast<float>());
    case TYPE_DOUBLE: return var(v.cast<double>());
    case TYPE_CFLOAT: return var(v.cast<cfloat>());
    default: return var(v.cast<cdouble>());
    }
}
static void scalar(int t) {
    long mk = __sym_leak_mark();
    {
        int u = (int)__sym_choice("to", T_FIRST, T_LAST);
        Elem e = elem_sym(t, "val");
        __sym_assume(representable(e, u));
        Elem want = conv(e, u);
        var v = elem_var(e), r, arr;
        switch (__sym_choice("form", 0, 3)) {
        case 0: r = cast_var(v, u); break;
        case 1: r = cast_get(v, u); break;
        case 2: arr[1] = v; r = cast_get(arr[1], u); CHECK(holds(arr.at(1), e), "the source stays"); break; // an element
        case 3: { arr["k"] = v; var k; k = arr["k"]; r = cast_var(k, u); CHECK(holds(arr.at(var("k")), e), "the source stays"); break; }
        }
        CHECK(holds(r, want), "the value the language's conversion gives");
        CHECK(holds(v, e), "the source stays");
        __sym_cover("scalar end");
    }
    __sym_leak_check(mk, "storage");
}
HARNESS(from_char) { scalar(TYPE_CHAR); }
HARNESS(from_int) { scalar(TYPE_INT); }
HARNESS(from_long) { scalar(TYPE_LONG); }
HARNESS(from_float) { scalar(TYPE_FLOAT); }
HARNESS(from_double) { scalar(TYPE_DOUBLE); }
HARNESS(from_cfloat) { scalar(TYPE_CFLOAT); }
HARNESS(from_cdouble) { scalar(TYPE_CDOUBLE); }

// elements of typed arrays
HARNESS(elements) {
    int t = (int)__sym_choice("from", T_FIRST, T_LAST), u = (int)__sym_choice("to", T_FIRST, T_LAST);
    Elem e[2];
    var v = elem_var(elem_num(t, 0));
    if (t == TYPE_CDOUBLE) v.resize(0); else { v.array(); v.resize(0); }
    for (int i = 0; i < 2; i++) { e[i] = elem_sym(t, "val"); if (t == TYPE_CDOUBLE) v.append(elem_var(e[i])); else v.push(elem_var(e[i])); }
    int i = (int)__sym_choice("pos", 0, 1);
    __sym_assume(representable(e[i], u));
    var r;
    if (__sym_choice("form", 0, 1)) r = cast_get(v[i], u); else r = cast_var(v.at(i), u);
    CHECK(holds(r, conv(e[i], u)), "the value the language's conversion gives");
    CHECK(v.size() == 2 && (int)v.atype() == t && holds(v.at(0), e[0]) && holds(v.at(1), e[1]), "the source stays");
    if (t != TYPE_CHAR) CHECK(throws([&] { cast_get(v, u == t ? (t == TYPE_INT ? TYPE_LONG : TYPE_INT) : u); }), "an array has no single value");
    __sym_cover("elements end");
}
// strings of digits
static void digits(int u) {
    int n = (int)__sym_choice("len", 1, THOROUGH ? 4 : 3), sign = (int)__sym_choice("sign", 0, 2), lead = (int)__sym_choice("lead", 0, 1);
    char s[8]; int k = 0; long want = 0;
    if (lead) s[k++] = ' ';
    if (sign) s[k++] = sign == 1 ? '-' : '+';
    for (int i = 0; i < n; i++) { int d = (int)__sym_range("digit", 0, 9); s[k++] = (char)('0' + d); want = want * 10 + d; }
    if (sign == 1) want = -want;
    s[k] = 0;
    var v(k, s);
    var r = u == TYPE_INT ? var((long)v.cast<int>()) : u == TYPE_LONG ? var(v.cast<long>()) : var((long)v.cast<double>());
    CHECK(r.get<long>() == want, "a string that spells an integer has its value");
    str_check(v, s, k, "the source stays");
    __sym_cover("digits end");
}
HARNESS(str_int) { digits(TYPE_INT); }
HARNESS(str_long) { digits(TYPE_LONG); }
HARNESS(str_double) { digits(TYPE_DOUBLE); }
// strings of no number
HARNESS(str_refused) {
    int n = (int)__sym_choice("len", 0, 2);
    static const char A[] = {'a', 'x', 'e', '-', '+', ' ', '.', '\t', '(', 'Z', '_', 'n', 'i'};
    char s[4];
    bool num = false;
    for (int i = 0; i < n; i++) { s[i] = A[__sym_choice("byte", 0, (int)sizeof A - 1)]; }
    s[n] = 0;
    int u = (int)__sym_choice("to", 0, 2);
    var v(n, s);
    CHECK(throws([&] { if (u == 0) v.cast<int>(); else if (u == 1) v.cast<long>(); else v.cast<double>(); }), "a string that spells no number is refused");
    str_check(v, s, n, "the source stays");
    __sym_cover("refused end");
}
// any first byte: a number exactly when it starts like one
HARNESS(str_any) {
    char s[3]; s[0] = (char)__sym_bits("byte", 8); s[1] = (char)('0' + __sym_range("digit", 0, 9)); s[2] = 0;
    var v(2, s); int r = 0; bool ref = throws([&] { r = v.cast<int>(); });
    int d = s[1] - '0'; unsigned char c = (unsigned char)s[0];
    if (c >= '0' && c <= '9') CHECK(!ref && r == (c - '0') * 10 + d, "two digits");
    else if (c == ' ' || (c >= 9 && c <= 13) || c == '+') CHECK(!ref && r == d, "one digit after space or sign");
    else if (c == '-') CHECK(!ref && r == -d, "negative digit");
    else CHECK(ref, "a string that spells no number is refused");
    __sym_cover("any end");
}
// numbers of many digits: the integer types to their ends and not past them
HARNESS(str_long_digits) {
    static const char* G[] = {"1234567890123456789", "9223372036854775807", "4294967296", "2147483647", "2147483648", "10000000000", "5000000005"};
    int g = (int)__sym_choice("number", 0, 6), neg = (int)__sym_choice("negative", 0, 1);
    char s[24]; int k = 0, n = (int)strlen(G[g]); unsigned long want = 0;
    if (neg) s[k++] = '-';
    int at = n - 1 - (int)__sym_choice("place", 0, 2);
    for (int i = 0; i < n; i++) {
        int d = G[g][i] - '0';
        if (i == at) d = (int)__sym_range("digit", 0, 9);
        s[k++] = (char)('0' + d); want = want * 10 + d;
    }
    s[k] = 0;
    var v(k, s); long r = 0; int q = 0; double f = 0;
    unsigned long lim = 9223372036854775807UL + neg, ilim = 2147483647UL + neg;
    bool ref = throws([&] { r = v.cast<long>(); });
    if (want > lim) CHECK(ref, "a number past the ends of the type is refused");
    else CHECK(!ref && r == (long)(neg ? 0 - want : want), "a string that spells an integer has its value");
    ref = throws([&] { q = v.cast<int>(); });
    if (want > ilim) CHECK(ref, "a number past the ends of the type is refused");
    else CHECK(!ref && (long)q == (long)(neg ? 0 - want : want), "a string that spells an integer has its value");
    ref = throws([&] { f = v.cast<double>(); });
    if (want < (1UL << 53)) CHECK(!ref && f == (neg ? -(double)(long)want : (double)(long)want), "a whole number of many digits as a double");
    else CHECK(!ref && (neg ? f < 0 : f > 0), "a whole number of many digits as a double");
    str_check(v, s, k, "the source stays");
    __sym_cover("long digits end");
}
// decimal fractions whose value is exact
HARNESS(str_fraction) {
    static const char* F[] = {"5", "25", "75", "125", "0", "0625"}; static const double W[] = {.5, .25, .75, .125, 0, .0625};
    int fr = (int)__sym_choice("fraction", 0, 5), neg = (int)__sym_choice("negative", 0, 1), ex = (int)__sym_choice("exponent", 0, 3), whole = (int)__sym_choice("digits", 1, 3);
    char s[24]; int k = 0; long w = 0;
    if (neg) s[k++] = '-';
    for (int i = 0; i < whole; i++) { int d = (int)__sym_choice("digit", 0, i ? 3 : 9); s[k++] = (char)('0' + d); w = w * 10 + d; }
    s[k++] = '.';
    for (const char* p = F[fr]; *p; ) s[k++] = *p++;
    double want = (double)w + W[fr];
    if (ex) { s[k++] = ex == 1 ? 'e' : 'E'; if (ex == 3) s[k++] = '+'; s[k++] = '2'; want = want * 100; }
    s[k] = 0; if (neg) want = -want;
    var v(k, s);
    CHECK(v.cast<double>() == want, "a string that spells a number has its value");
    CHECK(v.cast<float>() == (float)want, "a string that spells a number has its value");
    // as an integer: the whole part in front of the point
    CHECK(v.cast<long>() == (neg ? -w : w), "an integer reads up to the point");
    str_check(v, s, k, "the source stays");
    __sym_cover("fraction end");
}
