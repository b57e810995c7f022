//! time_quick: 150
//! time_thorough: 850
//! bound: every function on scalars, arrays and views (offset 1) of 1 to 4 elements, matrices up to 2x2, 2x1x2 (thorough: up to 8, 3x3, 2x2x2), and larger ones of 9 to 24 elements and rank up to 4, and of 260 to 1030 (one symbolic element), of float, double, cfloat and cdouble; all values; exponents of every type; outputs that share the storage of the operand
//! assume: the elementary functions of the C library are uninterpreted (equal results for equal arguments)
#include "mathops.h"
#include <complex>
enum { FLOOR, SIN, COS, TAN, ATAN, SQRT, LOG, EXP, REAL, IMAG, ABS, ARG, NORM, NF };
static var free_(int f, const var& x) {
    switch (f) {
    case FLOOR: return libube::floor(x); case SIN: return libube::sin(x); case COS: return libube::cos(x); case TAN: return libube::tan(x);
    case ATAN: return libube::atan(x); case SQRT: return libube::sqrt(x); case LOG: return libube::log(x); case EXP: return libube::exp(x);
    case REAL: return libube::real(x); case IMAG: return libube::imag(x); case ABS: return libube::abs(x); case ARG: return libube::arg(x);
    }
    return libube::norm(x);
}
// tan and atan have no method
static var method(int f, var& x) {
    switch (f) {
    case FLOOR: return x.floor(); case SIN: return x.sin(); case COS: return x.cos(); case TAN: return libube::tan(x, x);
    case ATAN: return libube::atan(x, x); case SQRT: return x.sqrt(); case LOG: return x.log(); case EXP: return x.exp();
    case REAL: return x.real(); case IMAG: return x.imag(); case ABS: return x.abs(); case ARG: return x.arg();
    }
    return x.norm();
}
template <class T> static T real_f(int f, T x) {
    switch (f) {
    case FLOOR: return std::floor(x); case SIN: return std::sin(x); case COS: return std::cos(x); case TAN: return std::tan(x);
    case ATAN: return std::atan(x); case SQRT: return std::sqrt(x); case LOG: return std::log(x); case EXP: return std::exp(x);
    case REAL: return x; case IMAG: return 0; case ABS: return std::abs(x); case ARG: return std::arg(x);
    }
    return std::norm(x);
}
template <class T> static std::complex<T> cplx_f(int f, std::complex<T> x) {
    switch (f) {
    case SIN: return std::sin(x); case COS: return std::cos(x); case TAN: return std::tan(x);
    case ATAN: return std::atan(x); case SQRT: return std::sqrt(x); case LOG: return std::log(x); case EXP: return std::exp(x);
    case REAL: return x.real(); case IMAG: return x.imag(); case ABS: return std::abs(x); case ARG: return std::arg(x);
    }
    return std::norm(x);
}
static int result_type(int f, int t) { return f < REAL ? t : t == TYPE_CFLOAT ? TYPE_FLOAT : t == TYPE_CDOUBLE ? TYPE_DOUBLE : t; }
static Elem expect(int f, const Elem& e, int as) {
    Elem r; r.t = as; r.a = r.b = 0;
    switch (e.t) {
    case TYPE_FLOAT: r.a = bits_of(real_f<float>(f, f_of(e.a))); break;
    case TYPE_DOUBLE: r.a = bits_of(real_f<double>(f, d_of(e.a))); break;
    case TYPE_CFLOAT: { cfloat c = cplx_f<float>(f, cfloat(f_of(e.a), f_of(e.b))); r.a = bits_of(c.real()); if (cplx_(as)) r.b = bits_of(c.imag()); break; }
    case TYPE_CDOUBLE: { cdouble c = cplx_f<double>(f, cdouble(d_of(e.a), d_of(e.b))); r.a = bits_of(c.real()); if (cplx_(as)) r.b = bits_of(c.imag()); break; }
    }
    return r;
}
static Shape some_shape() {
    if (large_) return larger(1);
    int rank = num("rank", 1, 3);
    if (rank == 1) { int n = num("n", 1, THOROUGH ? 8 : 4); return shape(n); }
    if (rank == 2) { int r = num("rows", 1, THOROUGH ? 3 : 2), c = num("cols", 1, THOROUGH ? 3 : 2); return shape(r, c); }
    return shape(2, THOROUGH ? 2 : 1, 2);
}
// an array of one cdouble is a scalar; it is the variable that changes
static bool lone(int t, const Shape& s, bool vw) { return t == TYPE_CDOUBLE && s.size() == 1 && !vw; }
static void scalar_fn(int f, int t) {
    Elem e = elem_sym(t, "value"); int rt = result_type(f, t);
    var x = elem_var(e), r = free_(f, x);
    CHECK((int)r.atype() == rt && r.size() == 1, "the type of the result");
    CHECK(bit_eq(raw(r, rt, 0), expect(f, e, rt)), "the function of the value");
    CHECK((int)x.atype() == t && elem_eq(raw(x, t, 0), e), "the argument is left alone");
    method(f, x);
    CHECK(x.size() == 1 && bit_eq(raw(x, (int)x.atype(), 0), expect(f, e, (int)x.atype())), "the same in place");
    CHECK((int)x.atype() == rt || (int)x.atype() == t, "type in place");
    __sym_cover("scalar end");
}
static void array_fn(int f, int t) {
    Shape s = some_shape(); bool vw = s.rank > 1 || num("view", 0, 1), in = num("in place", 0, 1);
    if (lone(t, s, vw) && in) return;
    Arr a; sym_arr(a, t, s, 1, vw); int rt = result_type(f, t);
    if (!in) {
        var r = free_(f, a.v);
        is_arr(r, rt, s, [&](int i) { return expect(f, a.at(i), rt); }, true, "the function of every element");
        a.check("the argument is left alone");
    } else { // the array keeps its type
        std::vector<Elem> w(a.n); for (int i = 0; i < a.n; i++) w[i] = expect(f, a.at(i), rt);
        method(f, a.v);
        for (int i = 0; i < a.n; i++) { Elem q = w[i]; q.t = t; if (rt != t) q.b = t == TYPE_CFLOAT ? bits_of(0.f) : bits_of(0.); a.at(i) = q; }
        bool ok = true; for (int i = 0; i < a.total; i++) ok &= bit_eq(raw(a.base, t, i), a.e[i]);
        CHECK(ok, "every element in place, none around it");
        CHECK(a.v.size() == a.n && (int)a.v.atype() == t && a.v.dim() == s.rank, "shape and type in place");
    }
    __sym_cover("array end");
}
HARNESS(scalars_real) { int f = num("function", FLOOR, NORM), t = num("type", TYPE_FLOAT, TYPE_DOUBLE); scalar_fn(f, t); }
HARNESS(scalars_complex) { int f = num("function", SIN, NORM), t = num("type", TYPE_CFLOAT, TYPE_CDOUBLE); scalar_fn(f, t); }
HARNESS(arrays_float) { array_fn(num("function", FLOOR, NORM), TYPE_FLOAT); }
HARNESS(arrays_double) { array_fn(num("function", FLOOR, NORM), TYPE_DOUBLE); }
HARNESS(arrays_cfloat) { array_fn(num("function", SIN, NORM), TYPE_CFLOAT); }
HARNESS(arrays_cdouble) { array_fn(num("function", SIN, NORM), TYPE_CDOUBLE); }
// an explicit output, of the argument's shape
HARNESS(output) {
    int f = num("function", SIN, EXP), t = num("type", TYPE_FLOAT, TYPE_CDOUBLE);
    Shape s = some_shape(); bool vw = s.rank > 1 || num("view", 0, 1);
    if (lone(t, s, vw)) return;
    Arr a, o; sym_arr(a, t, s, 1, vw); sym_arr(o, t, s, 1, vw);
    switch (f) { case SIN: libube::sin(a.v, o.v); break; case COS: libube::cos(a.v, o.v); break; case TAN: libube::tan(a.v, o.v); break; case ATAN: libube::atan(a.v, o.v); break;
    case SQRT: libube::sqrt(a.v, o.v); break; case LOG: libube::log(a.v, o.v); break; default: libube::exp(a.v, o.v); }
    for (int i = 0; i < a.n; i++) o.at(i) = expect(f, a.at(i), t);
    bool ok = true; for (int i = 0; i < o.total; i++) ok &= bit_eq(raw(o.base, t, i), o.e[i]);
    CHECK(ok, "the function of every element in the output, nothing around it");
    a.check("the argument is left alone");
    __sym_cover("output end");
}
// the output is another view of the same storage: of the argument itself, or beside it
HARNESS(same_storage) {
    int f = num("function", SIN, EXP), t = num("type", TYPE_FLOAT, TYPE_CDOUBLE), beside = num("beside", 0, 1);
    Shape s = some_shape(); int n = s.size(); Arr a; sym_arr(a, t, shape(2 * n + 2), 1, false); if (a.base.size() < 2) return;
    var x = look(a, s, 1), o = look(a, s, beside ? n + 1 : 1);
    switch (f) { case SIN: libube::sin(x, o); break; case COS: libube::cos(x, o); break; case TAN: libube::tan(x, o); break; case ATAN: libube::atan(x, o); break;
    case SQRT: libube::sqrt(x, o); break; case LOG: libube::log(x, o); break; default: libube::exp(x, o); }
    for (int i = 0; i < n; i++) a.e[(beside ? n : 0) + 1 + i] = expect(f, a.e[1 + i], t);
    bool ok = true; for (int i = 0; i < a.total; i++) ok &= bit_eq(raw(a.base, t, i), a.e[i]);
    CHECK(ok, "the function of every element in the output, nothing around it");
    __sym_cover("same storage end");
}
HARNESS(larger_arrays) { large_ = true; int f = num("function", FLOOR, NORM), t = num("type", TYPE_FLOAT, f == FLOOR ? TYPE_DOUBLE : TYPE_CDOUBLE); array_fn(f, t); }
HARNESS(huge_arrays) { large_ = huge_ = true; int f = num("function", FLOOR, NORM), t = num("type", TYPE_FLOAT, f == FLOOR ? TYPE_DOUBLE : TYPE_CDOUBLE); array_fn(f, t); }
// power
static Elem expect_pow(const Elem& e, const Elem& p) {
    Elem r; r.t = e.t; r.a = r.b = 0;
    switch (e.t) {
    case TYPE_FLOAT: r.a = bits_of(std::pow(f_of(e.a), f_of(p.a))); break;
    case TYPE_DOUBLE: r.a = bits_of(std::pow(d_of(e.a), d_of(p.a))); break;
    case TYPE_CFLOAT: { cfloat c = std::pow(cfloat(f_of(e.a), f_of(e.b)), cfloat(f_of(p.a), f_of(p.b))); r.a = bits_of(c.real()); r.b = bits_of(c.imag()); break; }
    case TYPE_CDOUBLE: { cdouble c = std::pow(cdouble(d_of(e.a), d_of(e.b)), cdouble(d_of(p.a), d_of(p.b))); r.a = bits_of(c.real()); r.b = bits_of(c.imag()); break; }
    }
    return r;
}
HARNESS(pow_scalar) {
    int t = num("type", TYPE_FLOAT, TYPE_CDOUBLE), u = num("exponent type", 0, 2);
    Elem e = elem_sym(t, "value"), p = u == 0 ? elem_sym(t, "exponent") : elem_int(u == 1 ? TYPE_INT : TYPE_DOUBLE, __sym_range("exponent", -3, 9));
    Elem q = u == 0 ? p : elem_int(t, u == 1 ? (long)p.a : (long)d_of(p.a));
    var x = elem_var(e), y = elem_var(p), r = libube::pow(x, y);
    CHECK((int)r.atype() == t && r.size() == 1 && bit_eq(raw(r, t, 0), expect_pow(e, q)), "the power");
    CHECK(elem_eq(raw(x, t, 0), e) && elem_eq(raw(y, p.t, 0), p), "the arguments are left alone");
    x.pow(y);
    CHECK((int)x.atype() == t && bit_eq(raw(x, t, 0), expect_pow(e, q)), "in place");
    __sym_cover("pow end");
}
HARNESS(pow_array) {
    int t = num("type", TYPE_FLOAT, TYPE_CDOUBLE); Shape s = some_shape(); bool vw = s.rank > 1 || num("view", 0, 1), in = num("in place", 0, 1);
    if (lone(t, s, vw) && in) return;
    Arr a; sym_arr(a, t, s, 1, vw); Elem p = elem_sym(t, "exponent"); var y = elem_var(p);
    if (!in) {
        var r = libube::pow(a.v, y);
        is_arr(r, t, s, [&](int i) { return expect_pow(a.at(i), p); }, true, "the power of every element");
    } else {
        std::vector<Elem> w(a.n); for (int i = 0; i < a.n; i++) w[i] = expect_pow(a.at(i), p);
        a.v.pow(y);
        for (int i = 0; i < a.n; i++) a.at(i) = w[i];
    }
    bool ok = true; for (int i = 0; i < a.total; i++) ok &= bit_eq(raw(a.base, t, i), a.e[i]);
    CHECK(ok, in ? "every element in place, none around it" : "the argument is left alone");
    __sym_cover("pow array end");
}
// arrays of anything and maps: each element as a scalar
HARNESS(mixed) {
    int f = num("function", 0, 2); static const int F[] = {SIN, SQRT, EXP}; f = F[f];
    int n = num("n", 1, 2), map = num("map", 0, 1), nest = num("nested at", -1, n - 1), in = num("in place", 0, 1);
    Elem e[2]; static const char* const K[] = {"a", "b"}; var v;
    if (!map) { v.push("x"); v.pop(); }
    for (int i = 0; i < n; i++) {
        int t = num("type", TYPE_FLOAT, TYPE_CFLOAT); e[i] = elem_sym(t, "value"); var x = elem_var(e[i]); if (i == nest) { x.array(); x.push(x.at(0)); }
        if (map) v[K[i]] = x; else v.push(x);
    }
    var r; if (in) { method(f, v); r = v; } else r = free_(f, v);
    CHECK(r.size() == n && ((int)r.atype() == TYPE_PAIR) == (bool)map, "as many elements");
    for (int i = 0; i < n; i++) {
        var x = r.at(i), o = v.at(i); int t = e[i].t; Elem w = expect(f, e[i], t);
        if (map) CHECK(str_eq(r.key(i), K[i], 1), "the same keys");
        if (i == nest) {
            CHECK(x.heap() && x.size() == 2 && (int)x.atype() == t, "a nested array");
            CHECK(bit_eq(raw(x, t, 0), w) & bit_eq(raw(x, t, 1), w), "the elements of a nested array");
            if (!in) CHECK(elem_eq(raw(o, t, 0), e[i]) & elem_eq(raw(o, t, 1), e[i]), "the argument is left alone");
        } else {
            CHECK((int)x.type() == t && bit_eq(elem_of(x, t), w), "each element in its type");
            if (!in) CHECK(elem_eq(elem_of(o, t), e[i]), "the argument is left alone");
        }
    }
    __sym_cover("mixed end");
}
// what is not a floating number is refused
HARNESS(refused) {
    int f = num("function", FLOOR, NORM), k = num("which", 0, 4); var x;
    switch (k) { case 0: x = 'c'; break; case 1: x = 3; break; case 2: x = 3l; break; case 3: x = "ab"; break; case 4: x = 3; x.array(); x.push(4); break; }
    CHECK(throws([&] { free_(f, x); }), "refused");
    CHECK(throws([&] { method(f, x); }), "refused");
    if (k == 4) CHECK(x.size() == 2 && x.at(0).get<int>() == 3 && x.at(1).get<int>() == 4, "left alone");
    if (k == 1) CHECK(x.get<int>() == 3, "left alone");
    __sym_cover("refused end");
}
HARNESS(floor_complex) {
    int t = num("type", TYPE_CFLOAT, TYPE_CDOUBLE), arr = num("array", 0, 1); Elem e = elem_sym(t, "value"); var x = elem_var(e); if (arr) { if (!x.heap()) x.array(); x.push(elem_var(e)); }
    CHECK(throws([&] { libube::floor(x); }), "a complex number has no floor");
    CHECK(elem_eq(raw(x, t, 0), e), "left alone");
    __sym_cover("floor end");
}
