//! time_quick: 150
//! time_thorough: 850
//! bound: arrays and views (offset 1) of 1 to 5 elements (thorough 8), matrices up to 3x3, arrays of up to 2x2x3, and larger ones of 9 to 24 elements and rank up to 4, and of 260 to 1030 (one element symbolic); sum of float, double, cfloat and cdouble, absolute sum of float and double, index of the largest absolute value (complex: of the sum of the absolute parts, as in the BLAS)
//! assume: elements are whole numbers within 16 bits so that every order of summation is exact; elements are NaN-free
#include "mathops.h"
static Shape some_shape() {
    if (large_) return larger(1);
    int rank = num("rank", 1, 3);
    if (rank == 1) { int n = num("n", 1, THOROUGH ? 8 : 5); return shape(n); }
    if (rank == 2) { int r = num("rows", 1, 3), c = num("cols", 1, 3); return shape(r, c); }
    int p = num("planes", 1, 2), r = num("rows", 1, 2), c = num("cols", 1, 3); return shape(p, r, c);
}
static long re(const Elem& e) { switch (e.t) { case TYPE_FLOAT: case TYPE_CFLOAT: return (long)f_of(e.a); } return (long)d_of(e.a); }
static long im(const Elem& e) { switch (e.t) { case TYPE_CFLOAT: return (long)f_of(e.b); case TYPE_CDOUBLE: return (long)d_of(e.b); } return 0; }
static long mag(long x) { return x < 0 ? -x : x; }
enum { SUM, ASUM, IAMAX };
static var reduce(int f, const var& v) { switch (f) { case SUM: return libube::sum(v); case ASUM: return libube::asum(v); } return libube::iamax(v); }
static int result_type(int f, int t) { return f == IAMAX ? TYPE_LONG : f == ASUM ? (t == TYPE_CFLOAT ? TYPE_FLOAT : t == TYPE_CDOUBLE ? TYPE_DOUBLE : t) : t; }
// what row `x` of length n reduces to
static Elem expect(int f, const Elem* x, int n, int rt) {
    long a = 0, b = 0;
    switch (f) {
    case SUM: for (int i = 0; i < n; i++) { a += re(x[i]); b += im(x[i]); } break;
    case ASUM: for (int i = 0; i < n; i++) a += mag(re(x[i])); break;
    case IAMAX: for (int i = 1; i < n; i++) { bool g = mag(re(x[i])) + mag(im(x[i])) > mag(re(x[a])) + mag(im(x[a])); a = g ? i : a; } break;
    }
    return elem_int(rt, a, b);
}
static void check_result(int f, Arr& a, var& r) {
    int rt = result_type(f, a.t), w = a.s.d[a.s.rank - 1], rows = a.n / w; std::vector<Elem> e(rows);
    for (int i = 0; i < rows; i++) e[i] = expect(f, &a.at(i * w), w, rt);
    if (a.s.rank == 1) {
        CHECK(r.defined() && (int)r.atype() == rt && r.size() == 1 && (rt == TYPE_CDOUBLE || !r.heap()), "a single value");
        CHECK(num_eq(raw(r, rt, 0), e[0]), "the reduction of all elements");
    } else {
        Shape s = a.s; s.d[s.rank - 1] = 1;
        is_arr(r, rt, s, [&](int i) { return e[i]; }, false, "the reduction of each row, in its place");
    }
}
static void reductions(int f, int t) {
    Shape s = some_shape(); bool vw = s.rank > 1 || num("view", 0, 1);
    int big = f == IAMAX && cplx_(t) ? 7 : 30000; Arr a;
    if (huge_ && f == IAMAX) { int at = place(s.size()) + vw; long x = num("large", 0, 1) ? -40 : 3; build(a, t, s, 1, vw, [&](int i) { return elem_int(t, i == at ? x : i * 5 % 23 - 11, i % 7 - 3); }); }
    else if (large_) one_sym(a, t, s, 1, vw, f == IAMAX ? 3 : 9); else int_arr(a, t, s, 1, vw, -big, big);
    var r = reduce(f, a.v);
    check_result(f, a, r);
    a.check("the argument is left alone");
    CHECK(a.v.dim() == s.rank && a.v.size() == a.n, "the argument keeps its shape");
    // the same into an output of the right shape
    var o = r.copy(); int rt = result_type(f, t), n = o.size();
    for (int i = 0; i < n; i++) switch (rt) { case TYPE_LONG: o.ptr<long>()[i] = 77; break; case TYPE_FLOAT: o.ptr<float>()[i] = 77; break; case TYPE_DOUBLE: o.ptr<double>()[i] = 77; break; case TYPE_CFLOAT: o.ptr<cfloat>()[i] = 77; break; default: o.ptr<cdouble>()[i] = 77; }
    if (n == 1 && t == TYPE_CDOUBLE) return;
    switch (f) { case SUM: libube::sum(a.v, o); break; case ASUM: libube::asum(a.v, o); break; default: libube::iamax(a.v, o); }
    check_result(f, a, o);
    check_result(f, a, r);
    a.check("the argument is left alone");
    __sym_cover("reductions end");
}
HARNESS(sum_float) { reductions(SUM, TYPE_FLOAT); }
HARNESS(sum_double) { reductions(SUM, TYPE_DOUBLE); }
HARNESS(sum_cfloat) { reductions(SUM, TYPE_CFLOAT); }
HARNESS(sum_cdouble) { reductions(SUM, TYPE_CDOUBLE); }
HARNESS(asum_float) { reductions(ASUM, TYPE_FLOAT); }
HARNESS(asum_double) { reductions(ASUM, TYPE_DOUBLE); }
HARNESS(iamax_float) { reductions(IAMAX, TYPE_FLOAT); }
HARNESS(iamax_double) { reductions(IAMAX, TYPE_DOUBLE); }
HARNESS(iamax_cfloat) { reductions(IAMAX, TYPE_CFLOAT); } // as the BLAS: the sum of the absolute parts
HARNESS(iamax_cdouble) { reductions(IAMAX, TYPE_CDOUBLE); }
HARNESS(larger_sum) { large_ = true; reductions(SUM, num("type", TYPE_FLOAT, TYPE_CDOUBLE)); }
HARNESS(larger_asum) { large_ = true; reductions(ASUM, num("type", TYPE_FLOAT, TYPE_DOUBLE)); }
HARNESS(larger_iamax) { large_ = true; reductions(IAMAX, num("type", TYPE_FLOAT, TYPE_CDOUBLE)); }
HARNESS(huge_sum) { large_ = huge_ = true; reductions(SUM, num("type", TYPE_FLOAT, TYPE_CDOUBLE)); }
HARNESS(huge_asum) { large_ = huge_ = true; reductions(ASUM, num("type", TYPE_FLOAT, TYPE_DOUBLE)); }
HARNESS(huge_iamax) { large_ = huge_ = true; reductions(IAMAX, num("type", TYPE_FLOAT, TYPE_CDOUBLE)); }
// scalars
HARNESS(scalars) {
    int f = num("function", SUM, ASUM), t = num("type", TYPE_FLOAT, TYPE_CDOUBLE); if (f == ASUM && cplx_(t)) return;
    long x = __sym_range("value", -30000, 30000), y = cplx_(t) ? __sym_range("imag", -30000, 30000) : 0;
    Elem e = elem_int(t, x, y); var v = elem_var(e), r = reduce(f, v); int rt = result_type(f, t);
    CHECK((int)r.atype() == rt && r.size() == 1 && num_eq(raw(r, rt, 0), expect(f, &e, 1, rt)), "the reduction of one value");
    CHECK(elem_eq(raw(v, t, 0), e), "the argument is left alone");
    __sym_cover("scalars end");
}
HARNESS(asum_complex_scalar) {
    int t = num("type", TYPE_CFLOAT, TYPE_CDOUBLE); Elem e = elem_sym(t, "value"); var v = elem_var(e), r = libube::asum(v);
    if (t == TYPE_CFLOAT) CHECK(r.atype<float>() && r.size() == 1 && bit_eq(raw(r, TYPE_FLOAT, 0), Elem{TYPE_FLOAT, bits_of(std::abs(cfloat(f_of(e.a), f_of(e.b)))), 0}), "the modulus");
    else CHECK(r.atype<double>() && r.size() == 1 && bit_eq(raw(r, TYPE_DOUBLE, 0), Elem{TYPE_DOUBLE, bits_of(std::abs(cdouble(d_of(e.a), d_of(e.b)))), 0}), "the modulus");
    __sym_cover("modulus end");
}
// values of any size: the largest is the largest
HARNESS(iamax_any) {
    int t = num("type", TYPE_FLOAT, TYPE_DOUBLE), n = num("n", 1, 3), vw = num("view", 0, 1);
    Arr a; build(a, t, shape(n), 1, vw, [&](int) { Elem e = elem_sym(t, "elem"); if (t == TYPE_FLOAT) { float x = f_of(e.a); __sym_assume(x == x); } else { double x = d_of(e.a); __sym_assume(x == x); } return e; });
    var r = libube::iamax(a.v);
    CHECK(r.atype<long>() && r.size() == 1, "a position");
    long k = r.get<long>(); CHECK(k >= 0 && k < n, "a position");
    k = __sym_concretize(k);
    bool ok = true;
    for (int i = 0; i < n; i++) {
        bool ge = t == TYPE_FLOAT ? std::abs(f_of(a.at((int)k).a)) >= std::abs(f_of(a.at(i).a)) : std::abs(d_of(a.at((int)k).a)) >= std::abs(d_of(a.at(i).a));
        ok &= ge;
        if (i < k) ok &= !(t == TYPE_FLOAT ? std::abs(f_of(a.at((int)k).a)) <= std::abs(f_of(a.at(i).a)) : std::abs(d_of(a.at((int)k).a)) <= std::abs(d_of(a.at(i).a)));
    }
    CHECK(ok, "the first of the largest absolute values");
    __sym_cover("any end");
}
HARNESS(refused) {
    int f = num("function", SUM, IAMAX), k = num("which", 0, 4); var x;
    switch (k) { case 0: x = "ab"; break; case 1: x = 3; x.array(); x.push(4); break; case 2: x = 3l; x.array(); x.push(4l); break; case 3: x.push("a"); x.push(1.0); break; case 4: x["a"] = 1.0; break; }
    CHECK(throws([&] { reduce(f, x); }), "refused");
    if (k == 1) CHECK(x.size() == 2 && x.at(0).get<int>() == 3 && x.at(1).get<int>() == 4, "left alone");
    __sym_cover("refused end");
}
HARNESS(refused_complex) {
    int t = num("type", TYPE_CFLOAT, TYPE_CDOUBLE), n = num("n", 2, 3); Arr a; sym_arr(a, t, shape(n), 1, num("view", 0, 1));
    CHECK(throws([&] { libube::asum(a.v); }), "no absolute sum of complex arrays");
    a.check("left alone");
    __sym_cover("refused end");
}
