//! time_quick: 150
//! time_thorough: 850
//! bound: vectors of 1 to 4 (thorough 6), matrices up to 3x3 and arrays of up to 2x2x3 times vectors; matrices up to 3x3 and arrays of up to two matrices times matrices up to 3x3; larger ones of 9 to 24 elements and rank up to 4 and of 130 to 1030, with one element symbolic; float and double, arrays and views (offset 1); explicit outputs
//! assume: elements are whole numbers within 10 bits so that every order of summation is exact
#include "mathops.h"
enum { L = 1000 };
static long re(const Elem& e) { return e.t == TYPE_FLOAT ? (long)f_of(e.a) : (long)d_of(e.a); }
static void overwrite(var& o, int t) { for (int i = 0; i < o.size(); i++) if (t == TYPE_FLOAT) o.ptr<float>()[i] = 77; else o.ptr<double>()[i] = 77; }
static Shape left_shape(int rank) {
    if (large_) return larger(1);
    if (rank == 1) { int n = num("n", 1, THOROUGH ? 6 : 4); return shape(n); }
    if (rank == 2) { int r = num("rows", 1, 3), c = num("cols", 1, 3); return shape(r, c); }
    int p = num("planes", 1, 2), r = num("rows", 1, 2), c = num("cols", 1, 3); return shape(p, r, c);
}
// every row with one vector
static void vectors(int t, int rank) {
    Shape s = left_shape(rank); rank = s.rank; int w = s.d[rank - 1]; bool va = rank > 1 || num("left view", 0, 1), vb = num("right view", 0, 1), self = rank == 1 && num("itself", 0, 1);
    Arr a, b; if (large_) one_sym(a, t, s, 1, va, L); else int_arr(a, t, s, 1, va, -L, L);
    if (!self) { if (large_) build(b, t, shape(w), 1, vb, [&](int i) { return elem_int(t, i % 7 - 3); }); else int_arr(b, t, shape(w), 1, vb, -L, L); }
    std::vector<Elem> e(a.n / w);
    for (int i = 0; i < a.n / w; i++) { long x = 0; for (int k = 0; k < w; k++) x += re(a.at(i * w + k)) * re(self ? a.at(k) : b.at(k)); e[i] = elem_int(t, x); }
    auto look = [&](var& r) {
        if (rank == 1) CHECK(r.defined() && !r.heap() && (int)r.atype() == t && num_eq(raw(r, t, 0), e[0]), "the sum of products");
        else { Shape q = s; q.d[rank - 1] = 1; is_arr(r, t, q, [&](int i) { return e[i]; }, false, "the sum of products of each row, in its place"); }
        a.check("the left operand is left alone"); if (!self) b.check("the right operand is left alone");
    };
    var& y = self ? a.v : b.v;
    var r = libube::dot(a.v, y);
    look(r);
    var o = r.copy(); overwrite(o, t);
    libube::dot(a.v, y, o);
    look(o);
    __sym_cover("vectors end");
}
HARNESS(vector_float) { vectors(TYPE_FLOAT, num("rank", 1, 3)); }
HARNESS(vector_double) { vectors(TYPE_DOUBLE, num("rank", 1, 3)); }
// rows by columns
static void product(int t, int p, int m, int k, int n, Shape s, Shape q, Shape z);
static void matrices(int t, int rank) {
    int p = rank == 3 ? num("planes", 1, 2) : 1, m = num("rows", 1, rank == 3 ? 2 : 3), k = num("inner", 1, 3), n = num("cols", 1, rank == 3 ? 2 : 3);
    Shape s = rank == 3 ? shape(p, m, k) : shape(m, k), q = shape(k, n), z = rank == 3 ? shape(p, m, n) : shape(m, n);
    product(t, p, m, k, n, s, q, z);
}
static void product(int t, int p, int m, int k, int n, Shape s, Shape q, Shape z) {
    Arr a, b; if (large_) one_sym(a, t, s, 1, true, L); else int_arr(a, t, s, 1, true, -L, L);
    if (large_) build(b, t, q, 1, true, [&](int i) { return elem_int(t, i % 7 - 3); }); else int_arr(b, t, q, 1, true, -L, L);
    std::vector<Elem> e(p * m * n);
    for (int h = 0; h < p; h++) for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
        long x = 0; for (int l = 0; l < k; l++) x += re(a.at((h * m + i) * k + l)) * re(b.at(l * n + j));
        e[(h * m + i) * n + j] = elem_int(t, x);
    }
    auto look = [&](var& r) {
        is_arr(r, t, z, [&](int i) { return e[i]; }, false, "each row by each column");
        a.check("the left operand is left alone"); b.check("the right operand is left alone");
    };
    var r = libube::dot(a.v, b.v);
    look(r);
    Arr o; int_arr(o, t, z, 1, true, 0, 9);
    libube::dot(a.v, b.v, o.v);
    look(o.v);
    for (int i = 0; i < z.size(); i++) o.at(i) = e[i];
    bool ok = true; for (int i = 0; i < o.total; i++) ok &= num_eq(raw(o.base, t, i), o.e[i]);
    CHECK(ok, "nothing around the output changes");
    __sym_cover("matrices end");
}
HARNESS(matrix_float) { matrices(TYPE_FLOAT, 2); }
HARNESS(matrix_double) { matrices(TYPE_DOUBLE, 2); }
HARNESS(matrices_float) { matrices(TYPE_FLOAT, 3); }
HARNESS(matrices_double) { matrices(TYPE_DOUBLE, 3); }
HARNESS(larger_vectors) { large_ = true; vectors(num("type", TYPE_FLOAT, TYPE_DOUBLE), 1); }
HARNESS(huge_vectors) { large_ = huge_ = true; vectors(num("type", TYPE_FLOAT, TYPE_DOUBLE), 1); }
HARNESS(larger_matrices) {
    large_ = true; int t = num("type", TYPE_FLOAT, TYPE_DOUBLE);
    switch (num("larger", 0, 5)) {
    case 0: product(t, 1, 4, 5, 3, shape(4, 5), shape(5, 3), shape(4, 3)); break;
    case 1: product(t, 1, 1, 9, 4, shape(1, 9), shape(9, 4), shape(1, 4)); break;
    case 2: product(t, 3, 2, 4, 3, shape(3, 2, 4), shape(4, 3), shape(3, 2, 3)); break;
    case 3: product(t, 4, 2, 2, 3, shape(2, 2, 2, 2), shape(2, 3), shape(2, 2, 2, 3)); break;
    case 4: product(t, 6, 1, 2, 2, shape(2, 3, 1, 2), shape(2, 2), shape(2, 3, 1, 2)); break;
    case 5: product(t, 1, 5, 1, 4, shape(5, 1), shape(1, 4), shape(5, 4)); break;
    }
}
HARNESS(huge_matrices) {
    large_ = huge_ = true; int t = num("type", TYPE_FLOAT, TYPE_DOUBLE);
    switch (num("huge", 0, 3)) {
    case 0: product(t, 1, 40, 3, 2, shape(40, 3), shape(3, 2), shape(40, 2)); break;
    case 1: product(t, 1, 2, 130, 3, shape(2, 130), shape(130, 3), shape(2, 3)); break;
    case 2: product(t, 1, 2, 3, 70, shape(2, 3), shape(3, 70), shape(2, 70)); break;
    case 3: product(t, 20, 2, 2, 3, shape(20, 2, 2), shape(2, 3), shape(20, 2, 3)); break;
    }
}
HARNESS(square_itself) {
    int t = num("type", TYPE_FLOAT, TYPE_DOUBLE), n = num("n", 1, 2); Arr a; int_arr(a, t, shape(n, n), 1, true, -L, L);
    var r = libube::dot(a.v, a.v); Elem e[4];
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { long x = 0; for (int l = 0; l < n; l++) x += re(a.at(i * n + l)) * re(a.at(l * n + j)); e[i * n + j] = elem_int(t, x); }
    is_arr(r, t, shape(n, n), [&](int i) { return e[i]; }, false, "a matrix with itself"); a.check("left alone");
    __sym_cover("itself end");
}
// what does not conform is refused, and nothing changes
HARNESS(refused) {
    int t = num("type", TYPE_FLOAT, TYPE_DOUBLE), k = num("which", 0, 8), u = t; Shape s = shape(2), q = shape(2);
    switch (k) {
    case 0: q = shape(3); break;
    case 1: s = shape(3); break;
    case 2: s = shape(2, 3); break;                       // rows are longer than the vector
    case 3: s = shape(3, 2); q = shape(3); break;
    case 4: s = shape(2, 3); q = shape(2, 3); break;      // inner dimensions
    case 5: s = shape(3); q = shape(3, 2); break;         // a vector has no rows
    case 6: u = t == TYPE_FLOAT ? TYPE_DOUBLE : TYPE_FLOAT; break;
    case 7: s = shape(2, 2, 2); q = shape(2, 2, 2); break;
    case 8: s = shape(2, 2, 3); q = shape(2, 2); break;
    }
    Arr a, b; int_arr(a, t, s, 1, s.rank > 1, -L, L); int_arr(b, u, q, 1, q.rank > 1, -L, L);
    CHECK(throws([&] { libube::dot(a.v, b.v); }), "refused");
    a.check("left alone"); b.check("left alone");
    __sym_cover("refused end");
}
HARNESS(refused_in_place) {
    int t = num("type", TYPE_FLOAT, TYPE_DOUBLE), k = num("which", 0, 1);
    Arr a, b; int_arr(a, t, k ? shape(2, 2) : shape(2), 1, k, -L, L); int_arr(b, t, k ? shape(2, 2) : shape(2), 1, k, -L, L);
    CHECK(throws([&] { libube::dot(a.v, b.v, a.v); }), "refused in place");
    a.check("left alone"); b.check("left alone");
    __sym_cover("refused end");
}
HARNESS(refused_types) {
    int k = num("which", 0, 2); var x, y;
    switch (k) { case 0: x = 1; x.array(); x.push(2); y = x; break; case 1: x = "ab"; y = "cd"; break; case 2: x = 1l; x.array(); x.push(2l); y = x.copy(); break; }
    CHECK(throws([&] { libube::dot(x, y); }), "whole numbers have no product here");
    CHECK(x.size() == 2 && y.size() == 2, "left alone");
    __sym_cover("refused end");
}
