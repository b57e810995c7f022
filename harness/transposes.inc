// transposition, for whichever implementation (C15, C41)
#include "mathops.h"
static void unchanged(Arr& a, const char* msg) { a.check(msg); CHECK(a.v.dim() == a.s.rank && a.v.size() == a.n, msg); for (int i = 0; i < a.s.rank; i++) CHECK((long)a.v.shape(i) == a.s.d[i], msg); }
static void all(Arr& a, const char* msg) { bool ok = true; for (int i = 0; i < a.total; i++) ok &= bit_eq(raw(a.base, a.t, i), a.e[i]); CHECK(ok, msg); }
// ---- transpose
static Shape matrix(int rank) {
    if (large_) return larger(2);
    if (rank == 2) { int r = num("rows", 1, 4), c = num("cols", 1, 3); return shape(r, c); }
    int p = num("planes", 1, 2), r = num("rows", 1, 2), c = num("cols", 1, 3); return shape(p, r, c);
}
static Shape turned(Shape s) { int x = s.d[s.rank - 1]; s.d[s.rank - 1] = s.d[s.rank - 2]; s.d[s.rank - 2] = x; return s; }
// element i of the transposed array
static Elem& from(Arr& a, int i) {
    int R = a.s.d[a.s.rank - 2], C = a.s.d[a.s.rank - 1], p = i / (R * C), k = i % (R * C), c = k / R, r = k % R;
    return a.at(p * R * C + r * C + c);
}
static void transposes(int t) {
    int rank = large_ ? 2 : num("rank", 2, 3); Shape s = matrix(rank); rank = s.rank; Shape q = turned(s); Arr a; sym_arr(a, t, s, 1, true);
    var r = libube::transpose(a.v);
    is_arr(r, t, q, [&](int i) { return from(a, i); }, true, "rows become columns");
    if (rank == 2) for (int i = 0; i < s.d[0]; i++) for (int j = 0; j < s.d[1]; j++) CHECK(bit_eq(elem_of(r(j, i), t), a.at(i * s.d[1] + j)), "by index");
    unchanged(a, "the argument is left alone");
    var b = libube::transpose(r);
    is_arr(b, t, s, [&](int i) { return a.at(i); }, true, "twice is the original");
    is_arr(r, t, q, [&](int i) { return from(a, i); }, true, "the first result is left alone");
    Arr o; sym_arr(o, t, q, 1, true); std::vector<Elem> w(a.n); for (int i = 0; i < a.n; i++) w[i] = from(a, i);
    libube::transpose(a.v, o.v);
    for (int i = 0; i < a.n; i++) o.at(i) = w[i];
    all(o, "into an output, nothing around it"); unchanged(a, "the argument is left alone");
    __sym_cover("transposes end");
}
HARNESS(transpose_float) { transposes(TYPE_FLOAT); }
HARNESS(transpose_double) { transposes(TYPE_DOUBLE); }
static void in_place(int t) {
    int rank = large_ ? 2 : num("rank", 2, 3); Shape s = matrix(rank); rank = s.rank; Shape q = turned(s); Arr a; sym_arr(a, t, s, 1, true);
    std::vector<Elem> w(a.n), was(a.n); for (int i = 0; i < a.n; i++) { w[i] = from(a, i); was[i] = a.at(i); }
    var h = a.v;
    a.v.transpose();
    for (int i = 0; i < a.n; i++) a.at(i) = w[i];
    all(a, "in place, nothing around it");
    is_arr(a.v, t, q, [&](int i) { return w[i]; }, true, "the view is turned");
    int st = 1; for (int i = rank; i-- > 0;) { CHECK((long)a.v.stride(i) == st, "strides"); st *= q.d[i]; }
    if (rank == 2) for (int i = 0; i < q.d[0]; i++) for (int j = 0; j < q.d[1]; j++) CHECK(bit_eq(elem_of(a.v(i, j), t), w[i * q.d[1] + j]), "by index");
    else if (rank == 3) for (int p = 0; p < q.d[0]; p++) for (int i = 0; i < q.d[1]; i++) for (int j = 0; j < q.d[2]; j++) CHECK(bit_eq(elem_of(a.v(p, i, j), t), w[(p * q.d[1] + i) * q.d[2] + j]), "by index");
    is_arr(h, t, q, [&](int i) { return w[i]; }, true, "every handle on it sees so");
    a.v.transpose();
    is_arr(a.v, t, s, [&](int i) { return was[i]; }, true, "twice is the original");
    __sym_cover("in place end");
}
HARNESS(transpose_in_place) { in_place(num("type", TYPE_FLOAT, TYPE_DOUBLE)); }
HARNESS(transpose_larger) { large_ = true; transposes(num("type", TYPE_FLOAT, TYPE_DOUBLE)); }
HARNESS(transpose_larger_in_place) { large_ = true; in_place(num("type", TYPE_FLOAT, TYPE_DOUBLE)); }
HARNESS(transpose_huge) { large_ = huge_ = true; transposes(num("type", TYPE_FLOAT, TYPE_DOUBLE)); }
HARNESS(transpose_huge_in_place) { large_ = huge_ = true; in_place(num("type", TYPE_FLOAT, TYPE_DOUBLE)); }
// the output is another view of the same storage: of the matrix itself, or beside it
HARNESS(transpose_same_storage) {
    int t = num("type", TYPE_FLOAT, TYPE_DOUBLE), beside = num("beside", 0, 1), rank = num("rank", 2, 3); Shape s = matrix(rank), q = turned(s); int n = s.size();
    Arr a; sym_arr(a, t, shape(2 * n + 2), 1, false); Arr m; m.s = s; m.off = 0; for (int i = 0; i < n; i++) m.e.push_back(a.e[1 + i]);
    var x = look(a, s, 1), o = look(a, q, beside ? n + 1 : 1);
    libube::transpose(x, o);
    for (int i = 0; i < n; i++) a.e[(beside ? n : 0) + 1 + i] = from(m, i);
    all(a, "into the output, nothing around it");
    __sym_cover("same storage end");
}
HARNESS(transpose_refused) {
    int k = num("which", 0, 3); Arr a;
    switch (k) {
    case 0: sym_arr(a, TYPE_FLOAT, shape(3), 1, false); break;      // a vector
    case 1: sym_arr(a, TYPE_DOUBLE, shape(3), 1, true); break;
    case 2: sym_arr(a, TYPE_INT, shape(2, 2), 1, true); break;      // no transposition of whole numbers
    case 3: sym_arr(a, TYPE_CFLOAT, shape(2, 2), 1, true); break;
    }
    CHECK(throws([&] { libube::transpose(a.v); }), "refused");
    unchanged(a, "left alone");
    if (k >= 2) { CHECK(throws([&] { a.v.transpose(); }), "refused"); unchanged(a, "left alone"); }
    __sym_cover("refused end");
}
