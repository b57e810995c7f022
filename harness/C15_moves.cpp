//! time_quick: 150
//! time_thorough: 850
//! bound: transposition of matrices up to 4x3 and arrays of up to 2x2x3, out of place, in place and twice; concatenation of 1 to 3 vectors of 1 to 3, matrices up to 2x2 and arrays up to 2x2x2; exchange and set of vectors of 1 to 4, matrices up to 2x3 and arrays up to 2x1x2; views with offset 1; larger arrays of 9 to 24 elements and rank up to 4, and of 260 to 1030 (one symbolic); every element value; outputs that share the storage
//! assume: the arrays do not overlap
#include "transposes.inc"
// ---- concatenate
HARNESS(concatenate_) {
    int t = num("type", TYPE_FLOAT, TYPE_CDOUBLE), rank = num("rank", 1, 3), n = num("count", 1, rank == 1 ? 3 : 2);
    int p = rank == 3 ? 2 : 1, m = rank >= 2 ? num("rows", 1, 2) : 1, sum = 0; Arr a[3]; var l;
    l.push("x"); l.pop();
    for (int i = 0; i < n; i++) {
        int c = num("cols", t == TYPE_CDOUBLE && rank == 1 ? 2 : 1, rank == 1 ? 3 : 2); sum += c;
        sym_arr(a[i], t, rank == 1 ? shape(c) : rank == 2 ? shape(m, c) : shape(p, m, c), 1, rank > 1 || num("view", 0, 1));
        l.push(a[i].v);
    }
    var r = libube::concatenate(l);
    Elem e[16]; int k = 0;
    for (int j = 0; j < p * m; j++) for (int i = 0; i < n; i++) { int c = a[i].s.d[rank - 1]; for (int x = 0; x < c; x++) e[k++] = a[i].at(j * c + x); }
    is_arr(r, t, rank == 1 ? shape(sum) : rank == 2 ? shape(m, sum) : shape(p, m, sum), [&](int i) { return e[i]; }, true, "side by side");
    for (int i = 0; i < n; i++) unchanged(a[i], "the arguments are left alone");
    CHECK(l.size() == n, "the list is left alone");
    if (t != TYPE_CDOUBLE || rank > 1) { // into an output, nothing around it
        Arr o; Shape q = rank == 1 ? shape(sum) : rank == 2 ? shape(m, sum) : shape(p, m, sum);
        build(o, t, q, 1, true, [&](int i) { return elem_num(t, i + 40); });
        var w = libube::concatenate(l, o.v); CHECK(w.is(o.v), "the output is returned");
        for (int i = 0; i < o.n; i++) o.at(i) = e[i];
        unchanged(o, "side by side into an output, nothing around it");
        for (int i = 0; i < n; i++) unchanged(a[i], "the arguments are left alone");
    }
    __sym_cover("concatenate end");
}
HARNESS(concatenate_refused) {
    int k = num("which", 0, 5); Arr a, b; Shape s = shape(2), q = shape(2); int t = TYPE_FLOAT, u = TYPE_FLOAT;
    switch (k) {
    case 0: u = TYPE_DOUBLE; break;
    case 1: s = shape(2, 2); break;                        // dimensions
    case 2: q = shape(2, 2); break;
    case 3: s = shape(1, 2); q = shape(2, 2); break;       // rows
    case 4: s = shape(2, 2, 2); q = shape(2, 1, 2); break;
    case 5: t = u = TYPE_INT; break;
    }
    sym_arr(a, t, s, 1, s.rank > 1); sym_arr(b, u, q, 1, q.rank > 1);
    var l; l.push("x"); l.pop(); l.push(a.v); l.push(b.v);
    CHECK(throws([&] { libube::concatenate(l); }), "refused");
    unchanged(a, "left alone"); unchanged(b, "left alone");
    __sym_cover("refused end");
}
HARNESS(concatenate_nothing) {
    var l; CHECK(throws([&] { libube::concatenate(l); }), "nothing to concatenate");
    l.push("x"); l.pop(); CHECK(throws([&] { libube::concatenate(l); }), "nothing to concatenate");
    __sym_cover("nothing end");
}
HARNESS(larger_concatenate) {
    int t = num("type", TYPE_FLOAT, TYPE_CDOUBLE), rank = num("rank", 1, 4), n = 5; static const int C[] = {2, 3, 1, 5, 2}; Arr a[5]; var l; l.push("x"); l.pop();
    if (rank == 4) n = 2;
    auto sh = [&](int c) { return rank == 1 ? shape(c + 1) : rank == 2 ? shape(3, c) : rank == 3 ? shape(2, 2, c) : shape(2, 2, 1, c); };
    int sum = 0, rows = rank == 1 ? 1 : rank == 2 ? 3 : 4;
    for (int i = 0; i < n; i++) { int c = rank == 2 || rank == 1 ? C[i] : C[i] > 2 ? 2 : C[i]; sym_arr(a[i], t, sh(c), 1, true); sum += a[i].n / rows; l.push(a[i].v); }
    var r = libube::concatenate(l); std::vector<Elem> e;
    for (int j = 0; j < rows; j++) for (int i = 0; i < n; i++) { int c = a[i].n / rows; for (int x = 0; x < c; x++) e.push_back(a[i].at(j * c + x)); }
    Shape q = sh(1); q.d[rank - 1] = sum;
    is_arr(r, t, q, [&](int i) { return e[i]; }, true, "side by side");
    for (int i = 0; i < n; i++) unchanged(a[i], "the arguments are left alone");
    __sym_cover("concatenate end");
}
// ---- swap
static Shape any_shape() {
    if (large_) return larger(1);
    int rank = num("rank", 1, 3);
    if (rank == 1) { int n = num("n", 1, 4); return shape(n); }
    if (rank == 2) { int r = num("rows", 1, 2), c = num("cols", 1, 3); return shape(r, c); }
    int p = num("planes", 1, 2); return shape(p, 1, 2);
}
static void swaps() {
    int t = num("type", TYPE_FLOAT, TYPE_CDOUBLE); Shape s = any_shape(); bool va = s.rank > 1 || num("left view", 0, 1), vb = s.rank > 1 || num("right view", 0, 1);
    Arr a, b; sym_arr(a, t, s, 1, va); sym_arr(b, t, s, 1, vb);
    libube::swap(a.v, b.v);
    for (int i = 0; i < a.n; i++) { Elem x = a.at(i); a.at(i) = b.at(i); b.at(i) = x; }
    unchanged(a, "the elements of the other, nothing around them"); unchanged(b, "the elements of the other, nothing around them");
    libube::swap(b.v, a.v);
    for (int i = 0; i < a.n; i++) { Elem x = a.at(i); a.at(i) = b.at(i); b.at(i) = x; }
    unchanged(a, "and back"); unchanged(b, "and back");
    libube::swap(a.v, a.v); unchanged(a, "with itself");
    __sym_cover("swap end");
}
HARNESS(swap_) { swaps(); }
HARNESS(larger_swap) { large_ = true; swaps(); }
HARNESS(huge_swap) { large_ = huge_ = true; swaps(); }
HARNESS(swap_refused) {
    int k = num("which", 0, 6); Shape s = shape(2), q = shape(2); int t = TYPE_FLOAT, u = TYPE_FLOAT;
    switch (k) {
    case 0: q = shape(3); break;
    case 1: s = shape(3); break;
    case 2: s = shape(2, 2); break;
    case 3: q = shape(2, 2); break;
    case 4: s = shape(2, 2); q = shape(3, 2); break;
    case 5: u = TYPE_DOUBLE; break;
    case 6: t = u = TYPE_INT; break;
    }
    Arr a, b; sym_arr(a, t, s, 1, s.rank > 1); sym_arr(b, u, q, 1, q.rank > 1);
    CHECK(throws([&] { libube::swap(a.v, b.v); }), "refused");
    unchanged(a, "left alone"); unchanged(b, "left alone");
    __sym_cover("refused end");
}
// ---- set
static Shape tail(const Shape& s, int rank) { Shape r = {rank, {1, 1, 1, 1}}; for (int i = 0; i < rank; i++) r.d[i] = s.d[s.rank - rank + i]; return r; }
static void sets() {
    int t = num("type", TYPE_FLOAT, TYPE_DOUBLE); Shape s = any_shape(); int br = num("brank", 1, s.rank); bool va = s.rank > 1 || num("left view", 0, 1), in = num("in place", 0, 1);
    Arr a, b; sym_arr(a, t, s, 1, va); sym_arr(b, t, tail(s, br), 1, true);
    if (in) {
        libube::set(a.v, b.v, a.v);
        for (int i = 0; i < a.n; i++) a.at(i) = b.at(i % b.n);
    } else {
        var r = libube::set(a.v, b.v);
        is_arr(r, t, s, [&](int i) { return b.at(i % b.n); }, true, "the elements of the second in the shape of the first");
    }
    unchanged(a, "the first"); unchanged(b, "the second is left alone");
    __sym_cover("set end");
}
HARNESS(set_) { sets(); }
HARNESS(larger_set) { large_ = true; sets(); }
HARNESS(huge_set) { large_ = huge_ = true; sets(); }
HARNESS(set_scalar) {
    int t = num("type", TYPE_INT, TYPE_CDOUBLE), u = num("value type", TYPE_INT, TYPE_DOUBLE); Shape s = any_shape(); bool va = s.rank > 1 || num("left view", 0, 1);
    Arr a; sym_arr(a, t, s, 1, va); long x = __sym_range("value", -1000, 1000); Elem w = elem_int(t, x);
    libube::set(a.v, elem_var(elem_int(u, x)), a.v);
    for (int i = 0; i < a.n; i++) a.at(i) = w;
    bool ok = true; for (int i = 0; i < a.total; i++) ok &= num_eq(raw(a.base, t, i), a.e[i]) | bit_eq(raw(a.base, t, i), a.e[i]);
    CHECK(ok, "the value everywhere, nothing around it");
    CHECK(a.v.dim() == s.rank && a.v.size() == a.n && (int)a.v.atype() == t, "shape and type");
    __sym_cover("set scalar end");
}
HARNESS(set_refused) {
    int k = num("which", 0, 4), in = num("in place", 0, 1); Shape s = shape(2), q = shape(2); int u = TYPE_FLOAT;
    switch (k) {
    case 0: q = shape(3); break;
    case 1: s = shape(3); break;
    case 2: s = shape(2, 3); break;
    case 3: q = shape(2, 2); break;
    case 4: u = TYPE_DOUBLE; break;
    }
    Arr a, b; sym_arr(a, TYPE_FLOAT, s, 1, s.rank > 1); sym_arr(b, u, q, 1, q.rank > 1);
    CHECK(throws([&] { if (in) libube::set(a.v, b.v, a.v); else libube::set(a.v, b.v); }), "refused");
    unchanged(a, "left alone"); unchanged(b, "left alone");
    __sym_cover("refused end");
}
