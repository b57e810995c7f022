//! time_quick: 150
//! time_thorough: 850
//! bound: scalars of every type with every other, values of integers within 15 bits, floats any whole number within 11 bits (double 20) (thorough also any bits for addition and subtraction); arrays and views (offset 1) of every type with up to 4 elements, matrices up to 2x3, 2x2x2, and larger ones of 9 to 24 elements and rank up to 4, and of 260 to 1030 (one symbolic element), repeated operands of every lower dimension; operators, in-place operators and explicit outputs; outputs that share the storage of an operand
//! assume: integer divisors are not zero, no integer overflow; operands do not partially overlap
#include "conv.h"
#include "mathops.h"
enum { ADD, SUB, MUL, DIV };
// the left operand's type decides
template <class T> static T ap(int op, T a, T b) { switch (op) { case ADD: return a + b; case SUB: return a - b; case MUL: return a * b; } return a / b; }
static Elem apply(int op, const Elem& x, const Elem& y0) {
    Elem y = conv(y0, x.t), r; r.t = x.t; r.a = r.b = 0;
    switch (x.t) {
    case TYPE_CHAR: r.a = (unsigned long)(long)(signed char)ap<int>(op, (char)x.a, (char)y.a); break;
    case TYPE_INT: r.a = (unsigned long)(long)ap<int>(op, (int)x.a, (int)y.a); break;
    case TYPE_LONG: r.a = (unsigned long)ap<long>(op, (long)x.a, (long)y.a); break;
    case TYPE_FLOAT: r.a = bits_of(ap<float>(op, f_of(x.a), f_of(y.a))); break;
    case TYPE_DOUBLE: r.a = bits_of(ap<double>(op, d_of(x.a), d_of(y.a))); break;
    case TYPE_CFLOAT: { cfloat c = ap<cfloat>(op, cfloat(f_of(x.a), f_of(x.b)), cfloat(f_of(y.a), f_of(y.b))); r.a = bits_of(c.real()); r.b = bits_of(c.imag()); break; }
    case TYPE_CDOUBLE: { cdouble c = ap<cdouble>(op, cdouble(d_of(x.a), d_of(x.b)), cdouble(d_of(y.a), d_of(y.b))); r.a = bits_of(c.real()); r.b = bits_of(c.imag()); break; }
    }
    return r;
}
static long lim(int t) { return t == TYPE_CHAR ? 100 : t <= TYPE_LONG ? 30000 : t == TYPE_FLOAT || t == TYPE_CFLOAT ? 2000 : 1000000; }
static long some(int t, bool nonzero) {
    long l = lim(t), x = __sym_range("value", -l, l);
    if (nonzero) __sym_assume(x != 0);
    return x;
}
static Elem whole(int t, bool nonzero = false) {
    long x = some(t, nonzero), y = cplx_(t) ? some(t, nonzero) : 0;
    return elem_int(t, x, y);
}
static var op_(int op, const var& x, const var& y) { switch (op) { case ADD: return x + y; case SUB: return x - y; case MUL: return x * y; } return x / y; }
static void op_in(int op, var& x, const var& y) { switch (op) { case ADD: x += y; break; case SUB: x -= y; break; case MUL: x *= y; break; default: x /= y; } }
static void op_out(int op, const var& x, const var& y, var& o) { switch (op) { case ADD: add(x, y, o); break; case SUB: sub(x, y, o); break; case MUL: mul(x, y, o); break; default: libube::div(x, y, o); } }
static bool eq(const Elem& x, const Elem& y) { return num_eq(x, y) | bit_eq(x, y); }
// ---- scalars
static void scalars(int op, int t, int u) {
    Elem a = whole(t), b = whole(u, op == DIV);
    // the divisor is not zero after conversion either, the result is representable
    if (t == TYPE_CHAR) {
        long x = (long)a.a, y = 0;
        if (u <= TYPE_LONG) { y = (long)b.a; __sym_assume((y >= -100) & (y <= 100)); } else { __sym_assume(representable(b, TYPE_CHAR)); }
        (void)x;
    } else if (t == TYPE_INT && u > TYPE_LONG) {
        double d = u == TYPE_FLOAT || u == TYPE_CFLOAT ? f_of(b.a) : d_of(b.a);
        __sym_assume((d >= -30000) & (d <= 30000));
    }
    var x = elem_var(a), y = elem_var(b);
    var r = op_(op, x, y);
    Elem w = apply(op, a, b);
    CHECK(r.defined() && (int)r.atype() == t && r.size() == 1, "the type of the left operand");
    CHECK(eq(raw(r, t, 0), w), "the language's result");
    CHECK(elem_eq(raw(x, t, 0), a) && elem_eq(raw(y, u, 0), b), "operands are left alone");
    var z = elem_var(b);
    op_in(op, x, y);
    CHECK((int)x.atype() == t && x.size() == 1 && eq(raw(x, t, 0), w), "the same in place");
    CHECK(elem_eq(raw(y, u, 0), b) && elem_eq(raw(z, u, 0), b), "the right operand is left alone");
    CHECK(eq(raw(r, t, 0), w), "the first result is independent");
    __sym_cover("scalars end");
}
static void real_types(int op) { int t = num("left", TYPE_CHAR, TYPE_DOUBLE), u = num("right", TYPE_CHAR, TYPE_CDOUBLE); scalars(op, t, u); }
static void complex_types(int op) { int t = num("left", TYPE_CFLOAT, TYPE_CDOUBLE), u = num("right", TYPE_CHAR, TYPE_CDOUBLE); scalars(op, t, u); }
HARNESS(scalar_add) { real_types(ADD); }
HARNESS(scalar_sub) { real_types(SUB); }
HARNESS(scalar_mul) { real_types(MUL); }
HARNESS(scalar_div) { real_types(DIV); }
HARNESS(complex_add) { complex_types(ADD); }
HARNESS(complex_sub) { complex_types(SUB); }
HARNESS(complex_mul) { complex_types(MUL); }
// division by a real number only: the general case is a long expression of roundings
HARNESS(complex_div) {
    int t = num("left", TYPE_CFLOAT, TYPE_CDOUBLE);
    static const int DR[] = {1, 2, -4, 3}, DI[] = {0, 1, -1, 2};
    int k = num("divisor", 0, 3);
    Elem a = whole(t), b = elem_int(t, DR[k], DI[k]);
    var x = elem_var(a), y = elem_var(b), r = x / y;
    CHECK((int)r.atype() == t && eq(raw(r, t, 0), apply(DIV, a, b)), "the language's result");
    x /= y;
    CHECK((int)x.atype() == t && eq(raw(x, t, 0), apply(DIV, a, b)), "in place");
    __sym_cover("div end");
}
HARNESS(negate) {
    int t = num("type", TYPE_CHAR, TYPE_CDOUBLE);
    Elem a = whole(t); var x = elem_var(a), r = -x;
    CHECK((int)r.atype() == t && eq(raw(r, t, 0), apply(MUL, a, elem_int(t, -1))), "negated");
    CHECK(elem_eq(raw(x, t, 0), a), "the operand is left alone");
    __sym_cover("negate end");
}
HARNESS_T(scalar_bits) {
    int op = num("op", ADD, SUB), t = num("type", TYPE_FLOAT, TYPE_CDOUBLE);
    Elem a = elem_sym(t, "a"), b = elem_sym(t, "b"); var x = elem_var(a), y = elem_var(b), r = op_(op, x, y);
    CHECK((int)r.atype() == t && bit_eq(raw(r, t, 0), apply(op, a, b)), "any values");
    __sym_cover("bits end");
}
// what is not a number is refused
HARNESS(refused_scalars) {
    int op = num("op", ADD, DIV), k = num("left", 0, 1); var x, y = 2;
    if (k) { x = "12"; if (op != MUL) return; }
    if (k) CHECK(throws([&] { op_(op, x, y); }), "refused"); else { try { var r = op_(op, x, y); CHECK(!r.defined(), "nothing"); } catch (const std::exception&) {} }
    if (k) str_check(x, "12", 2, "operand"); else CHECK(!x.defined(), "operand");
    __sym_cover("refused end");
}
// ---- arrays
static Shape left_shape(int rank) {
    if (large_) return larger(1);
    if (rank == 1) { int n = num("n", 1, 4); return shape(n); }
    if (rank == 2) { int r = num("rows", 1, 2), c = num("cols", 1, 3); return shape(r, c); }
    int p = num("planes", 1, 2), r = num("rows", 1, 2); return shape(p, r, 2);
}
// the trailing dimensions
static Shape tail(const Shape& s, int rank) { Shape r = {rank, {1, 1, 1, 1}}; for (int i = 0; i < rank; i++) r.d[i] = s.d[s.rank - rank + i]; return r; }
enum { FREE, IN_PLACE, OUTPUT };
static void fill(Arr& a, int t, Shape s, bool view) {
    if (huge_) { int at = place(s.size()) + view; build(a, t, s, 1, view, [&](int i) { return i == at ? whole(t) : elem_int(t, i * 5 % 23 + 1, i % 7 - 3); }); return; }
    build(a, t, s, 1, view, [&](int) { return whole(t); }); }
static void result(Arr& a, var& r, int op, int form, int t, std::vector<Elem>& w, const char* msg) {
    bool ok = true;
    for (int i = 0; i < a.n; i++) ok &= eq(raw(r, t, i), w[i]);
    CHECK(ok, msg);
}
// is(r, a) without the elements
static void geometry(var& r, Arr& a, const char* msg) {
    CHECK(r.defined() && (int)r.atype() == a.t && r.size() == a.n && r.dim() == a.s.rank, msg);
    for (int i = 0; i < a.s.rank; i++) CHECK((long)r.shape(i) == a.s.d[i], msg);
}
static void arrays(int op, int t, int rank, int brank) {
    Shape s = left_shape(rank); if (large_) { rank = s.rank; brank = num("brank", 1, rank); } Shape q = tail(s, brank);
    bool vb = brank > 1 || (rank > 1 && num("right view", 0, 1)), va = rank > 1 || num("left view", 0, 1);
    Arr a, b; fill(a, t, s, va); fill(b, t, q, vb);
    int form = num("form", FREE, OUTPUT);
    std::vector<Elem> w(a.n); for (int i = 0; i < a.n; i++) w[i] = apply(op, a.at(i), b.at(i % b.n));
    if (form == IN_PLACE) {
        op_in(op, a.v, b.v);
        for (int i = 0; i < a.n; i++) a.at(i) = w[i];
        bool ok = true;
        for (int i = 0; i < a.total; i++) ok &= eq(raw(a.base, t, i), a.e[i]);
        CHECK(ok, "the result in place, nothing around it changes");
        geometry(a.v, a, "the left operand keeps its shape");
    } else if (form == FREE) {
        var r = op_(op, a.v, b.v);
        geometry(r, a, "type and shape of the left operand");
        result(a, r, op, form, t, w, "elementwise");
        a.check("the left operand is left alone");
    } else {
        Arr o; fill(o, t, s, va);
        op_out(op, a.v, b.v, o.v);
        for (int i = 0; i < a.n; i++) o.at(i) = w[i];
        bool ok = true;
        for (int i = 0; i < o.total; i++) ok &= eq(raw(o.base, t, i), o.e[i]);
        CHECK(ok, "the result in the output, nothing around it changes");
        geometry(o.v, o, "the output keeps its shape");
        a.check("the left operand is left alone");
    }
    b.check("the right operand is left alone");
    __sym_cover("arrays end");
}
static void array_op(int op, int tlast) {
    int t = num("type", TYPE_FLOAT, tlast), rank = num("rank", 1, 3), brank = num("brank", 1, rank);
    arrays(op, t, rank, brank);
}
HARNESS(array_add) { array_op(ADD, TYPE_CDOUBLE); }
HARNESS(array_sub) { array_op(SUB, TYPE_CDOUBLE); }
HARNESS(array_mul) { array_op(MUL, TYPE_DOUBLE); }
HARNESS(larger_arrays) { large_ = true; int op = num("op", ADD, MUL), t = num("type", TYPE_FLOAT, TYPE_DOUBLE); arrays(op, t, 1, 1); }
HARNESS(huge_arrays) { large_ = huge_ = true; int op = num("op", ADD, MUL), t = num("type", TYPE_FLOAT, TYPE_DOUBLE); arrays(op, t, 1, 1); }
HARNESS(huge_complex) { large_ = huge_ = true; int op = num("op", ADD, SUB), t = num("type", TYPE_CFLOAT, TYPE_CDOUBLE); arrays(op, t, 1, 1); }
HARNESS(larger_complex) { large_ = true; int op = num("op", ADD, SUB), t = num("type", TYPE_CFLOAT, TYPE_CDOUBLE); arrays(op, t, 1, 1); }
// array and scalar (or array of one)
static void with_scalar(int op, int t, int u) {
    int rank = large_ ? 1 : num("rank", 1, 3); Shape s = left_shape(rank); rank = s.rank;
    bool va = rank > 1 || num("left view", 0, 1), one = u != TYPE_CHAR && num("array of one", 0, 1);
    Arr a; fill(a, t, s, va);
    Elem e; if (u <= TYPE_LONG || t <= TYPE_LONG) { long x = __sym_range("scalar", -50, 50); if (op == DIV) __sym_assume(x != 0); e = elem_int(u, x); } else e = whole(u, op == DIV);
    if (t == TYPE_CHAR) for (int i = 0; i < a.total; i++) {}
    var b = elem_var(e); if (one) { if (!b.heap()) b.array(); }
    int form = num("form", FREE, OUTPUT);
    std::vector<Elem> w(a.n); for (int i = 0; i < a.n; i++) w[i] = apply(op, a.at(i), e);
    if (form == FREE) {
        var r = op_(op, a.v, b);
        geometry(r, a, "type and shape of the left operand");
        result(a, r, op, form, t, w, "the scalar with every element");
        a.check("the left operand is left alone");
    } else if (form == IN_PLACE) {
        op_in(op, a.v, b);
        for (int i = 0; i < a.n; i++) a.at(i) = w[i];
        bool ok = true; for (int i = 0; i < a.total; i++) ok &= eq(raw(a.base, t, i), a.e[i]);
        CHECK(ok, "the result in place, nothing around it changes");
        geometry(a.v, a, "the left operand keeps its shape");
    } else {
        Arr o; fill(o, t, s, va);
        op_out(op, a.v, b, o.v);
        for (int i = 0; i < a.n; i++) o.at(i) = w[i];
        bool ok = true; for (int i = 0; i < o.total; i++) ok &= eq(raw(o.base, t, i), o.e[i]);
        CHECK(ok, "the result in the output, nothing around it changes");
        a.check("the left operand is left alone");
    }
    CHECK(eq(raw(b, u, 0), e), "the scalar is left alone");
    __sym_cover("with scalar end");
}
HARNESS(array_scalar_add) { int t = num("type", TYPE_CHAR, TYPE_CDOUBLE); with_scalar(ADD, t, t); }
HARNESS(array_scalar_sub) { int t = num("type", TYPE_CHAR, TYPE_CDOUBLE); with_scalar(SUB, t, t); }
HARNESS(array_scalar_mul) { int t = num("type", TYPE_FLOAT, TYPE_DOUBLE); with_scalar(MUL, t, t); }
HARNESS(array_scalar_div) { int t = num("type", TYPE_CHAR, TYPE_DOUBLE); with_scalar(DIV, t, t); }
HARNESS(larger_scalar) { large_ = true; int op = num("op", ADD, DIV), t = num("type", op == MUL ? TYPE_FLOAT : TYPE_CHAR, TYPE_DOUBLE); with_scalar(op, t, t); }
HARNESS(array_scalar_types) {
    int op = num("op", ADD, DIV), t = num("type", op == MUL ? TYPE_FLOAT : TYPE_INT, TYPE_DOUBLE), u = num("scalar type", TYPE_CHAR, TYPE_DOUBLE);
    int n = num("n", 1, 2); Arr a; fill(a, t, shape(n), false);
    long x = __sym_range("scalar", -50, 50); if (op == DIV) __sym_assume(x != 0);
    Elem e = elem_int(u, x); var b = elem_var(e), r = op_(op, a.v, b);
    geometry(r, a, "type and shape of the left operand");
    bool ok = true; for (int i = 0; i < n; i++) ok &= eq(raw(r, t, i), apply(op, a.at(i), e));
    CHECK(ok, "the scalar converted, with every element");
    a.check("the left operand is left alone");
    __sym_cover("types end");
}
// arrays of anything and maps: element by element, with the element's own type
HARNESS(mixed) {
    int op = num("op", ADD, DIV); if (op == MUL) return;
    int n = num("n", 1, 3), nest = num("nested at", -1, n - 1), map = num("map", 0, 1), in = num("in place", 0, 1);
    Elem e[3], in_[2]; var v; static const char* const K[] = {"a", "b", "c"};
    if (!map) { v.push("x"); v.pop(); }
    for (int i = 0; i < n; i++) {
        int t = num("type", TYPE_INT, TYPE_DOUBLE); if (t == TYPE_LONG) return;
        e[i] = whole(t); var x = elem_var(e[i]);
        if (i == nest) { x.array(); x.push(x.at(0)); }
        if (map) v[K[i]] = x; else v.push(x);
    }
    (void)in_;
    long d = __sym_range("right", -50, 50); if (op == DIV) __sym_assume(d != 0);
    var y = elem_var(elem_int(TYPE_INT, d)), r;
    long mk = __sym_leak_mark();
    if (in) { op_in(op, v, y); r = v; } else r = op_(op, v, y);
    CHECK(r.size() == n && (map ? (int)r.atype() == TYPE_PAIR : (int)r.atype() != TYPE_PAIR), "as many elements");
    for (int i = 0; i < n; i++) {
        Elem w = apply(op, e[i], elem_int(TYPE_INT, d)); var x = r.at(i), o = v.at(i);
        if (map) CHECK(str_eq(r.key(i), K[i], 1), "the same keys");
        if (i == nest) {
            CHECK(x.heap() && x.size() == 2 && (int)x.atype() == e[i].t, "a nested array");
            CHECK(eq(raw(x, e[i].t, 0), w) & eq(raw(x, e[i].t, 1), w), "the elements of a nested array");
            if (!in) CHECK(elem_eq(raw(o, e[i].t, 0), e[i]) & elem_eq(raw(o, e[i].t, 1), e[i]), "the operand is left alone");
        } else {
            CHECK((int)x.type() == e[i].t && eq(elem_of(x, e[i].t), w), "each element in its type");
            if (!in) CHECK((int)o.type() == e[i].t && elem_eq(elem_of(o, e[i].t), e[i]), "the operand is left alone");
        }
    }
    if (in) __sym_leak_check(mk, "nothing kept");
    __sym_cover("mixed end");
}
// both operands the same array, or the right one a part of the left one
HARNESS(itself) {
    int op = num("op", ADD, MUL), t = num("type", TYPE_FLOAT, op == MUL ? TYPE_DOUBLE : TYPE_CDOUBLE), rank = num("rank", 1, 2);
    Shape s = left_shape(rank); Arr a; fill(a, t, s, rank > 1 || num("view", 0, 1));
    std::vector<Elem> w(a.n); for (int i = 0; i < a.n; i++) w[i] = apply(op, a.at(i), a.at(i));
    bool free_ = num("free", 0, 1); var r;
    if (free_) { r = op_(op, a.v, a.v); a.check("the operand is left alone"); } else { op_in(op, a.v, a.v); r = a.v; }
    bool ok = true; for (int i = 0; i < a.n; i++) ok &= eq(raw(r, t, i), w[i]);
    CHECK(ok, "an array with itself");
    __sym_cover("itself end");
}
HARNESS(own_row) {
    int op = num("op", ADD, MUL), t = num("type", TYPE_FLOAT, op == MUL ? TYPE_DOUBLE : TYPE_CDOUBLE), cols = num("cols", 1, 3), row = num("row", 0, 1);
    Arr a; fill(a, t, shape(2, cols), true);
    std::vector<Elem> w(a.n); for (int i = 0; i < a.n; i++) w[i] = apply(op, a.at(i), a.at(row * cols + i % cols));
    var q = a.v.subview(1, row * cols);
    op_in(op, a.v, q);
    bool ok = true; for (int i = 0; i < a.n; i++) ok &= eq(raw(a.v, t, i), w[i]);
    CHECK(ok, "a matrix with a row of its own");
    __sym_cover("own row end");
}
HARNESS(own_element) {
    int op = num("op", ADD, DIV), t = num("type", op == MUL ? TYPE_FLOAT : TYPE_INT, TYPE_DOUBLE), n = num("n", 1, 3), at = num("at", 0, n - 1);
    Arr a; build(a, t, shape(n), 0, false, [&](int i) { long x = __sym_range("value", 1, 100); return elem_int(t, x); });
    Elem w[4]; for (int i = 0; i < n; i++) w[i] = apply(op, a.e[i], a.e[at]);
    op_in(op, a.v, a.v[at]);
    bool ok = true; for (int i = 0; i < n; i++) ok &= eq(raw(a.v, t, i), w[i]);
    CHECK(ok, "an array with an element of its own");
    __sym_cover("own element end");
}
// elements of arrays as left operands
HARNESS(element_left) {
    int op = num("op", ADD, DIV), t = num("type", TYPE_INT, TYPE_CFLOAT), n = num("n", 1, 3), at = num("at", 0, n - 1);
    if (op == DIV && t == TYPE_CFLOAT) return;
    Arr a; build(a, t, shape(n), 0, false, [&](int i) { long x = __sym_range("value", -100, 100); return elem_int(t, x, 0); });
    long y = __sym_range("right", -50, 50); if (op == DIV) __sym_assume(y != 0);
    Elem e = elem_int(TYPE_INT, y), w = apply(op, a.e[at], e);
    bool in = num("in place", 0, 1);
    if (in) { switch (op) { case ADD: a.v[at] += (int)y; break; case SUB: a.v[at] -= (int)y; break; case MUL: a.v[at] *= (int)y; break; default: a.v[at] /= (int)y; } a.e[at] = w; }
    else { var r = op_(op, a.v[at], (int)y); CHECK(eq(raw(r, t, 0), w), "result"); }
    bool ok = true; for (int i = 0; i < n; i++) ok &= eq(raw(a.v, t, i), a.e[i]);
    CHECK(ok, "that element only");
    __sym_cover("element end");
}
// a shared handle sees what is done in place; arrays of var elementwise
HARNESS(shared) {
    int op = num("op", ADD, SUB), n = num("n", 1, 3); Arr a; fill(a, TYPE_DOUBLE, shape(n), false);
    var h = a.v; Elem e = whole(TYPE_DOUBLE); h += elem_var(e); if (op == SUB) { h -= elem_var(e); h -= elem_var(e); }
    bool ok = true; for (int i = 0; i < n; i++) ok &= eq(raw(a.base, TYPE_DOUBLE, i), apply(op, a.e[i], e));
    CHECK(ok, "seen through every handle");
    __sym_cover("shared end");
}
// nothing to do, nothing touched
HARNESS(empty) {
    int op = num("op", ADD, MUL), form = num("form", FREE, IN_PLACE), t = num("type", TYPE_FLOAT, TYPE_DOUBLE), with = num("with", 0, 1);
    var a = elem_var(elem_int(t, 1)), b = elem_var(elem_int(t, 1)); a.array(); b.array(); a.resize(0); if (with) b.resize(0);
    if (form == FREE) { var r = op_(op, a, b); CHECK(r.size() == 0 && (int)r.atype() == t, "empty"); } else { op_in(op, a, b); }
    CHECK(a.size() == 0 && (int)a.atype() == t, "empty");
    __sym_cover("empty end");
}
// what does not conform is refused, and nothing changes
HARNESS(refused) {
    int op = num("op", ADD, DIV), t = num("type", TYPE_FLOAT, TYPE_DOUBLE), form = num("form", FREE, IN_PLACE), k = num("which", 0, 7);
    Arr a, b; int u = t; Shape s = shape(2), q = shape(2);
    switch (k) {
    case 0: s = shape(3); break;                                       // longer
    case 1: s = shape(2); q = shape(3); break;                         // shorter
    case 2: s = shape(2, 3); break;                                    // rows of another length
    case 3: s = shape(2); q = shape(2, 2); break;                      // more dimensions
    case 4: s = shape(3, 2); q = shape(2, 3); break;                   // transposed
    case 5: u = t == TYPE_FLOAT ? TYPE_DOUBLE : TYPE_FLOAT; break;     // another type
    case 6: s = shape(2, 2, 2); q = shape(1, 2); break;                // another number of rows
    case 7: s = shape(2, 2); q = shape(4); break;                      // as many elements
    }
    fill(a, t, s, s.rank > 1); fill(b, u, q, q.rank > 1);
    CHECK(throws([&] { if (form == FREE) op_(op, a.v, b.v); else op_in(op, a.v, b.v); }), "refused");
    a.check("the left operand is left alone"); b.check("the right operand is left alone");
    CHECK(a.v.dim() == s.rank && a.v.size() == s.size(), "shape");
    __sym_cover("refused end");
}
HARNESS(array_division) {
    int t = num("type", TYPE_FLOAT, TYPE_DOUBLE); Arr a, b; fill(a, t, shape(2), false); fill(b, t, shape(2), false);
    CHECK(throws([&] { a.v / b.v; }), "division by an array is refused"); a.check("left"); b.check("right");
    CHECK(throws([&] { a.v /= b.v; }), "division by an array is refused"); a.check("left"); b.check("right");
    __sym_cover("division end");
}
// the output is another view of the storage of the left operand: of the operand itself, or beside it
HARNESS(same_storage) {
    int op = num("op", ADD, DIV), t = num("type", TYPE_INT, TYPE_CDOUBLE), beside = num("beside", 0, 1), right = num("right", 0, 2); if (op == DIV && (right || cplx_(t))) return; if (right && (t < TYPE_FLOAT || t > TYPE_DOUBLE)) return; if (op >= MUL && (t < TYPE_FLOAT || t > TYPE_DOUBLE)) return;
    int rank = num("rank", 1, 2); Shape s = rank == 1 ? shape(num("n", 1, 3)) : shape(2, num("cols", 1, 2)); int n = s.size();
    Arr a, b; build(a, t, shape(2 * n + 2), 1, false, [&](int i) { return i % 3 == 1 ? whole(t) : elem_int(t, i - 4, i); });
    Shape q = right == 0 ? shape(1) : right == 1 ? s : shape(s.d[s.rank - 1]);
    build(b, t, q, 1, right > 0, [&](int i) { return i == 1 ? whole(t, op == DIV) : elem_int(t, i + 2, 1 - i); });
    var y = right ? b.v : elem_var(b.at(0)); int bn = right ? b.n : 1;
    var x = look(a, s, 1), o = look(a, s, beside ? n + 1 : 1);
    std::vector<Elem> w(n); for (int i = 0; i < n; i++) w[i] = apply(op, a.e[1 + i], b.at(i % bn));
    op_out(op, x, y, o);
    for (int i = 0; i < n; i++) a.e[(beside ? n : 0) + 1 + i] = w[i];
    bool ok = true; for (int i = 0; i < a.total; i++) ok &= eq(raw(a.base, t, i), a.e[i]);
    CHECK(ok, "the result in the output, nothing around it changes");
    if (right) b.check("the right operand is left alone");
    __sym_cover("same storage end");
}
