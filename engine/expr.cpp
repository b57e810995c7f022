#include <map>
#include "expr.h"
#include <cmath>
#include <cstring>
#include <cassert>
#include <algorithm>
#include <unordered_set>

std::vector<VarInfo> gVars;
std::vector<std::string> gUFs;
uint64_t gNodeCount = 0;

namespace {
struct NHash { size_t operator()(const Node* n) const { return n->hash; } };
struct NEq {
    bool operator()(const Node* a, const Node* b) const {
        if (a->op != b->op || a->w != b->w || a->aux != b->aux || a->ch.size() != b->ch.size())
            return false;
        for (size_t i = 0; i < a->ch.size(); i++) if (a->ch[i] != b->ch[i]) return false;
        if (a->op == Op::Const) return a->c == b->c;
        return true;
    }
};
std::unordered_set<Node*, NHash, NEq> table;

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    return h * 0xff51afd7ed558ccdull;
}

E intern(Op op, unsigned w, uint32_t aux, llvm::ArrayRef<E> ch, const APInt* c = nullptr) {
    static Node* probe = nullptr;
    if (!probe) probe = new Node();
    Node* n = probe;
    n->op = op; n->w = w; n->aux = aux; n->ch.assign(ch.begin(), ch.end());
    uint64_t h = mix(uint64_t(op) * 31 + w, aux);
    for (E x : ch) h = mix(h, x->id + 77);
    if (c) { n->c = *c; for (unsigned i = 0; i < c->getNumWords(); i++) h = mix(h, c->getRawData()[i]); }
    n->hash = h;
    auto it = table.find(n);
    if (it != table.end()) return *it;
    n->id = gNodeCount++;
    table.insert(n);
    probe = new Node();
    return n;
}
inline APInt maskLo(unsigned w, unsigned k) { return APInt::getLowBitsSet(w, k); }
} // namespace

E mkConst(const APInt& v) { return intern(Op::Const, v.getBitWidth(), 0, {}, &v); }
E mkConst(unsigned w, uint64_t v) {
    APInt a(w, v, false);
    return intern(Op::Const, w, 0, {}, &a);
}
E mkVar(const std::string& name, unsigned w) {
    VarInfo vi; vi.name = name; vi.w = w;
    uint32_t id = gVars.size();
    E e = intern(Op::Var, w, id, {});
    vi.node = e;
    gVars.push_back(vi);
    return e;
}
E mkVarRanged(const std::string& name, unsigned w, int64_t lo, int64_t hi) {
    VarInfo vi; vi.name = name; vi.w = w; vi.ranged = true; vi.lo = lo; vi.hi = hi;
    uint32_t id = gVars.size();
    gVars.push_back(vi);
    E e = intern(Op::Var, w, id, {});
    gVars[id].node = e;
    return e;
}
static uint32_t ufId(const std::string& n) {
    for (size_t i = 0; i < gUFs.size(); i++) if (gUFs[i] == n) return i;
    gUFs.push_back(n);
    return gUFs.size() - 1;
}
E mkUF(const std::string& name, unsigned w, llvm::ArrayRef<E> args) {
    bool allc = true;
    llvm::SmallVector<APInt, 4> cs;
    for (E a : args) { if (!a->isConst()) { allc = false; break; } cs.push_back(a->c); }
    if (allc) { APInt r(w, 0); if (nativeLibm(name, w, cs, r)) return mkConst(r); }
    return intern(Op::UF, w, ufId(name), args);
}

// ---------------------------------------------------------------- ranges
bool srange(E e, int64_t& lo, int64_t& hi) {
    if (e->w > 64) return false;
    if (e->rangeDone) { lo = e->slo; hi = e->shi; return true; }
    unsigned w = e->w;
    int64_t fl = w == 64 ? INT64_MIN : -(int64_t(1) << (w - 1));
    int64_t fh = w == 64 ? INT64_MAX : (int64_t(1) << (w - 1)) - 1;
    lo = fl; hi = fh;
    auto fits = [&](__int128 a, __int128 b) {
        if (a >= fl && b <= fh) { lo = (int64_t)a; hi = (int64_t)b; return true; }
        return false;
    };
    int64_t al, ah, bl, bh;
    switch (e->op) {
    case Op::Const: lo = hi = e->c.getSExtValue(); break;
    case Op::Var: if (gVars[e->aux].ranged) { lo = gVars[e->aux].lo; hi = gVars[e->aux].hi; } break;
    case Op::SExt: srange(e->ch[0], lo, hi); break;
    case Op::ZExt: {
        E a = e->ch[0];
        if (a->w <= 63) {
            srange(a, al, ah);
            if (al >= 0) { lo = al; hi = ah; }
            else { lo = 0; hi = (int64_t)((uint64_t(1) << a->w) - 1); }
        }
        break;
    }
    case Op::Add:
        srange(e->ch[0], al, ah); srange(e->ch[1], bl, bh);
        fits((__int128)al + bl, (__int128)ah + bh); break;
    case Op::Sub:
        srange(e->ch[0], al, ah); srange(e->ch[1], bl, bh);
        fits((__int128)al - bh, (__int128)ah - bl); break;
    case Op::Mul: {
        srange(e->ch[0], al, ah); srange(e->ch[1], bl, bh);
        __int128 p[4] = {(__int128)al * bl, (__int128)al * bh, (__int128)ah * bl, (__int128)ah * bh};
        __int128 mn = p[0], mx = p[0];
        for (auto x : p) { if (x < mn) mn = x; if (x > mx) mx = x; }
        fits(mn, mx); break;
    }
    case Op::Ite:
        srange(e->ch[1], al, ah); srange(e->ch[2], bl, bh);
        lo = std::min(al, bl); hi = std::max(ah, bh); break;
    case Op::And:
        srange(e->ch[0], al, ah); srange(e->ch[1], bl, bh);
        if (al >= 0 && bl >= 0) { lo = 0; hi = std::min(ah, bh); }
        else if (al >= 0) { lo = 0; hi = ah; }
        else if (bl >= 0) { lo = 0; hi = bh; }
        break;
    case Op::URem:
        if (e->ch[1]->isConst() && e->ch[1]->c.isStrictlyPositive()) {
            lo = 0; hi = e->ch[1]->c.getSExtValue() - 1;
            srange(e->ch[0], al, ah);
            if (al >= 0 && ah < hi) hi = ah;
        }
        break;
    case Op::UDiv:
        srange(e->ch[0], al, ah);
        if (al >= 0 && e->ch[1]->isConst() && e->ch[1]->c.isStrictlyPositive()) {
            int64_t d = e->ch[1]->c.getSExtValue(); lo = al / d; hi = ah / d;
        }
        break;
    case Op::LShr:
        srange(e->ch[0], al, ah);
        if (e->ch[1]->isConst()) {
            uint64_t s = e->ch[1]->c.getLimitedValue(64);
            if (s >= w) { lo = hi = 0; }
            else if (al >= 0) { lo = al >> s; hi = ah >> s; }
            else if (s > 0) { lo = 0; hi = (int64_t)((w == 64 ? ~uint64_t(0) : ((uint64_t(1) << w) - 1)) >> s); }
        }
        break;
    case Op::AShr:
        srange(e->ch[0], al, ah);
        if (e->ch[1]->isConst()) { uint64_t s = std::min<uint64_t>(63, e->ch[1]->c.getLimitedValue(63)); lo = al >> s; hi = ah >> s; }
        break;
    case Op::Extract:
        if (e->aux == 0 && e->ch[0]->w <= 64) {
            srange(e->ch[0], al, ah); fits(al, ah);
        }
        break;
    case Op::Concat:
        if (e->ch[0]->isConst() && e->ch[0]->c.isZero() && e->ch[1]->w < 64) {
            lo = 0; hi = (int64_t)((uint64_t(1) << e->ch[1]->w) - 1);
        }
        break;
    case Op::FPToSI: case Op::FPToUI: default: break;
    }
    e->slo = lo; e->shi = hi; e->rangeDone = true;
    return true;
}

static std::unordered_map<uint32_t, std::vector<uint32_t>*> varCache;
static const std::vector<uint32_t> noVars;
const std::vector<uint32_t>& varsOf(E e) {
    if (e->vars) return *e->vars;
    // iterative post-order
    std::vector<std::pair<E, bool>> st{{e, false}};
    while (!st.empty()) {
        auto [n, done] = st.back(); st.pop_back();
        if (n->vars) continue;
        if (!done) {
            st.push_back({n, true});
            for (E c : n->ch) if (!c->vars) st.push_back({c, false});
            continue;
        }
        if (n->op == Op::Const) { n->vars = &noVars; continue; }
        if (n->op == Op::Var) { n->vars = new std::vector<uint32_t>{n->aux}; continue; }
        if (n->op == Op::UF) { // applications of one function are connected: the function counts as a variable
            std::vector<uint32_t> u{0x80000000u | n->aux};
            for (E c : n->ch) { std::vector<uint32_t> t; std::set_union(u.begin(), u.end(), c->vars->begin(), c->vars->end(), std::back_inserter(t)); u.swap(t); }
            n->vars = new std::vector<uint32_t>(std::move(u)); continue;
        }
        const std::vector<uint32_t>* big = &noVars;
        for (E c : n->ch) if (c->vars->size() > big->size()) big = c->vars;
        bool subset = true;
        for (E c : n->ch)
            if (c->vars != big && !std::includes(big->begin(), big->end(), c->vars->begin(), c->vars->end())) { subset = false; break; }
        if (subset) { n->vars = big; continue; }
        std::vector<uint32_t> u;
        for (E c : n->ch) { std::vector<uint32_t> t; std::set_union(u.begin(), u.end(), c->vars->begin(), c->vars->end(), std::back_inserter(t)); u.swap(t); }
        n->vars = new std::vector<uint32_t>(std::move(u));
    }
    return *e->vars;
}

// ---------------------------------------------------------------- folding
double bitsToDouble(uint64_t b, unsigned w) {
    if (w == 32) { uint32_t x = (uint32_t)b; float f; memcpy(&f, &x, 4); return f; }
    double d; memcpy(&d, &b, 8); return d;
}
uint64_t doubleToBits(double d, unsigned w) {
    if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; }
    uint64_t x; memcpy(&x, &d, 8); return x;
}
static float bf(const APInt& a) { uint32_t x = (uint32_t)a.getZExtValue(); float f; memcpy(&f, &x, 4); return f; }
static double bd(const APInt& a) { uint64_t x = a.getZExtValue(); double f; memcpy(&f, &x, 8); return f; }
static APInt fb(float f) { uint32_t x; memcpy(&x, &f, 4); return APInt(32, x); }
static APInt db(double f) { uint64_t x; memcpy(&x, &f, 8); return APInt(64, x); }

bool fcmpC(unsigned p, double x, double y) {
    bool un = std::isnan(x) || std::isnan(y);
    bool r = false;
    // llvm: bit0 = eq, bit1 = gt, bit2 = lt, bit3 = unordered
    if (un) return (p & 8) != 0;
    if (x == y) r = (p & 1) != 0;
    else if (x > y) r = (p & 2) != 0;
    else r = (p & 4) != 0;
    return r;
}
bool nativeLibm(const std::string& n, unsigned w, llvm::ArrayRef<APInt> a, APInt& r) {
    auto F1 = [&](const char* nm, float (*f)(float), double (*d)(double)) {
        if (n == nm && a.size() == 1) {
            if (w == 32 && a[0].getBitWidth() == 32) { r = fb(f(bf(a[0]))); return true; }
            if (w == 64 && a[0].getBitWidth() == 64) { r = db(d(bd(a[0]))); return true; }
        }
        return false;
    };
    auto F2 = [&](const char* nm, float (*f)(float, float), double (*d)(double, double)) {
        if (n == nm && a.size() == 2) {
            if (w == 32) { r = fb(f(bf(a[0]), bf(a[1]))); return true; }
            if (w == 64) { r = db(d(bd(a[0]), bd(a[1]))); return true; }
        }
        return false;
    };
    return F1("sin", sinf, sin) || F1("cos", cosf, cos) || F1("tan", tanf, tan) || F1("atan", atanf, atan) ||
        F1("exp", expf, exp) || F1("log", logf, log) || F1("log10", log10f, log10) || F2("pow", powf, pow) ||
        F2("atan2", atan2f, atan2) || F2("hypot", hypotf, hypot) || F2("fmod", fmodf, fmod);
}

APInt foldOp(Op op, unsigned w, uint32_t aux, llvm::ArrayRef<APInt> a) {
    switch (op) {
    case Op::Add: return a[0] + a[1];
    case Op::Sub: return a[0] - a[1];
    case Op::Mul: return a[0] * a[1];
    case Op::UDiv: return a[1].isZero() ? APInt::getAllOnes(w) : a[0].udiv(a[1]);
    case Op::SDiv: return a[1].isZero() ? (a[0].isNegative() ? APInt(w, 1) : APInt::getAllOnes(w)) : a[0].sdiv(a[1]);
    case Op::URem: return a[1].isZero() ? a[0] : a[0].urem(a[1]);
    case Op::SRem: return a[1].isZero() ? a[0] : a[0].srem(a[1]);
    case Op::And: return a[0] & a[1];
    case Op::Or: return a[0] | a[1];
    case Op::Xor: return a[0] ^ a[1];
    case Op::Shl: return a[1].uge(w) ? APInt(w, 0) : a[0].shl(a[1]);
    case Op::LShr: return a[1].uge(w) ? APInt(w, 0) : a[0].lshr(a[1]);
    case Op::AShr: return a[1].uge(w) ? (a[0].isNegative() ? APInt::getAllOnes(w) : APInt(w, 0)) : a[0].ashr(a[1]);
    case Op::Eq: return APInt(1, a[0] == a[1]);
    case Op::Ult: return APInt(1, a[0].ult(a[1]));
    case Op::Ule: return APInt(1, a[0].ule(a[1]));
    case Op::Slt: return APInt(1, a[0].slt(a[1]));
    case Op::Sle: return APInt(1, a[0].sle(a[1]));
    case Op::Ite: return a[0].isZero() ? a[2] : a[1];
    case Op::Concat: return a[0].concat(a[1]);
    case Op::Extract: return a[0].extractBits(w, aux);
    case Op::ZExt: return a[0].zext(w);
    case Op::SExt: return a[0].sext(w);
    case Op::FAdd: return w == 32 ? fb(bf(a[0]) + bf(a[1])) : db(bd(a[0]) + bd(a[1]));
    case Op::FSub: return w == 32 ? fb(bf(a[0]) - bf(a[1])) : db(bd(a[0]) - bd(a[1]));
    case Op::FMul: return w == 32 ? fb(bf(a[0]) * bf(a[1])) : db(bd(a[0]) * bd(a[1]));
    case Op::FDiv: return w == 32 ? fb(bf(a[0]) / bf(a[1])) : db(bd(a[0]) / bd(a[1]));
    case Op::FRem: return w == 32 ? fb(fmodf(bf(a[0]), bf(a[1]))) : db(fmod(bd(a[0]), bd(a[1])));
    case Op::FSqrt: return w == 32 ? fb(sqrtf(bf(a[0]))) : db(std::sqrt(bd(a[0])));
    case Op::FCmp: {
        double x = bitsToDouble(a[0].getZExtValue(), a[0].getBitWidth());
        double y = bitsToDouble(a[1].getZExtValue(), a[1].getBitWidth());
        return APInt(1, fcmpC(aux, x, y));
    }
    case Op::FPToSI: {
        // x86 semantics for out of range: "integer indefinite"
        double d = bitsToDouble(a[0].getZExtValue(), a[0].getBitWidth());
        if (w == 64) return APInt(64, (uint64_t)((std::isnan(d) || d >= 9223372036854775808.0 || d < -9223372036854775808.0) ? INT64_MIN : (int64_t)d));
        if (std::isnan(d) || d >= 2147483648.0 || d <= -2147483649.0) return APInt(32, 0x80000000u).zextOrTrunc(w);
        return APInt(64, (uint64_t)(int64_t)d).trunc(w);
    }
    case Op::FPToUI: {
        double d = bitsToDouble(a[0].getZExtValue(), a[0].getBitWidth());
        uint64_t u = std::isnan(d) ? 0x8000000000000000ull : (d < 0 ? (d > -9.2e18 ? (uint64_t)(int64_t)d : 0x8000000000000000ull) : d >= 18446744073709551616.0 ? 0 : (uint64_t)d);
        return APInt(64, u).zextOrTrunc(w);
    }
    case Op::SIToFP: return w == 32 ? fb((float)a[0].getSExtValue()) : db((double)a[0].getSExtValue());
    case Op::UIToFP: return w == 32 ? fb((float)a[0].getZExtValue()) : db((double)a[0].getZExtValue());
    case Op::FPExt: return db((double)bf(a[0]));
    case Op::FPTrunc: return fb((float)bd(a[0]));
    case Op::FRound: {
        auto r = [&](double d) { switch (aux) { case 0: return std::floor(d); case 1: return std::ceil(d); case 2: return std::trunc(d); case 3: return std::nearbyint(d); default: return std::round(d); } };
        return w == 32 ? fb((float)r(bf(a[0]))) : db(r(bd(a[0])));
    }
    case Op::FPI: {
        int64_t n = a[0].getSExtValue();
        double d = n ? (double)n : (a[1].isZero() ? 0.0 : -0.0);
        return w == 32 ? fb((float)d) : db(d);
    }
    default: break;
    }
    assert(0 && "foldOp");
    abort();
}

static E build(Op op, unsigned w, uint32_t aux, llvm::ArrayRef<E> ch) {
    bool allc = true;
    for (E c : ch) if (!c->isConst()) { allc = false; break; }
    if (allc && op != Op::UF) {
        llvm::SmallVector<APInt, 3> v;
        for (E c : ch) v.push_back(c->c);
        return mkConst(foldOp(op, w, aux, v));
    }
    return intern(op, w, aux, ch);
}

APInt evalE(E e, const Model& m) {
    if (e->op == Op::Const) return e->c;
    if (e->op == Op::Var) {
        auto it = m.vars.find(e->aux);
        if (it != m.vars.end()) return it->second;
        const VarInfo& vi = gVars[e->aux];
        if (vi.ranged && (vi.lo > 0 || vi.hi < 0)) return APInt(e->w, (uint64_t)vi.lo, true);
        return APInt(e->w, 0);
    }
    auto mi = m.memo.find(e->id);
    if (mi != m.memo.end()) return mi->second;
    // iterative to avoid deep recursion
    std::vector<E> st{e};
    while (!st.empty()) {
        E n = st.back();
        if (n->op == Op::Const || n->op == Op::Var || m.memo.count(n->id)) { st.pop_back(); continue; }
        if (n->op == Op::Ite) {
            E c = n->ch[0];
            if (!c->isConst() && c->op != Op::Var && !m.memo.count(c->id)) { st.push_back(c); continue; }
            bool cv = !evalE(c, m).isZero();
            E b = cv ? n->ch[1] : n->ch[2];
            if (!b->isConst() && b->op != Op::Var && !m.memo.count(b->id)) { st.push_back(b); continue; }
            m.memo[n->id] = evalE(b, m);
            st.pop_back();
            continue;
        }
        bool ready = true;
        for (E c : n->ch)
            if (!c->isConst() && c->op != Op::Var && !m.memo.count(c->id)) { st.push_back(c); ready = false; }
        if (!ready) continue;
        llvm::SmallVector<APInt, 3> v;
        for (E c : n->ch) v.push_back(evalE(c, m));
        APInt r(n->w, 0);
        if (n->op == Op::UF) {
            auto u = m.ufs.find(n->id);
            if (u != m.ufs.end()) r = u->second;
            else if (!nativeLibm(gUFs[n->aux], n->w, v, r)) r = APInt(n->w, 0);
        } else
            r = foldOp(n->op, n->w, n->aux, v);
        m.memo[n->id] = r;
        st.pop_back();
    }
    return m.memo[e->id];
}

// ---------------------------------------------------------------- builders
static bool isC(E e, uint64_t v) { return e->isConst() && e->c == v; }
static bool isAllOnes(E e) { return e->isConst() && e->c.isAllOnes(); }
static bool isCommut(Op o) { return o == Op::Add || o == Op::Mul || o == Op::And || o == Op::Or || o == Op::Xor || o == Op::Eq; }

E mkNot(E a) {
    if (a->op == Op::Xor && isAllOnes(a->ch[1])) return a->ch[0];
    if (a->isConst()) return mkConst(~a->c);
    if (a->w == 1) {
        if (a->op == Op::Ult) return mkBin(Op::Ule, a->ch[1], a->ch[0]);
        if (a->op == Op::Ule) return mkBin(Op::Ult, a->ch[1], a->ch[0]);
        if (a->op == Op::Slt) return mkBin(Op::Sle, a->ch[1], a->ch[0]);
        if (a->op == Op::Sle) return mkBin(Op::Slt, a->ch[1], a->ch[0]);
        if (a->op == Op::FCmp) return build(Op::FCmp, 1, a->aux ^ 15, {a->ch[0], a->ch[1]});
    }
    return mkBin(Op::Xor, a, mkConst(APInt::getAllOnes(a->w)));
}
E mkAnd(E a, E b) { return mkBin(Op::And, a, b); }
E mkOr(E a, E b) { return mkBin(Op::Or, a, b); }

// leading zero bits guaranteed
static unsigned effBits(E a) {       // value < 2^effBits as unsigned
    if (a->isConst()) return a->c.getActiveBits();
    if (a->op == Op::ZExt) return effBits(a->ch[0]);
    if (a->op == Op::Concat && isC(a->ch[0], 0)) return effBits(a->ch[1]);
    if (a->w <= 64) {
        int64_t lo, hi;
        srange(a, lo, hi);
        if (lo >= 0) { APInt t(64, (uint64_t)hi); return std::min<unsigned>(a->w, t.getActiveBits()); }
    }
    return a->w;
}

E mkEq(E a, E b) {
    if (a == b) return mkBool(true);
    if (a->isConst() && b->isConst()) return mkBool(a->c == b->c);
    if (a->isConst()) std::swap(a, b);
    if (a->w == 1) {
        if (b->isConst()) return b->c.isZero() ? mkNot(a) : a;
    }
    if (a->op == Op::FPI && b->op == Op::FPI) {
        E nz = mkOr(mkNe(a->ch[0], mkConst(64, 0)), mkEq(a->ch[1], b->ch[1]));
        return mkAnd(mkEq(a->ch[0], b->ch[0]), nz);
    }
    if (b->isConst()) {
        switch (a->op) {
        case Op::ZExt:
            if (b->c.getActiveBits() > a->ch[0]->w) return mkBool(false);
            return mkEq(a->ch[0], mkConst(b->c.trunc(a->ch[0]->w)));
        case Op::SExt: {
            APInt t = b->c.trunc(a->ch[0]->w);
            if (t.sext(a->w) != b->c) return mkBool(false);
            return mkEq(a->ch[0], mkConst(t));
        }
        case Op::Concat: {
            E lo = a->ch[1], hi = a->ch[0];
            return mkAnd(mkEq(hi, mkConst(b->c.extractBits(hi->w, lo->w))), mkEq(lo, mkConst(b->c.trunc(lo->w))));
        }
        case Op::Add:
            if (a->ch[1]->isConst()) return mkEq(a->ch[0], mkConst(b->c - a->ch[1]->c));
            break;
        case Op::Sub:
            if (a->ch[0]->isConst()) return mkEq(a->ch[1], mkConst(a->ch[0]->c - b->c));
            break;
        case Op::Xor:
            if (a->ch[1]->isConst()) return mkEq(a->ch[0], mkConst(b->c ^ a->ch[1]->c));
            break;
        case Op::Ite: {
            E t = a->ch[1], f = a->ch[2];
            if (t->isConst() || f->isConst()) {
                E te = mkEq(t, b), fe = mkEq(f, b);
                return mkIte(a->ch[0], te, fe);
            }
            break;
        }
        case Op::FPI: {
            double d = bitsToDouble(b->c.getZExtValue(), a->w);
            if (d == std::floor(d) && std::fabs(d) <= 9007199254740992.0) {
                int64_t n = (int64_t)d;
                E e = mkEq(a->ch[0], mkConst(64, (uint64_t)n));
                if (n == 0) { E nz = a->ch[1]; e = mkAnd(e, std::signbit(d) ? nz : mkNot(nz)); }
                return e;
            }
            return mkBool(false);
        }
        default: break;
        }
        if (a->w <= 64) {
            int64_t lo, hi; srange(a, lo, hi);
            int64_t v = b->c.getSExtValue();
            if (v < lo || v > hi) return mkBool(false);
        }
    } else {
        if ((a->op == Op::ZExt && b->op == Op::ZExt) || (a->op == Op::SExt && b->op == Op::SExt))
            if (a->ch[0]->w == b->ch[0]->w) return mkEq(a->ch[0], b->ch[0]);
        if (a->op == Op::Concat && b->op == Op::Concat && a->ch[0]->w == b->ch[0]->w)
            return mkAnd(mkEq(a->ch[0], b->ch[0]), mkEq(a->ch[1], b->ch[1]));
        if (a->w <= 64) {
            int64_t l1, h1, l2, h2; srange(a, l1, h1); srange(b, l2, h2);
            if (h1 < l2 || h2 < l1) return mkBool(false);
        }
        if (a->id > b->id) std::swap(a, b);
    }
    return build(Op::Eq, 1, 0, {a, b});
}

static E mkCmp(Op op, E a, E b) {
    if (a == b) return mkBool(op == Op::Ule || op == Op::Sle);
    if (a->isConst() && b->isConst()) return mkBool(!foldOp(op, 1, 0, {a->c, b->c}).isZero());
    if (a->w <= 64) {
        int64_t l1, h1, l2, h2; srange(a, l1, h1); srange(b, l2, h2);
        bool sgn = op == Op::Slt || op == Op::Sle;
        if (sgn || (l1 >= 0 && l2 >= 0)) {
            if (op == Op::Slt || op == Op::Ult) { if (h1 < l2) return mkBool(true); if (l1 >= h2) return mkBool(false); }
            else { if (h1 <= l2) return mkBool(true); if (l1 > h2) return mkBool(false); }
        }
    }
    bool un = op == Op::Ult || op == Op::Ule;
    if (un) {
        // narrow zero-extended operands
        unsigned k = std::max(effBits(a), effBits(b));
        if (k < 1) k = 1;
        if (k < a->w && (a->op == Op::ZExt || b->op == Op::ZExt)) {
            unsigned kk = std::max(a->op == Op::ZExt ? a->ch[0]->w : 1u, b->op == Op::ZExt ? b->ch[0]->w : 1u);
            kk = std::max(kk, k);
            if (kk < a->w) return mkCmp(op, mkExtract(a, 0, kk), mkExtract(b, 0, kk));
        }
    } else {
        if (a->op == Op::SExt && b->op == Op::SExt && a->ch[0]->w == b->ch[0]->w) return mkCmp(op, a->ch[0], b->ch[0]);
        if (a->op == Op::SExt && b->isConst() && b->c.isSignedIntN(a->ch[0]->w)) return mkCmp(op, a->ch[0], mkConst(b->c.trunc(a->ch[0]->w)));
        if (b->op == Op::SExt && a->isConst() && a->c.isSignedIntN(b->ch[0]->w)) return mkCmp(op, mkConst(a->c.trunc(b->ch[0]->w)), b->ch[0]);
        bool za = a->op == Op::ZExt || (a->isConst() && !a->c.isNegative());
        bool zb = b->op == Op::ZExt || (b->isConst() && !b->c.isNegative());
        if (za && zb) return mkCmp(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
    }
    if (un && op == Op::Ult && isC(b, 1)) return mkEq(a, mkConst(a->w, 0));
    if (un && op == Op::Ule && isC(b, 0)) return mkEq(a, b);
    if (un && op == Op::Ult && isC(a, 0)) return mkNe(b, a);
    return build(op, 1, 0, {a, b});
}

E mkIte(E c, E t, E f) {
    if (c->isConst()) return c->c.isZero() ? f : t;
    if (t == f) return t;
    if (t->w == 1) {
        if (t->isConst() && f->isConst()) return t->c.isZero() ? mkNot(c) : c;
        if (t->isConst()) return t->c.isZero() ? mkAnd(mkNot(c), f) : mkOr(c, f);
        if (f->isConst()) return f->c.isZero() ? mkAnd(c, t) : mkOr(mkNot(c), t);
    }
    if (c->op == Op::Xor && c->w == 1 && isC(c->ch[1], 1)) return mkIte(c->ch[0], f, t);
    if (t->op == Op::FPI && f->op == Op::FPI)
        return build(Op::FPI, t->w, 0, {mkIte(c, t->ch[0], f->ch[0]), mkIte(c, t->ch[1], f->ch[1])});
    if (t->op == Op::ZExt && f->op == Op::ZExt && t->ch[0]->w == f->ch[0]->w) return mkZExt(mkIte(c, t->ch[0], f->ch[0]), t->w);
    if (t->op == Op::SExt && f->op == Op::SExt && t->ch[0]->w == f->ch[0]->w) return mkSExt(mkIte(c, t->ch[0], f->ch[0]), t->w);
    if (t->op == Op::Ite && t->ch[0] == c) return mkIte(c, t->ch[1], f);
    if (f->op == Op::Ite && f->ch[0] == c) return mkIte(c, t, f->ch[2]);
    return build(Op::Ite, t->w, 0, {c, t, f});
}

E mkConcat(E hi, E lo) {
    if (hi->isConst() && lo->isConst()) return mkConst(hi->c.concat(lo->c));
    if (hi->op == Op::Extract && lo->op == Op::Extract && hi->ch[0] == lo->ch[0] && hi->aux == lo->aux + lo->w)
        return mkExtract(hi->ch[0], lo->aux, hi->w + lo->w);
    if (hi->isConst() && hi->c.isZero()) return mkZExt(lo, hi->w + lo->w);
    // (x ++ ext) ++ ext
    if (hi->op == Op::Concat) return mkConcat(hi->ch[0], mkConcat(hi->ch[1], lo));
    if (lo->op == Op::Concat && hi->op == Op::Extract && lo->ch[0]->op == Op::Extract &&
        hi->ch[0] == lo->ch[0]->ch[0] && hi->aux == lo->ch[0]->aux + lo->ch[0]->w)
        return mkConcat(mkExtract(hi->ch[0], lo->ch[0]->aux, hi->w + lo->ch[0]->w), lo->ch[1]);
    // extract(x, k, w-k) ++ x' where x' is whole x low -> handled through Extract(0,..)
    if (hi->op == Op::Extract && hi->ch[0] == lo && false) return nullptr;
    return build(Op::Concat, hi->w + lo->w, 0, {hi, lo});
}

E mkExtract(E a, unsigned off, unsigned w) {
    assert(off + w <= a->w);
    if (off == 0 && w == a->w) return a;
    switch (a->op) {
    case Op::Const: return mkConst(a->c.extractBits(w, off));
    case Op::Extract: return mkExtract(a->ch[0], a->aux + off, w);
    case Op::Concat: {
        E hi = a->ch[0], lo = a->ch[1];
        if (off + w <= lo->w) return mkExtract(lo, off, w);
        if (off >= lo->w) return mkExtract(hi, off - lo->w, w);
        return mkConcat(mkExtract(hi, 0, off + w - lo->w), mkExtract(lo, off, lo->w - off));
    }
    case Op::ZExt: {
        E x = a->ch[0];
        if (off + w <= x->w) return mkExtract(x, off, w);
        if (off >= x->w) return mkConst(w, 0);
        return mkZExt(mkExtract(x, off, x->w - off), w);
    }
    case Op::SExt: {
        E x = a->ch[0];
        if (off + w <= x->w) return mkExtract(x, off, w);
        if (off == 0) return mkSExt(x, w);
        break;
    }
    case Op::Ite: {
        static std::unordered_map<uint64_t, E> memo;
        uint64_t key = (uint64_t(a->id) << 20) ^ (uint64_t(off) << 10) ^ w;
        if (w < 1024 && off < 1024) {
            auto it = memo.find(key);
            if (it != memo.end()) return it->second;
            E r = mkIte(a->ch[0], mkExtract(a->ch[1], off, w), mkExtract(a->ch[2], off, w));
            memo[key] = r;
            return r;
        }
        return mkIte(a->ch[0], mkExtract(a->ch[1], off, w), mkExtract(a->ch[2], off, w));
    }
    case Op::And: case Op::Or: case Op::Xor:
        if (a->ch[1]->isConst() || a->ch[0]->op == Op::ZExt || a->ch[1]->op == Op::ZExt)
            return mkBin(a->op, mkExtract(a->ch[0], off, w), mkExtract(a->ch[1], off, w));
        break;
    case Op::Add: case Op::Sub: case Op::Mul:
        if (off == 0) return mkBin(a->op, mkExtract(a->ch[0], 0, w), mkExtract(a->ch[1], 0, w));
        break;
    case Op::Shl:
        if (a->ch[1]->isConst() && a->ch[1]->c.ult(a->w)) {
            unsigned s = a->ch[1]->c.getZExtValue();
            if (off >= s) return mkExtract(a->ch[0], off - s, w);
            if (off + w <= s) return mkConst(w, 0);
        }
        break;
    case Op::LShr:
        if (a->ch[1]->isConst() && a->ch[1]->c.ult(a->w)) {
            unsigned s = a->ch[1]->c.getZExtValue();
            if (off + s + w <= a->w) return mkExtract(a->ch[0], off + s, w);
        }
        break;
    default: break;
    }
    return build(Op::Extract, w, off, {a});
}

E mkZExt(E a, unsigned w) {
    if (w == a->w) return a;
    if (a->isConst()) return mkConst(a->c.zext(w));
    if (a->op == Op::ZExt) return mkZExt(a->ch[0], w);
    if (a->op == Op::Ite && a->ch[1]->isConst() && a->ch[2]->isConst())
        return mkIte(a->ch[0], mkZExt(a->ch[1], w), mkZExt(a->ch[2], w));
    // x + c that does not wrap: extend x
    if (a->op == Op::Add && a->ch[1]->isConst() && a->w < 63 && w <= 64) {
        int64_t lo, hi; srange(a->ch[0], lo, hi);
        int64_t c = a->ch[1]->c.getSExtValue();
        if (lo >= 0 && lo + c >= 0 && hi + c < (int64_t(1) << a->w)) return mkBin(Op::Add, mkZExt(a->ch[0], w), mkConst(w, (uint64_t)c));
    }
    return build(Op::ZExt, w, 0, {a});
}
E mkSExt(E a, unsigned w) {
    if (w == a->w) return a;
    if (a->isConst()) return mkConst(a->c.sext(w));
    if (a->op == Op::SExt) return mkSExt(a->ch[0], w);
    if (a->op == Op::ZExt) return mkZExt(a->ch[0], w);
    if (a->w <= 64) { int64_t lo, hi; srange(a, lo, hi); if (lo >= 0) return mkZExt(a, w); }
    if (a->op == Op::Ite && a->ch[1]->isConst() && a->ch[2]->isConst())
        return mkIte(a->ch[0], mkSExt(a->ch[1], w), mkSExt(a->ch[2], w));
    return build(Op::SExt, w, 0, {a});
}

E mkBin(Op op, E a, E b) {
    assert(a->w == b->w);
    unsigned w = a->w;
    switch (op) {
    case Op::Eq: return mkEq(a, b);
    case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle: return mkCmp(op, a, b);
    default: break;
    }
    if (a->isConst() && b->isConst()) return mkConst(foldOp(op, w, 0, {a->c, b->c}));
    if (isCommut(op) && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b);
    // both ites over the same condition with constants are left alone
    switch (op) {
    case Op::Add:
        if (isC(b, 0)) return a;
        if (b->isConst() && a->op == Op::Add && a->ch[1]->isConst()) return mkBin(Op::Add, a->ch[0], mkConst(a->ch[1]->c + b->c));
        if (b->isConst() && a->op == Op::Sub && a->ch[0]->isConst()) return mkBin(Op::Sub, mkConst(a->ch[0]->c + b->c), a->ch[1]);
        if (a->op == Op::Sub && a->ch[1] == b) return a->ch[0];
        if (b->op == Op::Sub && b->ch[1] == a) return b->ch[0];
        if (b->isConst() && a->op == Op::Ite && a->ch[1]->isConst() && a->ch[2]->isConst())
            return mkIte(a->ch[0], mkBin(op, a->ch[1], b), mkBin(op, a->ch[2], b));
        // (x / c) * c + x % c is x
        for (int sw = 0; sw < 2; sw++) {
            E p = sw ? b : a, q = sw ? a : b;
            while (q->op == Op::ZExt) q = q->ch[0];
            if (q->op == Op::URem && q->ch[1]->isConst() && p->op == Op::Mul && p->ch[1]->isConst() && q->w <= 64) {
                E d = p->ch[0];
                while (d->op == Op::ZExt) d = d->ch[0];
                E x = q->ch[0];
                while (x->op == Op::ZExt) x = x->ch[0];
                if (d->op == Op::UDiv && d->ch[1]->isConst() && w <= 64) {
                    E y = d->ch[0];
                    while (y->op == Op::ZExt) y = y->ch[0];
                    uint64_t c = q->ch[1]->u64();
                    if (x == y && d->ch[1]->u64() == c && p->ch[1]->u64() == c && w >= x->w) return mkZExt(x, w);
                }
            }
        }
        break;
    case Op::Sub:
        if (isC(b, 0)) return a;
        if (a == b) return mkConst(w, 0);
        if (b->isConst()) return mkBin(Op::Add, a, mkConst(-b->c));
        if (a->isConst() && b->op == Op::Sub && b->ch[0]->isConst()) return mkBin(Op::Add, b->ch[1], mkConst(a->c - b->ch[0]->c));
        if (a->op == Op::Add && a->ch[0] == b) return a->ch[1];
        if (a->op == Op::Add && a->ch[1] == b) return a->ch[0];
        if (a->op == Op::Add && a->ch[1]->isConst() && b->op == Op::Add && b->ch[1]->isConst() && a->ch[0] == b->ch[0])
            return mkConst(a->ch[1]->c - b->ch[1]->c);
        break;
    case Op::Mul:
        if (isC(b, 0)) return b;
        if (isC(b, 1)) return a;
        break;
    case Op::And:
        if (a == b) return a;
        if (isC(b, 0)) return b;
        if (isAllOnes(b)) return a;
        if (w == 1 && ((a->op == Op::Xor && isC(a->ch[1], 1) && a->ch[0] == b) || (b->op == Op::Xor && isC(b->ch[1], 1) && b->ch[0] == a))) return mkBool(false);
        if (b->isConst()) {
            if (a->op == Op::And && a->ch[1]->isConst()) return mkBin(Op::And, a->ch[0], mkConst(a->ch[1]->c & b->c));
            if (w > 1 && b->c.isMask()) { // low mask
                unsigned k = b->c.getActiveBits();
                if (k < w) return mkZExt(mkExtract(a, 0, k), w);
            }
            if (w > 1 && b->c.isPowerOf2()) {
                unsigned k = b->c.logBase2();
                E bit = mkExtract(a, k, 1);
                if (bit->isConst()) return bit->c.isZero() ? mkConst(w, 0) : b;
            }
            if (a->op == Op::ZExt) return mkZExt(mkBin(Op::And, a->ch[0], mkConst(b->c.trunc(a->ch[0]->w))), w);
        }
        break;
    case Op::Or:
        if (a == b) return a;
        if (isC(b, 0)) return a;
        if (isAllOnes(b)) return b;
        if (w == 1 && ((a->op == Op::Xor && isC(a->ch[1], 1) && a->ch[0] == b) || (b->op == Op::Xor && isC(b->ch[1], 1) && b->ch[0] == a))) return mkBool(true);
        // byte assembly: (zext lo) | (x << k) with lo.w <= k
        for (int sw = 0; sw < 2; sw++, std::swap(a, b))
            if (w <= 64 && b->op == Op::Concat && b->ch[1]->isConst() && b->ch[1]->c.isZero() && effBits(a) <= b->ch[1]->w)
                return mkConcat(b->ch[0], mkExtract(a, 0, b->ch[1]->w));
        break;
    case Op::Xor:
        if (a == b) return mkConst(w, 0);
        if (isC(b, 0)) return a;
        if (b->isConst() && a->op == Op::Xor && a->ch[1]->isConst()) return mkBin(Op::Xor, a->ch[0], mkConst(a->ch[1]->c ^ b->c));
        break;
    case Op::Shl:
        if (isC(a, 0)) return a;
        if (b->isConst()) {
            if (b->c.isZero()) return a;
            if (b->c.uge(w)) return mkConst(w, 0);
            unsigned s = b->c.getZExtValue();
            return mkConcat(mkExtract(a, 0, w - s), mkConst(s, 0));
        }
        break;
    case Op::LShr:
        if (isC(a, 0)) return a;
        if (b->isConst()) {
            if (b->c.isZero()) return a;
            if (b->c.uge(w)) return mkConst(w, 0);
            unsigned s = b->c.getZExtValue();
            return mkZExt(mkExtract(a, s, w - s), w);
        }
        break;
    case Op::AShr:
        if (isC(a, 0)) return a;
        if (b->isConst()) {
            if (b->c.isZero()) return a;
            unsigned s = b->c.uge(w) ? w - 1 : b->c.getZExtValue();
            return mkSExt(mkExtract(a, s, w - s), w);
        }
        break;
    case Op::UDiv: case Op::URem: {
        if (isC(b, 1)) return op == Op::UDiv ? a : mkConst(w, 0);
        if (b->isConst() && b->c.isPowerOf2()) {
            unsigned k = b->c.logBase2();
            return op == Op::UDiv ? mkBin(Op::LShr, a, mkConst(w, k)) : mkBin(Op::And, a, mkConst(b->c - 1));
        }
        unsigned k = std::max(effBits(a), effBits(b));
        if (k == 0) k = 1;
        if (b->isConst() && effBits(a) < effBits(b)) return op == Op::UDiv ? mkConst(w, 0) : a;
        if (b->isConst() && w <= 64 && b->c.isStrictlyPositive()) {
            int64_t lo, hi; srange(a, lo, hi);
            if (lo >= 0 && hi < b->c.getSExtValue()) return op == Op::UDiv ? mkConst(w, 0) : a;
        }
        if (k < w) return mkZExt(build(op, k, 0, {mkExtract(a, 0, k), mkExtract(b, 0, k)}), w);
        break;
    }
    case Op::SDiv: case Op::SRem:
        if (w <= 64) {
            int64_t l1, h1, l2, h2; srange(a, l1, h1); srange(b, l2, h2);
            if (l1 >= 0 && l2 >= 0) return mkBin(op == Op::SDiv ? Op::UDiv : Op::URem, a, b);
            // narrow
            auto bits = [](int64_t lo, int64_t hi) { unsigned k = 1; while (k < 64 && (lo < -(int64_t(1) << (k - 1)) || hi > ((int64_t(1) << (k - 1)) - 1))) k++; return k; };
            unsigned k = std::max(bits(l1, h1), bits(l2, h2)) + 1;
            if (k < w) return mkSExt(build(op, k, 0, {mkExtract(a, 0, k), mkExtract(b, 0, k)}), w);
        }
        break;
    default: break;
    }
    return build(op, w, 0, {a, b});
}

// ---------------------------------------------------------------- floating point
static const int64_t FLIM = 1 << 24, DLIM = int64_t(1) << 53;
static bool asFPI(E e, E& n, E& nz) {
    if (e->op == Op::FPI) { n = e->ch[0]; nz = e->ch[1]; return true; }
    if (e->isConst() && (e->w == 32 || e->w == 64)) {
        double d = bitsToDouble(e->u64(), e->w);
        if (std::isfinite(d) && d == std::floor(d) && std::fabs(d) <= 16777216.0) {
            n = mkConst(64, (uint64_t)(int64_t)d);
            nz = mkBool(d == 0 && std::signbit(d));
            return true;
        }
    }
    return false;
}
static bool inLim(E n, unsigned w) {
    int64_t lo, hi; srange(n, lo, hi);
    int64_t L = w == 32 ? FLIM : DLIM;
    return lo >= -L && hi <= L;
}
static E sgnOf(E n, E nz) {
    E z = mkConst(64, 0);
    return mkOr(mkBin(Op::Slt, n, z), mkAnd(mkEq(n, z), nz));
}
static E mkFPI(unsigned w, E n, E nz) {
    if (n->isConst() && n->c != 0) nz = mkBool(false);
    return build(Op::FPI, w, 0, {n, nz});
}
// q with q * d == n modulo 2^64 by construction, or null
static E quotient(E n, int64_t d, int& budget) {
    if (--budget < 0) return nullptr;
    if (n->isConst()) { int64_t v = (int64_t)n->u64(); return d != -1 && v % d == 0 ? mkConst(64, (uint64_t)(v / d)) : nullptr; }
    if (n->op == Op::Add || n->op == Op::Sub) {
        E x = quotient(n->ch[0], d, budget), y = x ? quotient(n->ch[1], d, budget) : nullptr;
        return y ? mkBin(n->op, x, y) : nullptr;
    }
    if (n->op == Op::Mul)
        for (int i = 0; i < 2; i++)
            if (n->ch[i]->isConst()) {
                if (E c = quotient(n->ch[i], d, budget)) return mkBin(Op::Mul, n->ch[1 - i], c);
                E x = quotient(n->ch[1 - i], d, budget);
                return x ? mkBin(Op::Mul, x, n->ch[i]) : nullptr;
            }
    if (n->op == Op::Shl && n->ch[1]->isConst() && n->ch[1]->u64() < 62) {
        int64_t m = int64_t(1) << n->ch[1]->u64();
        if (m % d == 0) return mkBin(Op::Mul, n->ch[0], mkConst(64, (uint64_t)(m / d)));
        E x = quotient(n->ch[0], d, budget);
        return x ? mkBin(Op::Shl, x, n->ch[1]) : nullptr;
    }
    return nullptr;
}
E mkFBin(Op op, E a, E b) {
    unsigned w = a->w;
    if (a->isConst() && b->isConst()) return mkConst(foldOp(op, w, 0, {a->c, b->c}));
    E an, az, bn, bz;
    if (asFPI(a, an, az) && asFPI(b, bn, bz)) {
        E z = mkConst(64, 0);
        if (op == Op::FSub) { // a - b == a + (-b)
            E bs = mkAnd(mkEq(bn, z), mkNot(bz));
            E n = mkBin(Op::Sub, an, bn);
            if (inLim(n, w)) return mkFPI(w, n, mkAnd(mkAnd(mkEq(an, z), az), bs));
        } else if (op == Op::FAdd) {
            E n = mkBin(Op::Add, an, bn);
            if (inLim(n, w)) return mkFPI(w, n, mkAnd(mkAnd(mkEq(an, z), az), mkAnd(mkEq(bn, z), bz)));
        } else if (op == Op::FMul) {
            E n = mkBin(Op::Mul, an, bn);
            if (inLim(n, w)) return mkFPI(w, n, mkBin(Op::Xor, sgnOf(an, az), sgnOf(bn, bz)));
        } else if (op == Op::FDiv && bn->isConst() && (bn->c == 1 || bn->c.isAllOnes())) {
            return mkFBin(Op::FMul, a, b);
        } else if (op == Op::FDiv && bn->isConst() && bn->c != 0) {
            // an exact division: an is q * d modulo 2^64, and q * d does not wrap
            int64_t d = (int64_t)bn->u64(); int budget = 60;
            if (E q = quotient(an, d, budget)) {
                int64_t lo, hi; srange(q, lo, hi);
                int64_t lim = (int64_t(1) << 61) / (d < 0 ? -d : d);
                if (lo >= -lim && hi <= lim && inLim(q, w)) return mkFPI(w, q, mkBin(Op::Xor, sgnOf(an, az), mkBool(d < 0)));
            }
        }
    }
    // commutative normalisation: IEEE add/mul of non-NaN payloads commute
    if ((op == Op::FAdd || op == Op::FMul) && a->id > b->id) std::swap(a, b);
    // x * 1 == x (bitwise, except signalling NaN payloads)
    if (op == Op::FMul || op == Op::FDiv) {
        if (b->isConst() && bitsToDouble(b->u64(), w) == 1.0) return a;
        if (op == Op::FMul && a->isConst() && bitsToDouble(a->u64(), w) == 1.0) return b;
    }
    return build(op, w, 0, {a, b});
}
E mkFNeg(E a) {
    E n, z;
    if (a->isConst()) { APInt v = a->c; v.flipBit(a->w - 1); return mkConst(v); }
    if (asFPI(a, n, z)) return mkFPI(a->w, mkBin(Op::Sub, mkConst(64, 0), n), mkNot(z));
    return mkBin(Op::Xor, a, mkConst(APInt::getSignMask(a->w)));
}
E mkFAbs(E a) {
    E n, z;
    if (a->isConst()) { APInt v = a->c; v.clearBit(a->w - 1); return mkConst(v); }
    if (asFPI(a, n, z)) return mkFPI(a->w, mkIte(mkBin(Op::Slt, n, mkConst(64, 0)), mkBin(Op::Sub, mkConst(64, 0), n), n), mkBool(false));
    return mkConcat(mkConst(1, 0), mkExtract(a, 0, a->w - 1));
}
E mkFRound(unsigned mode, E a) {
    if (a->op == Op::FPI) return a;
    return build(Op::FRound, a->w, mode, {a});
}
E mkFSqrt(E a) { return build(Op::FSqrt, a->w, 0, {a}); }
// sum of coefficient * term + constant, modulo 2^64
static void linear(E e, uint64_t c, std::map<uint32_t, std::pair<E, uint64_t>>& m, uint64_t& k0, int& budget) {
    if (--budget < 0) return;
    if (e->isConst()) { k0 += c * e->u64(); return; }
    if (e->op == Op::Add) { linear(e->ch[0], c, m, k0, budget); linear(e->ch[1], c, m, k0, budget); return; }
    if (e->op == Op::Sub) { linear(e->ch[0], c, m, k0, budget); linear(e->ch[1], (uint64_t)-c, m, k0, budget); return; }
    if (e->op == Op::Mul && e->ch[1]->isConst()) { linear(e->ch[0], c * e->ch[1]->u64(), m, k0, budget); return; }
    if (e->op == Op::Mul && e->ch[0]->isConst()) { linear(e->ch[1], c * e->ch[0]->u64(), m, k0, budget); return; }
    if (e->op == Op::Shl && e->ch[1]->isConst() && e->ch[1]->u64() < 64) { linear(e->ch[0], c << e->ch[1]->u64(), m, k0, budget); return; }
    auto& p = m[e->id]; p.first = e; p.second += c;
}
// e == n / 2^k exactly: a whole number divided by a power of two
static bool asScaled(E e, E& n, unsigned& k) {
    E z; k = 0;
    if (asFPI(e, n, z)) return true;
    if (e->op != Op::FDiv && e->op != Op::FMul) return false;
    for (int i = 0; i < 2; i++) {
        E x = e->ch[i], c = e->ch[1 - i];
        if (e->op == Op::FDiv && i) return false;
        if (!c->isConst() || !asFPI(x, n, z)) continue;
        double d = bitsToDouble(c->u64(), e->w);
        if (e->op == Op::FMul) d = 1 / d;
        for (k = 1; k <= 8; k++) if (d == (double)(1 << k)) return true;
    }
    return false;
}
static bool fpNeverNaN(E e) {
    if (e->isConst()) return !std::isnan(bitsToDouble(e->u64(), e->w));
    if (e->op == Op::FPI || e->op == Op::SIToFP || e->op == Op::UIToFP) return true;
    if (e->op == Op::Ite) return fpNeverNaN(e->ch[1]) && fpNeverNaN(e->ch[2]);
    if (e->op == Op::FPExt || e->op == Op::FRound || e->op == Op::FPTrunc) return fpNeverNaN(e->ch[0]);
    return false;
}
E mkFCmp(unsigned p, E a, E b) {
    if (p == 0) return mkBool(false);
    if (p == 15) return mkBool(true);
    if (a->isConst() && b->isConst()) return mkConst(foldOp(Op::FCmp, 1, p, {a->c, b->c}));
    E an, az, bn, bz; unsigned ak, bk;
    if (asScaled(a, an, ak) && asScaled(b, bn, bk)) {
        if (ak < bk) an = mkBin(Op::Mul, an, mkConst(64, uint64_t(1) << (bk - ak)));
        if (bk < ak) bn = mkBin(Op::Mul, bn, mkConst(64, uint64_t(1) << (ak - bk)));
        std::map<uint32_t, std::pair<E, uint64_t>> lin; uint64_t k0 = 0; int budget = 400;
        if (an != bn && (linear(an, 1, lin, k0, budget), linear(bn, (uint64_t)-1, lin, k0, budget), budget > 0)) {
            bool zero = true;
            for (auto& kv : lin) zero &= kv.second.second == 0;
            if (zero) { an = mkConst(64, k0); bn = mkConst(64, 0); } // the difference is a constant
        }
        E r = mkBool(false);
        if (p & 1) r = mkOr(r, mkEq(an, bn));
        if (p & 2) r = mkOr(r, mkBin(Op::Slt, bn, an));
        if (p & 4) r = mkOr(r, mkBin(Op::Slt, an, bn));
        if ((p & 7) == 3) r = mkBin(Op::Sle, bn, an);
        if ((p & 7) == 5) r = mkBin(Op::Sle, an, bn);
        if ((p & 7) == 7) r = mkBool(true);
        return r;
    }
    if (fpNeverNaN(a) && fpNeverNaN(b)) {
        if ((p & 7) == 7) return mkBool(true);
        if ((p & 7) == 0) return mkBool(false);
        p &= 7;
    }
    if (a == b) { // NaN or equal
        bool eq = p & 1, un = p & 8;
        if (eq && un) return mkBool(true);
        if (!eq && !un) return mkBool(false);
        if (eq) p = 7; else p = 8;
    }
    if (p == 7 || p == 8) { // ordered / unordered: canonical on bits
        auto nan = [](E x) {
            unsigned mb = x->w == 32 ? 23 : 52;
            E ex = mkExtract(x, mb, x->w == 32 ? 8 : 11), m = mkExtract(x, 0, mb);
            return mkAnd(mkEq(ex, mkConst(APInt::getAllOnes(ex->w))), mkNe(m, mkConst(mb, 0)));
        };
        if (a->op == Op::Var || a->op == Op::Concat || a->op == Op::Extract) {
            E u = mkBool(false);
            if (!fpNeverNaN(a)) u = mkOr(u, nan(a));
            if (a != b && !fpNeverNaN(b)) u = mkOr(u, nan(b));
            return p == 8 ? u : mkNot(u);
        }
    }
    return build(Op::FCmp, 1, p, {a, b});
}
E mkFCast(Op op, E a, unsigned w) {
    if (a->isConst()) return mkConst(foldOp(op, w, 0, {a->c}));
    E n, z;
    switch (op) {
    case Op::SIToFP: case Op::UIToFP: {
        if (a->w <= 64) {
            E x = a->w == 64 ? a : (op == Op::SIToFP ? mkSExt(a, 64) : mkZExt(a, 64));
            int64_t lo, hi; srange(x, lo, hi);
            if ((op == Op::SIToFP || lo >= 0) && inLim(x, w)) return mkFPI(w, x, mkBool(false));
        }
        break;
    }
    case Op::FPToSI: case Op::FPToUI:
        if (asFPI(a, n, z)) {
            int64_t lo, hi; srange(n, lo, hi);
            if (w == 64) return n;
            if (lo >= -(int64_t(1) << (w - 1)) && hi < (int64_t(1) << (w - 1))) return mkExtract(n, 0, w);
            if (op == Op::FPToSI && w < 32 && lo >= INT32_MIN && hi <= INT32_MAX) return mkExtract(n, 0, w); // x86: via 32 bit
        }
        break;
    case Op::FPExt: if (asFPI(a, n, z)) return mkFPI(w, n, z); break;
    case Op::FPTrunc:
        if (asFPI(a, n, z) && inLim(n, w)) return mkFPI(w, n, z);
        if (a->op == Op::FPExt && a->ch[0]->w == w) return a->ch[0];
        break;
    default: break;
    }
    return build(op, w, 0, {a});
}

std::string toStr(E e, int depth) {
    static const char* nm[] = {"c", "v", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
        "eq", "ult", "ule", "slt", "sle", "ite", "concat", "extract", "zext", "sext", "fadd", "fsub", "fmul", "fdiv", "frem", "fsqrt", "fcmp",
        "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "fround", "fpi", "uf"};
    if (e->op == Op::Const) { llvm::SmallString<32> s; e->c.toStringSigned(s); return std::string(s.str()); }
    if (e->op == Op::Var) return gVars[e->aux].name;
    if (depth == 0) return "...";
    std::string s = std::string("(") + (e->op == Op::UF ? gUFs[e->aux] : std::string(nm[(int)e->op])) + ":" + std::to_string(e->w);
    if (e->op == Op::Extract || e->op == Op::FCmp) s += "@" + std::to_string(e->aux);
    for (E c : e->ch) s += " " + toStr(c, depth - 1);
    return s + ")";
}
