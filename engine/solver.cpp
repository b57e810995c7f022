#include <array>
#include "solver.h"
#include <z3++.h>
#include <chrono>
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <unordered_map>
#include <unordered_set>

SolverStats gStats;
static const uint64_t gConfirmAll = getenv("LSYM_CONFIRM") ? strtoull(getenv("LSYM_CONFIRM"), 0, 10) : 2000, gConfirmRate = 16;
static uint64_t gSkip = 0;
static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct CacheEnt { Sat r; std::shared_ptr<Model> m; };

static bool usesFP(E e, std::unordered_map<uint32_t, bool>& memo) {
    if (e->op == Op::Const || e->op == Op::Var) return false;
    auto it = memo.find(e->id);
    if (it != memo.end()) return it->second;
    bool r = e->op >= Op::FAdd && e->op != Op::UF && e->op != Op::FCmp;
    for (E c : e->ch) if (!r) r = usesFP(c, memo);
    memo[e->id] = r;
    return r;
}
struct Solver::Impl {
    z3::context ctx;
    std::unique_ptr<z3::solver> inc;
    unsigned incCount = 0;
    unsigned rFast = 6000000, rSlow = 60000000;
    std::unordered_map<uint32_t, z3::expr> bv, bl, fp, lit;
    std::unordered_map<std::string, CacheEnt> cache;
    std::unordered_map<uint32_t, std::array<uint64_t, 4>> bits;
    bool hasFP = false;
    std::unordered_set<std::string> cong;
    std::unordered_map<uint32_t, bool> fpMemo;
    std::unordered_set<uint64_t> folded;

    Impl() { reset(); }
    void reset() {
        inc.reset(new z3::solver(ctx));
        lit.clear();
        cong.clear();
        incCount = 0;
    }
    z3::expr num(const APInt& c) {
        unsigned w = c.getBitWidth();
        if (w <= 64) return ctx.bv_val((uint64_t)c.getZExtValue(), w);
        llvm::SmallString<64> s; c.toStringUnsigned(s);
        return ctx.bv_val(s.c_str(), w);
    }
    z3::sort fsort(unsigned w) { return w == 32 ? ctx.fpa_sort(8, 24) : ctx.fpa_sort(11, 53); }
    z3::expr fromBool(z3::expr b) { return z3::ite(b, ctx.bv_val(1, 1), ctx.bv_val(0, 1)); }
    z3::expr wrap(Z3_ast a) { ctx.check_error(); return z3::expr(ctx, a); }

    // number of bits needed so that v in [lo,hi] fits as signed
    static unsigned sbits(int64_t lo, int64_t hi) {
        unsigned k = 1;
        while (k < 64 && (lo < -(int64_t(1) << (k - 1)) || hi > ((int64_t(1) << (k - 1)) - 1))) k++;
        return k;
    }
    static unsigned nbits(E e) {
        if (e->w > 64) return e->w;
        int64_t lo, hi; srange(e, lo, hi);
        return std::min<unsigned>(e->w, sbits(lo, hi));
    }
    // e truncated to k bits
    z3::expr low(E e, unsigned k) {
        if (k == e->w) return toBV(e);
        return toBV(mkExtract(e, 0, k));
    }

    z3::expr toFP(E e) {
        auto it = fp.find(e->id);
        if (it != fp.end()) return it->second;
        hasFP = true;
        z3::expr rne = wrap(Z3_mk_fpa_round_nearest_ties_to_even(ctx));
        z3::expr r(ctx);
        switch (e->op) {
        case Op::FAdd: r = wrap(Z3_mk_fpa_add(ctx, rne, toFP(e->ch[0]), toFP(e->ch[1]))); break;
        case Op::FSub: r = wrap(Z3_mk_fpa_sub(ctx, rne, toFP(e->ch[0]), toFP(e->ch[1]))); break;
        case Op::FMul: r = wrap(Z3_mk_fpa_mul(ctx, rne, toFP(e->ch[0]), toFP(e->ch[1]))); break;
        case Op::FDiv: r = wrap(Z3_mk_fpa_div(ctx, rne, toFP(e->ch[0]), toFP(e->ch[1]))); break;
        case Op::FSqrt: r = wrap(Z3_mk_fpa_sqrt(ctx, rne, toFP(e->ch[0]))); break;
        case Op::FRound: {
            z3::expr m = wrap( e->aux == 0 ? Z3_mk_fpa_round_toward_negative(ctx) : e->aux == 1 ? Z3_mk_fpa_round_toward_positive(ctx)
                : e->aux == 2 ? Z3_mk_fpa_round_toward_zero(ctx) : e->aux == 3 ? Z3_mk_fpa_round_nearest_ties_to_even(ctx)
                : Z3_mk_fpa_round_nearest_ties_to_away(ctx));
            r = wrap(Z3_mk_fpa_round_to_integral(ctx, m, toFP(e->ch[0])));
            break;
        }
        case Op::SIToFP: r = wrap(Z3_mk_fpa_to_fp_signed(ctx, rne, toBV(e->ch[0]), fsort(e->w))); break;
        case Op::UIToFP: r = wrap(Z3_mk_fpa_to_fp_unsigned(ctx, rne, toBV(e->ch[0]), fsort(e->w))); break;
        case Op::FPExt: case Op::FPTrunc: r = wrap(Z3_mk_fpa_to_fp_float(ctx, rne, toFP(e->ch[0]), fsort(e->w))); break;
        case Op::FPI: {
            unsigned k = nbits(e->ch[0]);
            z3::expr v = wrap(Z3_mk_fpa_to_fp_signed(ctx, rne, low(e->ch[0], k), fsort(e->w)));
            z3::expr mz = wrap(Z3_mk_fpa_zero(ctx, fsort(e->w), true));
            r = z3::ite(low(e->ch[0], k) == ctx.bv_val(0, k) && toBool(e->ch[1]), mz, v);
            break;
        }
        case Op::Ite: r = z3::ite(toBool(e->ch[0]), toFP(e->ch[1]), toFP(e->ch[2])); break;
        default: r = wrap(Z3_mk_fpa_to_fp_bv(ctx, toBV(e), fsort(e->w))); break;
        }
        fp.emplace(e->id, r);
        return r;
    }
    z3::expr toBool(E e) {
        auto it = bl.find(e->id);
        if (it != bl.end()) return it->second;
        z3::expr r(ctx);
        switch (e->op) {
        case Op::Const: r = ctx.bool_val(!e->c.isZero()); break;
        case Op::Var: r = ctx.bool_const((gVars[e->aux].name + "!" + std::to_string(e->aux)).c_str()); break;
        case Op::And: r = toBool(e->ch[0]) && toBool(e->ch[1]); break;
        case Op::Or: r = toBool(e->ch[0]) || toBool(e->ch[1]); break;
        case Op::Xor: case Op::Add: case Op::Sub:
            if (e->ch[1]->isConst()) r = e->ch[1]->c.isZero() ? toBool(e->ch[0]) : !toBool(e->ch[0]);
            else r = toBool(e->ch[0]) != toBool(e->ch[1]);
            break;
        case Op::Mul: r = toBool(e->ch[0]) && toBool(e->ch[1]); break;
        case Op::Eq:
            if (e->ch[0]->w == 1) r = toBool(e->ch[0]) == toBool(e->ch[1]);
            else {
                unsigned k = std::max(nbits(e->ch[0]), nbits(e->ch[1]));
                r = low(e->ch[0], k) == low(e->ch[1], k);
            }
            break;
        case Op::Slt: case Op::Sle: {
            unsigned k = std::max(nbits(e->ch[0]), nbits(e->ch[1]));
            z3::expr a = low(e->ch[0], k), b = low(e->ch[1], k);
            r = e->op == Op::Slt ? z3::slt(a, b) : z3::sle(a, b);
            break;
        }
        case Op::Ult: r = z3::ult(toBV(e->ch[0]), toBV(e->ch[1])); break;
        case Op::Ule: r = z3::ule(toBV(e->ch[0]), toBV(e->ch[1])); break;
        case Op::Ite: r = z3::ite(toBool(e->ch[0]), toBool(e->ch[1]), toBool(e->ch[2])); break;
        case Op::FCmp: {
            unsigned p = e->aux;
            if (!usesFP(e->ch[0], fpMemo) && !usesFP(e->ch[1], fpMemo)) {
                // comparison of bit patterns: sign and magnitude
                unsigned w = e->ch[0]->w;
                z3::expr a = toBV(e->ch[0]), b = toBV(e->ch[1]);
                APInt infv = w == 32 ? APInt(32, 0x7f800000u) : APInt(64, 0x7ff0000000000000ull);
                z3::expr ma = z3::zext(a.extract(w - 2, 0), 1), mb = z3::zext(b.extract(w - 2, 0), 1), inf_ = num(infv), zero = num(APInt(w, 0));
                z3::expr sa = a.extract(w - 1, w - 1) == ctx.bv_val(1, 1), sb = b.extract(w - 1, w - 1) == ctx.bv_val(1, 1);
                z3::expr uno = z3::ugt(ma, inf_) || z3::ugt(mb, inf_), z = (ma | mb) == zero;
                z3::expr lt = z3::ite(sa, z3::ite(sb, z3::ult(b, a), !z), !sb && z3::ult(a, b));
                z3::expr gt = z3::ite(sb, z3::ite(sa, z3::ult(a, b), !z), !sa && z3::ult(b, a));
                z3::expr o = ctx.bool_val(false);
                if (p & 1) o = o || a == b || z;
                if (p & 2) o = o || gt;
                if (p & 4) o = o || lt;
                r = p & 8 ? uno || o : !uno && o;
                break;
            }
            z3::expr a = toFP(e->ch[0]), b = toFP(e->ch[1]);
            z3::expr o = ctx.bool_val(false);
            if (p & 1) o = o || wrap(Z3_mk_fpa_eq(ctx, a, b));
            if (p & 2) o = o || wrap(Z3_mk_fpa_gt(ctx, a, b));
            if (p & 4) o = o || wrap(Z3_mk_fpa_lt(ctx, a, b));
            if (p & 8) o = o || wrap(Z3_mk_fpa_is_nan(ctx, a)) || wrap(Z3_mk_fpa_is_nan(ctx, b));
            r = o;
            break;
        }
        default: r = toBV(e) == ctx.bv_val(1, 1); break;
        }
        bl.emplace(e->id, r);
        return r;
    }
    z3::expr toBV(E e) {
        auto it = bv.find(e->id);
        if (it != bv.end()) return it->second;
        z3::expr r(ctx);
        unsigned w = e->w;
        if (w == 1 && e->op != Op::Extract && e->op != Op::UF) {
            r = fromBool(toBool(e));
            bv.emplace(e->id, r);
            return r;
        }
        switch (e->op) {
        case Op::Const: r = num(e->c); break;
        case Op::Var: r = ctx.bv_const((gVars[e->aux].name + "!" + std::to_string(e->aux)).c_str(), w); break;
        case Op::Add: case Op::Sub: case Op::Mul: {
            unsigned k = nbits(e);
            if (k < w) { r = z3::sext(e->op == Op::Add ? low(e->ch[0], k) + low(e->ch[1], k) : e->op == Op::Sub ? low(e->ch[0], k) - low(e->ch[1], k) : low(e->ch[0], k) * low(e->ch[1], k), w - k); break; }
            z3::expr a = toBV(e->ch[0]), b = toBV(e->ch[1]);
            r = e->op == Op::Add ? a + b : e->op == Op::Sub ? a - b : a * b;
            break;
        }
        case Op::UDiv: r = z3::udiv(toBV(e->ch[0]), toBV(e->ch[1])); break;
        case Op::SDiv: r = toBV(e->ch[0]) / toBV(e->ch[1]); break;
        case Op::URem: r = z3::urem(toBV(e->ch[0]), toBV(e->ch[1])); break;
        case Op::SRem: r = z3::srem(toBV(e->ch[0]), toBV(e->ch[1])); break;
        case Op::And: r = toBV(e->ch[0]) & toBV(e->ch[1]); break;
        case Op::Or: r = toBV(e->ch[0]) | toBV(e->ch[1]); break;
        case Op::Xor: r = toBV(e->ch[0]) ^ toBV(e->ch[1]); break;
        case Op::Shl: r = z3::shl(toBV(e->ch[0]), toBV(e->ch[1])); break;
        case Op::LShr: r = z3::lshr(toBV(e->ch[0]), toBV(e->ch[1])); break;
        case Op::AShr: r = z3::ashr(toBV(e->ch[0]), toBV(e->ch[1])); break;
        case Op::Ite: r = z3::ite(toBool(e->ch[0]), toBV(e->ch[1]), toBV(e->ch[2])); break;
        case Op::Concat: r = z3::concat(toBV(e->ch[0]), toBV(e->ch[1])); break;
        case Op::Extract: r = toBV(e->ch[0]).extract(e->aux + w - 1, e->aux); break;
        case Op::ZExt: r = z3::zext(toBV(e->ch[0]), w - e->ch[0]->w); break;
        case Op::SExt: r = z3::sext(toBV(e->ch[0]), w - e->ch[0]->w); break;
        case Op::FPToSI: case Op::FPToUI: {
            z3::expr a = toFP(e->ch[0]);
            z3::expr rtz = wrap(Z3_mk_fpa_round_toward_zero(ctx));
            unsigned fw = e->ch[0]->w;
            // x86: convert through 32 or 64 bit signed, out of range -> integer indefinite
            unsigned cw = (w <= 32 && e->op == Op::FPToSI) ? 32 : 64;
            double lim = std::ldexp(1.0, cw - 1);
            E hiE = mkConst(fw, doubleToBits(lim, fw));
            E loE = mkConst(fw, doubleToBits(fw == 64 && cw == 32 ? -lim - 1 : -lim, fw));
            bool strict = fw == 64 && cw == 32;
            z3::expr in = wrap(Z3_mk_fpa_lt(ctx, a, toFP(hiE))) &&
                (strict ? wrap(Z3_mk_fpa_gt(ctx, a, toFP(loE))) : wrap(Z3_mk_fpa_geq(ctx, a, toFP(loE))));
            z3::expr v = z3::ite(in, wrap(Z3_mk_fpa_to_sbv(ctx, rtz, a, cw)), num(APInt::getSignedMinValue(cw)));
            r = w == cw ? v : v.extract(w - 1, 0);
            break;
        }
        case Op::UF: // a variable; check() adds that equal arguments give equal results
            r = ctx.bv_const(("U!" + std::to_string(e->id)).c_str(), w);
            break;
        default: // float valued
            r = wrap(Z3_mk_fpa_to_ieee_bv(ctx, toFP(e)));
            break;
        }
        bv.emplace(e->id, r);
        return r;
    }
    z3::expr litFor(E c) {
        auto it = lit.find(c->id);
        if (it != lit.end()) return it->second;
        z3::expr l = ctx.bool_const(("L!" + std::to_string(c->id)).c_str());
        inc->add(z3::implies(l, toBool(c)));
        lit.emplace(c->id, l);
        incCount++;
        return l;
    }
};

static std::unordered_map<uint32_t, E> ufNode;
static void collectUF(E e, std::unordered_set<uint32_t>& seen, std::vector<E>& out) {
    std::vector<E> st{e};
    while (!st.empty()) {
        E n = st.back(); st.pop_back();
        if (n->op == Op::Const || n->op == Op::Var || !seen.insert(n->id).second) continue;
        if (n->op == Op::UF) { out.push_back(n); ufNode[n->id] = n; }
        for (E c : n->ch) st.push_back(c);
    }
}

// Conjunction of signed or equality comparisons of one variable (widened or not) with constants.
static bool boundsOnly(const std::vector<E>& slice, E c, Sat& res, E& var, int64_t& val) {
    var = nullptr;
    int64_t lo = 0, hi = 0; std::vector<int64_t> ne;
    auto base = [&](E e) -> E { while (e->op == Op::SExt) e = e->ch[0]; return e->op == Op::Var && e->w > 1 && e->w <= 64 ? e : nullptr; };
    auto one = [&](E e) -> bool {
        bool neg = false;
        if (e->op == Op::Xor && e->w == 1 && e->ch[1]->isConst() && !e->ch[1]->c.isZero()) { neg = true; e = e->ch[0]; }
        if (e->w != 1 || (e->op != Op::Eq && e->op != Op::Slt && e->op != Op::Sle)) return false;
        E a = e->ch[0], b = e->ch[1]; bool left = true;
        if (a->w > 64) return false;
        if (a->isConst()) { std::swap(a, b); left = false; }
        if (!b->isConst() || a->isConst()) return false;
        E x = base(a);
        if (!x || (var && x != var)) return false;
        if (!var) { var = x; if (!srange(x, lo, hi)) return false; }
        int64_t k = b->c.getSExtValue();
        if (e->op == Op::Eq) { if (neg) ne.push_back(k); else { lo = std::max(lo, k); hi = std::min(hi, k); } return true; }
        bool strict = e->op == Op::Slt;
        if (neg) { left = !left; strict = !strict; }       // !(x < k) is k <= x
        if (left) { if (strict) { if (k == INT64_MIN) { hi = INT64_MIN; lo = INT64_MAX; return true; } k--; } hi = std::min(hi, k); }
        else { if (strict) { if (k == INT64_MAX) { hi = INT64_MIN; lo = INT64_MAX; return true; } k++; } lo = std::max(lo, k); }
        return true;
    };
    for (E e : slice) if (!one(e)) return false;
    if (!one(c)) return false;
    std::sort(ne.begin(), ne.end());
    while (lo <= hi && std::binary_search(ne.begin(), ne.end(), lo)) { if (lo == INT64_MAX) { hi = INT64_MIN; break; } lo++; }
    res = lo <= hi ? Sat::Yes : Sat::No; val = lo;
    return true;
}

Solver::Solver() : p(new Impl) {}
Solver::~Solver() {}
void Solver::setLimits(unsigned f, unsigned s) { p->rFast = f; p->rSlow = s; }

Sat Solver::check(const std::vector<E>& pc, E c, const std::shared_ptr<const Model>& base, std::shared_ptr<const Model>& out) {
    if (c->isConst()) {
        out = base;
        return c->c.isZero() ? Sat::No : Sat::Yes;
    }
    gStats.queries++;
    bool known = base != nullptr; // does the model say what c's function applications are?
    const std::vector<uint32_t>& cv = varsOf(c);
    if (known && !cv.empty() && cv.back() >> 31) {
        std::unordered_set<uint32_t> seen; std::vector<E> us; collectUF(c, seen, us);
        for (E u : us) if (!base->ufs.count(u->id)) { known = false; break; }
    }
    if (known && !evalE(c, *base).isZero()) { gStats.modelHits++; out = base; return Sat::Yes; }
    // slice
    std::vector<uint32_t> vars = varsOf(c);
    std::vector<E> slice;
    std::vector<char> used(pc.size(), 0);
    bool changed = true;
    auto intersects = [](const std::vector<uint32_t>& a, const std::vector<uint32_t>& b) {
        size_t i = 0, j = 0;
        while (i < a.size() && j < b.size()) {
            if (a[i] == b[j]) return true;
            if (a[i] < b[j]) i++; else j++;
        }
        return false;
    };
    while (changed) {
        changed = false;
        for (size_t i = 0; i < pc.size(); i++) {
            if (used[i]) continue;
            const auto& v = varsOf(pc[i]);
            if (!intersects(v, vars)) continue;
            used[i] = 1; changed = true;
            slice.push_back(pc[i]);
            if (!std::includes(vars.begin(), vars.end(), v.begin(), v.end())) {
                std::vector<uint32_t> t;
                std::set_union(vars.begin(), vars.end(), v.begin(), v.end(), std::back_inserter(t));
                vars.swap(t);
            }
        }
    }
    for (E x : slice) if (x == mkNot(c)) { gStats.cacheHits++; return Sat::No; }
    // Two decision procedures for a single variable spare most calls of z3: interval bounds and bit maps of the values.
    // What they find unsatisfiable, that is what a path or an assertion is dismissed for, z3 is asked to confirm: always up
    // to gConfirmAll distinct queries of a process, one in gConfirmRate after that.
    Sat quick = Sat::Unknown;
    if (slice.size() <= 64) {
        Sat r; int64_t v; E x;
        if (boundsOnly(slice, c, r, x, v)) {
            gStats.bounds++;
            if (r == Sat::Yes) {
                auto m = std::make_shared<Model>();
                if (base) { m->vars = base->vars; m->ufs = base->ufs; }
                m->vars[x->aux] = APInt(x->w, (uint64_t)v, true);
                for (auto it = m->ufs.begin(); it != m->ufs.end();) {
                    if (intersects(varsOf(ufNode[it->first]), vars)) it = m->ufs.erase(it); else ++it;
                }
                out = m;
                return r;
            }
            quick = Sat::No;
        }
    }
    // one variable of at most 256 values: the set of its values satisfying each conjunct is kept as a bit map
    if (quick == Sat::Unknown && vars.size() == 1 && !(vars[0] >> 31)) {
        const VarInfo& vi = gVars[vars[0]];
        int64_t lo = 0, n = 0;
        if (vi.ranged && vi.hi - vi.lo >= 0 && vi.hi - vi.lo < 256) { lo = vi.lo; n = vi.hi - vi.lo + 1; }
        else if (vi.w <= 8 && !vi.ranged) { lo = 0; n = int64_t(1) << vi.w; }
        if (n) {
            auto map = [&](E e) -> const std::array<uint64_t, 4>& {
                auto it = p->bits.find(e->id);
                if (it != p->bits.end()) return it->second;
                std::array<uint64_t, 4> b{};
                Model m;
                for (int64_t i = 0; i < n; i++) {
                    m.vars[vars[0]] = APInt(vi.w, (uint64_t)(lo + i), true); m.memo.clear();
                    if (!evalE(e, m).isZero()) b[i / 64] |= uint64_t(1) << i % 64;
                }
                return p->bits.emplace(e->id, b).first->second;
            };
            std::array<uint64_t, 4> acc = map(c);
            for (E x : slice) { const auto& b = map(x); for (int k = 0; k < 4; k++) acc[k] &= b[k]; }
            gStats.bounds++;
            for (int64_t i = 0; i < n; i++) if (acc[i / 64] >> i % 64 & 1) {
                auto m = std::make_shared<Model>();
                if (base) { m->vars = base->vars; m->ufs = base->ufs; }
                m->vars[vars[0]] = APInt(vi.w, (uint64_t)(lo + i), true);
                for (auto it = m->ufs.begin(); it != m->ufs.end();) {
                    if (intersects(varsOf(ufNode[it->first]), vars)) it = m->ufs.erase(it); else ++it;
                }
                out = m;
                return Sat::Yes;
            }
            quick = Sat::No;
        }
    }
    // cache
    std::vector<uint32_t> ids;
    for (E x : slice) ids.push_back(x->id);
    std::sort(ids.begin(), ids.end());
    ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
    ids.push_back(c->id);
    std::string key((const char*)ids.data(), ids.size() * 4);
    auto ci = p->cache.find(key);
    Sat res; std::shared_ptr<Model> delta;
    if (quick == Sat::No && ci == p->cache.end() && gStats.confirmed >= gConfirmAll && ++gSkip % gConfirmRate) return Sat::No;
    if (ci != p->cache.end()) {
        gStats.cacheHits++;
        res = ci->second.r; delta = ci->second.m;
    } else {
        // domain constraints
        std::vector<E> all = slice;
        for (uint32_t v : vars) {
            if (v >> 31) continue;
            const VarInfo& vi = gVars[v];
            if (!vi.ranged || !vi.node) continue;
            int64_t fl = vi.w == 64 ? INT64_MIN : -(int64_t(1) << (vi.w - 1));
            int64_t fh = vi.w == 64 ? INT64_MAX : (int64_t(1) << (vi.w - 1)) - 1;
            // built directly: range analysis would fold these away
            (void)fl; (void)fh;
        }
        double t0 = now();
        gStats.z3calls++;
        auto domain = [&](auto&& add) {
            for (uint32_t v : vars) {
                if (v >> 31) continue;
                const VarInfo& vi = gVars[v];
                if (!vi.ranged || vi.w == 1) continue;
                z3::expr x = p->toBV(vi.node);
                int64_t fl = vi.w == 64 ? INT64_MIN : -(int64_t(1) << (vi.w - 1));
                int64_t fh = vi.w == 64 ? INT64_MAX : (int64_t(1) << (vi.w - 1)) - 1;
                if (vi.lo > fl) add(z3::sge(x, p->num(APInt(vi.w, (uint64_t)vi.lo, true))), v, 0);
                if (vi.hi < fh) add(z3::sle(x, p->num(APInt(vi.w, (uint64_t)vi.hi, true))), v, 1);
            }
        };
        bool fp = usesFP(c, p->fpMemo);
        for (E x : slice) fp = fp || usesFP(x, p->fpMemo);
        std::vector<E> ufs;
        { std::unordered_set<uint32_t> seen; for (E x : slice) collectUF(x, seen, ufs); collectUF(c, seen, ufs); }
        std::sort(ufs.begin(), ufs.end(), [](E a, E b) { return a->id < b->id; });
        auto congruence = [&](auto&& add) {
            for (size_t i = 0; i < ufs.size(); i++) for (size_t j = i + 1; j < ufs.size(); j++) {
                E a = ufs[i], b = ufs[j];
                if (a->aux != b->aux || a->w != b->w || a->ch.size() != b->ch.size()) continue;
                E same = mkBool(true);
                bool ok = true;
                for (size_t k = 0; k < a->ch.size(); k++) { if (a->ch[k]->w != b->ch[k]->w) ok = false; else same = mkAnd(same, mkEq(a->ch[k], b->ch[k])); }
                if (!ok || (same->isConst() && same->c.isZero())) continue;
                add(z3::implies(p->toBool(same), p->toBV(a) == p->toBV(b)), a->id, b->id);
            }
        };
        z3::check_result zr = z3::unknown;
        std::unique_ptr<z3::model> zm;
        auto tryIt = [&](auto&& f) {
            try { f(); } catch (z3::exception& ex) { zr = z3::unknown; }
        };
        if (!fp) tryIt([&] {
            { static unsigned lim = getenv("LSYM_INC") ? atoi(getenv("LSYM_INC")) : 300; if (p->incCount > lim) p->reset(); }
            z3::params pr(p->ctx);
            pr.set("rlimit", p->rFast);
            p->inc->set(pr);
            z3::expr_vector as(p->ctx);
            for (E x : slice) as.push_back(p->litFor(x));
            as.push_back(p->litFor(c));
            domain([&](const z3::expr& e, uint32_t v, int k) {
                z3::expr l = p->ctx.bool_const(("D!" + std::to_string(v) + "_" + std::to_string(k)).c_str());
                uint32_t id = 0xF0000000u + v * 2 + k;
                if (!p->lit.count(id)) { p->inc->add(z3::implies(l, e)); p->lit.emplace(id, l); }
                as.push_back(l);
            });
            congruence([&](const z3::expr& e, uint32_t a, uint32_t b) {
                std::string n = "A!" + std::to_string(a) + "_" + std::to_string(b);
                z3::expr l = p->ctx.bool_const(n.c_str());
                if (p->cong.insert(n).second) p->inc->add(z3::implies(l, e));
                as.push_back(l);
            });
            zr = p->inc->check(as);
            if (zr == z3::sat) zm.reset(new z3::model(p->inc->get_model()));
        });
        if (zr == z3::unknown) tryIt([&] {
            z3::solver s = (z3::tactic(p->ctx, fp ? "qffpbv" : "qfbv")).mk_solver();
            z3::params pr(p->ctx);
            pr.set("rlimit", p->rSlow);
            s.set(pr);
            for (E x : slice) s.add(p->toBool(x));
            s.add(p->toBool(c));
            domain([&](const z3::expr& e, uint32_t, int) { s.add(e); });
            congruence([&](const z3::expr& e, uint32_t, uint32_t) { s.add(e); });
            zr = s.check();
            if (zr == z3::sat) zm.reset(new z3::model(s.get_model()));
        });
        double dt = now() - t0;
        gStats.z3time += dt;
        gStats.maxq = std::max(gStats.maxq, dt);
        if (getenv("LSYM_SLOWQ") && dt > atof(getenv("LSYM_SLOWQ")))
            fprintf(stderr, "slow query %.2fs res=%d slice=%zu: %s\n", dt, (int)zr, slice.size(), toStr(c, 6).c_str());
        res = zr == z3::sat ? Sat::Yes : zr == z3::unsat ? Sat::No : Sat::Unknown;
        if (res == Sat::Yes) {
            gStats.sat++;
            delta = std::make_shared<Model>();
            auto val = [&](z3::expr x, unsigned w) {
                z3::expr v = zm->eval(x, true);
                if (w == 1 && v.is_bool()) return APInt(1, v.is_true() ? 1 : 0);
                if (w <= 64) { uint64_t u = 0; if (v.is_numeral_u64(u)) return APInt(w, u); return APInt(w, 0); }
                std::string s = v.get_decimal_string(0);
                return APInt(w, Z3_get_numeral_string(p->ctx, v), 10);
            };
            for (uint32_t v : vars) {
                if (v >> 31) continue;
                E n = gVars[v].node;
                delta->vars[v] = val(n->w == 1 ? p->toBool(n) : p->toBV(n), n->w);
            }
            for (E u : ufs) delta->ufs.emplace(u->id, val(p->toBV(u), u->w));
        } else if (res == Sat::No) gStats.unsat++;
        else gStats.unknown++;
        p->cache.emplace(key, CacheEnt{res, delta});
        if (quick == Sat::No) {
            gStats.confirmed++;
            if (res == Sat::Yes) { fprintf(stderr, "quick decision contradicts z3: %s\n", toStr(c, 8).c_str()); gStats.contradicted++; }
        }
    }
    if (quick == Sat::No && res != Sat::Yes) return Sat::No;
    if (res == Sat::Yes) {
        auto m = std::make_shared<Model>();
        if (base) { m->vars = base->vars; m->ufs = base->ufs; }
        for (auto& kv : delta->vars) m->vars[kv.first] = kv.second;
        if (!m->ufs.empty()) // values of applications that may depend on what has just changed are forgotten
            for (auto it = m->ufs.begin(); it != m->ufs.end();) {
                if (intersects(varsOf(ufNode[it->first]), vars)) it = m->ufs.erase(it); else ++it;
            }
        for (auto& kv : delta->ufs) m->ufs.emplace(kv.first, kv.second);
        out = m;
    }
    return res;
}

void Solver::rewritten(bool isF, unsigned pred, E x, E y, bool result) {
    gStats.rewritten++;
    static uint64_t done = 0, skip = 0;
    static double spent = 0;
    if (spent > 2 || (done >= 100 && ++skip % 1024)) return;
    if (!p->folded.insert((uint64_t(x->id) << 32 | y->id) * 64 + pred).second) return;
    done++;
    double t0 = now();
    try {
        z3::expr r = p->ctx.bool_val(false);
        if (isF) {
            z3::expr a = p->toFP(x), b = p->toFP(y);
            if (pred & 1) r = r || p->wrap(Z3_mk_fpa_eq(p->ctx, a, b));
            if (pred & 2) r = r || p->wrap(Z3_mk_fpa_gt(p->ctx, a, b));
            if (pred & 4) r = r || p->wrap(Z3_mk_fpa_lt(p->ctx, a, b));
            if (pred & 8) r = r || p->wrap(Z3_mk_fpa_is_nan(p->ctx, a)) || p->wrap(Z3_mk_fpa_is_nan(p->ctx, b));
        } else {
            z3::expr a = p->toBV(x), b = p->toBV(y);
            switch (pred) { // llvm::CmpInst
            case 32: r = a == b; break;
            case 33: r = a != b; break;
            case 34: r = z3::ugt(a, b); break;
            case 35: r = z3::uge(a, b); break;
            case 36: r = z3::ult(a, b); break;
            case 37: r = z3::ule(a, b); break;
            case 38: r = z3::sgt(a, b); break;
            case 39: r = z3::sge(a, b); break;
            case 40: r = z3::slt(a, b); break;
            default: r = z3::sle(a, b); break;
            }
        }
        z3::solver s = z3::tactic(p->ctx, isF ? "qffpbv" : "qfbv").mk_solver();
        z3::params pr(p->ctx); pr.set("rlimit", 300000u); s.set(pr);
        s.add(result ? !r : r);
        for (E e : {x, y}) for (uint32_t v : varsOf(e)) {
            if (v >> 31) continue;
            const VarInfo& vi = gVars[v];
            if (!vi.ranged || vi.w == 1) continue;
            z3::expr n = p->toBV(vi.node);
            s.add(z3::sge(n, p->num(APInt(vi.w, (uint64_t)vi.lo, true))) && z3::sle(n, p->num(APInt(vi.w, (uint64_t)vi.hi, true))));
        }
        if (getenv("LSYM_DBG")) fprintf(stderr, "confirm %d %s  ||  %s\n%s\n", pred, toStr(x, 8).c_str(), toStr(y, 8).c_str(), s.to_smt2().c_str());
        gStats.z3calls++; gStats.confirmed++;
        z3::check_result zr = s.check();
        if (zr == z3::unsat) gStats.unsat++; else if (zr == z3::unknown) gStats.unknown++;
        else {
            gStats.sat++;
            std::vector<E> ufs; std::unordered_set<uint32_t> seen; collectUF(x, seen, ufs); collectUF(y, seen, ufs);
            if (ufs.empty()) { gStats.contradicted++; fprintf(stderr, "rewriting contradicts z3: %d %s %s\n", pred, toStr(x, 8).c_str(), toStr(y, 8).c_str()); }
        }
    } catch (z3::exception&) {}
    spent += now() - t0;
    gStats.z3time += now() - t0;
}

std::string Solver::dump(const std::vector<E>& pc, E c) {
    z3::solver s(p->ctx);
    for (E x : pc) s.add(p->toBool(x));
    s.add(p->toBool(c));
    return s.to_smt2();
}
