// ------------------------------------------------------------------ builtins
enum B {
    B_malloc = 1, B_calloc, B_realloc, B_free, B_symmalloc, B_symfree, B_objsize,
    B_memcpy, B_memmove, B_memset, B_memcmp,
    B_excAlloc, B_excFree, B_throw, B_beginCatch, B_excEnd, B_rethrow, B_getExcPtr, B_excObjFree,
    B_dyncast, B_pure, B_atexit, B_terminate, B_exit, B_abort,
    B_range, B_bits, B_choice, B_assume, B_assert, B_cover, B_leakmark, B_leakcheck, B_native, B_known,
    B_fail, B_conc, B_issym, B_fmtdouble, B_uncaught, B_trace, B_strtod,
    B_uf1d, B_uf2d, B_uf1f, B_uf2f,
    B_libm1d, B_libm1f, B_libm2d, B_libm2f, B_sqrtd, B_sqrtf,
    B_round, B_notmodelled, B_expectthrow,
};
struct LibmEnt { const char* n; const char* uf; };
static const LibmEnt LIBM1[] = {{"sin", "sin"}, {"cos", "cos"}, {"tan", "tan"}, {"atan", "atan"}, {"exp", "exp"}, {"log", "log"}, {"log10", "log10"}};
static const LibmEnt LIBM2[] = {{"pow", "pow"}, {"atan2", "atan2"}, {"hypot", "hypot"}, {"fmod", "fmod"}};

void Executor::initBuiltins(std::unordered_map<std::string, int>& m) {
    m = {
        {"malloc", B_malloc}, {"calloc", B_calloc}, {"realloc", B_realloc}, {"free", B_free},
        {"__sym_malloc", B_symmalloc}, {"__sym_free", B_symfree}, {"__sym_objsize", B_objsize},
        {"memcpy", B_memcpy}, {"memmove", B_memmove}, {"memset", B_memset}, {"memcmp", B_memcmp}, {"bcmp", B_memcmp},
        {"__cxa_allocate_exception", B_excAlloc}, {"__cxa_free_exception", B_excFree}, {"__cxa_throw", B_throw},
        {"__cxa_begin_catch", B_beginCatch}, {"__sym_exc_end", B_excEnd}, {"__sym_exc_free", B_excObjFree},
        {"__cxa_rethrow", B_rethrow}, {"__cxa_get_exception_ptr", B_getExcPtr},
        {"__dynamic_cast", B_dyncast}, {"__cxa_pure_virtual", B_pure}, {"__cxa_atexit", B_atexit},
        {"_ZSt9terminatev", B_terminate}, {"abort", B_abort}, {"__sym_end", B_exit},
        {"__sym_range", B_range}, {"__sym_bits", B_bits}, {"__sym_choice", B_choice}, {"__sym_assume", B_assume},
        {"__sym_assert", B_assert}, {"__sym_cover", B_cover}, {"__sym_leak_mark", B_leakmark}, {"__sym_leak_check", B_leakcheck},
        {"__sym_is_native", B_native}, {"__sym_known", B_known}, {"__sym_fail", B_fail}, {"__sym_concretize", B_conc},
        {"__sym_is_symbolic", B_issym}, {"__sym_fmt_double", B_fmtdouble}, {"_ZSt18uncaught_exceptionv", B_uncaught},
        {"__sym_trace", B_trace}, {"__sym_strtod", B_strtod},
        {"__sym_uf1d", B_uf1d}, {"__sym_uf2d", B_uf2d}, {"__sym_uf1f", B_uf1f}, {"__sym_uf2f", B_uf2f},
        {"sqrt", B_sqrtd}, {"sqrtf", B_sqrtf}, {"__sym_unmodelled", B_notmodelled},
    };
    for (auto& e : LIBM1) { m[e.n] = B_libm1d; m[std::string(e.n) + "f"] = B_libm1f; }
    for (auto& e : LIBM2) { m[e.n] = B_libm2d; m[std::string(e.n) + "f"] = B_libm2f; }
    m["floor"] = m["ceil"] = m["trunc"] = m["rint"] = m["nearbyint"] = m["round"] = B_round;
    m["floorf"] = m["ceilf"] = m["truncf"] = m["rintf"] = m["nearbyintf"] = m["roundf"] = B_round;
}

static unsigned roundMode(const std::string& n) {
    if (n.find("floor") != std::string::npos) return 0;
    if (n.find("ceil") != std::string::npos) return 1;
    if (n.find("trunc") != std::string::npos) return 2;
    if (n.find("rint") != std::string::npos || n.find("nearbyint") != std::string::npos) return 3;
    return 4;
}

bool Executor::builtin(State& s, Frame& f, const Ins& I, Func* callee, std::vector<Val>& a, Val& out) {
    auto needC = [&](int i) { return conc(s, a[i]); };
    switch (callee->builtin) {
    case B_malloc: case B_calloc: case B_symmalloc: {
        uint64_t n = needC(0);
        if (callee->builtin == B_calloc) n *= needC(1);
        if (n > (1ull << 33)) { out = Val(0); return true; }
        if (n > (8ull << 20) || s.heapBytes + n > (64ull << 20)) throw EngineLimit{"allocation larger than the memory model"};
        s.heapBytes += n;
        Obj* o = allocObj(s, n, OHeap, callee->builtin != B_calloc);
        o->allocKind = callee->builtin == B_symmalloc ? (uint8_t)needC(1) : 0;
        out = Val(o->base);
        return true;
    }
    case B_realloc: {
        uint64_t p = needC(0), n = needC(1);
        Obj* o = allocObj(s, n, OHeap, true);
        uint64_t b = o->base;
        if (p) {
            Obj* q = findObj(s, p);
            if (!q || q->base != p || q->kind != OHeap) { error(s, "memory", "realloc of invalid pointer"); throw PathEnd{}; }
            copyMem(s, b, p, std::min(n, q->size), true);
            freeObj(s, findObj(s, p));
        }
        out = Val(b);
        return true;
    }
    case B_free: case B_symfree: {
        uint64_t p = needC(0);
        uint8_t k = callee->builtin == B_free ? 0 : (uint8_t)needC(1);
        if (!p) return true;
        Obj* o = findObj(s, p);
        if (!o) { error(s, "memory", "double free or free of a wild pointer"); throw PathEnd{}; }
        if (o->base != p || o->kind != OHeap) { error(s, "memory", "free of a pointer that was not allocated"); throw PathEnd{}; }
        if (o->allocKind != k) {
            static const char* nm[] = {"malloc/free", "new/delete", "new[]/delete[]"};
            error(s, "memory", std::string("mismatched deallocation: allocated with ") + nm[o->allocKind % 3] + ", released as " + nm[k % 3]);
            throw PathEnd{};
        }
        s.heapBytes -= o->size;
        freeObj(s, o);
        return true;
    }
    case B_objsize: {
        Obj* o = findObj(s, needC(0));
        out = Val(o ? o->size : 0);
        return true;
    }
    case B_memcpy: case B_memmove: {
        uint64_t n = needC(2), d = needC(0), q = needC(1);
        copyMem(s, d, q, n, callee->builtin == B_memmove);
        out = Val(d);
        return true;
    }
    case B_memset: {
        uint64_t n = needC(2), d = needC(0);
        Val v = a[1];
        if (v.e) v = mkV(mkExtract(v.e, 0, 8)); else v.c &= 0xff;
        setMem(s, d, v, n);
        out = Val(d);
        return true;
    }
    case B_memcmp: {
        uint64_t n = needC(2), p = needC(0), q = needC(1);
        if (n == 0) { out = Val(0); return true; }
        Obj* x = findObj(s, p); if (!inb(x, p, n)) memError(s, p, n, "memcmp");
        Obj* y = findObj(s, q); if (!inb(y, q, n)) memError(s, q, n, "memcmp");
        E r = mkConst(32, 0);
        for (uint64_t i = n; i-- > 0;) {
            x = findObj(s, p); Val u = loadObj(s, x, p + i - x->base, 8);
            y = findObj(s, q); Val v = loadObj(s, y, q + i - y->base, 8);
            E ue = toE(u, 8), ve = toE(v, 8);
            if (ue == ve) continue;
            E d = mkBin(Op::Sub, mkZExt(ue, 32), mkZExt(ve, 32));
            r = mkIte(mkEq(ue, ve), r, d);
        }
        out = mkV(r);
        return true;
    }
    case B_excAlloc: {
        Obj* o = allocObj(s, needC(0), OExc, true);
        out = Val(o->base);
        return true;
    }
    case B_excFree: case B_excObjFree: {
        Obj* o = findObj(s, needC(0));
        if (o && o->kind == OExc) { s.exc.erase(o->base); freeObj(s, o); }
        return true;
    }
    case B_throw: {
        uint64_t o = needC(0);
        ExcInfo ei; ei.ti = needC(1); ei.dtor = needC(2); ei.adjusted = o;
        s.exc[o] = ei;
        throwExc(s, o);
        return false;
    }
    case B_beginCatch: {
        uint64_t o = needC(0);
        auto it = s.exc.find(o);
        if (it == s.exc.end()) throw EngineLimit{"begin_catch of foreign exception"};
        it->second.handlers++;
        s.caught.push_back(o);
        out = Val(it->second.adjusted);
        return true;
    }
    case B_getExcPtr: {
        uint64_t o = needC(0);
        out = Val(s.exc[o].adjusted);
        return true;
    }
    case B_excEnd: { // void* __sym_exc_end(void(**d)(void*))
        if (s.caught.empty()) { out = Val(0); return true; }
        uint64_t o = s.caught.back();
        s.caught.pop_back();
        auto it = s.exc.find(o);
        if (it == s.exc.end()) { out = Val(0); return true; }
        int& h = it->second.handlers;
        if (h < 0) { // rethrown
            if (++h == 0) { out = Val(0); return true; }
            out = Val(0);
            return true;
        }
        if (--h == 0) {
            TD p; p.k = TD::Ptr; p.bits = 64; p.size = p.store = 8;
            storeT(s, needC(0), &p, Val(it->second.dtor));
            out = Val(o);
        } else out = Val(0);
        return true;
    }
    case B_rethrow: {
        if (s.caught.empty()) { error(s, "exception", "rethrow without a current exception"); throw PathEnd{}; }
        uint64_t o = s.caught.back();
        ExcInfo& ei = s.exc[o];
        ei.handlers = -ei.handlers;
        throwExc(s, o);
        return false;
    }
    case B_uncaught: out = Val(0); return true;
    case B_dyncast: {
        uint64_t src = needC(0), dst = needC(2);
        if (!src) { out = Val(0); return true; }
        uint64_t vt = rd64(s, src);
        int64_t top = (int64_t)rd64(s, vt - 16);
        uint64_t ti = rd64(s, vt - 8);
        int64_t off = 0;
        out = Val(tiFind(s, ti, dst, src + top, off) ? src + top + off : 0);
        return true;
    }
    case B_pure: error(s, "memory", "pure virtual call"); throw PathEnd{};
    case B_atexit: out = Val(0); return true;
    case B_terminate: error(s, "exception", "std::terminate called"); throw PathEnd{};
    case B_abort: error(s, "exception", "abort called"); throw PathEnd{};
    case B_exit: throw PathFinished{};
    case B_range: {
        std::string n = readStr(s, needC(0));
        int64_t lo = (int64_t)needC(1), hi = (int64_t)needC(2);
        auto& rg = res.symbolic[n];
        rg.first = std::min(rg.first, lo); rg.second = std::max(rg.second, hi);
        unsigned k = 1;
        while (k < 64 && (lo < -(int64_t(1) << (k - 1)) || hi > ((int64_t(1) << (k - 1)) - 1))) k++;
        if (lo == hi) { input(s, n, nullptr, lo); out = Val((uint64_t)lo); return true; }
        E v = rangedVar(n + "@" + std::to_string(s.inputs.size()), k, lo, hi);
        // the model must respect the domain
        if (lo > 0 || hi < 0) {
            auto m = std::make_shared<Model>();
            m->vars = s.model->vars; m->ufs = s.model->ufs;
            if (!m->vars.count(v->aux)) m->vars.emplace(v->aux, APInt(k, (uint64_t)lo, true));
            s.model = m;
        }
        E e = mkSExt(v, 64);
        input(s, n, e, 0);
        out = mkV(e);
        return true;
    }
    case B_bits: {
        std::string n = readStr(s, needC(0));
        unsigned w = (unsigned)needC(1);
        res.symbolic[n] = {0, w >= 63 ? -1 : (int64_t)((1ull << w) - 1)};
        E v = namedVar(n + "@" + std::to_string(s.inputs.size()), w);
        E e = mkZExt(v, 64);
        input(s, n, e, 0);
        out = mkV(e);
        return true;
    }
    case B_choice: {
        std::string n = readStr(s, needC(0));
        int64_t lo = (int64_t)needC(1), hi = (int64_t)needC(2);
        auto& rg = res.symbolic[n];
        rg.first = std::min(rg.first, lo); rg.second = std::max(rg.second, hi);
        for (int64_t v = lo + 1; v <= hi; v++) {
            StateP c = cloneState(s);
            input(*c, n, nullptr, v);
            Frame& g = *c->st.back();
            g.r[I.dst] = Val((uint64_t)v);
            if (I.op == Instruction::Invoke) jump(*c, g, I.bl[0]); else g.pc++;
            push(std::move(c));
        }
        input(s, n, nullptr, lo);
        out = Val((uint64_t)lo);
        return true;
    }
    case B_assume: {
        E c = toE(a[0], 1);
        if (c->w != 1) c = mkNe(c, mkConst(c->w, 0));
        c = simplifyTop(s, c);
        if (c->isConst()) { if (c->c.isZero()) { res.infeasible++; throw PathEnd{}; } return true; }
        std::shared_ptr<const Model> m;
        Sat r = feasible(s, c, m);
        if (r != Sat::Yes) { res.infeasible++; throw PathEnd{}; }
        s.model = m;
        addPC(s, c);
        return true;
    }
    case B_assert: {
        E c = toE(a[0], 1);
        if (c->w != 1) c = mkNe(c, mkConst(c->w, 0));
        doAssert(s, c, readStr(s, needC(1)));
        return true;
    }
    case B_known: { // bool __sym_known(const char* id, bool cond): the recorded defect; the path is dropped
        std::string id = readStr(s, needC(0));
        E c = toE(a[1], 1);
        if (c->w != 1) c = mkNe(c, mkConst(c->w, 0));
        if (decide(s, c)) {
            res.covers["known:" + id]++;
            throw PathEnd{};
        }
        return true;
    }
    case B_cover: s.covers.insert(readStr(s, needC(0))); return true;
    case B_leakmark: out = Val(s.nextSlot); return true;
    case B_leakcheck: leakCheck(s, needC(0), readStr(s, needC(1))); return true;
    case B_native: out = Val(0); return true;
    case B_fail: error(s, "assert", readStr(s, needC(0))); throw PathEnd{};
    case B_conc: out = Val(needC(0)); return true;
    case B_issym: out = Val(a[0].e != nullptr); return true;
    case B_trace: if (getenv("LSYM_TRACE")) fprintf(stderr, "trace: %s %s\n", readStr(s, needC(0)).c_str(), a.size() > 1 ? (a[1].e ? toStr(a[1].e, 5).c_str() : std::to_string((int64_t)a[1].c).c_str()) : ""); return true;
    case B_fmtdouble: { // int __sym_fmt_double(char* buf, size_t n, const char* fmt, double v, int prec)
        uint64_t buf = needC(0), n = needC(1);
        std::string fmt = readStr(s, needC(2));
        uint64_t bits = needC(3);
        int prec = (int)needC(4);
        char tmp[512];
        int r = fmt.find('*') != std::string::npos ? snprintf(tmp, sizeof tmp, fmt.c_str(), prec, bitsToDouble(bits, 64)) : snprintf(tmp, sizeof tmp, fmt.c_str(), bitsToDouble(bits, 64));
        for (int i = 0; i <= r && (uint64_t)i < n; i++) {
            uint64_t ad = buf + i;
            Obj* q = findObj(s, ad);
            if (!inb(q, ad, 1)) memError(s, ad, 1, "format");
            Obj* o = wrObj(s, ad);
            storeObj(o, ad - o->base, Val((uint64_t)(uint8_t)((uint64_t)i == n - 1 ? 0 : tmp[i])), 8);
        }
        out = Val((uint64_t)(uint32_t)r);
        return true;
    }
    case B_strtod: { // double __sym_strtod(const char* s): concrete decimal text
        std::string t = readStr(s, needC(0));
        out = Val(doubleToBits(strtod(t.c_str(), nullptr), 64));
        return true;
    }
    case B_uf1d: case B_uf1f: { unsigned w = callee->builtin == B_uf1d ? 64 : 32; out = mkV(mkUF(readStr(s, needC(0)), w, {toE(a[1], w)})); return true; }
    case B_uf2d: case B_uf2f: { unsigned w = callee->builtin == B_uf2d ? 64 : 32; out = mkV(mkUF(readStr(s, needC(0)), w, {toE(a[1], w), toE(a[2], w)})); return true; }
    case B_libm1d: out = mkV(mkUF(callee->name, 64, {toE(a[0], 64)})); return true;
    case B_libm1f: out = mkV(mkUF(callee->name.substr(0, callee->name.size() - 1), 32, {toE(a[0], 32)})); return true;
    case B_libm2d: out = mkV(mkUF(callee->name, 64, {toE(a[0], 64), toE(a[1], 64)})); return true;
    case B_libm2f: out = mkV(mkUF(callee->name.substr(0, callee->name.size() - 1), 32, {toE(a[0], 32), toE(a[1], 32)})); return true;
    case B_sqrtd: out = mkV(mkFSqrt(toE(a[0], 64))); return true;
    case B_sqrtf: out = mkV(mkFSqrt(toE(a[0], 32))); return true;
    case B_round: { unsigned w = callee->name.back() == 'f' && callee->name != "ceilf" + std::string("x") && callee->name.size() > 5 - 1 && (callee->name == "floorf" || callee->name == "ceilf" || callee->name == "truncf" || callee->name == "rintf" || callee->name == "nearbyintf" || callee->name == "roundf") ? 32 : 64;
        out = mkV(mkFRound(roundMode(callee->name), toE(a[0], w))); return true; }
    case B_notmodelled: throw EngineLimit{"unmodelled: " + readStr(s, needC(0))};
    }
    throw EngineLimit{"builtin " + callee->name};
}

void Executor::intrinsic(State& s, Frame& f, const Ins& I, std::vector<Val>& a, Val& out) {
    auto* ci = llvm::cast<CallBase>(I.I);
    auto id = ci->getCalledFunction()->getIntrinsicID();
    TD* t = I.ty;
    auto bits = [&](TD* x) { return x->k == TD::Vec ? x->el[0]->bits : x->bits; };
    auto map1 = [&](auto fn) {
        if (t->k == TD::Vec) { std::vector<Val> r; for (auto& x : a[0].a->v) r.push_back(mkV(fn(toE(x, bits(t))))); out = mkAgg(std::move(r)); }
        else out = mkV(fn(toE(a[0], t->bits)));
    };
    auto map2 = [&](auto fn) {
        unsigned w = bits(t);
        if (t->k == TD::Vec) { std::vector<Val> r; for (size_t i = 0; i < t->n; i++) r.push_back(mkV(fn(toE(a[0].a->v[i], w), toE(a[1].a->v[i], w)))); out = mkAgg(std::move(r)); }
        else out = mkV(fn(toE(a[0], w), toE(a[1], w)));
    };
    switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        uint64_t n = conc(s, a[2]);
        if (n == 0) return;
        uint64_t d = concAddr(s, a[0], n), q = concAddr(s, a[1], n);
        // clang emits memcpy for struct assignment, where source and destination may coincide
        copyMem(s, d, q, n, id == Intrinsic::memmove);
        return;
    }
    case Intrinsic::memset: {
        uint64_t n = conc(s, a[2]);
        if (n == 0) return;
        setMem(s, concAddr(s, a[0], n), a[1], n);
        return;
    }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ptrmask:
        out = a[0]; return;
    case Intrinsic::is_constant: out = Val(a[0].e ? 0 : 0); return;
    case Intrinsic::objectsize: out = Val(llvm::cast<llvm::ConstantInt>(ci->getArgOperand(1))->isOne() ? 0 : maskw(t->bits)); return;
    case Intrinsic::stacksave: out = Val(0); return;
    case Intrinsic::smax: map2([](E x, E y) { return mkIte(mkBin(Op::Slt, x, y), y, x); }); return;
    case Intrinsic::smin: map2([](E x, E y) { return mkIte(mkBin(Op::Slt, x, y), x, y); }); return;
    case Intrinsic::umax: map2([](E x, E y) { return mkIte(mkBin(Op::Ult, x, y), y, x); }); return;
    case Intrinsic::umin: map2([](E x, E y) { return mkIte(mkBin(Op::Ult, x, y), x, y); }); return;
    case Intrinsic::abs: map1([](E x) { return mkIte(mkBin(Op::Slt, x, mkConst(x->w, 0)), mkBin(Op::Sub, mkConst(x->w, 0), x), x); }); return;
    case Intrinsic::uadd_sat: map2([](E x, E y) { E r = mkBin(Op::Add, x, y); return mkIte(mkBin(Op::Ult, r, x), mkConst(APInt::getAllOnes(x->w)), r); }); return;
    case Intrinsic::usub_sat: map2([](E x, E y) { return mkIte(mkBin(Op::Ult, x, y), mkConst(x->w, 0), mkBin(Op::Sub, x, y)); }); return;
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        unsigned w = t->el[0]->bits;
        E x = toE(a[0], w), y = toE(a[1], w);
        bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
        bool mul = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow;
        Op o = mul ? Op::Mul : (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Op::Add : Op::Sub;
        unsigned W = mul ? 2 * w : w + 1;
        E wide = sg ? mkBin(o, mkSExt(x, W), mkSExt(y, W)) : mkBin(o, mkZExt(x, W), mkZExt(y, W));
        E r = mkExtract(wide, 0, w);
        E ov = mkNe(wide, sg ? mkSExt(r, W) : mkZExt(r, W));
        out = mkAgg({mkV(r), mkV(ov)});
        return;
    }
    case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap: {
        unsigned w = t->bits;
        E x = toE(a[0], w);
        if (x->isConst()) {
            APInt v = x->c;
            if (id == Intrinsic::bswap) { out = mkV(mkConst(v.byteSwap())); return; }
            unsigned r = id == Intrinsic::ctpop ? v.popcount() : id == Intrinsic::ctlz ? v.countl_zero() : v.countr_zero();
            out = Val(r);
            return;
        }
        if (id == Intrinsic::bswap) {
            E r = nullptr;
            for (unsigned i = 0; i < w; i += 8) { E b = mkExtract(x, i, 8); r = r ? mkConcat(r, b) : b; }
            out = mkV(r);
            return;
        }
        E r = mkConst(w, id == Intrinsic::ctpop ? 0 : w);
        if (id == Intrinsic::ctpop) for (unsigned i = 0; i < w; i++) r = mkBin(Op::Add, r, mkZExt(mkExtract(x, i, 1), w));
        else if (id == Intrinsic::ctlz) for (unsigned i = 0; i < w; i++) r = mkIte(mkEq(mkExtract(x, i, 1), mkBool(true)), mkConst(w, w - 1 - i), r);
        else for (int i = (int)w - 1; i >= 0; i--) r = mkIte(mkEq(mkExtract(x, i, 1), mkBool(true)), mkConst(w, i), r);
        out = mkV(r);
        return;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
        unsigned w = t->bits;
        E c = mkConcat(toE(a[0], w), toE(a[1], w));
        E sh = mkZExt(mkBin(Op::URem, toE(a[2], w), mkConst(w, w)), 2 * w);
        if (id == Intrinsic::fshl) out = mkV(mkExtract(mkBin(Op::Shl, c, sh), w, w));
        else out = mkV(mkExtract(mkBin(Op::LShr, c, sh), 0, w));
        return;
    }
    case Intrinsic::fabs: map1([](E x) { return mkFAbs(x); }); return;
    case Intrinsic::floor: map1([](E x) { return mkFRound(0, x); }); return;
    case Intrinsic::ceil: map1([](E x) { return mkFRound(1, x); }); return;
    case Intrinsic::trunc: map1([](E x) { return mkFRound(2, x); }); return;
    case Intrinsic::rint: case Intrinsic::nearbyint: map1([](E x) { return mkFRound(3, x); }); return;
    case Intrinsic::round: map1([](E x) { return mkFRound(4, x); }); return;
    case Intrinsic::sqrt: map1([](E x) { return mkFSqrt(x); }); return;
    case Intrinsic::sin: map1([](E x) { return mkUF("sin", x->w, {x}); }); return;
    case Intrinsic::cos: map1([](E x) { return mkUF("cos", x->w, {x}); }); return;
    case Intrinsic::exp: map1([](E x) { return mkUF("exp", x->w, {x}); }); return;
    case Intrinsic::log: map1([](E x) { return mkUF("log", x->w, {x}); }); return;
    case Intrinsic::log10: map1([](E x) { return mkUF("log10", x->w, {x}); }); return;
    case Intrinsic::pow: map2([](E x, E y) { return mkUF("pow", x->w, {x, y}); }); return;
    case Intrinsic::copysign: map2([](E x, E y) { return mkConcat(mkExtract(y, y->w - 1, 1), mkExtract(x, 0, x->w - 1)); }); return;
    case Intrinsic::minnum: map2([](E x, E y) { return mkIte(mkFCmp(CmpInst::FCMP_UNO, y, y), x, mkIte(mkFCmp(CmpInst::FCMP_OLT, y, x), y, x)); }); return;
    case Intrinsic::maxnum: map2([](E x, E y) { return mkIte(mkFCmp(CmpInst::FCMP_UNO, y, y), x, mkIte(mkFCmp(CmpInst::FCMP_OGT, y, x), y, x)); }); return;
    case Intrinsic::fmuladd: case Intrinsic::fma: {
        auto one = [&](const Val& x, const Val& y, const Val& z, unsigned w) { return mkV(mkFBin(Op::FAdd, mkFBin(Op::FMul, toE(x, w), toE(y, w)), toE(z, w))); };
        if (t->k == TD::Vec) { std::vector<Val> r; for (size_t i = 0; i < t->n; i++) r.push_back(one(a[0].a->v[i], a[1].a->v[i], a[2].a->v[i], t->el[0]->bits)); out = mkAgg(std::move(r)); }
        else out = one(a[0], a[1], a[2], t->bits);
        return;
    }
    case Intrinsic::is_fpclass: {
        unsigned w = I.sty->bits;
        uint64_t mask = a[1].c;
        if ((mask & ~3ull) == 0 && mask) { E x = toE(a[0], w); out = mkV(mkFCmp(CmpInst::FCMP_UNO, x, x)); return; }
        break;
    }
    case Intrinsic::vastart: {
        uint64_t p = conc(s, a[0]);
        uint64_t total = 8 * f.va.size();
        Obj* o = allocObj(s, total ? total : 8, OStack, true);
        uint64_t b = o->base;
        f.allocas.push_back(o->slot);
        for (size_t i = 0; i < f.va.size(); i++) {
            if (!f.vaTy[i]->scalar()) throw EngineLimit{"aggregate vararg"};
            storeT(s, b + 8 * i, f.vaTy[i], f.va[i]);
        }
        TD i32; i32.k = TD::Int; i32.bits = 32; i32.size = i32.store = 4;
        TD pt; pt.k = TD::Ptr; pt.bits = 64; pt.size = pt.store = 8;
        storeT(s, p, &i32, Val(48)); storeT(s, p + 4, &i32, Val(176));
        storeT(s, p + 8, &pt, Val(b)); storeT(s, p + 16, &pt, Val(0));
        return;
    }
    case Intrinsic::vacopy: copyMem(s, conc(s, a[0]), conc(s, a[1]), 24, true); return;
    case Intrinsic::eh_typeid_for: {
        uint64_t want = a[0].c;
        out = Val(want ? (uint64_t)((want >> SLOTSH) - SLOT0 + 1) : 0x7fffff);
        return;
    }
    case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap:
        error(s, "trap", "trap"); throw PathEnd{};
    default: break;
    }
    throw EngineLimit{"intrinsic " + ci->getCalledFunction()->getName().str()};
}
