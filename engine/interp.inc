// ------------------------------------------------------------------ arithmetic
static Op intOp(unsigned op) {
    switch (op) {
    case Instruction::Add: return Op::Add; case Instruction::Sub: return Op::Sub; case Instruction::Mul: return Op::Mul;
    case Instruction::UDiv: return Op::UDiv; case Instruction::SDiv: return Op::SDiv;
    case Instruction::URem: return Op::URem; case Instruction::SRem: return Op::SRem;
    case Instruction::And: return Op::And; case Instruction::Or: return Op::Or; case Instruction::Xor: return Op::Xor;
    case Instruction::Shl: return Op::Shl; case Instruction::LShr: return Op::LShr; case Instruction::AShr: return Op::AShr;
    case Instruction::FAdd: return Op::FAdd; case Instruction::FSub: return Op::FSub; case Instruction::FMul: return Op::FMul;
    case Instruction::FDiv: return Op::FDiv; case Instruction::FRem: return Op::FRem;
    default: throw EngineLimit{"binop"};
    }
}
Val Executor::binop(State& s, unsigned op, const Val& a, const Val& b, TD* t) {
    if (t->k == TD::Vec) {
        std::vector<Val> r;
        for (uint64_t i = 0; i < t->n; i++) r.push_back(binop(s, op, a.a->v[i], b.a->v[i], t->el[0]));
        return mkAgg(std::move(r));
    }
    unsigned w = t->bits;
    bool isF = t->k == TD::Float;
    if (isF && w == 80) throw EngineLimit{"long double arithmetic"};
    if (!a.e && !b.e && w <= 64) {
        uint64_t x = a.c, y = b.c, r = 0;
        if (isF) {
            if (w == 64) {
                double p = bitsToDouble(x, 64), q = bitsToDouble(y, 64), z;
                switch (op) {
                case Instruction::FAdd: z = p + q; break; case Instruction::FSub: z = p - q; break;
                case Instruction::FMul: z = p * q; break; case Instruction::FDiv: z = p / q; break;
                default: z = std::fmod(p, q); break;
                }
                return Val(doubleToBits(z, 64));
            }
            uint32_t xi = (uint32_t)x, yi = (uint32_t)y; float p, q, z; memcpy(&p, &xi, 4); memcpy(&q, &yi, 4);
            switch (op) {
            case Instruction::FAdd: z = p + q; break; case Instruction::FSub: z = p - q; break;
            case Instruction::FMul: z = p * q; break; case Instruction::FDiv: z = p / q; break;
            default: z = fmodf(p, q); break;
            }
            uint32_t zi; memcpy(&zi, &z, 4);
            return Val(zi);
        }
        switch (op) {
        case Instruction::Add: r = x + y; break;
        case Instruction::Sub: r = x - y; break;
        case Instruction::Mul: r = x * y; break;
        case Instruction::And: r = x & y; break;
        case Instruction::Or: r = x | y; break;
        case Instruction::Xor: r = x ^ y; break;
        case Instruction::Shl: r = y >= w ? 0 : x << y; break;
        case Instruction::LShr: r = y >= w ? 0 : x >> y; break;
        case Instruction::AShr: r = (uint64_t)(sxt(x, w) >> (y >= w ? w - 1 : y)); break;
        default: {
            if (y == 0) { error(s, "arith", "division by zero"); throw PathEnd{}; }
            int64_t p = sxt(x, w), q = sxt(y, w);
            if ((op == Instruction::SDiv || op == Instruction::SRem) && q == -1 && p == sxt(1ull << (w - 1), w)) {
                error(s, "arith", "signed division overflow"); throw PathEnd{};
            }
            switch (op) {
            case Instruction::UDiv: r = x / y; break; case Instruction::URem: r = x % y; break;
            case Instruction::SDiv: r = (uint64_t)(p / q); break; default: r = (uint64_t)(p % q); break;
            }
        }
        }
        return Val(r & maskw(w));
    }
    E x = toE(a, w), y = toE(b, w);
    Op o = intOp(op);
    if (isF) return mkV(mkFBin(o, x, y));
    if (o == Op::UDiv || o == Op::SDiv || o == Op::URem || o == Op::SRem) {
        if (decide(s, mkEq(y, mkConst(w, 0)))) { error(s, "arith", "division by zero"); throw PathEnd{}; }
    }
    return mkV(mkBin(o, x, y));
}

Val Executor::cmp(State& s, bool isF, unsigned pred, const Val& a, const Val& b, TD* t) {
    Val r = cmp0(s, isF, pred, a, b, t);
    if ((a.e || b.e) && !r.e && t->k != TD::Vec) solver->rewritten(isF, pred, toE(a, t->bits), toE(b, t->bits), r.c & 1);
    return r;
}
Val Executor::cmp0(State& s, bool isF, unsigned pred, const Val& a, const Val& b, TD* t) {
    if (t->k == TD::Vec) {
        std::vector<Val> r;
        for (uint64_t i = 0; i < t->n; i++) r.push_back(cmp0(s, isF, pred, a.a->v[i], b.a->v[i], t->el[0]));
        return mkAgg(std::move(r));
    }
    unsigned w = t->bits;
    if (isF) {
        if (w == 80) throw EngineLimit{"long double comparison"};
        if (!a.e && !b.e) return Val(fcmpC(pred, bitsToDouble(a.c, w), bitsToDouble(b.c, w)));
        return mkV(mkFCmp(pred, toE(a, w), toE(b, w)));
    }
    if (!a.e && !b.e && w <= 64) {
        uint64_t x = a.c, y = b.c;
        int64_t p = sxt(x, w), q = sxt(y, w);
        switch (pred) {
        case CmpInst::ICMP_EQ: return Val(x == y);
        case CmpInst::ICMP_NE: return Val(x != y);
        case CmpInst::ICMP_ULT: return Val(x < y);
        case CmpInst::ICMP_ULE: return Val(x <= y);
        case CmpInst::ICMP_UGT: return Val(x > y);
        case CmpInst::ICMP_UGE: return Val(x >= y);
        case CmpInst::ICMP_SLT: return Val(p < q);
        case CmpInst::ICMP_SLE: return Val(p <= q);
        case CmpInst::ICMP_SGT: return Val(p > q);
        default: return Val(p >= q);
        }
    }
    E x = toE(a, w), y = toE(b, w);
    switch (pred) {
    case CmpInst::ICMP_EQ: return mkV(mkEq(x, y));
    case CmpInst::ICMP_NE: return mkV(mkNe(x, y));
    case CmpInst::ICMP_ULT: return mkV(mkBin(Op::Ult, x, y));
    case CmpInst::ICMP_ULE: return mkV(mkBin(Op::Ule, x, y));
    case CmpInst::ICMP_UGT: return mkV(mkBin(Op::Ult, y, x));
    case CmpInst::ICMP_UGE: return mkV(mkBin(Op::Ule, y, x));
    case CmpInst::ICMP_SLT: return mkV(mkBin(Op::Slt, x, y));
    case CmpInst::ICMP_SLE: return mkV(mkBin(Op::Sle, x, y));
    case CmpInst::ICMP_SGT: return mkV(mkBin(Op::Slt, y, x));
    default: return mkV(mkBin(Op::Sle, y, x));
    }
}

static void flatten(const Val& v, TD* t, E& acc) {
    if (t->scalar()) { E e = toE(v, t->bits); acc = acc ? mkConcat(e, acc) : e; return; }
    for (uint64_t i = 0; i < t->n; i++) flatten(v.a->v[i], t->el[0], acc);
}
static Val unflatten(E e, unsigned& off, TD* t) {
    if (t->scalar()) { E x = mkExtract(e, off, t->bits); off += t->bits; return mkV(x); }
    std::vector<Val> r;
    for (uint64_t i = 0; i < t->n; i++) r.push_back(unflatten(e, off, t->el[0]));
    return mkAgg(std::move(r));
}

Val Executor::castV(State& s, unsigned op, const Val& a, TD* from, TD* to) {
    if (op == Instruction::BitCast) {
        if (from->scalar() && to->scalar()) return a;
        E acc = nullptr;
        flatten(a, from, acc);
        unsigned off = 0;
        return unflatten(acc, off, to);
    }
    if (to->k == TD::Vec) {
        std::vector<Val> r;
        for (uint64_t i = 0; i < to->n; i++) r.push_back(castV(s, op, a.a->v[i], from->el[0], to->el[0]));
        return mkAgg(std::move(r));
    }
    unsigned fw = from->bits, tw = to->bits;
    if (fw == 80 || tw == 80) {
        // long double only flows through format conversions of doubles
        if (op == Instruction::FPExt || op == Instruction::FPTrunc) throw EngineLimit{"long double conversion"};
        throw EngineLimit{"long double"};
    }
    if (!a.e && fw <= 64 && tw <= 64) {
        uint64_t x = a.c;
        switch (op) {
        case Instruction::Trunc: return Val(x & maskw(tw));
        case Instruction::ZExt: case Instruction::PtrToInt: case Instruction::IntToPtr: return Val(x & maskw(tw));
        case Instruction::SExt: return Val((uint64_t)sxt(x, fw) & maskw(tw));
        default: break;
        }
    }
    E x = toE(a, fw);
    switch (op) {
    case Instruction::Trunc: return mkV(mkExtract(x, 0, tw));
    case Instruction::ZExt: return mkV(mkZExt(x, tw));
    case Instruction::SExt: return mkV(mkSExt(x, tw));
    case Instruction::PtrToInt: case Instruction::IntToPtr:
        return mkV(tw < fw ? mkExtract(x, 0, tw) : mkZExt(x, tw));
    case Instruction::SIToFP: return mkV(mkFCast(Op::SIToFP, x, tw));
    case Instruction::UIToFP: return mkV(mkFCast(Op::UIToFP, x, tw));
    case Instruction::FPToSI: return mkV(mkFCast(Op::FPToSI, x, tw));
    case Instruction::FPToUI: return mkV(mkFCast(Op::FPToUI, x, tw));
    case Instruction::FPExt: return mkV(mkFCast(Op::FPExt, x, tw));
    case Instruction::FPTrunc: return mkV(mkFCast(Op::FPTrunc, x, tw));
    default: throw EngineLimit{"cast"};
    }
}

// ------------------------------------------------------------------ control
void Executor::jump(State& s, Frame& f, uint32_t to) {
    Block& B = f.f->blocks[to];
    auto it = B.phis.find(f.block);
    if (it != B.phis.end()) {
        auto& mv = it->second;
        if (mv.size() == 1) {
            Val v = mv[0].src.i >= 0 ? f.r[mv[0].src.i] : consts[~mv[0].src.i];
            f.r[mv[0].dst] = std::move(v);
        } else {
            std::vector<Val> t;
            t.reserve(mv.size());
            for (auto& m : mv) t.push_back(m.src.i >= 0 ? f.r[m.src.i] : consts[~m.src.i]);
            for (size_t i = 0; i < mv.size(); i++) f.r[mv[i].dst] = std::move(t[i]);
        }
    }
    f.block = to;
    f.pc = B.start;
}

void Executor::enter(State& s, Func* f, std::vector<Val> args, std::vector<Val> va, std::vector<TD*> vaTy) {
    if (!f->decoded) decode(f);
    f->executed = true;
    f->nExec++;
    if (s.st.size() > opt.maxDepth) { error(s, "hang", "call depth exceeds " + std::to_string(opt.maxDepth) + " (unbounded recursion?)"); throw PathEnd{}; }
    auto fr = std::make_shared<Frame>();
    fr->f = f;
    fr->r.resize(f->nregs);
    for (size_t i = 0; i < f->nargs && i < args.size(); i++) {
        if (f->byval[i]) {
            uint64_t src = conc(s, args[i]);
            Obj* o = allocObj(s, f->byval[i], OStack, true);
            uint64_t b = o->base;
            fr->allocas.push_back(o->slot);
            copyMem(s, b, src, f->byval[i], true);
            fr->r[i] = Val(b);
        } else
            fr->r[i] = std::move(args[i]);
    }
    fr->va = std::move(va);
    fr->vaTy = std::move(vaTy);
    fr->block = 0;
    fr->pc = f->blocks[0].start;
    s.st.push_back(fr);
}

static void unshare(State& s) {
    if (s.st.back().use_count() > 1) s.st.back() = std::make_shared<Frame>(*s.st.back());
}

void Executor::doReturn(State& s, const Val& v0) {
    Val v = v0;
    for (uint32_t a : s.st.back()->allocas) {
        Obj* o = findObj(s, ((SLOT0 + (uint64_t)a) << SLOTSH) + OBJOFF);
        if (o) freeObj(s, o);
    }
    s.st.pop_back();
    if (s.st.empty()) return;
    unshare(s);
    Frame& f = *s.st.back();
    const Ins& I = f.f->ins[f.pc];
    if (I.dst >= 0) f.r[I.dst] = v;
    if (I.op == Instruction::Invoke) jump(s, f, I.bl[0]);
    else f.pc++;
}

uint64_t Executor::rd64(State& s, uint64_t addr) {
    Obj* o = findObj(s, addr);
    if (!inb(o, addr, 8)) memError(s, addr, 8, "read");
    Val v = loadObj(s, o, addr - o->base, 64);
    return conc(s, v);
}
// the kind of a typeinfo object: name of its vtable
const char* Executor::tiKind(State& s, uint64_t ti) {
    uint64_t vp = rd64(s, ti);
    Obj* o = findObj(s, vp);
    return o ? o->site : "";
}
// find base `want` inside an object of dynamic type `ti` located at obj; off receives the offset
bool Executor::tiFind(State& s, uint64_t ti, uint64_t want, uint64_t obj, int64_t& off, int depth) {
    if (ti == want) { off = 0; return true; }
    if (depth > 20) return false;
    const char* k = tiKind(s, ti);
    if (strstr(k, "__si_class_type_info")) {
        return tiFind(s, rd64(s, ti + 16), want, obj, off, depth + 1);
    }
    if (strstr(k, "__vmi_class_type_info")) {
        Obj* o = findObj(s, ti + 20);
        uint32_t n = (uint32_t)loadObj(s, o, ti + 20 - o->base, 32).c;
        for (uint32_t i = 0; i < n; i++) {
            uint64_t bt = rd64(s, ti + 24 + 16 * i);
            int64_t fl = (int64_t)rd64(s, ti + 32 + 16 * i);
            int64_t bo = fl >> 8;
            if (!(fl & 2)) continue; // not public
            if (fl & 1) { // virtual: offset stored in the vtable
                if (!obj) continue;
                uint64_t vt = rd64(s, obj);
                bo = (int64_t)rd64(s, vt + bo);
            }
            int64_t o2 = 0;
            if (tiFind(s, bt, want, obj ? obj + bo : 0, o2, depth + 1)) { off = bo + o2; return true; }
        }
    }
    return false;
}
bool Executor::tiMatch(State& s, uint64_t thrown, uint64_t want, int64_t& off, uint64_t obj, int depth) {
    off = 0;
    if (want == 0) return true;
    return tiFind(s, thrown, want, obj, off, depth);
}

void Executor::throwExc(State& s, uint64_t obj) {
    s.curExc = obj;
    unwind(s);
}
void Executor::unwind(State& s) {
    ExcInfo& ei = s.exc[s.curExc];
    // phase 1: is there any handler at all?
    bool handler = false;
    for (auto it = s.st.rbegin(); it != s.st.rend() && !handler; ++it) {
        Frame& f = **it;
        const Ins& I = f.f->ins[f.pc];
        if (I.op != Instruction::Invoke) continue;
        Block& B = f.f->blocks[I.bl[1]];
        const Ins& L = f.f->ins[B.start];
        for (size_t k = 0; k < L.ops.size(); k++) {
            int64_t off;
            if (L.sc[k] == 0) { handler = true; break; }
            if (tiMatch(s, ei.ti, consts[~L.ops[k].i].c, off, s.curExc)) { handler = true; break; }
        }
    }
    if (!handler) {
        error(s, "exception", "uncaught exception of type " + llvm::demangle("_Z" + std::string("TS") + readStr(s, rd64(s, ei.ti + 8))).substr(17));
        throw PathEnd{};
    }
    for (;;) {
        if (s.st.empty()) throw PathEnd{};
        unshare(s);
        Frame& f = *s.st.back();
        const Ins& I = f.f->ins[f.pc];
        if (I.op == Instruction::Invoke) {
            Block& B = f.f->blocks[I.bl[1]];
            const Ins& L = f.f->ins[B.start];
            int64_t sel = -1;
            if (L.aux) sel = 0;
            for (size_t k = 0; k < L.ops.size(); k++) {
                int64_t off = 0;
                if (L.sc[k] == 0) { sel = -2; break; }
                uint64_t want = consts[~L.ops[k].i].c;
                if (tiMatch(s, ei.ti, want, off, s.curExc)) {
                    sel = 0;
                    if (want) sel = (int64_t)(((want >> SLOTSH) - SLOT0) + 1);
                    else sel = 0x7fffff;
                    ei.adjusted = s.curExc + off;
                    break;
                }
            }
            if (sel != -1) {
                s.curSel = sel;
                jump(s, f, I.bl[1]);
                return;
            }
        }
        for (uint32_t a : f.allocas) {
            Obj* o = findObj(s, ((SLOT0 + (uint64_t)a) << SLOTSH) + OBJOFF);
            if (o) freeObj(s, o);
        }
        s.st.pop_back();
        if (s.st.empty()) throw PathEnd{};
    }
}

void Executor::callIns(State& s, Frame& f, const Ins& I) {
    auto get = [&](const Opd& o) -> const Val& { return o.i >= 0 ? f.r[o.i] : consts[~o.i]; };
    if (I.aux == 99) throw EngineLimit{"inline assembly"};
    size_t n = I.ops.size();
    Func* callee = I.callee;
    if (!callee) {
        uint64_t fp = conc(s, get(I.ops[n - 1]));
        n--;
        if (fp < FUNCBASE || (fp & 15) || (fp - FUNCBASE) / 16 >= funcList.size()) {
            error(s, "memory", fp < 4096 ? "call through null function pointer" : "call through invalid function pointer");
            throw PathEnd{};
        }
        callee = funcList[(fp - FUNCBASE) / 16];
    }
    std::vector<Val> a;
    a.reserve(n);
    for (size_t i = 0; i < n; i++) a.push_back(get(I.ops[i]));
    Val out;
    if (I.aux == 1) {
        intrinsic(s, f, I, a, out);
    } else if (callee->defined) {
        std::vector<Val> va; std::vector<TD*> vt;
        if (callee->vararg && a.size() > callee->nargs) {
            auto* cb = llvm::cast<CallBase>(I.I);
            for (size_t i = callee->nargs; i < a.size(); i++) {
                va.push_back(a[i]);
                vt.push_back(td(cb->getArgOperand(i)->getType()));
                if (cb->isByValArgument(i)) throw EngineLimit{"byval vararg"};
            }
            a.resize(callee->nargs);
        }
        enter(s, callee, std::move(a), std::move(va), std::move(vt));
        return;
    } else {
        if (callee->builtin < 0) throw EngineLimit{"unmodelled external " + callee->name};
        callee->executed = true;
        if (!builtin(s, f, I, callee, a, out)) return;
    }
    if (I.dst >= 0) f.r[I.dst] = std::move(out);
    if (I.op == Instruction::Invoke) jump(s, f, I.bl[0]);
    else f.pc++;
}

void Executor::finishPath(State& s, bool end) {
    res.paths++;
    for (auto& c : s.covers) res.covers[c]++;
    if (end && res.samples.size() < opt.samples) {
        std::vector<std::pair<std::string, int64_t>> in;
        fillInputs(s, s.model, in);
        res.samples.push_back(in);
    }
}

void Executor::doAssert(State& s, E cond, const std::string& msg) {
    res.asserts++;
    res.asserted[msg]++;
    cond = simplifyTop(s, cond);
    if (cond->isConst()) {
        if (cond->c.isZero()) { error(s, "assert", msg); throw PathEnd{}; }
        return;
    }
    res.assertQueries++;
    std::shared_ptr<const Model> m;
    bool mv = !evalE(cond, *s.model).isZero();
    if (!mv) {
        error(s, "assert", msg, s.model);
        Sat r = feasible(s, cond, m);
        if (r != Sat::Yes) throw PathEnd{};
        s.model = m;
    } else {
        Sat r = feasible(s, mkNot(cond), m);
        if (r == Sat::Yes) error(s, "assert", msg, m);
        if (r == Sat::No) { s.eq[cond->id] = mkBool(true); return; }
    }
    addPC(s, cond);
}

void Executor::input(State& s, const std::string& n, E e, int64_t c) {
    InputRec r; r.name = n; r.e = e; r.conc = c;
    s.inputs.push_back(r);
}

void Executor::leakCheck(State& s, uint64_t mark, const std::string& what) {
    // reachability from globals, stack and older heap objects
    std::vector<Obj*> todo;
    std::unordered_set<uint32_t> seen;
    std::unordered_map<uint32_t, Obj*> live;
    for (size_t i = 0; i < baseObjs.size(); i++) {
        auto it = s.mem.find(i);
        Obj* o = it != s.mem.end() ? it->second.get() : baseObjs[i].get();
        if (o) live[o->slot] = o;
    }
    for (auto& kv : s.mem) if (kv.second) live[kv.second->slot] = kv.second.get();
    size_t cand = 0;
    for (auto& kv : live) {
        Obj* o = kv.second;
        if ((o->kind == OHeap || o->kind == OExc) && o->slot >= mark) { cand++; continue; }
        if (seen.insert(o->slot).second) todo.push_back(o);
    }
    if (!cand) return;
    while (!todo.empty()) {
        Obj* o = todo.back(); todo.pop_back();
        for (uint64_t i = 0; i + 8 <= o->size; i += 8) {
            uint64_t v;
            bool sym = false;
            if (!o->tag.empty()) { for (int k = 0; k < 8; k++) if (o->tag[i + k]) sym = true; }
            if (sym) continue;
            memcpy(&v, &o->d[i], 8);
            Obj* p = findObj(s, v);
            if (p && seen.insert(p->slot).second) todo.push_back(p);
        }
    }
    for (auto& kv : live) {
        Obj* o = kv.second;
        if ((o->kind == OHeap) && o->slot >= mark && !seen.count(o->slot)) {
            error(s, "leak", "memory leak: " + what);
            return;
        }
    }
}

// ------------------------------------------------------------------ main loop
void Executor::runState(State& s) {
    try {
        uint64_t tick = 0;
        while (!s.st.empty()) {
            unshare(s);
            Frame& f = *s.st.back();
            const Ins& I = f.f->ins[f.pc];
            auto get = [&](int k) -> const Val& { int32_t i = I.ops[k].i; return i >= 0 ? f.r[i] : consts[~i]; };
            s.instrs++;
            I.seen = true;
            res.instrs++;
            if (s.instrs > opt.maxInstr) { error(s, "hang", "path exceeds " + std::to_string(opt.maxInstr) + " instructions (non-termination?)"); throw PathEnd{}; }
            if ((++tick & 4095) == 0 && deadline > 0 && nowSec() > deadline) throw EngineLimit{"time budget"};
            switch (I.op) {
            case Instruction::Br:
                if (I.ops.empty()) { jump(s, f, I.bl[0]); break; }
                {
                    const Val& c = get(0);
                    if (!c.e) { jump(s, f, I.bl[c.c ? 0 : 1]); break; }
                    bool t = decide(s, c.e);
                    jump(s, f, I.bl[t ? 0 : 1]);
                }
                break;
            case Instruction::Switch: {
                const Val& c = get(0);
                if (!c.e) {
                    uint32_t to = I.bl[0];
                    for (size_t i = 0; i < I.sc.size(); i++) if ((uint64_t)I.sc[i] == c.c) { to = I.bl[i + 1]; break; }
                    jump(s, f, to);
                    break;
                }
                // group the cases by target
                uint32_t to = I.bl[0];
                std::map<uint32_t, E> conds;
                std::vector<uint32_t> order;
                E x = c.e;
                for (size_t i = 0; i < I.sc.size(); i++) {
                    E q = mkEq(x, mkConst(x->w, (uint64_t)I.sc[i]));
                    auto it = conds.find(I.bl[i + 1]);
                    if (it == conds.end()) { conds[I.bl[i + 1]] = q; order.push_back(I.bl[i + 1]); }
                    else it->second = mkOr(it->second, q);
                }
                bool done = false;
                for (uint32_t b : order) {
                    if (b == I.bl[0]) continue;
                    if (decide(s, conds[b])) { jump(s, f, b); done = true; break; }
                }
                if (!done) jump(s, f, to);
                break;
            }
            case Instruction::Ret: {
                Val v = I.ops.empty() ? Val() : get(0);
                doReturn(s, v);
                break;
            }
            case Instruction::Unreachable:
                error(s, "unreachable", "unreachable code executed");
                throw PathEnd{};
            case Instruction::Call: case Instruction::Invoke:
                callIns(s, f, I);
                break;
            case Instruction::Resume: {
                // pop this frame's position and continue unwinding in the caller
                for (uint32_t a : f.allocas) {
                    Obj* o = findObj(s, ((SLOT0 + (uint64_t)a) << SLOTSH) + OBJOFF);
                    if (o) freeObj(s, o);
                }
                Val ex = get(0);
                s.curExc = ex.a->v[0].c;
                s.st.pop_back();
                if (s.st.empty()) throw PathEnd{};
                unwind(s);
                break;
            }
            case Instruction::LandingPad: {
                std::vector<Val> v{Val(s.curExc), Val((uint64_t)s.curSel & 0xffffffffu)};
                f.r[I.dst] = mkAgg(std::move(v));
                f.pc++;
                break;
            }
            case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
            case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
            case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
                Val v = binop(s, I.op, get(0), get(1), I.ty);
                f.r[I.dst] = std::move(v);
                f.pc++;
                break;
            }
            case Instruction::FNeg: {
                auto neg = [&](const Val& v, unsigned w) { if (w == 80) throw EngineLimit{"long double"}; return mkV(mkFNeg(toE(v, w))); };
                const Val& a = get(0);
                if (I.ty->k == TD::Vec) {
                    std::vector<Val> r;
                    for (auto& x : a.a->v) r.push_back(neg(x, I.ty->el[0]->bits));
                    f.r[I.dst] = mkAgg(std::move(r));
                } else f.r[I.dst] = neg(a, I.ty->bits);
                f.pc++;
                break;
            }
            case Instruction::ICmp: f.r[I.dst] = cmp(s, false, I.aux, get(0), get(1), I.sty); f.pc++; break;
            case Instruction::FCmp: f.r[I.dst] = cmp(s, true, I.aux, get(0), get(1), I.sty); f.pc++; break;
            case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
            case Instruction::BitCast: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI:
            case Instruction::FPExt: case Instruction::FPTrunc:
                f.r[I.dst] = castV(s, I.op, get(0), I.sty, I.ty); f.pc++; break;
            case Instruction::Freeze: f.r[I.dst] = get(0); f.pc++; break;
            case Instruction::Select: {
                const Val& c = get(0);
                if (I.sty->k == TD::Vec) {
                    std::vector<Val> r;
                    unsigned w = I.ty->el[0]->bits;
                    for (size_t i = 0; i < c.a->v.size(); i++)
                        r.push_back(mkV(mkIte(toE(c.a->v[i], 1), toE(get(1).a->v[i], w), toE(get(2).a->v[i], w))));
                    f.r[I.dst] = mkAgg(std::move(r));
                } else if (!c.e) { Val v = get(c.c ? 1 : 2); f.r[I.dst] = std::move(v); }
                else if (!I.ty->scalar()) { bool t = decide(s, c.e); Val v = get(t ? 1 : 2); f.r[I.dst] = std::move(v); }
                else {
                    E cc = simplifyTop(s, c.e);
                    f.r[I.dst] = mkV(mkIte(cc, toE(get(1), I.ty->bits), toE(get(2), I.ty->bits)));
                }
                f.pc++;
                break;
            }
            case Instruction::GetElementPtr: {
                const Val& b = get(0);
                uint64_t off = (uint64_t)I.imm;
                E se = b.e;
                uint64_t bc = b.c;
                for (size_t i = 0; i < I.sc.size(); i++) {
                    const Val& x = get(i + 1);
                    unsigned w = I.bl[i];
                    if (!x.e) off += (uint64_t)(sxt(x.c, w) * I.sc[i]);
                    else {
                        E t = mkBin(Op::Mul, w == 64 ? x.e : mkSExt(x.e, 64), mkConst(64, (uint64_t)I.sc[i]));
                        se = se ? mkBin(Op::Add, se, t) : mkBin(Op::Add, t, mkConst(64, bc));
                    }
                }
                if (se) f.r[I.dst] = mkV(mkBin(Op::Add, se, mkConst(64, off)));
                else f.r[I.dst] = Val(bc + off);
                f.pc++;
                break;
            }
            case Instruction::Load: {
                const Val& p = get(0);
                Val v = p.e ? symLoad(s, p, I.ty) : loadT(s, p.c, I.ty);
                f.r[I.dst] = std::move(v);
                f.pc++;
                break;
            }
            case Instruction::Store: {
                uint64_t addr = concAddr(s, get(1), I.sty->store);
                storeT(s, addr, I.sty, get(0));
                f.pc++;
                break;
            }
            case Instruction::Alloca: {
                uint64_t n = conc(s, get(0));
                Obj* o = allocObj(s, n * I.imm, OStack, true);
                f.allocas.push_back(o->slot);
                f.r[I.dst] = Val(o->base);
                f.pc++;
                break;
            }
            case Instruction::ExtractValue: {
                const Val* v = &get(0);
                for (int64_t x : I.sc) v = &v->a->v[x];
                Val t = *v;
                f.r[I.dst] = std::move(t);
                f.pc++;
                break;
            }
            case Instruction::InsertValue: {
                Val v = get(0);
                Val nv = get(1);
                // path copy
                Val* cur = &v;
                for (int64_t x : I.sc) {
                    AggBox* nb = new AggBox();
                    nb->v = cur->a->v;
                    if (--cur->a->rc == 0) delete cur->a;
                    cur->a = nb;
                    cur = &nb->v[x];
                }
                *cur = nv;
                f.r[I.dst] = std::move(v);
                f.pc++;
                break;
            }
            case Instruction::ExtractElement: {
                uint64_t i = conc(s, get(1));
                Val t = get(0).a->v.at(i);
                f.r[I.dst] = std::move(t);
                f.pc++;
                break;
            }
            case Instruction::InsertElement: {
                uint64_t i = conc(s, get(2));
                Val v;
                v.a = new AggBox();
                v.a->v = get(0).a->v;
                v.a->v.at(i) = get(1);
                f.r[I.dst] = std::move(v);
                f.pc++;
                break;
            }
            case Instruction::ShuffleVector: {
                std::vector<Val> r;
                const auto& a = get(0).a->v; const auto& b = get(1).a->v;
                for (int64_t m : I.sc) r.push_back(m < 0 ? zeroVal(I.ty->el[0]) : (size_t)m < a.size() ? a[m] : b[m - a.size()]);
                f.r[I.dst] = mkAgg(std::move(r));
                f.pc++;
                break;
            }
            case Instruction::AtomicRMW: {
                uint64_t addr = conc(s, get(0));
                Val old = loadT(s, addr, I.ty);
                Val nv;
                switch (I.aux) {
                case AtomicRMWInst::Add: nv = binop(s, Instruction::Add, old, get(1), I.ty); break;
                case AtomicRMWInst::Sub: nv = binop(s, Instruction::Sub, old, get(1), I.ty); break;
                case AtomicRMWInst::And: nv = binop(s, Instruction::And, old, get(1), I.ty); break;
                case AtomicRMWInst::Or: nv = binop(s, Instruction::Or, old, get(1), I.ty); break;
                case AtomicRMWInst::Xchg: nv = get(1); break;
                default: throw EngineLimit{"atomicrmw"};
                }
                storeT(s, addr, I.ty, nv);
                f.r[I.dst] = old;
                f.pc++;
                break;
            }
            case Instruction::AtomicCmpXchg: {
                uint64_t addr = conc(s, get(0));
                TD* t = I.ty->el[0];
                Val old = loadT(s, addr, t);
                bool eq = conc(s, old) == conc(s, get(1));
                if (eq) storeT(s, addr, t, get(2));
                f.r[I.dst] = mkAgg({old, Val(eq)});
                f.pc++;
                break;
            }
            case Instruction::Fence: f.pc++; break;
            default:
                throw EngineLimit{std::string("instruction ") + I.I->getOpcodeName()};
            }
        }
        finishPath(s, true);
    } catch (PathFinished&) {
        finishPath(s, true);
    } catch (PathEnd&) {
        finishPath(s, false);
    } catch (EngineLimit& l) {
        res.incomplete++;
        std::string w = l.why;
        if (w != "time budget" && !s.st.empty()) {
            Frame& f = *s.st.back();
            if (f.pc < f.f->ins.size()) w += " at " + where(s, f.f->ins[f.pc].I);
        }
        res.incompleteWhy[w]++;
        if (getenv("LSYM_TRACE")) fprintf(stderr, "incomplete: %s\n%s", w.c_str(), stackTrace(s).c_str());
    }
}

#include "builtins.inc"

// ------------------------------------------------------------------ setup
Executor::Executor(Module* m, const Options& o) : solver(new Solver), opt(o), M(m), DL(&m->getDataLayout()) {
    solver->setLimits(o.rFast, o.rSlow);
    initBuiltins(builtinMap);
}
int Executor::builtinId(const std::string& n) {
    auto it = builtinMap.find(n);
    return it == builtinMap.end() ? -1 : it->second;
}
bool Executor::setup() {
    proto.reset(new State());
    State& s = *proto;
    s.model = std::make_shared<Model>();
    try {
        // address 0 slot is left unused
        s.nextSlot = 1;
        for (auto& g : M->globals()) {
            TD* t = td(g.getValueType());
            uint64_t size = t->size;
            if (g.isDeclaration()) {
                std::string n = g.getName().str();
                size = std::max<uint64_t>(size, 256);
                Obj* o = allocObj(s, size, OGlobal, false);
                o->site = strdup(n.c_str());
                gaddr[&g] = o->base;
                externGlobals.insert(n);
                if (n == "__libc_single_threaded") o->d[0] = 1;
                continue;
            }
            if (g.getName() == "llvm.global_ctors" || g.getName() == "llvm.used" || g.getName() == "llvm.compiler.used" || g.getName() == "llvm.global_dtors") continue;
            Obj* o = allocObj(s, size ? size : 1, OGlobal, false);
            o->site = strdup(g.getName().str().c_str());
            gaddr[&g] = o->base;
        }
        // a declared-only vtable of the C++ runtime starts its entries at +16
        for (auto& g : M->globals()) {
            if (!gaddr.count(&g) || !g.hasInitializer()) continue;
            uint64_t a = gaddr[&g];
            const Constant* c = g.getInitializer();
            if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) continue;
            if (auto* cs = dyn_cast<ConstantDataSequential>(c)) {
                StringRef raw = cs->getRawDataValues();
                memcpy(wrObj(s, a)->d.data(), raw.data(), raw.size());
                continue;
            }
            storeT(s, a, td(c->getType()), constVal(c));
        }
        for (auto& g : M->globals())
            if (gaddr.count(&g) && g.isConstant() && g.hasInitializer()) wrObj(s, gaddr[&g])->ro = true;
        // constructors
        std::vector<std::pair<uint64_t, Function*>> ct;
        if (auto* g = M->getNamedGlobal("llvm.global_ctors"))
            if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer()))
                for (unsigned i = 0; i < ca->getNumOperands(); i++) {
                    auto* cs = cast<ConstantStruct>(ca->getOperand(i));
                    if (auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
                        ct.emplace_back(cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn);
                }
        std::stable_sort(ct.begin(), ct.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (auto& c : ct) {
            enter(s, funcFor(c.second), {}, {}, {});
            size_t ne = res.errors.size(); uint64_t ni = res.incomplete;
            runState(s);
            if (res.errors.size() > ne || res.incomplete > ni || !s.st.empty()) {
                setupError = "constructor " + c.second->getName().str() + ": " + (res.errors.size() > ne ? res.errors.back().msg + "\n" + res.errors.back().stack : res.incompleteWhy.empty() ? "?" : res.incompleteWhy.begin()->first);
                return false;
            }
            s.instrs = 0;
        }
    } catch (EngineLimit& l) { setupError = l.why; return false; }
    catch (PathEnd&) { setupError = "error during initialisation: " + (res.errors.empty() ? "" : res.errors.back().msg); return false; }
    // freeze
    baseObjs.resize(s.nextSlot);
    for (auto& kv : s.mem) if (kv.first < baseObjs.size()) baseObjs[kv.first] = kv.second;
    s.mem.clear();
    res = Results();
    for (Func* f : funcList) { f->executed = false; f->nExec = 0; }
    return true;
}
StateP Executor::initial(const std::string& entry) {
    Function* f = M->getFunction(entry);
    if (!f || f->isDeclaration()) { setupError = "no entry " + entry; return nullptr; }
    StateP s(new State(*proto));
    s->instrs = 0;
    enter(*s, funcFor(f), {}, {}, {});
    return s;
}
void Executor::explore() {
    while (!work.empty()) {
        double now = nowSec();
        if (deadline > 0 && now > deadline) { res.pending += work.size(); work.clear(); return; }
        if (share && work.size() >= 2 && now - lastShare > 0.1) {
            lastShare = now;
            if (share()) lastShare = nowSec();
        }
        StateP s = std::move(work.back());
        work.pop_back();
        runState(*s);
        if (opt.maxErrors && res.errors.size() >= opt.maxErrors) { res.pending += work.size(); work.clear(); return; }
    }
}
void Executor::collectFunctions() {
    for (Func* f : funcList) {
        if (!f->executed || !f->defined) continue;
        auto* sp = f->f->getSubprogram();
        if (!sp) continue;
        std::string p = sp->getDirectory().str() + "/" + sp->getFilename().str();
        if (sp->getFilename().starts_with("/")) p = sp->getFilename().str();
        auto k = p.find("/lube/");
        if (k == std::string::npos) continue;
        res.functions.insert(p.substr(k + 1) + ": " + llvm::demangle(f->name));
    }
}
