#include "exec.h"
#include "executor.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/Demangle/Demangle.h>
#include <cmath>
#include <cstring>
#include <cassert>
#include <chrono>
#include <algorithm>

using namespace llvm;

static const uint64_t SLOT0 = 0x100000;            // first slot number: addresses from 0x10_0000_0000
static const unsigned SLOTSH = 16;
static const uint64_t FUNCBASE = 0x10000;
static const uint64_t OBJOFF = 0x1000;

double nowSec() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ------------------------------------------------------------------ types
TD* Executor::td(Type* t) {
    auto it = types.find(t);
    if (it != types.end()) return it->second;
    TD* d = new TD();
    types[t] = d;
    if (t->isIntegerTy()) { d->k = TD::Int; d->bits = t->getIntegerBitWidth(); }
    else if (t->isPointerTy()) { d->k = TD::Ptr; d->bits = 64; }
    else if (t->isFloatTy()) { d->k = TD::Float; d->bits = 32; }
    else if (t->isDoubleTy()) { d->k = TD::Float; d->bits = 64; }
    else if (t->isX86_FP80Ty()) { d->k = TD::Float; d->bits = 80; }
    else if (auto* st = dyn_cast<StructType>(t)) {
        d->k = TD::Struct;
        if (st->isOpaque()) return d;
        const StructLayout* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) { d->el.push_back(td(st->getElementType(i))); d->off.push_back(sl->getElementOffset(i)); }
        d->n = st->getNumElements();
    } else if (auto* at = dyn_cast<ArrayType>(t)) {
        d->k = TD::Array; d->n = at->getNumElements(); d->el.push_back(td(at->getElementType()));
    } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        d->k = TD::Vec; d->n = vt->getNumElements(); d->el.push_back(td(vt->getElementType()));
    } else { d->k = TD::Void; return d; }
    if (t->isSized()) { d->size = DL->getTypeAllocSize(t); d->store = DL->getTypeStoreSize(t); }
    return d;
}

static Val mkV(E e) {
    Val v;
    if (e->isConst() && e->w <= 64) v.c = e->c.getZExtValue();
    else v.e = e;
    return v;
}
static Val mkAgg(std::vector<Val> vs) { Val v; v.a = new AggBox(); v.a->v = std::move(vs); return v; }
static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(w, v.c); }
static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sxt(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

Val Executor::zeroVal(TD* t) {
    if (t->scalar()) { if (t->bits > 64) { Val v; v.e = mkConst(t->bits, 0); return v; } return Val(0); }
    if (t->k == TD::Void) return Val();
    std::vector<Val> v;
    for (uint64_t i = 0; i < t->n; i++) v.push_back(zeroVal(t->k == TD::Struct ? t->el[i] : t->el[0]));
    return mkAgg(std::move(v));
}

Val Executor::constVal(const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() <= 64) return Val(ci->getZExtValue());
        Val v; v.e = mkConst(ci->getValue()); return v;
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
        APInt b = cf->getValueAPF().bitcastToAPInt();
        if (b.getBitWidth() <= 64) return Val(b.getZExtValue());
        Val v; v.e = mkConst(b); return v;
    }
    if (isa<ConstantPointerNull>(c)) return Val(0);
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroVal(td(c->getType()));
    if (auto* f = dyn_cast<Function>(c)) return Val(funcFor(f)->addr);
    if (auto* g = dyn_cast<GlobalVariable>(c)) {
        auto it = gaddr.find(g);
        if (it == gaddr.end()) throw EngineLimit{"global without address: " + g->getName().str()};
        return Val(it->second);
    }
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
    if (auto* cs = dyn_cast<ConstantDataSequential>(c)) {
        std::vector<Val> v;
        for (unsigned i = 0; i < cs->getNumElements(); i++) v.push_back(constVal(cs->getElementAsConstant(i)));
        return mkAgg(std::move(v));
    }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
        std::vector<Val> v;
        for (unsigned i = 0; i < ca->getNumOperands(); i++) v.push_back(constVal(ca->getOperand(i)));
        return mkAgg(std::move(v));
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw EngineLimit{"gep constexpr"};
            return Val(constVal(ce->getOperand(0)).c + off.getSExtValue());
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
            Val v = constVal(ce->getOperand(0));
            TD* t = td(ce->getType());
            if (t->bits < 64) v.c &= maskw(t->bits);
            return v;
        }
        case Instruction::Trunc: { Val v = constVal(ce->getOperand(0)); v.c &= maskw(td(ce->getType())->bits); return v; }
        case Instruction::Sub: return Val((constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c) & maskw(td(ce->getType())->bits));
        case Instruction::Add: return Val((constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c) & maskw(td(ce->getType())->bits));
        case Instruction::ICmp: {
            uint64_t a = constVal(ce->getOperand(0)).c, b = constVal(ce->getOperand(1)).c;
            switch (ce->getPredicate()) {
            case CmpInst::ICMP_EQ: return Val(a == b);
            case CmpInst::ICMP_NE: return Val(a != b);
            case CmpInst::ICMP_ULT: return Val(a < b);
            case CmpInst::ICMP_UGT: return Val(a > b);
            default: break;
            }
            break;
        }
        default: break;
        }
    }
    std::string s; raw_string_ostream os(s); c->print(os);
    throw EngineLimit{"constant " + os.str().substr(0, 200)};
}

// ------------------------------------------------------------------ functions
Func* Executor::funcFor(const Function* f) {
    auto it = funcs.find(f);
    if (it != funcs.end()) return it->second;
    Func* F = new Func();
    funcs[f] = F;
    F->f = const_cast<Function*>(f);
    F->name = f->getName().str();
    F->addr = FUNCBASE + 16 * (uint64_t)funcList.size();
    funcList.push_back(F);
    F->defined = !f->isDeclaration();
    F->vararg = f->isVarArg();
    F->nargs = f->arg_size();
    if (!F->defined) F->builtin = builtinId(F->name);
    for (auto& a : f->args()) {
        F->argTy.push_back(td(a.getType()));
        F->byval.push_back(a.hasByValAttr() ? (uint64_t)DL->getTypeAllocSize(a.getParamByValType()) : 0);
    }
    return F;
}

int32_t Executor::constIdx(const Constant* c) {
    auto it = constMap.find(c);
    if (it != constMap.end()) return it->second;
    Val v = constVal(c);
    consts.push_back(v);
    int32_t i = ~(int32_t)(consts.size() - 1);
    constMap[c] = i;
    return i;
}

void Executor::decode(Func* F) {
    F->decoded = true;
    Function* f = F->f;
    std::unordered_map<const Value*, int32_t> slot;
    int32_t n = 0;
    for (auto& a : f->args()) slot[&a] = n++;
    std::unordered_map<const BasicBlock*, uint32_t> bid;
    for (auto& b : *f) {
        uint32_t id = bid.size();
        bid[&b] = id;
        for (auto& i : b) if (!i.getType()->isVoidTy()) slot[&i] = n++;
    }
    F->nregs = n;
    F->blocks.resize(bid.size());
    auto opd = [&](const Value* v) -> Opd {
        if (auto* c = dyn_cast<Constant>(v)) return Opd{constIdx(c)};
        auto it = slot.find(v);
        if (it == slot.end()) { return Opd{constIdx(ConstantInt::get(Type::getInt32Ty(f->getContext()), 0))}; } // metadata
        return Opd{it->second};
    };
    for (auto& b : *f) {
        Block& B = F->blocks[bid[&b]];
        B.start = F->ins.size();
        for (auto& i : b) {
            if (auto* p = dyn_cast<PHINode>(&i)) {
                for (unsigned k = 0; k < p->getNumIncomingValues(); k++) {
                    auto& mv = B.phis[bid[p->getIncomingBlock(k)]];
                    bool dup = false; // the same predecessor may be listed twice (switch)
                    for (auto& m : mv) if (m.dst == slot[p]) dup = true;
                    if (!dup) mv.push_back({slot[p], opd(p->getIncomingValue(k))});
                }
                continue;
            }
            if (isa<DbgInfoIntrinsic>(&i)) continue;
            if (auto* ii = dyn_cast<IntrinsicInst>(&i)) {
                switch (ii->getIntrinsicID()) {
                case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
                case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_start:
                case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::vaend: case Intrinsic::stackrestore:
                    continue;
                default: break;
                }
            }
            Ins I;
            I.I = &i;
            I.op = i.getOpcode();
            I.ty = td(i.getType());
            if (!i.getType()->isVoidTy()) I.dst = slot[&i];
            if (i.getNumOperands()) I.sty = td(i.getOperand(0)->getType()->isSized() ? i.getOperand(0)->getType() : Type::getInt8Ty(f->getContext()));
            switch (i.getOpcode()) {
            case Instruction::GetElementPtr: {
                auto* g = cast<GetElementPtrInst>(&i);
                if (g->getType()->isVectorTy()) throw EngineLimit{"vector gep"};
                I.ops.push_back(opd(g->getPointerOperand()));
                int64_t off = 0;
                for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                    Value* ix = it.getOperand();
                    if (StructType* st = it.getStructTypeOrNull())
                        off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                    else {
                        int64_t sz = DL->getTypeAllocSize(it.getIndexedType());
                        if (auto* ci = dyn_cast<ConstantInt>(ix)) off += sz * ci->getSExtValue();
                        else { I.ops.push_back(opd(ix)); I.sc.push_back(sz); I.bl.push_back(ix->getType()->getIntegerBitWidth()); }
                    }
                }
                I.imm = off;
                break;
            }
            case Instruction::Br: {
                auto* br = cast<BranchInst>(&i);
                if (br->isConditional()) I.ops.push_back(opd(br->getCondition()));
                for (unsigned k = 0; k < br->getNumSuccessors(); k++) I.bl.push_back(bid[br->getSuccessor(k)]);
                break;
            }
            case Instruction::Switch: {
                auto* sw = cast<SwitchInst>(&i);
                I.ops.push_back(opd(sw->getCondition()));
                I.bl.push_back(bid[sw->getDefaultDest()]);
                for (auto& c : sw->cases()) { I.sc.push_back((int64_t)c.getCaseValue()->getZExtValue()); I.bl.push_back(bid[c.getCaseSuccessor()]); }
                break;
            }
            case Instruction::Call: case Instruction::Invoke: {
                auto* cb = cast<CallBase>(&i);
                if (cb->isInlineAsm()) I.callee = nullptr, I.aux = 99;
                else if (auto* cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) {
                    I.callee = funcFor(cf);
                    if (I.callee->defined == false && cf->isIntrinsic()) I.aux = 1;
                } else if (auto* al = dyn_cast<GlobalAlias>(cb->getCalledOperand())) {
                    I.callee = funcFor(cast<Function>(al->getAliasee()->stripPointerCasts()));
                }
                for (auto& a : cb->args()) {
                    if (isa<MetadataAsValue>(a.get())) continue;
                    I.ops.push_back(opd(a.get()));
                }
                if (!I.callee) I.ops.push_back(opd(cb->getCalledOperand()));
                if (auto* iv = dyn_cast<InvokeInst>(cb)) { I.bl.push_back(bid[iv->getNormalDest()]); I.bl.push_back(bid[iv->getUnwindDest()]); }
                break;
            }
            case Instruction::ICmp: case Instruction::FCmp:
                I.aux = cast<CmpInst>(&i)->getPredicate();
                for (auto& o : i.operands()) I.ops.push_back(opd(o.get()));
                break;
            case Instruction::Alloca: {
                auto* al = cast<AllocaInst>(&i);
                I.ops.push_back(opd(al->getArraySize()));
                I.imm = DL->getTypeAllocSize(al->getAllocatedType());
                I.aux = al->getAlign().value();
                break;
            }
            case Instruction::ExtractValue:
                I.ops.push_back(opd(i.getOperand(0)));
                for (unsigned x : cast<ExtractValueInst>(&i)->indices()) I.sc.push_back(x);
                break;
            case Instruction::InsertValue:
                I.ops.push_back(opd(i.getOperand(0))); I.ops.push_back(opd(i.getOperand(1)));
                for (unsigned x : cast<InsertValueInst>(&i)->indices()) I.sc.push_back(x);
                break;
            case Instruction::ShuffleVector: {
                auto* sv = cast<ShuffleVectorInst>(&i);
                I.ops.push_back(opd(i.getOperand(0))); I.ops.push_back(opd(i.getOperand(1)));
                for (int x : sv->getShuffleMask()) I.sc.push_back(x);
                break;
            }
            case Instruction::LandingPad: {
                auto* lp = cast<LandingPadInst>(&i);
                I.aux = lp->isCleanup();
                for (unsigned k = 0; k < lp->getNumClauses(); k++) {
                    I.sc.push_back(lp->isCatch(k) ? 1 : 0);
                    if (lp->isCatch(k)) I.ops.push_back(opd(lp->getClause(k)));
                    else I.ops.push_back(Opd{constIdx(ConstantInt::get(Type::getInt32Ty(f->getContext()), 0))});
                }
                break;
            }
            case Instruction::AtomicRMW:
                I.aux = cast<AtomicRMWInst>(&i)->getOperation();
                for (auto& o : i.operands()) I.ops.push_back(opd(o.get()));
                break;
            default:
                for (auto& o : i.operands()) {
                    if (isa<BasicBlock>(o.get()) || isa<MetadataAsValue>(o.get())) continue;
                    I.ops.push_back(opd(o.get()));
                }
            }
            F->ins.push_back(std::move(I));
        }
    }
}

// ------------------------------------------------------------------ memory
Obj* Executor::findObj(State& s, uint64_t addr) {
    uint64_t sl = (addr >> SLOTSH);
    if (sl < SLOT0) return nullptr;
    uint32_t slot = (uint32_t)(sl - SLOT0);
    if (slot < baseObjs.size()) {
        auto it = s.mem.find(slot);
        if (it != s.mem.end()) return it->second.get();
        return baseObjs[slot].get();
    }
    auto it = s.mem.find(slot);
    return it == s.mem.end() ? nullptr : it->second.get();
}
Obj* Executor::wrObj(State& s, uint64_t addr) {
    uint64_t sl = (addr >> SLOTSH);
    if (sl < SLOT0) return nullptr;
    uint32_t slot = (uint32_t)(sl - SLOT0);
    auto it = s.mem.find(slot);
    if (it != s.mem.end()) {
        ObjRef& r = it->second;
        if (!r) return nullptr;
        uint32_t ns = 1 + (uint32_t)((OBJOFF + r->size) >> SLOTSH);
        long own = ns;
        if (r.use_count() > own) {
            auto c = std::make_shared<Obj>(*r);
            uint32_t s0 = r->slot;
            for (uint32_t k = 0; k < ns; k++) s.mem[s0 + k] = c;
            return c.get();
        }
        return r.get();
    }
    if (slot < baseObjs.size() && baseObjs[slot]) {
        ObjRef r = baseObjs[slot];
        auto c = std::make_shared<Obj>(*r);
        uint32_t ns = 1 + (uint32_t)((OBJOFF + r->size) >> SLOTSH);
        for (uint32_t k = 0; k < ns; k++) s.mem[r->slot + k] = c;
        return c.get();
    }
    return nullptr;
}
Obj* Executor::allocObj(State& s, uint64_t size, ObjKind kind, bool uninit, uint64_t align) {
    auto o = std::make_shared<Obj>();
    o->slot = s.nextSlot;
    o->base = ((SLOT0 + o->slot) << SLOTSH) + OBJOFF;
    (void)align;
    o->size = size;
    o->kind = kind;
    o->d.assign(size, 0);
    if (uninit) o->tag.assign(size, 2);
    uint32_t ns = 1 + (uint32_t)((OBJOFF + size) >> SLOTSH);
    for (uint32_t k = 0; k < ns; k++) s.mem[s.nextSlot + k] = o;
    s.nextSlot += ns;
    return o.get();
}
void Executor::freeObj(State& s, Obj* o) {
    uint32_t ns = 1 + (uint32_t)((OBJOFF + o->size) >> SLOTSH);
    uint32_t s0 = o->slot;
    for (uint32_t k = 0; k < ns; k++) {
        if (s0 + k < baseObjs.size()) s.mem[s0 + k] = nullptr;
        else s.mem.erase(s0 + k);
    }
}

static bool inb(const Obj* o, uint64_t addr, uint64_t n) {
    return o && addr >= o->base && n <= o->size && addr - o->base <= o->size - n;
}

void Executor::memError(State& s, uint64_t addr, uint64_t n, const char* what) {
    Obj* o = findObj(s, addr);
    std::string m = what;
    if (addr < 0x10000) m += ": null pointer dereference";
    else if (!o) {
        uint64_t sl = addr >> SLOTSH;
        m += (sl >= SLOT0 && sl - SLOT0 < s.nextSlot) ? ": use after free" : ": wild pointer";
    } else m += ": out of bounds of " + std::to_string(o->size) + " byte " + (o->kind == OHeap ? "heap" : o->kind == OStack ? "stack" : "global") + " object at offset " + std::to_string((int64_t)(addr - o->base));
    error(s, "memory", m + " (" + std::to_string(n) + " bytes)");
    throw PathEnd{};
}

Val Executor::loadObj(State& s, Obj*& o, uint64_t off, unsigned bits) {
    unsigned nb = (bits + 7) / 8;
    bool conc = true;
    if (!o->tag.empty())
        for (unsigned i = 0; i < nb; i++) if (o->tag[off + i]) { conc = false; break; }
    if (conc) {
        if (nb <= 8) {
            uint64_t v = 0;
            memcpy(&v, &o->d[off], nb);
            return Val(v & maskw(bits));
        }
        APInt a(nb * 8, 0);
        for (unsigned i = 0; i < nb; i++) a.insertBits(o->d[off + i], i * 8, 8);
        Val v; v.e = mkConst(a.trunc(bits)); return v;
    }
    for (unsigned i = 0; i < nb; i++)
        if (o->tag[off + i] == 2) {
            uint64_t addr = o->base + off;
            Obj* w = wrObj(s, addr);
            o = w;
            // uninitialised bytes: arbitrary values
            if (w->s.empty()) w->s.resize(w->size);
            for (unsigned k = 0; k < nb; k++)
                if (w->tag[off + k] == 2) {
                    w->tag[off + k] = 1;
                    w->s[off + k] = SymByte{namedVar("uninit" + std::to_string(s.uninitCtr++), 8), 0};
                }
            break;
        }
    SymByte b0 = o->s.empty() ? SymByte() : o->s[off];
    if (o->tag[off] == 1 && b0.k == 0 && b0.e->w >= bits && (b0.e->w + 7) / 8 == nb) {
        bool whole = true;
        for (unsigned i = 1; i < nb && whole; i++) whole = o->tag[off + i] == 1 && o->s[off + i].e == b0.e && o->s[off + i].k == i;
        if (whole) return subst(s, b0.e->w == bits ? b0.e : mkExtract(b0.e, 0, bits));
    }
    E r = nullptr;
    for (unsigned i = 0; i < nb;) {
        E p;
        if (o->tag[off + i] == 0) {
            unsigned j = i;
            APInt a(8, o->d[off + i]);
            for (j = i + 1; j < nb && o->tag[off + j] == 0; j++) a = APInt(8, o->d[off + j]).concat(a);
            p = mkConst(a);
            i = j;
        } else {
            SymByte b = o->s[off + i];
            unsigned j = i + 1;
            while (j < nb && o->tag[off + j] == 1 && o->s[off + j].e == b.e && o->s[off + j].k == b.k + (j - i)) j++;
            unsigned lo = b.k * 8, w = (j - i) * 8;
            E x = b.e;
            if (lo + w > x->w) x = mkZExt(x, lo + w);
            p = mkExtract(x, lo, w);
            i = j;
        }
        r = r ? mkConcat(p, r) : p;
    }
    if (r->w != bits) r = mkExtract(r, 0, bits);
    return subst(s, r);
}
void Executor::storeObj(Obj* o, uint64_t off, const Val& v, unsigned bits) {
    unsigned nb = (bits + 7) / 8;
    E e = v.e;
    if (e && e->isConst() && e->w <= 64) { Val t; t.c = e->u64(); return storeObj(o, off, t, bits); }
    if (!e) {
        memcpy(&o->d[off], &v.c, nb <= 8 ? nb : 8);
        if (!o->tag.empty()) memset(&o->tag[off], 0, nb);
        return;
    }
    if (e->isConst()) {
        for (unsigned i = 0; i < nb; i++) o->d[off + i] = (uint8_t)e->c.zextOrTrunc(nb * 8).extractBitsAsZExtValue(8, i * 8);
        if (!o->tag.empty()) memset(&o->tag[off], 0, nb);
        return;
    }
    if (e->w % 8) e = mkZExt(e, nb * 8);
    if (o->tag.empty()) o->tag.assign(o->size, 0);
    if (o->s.empty()) o->s.resize(o->size);
    for (unsigned i = 0; i < nb; i++) { o->tag[off + i] = 1; o->s[off + i] = SymByte{e, i}; }
}
Val Executor::subst(State& s, E e) {
    if (e->isConst()) return mkV(e);
    auto it = s.eq.find(e->id);
    if (it != s.eq.end()) return mkV(it->second);
    return mkV(e);
}

Val Executor::loadT(State& s, uint64_t addr, TD* t) {
    if (t->scalar()) {
        Obj* o = findObj(s, addr);
        uint64_t nb = (t->bits + 7) / 8;
        if (!inb(o, addr, nb)) memError(s, addr, nb, "load");
        return loadObj(s, o, addr - o->base, t->bits);
    }
    std::vector<Val> v;
    for (uint64_t i = 0; i < t->n; i++) {
        TD* et = t->k == TD::Struct ? t->el[i] : t->el[0];
        uint64_t off = t->k == TD::Struct ? t->off[i] : t->k == TD::Vec ? i * (et->bits / 8) : i * et->size;
        v.push_back(loadT(s, addr + off, et));
    }
    return mkAgg(std::move(v));
}
void Executor::storeT(State& s, uint64_t addr, TD* t, const Val& v) {
    if (t->scalar()) {
        uint64_t nb = (t->bits + 7) / 8;
        Obj* q = findObj(s, addr);
        if (!inb(q, addr, nb)) memError(s, addr, nb, "store");
        if (q->ro) { error(s, "memory", "store to read-only memory"); throw PathEnd{}; }
        Obj* o = wrObj(s, addr);
        storeObj(o, addr - o->base, v, t->bits);
        return;
    }
    for (uint64_t i = 0; i < t->n; i++) {
        TD* et = t->k == TD::Struct ? t->el[i] : t->el[0];
        uint64_t off = t->k == TD::Struct ? t->off[i] : t->k == TD::Vec ? i * (et->bits / 8) : i * et->size;
        storeT(s, addr + off, et, v.a->v[i]);
    }
}
void Executor::copyMem(State& s, uint64_t dst, uint64_t src, uint64_t n, bool move) {
    if (n == 0) return;
    Obj* a = findObj(s, src);
    if (!inb(a, src, n)) memError(s, src, n, "memcpy source");
    Obj* q = findObj(s, dst);
    if (!inb(q, dst, n)) memError(s, dst, n, "memcpy destination");
    if (q->ro) { error(s, "memory", "memcpy to read-only memory"); throw PathEnd{}; }
    if (!move && a == q && src != dst && src < dst + n && dst < src + n) {
        error(s, "memory", "memcpy with overlapping ranges"); throw PathEnd{};
    }
    Obj* b = wrObj(s, dst);
    a = findObj(s, src);
    uint64_t so = src - a->base, d0 = dst - b->base;
    memmove(&b->d[d0], &a->d[so], n);
    if (!a->tag.empty() || !b->tag.empty()) {
        if (b->tag.empty()) b->tag.assign(b->size, 0);
        if (a->tag.empty()) memset(&b->tag[d0], 0, n);
        else memmove(&b->tag[d0], &a->tag[so], n);
        if (!a->s.empty()) {
            if (b->s.empty()) b->s.resize(b->size);
            memmove((void*)&b->s[d0], (void*)&a->s[so], n * sizeof(SymByte));
        }
    }
}
void Executor::setMem(State& s, uint64_t dst, const Val& v, uint64_t n) {
    if (n == 0) return;
    Obj* q = findObj(s, dst);
    if (!inb(q, dst, n)) memError(s, dst, n, "memset");
    Obj* b = wrObj(s, dst);
    uint64_t d0 = dst - b->base;
    if (!v.e) {
        memset(&b->d[d0], (int)v.c, n);
        if (!b->tag.empty()) memset(&b->tag[d0], 0, n);
    } else
        for (uint64_t i = 0; i < n; i++) storeObj(b, d0 + i, v, 8);
}
std::string Executor::readStr(State& s, uint64_t addr) {
    std::string r;
    for (;;) {
        Obj* o = findObj(s, addr);
        if (!inb(o, addr, 1)) break;
        Val v = loadObj(s, o, addr - o->base, 8);
        if (v.e) { r += '?'; addr++; continue; }
        if (!v.c) break;
        r += (char)v.c; addr++;
        if (r.size() > 400) break;
    }
    return r;
}

// ------------------------------------------------------------------ symbolic values
E Executor::namedVar(const std::string& n, unsigned w) {
    auto k = n + "/" + std::to_string(w);
    auto it = vars.find(k);
    if (it != vars.end()) return it->second;
    return vars[k] = mkVar(n, w);
}
E Executor::rangedVar(const std::string& n, unsigned w, int64_t lo, int64_t hi) {
    auto k = n + "/" + std::to_string(w) + "/" + std::to_string(lo) + "/" + std::to_string(hi);
    auto it = vars.find(k);
    if (it != vars.end()) return it->second;
    return vars[k] = mkVarRanged(n, w, lo, hi);
}
void Executor::addPC(State& s, E c) {
    if (c->isConst()) return;
    if (c->op == Op::And && c->w == 1) { addPC(s, c->ch[0]); addPC(s, c->ch[1]); return; }
    for (E x : s.pc) if (x == c) return;
    s.pc.push_back(c);
    if (c->op == Op::Eq && c->ch[1]->isConst()) s.eq[c->ch[0]->id] = c->ch[1];
    else if (c->op == Op::Eq && c->ch[0]->isConst()) s.eq[c->ch[1]->id] = c->ch[0];
    if (c->op == Op::Xor && c->ch[1]->isConst()) s.eq[c->ch[0]->id] = mkBool(false);
    else s.eq[c->id] = mkBool(true);
}
// substitute known equalities at the top of a condition
static E simplifyTop(State& s, E c, int depth = 3) {
    if (c->isConst()) return c;
    auto it = s.eq.find(c->id);
    if (it != s.eq.end()) return it->second;
    if (depth == 0) return c;
    if (c->op == Op::Eq || c->op == Op::Ult || c->op == Op::Ule || c->op == Op::Slt || c->op == Op::Sle ||
        (c->w == 1 && (c->op == Op::And || c->op == Op::Or || c->op == Op::Xor))) {
        E a = simplifyTop(s, c->ch[0], depth - 1), b = simplifyTop(s, c->ch[1], depth - 1);
        if (a != c->ch[0] || b != c->ch[1]) return mkBin(c->op, a, b);
    } else if ((c->op == Op::ZExt || c->op == Op::SExt) && !c->ch[0]->isConst()) {
        E a = simplifyTop(s, c->ch[0], depth - 1);
        if (a != c->ch[0]) return c->op == Op::ZExt ? mkZExt(a, c->w) : mkSExt(a, c->w);
    }
    return c;
}
Sat Executor::feasible(State& s, E c, std::shared_ptr<const Model>& m) {
    c = simplifyTop(s, c);
    Sat r = solver->check(s.pc, c, s.model, m);
    if (r == Sat::Unknown) { res.incompleteWhy["solver gave no answer"]++; res.incomplete++; }
    return r;
}
StateP Executor::cloneState(State& s) {
    StateP n(new State(s));
    n->st.back() = std::make_shared<Frame>(*s.st.back());
    n->depth++;
    res.forks++;
    return n;
}
// Decide a condition on this path; when both outcomes are possible, push a state for the false side.
// The pushed state re-executes the current instruction.
bool Executor::decide(State& s, E c) {
    c = simplifyTop(s, c);
    if (c->isConst()) return !c->c.isZero();
    std::shared_ptr<const Model> m;
    bool mv = !evalE(c, *s.model).isZero();
    E other = mv ? mkNot(c) : c;
    Sat r = feasible(s, other, m);
    if (r == Sat::Yes) {
        StateP n = cloneState(s);
        n->model = m;
        addPC(*n, other);
        push(std::move(n));
    }
    addPC(s, mv ? c : mkNot(c));
    return mv;
}
uint64_t Executor::concretize(State& s, E e) {
    if (e->isConst()) return e->u64();
    auto it = s.eq.find(e->id);
    if (it != s.eq.end()) return it->second->u64();
    APInt v = evalE(e, *s.model);
    E c = mkEq(e, mkConst(v));
    std::shared_ptr<const Model> m;
    Sat r = feasible(s, mkNot(c), m);
    if (r == Sat::Yes) {
        StateP n = cloneState(s);
        n->model = m;
        addPC(*n, mkNot(c));
        push(std::move(n));
    }
    addPC(s, c);
    return v.getZExtValue();
}
uint64_t Executor::conc(State& s, const Val& v) { return v.e ? concretize(s, v.e) : v.c; }

uint64_t Executor::concAddr(State& s, const Val& v, uint64_t n) {
    if (!v.e) return v.c;
    if (v.e->isConst()) return v.e->u64();
    uint64_t a0 = evalE(v.e, *s.model).getZExtValue();
    Obj* o = findObj(s, a0);
    if (!inb(o, a0, n)) {
        // the model itself is a counterexample
        addPC(s, mkEq(v.e, mkConst(64, a0)));
        return a0;
    }
    E in = mkBin(Op::Ule, mkBin(Op::Sub, v.e, mkConst(64, o->base)), mkConst(64, o->size - n));
    decide(s, in);
    return concretize(s, v.e);
}
Val Executor::symLoad(State& s, const Val& addr, TD* t) {
    uint64_t nb = t->scalar() ? (t->bits + 7) / 8 : t->store;
    if (!addr.e) return loadT(s, addr.c, t);
    uint64_t a0 = evalE(addr.e, *s.model).getZExtValue();
    Obj* o = findObj(s, a0);
    if (t->scalar() && inb(o, a0, nb)) {
        E in = mkBin(Op::Ule, mkBin(Op::Sub, addr.e, mkConst(64, o->base)), mkConst(64, o->size - nb));
        std::shared_ptr<const Model> m;
        E out = simplifyTop(s, mkNot(in));
        if (!out->isConst() || !out->c.isZero()) {
            Sat r = feasible(s, out, m);
            if (r == Sat::Yes) {
                StateP n = cloneState(s);
                n->model = m;
                addPC(*n, out);
                push(std::move(n));
                addPC(s, in);
            }
        }
        // a table of constants: runs of equal values, or the index plus a constant
        E off = mkBin(Op::Sub, addr.e, mkConst(64, o->base)), x = off;
        uint64_t sz = 1;
        while (x->op == Op::Concat && x->ch[1]->isConst() && x->ch[1]->c.isZero() && sz < nb) { sz = uint64_t(1) << x->ch[1]->w; x = x->ch[0]; }
        int64_t lo, hi;
        if (sz == nb && srange(x, lo, hi) && lo >= 0 && hi - lo < 1024 && uint64_t(hi) * nb + nb <= o->size) {
            std::vector<APInt> tab; bool cst = true;
            for (int64_t i = lo; i <= hi && cst; i++) {
                E v = toE(loadT(s, o->base + uint64_t(i) * nb, t), t->bits);
                if (v->isConst()) tab.push_back(v->c); else cst = false;
            }
            if (cst) {
                bool aff = t->bits <= 64; size_t runs = 1;
                for (size_t i = 1; i < tab.size(); i++) { if (tab[i] != tab[0] + i) aff = false; if (tab[i] != tab[i - 1]) runs++; }
                if (aff) {
                    E r = x->w >= t->bits ? mkExtract(x, 0, t->bits) : mkZExt(x, t->bits);
                    return mkV(mkBin(Op::Add, r, mkConst(tab[0] - APInt(64, lo).zextOrTrunc(t->bits))));
                }
                if (runs <= 40) {
                    E r = mkConst(tab.back());
                    for (size_t i = tab.size() - 1; i-- > 0;)
                        if (tab[i] != tab[i + 1]) r = mkIte(mkBin(Op::Ule, x, mkConst(x->w, uint64_t(lo) + i)), mkConst(tab[i]), r);
                    return mkV(r);
                }
            }
        }
        // enumerate values, merge into an ite when few
        std::vector<uint64_t> vals{a0};
        E not0 = mkNe(addr.e, mkConst(64, a0));
        E rest = not0;
        bool many = false;
        std::shared_ptr<const Model> cur = s.model;
        std::vector<E> pc = s.pc;
        for (;;) {
            std::shared_ptr<const Model> m2;
            Sat r = solver->check(pc, rest, nullptr, m2);
            if (r == Sat::No) break;
            if (r == Sat::Unknown || vals.size() >= 40) { many = true; break; }
            uint64_t v = evalE(addr.e, *m2).getZExtValue();
            vals.push_back(v);
            rest = mkAnd(rest, mkNe(addr.e, mkConst(64, v)));
        }
        if (!many) {
            std::sort(vals.begin(), vals.end());
            Val v0 = loadT(s, vals[0], t);
            E r = toE(v0, t->bits);
            for (size_t i = 1; i < vals.size(); i++) {
                Val v = loadT(s, vals[i], t);
                r = mkIte(mkEq(addr.e, mkConst(64, vals[i])), toE(v, t->bits), r);
            }
            return mkV(r);
        }
    }
    return loadT(s, concAddr(s, addr, nb), t);
}

// ------------------------------------------------------------------ errors
std::string Executor::where(State& s, const llvm::Instruction* I) {
    const DebugLoc& dl = I ? I->getDebugLoc() : DebugLoc();
    std::string r;
    DILocation* L = dl ? dl.get() : nullptr;
    if (!L) return "?";
    for (int k = 0; L && k < 6; k++, L = L->getInlinedAt()) {
        std::string fn = L->getFilename().str();
        auto p = fn.rfind('/');
        if (p != std::string::npos) fn = fn.substr(p + 1);
        auto* sp = L->getScope()->getSubprogram();
        if (!r.empty()) r += " < ";
        r += fn + ":" + std::to_string(L->getLine()) + (sp ? " (" + sp->getName().str() + ")" : "");
    }
    return r;
}
std::string Executor::stackTrace(State& s) {
    std::string r;
    int k = 0;
    for (auto it = s.st.rbegin(); it != s.st.rend() && k < 14; ++it, ++k) {
        Frame& f = **it;
        r += "  " + llvm::demangle(f.f->name).substr(0, 100) + " at " + (f.pc < f.f->ins.size() ? where(s, f.f->ins[f.pc].I) : "?") + "\n";
    }
    return r;
}
std::string Executor::repoSite(State& s) {
    for (auto it = s.st.rbegin(); it != s.st.rend(); ++it) {
        Frame& f = **it;
        if (f.pc >= f.f->ins.size()) continue;
        const DebugLoc& dl = f.f->ins[f.pc].I->getDebugLoc();
        for (DILocation* L = dl ? dl.get() : nullptr; L; L = L->getInlinedAt()) {
            std::string dir = L->getDirectory().str(), fn = L->getFilename().str();
            if ((dir + "/" + fn).find("/lube/") != std::string::npos) {
                auto p = fn.rfind('/');
                return fn.substr(p == std::string::npos ? 0 : p + 1) + ":" + std::to_string(L->getLine());
            }
        }
    }
    return "";
}
void Executor::fillInputs(State& s, const std::shared_ptr<const Model>& m, std::vector<std::pair<std::string, int64_t>>& out) {
    for (auto& in : s.inputs) {
        int64_t v = in.conc;
        if (in.e) v = evalE(in.e, *m).sextOrTrunc(64).getSExtValue();
        out.emplace_back(in.name, v);
    }
}
void Executor::error(State& s, const std::string& kind, const std::string& msg, std::shared_ptr<const Model> m) {
    Frame& f = *s.st.back();
    ErrorRec r;
    r.kind = kind; r.msg = msg;
    r.where = repoSite(s);
    if (r.where.empty()) r.where = where(s, f.pc < f.f->ins.size() ? f.f->ins[f.pc].I : nullptr);
    std::string key = kind + "|" + msg + "|" + r.where;
    uint64_t n = res.errCount[key]++;
    if (n >= 3) return;
    r.stack = stackTrace(s);
    fillInputs(s, m ? m : s.model, r.inputs);
    res.errors.push_back(std::move(r));
}

#include "interp.inc"

// LSYM_LINES=dir: the lines executed, for finding what no check reaches
void Executor::lines(const std::string& name) {
    const char* d = getenv("LSYM_LINES"); if (!d) return;
    std::set<std::string> l;
    auto put = [&](const llvm::Instruction* I, const char* k) {
        const llvm::DebugLoc& dl = I->getDebugLoc();
        for (auto* L = dl ? dl.get() : nullptr; L; L = L->getInlinedAt()) l.insert(k + L->getFilename().str() + ":" + std::to_string(L->getLine()));
    };
    for (auto& f : funcs) if (f.second) for (auto& i : f.second->ins) if (i.I && i.seen) put(i.I, "+");
    for (auto& f : *M) for (auto& b : f) for (auto& i : b) put(&i, "?");
    FILE* o = fopen((std::string(d) + "/" + name).c_str(), "w"); if (!o) return;
    for (auto& s : l) fprintf(o, "%s\n", s.c_str());
    fclose(o);
}

