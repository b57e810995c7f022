// Symbolic interpreter for LLVM bitcode.
#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/DataLayout.h>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <memory>

struct Val;
struct AggBox;
struct Val {
    uint64_t c = 0;
    E e = nullptr;
    AggBox* a = nullptr;
    Val() {}
    explicit Val(uint64_t x) : c(x) {}
    Val(const Val& o);
    Val(Val&& o) noexcept : c(o.c), e(o.e), a(o.a) { o.a = nullptr; }
    Val& operator=(const Val& o);
    Val& operator=(Val&& o) noexcept { std::swap(a, o.a); c = o.c; e = o.e; return *this; }
    ~Val();
};
struct AggBox { int rc = 1; std::vector<Val> v; };
inline Val::Val(const Val& o) : c(o.c), e(o.e), a(o.a) { if (a) a->rc++; }
inline Val& Val::operator=(const Val& o) {
    if (o.a) o.a->rc++;
    if (a && --a->rc == 0) delete a;
    c = o.c; e = o.e; a = o.a; return *this;
}
inline Val::~Val() { if (a && --a->rc == 0) delete a; }

struct TD {   // type descriptor
    enum K : uint8_t { Int, Float, Ptr, Struct, Array, Vec, Void } k = Void;
    unsigned bits = 0;         // scalars
    uint64_t size = 0, store = 0;
    std::vector<TD*> el;       // Struct: each; Array/Vec: one
    std::vector<uint64_t> off; // Struct
    uint64_t n = 0;
    bool scalar() const { return k == Int || k == Float || k == Ptr; }
};

struct SymByte { E e = nullptr; uint32_t k = 0; };
enum ObjKind : uint8_t { OGlobal, OStack, OHeap, OExc };
struct Obj {
    uint64_t base = 0, size = 0;
    ObjKind kind = OGlobal;
    bool ro = false;
    uint8_t allocKind = 0;
    uint32_t slot = 0;
    const char* site = "";
    std::vector<uint8_t> d;
    std::vector<uint8_t> tag;   // empty: all concrete. 0 concrete 1 symbolic 2 uninitialised
    std::vector<SymByte> s;
};
typedef std::shared_ptr<Obj> ObjRef;

struct Opd { int32_t i; };      // >=0 register, <0 constant ~i

struct Func;
struct Ins {
    uint16_t op = 0;
    int32_t dst = -1;
    TD* ty = nullptr;           // result type
    TD* sty = nullptr;          // source operand type
    uint32_t aux = 0;
    int64_t imm = 0;
    std::vector<Opd> ops;
    std::vector<int64_t> sc;    // gep scales / indices
    std::vector<uint32_t> bl;   // successor blocks
    Func* callee = nullptr;
    const llvm::Instruction* I = nullptr;
    mutable bool seen = false;  // for LSYM_LINES
};
struct PhiMove { int32_t dst; Opd src; };
struct Block {
    uint32_t start = 0;
    std::map<uint32_t, std::vector<PhiMove>> phis; // by predecessor
};
struct Func {
    llvm::Function* f = nullptr;
    std::string name;
    uint64_t addr = 0;
    bool decoded = false, defined = false;
    int builtin = -1;
    unsigned nregs = 0;
    unsigned nargs = 0;
    bool vararg = false;
    std::vector<TD*> argTy;
    std::vector<uint64_t> byval;  // size if byval else 0
    std::vector<Ins> ins;
    std::vector<Block> blocks;
    bool executed = false;
    uint64_t nExec = 0;
};
struct Frame {
    Func* f = nullptr;
    uint32_t pc = 0;
    uint32_t block = 0;
    std::vector<Val> r;
    std::vector<uint32_t> allocas; // slots
    std::vector<Val> va;
    std::vector<TD*> vaTy;
};
struct ExcInfo { uint64_t ti = 0, dtor = 0, adjusted = 0; int handlers = 0; };
struct InputRec { std::string name; E e = nullptr; int64_t conc = 0; };

struct State {
    std::vector<std::shared_ptr<Frame>> st;
    std::unordered_map<uint32_t, ObjRef> mem;
    std::vector<E> pc;
    std::shared_ptr<const Model> model;
    uint32_t nextSlot = 0;
    std::vector<InputRec> inputs;
    std::vector<uint64_t> caught;
    std::unordered_map<uint64_t, ExcInfo> exc;
    uint64_t curExc = 0;
    int64_t curSel = 0;
    uint64_t instrs = 0;
    uint32_t uninitCtr = 0;
    uint32_t depth = 0;
    std::set<std::string> covers;
    uint64_t heapBytes = 0;
    std::unordered_map<uint32_t, E> eq;
};
typedef std::unique_ptr<State> StateP;

struct ErrorRec {
    std::string kind, msg, where, stack;
    std::vector<std::pair<std::string, int64_t>> inputs;
    std::string known;
};

struct Options {
    std::string entry;
    double timeLimit = 60;
    uint64_t maxInstr = 4000000;
    unsigned maxErrors = 12;
    unsigned jobs = 1;
    unsigned maxDepth = 400;
    unsigned samples = 0;
    std::string out;
    unsigned rFast = 6000000, rSlow = 100000000;
};

struct Results {
    uint64_t paths = 0, infeasible = 0, incomplete = 0, forks = 0, instrs = 0, asserts = 0, assertQueries = 0;
    uint64_t pending = 0;
    std::map<std::string, uint64_t> incompleteWhy;
    std::map<std::string, uint64_t> covers;
    std::map<std::string, uint64_t> asserted;     // message -> number of times decided
    std::vector<ErrorRec> errors;
    std::map<std::string, uint64_t> errCount;
    std::set<std::string> functions;              // repo functions executed
    std::vector<std::vector<std::pair<std::string, int64_t>>> samples;
    std::map<std::string, std::pair<int64_t, int64_t>> symbolic; // input name -> range
};
