// Hash-consed bit-vector / float expressions used by the symbolic executor.
#pragma once
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/ArrayRef.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/ADT/SmallVector.h>
#include <cstdint>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

using llvm::APInt;

enum class Op : uint8_t {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem,
    And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Ite, Concat, Extract, ZExt, SExt,
    // floating point, operating on IEEE bit patterns
    FAdd, FSub, FMul, FDiv, FRem, FSqrt,
    FCmp,           // aux = llvm FCmp predicate
    FPToSI, FPToUI, SIToFP, UIToFP, FPExt, FPTrunc,
    FRound,         // aux: 0 floor 1 ceil 2 trunc 3 rint/nearbyint 4 round(away)
    FPI,            // children: n (64 bit), nz (bool): the float of value n, -0 if n==0 && nz
    UF,             // aux = uninterpreted function id
};

struct Node {
    Op op;
    uint16_t w;
    uint32_t aux;
    uint32_t id;
    uint64_t hash;
    APInt c;
    llvm::SmallVector<Node*, 3> ch;
    // caches
    mutable bool rangeDone = false;
    mutable int64_t slo = 0, shi = 0;
    mutable const std::vector<uint32_t>* vars = nullptr;
    bool isConst() const { return op == Op::Const; }
    uint64_t u64() const { return c.getZExtValue(); }
};
typedef Node* E;

struct VarInfo {
    std::string name;
    unsigned w;
    bool ranged = false;
    int64_t lo = 0, hi = 0;   // signed interpretation
    E node = nullptr;
};

extern std::vector<VarInfo> gVars;
extern std::vector<std::string> gUFs;
extern uint64_t gNodeCount;

E mkConst(const APInt& v);
E mkConst(unsigned w, uint64_t v);
inline E mkBool(bool b) { return mkConst(1, b); }
E mkVar(const std::string& name, unsigned w);
E mkVarRanged(const std::string& name, unsigned w, int64_t lo, int64_t hi);
E mkUF(const std::string& name, unsigned w, llvm::ArrayRef<E> args);
E mkBin(Op op, E a, E b);
E mkNot(E a);                   // bitwise not
E mkIte(E c, E t, E f);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned off, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkEq(E a, E b);
inline E mkNe(E a, E b) { return mkNot(mkEq(a, b)); }
E mkAnd(E a, E b);
E mkOr(E a, E b);
// floating point
E mkFBin(Op op, E a, E b);
E mkFCmp(unsigned pred, E a, E b);
E mkFNeg(E a);
E mkFAbs(E a);
E mkFRound(unsigned mode, E a);
E mkFSqrt(E a);
E mkFCast(Op op, E a, unsigned w);

bool srange(E e, int64_t& lo, int64_t& hi);   // signed range of a <=64 bit node
const std::vector<uint32_t>& varsOf(E e);

// Model: assignment to variables (by var id) and UF nodes (by node id)
struct Model {
    std::unordered_map<uint32_t, APInt> vars;
    std::unordered_map<uint32_t, APInt> ufs;
    mutable std::unordered_map<uint32_t, APInt> memo;
};
APInt evalE(E e, const Model& m);
double bitsToDouble(uint64_t b, unsigned w);
uint64_t doubleToBits(double d, unsigned w);
std::string toStr(E e, int depth = 4);
APInt foldOp(Op op, unsigned w, uint32_t aux, llvm::ArrayRef<APInt> a);
bool fcmpC(unsigned pred, double x, double y);
bool nativeLibm(const std::string& name, unsigned w, llvm::ArrayRef<APInt> a, APInt& r);
