#pragma once
#include "exec.h"
#include <deque>
#include <functional>

struct PathEnd {};
struct PathFinished {};
struct EngineLimit { std::string why; };
double nowSec();

class Executor {
public:
    Executor(llvm::Module* m, const Options& o);
    bool setup();                      // globals and constructors
    void run(const std::string& entry);
    Results res;
    std::unique_ptr<Solver> solver;
    std::deque<StateP> work;
    Options opt;
    double deadline = 0;
    void explore();
    std::function<bool()> share;       // hands half of the work to another process if one is idle
    double lastShare = 0;
    StateP initial(const std::string& entry);
    void push0(StateP p) { work.push_back(std::move(p)); }
    void lines(const std::string& name);
    void collectFunctions();
    std::string setupError;
    std::set<std::string> externGlobals;

private:
    llvm::Module* M;
    const llvm::DataLayout* DL;
    std::unordered_map<llvm::Type*, TD*> types;
    std::unordered_map<const llvm::Function*, Func*> funcs;
    std::vector<Func*> funcList;
    std::unordered_map<const llvm::GlobalVariable*, uint64_t> gaddr;
    std::unordered_map<const llvm::Constant*, int32_t> constMap;
    std::deque<Val> consts;
    std::vector<ObjRef> baseObjs;
    State* setupState = nullptr;
    std::unordered_map<std::string, E> vars;
    uint32_t baseSlots = 0;
    std::unique_ptr<State> proto;
    std::unordered_map<std::string, int> builtinMap;
    std::vector<uint64_t> tiIds;

    TD* td(llvm::Type* t);
    Val zeroVal(TD* t);
    Val constVal(const llvm::Constant* c);
    Func* funcFor(const llvm::Function* f);
    int32_t constIdx(const llvm::Constant* c);
    void decode(Func* f);
    int builtinId(const std::string& n);

    Obj* findObj(State& s, uint64_t addr);
    Obj* wrObj(State& s, uint64_t addr);
    Obj* allocObj(State& s, uint64_t size, ObjKind kind, bool uninit, uint64_t align = 16);
    void freeObj(State& s, Obj* o);
    [[noreturn]] void memError(State& s, uint64_t addr, uint64_t n, const char* what);
    Val loadObj(State& s, Obj*& o, uint64_t off, unsigned bits);
    void storeObj(Obj* o, uint64_t off, const Val& v, unsigned bits);
    Val subst(State& s, E e);
    Val loadT(State& s, uint64_t addr, TD* t);
    void storeT(State& s, uint64_t addr, TD* t, const Val& v);
    void copyMem(State& s, uint64_t dst, uint64_t src, uint64_t n, bool move);
    void setMem(State& s, uint64_t dst, const Val& v, uint64_t n);
    std::string readStr(State& s, uint64_t addr);
    uint64_t rd64(State& s, uint64_t addr);

    E namedVar(const std::string& n, unsigned w);
    E rangedVar(const std::string& n, unsigned w, int64_t lo, int64_t hi);
    void addPC(State& s, E c);
    Sat feasible(State& s, E c, std::shared_ptr<const Model>& m);
    StateP cloneState(State& s);
    bool decide(State& s, E c);
    uint64_t concretize(State& s, E e);
    uint64_t conc(State& s, const Val& v);
    uint64_t concAddr(State& s, const Val& v, uint64_t n);
    Val symLoad(State& s, const Val& addr, TD* t);
    void push(StateP p) { work.push_back(std::move(p)); }

    std::string where(State& s, const llvm::Instruction* I);
    std::string stackTrace(State& s);
    std::string repoSite(State& s);
    void fillInputs(State& s, const std::shared_ptr<const Model>& m, std::vector<std::pair<std::string, int64_t>>& out);
    void error(State& s, const std::string& kind, const std::string& msg, std::shared_ptr<const Model> m = nullptr);

    // interpretation
    void runState(State& s);
    void jump(State& s, Frame& f, uint32_t to);
    void enter(State& s, Func* f, std::vector<Val> args, std::vector<Val> va, std::vector<TD*> vaTy);
    void doReturn(State& s, const Val& v);
    void unwind(State& s);
    void throwExc(State& s, uint64_t obj);
    bool tiMatch(State& s, uint64_t thrown, uint64_t want, int64_t& off, uint64_t obj, int depth = 0);
    bool tiFind(State& s, uint64_t ti, uint64_t want, uint64_t obj, int64_t& off, int depth = 0);
    const char* tiKind(State& s, uint64_t ti);
    void callIns(State& s, Frame& f, const Ins& I);
    bool builtin(State& s, Frame& f, const Ins& I, Func* callee, std::vector<Val>& a, Val& out);  // false: control moved
    void intrinsic(State& s, Frame& f, const Ins& I, std::vector<Val>& a, Val& out);
    Val binop(State& s, unsigned op, const Val& a, const Val& b, TD* t);
    Val castV(State& s, unsigned op, const Val& a, TD* from, TD* to);
    Val cmp(State& s, bool isF, unsigned pred, const Val& a, const Val& b, TD* t);
    Val cmp0(State& s, bool isF, unsigned pred, const Val& a, const Val& b, TD* t);
    void finishPath(State& s, bool end);
    void doAssert(State& s, E cond, const std::string& msg);
    void leakCheck(State& s, uint64_t mark, const std::string& what);
    void input(State& s, const std::string& n, E e, int64_t c);
    static void initBuiltins(std::unordered_map<std::string, int>& m);
};
