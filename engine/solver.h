// Query layer: independent-constraint slicing, caching and z3.
#pragma once
#include "expr.h"
#include <memory>
#include <vector>

enum class Sat { Yes, No, Unknown };

struct SolverStats {
    uint64_t queries = 0;      // branch / assertion feasibility questions asked
    uint64_t modelHits = 0;    // answered by re-evaluating a known model
    uint64_t cacheHits = 0;
    uint64_t bounds = 0;       // decided by bounds on one variable
    uint64_t z3calls = 0;
    uint64_t sat = 0, unsat = 0, unknown = 0;
    uint64_t confirmed = 0, contradicted = 0; // verdicts of the bounds and bit map procedures put to z3
    uint64_t rewritten = 0;                   // comparisons of symbolic terms decided by rewriting
    double z3time = 0, maxq = 0;
};
extern SolverStats gStats;

class Solver {
public:
    Solver();
    ~Solver();
    // Is pc && c satisfiable?  base is a model of pc; on Yes, out is a model of pc && c.
    Sat check(const std::vector<E>& pc, E c, const std::shared_ptr<const Model>& base, std::shared_ptr<const Model>& out);
    // A comparison of symbolic terms that term rewriting decided: counted, and put to z3 for the first of them.
    void rewritten(bool isF, unsigned pred, E x, E y, bool result);
    void setLimits(unsigned rlimitFast, unsigned rlimitSlow);
    std::string dump(const std::vector<E>& pc, E c);
    // cross check the last verdict class with a second solver binary
    struct Impl;
private:
    Impl* p;
};
