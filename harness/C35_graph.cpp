//! time_quick: 150
//! time_thorough: 850
//! bound: up to 3 (thorough 4) vertices and 3 (thorough 4) edges between any of them, vertices and edges added in any order; 9 to 17 vertices with 14 or 26 edges, one of them symbolic; written once or twice
//! assume: the C++ file streams of libstdc++ run on a model of the file system without I/O errors
#include "common.h"
#include <lube/graph.h>
namespace libube { extern "C" void factory_graph(Module** oModule, var iArg); }
static int num(const char* n, int lo, int hi) { return (int)__sym_choice(n, lo, hi); }
// reads the description: digraph NAME { statements }, statements of the forms  N;  and  N->N ;
static void description(int nv, const int (*e)[2], int ne) {
    char b[900]; long n = __vfs_size("file"); CHECK(n >= 0 && n < 900, "a file is written"); __vfs_get("file", b, 900);
    long p = 0; int v = 0, used[40] = {0}, edges = 0;
    auto ws = [&] { while (p < n && (b[p] == ' ' || b[p] == '\n' || b[p] == '\t')) p++; };
    auto digit = [&] { CHECK(p < n && b[p] >= '0' && b[p] <= '9', "a vertex"); int d = 0; while (p < n && b[p] >= '0' && b[p] <= '9' && d < 1000) d = d * 10 + b[p++] - '0'; return d; };
    const char* h = "digraph"; while (*h) { CHECK(p < n && b[p] == *h, "directed graph"); p++; h++; }
    while (p < n && b[p] != '{') p++;
    CHECK(p < n, "opening brace"); p++;
    bool seen[40] = {false};
    for (;;) {
        ws(); CHECK(p < n, "closing brace"); if (p >= n || b[p] == '}') break;
        int s = digit(); ws();
        if (p < n && b[p] == '-') {
            p++; CHECK(p < n && b[p] == '>', "arrow"); p++; ws(); int t = digit(); ws();
            int i = 0; while (i < ne && (used[i] || e[i][0] != s || e[i][1] != t)) i++;
            CHECK(i < ne, "no edge that was not added"); if (i < ne) used[i] = 1; edges++;
        }
        else { CHECK(s < nv && !seen[s], "no vertex that was not added"); if (s < 40) seen[s] = true; v++; }
        ws(); if (p < n && b[p] == '[') while (p < n && b[p] != ']') p++;
        if (p < n && b[p] == ']') p++;
        ws(); CHECK(p < n && b[p] == ';', "semicolon"); p++;
    }
    p++; ws(); CHECK(p >= n, "nothing else");
    CHECK(v == nv, "every vertex"); CHECK(edges == ne, "every edge");
}
HARNESS(built) {
    __vfs_path("file");
    long mk = __sym_leak_mark();
    {
        Module* m = 0; factory_graph(&m, nil); graph* g = dynamic_cast<graph*>(m); CHECK(g != 0, "a graph");
        int nv = num("vertices", 0, THOROUGH ? 4 : 3), ne = nv ? num("edges", 0, THOROUGH ? 4 : 3) : 0, e[4][2], between = nv > 1 && ne ? num("between", 0, 1) : 0, k = 0;
        auto edge = [&](int top) { int a = (int)__sym_range("from", 0, top - 1), b = (int)__sym_range("to", 0, top - 1); e[k][0] = a; e[k][1] = b; g->addEdge(a, b); k++; };
        for (int i = 0; i < nv; i++) {
            ind v = g->addVertex(); CHECK(v == i, "vertices are numbered in order");
            if (between && i == 0) edge(1);
        }
        while (k < ne) edge(nv);
        if (num("exists", 0, 1)) { char x[400]; memset(x, 'x', 400); __vfs_put("file", x, 400); }
        g->writeGraphViz(__vfs_path("file"));
        description(nv, e, ne);
        // the graph goes on from there
        if (nv && num("more", 0, 1)) {
            CHECK(g->addVertex() == nv, "vertices are numbered in order"); int ee[5][2]; memcpy(ee, e, sizeof e); ee[ne][0] = nv; ee[ne][1] = 0; g->addEdge(nv, 0);
            g->writeGraphViz(__vfs_path("file")); description(nv + 1, ee, ne + 1);
        }
        delete m;
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("built end");
}
HARNESS(larger) {
    __vfs_path("file");
    long mk = __sym_leak_mark();
    {
        Module* m = 0; factory_graph(&m, nil); graph* g = dynamic_cast<graph*>(m); CHECK(g != 0, "a graph");
        int nv = 9 + num("vertices", 0, 2) * 4, ne = 14 + num("edges", 0, 1) * 12, at = num("at", 0, 2) * (ne - 1) / 2, k = 0, e[30][2];
        for (int i = 0; i < nv; i++) {
            CHECK(g->addVertex() == i, "vertices are numbered in order");
            while (k < ne && k * nv < ne * (i + 1)) {
                int a = k == at ? (int)__sym_range("from", 0, i) : k * 7 % (i + 1), b = k * 3 % (i + 1);
                e[k][0] = a; e[k][1] = b; g->addEdge(a, b); k++;
            }
        }
        g->writeGraphViz(__vfs_path("file")); description(nv, e, ne);
        delete m;
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("larger end");
}
HARNESS(independent) {
    __vfs_path("file");
    long mk = __sym_leak_mark();
    {
        Module *m = 0, *q = 0; factory_graph(&m, nil); factory_graph(&q, nil); graph* g = dynamic_cast<graph*>(m); graph* h = dynamic_cast<graph*>(q);
        int a = num("a", 0, 2), b = num("b", 0, 2);
        for (int i = 0; i < a; i++) CHECK(g->addVertex() == i, "vertices are numbered in order");
        for (int i = 0; i < b; i++) CHECK(h->addVertex() == i, "each graph numbers its own");
        int e[1][2] = {{0, 0}}; if (a) g->addEdge(0, 0);
        g->writeGraphViz(__vfs_path("file")); description(a, e, a ? 1 : 0);
        delete m;
        h->writeGraphViz(__vfs_path("file")); description(b, e, 0);
        delete q;
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("end");
}
