#!/usr/bin/env python3
"""Writes the per-property section of DESIGN.md (between the marker lines) from the harness headers and the table below."""
import glob, json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mkmeta
V = mkmeta.V
HOW = {
"C01": "Two or three handles, every kind of change through one of them. Oracle: two reference lists, joined by assignment and separated by copy().",
"C02": "Programs of 2 operations (3 thorough) drawn from ~30 over variables holding arrays, maps, views and nested arrays, then leaving scope; lengths crossing each capacity step. Oracle: the engine's memory model (bounds, lifetime, double release, uninitialised branches) and a leak check by reachability.",
"C03": "Every history of list operations of bounded length per element type, with symbolic elements; long sweeps over one operation; positions in and out of range. Oracle: a reference list (`RefList`).",
"C04": "Same, on bytes, with the terminator read through the C string view. Oracle: a reference byte sequence.",
"C05": "Insertions and overwrites with fully symbolic keys; look-ups of a symbolic key. Oracle: a reference association list; order by the library's documented order.",
"C06": "Pairs and triples of symbolic values of every type. Oracle: mathematical order on the values (bytes, IEEE numbers, lexicographic); trichotomy and transitivity as such.",
"C07": "A write through an index, past the end, in nested arrays and maps. Oracle: reference list and the language's conversion.",
"C08": "Every pair of types, symbolic source value; symbolic digit strings. Oracle: the conversion of the compiler; for strings a reference parser, exact for integers.",
"C09": "Symbolic shape, offset and index, including negative and overflowing ones. Oracle: row-major arithmetic in 64 bits; everything around the window compared.",
"C10": "Assign, copy, compare, search through views over symbolic arrays; every pair of shapes for re-targeting. Oracle: reference list for the underlying array.",
"C11": "Scalars (all type pairs; results for whole numbers exactly, all bit patterns for the pass-through cases), arrays, views, rows, own parts. Oracle: elementwise arithmetic on the reference elements.",
"C12": "Each function as an uninterpreted function of its argument: the property is that the right function is applied to the right element of the right type. Oracle: the same function applied per element.",
"C13": "Whole numbers small enough to be exact in any order of addition. Oracle: integer sums and maxima.",
"C14": "As C13, with BLAS replaced by its reference definition (leading dimensions and transposition included). Oracle: integer products.",
"C15": "Symbolic elements moved by transpose, concatenate, swap, set. Oracle: index arithmetic on the reference elements; neighbours of every window compared.",
"C16": "Symbolic strings and separators. Oracle: a reference splitter; joining restores the text.",
"C17": "Symbolic strings. Oracle: reference strip and ASCII case mapping.",
"C18": "Symbolic strings of all byte values up to 5 bytes. Oracle: the definition of well-formed UTF-8 (Unicode table 3-7).",
"C19": "Symbolic trees of arrays, maps, strings, numbers. Oracle: reading what was written gives a value equal to the original, and a reference writer of the grammar.",
"C20": "Texts with symbolic bytes, free and following the grammar. Oracle: a reference recogniser and evaluator of RFC 8259.",
"C21": "Histories of writes, reads and line reads over variable streams; symbolic bytes. Oracle: a reference byte queue.",
"C22": "Files with symbolic bytes. Oracle: reference line splitter.",
"C23": "Files with symbolic bytes and structured ones. Oracle: reference reader of sections, keys, values.",
"C24": "Argument vectors with symbolic bytes against symbolic option tables. Oracle: reference POSIX-style parser.",
"C25": "Symbolic trees written and read, documents cut and damaged at any place. Oracle: reference writer of the escaped text and tree comparison.",
"C26": "Record sets with symbolic links and dates, cut short and damaged. Oracle: reference record reader and reference family links.",
"C27": "Symbolic bounds and steps. Oracle: the arithmetic progression.",
"C28": "Symbolic elements. Oracle: the result is ordered and a permutation (counting argument); indices sort; coefficients by integer expansion.",
"C29": "Histories of opening, creating and closing with stand-ins for dlopen that fail at any point. Oracle: journal of the dynamic loader and counts of live handles.",
"C30": "Symbolic samples and header data, failing opens and transfers. Oracle: the file in the model.",
"C31": "Histories of plots with data of every shape. Oracle: reference script text.",
"C32": "Symbolic messages; symbolic back trace lines. Oracle: reference text and the demangled name.",
"C33": "Symbolic whole numbers; exact discrete transform for sizes 1, 2, 4. Oracle: the defining sum in integers.",
"C34": "Chunk lengths and bytes symbolic. Oracle: the concatenation of the chunks.",
"C35": "Symbolic edges. Oracle: a reader of the written description that ticks off vertices and edges.",
"C36": "Symbolic strings, a set of patterns, Boost replaced by a small matcher (checked against Boost on 600 pattern/text pairs when it was written). Oracle: direct definitions of the patterns.",
"C37": "Directory trees with symbolic names and kinds of entries, std::filesystem replaced by a model. Oracle: the tree that was built.",
"C38": "Polynomials with symbolic whole roots and conjugate pairs; the eigenvalue routine replaced by an exact one that answers for matrices with the expected characteristic polynomial only. Oracle: the roots put in.",
"C39": "Every constructor with symbolic values and sizes across the growth steps; every query on the value itself, on copies, moved ones, elements of arrays, maps, nested arrays and views. Oracle: the value given; for elements the value outside its container.",
"C40": "The history f(a), f(b), f(a), overwrite the result, f(a), f(b), overwrite the argument, for every function with symbolic arguments; all variables are recorded bit by bit before and after each step. Oracle: the first result (metamorphic); what each result has to be is decided by the other properties.",
"C41": "The same harness code as C15 (transposition) and C33, built from the other pair of sources (`//! variant: fallback`: dft-kiss.cpp and transpose-adhoc.cpp, no HAVE_MKL), against a model of the Kiss FFT interface that is exact for the sizes used, refuses odd real sizes and does nothing when a plan is used for another kind or direction. Oracle: the definition of the transform and of transposition. The sampled paths and counterexamples are replayed on a native build of the same variant.",
"C43": "Arrays and views of symbolic numbers printed into a variable stream, alone and nested. Oracle: a writer of the documented layout in the harness; vectors and matrices are also read back.",
"C44": "About 60 operations on every combination of 16 kinds of operands with symbolic elements; a snapshot of every operand (type, size, shape, elements bit by bit) before and after. Oracle: if the operation throws, or only reads, the snapshots agree; the engine's memory model and leak check throughout.",
"C42": "Every wrapper called directly on raw arrays with guard elements, symbolic bits (moves, magnitudes) or whole numbers (sums and products). Oracle: the textbook definition in the harness. Eigenvectors are checked by definition (A v = l v, v A = l v, v not 0) for matrices P diag(x, y) P^-1 with symbolic x, y and unimodular P; the status is a symbolic value returned by the model (natively a wrapper around the real routine).",
}
def main():
    out = []
    for x in mkmeta.P:
        if x["na"]:
            continue
        fs = sorted(glob.glob(V + "/harness/" + x["id"] + "*.cpp"))
        t = "".join(open(f).read() for f in fs)
        for inc in set(re.findall(r'#include "(\w+\.inc)"', t)): t += open(V + "/harness/" + inc).read()
        ents = re.findall(r"^HARNESS(_T)?\((\w+)\)", t, re.M)
        out.append("### %s %s\n" % (x["id"], x["title"]))
        out.append(HOW[x["id"]])
        for b in re.findall(r"^//! bound: (.*)$", t, re.M): out.append("Bounds: " + b + ".")
        for b in re.findall(r"^//! assume: (.*)$", t, re.M): out.append("Assumed: " + b + ".")
        out.append("%d entries (%d more thorough)%s.\n" % (len([e for e in ents if not e[0]]), len([e for e in ents if e[0]]), cost(x["id"])))
    out.append("### Not applicable\n")
    for x in mkmeta.P:
        if x["na"]: out.append("- %s %s: %s" % (x["id"], x["title"], x["na"]))
    out.append("\n### Planted bugs\n\nEach is caught by the quick check of its property (exit 1 with its VIOLATION line).\n\n| seed | property | what it breaks | what it needs |\n|---|---|---|---|")
    for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
        e = json.load(open(d))
        out.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), e["property"], e["what_it_breaks"], e["needs"]))
    s = open(V + "/DESIGN.md").read()
    a, b = "<!-- properties -->\n", "<!-- end -->"
    i, j = s.index(a) + len(a), s.index(b)
    open(V + "/DESIGN.md", "w").write(s[:i] + "\n".join(out) + "\n" + s[j:])
COST = {}
def cost(i):
    """The seconds of the last whole quick run, kept in tools/cost.json."""
    f = V + "/tools/cost.json"
    if not COST and os.path.exists(f): COST.update(json.load(open(f)))
    try:
        d = json.load(open(V + "/evidence/%s.json" % i))
        if d["tier"] == "quick" and len(d["coverage"]["entries"]) > 1: COST[i] = round(d["wall_s"])
        json.dump(COST, open(f, "w"), indent=0, sort_keys=True)
    except FileNotFoundError: pass
    return ", about %d s quick" % COST[i] if i in COST else ""
main()
