#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, note=note, na=na))

def m(*xs):
    return [dict(zip(("name", "where"), x.split(" @ "))) for x in xs]

p("C01", "Scalars copy by value, arrays share a handle, copy() makes an independent array",
  "A scalar variable assigned or passed to another never changes when the other does, for every native scalar type (a complex double is held as an array of one and so shares like an array). Assigning or passing an array (including a string or a map) gives a second handle on the same storage, through which every change is seen; re-assigning a handle only re-targets that handle. copy() yields an array of the same type, length and contents that no later change to either side can affect (the copy is one level deep).",
  ["histories", "inputs"], "every element type, every value, every choice of which handle is changed and how",
  "The tests copy one map and one string array and print them; sharing has to hold for each type and each mutating operation.",
  ["lube/var.cpp", "lube/heap.cpp"], m("reference counted heap handle @ lube/var.cpp var::operator=, attach, detach", "array duplication @ lube/heap.cpp Heap::Heap(const IHeap&), Heap::copy", "mutation in place @ lube/var.cpp resize, operator[]"),
  observe=["get<T>()", "size()", "at()"])
p("C02", "Any history of operations is memory safe and releases everything",
  "No sequence of variable operations reads or writes outside live storage, uses storage after it was released, or releases it twice, even when an operation is refused with an exception. When the last handle on an array (nested arrays and maps included) disappears, its storage and everything only reachable from it is released.",
  ["histories", "inputs"], "histories of assignments, aliasing, nesting, insertions and removals over several variables, lengths crossing every capacity step up to 64",
  "Tests run once without a memory checker on short fixed histories; lifetime errors depend on which handle dies first and on the length at which storage is reallocated.",
  ["lube/var.cpp", "lube/heap.cpp", "lube/view.cpp"], m("reference counting @ lube/heap.cpp Heap::attach, Heap::detach", "reallocation @ lube/heap.cpp Heap::resize", "placement new/delete in shift and unshift @ lube/heap.cpp Heap::shift, Heap::unshift", "assignment order attach-before-detach @ lube/var.cpp var::operator="),
  observe=["allocations and releases"])
p("C03", "Arrays behave as a list under push, pop, shift, unshift, insert, remove, append",
  "For every element type, and at every length including those where the storage grows, push, pop, shift, unshift, insert, remove, append and resize leave exactly the elements, in order, that a mathematical list would have, and return exactly the element they took out. The element type never changes, appending an array of numbers or a string to itself doubles it, and operations on positions that do not exist are refused with an exception instead of touching anything.",
  ["histories", "inputs"], "every history up to the bound, all element values, every element type, every position",
  "Tests push a handful of strings and ints and pop once; growth boundaries, positions and the eight element types multiply beyond any list of examples.",
  ["lube/var.cpp", "lube/heap.cpp"], m("growth by powers of two @ lube/heap.cpp Heap::resize, allocSize", "element moves @ lube/var.cpp insert, remove; lube/heap.cpp shift, unshift", "type selection on push @ lube/var.cpp push, array, resize"),
  observe=["size()", "at()", "returned element"])
p("C04", "Strings keep exactly the bytes put in and stay NUL terminated",
  "A character array built or changed by any of the public operations (construction from C strings or counted data, push, append, insert, remove, shift, unshift, resize, copy, element assignment) has exactly the bytes of the corresponding byte sequence, its length is their number, and the C string view of it is terminated by a NUL directly after the last byte.",
  ["histories", "inputs"], "all byte values, all lengths across the capacity steps up to 64, operation sequences up to the bound",
  "Tests print a few ASCII strings; a missing terminator is invisible when the next byte happens to be zero.",
  ["lube/heap.cpp", "lube/var.cpp"], m("room for and writing of the terminator @ lube/heap.cpp Heap::resize", "character append @ lube/heap.cpp Heap::append"), observe=["str()", "size()"])
p("C05", "Maps are sorted, have unique keys, and return the last value written",
  "After any sequence of insertions and overwrites through indexing by key, a map holds each key once, in ascending order, each with the value last written to it; looking up a present key returns that value, and looking up an absent key with the constant accessor or the search yields undefined or not-found and changes nothing. Keys of every comparable type work, and indexing with an undefined key adds nothing. Removing by position takes out that pair and keeps the rest in order.",
  ["histories", "inputs"], "all insertion orders and key values within the bound, integer, string and floating keys, maps inside maps",
  "Tests insert three literal keys in one order; uniqueness and order depend on the relation between all keys.",
  ["lube/var.cpp", "lube/heap.cpp"], m("binary search for the insertion point @ lube/var.cpp var::binary", "pair insertion @ lube/var.cpp insert, operator[](var)", "lookup @ lube/var.cpp at(var), index"), observe=["key()", "at()", "index()", "size()"])
p("C06", "Comparison is a total order consistent with equality",
  "For any values without NaN, of the same or different types, including undefined values, strings with any bytes, arrays of any element type and nested arrays, exactly one of a<b, a==b, b<a holds, < is transitive, and <=, >, >=, != agree with them. Arrays compare lexicographically and strings by their bytes with a proper prefix first; two arrays are equal exactly when their types of elements, lengths and elements are.",
  ["inputs"], "all pairs and triples of values of every type within the length bound",
  "Tests compare two strings; the order is relied on by every map, by sort and by std::map.",
  ["lube/var.cpp", "lube/heap.cpp"], m("comparison @ lube/var.cpp operator<, operator!=", "array comparison @ lube/heap.cpp Heap::lt, Heap::neq"), observe=["operators"])
p("C07", "Writing through an index changes that element only, cast to the array's type",
  "Assigning to an indexed element of an array or map, at any depth of nesting, changes that element to the assigned value converted to the array's own element type, and changes no other element, length or type; indexing past the end grows the array first, keeping the existing elements. Reading an element and assigning it to a variable detaches it: later writes to the array do not change the stored copy.",
  ["inputs", "histories"], "every element type against every assigned numeric type, all values, all positions within the bound, nested arrays and maps",
  "Tests write single ints and strings at literal positions.",
  ["lube/var.cpp", "lube/heap.cpp"], m("reference variables @ lube/var.cpp reference, dereference, operator=", "growth on index @ lube/var.cpp operator[](int)"), observe=["at()", "get<T>()"])
p("C08", "Casts convert like the language does, and numeric strings parse to their value",
  "Casting a scalar of any native numeric type to another gives the value the C++ conversion gives, keeping the imaginary part between complex types and dropping it towards real ones, and leaves the source unchanged. Casting a string that spells an integer gives that integer; a string that spells no number is refused with an exception.",
  ["inputs"], "all values of every source type representable in the target, all strings up to the length bound",
  "Tests never cast explicitly except integer options; conversions are per type pair and per value.",
  ["lube/var.cpp"], m("cast functor @ lube/var.cpp Cast<T>::scalar, var::cast"), observe=["cast<T>()", "cast functors"])
p("C09", "Views address exactly their elements and refuse what lies outside",
  "For a view with any shape and offset, indexing (i,j,...) reads and writes the underlying element at the row-major position, and no other; strides, shape, dimension and size report that geometry, also for views of views and subviews, and moving the offset moves the window. Shapes or offsets that do not fit the underlying array, windows that start before it, and indices outside the shape are refused with an exception.",
  ["inputs", "configurations"], "all shapes up to rank 3 and some of rank 4, offsets and indices within and outside the bound, every element type, underlying arrays up to 20 elements",
  "Tests index one or two literal positions of 4x4 and 2x2x4 views; the mapping and the rejection have to hold for every shape, offset and index.",
  ["lube/view.cpp", "lube/var.cpp", "lube/heap.h"], m("stride computation and size check @ lube/view.cpp View::setStrides", "index to offset @ lube/var.cpp operator()", "offset change @ lube/view.cpp View::offset", "subview @ lube/var.cpp subview"), observe=["operator()", "at()", "shape()", "stride()", "offset()"])
p("C10", "Assigning to, copying, comparing and searching a view acts on its elements",
  "Assigning an array or view of the same type and shape to a view copies the elements into the window and leaves the rest of the underlying array alone; copy() of a view is a view with the same geometry and contents on storage of its own. Comparing, searching and reading a view by linear index act on the elements it shows, and operations that would change its length are refused without changing anything.",
  ["inputs", "configurations", "histories"], "shapes up to rank 3 with offsets, float and double (element access: every type)",
  "Tests assign one subview; that an element outside the window is untouched is never observed.",
  ["lube/view.cpp", "lube/heap.cpp", "lube/heap.h", "lube/math.cpp"], m("copyable test and broadcast set @ lube/view.cpp View::copyable, lube/var.cpp operator=", "view duplication @ lube/view.cpp View::View(const IHeap&)"), observe=["elements inside and outside the window"])
p("C11", "Elementwise arithmetic gives the language's result and leaves operands alone",
  "a+b, a-b, a*b and a/b on scalars, arrays and views give elementwise what the left operand's element type's arithmetic gives (division by an array excepted, which is refused, and multiplication by a scalar being for floating types), with a scalar applied to every element and a lower-dimensional array repeated over the leading dimensions of the other, and neither operand changes. The in-place forms give the same elements in the left operand. Operands whose shapes or types do not conform are refused instead of reading or writing beyond them.",
  ["inputs", "configurations"], "all values, every supported element type, lengths up to 8 and shapes up to rank 3, both forms",
  "Tests print a few sums on one pair of arrays; which operand a kernel overwrites and how far it reads is not visible there.",
  ["lube/math.cpp", "lube/func.cpp", "lube/var.h"], m("arithmetic broadcasting @ lube/func.cpp ArithmeticFunctor::broadcast", "element kernels @ lube/math.cpp Add, Sub, Mul, Div"), observe=["result elements", "operand elements"])
p("C12", "Unary mathematical functions apply the same function to every element",
  "Floor, sine, cosine, tangent, arctangent, square root, logarithm, exponential, and power applied to a scalar, array or view give an array of the same shape and type whose every element is that function of the corresponding element, for real and complex types alike. Real part, imaginary part, modulus, argument and norm of complex arrays give real arrays of the same shape; the free functions leave their argument unchanged and the methods change it in place.",
  ["inputs", "configurations"], "all values (the elementary functions uninterpreted), float, double and their complex types, lengths up to 8 and shapes up to rank 3",
  "Tests call a few of them on single values.",
  ["lube/math.cpp", "lube/func.cpp"], m("unary broadcasting @ lube/func.cpp UnaryFunctor::broadcast", "functor bodies @ lube/math.cpp CMATH_UNARY_FUNCTOR, COMPLEX_UNARY_FUNCTOR, RealUnaryFunctor::alloc"), observe=["result elements, type and shape"])
p("C13", "Reductions reduce exactly the last dimension",
  "The sum, the sum of absolute values and the index of the largest absolute value (of a complex number, the sum of its absolute parts) of an array of floats or doubles are computed over all and only its elements; on a view of several dimensions each row along the last dimension gives one result, in the right place, with that dimension reduced to one. Arguments are unchanged and unsupported types are refused.",
  ["inputs", "configurations"], "all values (integers in floating form so that sums are exact), lengths up to 8, shapes up to rank 3, offsets",
  "Tests reduce one literal array.",
  ["lube/math.cpp", "lube/func.cpp"], m("reductions @ lube/math.cpp Sum, ASum, IAMax", "allocation of the result @ lube/math.cpp scalarAlloc, ASum::alloc, IAMax::alloc"), observe=["result"])
p("C14", "Dot products and matrix products are the mathematical ones",
  "The product of two vectors is the sum of the elementwise products (broadcast over the leading dimensions of the first argument), and the product of matrices is the row by column product with the outer shape, for float and double. Shapes that do not conform are refused with an exception, and operands are unchanged.",
  ["inputs", "configurations"], "all shapes up to 3x3x3, integer-valued elements, rectangular shapes included",
  "Tests multiply one fixed pair of matrices; transposition and leading-dimension mistakes vanish on square examples.",
  ["lube/math.cpp", "lube/c++blas.h"], m("dot and matrix product @ lube/math.cpp Dot::alloc, Dot::vector"), observe=["result elements and shape"])
p("C15", "Transpose, concatenate, swap and set move every element to its place",
  "The transpose of the last two dimensions of a view has element (..,j,i) equal to element (..,i,j) of the argument, out of place and in place, and transposing twice gives back the original. Concatenation along the last dimension places each argument's elements side by side; swap exchanges all and only the elements of two arrays; set (of floats and doubles) copies all elements, and a set of a smaller array repeats it.",
  ["inputs", "configurations"], "all element values, shapes up to rank 3 and 4x3, float, double (and complex where supported)",
  "Tests transpose and concatenate one literal each.",
  ["lube/transpose-mkl.cpp", "lube/transpose-adhoc.cpp", "lube/math.cpp", "lube/func.cpp"], m("transposition @ lube/transpose-mkl.cpp Transpose", "in-place permutation @ lube/transpose-adhoc.cpp", "concatenation @ lube/math.cpp Concatenate, lube/func.cpp NaryFunctor::broadcast", "swap and set @ lube/math.cpp Swap, Set"), observe=["elements and shape"])
p("C16", "Splitting and joining strings are inverse and lose nothing",
  "Splitting a string on a separator gives the pieces between the separator's occurrences found from the left, so that joining the pieces with the separator gives back the string, and no piece contains the separator unless a limit was given; a limit bounds the number of pieces, the last one holding the rest. Splitting on white space gives exactly the maximal runs of non-space characters.",
  ["inputs"], "all strings up to the length bound over all byte values except NUL, separators of one to three bytes, limits 0 to 4",
  "Tests split three literals.",
  ["lube/string.cpp"], m("separator scan @ lube/string.cpp var::split(const char*, int)", "white space scan @ lube/string.cpp var::split(int)", "join @ lube/string.cpp var::join"), observe=["pieces"])
p("C17", "Strip and case conversion change exactly the characters they should",
  "Stripping removes all leading and trailing white space and nothing else; upper and lower case conversion map each ASCII letter and leave every other byte and the length alone. The method forms change the string in place, the function forms leave the argument unchanged, and both also apply to every string of an array of strings.",
  ["inputs"], "all strings up to the length bound, all byte values, both forms, arrays of strings",
  "Tests strip one literal in place and never use the function form.",
  ["lube/string.cpp"], m("string functors @ lube/string.cpp Strip, ToUpper, ToLower, StringFunctor::broadcast"), observe=["result and argument"])
p("C18", "UTF-8 length counts code points and rejects malformed sequences",
  "The length of a string in code points is the number of one to four byte sequences (a lead byte and the continuation bytes it announces) it consists of, and is reported as invalid when any byte is out of place or the string ends inside a sequence. The decision depends on the string's own bytes only.",
  ["inputs"], "all byte strings up to 6 bytes",
  "Tests count three literals; all are well formed.",
  ["lube/utf8.cpp"], m("sequence classification @ lube/utf8.cpp utf8len", "counting @ lube/utf8.cpp var::len"), observe=["len()"])
p("C19", "What is written as JSON reads back as the same value",
  "Writing a value built from undefined, integers, strings of any non-NUL bytes, arrays and string-keyed maps, nested to any shape, and reading the text back gives an equal value: integers come back as (long) integers, and arrays of one element and empty ones as what they were. In the text, quotes, back slashes and control characters of strings and keys appear only as JSON escapes. Reading leaves the stream directly after the value.",
  ["inputs", "programs"], "all integers within four digits (selected wider ones), all strings up to the bound, every nesting shape up to the bound",
  "Tests round-trip five literals without any character that needs care and without numbers in arrays.",
  ["lube/json.cpp"], m("writer @ lube/json.cpp JSON::format, formatArray", "reader @ lube/json.cpp JSON::doValue, doObject, doArray, doString, doRaw"), observe=["value read", "text written"])
p("C20", "The JSON reader terminates on every input, accepts JSON and refuses the rest",
  "For every byte sequence the reader terminates with a value or an exception, without any memory error and releasing what it built. Well-formed compact or spaced-out JSON of integers, decimals, literals, strings with escapes, arrays (mixed element types included) and objects gives the value it denotes; truncated values, unterminated strings and unknown literals are refused. (The reader is lenient beyond that: it does not refuse every text outside the grammar.)",
  ["inputs"], "all byte strings up to the bound, and all texts produced by a grammar with symbolic leaves and optional white space",
  "Tests only read back what the writer wrote.",
  ["lube/json.cpp"], m("recursive descent @ lube/json.cpp doValue, doObject, doArray, doString, doRaw, toNumber"), observe=["value or exception"])
p("C21", "Variable streams and line input transfer every byte",
  "What is written to a variable-backed stream is appended to its string exactly, and reading from one delivers exactly the string's bytes (all 256 values), with put-back and re-positioning, then end of file. Reading lines from any stream delivers exactly the bytes of each line without its newline, for every length, whether or not the last line is terminated, then undefined.",
  ["inputs", "histories"], "all byte strings up to the bound, line lengths across the internal buffer steps 63 and 127",
  "Tests write and read one short text line.",
  ["lube/stream.cpp", "lube/string.cpp"], m("stream buffer @ lube/stream.cpp varbuf", "line reader @ lube/string.cpp var::getline"), observe=["string", "bytes read"])
p("C22", "Text files: lines present are read, each element is written as a line",
  "Reading a text file gives an array with exactly one string per line, each with exactly the line's bytes, in order, whether or not the last line is terminated; an unopenable file is refused with an exception. Each element of the result is independent of the others. Writing an array writes each element, as it is printed, as one line.",
  ["inputs"], "all file contents up to the bound, and lines across the internal buffer steps",
  "Tests read one committed file.",
  ["lube/txtfile.cpp", "lube/string.cpp"], m("line loop @ lube/txtfile.cpp txtfile::read", "writer @ lube/txtfile.cpp txtfile::write"), observe=["array read"])
p("C23", "INI files give every key of every section its stripped value; Config finds it",
  "Reading an INI file gives a map from section to a map from key to value in which every 'key = value' or 'key: value' line appears under the section it follows, stripped of surrounding space and with the whole value (later lines override earlier ones), while blank and comment lines add nothing and malformed lines are refused. A configuration object returns the value of its own section's entry converted to the requested type, the default when absent, and merging another file or setting an entry only changes the entries it names.",
  ["inputs", "histories"], "files of up to 4 lines with symbolic keys and values; lookups of every type",
  "Tests read one committed file and look up literal entries.",
  ["lube/inifile.cpp", "lube/config.cpp"], m("line classification @ lube/inifile.cpp inifile::read", "merge and lookup @ lube/config.cpp Config"), observe=["map read", "config()"])
p("C24", "Command line options end up as given, everything else in the arguments",
  "Parsing a command line against declared options gives every flag that occurs the value 1, every option with an argument the last argument given, leaves the others at their declared default, and leaves exactly the remaining words, in order, as arguments. Repeating an option is harmless. On an undeclared option, or an option whose argument is missing, the usage is printed and the program ends.",
  ["inputs", "configurations"], "command lines of up to 4 words over declared flags and valued options with symbolic arguments",
  "Tests parse one fixed command line.",
  ["lube/config.cpp"], m("option table @ lube/config.cpp Option::operator(), Option::parse, args"), observe=["parse() result", "args()"])
p("C25", "XML trees read and write without losing names, attributes or text",
  "Reading an XML file gives the element tree with each element's name, attributes and content in document order, and refuses with an exception documents that are malformed or truncated, or that hold comments, processing instructions or a document type, which a tree does not represent. Writing a tree escapes the five special characters in text and attribute values, so that reading the written file gives back an equal tree (up to how adjacent pieces of text are divided, and for text without line breaks).",
  ["inputs", "programs"], "documents and trees up to depth 3 with symbolic names, attributes and text (Expat replaced by a small conforming parser)",
  "Tests read one committed file and never write.",
  ["lube/xmlfile.cpp"], m("Expat callbacks @ lube/xmlfile.cpp Expat", "writer and escaping @ lube/xmlfile.cpp XMLWriter"), observe=["tree", "text"])
p("C26", "GEDCOM files: every record and family link is kept; damaged files are refused",
  "Reading a GEDCOM file terminates on every input. A well-formed file, in which individuals precede the families referring to them, gives one entry per individual with name, title and sex as written, and one entry per family whose husband, wife and children are the positions of exactly the individuals referred to; a file that ends before its trailer is refused with an exception.",
  ["inputs"], "files of up to 3 individuals and 2 families with symbolic fields, truncation at every line",
  "Tests read one committed file.",
  ["lube/gedfile.cpp"], m("record parser @ lube/gedfile.cpp GEDCOM::doFile, doIndividual, doFamily", "line reader @ lube/gedfile.cpp GEDCOM::readLine"), observe=["individual and family arrays"])
p("C27", "Index type and ranges follow integer arithmetic",
  "The index type is true exactly for non-negative values, and its complement is its own inverse, mapping non-negative to negative values and back, for every value. range(lo,hi,step) contains exactly lo, lo+step, ... up to and including hi, irange the same without hi, both empty when there is none, with 1 and 0 as the default lower bounds.",
  ["inputs"], "all 64 bit index values; ranges with symbolic bounds and steps up to 12 elements, char, int, long and double",
  "Tests print a few values.",
  ["lube/ind.h", "lube/var.cpp"], m("index class @ lube/ind.h ind", "ranges @ lube/var.cpp range, irange"), observe=["values"])
p("C28", "Sorting permutes into order, index finds the first match, poly expands roots",
  "sort() of an array gives an array with the same elements in ascending order and leaves the original unchanged; the in-place sort orders each row of a view. index() gives the first position holding an equal value, or a false index when there is none. poly() of roots gives the coefficients of the monic polynomial with those roots.",
  ["inputs"], "all arrays up to length 5 of ints, doubles, chars and strings; polynomials up to degree 4 with integer roots, real and complex",
  "Tests sort one argument list.",
  ["lube/var.cpp", "lube/math.cpp"], m("insertion sort @ lube/var.cpp var::sort, binary", "row sort @ lube/math.cpp Sort::vector", "search @ lube/var.cpp var::index", "polynomial @ lube/math.cpp Poly"), observe=["result"])
p("C29", "Loadable modules: instances die before their library, nothing leaks on failure",
  "Loading a module opens the named library once, each create gives a distinct live instance made by that library's factory with the given argument, and destroying the loader destroys every instance exactly once before the library is closed exactly once. When the library, its factory or an instance cannot be had, an exception is thrown and no library stays open and no instance leaks.",
  ["fault_sequences", "histories"], "0 to 3 instances, a failure of any loader step, factories that fail or throw",
  "Tests load working modules once.",
  ["lube/module.cpp", "lube/module.h"], m("loader @ lube/module.cpp module::module, ~module, create"), observe=["open handles", "live instances", "order of destruction"])
p("C30", "Sound files carry every sample of every channel",
  "Reading a sound file gives its sample rate and all samples, as a vector for one channel and as one row per channel for several. Writing a vector or a channels-by-samples matrix stores exactly those samples with the given rate, reads no memory beyond the array, and a failed open or transfer is refused with an exception and leaves no file handle open.",
  ["inputs", "configurations", "fault_sequences"], "1 to 3 channels, 0 to 4 frames, symbolic samples and rates (libsndfile replaced by a recording stand-in)",
  "Tests read one committed mono file.",
  ["lube/sndfile.cpp"], m("read and write @ lube/sndfile.cpp sndfile"), observe=["samples", "rate", "open handles"])
p("C31", "Plot scripts contain every command and data point in order",
  "Writing an array of commands and data to the plotter sends, in order, each command as a line, each vector as one line per value followed by the end marker, and each matrix as one line per column followed by the end marker; a file name is announced first. The plotter's pipe is opened once and closed exactly once, and failure to start it or to write to it is reported by an exception.",
  ["inputs", "configurations"], "sequences of up to 3 items with symbolic commands and integers, vectors up to 3 and matrices up to 2x3 (the pipe replaced by a recording stand-in)",
  "No test runs it.",
  ["lube/gnuplot.cpp"], m("script writer @ lube/gnuplot.cpp gnuplot::write, puts"), observe=["text sent", "pipe state"])
p("C32", "Errors carry their message whatever the call stack looks like",
  "An error raised with any value has a description that starts with that value as it would be printed, stays valid for as long as the error lives and after copying it, and building it never fails, crashes or leaks whatever symbols the platform's back trace delivers, including names that cannot be demangled and lines without a function.",
  ["inputs", "fault_sequences"], "symbolic messages; back traces of up to 2 lines with symbolic bytes and every shape of separators, failing back traces",
  "Tests never look at an error.",
  ["lube/var.cpp"], m("formatting @ lube/var.cpp error::error", "back trace @ lube/var.cpp error::backTrace"), observe=["what()", "allocations"])
p("C33", "Fourier transforms hand every row to the library with the right sizes and scale",
  "A forward transform of size n gives, for each row of the input, the n/2+1 (real) or n (complex) coefficients of that row; the inverse of the forward transform gives back the input. The output has the leading shape of the input, inputs of the wrong type are refused, and nothing beyond the arrays is touched.",
  ["inputs", "configurations"], "sizes 1, 2 and 4, single, double, real and complex, vectors and matrices of up to 3 rows, integer-valued symbolic data (the library replaced by an exact transform)",
  "Tests transform one ramp.",
  ["lube/dft-mkl.cpp", "lube/dft.h"], m("allocation and dispatch @ lube/dft-mkl.cpp DFTBase"), observe=["coefficients", "shape"])
p("C34", "Transfers return every byte received and close their handle",
  "A transfer returns exactly the concatenation of the chunks the network library delivers, of any bytes and lengths; a failed transfer, or one for which no handle is to be had, is reported by an exception, and no transfer handle is left open in either case.",
  ["inputs", "fault_sequences"], "up to 3 chunks of up to 4 symbolic bytes, any result code (libcurl replaced by a stand-in)",
  "No test transfers anything here.",
  ["lube/curl.cpp"], m("write callback @ lube/curl.cpp Easy::writeCallback", "handle lifetime @ lube/curl.cpp Easy"), observe=["string returned", "open handles"])
p("C35", "Graphs written for display contain exactly their vertices and edges",
  "Adding vertices numbers them 0, 1, 2, ...; the written graph description lists exactly those vertices and exactly the directed edges added, with multiplicity.",
  ["inputs", "histories"], "up to 3 vertices and 3 edges with any endpoints",
  "Tests write one graph.",
  ["lube/graph.cpp"], m("graph module @ lube/graph.cpp Graph"), observe=["file written"])
p("C36", "Regular expression search, match and replace act on the string's own text",
  "Searching gives the whole match and its groups in order, or undefined when there is none; matching requires the whole string; replacing substitutes every match and leaves the rest of the string alone. Only replacing in place changes the string, all three apply to every string of an array, nested arrays included, and what is not a string is refused.",
  ["inputs"], "all strings up to the length bound against a set of patterns with groups and repetition (the expression engine replaced by a small one)",
  "Tests match four literals.",
  ["lube/string.cpp", "lube/regex.h"], m("regex functors @ lube/string.cpp Search, Match, Replace"), observe=["result"])
p("C37", "Directory listings contain exactly the entries of the directory",
  "Listing a directory gives exactly its entries, keyed by their paths, with the directory, stem and extension of each when asked; listing recursively gives those of the directories below too, without following links, and a file lists as itself; the tree of a directory is nested by name. Without a path the current directory is listed. A path that does not exist is refused, and only a directory has a plain listing or a tree.",
  ["inputs"], "all directory trees, entry names and orders of entries",
  "The test lists one committed tree.",
  ["lube/path.cpp", "lube/path.h"], m("directory iteration @ lube/path.cpp Path::dir, rdir, tree", "parts of a path @ lube/path.cpp bits"))
p("C38", "Roots of a polynomial are its roots, each as often as it is one",
  "The roots computed for a polynomial with float or double coefficients (highest power first, leading one not zero) are its roots to within rounding, complex ones included, each as often as it is one, for each row of an array of any dimension; the polynomial is left alone. Coefficients of any other type are refused. The eigenvalues that the LAPACK interface gives for a matrix are those of the matrix.",
  ["inputs"], "all polynomials with whole roots and conjugate pairs within the bounds",
  "The test solves one polynomial.",
  ["lube/math.cpp", "lube/c++lapack.h", "lube/clapack.cpp"], m("companion matrix and eigenvalues @ lube/math.cpp Roots::vector", "shape of the result @ lube/math.cpp Roots::alloc", "eigenvalue interface @ lube/clapack.cpp geev, gees"),
  note="LAPACK's iteration itself is outside: it is replaced by a routine that is exact for the matrices having the expected characteristic polynomial.")
p("C39", "Construction gives exactly the value, and type queries report it",
  "A variable made from a value, string, array of strings, raw data (in one go or appended), list in braces, count and value, or shape and value holds exactly that, in storage of its own; raw data of another type is refused and changes nothing. type(), atype(), typeStr(), atypeStr(), size(), defined(), dim(), shape() and stride() report the type and extent, for an element of an array, map or view the same as for its value; undefined has no element type. is() tells whether two variables share storage. Moving leaves the source undefined and usable.",
  ["inputs"], "all values of every type, all strings and arrays within the bounds, all elements",
  "Tests construct a few variables and mostly print them; the element forms of the queries are hardly sampled.",
  ["lube/var.cpp", "lube/heap.cpp", "lube/var.h", "lube/heap.h"], m("constructors and type queries @ lube/var.cpp", "raw data @ lube/heap.cpp append"), observe=["result"])
p("C40", "Results depend on the arguments alone and stay as they were",
  "Calling a function object, string function, JSON reader or writer, Fourier transform or file reader gives a result that depends on its arguments only: not on earlier calls, failed ones included, nor on what was done to their results. A result shares no storage with the arguments, with other results or with state inside the library, so that it stays as it was whatever is called later, and changing it changes nothing else; the arguments are left alone. (A scalar or array that a cast need not convert, and members acting in place, are what they are given.)",
  ["inputs", "histories"], "all arguments within the bounds, all histories f(a), f(b), f(a) with results overwritten in between",
  "Tests call each function once or use a result at once.",
  ["lube/math.cpp", "lube/func.cpp", "lube/string.cpp", "lube/json.cpp", "lube/dft-mkl.cpp", "lube/var.cpp", "lube/xmlfile.cpp", "lube/inifile.cpp", "lube/txtfile.cpp", "lube/gedfile.cpp", "lube/sndfile.cpp"], m("allocation of results @ lube/func.cpp, lube/math.cpp alloc", "new views @ lube/var.cpp view", "static element @ lube/xmlfile.cpp element"))
p("C41", "Without the maths library, transposes and Fourier transforms are the same",
  "Built without the maths library, the replacements of its transposition and Fourier transforms keep what callers rely on: every element at its transposed place, out of place, into an output and in place, with the view turned and nothing around it touched; Kiss FFT handed each row with a plan of the right kind, direction and size, real transforms giving n/2+1 coefficients and inverses divided by n. Rows or outputs that are too short, double precision, odd real sizes and sizes below one are refused, with nothing read or written out of bounds and nothing leaked.",
  ["inputs", "configurations"], "all element values, shapes and sizes within the bounds, in the configuration without MKL",
  "The tests are built in the other configuration only.",
  ["lube/transpose-adhoc.cpp", "lube/dft-kiss.cpp"], m("fall-back transposition @ lube/transpose-adhoc.cpp inPlace outOfPlace", "fall-back transforms @ lube/dft-kiss.cpp DFTBase"))
p("C42", "Linear algebra wrappers do the textbook operation and return its status",
  "The templated wrappers for users of c++blas.h and c++lapack.h: swap, copy, axpy, scal, dot (conjugating the first), iamax (from zero, the first of the largest, -1 of nothing), asum, products with diagonal band matrices and row-major matrix products do exactly that to the n elements given, in all types offered, and leave what lies behind them and the other operands alone. The eigenvalue routines take a matrix by rows, deliver its eigenvalues, and left and right eigenvectors as rows of the arrays given for each and only those; the status returned is that of the library.",
  ["inputs"], "all element values, sizes, combinations of outputs and status values within the bounds",
  "Tests print one product and one set of eigenvectors; their author left out the status because it seemed undefined.",
  ["lube/clapack.cpp", "lube/c++blas.h", "lube/c++lapack.h"], m("BLAS wrappers @ lube/clapack.cpp blas", "LAPACK wrappers @ lube/clapack.cpp lapack"))
p("C43", "Printing shows every element in its place, and vectors and matrices read back",
  "A value sent to a stream shows every element, once and in order: a vector or array of numbers between brackets on one line, a matrix with each row on a line of its own, a tensor as its shape followed by its matrices, complex numbers as pairs and single characters between quotes, indented under the array or map they are in. What is shown of a view is what it addresses. Vectors and matrices of whole numbers read back as JSON with the same elements. Printing changes nothing.",
  ["inputs", "configurations"], "all numeric types, shapes up to rank 3, offsets, four depths of nesting, symbolic characters and integers",
  "Tests print to the log and nobody compares it.",
  ["lube/json.cpp"], m("writer @ lube/json.cpp JSON::format, formatArray, formatView"), observe=["text written"])
p("C44", "Refused operations change nothing, reading changes nothing, all misuse is safe",
  "Whatever the operands, an operation either succeeds or is refused with an exception; it never touches memory it should not and never loses any. When a change to a value (push, pop, shift, unshift, insert, append, remove, resize, writing to an existing element, arithmetic and text functions in place on flat values) is refused, the value is what it was, with the type, shape and elements it had. An operation that only reads leaves its operand as it is whether refused or not, and no operation changes its second operand, nor the array that operand is an element of.",
  ["inputs", "configurations"], "16 kinds of operands in every combination, about 60 operations, all indexes within bounds, symbolic elements, second operands by value and as elements",
  "Tests apply operations to operands they suit.",
  ["lube/var.cpp", "lube/heap.cpp", "lube/func.cpp", "lube/math.cpp", "lube/view.cpp", "lube/string.cpp"], m("checks before changes @ lube/var.cpp push, insert, unshift, resize", "broadcasting @ lube/func.cpp broadcast"), observe=["type, size, shape and elements before and after"])
p("N03", "Plot widget shows the data given",
  "A plot made from data shows that data.",
  ["inputs"], "all data",
  "No test runs it here.",
  ["lube/qwt.cpp"], m("plot widget @ lube/qwt.cpp"), na="Needs Qt/Qwt, which are not installed, so the module is not even compiled by this build; there is nothing to encode.")

def main():
    with open(V + "/properties.jsonl", "w") as f:
        for x in P:
            a = {"files": x["files"], "mechanism": x["mech"]}
            if x["observe"]:
                a["observe_at"] = list(x["observe"])
            a["hook_needed"] = None
            f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"], "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"], "anchors": a}, ensure_ascii=False) + "\n")
    checks, na = [], []
    for x in P:
        if x["na"]:
            na.append({"property": x["id"], "reason": x["na"]}); continue
        if not glob.glob("%s/harness/%s*.cpp" % (V, x["id"])):
            na.append({"property": x["id"], "reason": "check not built yet"}); continue
        checks.append({"property": x["id"],
            "quick_cmd": "python3 check.py %s --tier quick" % x["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % x["id"],
            "technique": "symbolic execution of the LLVM bitcode of the current source, obligations decided by Z3, counterexamples replayed natively",
            "level": "model_checking",
            "level_note": (x["note"] + " " if x["note"] else "") + "Every assertion and every memory access on every path within the bounds in the harness header (harness/%s*.cpp, repeated in the evidence) is decided for all values by the solver; trusted: clang's code generation, the executor, the runtime models in rt/ (C and C++ library, BLAS and library stand-ins)." % x["id"]})
    man = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "check.py builds the executor and the bitcode of /repo's current lube/*.cpp, runs harness/<id>*.cpp symbolically and replays counterexamples against a native build of the same sources. known_findings.txt lists repaired defects and recorded findings. No hooks are used."}
    json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
    print(len(checks), "checks,", len(na), "not applicable")
if __name__ == "__main__":
    main()
