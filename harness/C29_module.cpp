//! time_quick: 100
//! time_thorough: 850
//! bound: up to 2 loaders at a time and 3 (thorough 4) instances, created and destroyed in any order, or 7 to 33 instances; libraries that are missing, have no factory, or whose factory fails, throws or makes something else; library names with a symbolic character; an error left pending by somebody else
//! assume: the dynamic linker is replaced by a recording stand-in
#include "common.h"
static int num(const char* n, int lo, int hi) { return (int)__sym_choice(n, lo, hi); }
static void ev(const char* s) { __stub_write(s, (long)strlen(s)); }
static int born, dead;
struct Inst : public file {
    int mId; var mArg; bool mAlive;
    Inst(var iArg) { mArg = iArg; mId = born++; mAlive = true; ev("+"); }
    ~Inst() { CHECK(mAlive, "an instance dies once"); mAlive = false; dead++; ev("-"); }
    virtual var read(var) { return mArg; }
    virtual void write(var, var) {}
};
struct Other : public Module { Other() { born++; ev("+"); } ~Other() { dead++; ev("-"); } };
static void make(Module** o, var a) { *o = new Inst(a); }
static void fail(Module** o, var) {}
static void boom(Module** o, var) { throw error("no instance"); }
static void other(Module** o, var) { *o = new Other; }
static bool log_is(const char* s) { return __stub_log_size() == (long)strlen(s) && !memcmp(__stub_log(), s, strlen(s)); }
extern "C" { void* dlopen(const char*, int) noexcept; char* dlerror(void) noexcept; }
static void start() { __stub_dl_reset(); __stub_log_reset(); born = dead = 0; }
static void pending() { if (num("pending_error", 0, 1)) { dlopen("nothing", 1); __stub_log_reset(); } }

HARNESS(lifecycle) {
    { error warm("x"); }
    start();
    long mk = __sym_leak_mark();
    char lib[16]; memcpy(lib, "liba?.so", 9); char c = (char)__sym_range("name", 'a', 'z'); lib[4] = c;
    char name[3] = {'a', c, 0};
    __stub_dl_add("libqq.so", "factory", (void*)boom); __stub_dl_add(lib, "factory", (void*)make);
    pending();
    {
        filemodule* m = new filemodule(var(name));
        char x[64]; int n = 0; const char* p = "[dlopen liba?.so]"; for (const char* q = p; *q; q++) x[n++] = *q == '?' ? c : *q;
        x[n] = 0; CHECK(log_is(x), "the named library is opened once"); CHECK(__stub_dl_live() == 1, "one library open");
        int k = num("instances", 0, THOROUGH ? 4 : 3); file* f[4]; int v[4];
        for (int i = 0; i < k; i++) {
            v[i] = (int)__sym_range("arg", -1000, 1000);
            if (i == 1) { f[i] = &m->create(); } else f[i] = &m->create(var(v[i]));
            CHECK(born == i + 1, "one instance made");
            for (int j = 0; j < i; j++) CHECK(f[i] != f[j], "instances are distinct");
            x[n++] = '+'; x[n] = 0; CHECK(log_is(x), "nothing but a new instance");
        }
        for (int i = 0; i < k; i++) {
            var r = f[i]->read(nil);
            if (i == 1) CHECK(!r.defined(), "no argument"); else CHECK(r.atype<int>() && r.get<int>() == v[i], "the instance's own argument");
        }
        CHECK(dead == 0, "instances live as long as the loader");
        delete m;
        CHECK(dead == k && born == k, "every instance died once");
        for (int i = 0; i < k; i++) x[n++] = '-';
        memcpy(x + n, "[dlclose]", 10); CHECK(log_is(x), "instances die before the library is closed, once");
        CHECK(__stub_dl_live() == 0, "library closed");
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("lifecycle end");
}
HARNESS(failures) {
    { error warm("x"); }
    start();
    long mk = __sym_leak_mark();
    {
        int how = num("failure", 0, 5);
        switch (how) {
        case 0: __stub_dl_add("libzz.so", "factory", (void*)make); break;         // no such library
        case 1: __stub_dl_add("libxx.so", "fabrik", (void*)make); break;          // no factory in it
        case 2: __stub_dl_add("libxx.so", "factory", (void*)fail); break;
        case 3: __stub_dl_add("libxx.so", "factory", (void*)boom); break;
        case 4: __stub_dl_add("libxx.so", "factory", (void*)other); break;        // not a file handler
        }
        pending();
        if (how < 2) {
            CHECK(throws([&] { filemodule m("xx"); }), "a library or factory that is missing is refused");
            CHECK(log_is(how ? "[dlopen libxx.so][dlclose]" : "[dlopen libxx.so]"), "opened and closed again");
        }
        else if (how < 5) {
            {
                filemodule m("xx"); int k = num("attempts", 1, 2);
                for (int i = 0; i < k; i++) CHECK(throws([&] { m.create(7); }), "an instance that cannot be had is refused");
                CHECK(__stub_dl_live() == 1, "library still open");
            }
            CHECK(born == dead, "no instance leaks");
        }
        else {
            // after failing once or twice, create works as usual
            __stub_dl_add("libxx.so", "factory", (void*)make);
            { CHECK(throws([&] { filemodule m("yy"); }), "missing library"); }
            filemodule m("xx"); CHECK(m.create(3).read(nil).get<int>() == 3, "loading after a failure");
        }
    }
    CHECK(__stub_dl_live() == 0, "no library stays open"); CHECK(born == dead, "no instance stays alive");
    __sym_leak_check(mk, "storage");
    __sym_cover("failures end");
}
static int flip;
static void moody(Module** o, var a) { if (a.get<int>() < 0) { if (flip) throw error("negative"); return; } *o = new Inst(a); }
HARNESS(mixed) {
    // any order of successful and failing creations on two loaders of the same or different libraries
    { error warm("x"); }
    start();
    long mk = __sym_leak_mark();
    __stub_dl_add("libone.so", "factory", (void*)moody); __stub_dl_add("libtwo.so", "factory", (void*)moody);
    {
        flip = num("throwing", 0, 1);
        int same = num("same", 0, 1);
        filemodule* m[2] = {new filemodule("one"), new filemodule(same ? "one" : "two")};
        CHECK(__stub_dl_live() == 2, "each loader opens its library");
        file* f[8]; int own[8], val[8], k = 0, left[2] = {0, 0}, steps = THOROUGH ? 5 : 4;
        for (int s = 0; s < steps; s++) {
            int w = num("which", 0, 1); if (!m[w]) continue;
            switch (num("what", 0, 2)) {
            case 0: { int v = (int)__sym_range("arg", 0, 99); f[k] = &m[w]->create(v); own[k] = w; val[k] = v; k++; left[w]++; break; }
            case 1: { int v = (int)__sym_range("neg", -99, -1); CHECK(throws([&] { m[w]->create(v); }), "failing factory"); break; }
            case 2: {
                int d = dead; delete m[w]; m[w] = 0; CHECK(dead == d + left[w], "the loader's own instances die with it"); left[w] = 0;
                CHECK(__stub_dl_live() == (m[0] != 0) + (m[1] != 0), "and its library is closed"); break;
            }
            }
            for (int i = 0; i < k; i++) if (m[own[i]]) CHECK(f[i]->read(nil).get<int>() == val[i], "live instances keep their argument");
        }
        delete m[0]; delete m[1];
        CHECK(born == k && dead == k, "every instance died once");
    }
    CHECK(__stub_dl_live() == 0, "no library stays open");
    __sym_leak_check(mk, "storage");
    __sym_cover("mixed end");
}
// many instances of one loader
HARNESS(many) {
    { error warm("x"); }
    start();
    static const int N[] = {7, 8, 9, 15, 16, 17, 33};
    long mk = __sym_leak_mark();
    __stub_dl_add("libab.so", "factory", (void*)make);
    pending();
    {
        filemodule* m = new filemodule("ab");
        int k = N[num("instances", 0, 6)], at = k - 1 - num("instance", 0, 2) * (k / 3); file* f[40];
        int a = (int)__sym_range("arg", -1000, 1000);
        for (int i = 0; i < k; i++) f[i] = &m->create(var(i == at ? a : i));
        CHECK(born == k && dead == 0, "one instance each");
        for (int i = 0; i < k; i++) {
            for (int j = 0; j < i; j++) CHECK(f[i] != f[j], "instances are distinct");
            var r = f[i]->read(nil); CHECK(r.atype<int>() && r.get<int>() == (i == at ? a : i), "the instance's own argument");
        }
        delete m;
        CHECK(dead == k && born == k, "every instance died once");
        CHECK(__stub_dl_live() == 0, "library closed");
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("many end");
}
