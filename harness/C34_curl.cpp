//! time_quick: 100
//! time_thorough: 850
//! bound: up to 3 (thorough 4) chunks of up to 4 symbolic bytes, or one of 60 to 70; 9 to 29 chunks of up to 16 bytes with one symbolic, one of 4096 or 16384, and 300 of up to 6; any result code of 0 to 99; two transfers with one object, addresses with symbolic bytes
//! max_instr: 40000000
//! assume: libcurl is replaced by a stand-in handing over the chunks in buffers of exactly their size
#include "common.h"
#include <lube/curl.h>
namespace libube { extern "C" void factory_curl(Module** oModule, var iArg); }
static int num(const char* n, int lo, int hi) { return (int)__sym_choice(n, lo, hi); }
static void is_bytes(const var& v, const char* s, int n) {
    CHECK(v.defined() && v.heap() && v.atype<char>() && v.size() == n, "number of bytes received");
    var w = v; bool ok = true; for (int i = 0; i < n; i++) ok &= w[i].get<char>() == s[i];
    CHECK(ok, "bytes received"); CHECK(w.str()[n] == 0, "terminated");
}
static void transfers(int chunks, int big) {
    __stub_log_reset(); { error warm("x"); }
    long mk = __sym_leak_mark();
    {
        Module* m = 0; factory_curl(&m, nil); curl* c = dynamic_cast<curl*>(m); CHECK(c != 0, "a curl");
        char url[4] = {'u', (char)__sym_range("url", 33, 90), (char)__sym_range("url2", 33, 90), 0};
        for (int t = 0; t < (big ? 1 : 2); t++) {
            char d[160]; long len[4]; int n = 0, k = num("chunks", 0, t ? 1 : chunks);
            for (int i = 0; i < k; i++) {
                len[i] = big && !i ? num("big", 60, 70) : num("len", 0, t ? 2 : 4);
                for (int j = 0; j < len[i]; j++) d[n++] = big && !i && j > 1 && j < 58 ? 'x' : (char)__sym_range("byte", -128, 127);
            }
            long res = __sym_range("result", 0, 99);
            __stub_curl_set(d, len, k, (int)res);
            var v; bool bad = throws([&] { v = c->transfer(var(url)); });
            CHECK(bad == (res != 0), "a failed transfer, and no other, is refused");
            CHECK(__stub_curl_live() == 0, "no handle stays open");
            if (!bad) {
                is_bytes(v, d, n);
                char x[16] = "[curl u?\?]"; x[7] = url[1]; x[8] = url[2];
                CHECK(__stub_log_size() == 10 && !memcmp(__stub_log(), x, 10), "the address asked for, once");
            }
            __stub_log_reset();
        }
        delete m;
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("transfers end");
}
HARNESS(chunks) { transfers(THOROUGH ? 4 : 3, 0); }
HARNESS(growth) { transfers(2, 1); }
HARNESS(many) {
    long mk = __sym_leak_mark();
    {
        Module* m = 0; factory_curl(&m, nil); curl* c = dynamic_cast<curl*>(m);
        char d[400]; long len[40]; int n = 0, k = 9 + num("chunks", 0, 2) * 10, at = num("at", 0, 2) * (k - 1) / 2, step = num("step", 0, 2);
        for (int i = 0; i < k; i++) { len[i] = (i * (step + 1) + step) % 17; if (i == at && !len[i]) len[i] = 2; for (int j = 0; j < len[i]; j++) d[n++] = i == at ? (char)__sym_range("byte", -128, 127) : (char)(i + j); }
        for (int again = 0; again < 2; again++) {
            __stub_curl_set(d, len, k, 0); var v = c->transfer("u"); is_bytes(v, d, n); CHECK(__stub_curl_live() == 0, "no handle stays open");
        }
        delete m;
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("many end");
}
HARNESS(huge) { // chunks as large as libcurl hands over, and many of them
    long mk = __sym_leak_mark();
    {
        Module* m = 0; factory_curl(&m, nil); curl* c = dynamic_cast<curl*>(m);
        static char d[40000]; static long len[310]; int kind = num("kind", 0, 2), k = kind == 0 ? 1 : kind == 1 ? 3 : 300, n = 0;
        for (int i = 0; i < k; i++) { len[i] = kind == 0 ? 16384 : kind == 1 ? (i == 1 ? 0 : i ? 1 : 4096) : i % 7; n += len[i]; }
        for (int i = 0; i < n; i++) d[i] = (char)(i * 7 % 253);
        int at = num("at", 0, 3); at = at == 0 ? 0 : at == 1 ? n / 2 : at == 2 ? n - 2 : n - 1; d[at] = (char)__sym_range("byte", -128, 127);
        __stub_curl_set(d, len, k, 0); var v = c->transfer("u"); is_bytes(v, d, n); CHECK(__stub_curl_live() == 0, "no handle stays open");
        delete m;
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("huge end");
}
HARNESS(results_independent) {
    // the strings of two transfers with the same or another object do not share storage
    long mk = __sym_leak_mark();
    {
        Module *m = 0, *q = 0; factory_curl(&m, nil); factory_curl(&q, nil);
        curl* c = dynamic_cast<curl*>(m); curl* e = num("another", 0, 1) ? dynamic_cast<curl*>(q) : c;
        char a = (char)__sym_range("a", -128, 127), b = (char)__sym_range("b", -128, 127); long one = 1;
        __stub_curl_set(&a, &one, 1, 0); var v = c->transfer("u");
        __stub_curl_set(&b, &one, 1, 0); var w = e->transfer("u");
        is_bytes(v, &a, 1); is_bytes(w, &b, 1);
        w.push('x'); is_bytes(v, &a, 1);
        delete m; delete q;
        is_bytes(v, &a, 1);
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("end");
}
HARNESS(no_handle) {
    __stub_log_reset(); { error warm("x"); }
    long mk = __sym_leak_mark();
    {
        Module* m = 0; factory_curl(&m, nil); curl* c = dynamic_cast<curl*>(m);
        char b = (char)__sym_range("byte", -128, 127); long one = 1; __stub_curl_set(&b, &one, 1, 0);
        int first = num("first", 0, 1); var v; if (first) v = c->transfer("u");
        __stub_curl_noinit(1);
        CHECK(throws([&] { v = c->transfer("u"); }), "refused"); CHECK(__stub_curl_live() == 0, "no handle stays open");
        if (first) is_bytes(v, &b, 1);
        __stub_curl_noinit(0);
        v = c->transfer("u"); is_bytes(v, &b, 1);
        delete m;
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("no handle end");
}
