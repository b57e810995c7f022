//! time_quick: 100
//! time_thorough: 850
//! bound: 1 to 3 channels, 0 to 4 (thorough 6) frames, and 1 to 5 of 8 to 40 frames, 257 and 1030 frames with one symbolic sample; samples of any bit pattern, rates of 1 to 192000, arrays and views (offset 1), opening or transferring fails; a second file after it
//! max_instr: 40000000
//! assume: libsndfile is replaced by a stand-in storing the floats as they are
#include "mathops.h"
namespace libube { extern "C" void factory_sndfile(Module** oModule, var iArg); }
enum { F = THOROUGH ? 6 : 4 };
struct Snd {
    Module* m; file* f;
    Snd(var a) { m = 0; factory_sndfile(&m, a); f = dynamic_cast<file*>(m); CHECK(f != 0, "a file handler"); }
    ~Snd() { delete m; }
};
static float sample(const char* n) { unsigned long u = __sym_bits(n, 32); return f_of(u); }
// what the file holds
static void stored(int ch, int fr, int rate, float* d) {
    char b[16 + 4 * 64]; long n = 16 + 4l * ch * fr;
    CHECK(__vfs_size("file") == n && __vfs_get("file", b, sizeof b) == n, "number of samples in the file");
    int h[3]; memcpy(h, b, 12); CHECK(h[0] == rate, "rate"); CHECK(h[1] == ch, "channels"); CHECK(h[2] == fr, "frames");
    bool ok = true; for (int i = 0; i < ch * fr; i++) ok &= !memcmp(b + 16 + 4 * i, d + i, 4);
    CHECK(ok, "every sample of every channel is stored");
}
static const int CH[] = {1, 2, 3, 5};
HARNESS(reading) {
    __vfs_path("file"); { error warm("x"); }
    long mk = __sym_leak_mark();
    {
        int ch = num("channels", 1, 4), fr = ch == 4 ? 0 : num("frames", 0, F); if (ch == 4) { ch = CH[num("larger", 0, 3)]; fr = ch == 1 ? 40 : ch == 2 ? 17 : ch == 5 ? 8 : 12; } int rate = (int)__sym_range("rate", 1, 192000);
        float d[64]; for (int i = 0; i < ch * fr; i++) d[i] = sample("sample");
        __stub_snd_put("file", rate, ch, fr, d);
        int own = num("attributes", 0, 1); var attr; if (own) attr["rate"] = 1;
        Snd s(attr); int fault = num("fault", 0, 2);
        if (fault) {
            __stub_snd_fault(fault == 1, fr - 1);
            if (fault == 1 || fr > 0) CHECK(throws([&] { s.f->read(__vfs_path("file")); }), "a file that cannot be read is refused");
            CHECK(__stub_snd_live() == 0, "no file stays open");
            __stub_snd_fault(0, -1);
        }
        for (int again = 0; again < 2; again++) {
            var v = s.f->read(__vfs_path("file"));
            CHECK(__stub_snd_live() == 0, "no file stays open");
            if (own) CHECK(attr["rate"].get<int>() == rate, "rate");
            CHECK(v.atype<float>() && v.size() == ch * fr, "all samples");
            // a single sample is a scalar, as anywhere in the library
            if (ch == 1) CHECK(v.heap() ? v.dim() == 1 : fr == 1, "one channel is a vector");
            else { CHECK(v.dim() == 2 && v.shape(0) == ch && v.shape(1) == fr, "one row per channel"); }
            bool ok = true;
            for (int c = 0; c < ch; c++) for (int i = 0; i < fr; i++) { float x = ch == 1 ? v[i].get<float>() : v(c, i).get<float>(); ok &= !memcmp(&x, &d[i * ch + c], 4); }
            CHECK(ok, "every sample of every channel");
        }
        stored(ch, fr, rate, d);
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("reading end");
}
HARNESS(writing) {
    __vfs_path("file"); { error warm("x"); }
    long mk = __sym_leak_mark();
    {
        int mat = num("matrix", 0, 1), ch = mat ? num("channels", 1, 4) : 1, fr = ch == 4 ? 0 : num("frames", 1, F + 1 - mat); if (ch == 4) { ch = CH[num("larger", 1, 3)]; fr = ch == 2 ? 17 : ch == 5 ? 8 : 12; } else if (fr == F + 1) fr = 40; int vw = mat ? 1 : num("view", 0, 1), rate = (int)__sym_range("rate", 1, 192000);
        float d[64]; Shape sh = mat ? shape(ch, fr) : shape(fr);
        Arr a; sym_arr(a, TYPE_FLOAT, sh, 1, vw);
        for (int c = 0; c < ch; c++) for (int i = 0; i < fr; i++) d[i * ch + c] = f_of(a.at(c * fr + i).a);
        var attr; attr["rate"] = rate;
        Snd s(attr); int fault = num("fault", 0, 2);
        if (fault) {
            __stub_snd_fault(fault == 1, fr - 1);
            CHECK(throws([&] { s.f->write(__vfs_path("file"), a.v); }), "a file that cannot be written is refused");
            CHECK(__stub_snd_live() == 0, "no file stays open");
            __stub_snd_fault(0, -1);
        }
        s.f->write(__vfs_path("file"), a.v);
        CHECK(__stub_snd_live() == 0, "no file stays open");
        stored(ch, fr, rate, d);
        a.check("the array is left alone");
        CHECK(attr["rate"].get<int>() == rate, "the attributes are left alone");
        // and back
        var v = s.f->read(__vfs_path("file"));
        CHECK(v.size() == ch * fr, "read back");
        bool ok = true; for (int i = 0; i < ch * fr; i++) { float x = v.view() ? v.at(i / fr).view() ? v(i / fr, i % fr).get<float>() : v(i / fr, i % fr).get<float>() : v[i].get<float>(); ok &= bits_of(x) == a.at(i).a; }
        CHECK(ok, "read back");
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("writing end");
}
HARNESS(huge) { // as many frames as recordings have; one sample symbolic
    __vfs_path("file"); { error warm("x"); }
    long mk = __sym_leak_mark();
    {
        int ch = num("channels", 1, 2), fr = num("size", 0, 1) ? 1030 : 257, n = ch * fr, at = num("at", 0, 2); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1; int wr = num("write", 0, 1);
        static float d[2100]; for (int i = 0; i < n; i++) d[i] = i == at ? sample("sample") : (float)(i % 512);
        var attr; attr["rate"] = 16000; Snd s(attr); var v;
        if (wr) {
            v = ch == 1 ? var(fr, 0.0f) : libube::view({2, fr}, 0.0f);
            for (int c = 0; c < ch; c++) for (int i = 0; i < fr; i++) if (ch == 1) v[i] = d[i]; else v(c, i) = d[i * ch + c];
            s.f->write(__vfs_path("file"), v);
            static char b[16 + 8400]; CHECK(__vfs_get("file", b, sizeof b) == 16 + 4l * n, "number of samples in the file");
            bool ok = true; for (int i = 0; i < n; i++) ok &= !memcmp(b + 16 + 4 * i, d + i, 4); CHECK(ok, "every sample of every channel is stored");
        } else __stub_snd_put("file", 16000, ch, fr, d);
        var r = s.f->read(__vfs_path("file")); CHECK(__stub_snd_live() == 0, "no file stays open");
        CHECK(r.atype<float>() && r.size() == n && r.dim() == ch, "all samples");
        bool ok = true;
        for (int c = 0; c < ch; c++) for (int i = 0; i < fr; i++) { float x = ch == 1 ? r[i].get<float>() : r(c, i).get<float>(); ok &= bits_of(x) == bits_of(d[i * ch + c]); }
        CHECK(ok, "every sample of every channel");
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("huge end");
}
HARNESS(refused) {
    __vfs_path("file"); { error warm("x"); }
    long mk = __sym_leak_mark();
    {
        int kind = num("kind", 0, 6); var attr; attr["rate"] = 8000;
        if (kind < 6) {
            // anything but floats
            var v;
            switch (kind) {
            case 0: v = var(3, 1); break;
            case 1: v = var(3, 1.0); break;
            case 2: v = "text"; break;
            case 3: v.push("text"); v.push(1.0f); break;
            case 4: v["key"] = 1.0f; break;
            case 5: v = var(2, cfloat(1, 2)); break;
            }
            Snd s(attr);
            CHECK(throws([&] { s.f->write(__vfs_path("file"), v); }), "samples have to be float");
        }
        else {
            // a rate the format cannot have
            attr["rate"] = (int)__sym_range("rate", -5, 0); Snd s(attr); var v = var(3, 0.5f);
            CHECK(throws([&] { s.f->write(__vfs_path("file"), v); }), "rate");
        }
        CHECK(__stub_snd_live() == 0, "no file stays open");
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("refused end");
}
