// Native meaning of the specification functions, for replaying a counterexample on the compiled code.
// usage: prog CONTRACT seeds FROM TO PROGRESSFILE CONSTFILE | prog CONTRACT model MODELFILE | prog CONTRACT show SEED CONSTFILE
#include "vc.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <string>
#include <unistd.h>
#include <vector>
namespace {
struct Discard {};
uint64_t rng_state;
uint64_t rnd()
{
    rng_state += 0x9E3779B97F4A7C15ull;
    uint64_t z = rng_state;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
double uni() { return (double)(rnd() >> 11) / 9007199254740992.0; }
bool exact = false, floaty = false, boundary = false, use_model = false, show = false;
int profile = 0;
std::map<std::string, double> model;
std::map<std::string, int> count;
std::vector<double> consts, drawn;
std::vector<void*> blocks;
double tol()
{
    return floaty ? 2e-3 : 1e-6;
}
std::string key(const char* n)
{
    std::string s = n;
    int k = count[s]++;
    return s + "#" + std::to_string(k);
}
void say(const std::string& n, double v)
{
    if (show) { std::printf("INPUT %s %.17g\n", n.c_str(), v); std::fflush(stdout); }
}
bool from_model(const std::string& k, double& v)
{
    if (!use_model) return false;
    auto it = model.find(k);
    if (it == model.end()) { v = 0; return true; }
    v = it->second;
    return true;
}
double pick()
{
    switch (rnd() % (profile == 1 ? 6 : 12)) {
        case 0: return uni();
        case 1: return 2 * uni() - 1;
        case 2: return 20 * uni() - 10;
        case 3: return 0.0;
        case 4: { static const double c[] = {1, -1, 0.5, 2, -0.5, 3, 1e-3, 100, -100, 0.25}; return c[rnd() % 10]; }
        case 5: return std::exp(uni() * 12 - 5);
        case 6: return 2000 * uni() - 1000;
        case 7: if (!consts.empty()) return consts[rnd() % consts.size()]; return uni();
        case 8: if (!consts.empty()) { double d = consts[rnd() % consts.size()]; return d * (1 + (uni() - 0.5) * 0.2); } return uni();
        case 9: if (!consts.empty()) { double d = consts[rnd() % consts.size()]; return d + (2 * uni() - 1); } return uni();
        case 10: if (!drawn.empty()) return drawn[rnd() % drawn.size()]; return uni();
        default: return std::floor(20 * uni()) - 5;
    }
}
double pickfp(bool f)
{
    switch (rnd() % 8) {
        case 0: { static const double c[] = {0.0, -0.0, 1, -1, INFINITY, -INFINITY, NAN, 1e300, -1e300, 1e-310, 1e38, 3e9, 5e-324, 1e20}; double v = c[rnd() % 14]; return f ? (double)(float)v : v; }
        case 1: if (f) { uint32_t u = (uint32_t)rnd(); float x; std::memcpy(&x, &u, 4); return x; } else { uint64_t u = rnd(); double x; std::memcpy(&x, &u, 8); return x; }
        default: return pick();
    }
}
int64_t picki(int bits, bool sg)
{
    int64_t v;
    switch (rnd() % 8) {
        case 0: v = (int64_t)(rnd() % 4); break;
        case 1: v = (int64_t)(rnd() % 32); break;
        case 2: v = (int64_t)(rnd() % 300); break;
        case 3: v = (int64_t)rnd(); break;
        case 4: { static const int64_t c[] = {0, -1, 1, 127, 128, 255, 256, 32767, 65535, 65536, INT32_MAX, INT32_MIN, (int64_t)UINT32_MAX, INT64_MAX, INT64_MIN}; v = c[rnd() % 15]; break; }
        case 5: v = consts.empty() ? 2 : (int64_t)std::fmax(-9e18, std::fmin(9e18, consts[rnd() % consts.size()])) + (int64_t)(rnd() % 3) - 1; break;
        case 6: v = (int64_t)(rnd() >> (rnd() % 64)); break;
        default: v = (int64_t)(rnd() % 11) - 5; break;
    }
    uint64_t u = (uint64_t)v;
    if (bits < 64) {
        u &= (1ull << bits) - 1;
        if (sg && (u >> (bits - 1))) u |= ~((1ull << bits) - 1);
    }
    return (int64_t)u;
}
int64_t geti(const char* n, int bits, bool sg)
{
    std::string k = key(n);
    double m;
    int64_t v = from_model(k, m) ? (int64_t)m : picki(bits, sg);
    say(k, (double)v);
    return v;
}
void unit(const char* n, double* v, int d)
{
    std::string b = key(n);
    double s = 0;
    for (int i = 0; i < d; ++i) {
        double m;
        v[i] = from_model(b + "[" + std::to_string(i) + "]", m) ? m : (rnd() % 5 == 0 ? 0.0 : 2 * uni() - 1);
        s += v[i] * v[i];
    }
    if (!(s > 1e-12)) { v[0] = 1; s = 1; for (int i = 1; i < d; ++i) v[i] = 0; }
    for (int i = 0; i < d; ++i) { v[i] /= std::sqrt(s); say(b + "[" + std::to_string(i) + "]", v[i]); }
}
} // namespace
#define NOSAN __attribute__((no_sanitize("undefined")))
extern "C" {
double vc_real(const char* n)
{
    std::string k = key(n);
    double v;
    if (!from_model(k, v)) v = exact ? pickfp(false) : pick();
    drawn.push_back(v);
    say(k, v);
    return v;
}
NOSAN float vc_float(const char* n)
{
    floaty = true;
    std::string k = key(n);
    double v;
    if (!from_model(k, v)) v = exact ? pickfp(true) : pick();
    float f = (float)v;
    drawn.push_back(f);
    say(k, f);
    return f;
}
bool vc_bool(const char* n) { std::string k = key(n); double m; bool b = from_model(k, m) ? m != 0 : (rnd() & 1); say(k, b); return b; }
int8_t vc_i8(const char* n) { return (int8_t)geti(n, 8, true); }
uint8_t vc_u8(const char* n) { return (uint8_t)geti(n, 8, false); }
uint16_t vc_u16(const char* n) { return (uint16_t)geti(n, 16, false); }
int32_t vc_i32(const char* n) { return (int32_t)geti(n, 32, true); }
uint32_t vc_u32(const char* n) { return (uint32_t)geti(n, 32, false); }
int64_t vc_i64(const char* n) { return geti(n, 64, true); }
uint64_t vc_u64(const char* n) { return (uint64_t)geti(n, 64, false); }
int64_t vc_range(const char* n, int64_t lo, int64_t hi)
{
    std::string k = key(n);
    double m;
    int64_t v;
    if (from_model(k, m)) v = (int64_t)m;
    else if (rnd() % 3 && hi - lo > 40) v = lo + (int64_t)(rnd() % 40);
    else v = lo + (int64_t)(rnd() % ((uint64_t)(hi - lo) + 1));
    if (!use_model && v > 4096) v = lo + v % 64 <= hi ? lo + v % 64 : v;
    if (v < lo || v > hi) throw Discard();
    say(k, (double)v);
    return v;
}
int64_t vc_index(const char* n, int64_t cnt)
{
    if (cnt <= 0) throw Discard();
    std::string k = key(n);
    double m;
    int64_t v = from_model(k, m) ? (int64_t)m : (int64_t)(rnd() % (uint64_t)cnt);
    if (v < 0 || v >= cnt) throw Discard();
    say(k, (double)v);
    return v;
}
void vc_unit3(const char* n, double* v) { unit(n, v, 3); }
void vc_unit4(const char* n, double* v) { unit(n, v, 4); }
void* vc_bytes(const char* n, size_t cnt, int kind)
{
    std::string k = key(n);
    if (cnt > (1u << 22)) throw Discard();
    size_t es = kind == 0 ? 1 : kind == 1 || kind == 3 ? 4 : 8;
    char* p = (char*)std::malloc(cnt * es ? cnt * es : 1);
    blocks.push_back(p);
    if (kind == 1) floaty = true;
    for (size_t i = 0; i < cnt; ++i) {
        if (kind == 0) ((uint8_t*)p)[i] = (uint8_t)picki(8, false);
        else if (kind == 1) ((float*)p)[i] = (float)(exact ? pickfp(true) : pick());
        else if (kind == 2) ((double*)p)[i] = exact ? pickfp(false) : pick();
        else if (kind == 4) ((uint64_t*)p)[i] = (uint64_t)picki(64, false);
        else ((int32_t*)p)[i] = (int32_t)picki(32, true);
        double m;
        if (use_model && from_model(k + "[" + std::to_string(i) + "]", m)) {
            if (kind == 0) ((uint8_t*)p)[i] = (uint8_t)m; else if (kind == 1) ((float*)p)[i] = (float)m; else if (kind == 2) ((double*)p)[i] = m; else if (kind == 4) ((uint64_t*)p)[i] = (uint64_t)m; else ((int32_t*)p)[i] = (int32_t)m;
        }
        if (show && i < 64) say(k + "[" + std::to_string(i) + "]", kind == 0 ? ((uint8_t*)p)[i] : kind == 1 ? ((float*)p)[i] : kind == 2 ? ((double*)p)[i] : ((int32_t*)p)[i]);
    }
    return p;
}
void* vc_array(const char* n, size_t cnt, int kind, int lanes) { return vc_bytes(n, cnt * (size_t)lanes, kind); }
void vc_assume(bool c) { if (!c) throw Discard(); }
void vc_check(bool c, const char* n)
{
    if (c) return;
    if (boundary) throw Discard();
    std::printf("FAILED %s\n", n);
    std::fflush(stdout);
    _exit(3);
}
void vc_lemma(bool c, const char* n) { vc_check(c, n); }
void vc_cover(const char*) {}
bool vc_and(bool a, bool b) { return a && b; }
bool vc_or(bool a, bool b) { return a || b; }
bool vc_not(bool a) { return !a; }
bool vc_implies(bool a, bool b) { return !a || b; }
bool vc_iff(bool a, bool b) { return a == b; }
double vc_if(bool c, double a, double b) { return c ? a : b; }
int64_t vc_ifi(bool c, int64_t a, int64_t b) { return c ? a : b; }
static bool close(double a, double b)
{
    if (a == b) return true;
    double m = std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b)));
    return std::fabs(a - b) <= tol() * m;
}
bool vc_eq(double a, double b)
{
    if (exact) return a == b;
    if (a == b) return true;
    if (!close(a, b)) return false;
    return true;
}
bool vc_le(double a, double b)
{
    if (exact || a == b) return a <= b;
    if (close(a, b)) { boundary = true; return true; }
    return a <= b;
}
bool vc_lt(double a, double b)
{
    if (exact || a == b) return a < b;
    if (close(a, b)) boundary = true;
    return a < b;
}
bool vc_same(double a, double b) { return (a != a && b != b) || vc_eq(a, b); }
bool vc_isnan(double a) { return a != a; }
bool vc_split(bool c) { return c; }
void vc_option(const char*) {}
void vc_hint(int64_t) {}
void vc_witness(int64_t) {}
void vc_trusted(const char*) {}
void vc_bounded(const char*) {}
}
static void reset(uint64_t seed)
{
    rng_state = seed * 0xD1342543DE82EF95ull + 12345;
    profile = (int)(rnd() % 3);
    count.clear();
    drawn.clear();
    boundary = false;
    for (void* b : blocks) std::free(b);
    blocks.clear();
}
int main(int argc, char** argv)
{
    std::string name = argv[1], what = argv[2];
    exact = name.rfind("FP__", 0) == 0 || name.rfind("BV__", 0) == 0;
    auto fn = (void (*)())dlsym(RTLD_DEFAULT, ("vc_contract__" + name).c_str());
    if (!fn) { std::printf("no such contract\n"); return 9; }
    auto readconsts = [&](const char* f) {
        if (FILE* p = std::fopen(f, "r")) { double d; while (std::fscanf(p, "%lf", &d) == 1) consts.push_back(d); std::fclose(p); }
    };
    long done = 0;
    auto one = [&](uint64_t seed) {
        reset(seed);
        try { fn(); ++done; } catch (const Discard&) {}
    };
    if (what == "model") {
        use_model = show = true;
        FILE* p = std::fopen(argv[3], "r");
        char k[512]; double d;
        while (p && std::fscanf(p, "%511s %lf", k, &d) == 2) model[k] = d;
        if (p) std::fclose(p);
        one(1);
    } else if (what == "show") {
        show = true;
        readconsts(argv[4]);
        one(std::strtoull(argv[3], nullptr, 10));
    } else {
        uint64_t a = std::strtoull(argv[3], nullptr, 10), b = std::strtoull(argv[4], nullptr, 10);
        int fd = ::open(argv[5], O_RDWR | O_CREAT, 0600);
        readconsts(argv[6]);
        for (uint64_t s = a; s < b; ++s) {
            (void)!::pwrite(fd, &s, 8, 0);
            one(s);
        }
    }
    std::printf("DONE %ld\n", done);
    std::fflush(stdout);
    _exit(0);
}
