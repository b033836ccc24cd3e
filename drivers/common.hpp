// Script interpreter shared by the drivers: reads "op arg arg ..." lines on stdin, calls
// step(op, args, result) and prints "@{r,x,s}" where s is the state read back through the public API.
#pragma once
#include "lib.hpp"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>

typedef std::vector<long long> Ints;

struct Arg {
    bool isStr = false, isList = false;
    long long i = 0;
    Ints s;                 // string: bytes
    std::vector<Arg> l;     // list of strings
    std::string str() const { std::string r; for (long long c : s) r += (char) c; return r; }
};
typedef std::vector<Arg> Args;

// result builder: JSON array text
struct Res {
    std::string j;
    bool first = true;
    void sep() { if (!first) j += ","; first = false; }
    Res &i(long long v) { sep(); j += std::to_string(v); return *this; }
    Res &raw(const std::string &v) { sep(); j += v; return *this; }
    Res &list(const Ints &v) { sep(); j += "["; for (size_t k = 0; k < v.size(); ++k) { if (k) j += ","; j += std::to_string(v[k]); } j += "]"; return *this; }
    Res &str(const std::string &v) { Ints x; for (unsigned char c : v) x.push_back(c); return list(x); }
    Res &flat(const Ints &v) { for (long long x : v) i(x); return *this; }
    Res &open() { sep(); j += "["; first = true; return *this; }
    Res &close() { j += "]"; first = false; return *this; }
    std::string get() const { return "[" + j + "]"; }
    void clear() { j.clear(); first = true; }
    // 64-bit value as four 16-bit limbs, least significant first
    Res &limbs(unsigned long long v) { Ints x; for (int k = 0; k < 4; ++k) x.push_back((v >> (16 * k)) & 0xffff); return list(x); }
    Res &limbs32(unsigned int v) { Ints x; x.push_back(v & 0xffff); x.push_back(v >> 16); return list(x); }
};

inline unsigned long long fromLimbs(const Ints &s) { unsigned long long v = 0; for (size_t k = 0; k < s.size(); ++k) v |= (unsigned long long) s[k] << (16 * k); return v; }

void step(const std::string &op, const Args &a, Res &r);   // provided by the driver
void project(Res &s);                                      // provided by the driver: current abstract state
[[noreturn]] inline void badScript(const std::string &why) { fprintf(stderr, "bad script: %s\n", why.c_str()); _exit(97); }

inline bool parseArg(const std::string &t, size_t &p, Arg &o) {
    if (t[p] == '[') {
        o.isList = true; ++p;
        while (t[p] != ']') { Arg e; if (!parseArg(t, p, e)) return false; o.l.push_back(e); if (t[p] == ',') ++p; }
        ++p; return true;
    }
    if (t[p] == 'x') {
        o.isStr = true; ++p;
        while (p < t.size() && (isdigit((unsigned char) t[p]) || t[p] == '-')) {
            char *e; o.s.push_back(strtoll(t.c_str() + p, &e, 10)); p = e - t.c_str();
            if (p < t.size() && t[p] == ',' && p + 1 < t.size() && (isdigit((unsigned char) t[p + 1]) || t[p + 1] == '-')) ++p; else break;
        }
        return true;
    }
    char *e; o.i = strtoll(t.c_str() + p, &e, 10);
    if (e == t.c_str() + p) return false;
    p = e - t.c_str(); return true;
}

#ifndef CUR
#define CUR
#endif
#define CATCHES(xv) \
    catch (const Java::Lang::IndexOutOfBoundsException &) { xv = "index"; } \
    catch (const Java::Lang::NumberFormatException &) { xv = "number"; } \
    catch (const Java::Lang::ArithmeticException &) { xv = "arith"; } \
    catch (const Java::Lang::IllegalArgumentException &) { xv = "illegal"; } \
    catch (const Java::Lang::InterruptedException &) { xv = "interrupted"; } \
    catch (const Java::Lang::NegativeArraySizeException &) { xv = "negsize"; } \
    catch (const Java::Lang::RuntimeException &e) { xv = excName(typeid(e).name()); } \
    catch (const Java::Lang::Exception &e) { xv = excName(typeid(e).name()); } \
    catch (const Java::Lang::Throwable &e) { xv = excName(typeid(e).name()); } \
    catch (const std::exception &) { xv = "std"; }

inline std::string excName(const std::string &n) {
    if (n.find("EmptyStack") != std::string::npos) return "emptystack";
    if (n.find("NoSuchElement") != std::string::npos) return "nosuch";
    if (n.find("NoSuchAlgorithm") != std::string::npos) return "nosuchalg";
    if (n.find("UnsupportedEncoding") != std::string::npos) return "encoding";
    if (n.find("MediaType") != std::string::npos) return "mediatype";
    if (n.find("Assertion") != std::string::npos) return "assert";
    return "other";
}

inline void onAlarm(int) { _exit(14 + 128); }

// Heap blocks allocated while the code under test runs and not yet released (asked for by the call "mark").
#if defined(__SANITIZE_ADDRESS__) && !defined(NO_DRIVER_MAIN)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
namespace heap {
    static const size_t N = 1 << 20;
    static const volatile void *slot[N];
    static volatile bool on = false, ready = false;
    static volatile int lock_ = 0;
    static long held = 0;
    inline size_t at(const volatile void *p) { return (((size_t) p >> 4) * 0x9E3779B97F4A7C15ull) >> 44; }
    static void take() { while (__sync_lock_test_and_set(&lock_, 1)) {} }
    static void drop() { __sync_lock_release(&lock_); }
    static void got(const volatile void *p, size_t) {
        if (!on || !p) return;
        take();
        if (held < (long) N / 2) { size_t k = at(p); while (slot[k]) k = (k + 1) & (N - 1); slot[k] = p; ++held; }
        drop();
    }
    static void gone(const volatile void *p) {
        if (!ready || !p) return;
        take();
        size_t k = at(p);
        while (slot[k] && slot[k] != p) k = (k + 1) & (N - 1);
        if (slot[k]) {
            --held;
            for (size_t h = k;;) {                     // close the gap
                slot[k] = nullptr;
                for (;;) {
                    h = (h + 1) & (N - 1);
                    if (!slot[h]) { drop(); return; }
                    size_t w = at(slot[h]);
                    if (k <= h ? (w <= k || w > h) : (w <= k && w > h)) break;
                }
                slot[k] = slot[h]; k = h;
            }
        }
        drop();
    }
    inline void start() { if (getenv("HEAP_MARKS")) { ready = true; __sanitizer_install_malloc_and_free_hooks(got, gone); } }
    inline void watch(bool b) { on = b && ready; }
}
#else
namespace heap { static long held = 0; inline void start() {} inline void watch(bool) {} }
#endif

#ifndef NO_DRIVER_MAIN
int main(int argc, char **argv) {
    int each = argc > 1 ? atoi(argv[1]) : 20;
    signal(SIGALRM, SIG_DFL);
    std::ios::sync_with_stdio(false);
    heap::start();
    std::string line;
    setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    while (std::getline(std::cin, line)) {
        size_t p = line.find(' ');
        std::string op = line.substr(0, p);
        Args args;
        while (p != std::string::npos && p < line.size()) {
            while (p < line.size() && line[p] == ' ') ++p;
            if (p >= line.size()) break;
            Arg a; if (!parseArg(line, p, a)) badScript(line);
            args.push_back(a);
        }
        fflush(stdout);
        if (op == "mark") { printf("@{\"r\":[%ld],\"x\":\"\",\"s\":[]}\n", heap::held); continue; }
        alarm(each);
        Res r, s; std::string x;
        heap::watch(true);
        try { step(op, args, r); } CATCHES(x)
        heap::watch(false);
        if (!x.empty()) r.clear();
        std::string px;
        heap::watch(true);
        try { project(s); } CATCHES(px)
        heap::watch(false);
        if (!px.empty()) { s.clear(); x = "PROJECT-" + px; }
        alarm(0);
        printf("@{\"r\":%s,\"x\":\"%s\",\"s\":%s}\n", r.get().c_str(), x.c_str(), s.get().c_str());
    }
    fflush(stdout);
    _exit(0);
}
#endif
