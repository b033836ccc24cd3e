#include "seqlib.hpp"
#include "library/Java/Lang/Boolean/Boolean.hpp"
#include "library/Java/Lang/System/System.hpp"
#include "library/Java/Lang/Error/Error.hpp"
#include "library/Java/Lang/IllegalArgumentException/IllegalArgumentException.hpp"
#include "library/Java/Lang/IndexOutOfBoundsException/IndexOutOfBoundsException.hpp"
#include "library/Java/Lang/ArithmeticException/ArithmeticException.hpp"
#include <stdexcept>
#include <sys/wait.h>
#include <unistd.h>
using namespace Java::Lang;
static std::vector<std::string> seen; static int runs, act; static std::string msg;
static void program(Array<String> args) {
    ++runs; for (String s : args) seen.push_back(std::string(s));
    String m(msg.c_str());
    switch (act) {
        case 1: System::out::println(m); return;
        case 2: throw Exception(m);
        case 3: throw IllegalArgumentException(m);
        case 4: throw IndexOutOfBoundsException(m);
        case 5: throw ArithmeticException(m);
        case 6: throw Error(m);
        case 7: throw 7;
        case 8: throw std::runtime_error(msg);
        case 9: System::out::println(m); throw RuntimeException(m);
    }
}
// what reaches file descriptor 1 while f runs
template <class F> std::string printed(F f) {
    static FILE *t = tmpfile();
    fflush(stdout); std::cout.flush();
    int keep = dup(1); rewind(t); if (ftruncate(fileno(t), 0)) badScript("truncate");
    dup2(fileno(t), 1);
    f();
    std::string out; off_t n = lseek(fileno(t), 0, SEEK_END); out.resize(n);            // before any flush of ours: print must flush
    if (n && pread(fileno(t), &out[0], n, 0) != n) badScript("read");
    fflush(stdout); std::cout.flush();
    dup2(keep, 1); close(keep); lseek(fileno(t), 0, SEEK_SET);
    return out;
}
template <class T> void show(bool line, const T &t) { if (line) System::out::println(t); else System::out::print(t); }
struct Run : Base {
    static std::string name(long long k) { return "VP_LAUNCH_" + std::to_string(k); }
    Run() { for (int k = 0; k < 4; ++k) unsetenv(name(k).c_str()); }
    void step(const std::string &op, const Args &a, Res &r) {
        if (op == "put") setenv(name(a[0].i).c_str(), a[1].str().c_str(), 1);
        else if (op == "drop") unsetenv(name(a[0].i).c_str());
        else if (op == "getenv") r.str(std::string(System::getenv(String(name(a[0].i).c_str()))));
        else if (op == "print" || op == "println") {
            bool l = op == "println"; const Ints &v = a[1].s; std::string s = a[1].str();
            r.str(printed([&] {
                switch (a[0].i) {
                    case 0: show(l, (int) v[0]); break;
                    case 1: show(l, String(s.c_str())); break;
                    case 2: show(l, (const_string) s.c_str()); break;
                    case 3: show(l, (char) v[0]); break;
                    case 4: show(l, Boolean((boolean) v[0])); break;
                    case 5: show(l, Integer((int) v[0])); break;
                    case 6: show(l, (long) v[0]); break;
                    default: badScript("print");
                }
            }));
        }
        else if (op == "app") {
            std::vector<std::string> s; for (auto &x : a[0].l) s.push_back(x.str());
            std::vector<char *> p; for (auto &x : s) p.push_back(&x[0]);
            p.push_back(nullptr);
            seen.clear(); runs = 0; act = (int) a[1].i; msg = a[2].str(); int code = -1;
            std::string out = printed([&] { code = Application(program, (int) s.size(), p.data()); });
            r.i(runs).i(code).open(); for (auto &x : seen) r.str(x); r.close().str(out);
        }
        else if (op == "clock") {
            auto now = [] { return (long) std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::system_clock::now().time_since_epoch()).count(); };
            long before = now(), t = System::currentTimeMillis(), after = now();
            r.i(before <= t && t <= after);
        }
        else if (op == "exit") {
            fflush(stdout); std::cout.flush(); int st = 0; pid_t c = fork();
            if (c == 0) { System::exit((int) a[0].i); _exit(99); }
            waitpid(c, &st, 0); r.i(WIFEXITED(st) ? WEXITSTATUS(st) : -1);
        }
        else badScript(op);
    }
    void project(Res &s) { for (int k = 0; k < 4; ++k) { const char *v = getenv(name(k).c_str()); if (v) s.str(v); else s.open().i(-1).close(); } }
};
Base *make(int) { return new Run(); }
