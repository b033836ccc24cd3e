#include "seqlib.hpp"
using namespace Java::Lang;
struct Run : Base {
    Ints acc = {0, 0};
    void set(int v) { acc.clear(); for (int k = 0; k < 2; ++k) acc.push_back(((unsigned) v >> (16 * k)) & 0xffff); }
    void set(long v) { acc.clear(); for (int k = 0; k < 4; ++k) acc.push_back(((unsigned long) v >> (16 * k)) & 0xffff); }
    template <class T> void run(const std::string &op, T a, T b) {
        if (op == "add") set(Math::addExact(a, b));
        else if (op == "subtract") set(Math::subtractExact(a, b));
        else if (op == "multiply") set(Math::multiplyExact(a, b));
        else if (op == "increment") set(Math::incrementExact(a));
        else if (op == "decrement") set(Math::decrementExact(a));
        else if (op == "negate") set(Math::negateExact(a));
        else if (op == "floorDiv") set(Math::floorDiv(a, b));
        else if (op == "floorMod") set(Math::floorMod(a, b));
        else if (op == "abs") set(Math::abs(a));
        else if (op == "max") set(Math::max(a, b));
        else if (op == "min") set(Math::min(a, b));
        else badScript(op);
    }
    void step(const std::string &op, const Args &a, Res &) {
        if (op == "toInt") { set(Math::toIntExact((long) fromLimbs(a[0].s))); return; }
        if (a[0].s.size() == 2) run<int>(op, (int) fromLimbs(a[0].s), a.size() > 1 ? (int) fromLimbs(a[1].s) : 0);
        else run<long>(op, (long) fromLimbs(a[0].s), a.size() > 1 ? (long) fromLimbs(a[1].s) : 0);
    }
    void project(Res &s) { s.list(acc); }
};
Base *make(int) { return new Run(); }
