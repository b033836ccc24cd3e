// Helpers shared by the container drivers.
#pragma once
#include "elem.hpp"
#include <algorithm>
struct Base { virtual ~Base() {} virtual void step(const std::string &op, const Args &a, Res &r) = 0; virtual void project(Res &s) = 0; };
template <class E, class F> auto withList(const Ints &v, F f) -> decltype(f(std::initializer_list<E>{})) {
    #define M_(k) El<E>::mk(v[k])
    switch (v.size()) {
        case 0: return f(std::initializer_list<E>{});
        case 1: return f({M_(0)});
        case 2: return f({M_(0), M_(1)});
        case 3: return f({M_(0), M_(1), M_(2)});
        case 4: return f({M_(0), M_(1), M_(2), M_(3)});
        case 5: return f({M_(0), M_(1), M_(2), M_(3), M_(4)});
        case 6: return f({M_(0), M_(1), M_(2), M_(3), M_(4), M_(5)});
    }
    badScript("list too long");
}
static CUR Base *cur = nullptr;
Base *make(int kind);
void step(const std::string &op, const Args &a, Res &r) {
    if (op == "new") { delete cur; cur = nullptr; cur = make(a.empty() ? 0 : (int) a[0].i); return; }
    cur->step(op, a, r);
}
void project(Res &s) { cur->project(s); }
void finish() { delete cur; cur = nullptr; }
