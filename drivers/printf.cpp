#include "seqlib.hpp"
#include "library/Java/Lang/Boolean/Boolean.hpp"
#include "library/Java/Lang/Short/Short.hpp"
#include "library/Java/Lang/Float/Float.hpp"
#include "library/Java/Lang/Double/Double.hpp"
#include <cstring>
using namespace Java::Lang;
struct Val {
    int t; const Ints *v;
    unsigned long long bits() const { unsigned long long x = 0; for (size_t k = v->size(); k-- > 0;) x = x << 16 | (unsigned long long) (*v)[k]; return x; }
    int i() const { return (int) (unsigned) bits(); }
    double d() const { unsigned long long b = bits(); double x; memcpy(&x, &b, 8); return x; }
    std::string s() const { std::string r; for (long long c : *v) r += (char) c; return r; }
};
// hands the argument in its own type to a function object
template <class F> String with(const Val &x, bool, F f) {
    std::string s; std::vector<char> own;
    switch (x.t) {
        case 0: return f(x.i());
        case 1: return f((long) x.bits());
        case 7: return f(x.d());
        case 10: s = x.s(); return f(String(s.c_str()));
        case 11: return f((bool) (*x.v)[0]);
    }
    badScript("type " + std::to_string(x.t));
}
template <class F> String with1(const Val &x, F f) {
    std::string s;
    switch (x.t) {
        case 2: return f((long long) x.bits());
        case 3: return f((short) x.i());
        case 4: return f((unsigned short) x.i());
        case 5: return f((unsigned int) x.i());
        case 6: return f((unsigned long) x.bits());
        case 8: return f((float) x.d());
        case 9: s = x.s(); return f((const_string) s.c_str());
        case 12: return f(Boolean((boolean) (*x.v)[0]));
        case 13: return f(Short((short) x.i()));
        case 14: return f(Integer(x.i()));
        case 15: return f(Long((long) x.bits()));
        case 16: return f(Float((float) x.d()));
        case 17: return f(Double(x.d()));
        case 18: return f((char) x.i());
        case 19: s = x.s(); return f(&s[0]);
    }
    return with(x, false, f);
}
struct One { const String &f; template <class X> String operator()(X x) const { return String::format(f, x); } };
template <class A> struct Two2 { const String &f; A a; template <class X> String operator()(X x) const { return String::format(f, a, x); } };
struct Two { const String &f; const Val &y; template <class X> String operator()(X x) const { return with(y, true, Two2<X>{f, x}); } };
template <class A, class B> struct Three3 { const String &f; A a; B b; template <class X> String operator()(X x) const { return String::format(f, a, b, x); } };
template <class A> struct Three2 { const String &f; A a; const Val &z; template <class X> String operator()(X x) const { return with(z, true, Three3<A, X>{f, a, x}); } };
struct Three { const String &f; const Val &y, &z; template <class X> String operator()(X x) const { return with(y, true, Three2<X>{f, x, z}); } };
struct Run : Base {
    void step(const std::string &op, const Args &a, Res &r) {
        if (op != "format") badScript(op);
        String f(a[0].str().c_str()); std::vector<Val> v;
        for (size_t k = 0; k < a[1].s.size(); ++k) v.push_back(Val{(int) a[1].s[k], &a[2].l[k].s});
        String out;
        if (v.empty()) out = String::format(f);
        else if (v.size() == 1) out = with1(v[0], One{f});
        else if (v.size() == 2) out = with(v[0], true, Two{f, v[1]});
        else if (v.size() == 3) out = with(v[0], true, Three{f, v[1], v[2]});
        else badScript("arguments");
        r.str(std::string(out));
    }
    void project(Res &s) { (void) s; }
};
Base *make(int) { return new Run(); }
