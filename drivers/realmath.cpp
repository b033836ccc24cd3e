#include "seqlib.hpp"
#include <cstring>
using namespace Java::Lang;
template <class P> P in(const Arg &a) { unsigned long long w = fromLimbs(a.s); P p; memcpy(&p, &w, sizeof p); return p; }
static void out(Res &r, float v) { if (v != v) { r.open().close(); return; } unsigned int w; memcpy(&w, &v, 4); r.limbs32(w); }
static void out(Res &r, double v) { if (v != v) { r.open().close(); return; } unsigned long w; memcpy(&w, &v, 8); r.limbs(w); }
static void integer(Res &r, int b) { r.limbs32(b); }
static void integer(Res &r, long b) { r.limbs(b); }
template <class P, class W> struct RunOf : Base {
    void step(const std::string &op, const Args &a, Res &r) {
        if (op == "limits") { out(r, W::MIN_VALUE); out(r, W::MIN_NORMAL); out(r, W::MAX_VALUE); r.i(W::MAX_EXPONENT).i(W::MIN_EXPONENT); return; }
        P x = in<P>(a[0]);
        if (op == "floor") out(r, Math::floor(x));
        else if (op == "ceil") out(r, Math::ceil(x));
        else if (op == "rint") out(r, Math::rint(x));
        else if (op == "sqrt") out(r, Math::sqrt(x));
        else if (op == "rem") out(r, Math::IEEERemainder(x, in<P>(a[1])));
        else if (op == "round") integer(r, Math::round(x));
        else if (op == "nextUp") out(r, Math::nextUp(x));
        else if (op == "nextDown") out(r, Math::nextDown(x));
        else if (op == "nextAfter") out(r, Math::nextAfter(x, (double) in<P>(a[1])));
        else if (op == "ulp") out(r, Math::ulp(x));
        else if (op == "exponent") r.i(Math::getExponent(x));
        else if (op == "scalb") out(r, Math::scalb(x, a[1].s[0]));
        else if (op == "copySign") out(r, Math::copySign(x, in<P>(a[1])));
        else if (op == "signum") out(r, Math::signum(x));
        else if (op == "abs") out(r, Math::abs(x));
        else if (op == "max") out(r, Math::max(x, in<P>(a[1])));
        else if (op == "min") out(r, Math::min(x, in<P>(a[1])));
        else badScript(op);
    }
    void project(Res &) {}
};
Base *make(int k) { if (k == 0) return new RunOf<float, Float>(); return new RunOf<double, Double>(); }
