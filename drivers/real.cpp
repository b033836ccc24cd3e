#include "seqlib.hpp"
#include <cstring>
using namespace Java::Lang;
template <class W> struct K;
template <> struct K<Float> { typedef float prim; typedef unsigned int word; typedef int bits; };
template <> struct K<Double> { typedef double prim; typedef unsigned long word; typedef long bits; };
template <class P> P in(const Arg &a) { unsigned long long w = fromLimbs(a.s); P p; memcpy(&p, &w, sizeof p); return p; }
static void out(Res &r, float v) { unsigned int w; memcpy(&w, &v, 4); r.limbs32(w); }
static void out(Res &r, double v) { unsigned long w; memcpy(&w, &v, 8); r.limbs(w); }
static void bits(Res &r, int b) { r.limbs32(b); }
static void bits(Res &r, long b) { r.limbs(b); }
static float value(const Float &f) { return f.floatValue(); }
static double value(const Double &f) { return f.doubleValue(); }
static int sgn(int c) { return c < 0 ? -1 : c > 0; }
static Float *ofText(const Float *, const String &t) { return new Float(t); }
static Double *ofText(const Double *, const String &t) { return new Double(Double::valueOf(t)); }
static float parse(const Float *, const String &t) { return Float::parseFloat(t).floatValue(); }
static double parse(const Double *, const String &t) { return Double::parseDouble(t).doubleValue(); }
static void conv(const Float *, const Arg &a, Res &r) {
    float v = in<float>(a); bits(r, Float::floatToIntBits(v)); bits(r, Float::floatToRawIntBits(v)); bits(r, Float::hashCode(v));
    r.i(Float::isNaN(v)).i(Float::isInfinite(v)).i(Float::isFinite(v)); Float f(v); r.i(f.isNaN()).i(f.isInfinite());
}
static void conv(const Double *, const Arg &a, Res &r) {
    double v = in<double>(a); bits(r, Double::doubleToLongBits(v)); bits(r, Double::doubleToRawLongBits(v)); bits(r, Double::hashCode(v));
    r.i(Double::isNaN(v)).i(Double::isInfinite(v)).i(Double::isFinite(v)); Double f(v); r.i(f.isNaN()).i(f.isInfinite());
}
static void ofBits(const Float *, const Arg &a, Res &r) { out(r, Float::intBitsToFloat((int) fromLimbs(a.s))); }
static void ofBits(const Double *, const Arg &a, Res &r) { out(r, Double::longBitsToDouble((long) fromLimbs(a.s))); }
template <class W> struct RunOf : Base {
    typedef typename K<W>::prim P;
    W *o[2];
    RunOf() { for (auto &p : o) p = new W((P) 0); }
    ~RunOf() { for (auto p : o) delete p; }
    void put(int k, W *w) { delete o[k]; o[k] = w; }
    W &at(const Arg &a) { return *o[a.i - 1]; }
    void step(const std::string &op, const Args &a, Res &r) {
        W *none = nullptr;
        if (op == "make") { W w(in<P>(a[1])); put(a[0].i - 1, new W(W::valueOf(in<P>(a[1])))); if (w.toString() != at(a[0]).toString()) r.i(-1); }
        else if (op == "int") { if (a[1].i % 2) at(a[0]) = (P) a[1].i; else put(a[0].i - 1, new W((P) a[1].i)); }
        else if (op == "copy") put(a[0].i - 1, new W(at(a[1])));
        else if (op == "assign") at(a[0]) = at(a[1]);
        else if (op == "rel") {
            W &x = at(a[0]), &y = at(a[1]);
            r.i(x == y).i(x != y).i(x < y).i(x > y).i(x <= y).i(x >= y).i(sgn(W::compare(value(x), value(y)))).i(sgn(x.compareTo(y))).i(x.equals(y)); bits(r, x.hashCode()); bits(r, y.hashCode());
        } else if (op == "bits") conv(none, a[0], r);
        else if (op == "ofBits") ofBits(none, a[0], r);
        else if (op == "min") out(r, W::min(in<P>(a[0]), in<P>(a[1])));
        else if (op == "arith") { W x((P) a[1].i), y((P) a[2].i); int f = a[0].i; W v = f == 0 ? x + y : f == 1 ? x - y : f == 2 ? x * y : x / y; out(r, value(v)); if (value(x) != a[1].i || value(y) != a[2].i) r.i(-1); }
        else if (op == "calc") { P p = in<P>(a[1]), q = in<P>(a[2]); W x(p), y(q); int f = a[0].i; W v = f == 0 ? x + y : f == 1 ? x - y : f == 2 ? x * y : x / y; out(r, value(v)); P p2 = value(x), q2 = value(y); if (memcmp(&p, &p2, sizeof p) || memcmp(&q, &q2, sizeof q)) r.i(-1); }
        else if (op == "update") { W &x = at(a[1]); W y(in<P>(a[2])); int f = a[0].i; if (f == 0) x += y; else if (f == 1) x -= y; else if (f == 2) x *= y; else x /= y; }
        else if (op == "change") { W &x = at(a[1]); W y((P) a[2].i); int f = a[0].i; if (f == 0) x += y; else if (f == 1) x -= y; else if (f == 2) x *= y; else x /= y; }
        else if (op == "whole") { W &x = at(a[0]); r.i(x.intValue()); if (x.longValue() != x.intValue()) r.i(-1); if (x.intValue() >= -32768 && x.intValue() <= 32767 && x.shortValue() != x.intValue()) r.i(-2); if (x.intValue() >= 0 && x.intValue() <= 255 && x.byteValue() != x.intValue()) r.i(-3); }
        else if (op == "text") r.str(at(a[0]).toString().toSTLString());
        else if (op == "parse") { String t(std::string(a[1].str())); P v = parse(none, t); W *w = ofText(none, t); P u = value(*w); put(a[0].i - 1, w); out(r, v); if (memcmp(&u, &v, sizeof v)) r.i(-1); }
        else badScript(op);
    }
    void project(Res &s) { for (auto p : o) out(s, value(*p)); }
};
Base *make(int k) { if (k == 0) return new RunOf<Float>(); return new RunOf<Double>(); }
