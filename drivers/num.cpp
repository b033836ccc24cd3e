#include <cstring>
#include "seqlib.hpp"
using namespace Java::Lang;
static Ints txt(const String &s) { Ints x; for (unsigned char c : s.toSTLString()) x.push_back(c); return x; }
template <class W> struct K;
#define KIND(W, P, n) template <> struct K<W> { typedef P prim; enum { limbs = n }; }; 
KIND(Integer, int, 2) KIND(Long, long, 4) KIND(Short, short, 1) KIND(Bytes, byte, 1)
template <class W> typename K<W>::prim in(const Arg &a) { return (typename K<W>::prim) fromLimbs(a.s); }
template <class W> void out(Res &r, typename K<W>::prim v) { Ints x; for (int k = 0; k < K<W>::limbs; ++k) x.push_back((((unsigned long long) (long long) v) >> (16 * k)) & 0xffff); r.list(x); }
static int value(const Integer &w) { return w.intValue(); }
static long value(const Long &w) { return w.longValue(); }
static short value(const Short &w) { return w.shortValue(); }
static byte value(const Bytes &w) { return w.byteValue(); }
static char first(const Integer &w) { return w.charValue(); }
static char first(const Short &w) { return w.charValue(); }
static char first(const Bytes &w) { return w.charValue(); }
static char first(const Long &w) { return w.toString().charAt(0); }                 // Long has no charValue
static int sgn(int c) { return c < 0 ? -1 : c > 0; }
// what only some of the classes have
static Integer *ofText(const Integer *, const String &t) { return new Integer(t); }
static Long *ofText(const Long *, const String &t) { return new Long(Long::valueOf(t)); }
static Short *ofText(const Short *, const String &t) { return new Short(Short::parseShort(t)); }
static Bytes *ofText(const Bytes *, const String &t) { return new Bytes(t); }
template <class W> void compound(int f, W &a, const W &b) {
    if (f == 0) a += b; else if (f == 1) a -= b; else if (f == 2) a *= b; else if (f == 3) a /= b; else a %= b;
}
static void compound(int, Short &, const Short &) { badScript("Short compound"); }
static bool only(const Short *, const std::string &op, const Args &a, Res &r) { if (op != "parse") return false; out<Short>(r, value(Short::parseShort(a[0].str()))); return true; }
static bool only(const Bytes *, const std::string &op, const Args &a, Res &r) {
    if (op == "parse") out<Bytes>(r, Bytes::parseBytes(a[0].str()));
    else if (op == "parseR") out<Bytes>(r, Bytes::parseBytes(a[0].str(), (int) a[1].i));
    else if (op == "decode") out<Bytes>(r, value(Bytes::decode(a[0].str())));
    else if (op == "toString") { r.list(txt(Bytes::toString(in<Bytes>(a[0])))); if (value(Bytes::valueOf(in<Bytes>(a[0]))) != in<Bytes>(a[0])) r.i(-1); }
    else if (op == "cmp") { byte x = in<Bytes>(a[0]), y = in<Bytes>(a[1]); r.i(sgn(Bytes::compare(x, y))).limbs32(Bytes::toUnsignedInt(x)).limbs(Bytes::toUnsignedLong(x)); }
    else return false;
    return true;
}
static bool only(const Integer *, const std::string &op, const Args &a, Res &r) {
    if (op == "parse") out<Integer>(r, Integer::parseInt(a[0].str()));
    else if (op == "parseR") out<Integer>(r, Integer::parseInt(a[0].str(), (int) a[1].i));
    else if (op == "parseU") out<Integer>(r, Integer::parseUnsignedInt(a[0].str(), (int) a[1].i));
    else if (op == "decode") out<Integer>(r, value(Integer::decode(a[0].str())));
    else if (op == "toString") r.list(txt(Integer::toString(in<Integer>(a[0]))));
    else if (op == "toStringR") r.list(txt(Integer::toString(in<Integer>(a[0]), (int) a[1].i)));
    else if (op == "toUnsigned") r.list(txt(a[1].i == 10 ? Integer::toUnsignedString(in<Integer>(a[0])) : Integer::toUnsignedString(in<Integer>(a[0]), (int) a[1].i)));
    else if (op == "toBase") { int v = in<Integer>(a[0]); r.list(txt(a[1].i == 2 ? Integer::toBinaryString(v) : a[1].i == 8 ? Integer::toOctalString(v) : Integer::toHexString(v))); }
    else if (op == "bits") {
        int v = in<Integer>(a[0]);
        r.i(Integer::bitCount(v)); out<Integer>(r, Integer::highestOneBit(v)); out<Integer>(r, Integer::lowestOneBit(v));
        r.i(Integer::numberOfLeadingZeros(v)).i(Integer::numberOfTrailingZeros(v)); out<Integer>(r, Integer::reverse(v)); out<Integer>(r, Integer::reverseBytes(v));
        r.i(Integer::signum(v)).limbs32(Integer(v).hashCode());
    } else if (op == "rot") { int v = in<Integer>(a[0]); out<Integer>(r, Integer::rotateLeft(v, (int) a[1].i)); out<Integer>(r, Integer::rotateRight(v, (int) a[1].i)); }
    else if (op == "cmp") {
        int x = in<Integer>(a[0]), y = in<Integer>(a[1]);
        r.i(sgn(Integer::compare(x, y))).i(sgn(Integer::compareUnsigned(x, y))); out<Integer>(r, Integer::max(x, y)); out<Integer>(r, Integer::min(x, y)); out<Integer>(r, Integer::sum(x, y));
        r.limbs(Integer::toUnsignedLong(x));
    } else if (op == "udiv") { int x = in<Integer>(a[0]), y = in<Integer>(a[1]); int q = Integer::divideUnsigned(x, y); out<Integer>(r, q); out<Integer>(r, Integer::remainderUnsigned(x, y)); }
    else return false;
    return true;
}
static bool only(const Long *, const std::string &op, const Args &a, Res &r) {
    if (op == "parse") out<Long>(r, Long::parseLong(a[0].str()));
    else if (op == "parseR") out<Long>(r, Long::parseLong(a[0].str(), (int) a[1].i));
    else if (op == "decode") out<Long>(r, value(Long::decode(a[0].str())));
    else if (op == "toString") r.list(txt(Long::toString(in<Long>(a[0]))));
    else if (op == "toBase") { long v = in<Long>(a[0]); r.list(txt(a[1].i == 2 ? Long::toBinaryString(v) : a[1].i == 8 ? Long::toOctalString(v) : Long::toHexString(v))); }
    else if (op == "bits") {
        long v = in<Long>(a[0]);
        r.i(Long::bitCount(v)); out<Long>(r, Long::highestOneBit(v)); out<Long>(r, Long::lowestOneBit(v));
        r.i(Long::numberOfLeadingZeros(v)).i(Long::numberOfTrailingZeros(v)); out<Long>(r, Long::reverse(v)); out<Long>(r, Long::reverseBytes(v));
        r.i(Long::signum(v)).limbs32(Long(v).hashCode());
    } else if (op == "rot") { long v = in<Long>(a[0]); out<Long>(r, Long::rotateLeft(v, (int) a[1].i)); out<Long>(r, Long::rotateRight(v, (int) a[1].i)); }
    else if (op == "cmp") r.i(sgn(Long::compare(in<Long>(a[0]), in<Long>(a[1]))));
    else return false;
    return true;
}
static void order(Res &, Short &, Short &) {}
template <class W> void order(Res &r, W &a, W &b) { r.i(sgn(a.compareTo(b))).i(a.equals(b)); }
template <class W> struct RunOf : Base {
    W *o[2];
    RunOf() { for (auto &p : o) p = new W(); }
    ~RunOf() { for (auto p : o) delete p; }
    void put(int k, W *w) { delete o[k]; o[k] = w; }
    W &at(const Arg &a) { return *o[a.i - 1]; }
    void step(const std::string &op, const Args &a, Res &r) {
        if (op == "make") put(a[0].i - 1, new W(in<W>(a[1])));
        else if (op == "makeText") put(a[0].i - 1, ofText((W *) nullptr, a[1].str()));
        else if (op == "copy") put(a[0].i - 1, new W(at(a[1])));
        else if (op == "assign") at(a[0]) = at(a[1]);
        else if (op == "cop") compound((int) a[0].i, at(a[1]), at(a[2]));
        else if (op == "bop") {
            W &x = at(a[1]), &y = at(a[2]); int f = (int) a[0].i;
            W v = f == 0 ? x + y : f == 1 ? x - y : f == 2 ? x * y : f == 3 ? x / y : x % y;
            out<W>(r, value(v)); r.list(txt(v.toString()));
        } else if (op == "as") { W &w = at(a[0]); r.list({(unsigned short) w.shortValue()}).limbs32(w.intValue()).limbs(w.longValue());
            float f = w.floatValue(); double d = w.doubleValue(); int fb; long db; memcpy(&fb, &f, 4); memcpy(&db, &d, 8);
            r.limbs32(fb).limbs(db).i((unsigned char) first(w)); }
        else if (op == "rel") {
            W &x = at(a[0]), &y = at(a[1]);
            r.i(x == y).i(x != y).i(x < y).i(x > y).i(x <= y).i(x >= y); order(r, x, y);
        } else if (!only((W *) nullptr, op, a, r)) badScript(op);
    }
    void project(Res &s) { for (auto p : o) { s.open(); out<W>(s, value(*p)); s.list(txt(p->toString())); s.close(); } }
};
Base *make(int k) { if (k == 0) return new RunOf<Integer>(); if (k == 1) return new RunOf<Long>(); if (k == 2) return new RunOf<Short>(); return new RunOf<Bytes>(); }
