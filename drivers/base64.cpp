#include "seqlib.hpp"
using namespace Java::Util;
static Array<byte> B(const Ints &v) { Array<byte> x; for (long long c : v) x.push((byte) c); return x; }
static Ints back(const Array<byte> &x) { Ints v; for (int i = 0; i < x.length; ++i) v.push_back((unsigned char) x[i]); return v; }
static Ints back(const String &x) { Ints v; std::string t = x.toSTLString(); for (unsigned char c : t) v.push_back(c); return v; }
static Base64::Encoder enc(const Arg &a) {
    long long k = a.l[0].i;
    Base64::Encoder e = k == 0 ? Base64::getEncoder() : k == 1 ? Base64::getUrlEncoder() : k == 2 ? Base64::getMimeEncoder()
                        : Base64::getMimeEncoder((int) a.l[2].i, B(a.l[3].s));
    return a.l[1].i ? e : e.withoutPadding();
}
static Base64::Decoder dec(const Arg &a) { return a.i == 0 ? Base64::getDecoder() : a.i == 1 ? Base64::getUrlDecoder() : Base64::getMimeDecoder(); }
struct Run : Base {
    Ints last;
    void give(Res &r, const Ints &v) { last = v; r.flat(v); }
    template <class F> void into(Res &r, int n, F f) {
        Array<byte> t(n); for (int i = 0; i < n; ++i) t[i] = '*';
        int c;
        try { c = f(t); } catch (const Java::Lang::InterruptedException &) { c = -1; }
        r.i(c).list(back(t));
    }
    void step(const std::string &op, const Args &a, Res &r) {
        if (op == "encode") give(r, back(enc(a[0]).encode(B(a[1].s))));
        else if (op == "encodeText") give(r, back(enc(a[0]).encodeToString(B(a[1].s))));
        else if (op == "encodeLast") give(r, back(enc(a[0]).encode(B(last))));
        else if (op == "decode") give(r, back(dec(a[0]).decode(B(a[1].s))));
        else if (op == "decodeText") give(r, back(dec(a[0]).decode(String(a[1].str()))));
        else if (op == "decodeLast") give(r, back(dec(a[0]).decode(B(last))));
        else if (op == "encodeInto") { auto e = enc(a[0]); auto s = B(a[1].s); into(r, (int) a[2].i, [&](Array<byte> &t) { return e.encode(s, t); }); }
        else if (op == "decodeInto") { auto d = dec(a[0]); auto s = B(a[1].s); into(r, (int) a[2].i, [&](Array<byte> &t) { return d.decode(s, t); }); }
        else badScript(op);
    }
    void project(Res &s) { s.list(last); }
};
Base *make(int) { return new Run(); }
