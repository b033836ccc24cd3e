#include "seqlib.hpp"
#include "library/Java/Net/URLEncoder/URLEncoder.hpp"
#include "library/Java/Net/URLDecoder/URLDecoder.hpp"
using namespace Java::Net;
struct Run : Base {
    Ints last;
    static String S(const Ints &v) { std::string t; for (long long c : v) t += (char) c; return String(t); }
    void give(Res &r, const String &x) { std::string t = x.toSTLString(); last.clear(); for (unsigned char c : t) last.push_back(c); r.flat(last); }
    void step(const std::string &op, const Args &a, Res &r) {
        if (op == "encode") give(r, URLEncoder::encode(S(a[0].s)));
        else if (op == "encodeAs") give(r, URLEncoder::encode(S(a[0].s), S(a[1].s)));
        else if (op == "encodeLast") give(r, URLEncoder::encode(S(last)));
        else if (op == "decode") give(r, URLDecoder::decode(S(a[0].s)));
        else if (op == "decodeAs") give(r, URLDecoder::decode(S(a[0].s), S(a[1].s)));
        else if (op == "decodeLast") give(r, URLDecoder::decode(S(last)));
        else badScript(op);
    }
    void project(Res &s) { s.list(last); }
};
Base *make(int) { return new Run(); }
