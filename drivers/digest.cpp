#include "seqlib.hpp"
#include "library/Java/Security/MessageDigest/MessageDigest.hpp"
using namespace Java::Security;
struct Run : Base {
    MessageDigest *o[2];
    static MessageDigest *make(bool md5) { return new MessageDigest(MessageDigest::getInstance(md5 ? "MD5" : "SHA1")); }
    Run(int k) { o[0] = make(k % 2 == 0); o[1] = make(k / 2 == 0); }
    ~Run() { delete o[0]; delete o[1]; }
    void step(const std::string &op, const Args &a, Res &r) {
        int k = (int) a[0].i - 1;
        MessageDigest &m = *o[k];
        if (op == "get") { delete o[k]; o[k] = make(a[1].i == 5); }
        else if (op == "getUnknown") MessageDigest x = MessageDigest::getInstance(String(a[1].str()));
        else if (op == "update") { std::string t = a[1].str(); t.shrink_to_fit(); m.update((const byte *) t.data(), (int) t.size()); }
        else if (op == "updateNull") m.update(nullptr, a.size() > 1 ? (int) a[1].i : 0);
        else if (op == "reset") m.reset();
        else if (op == "digest") {
            int n = (int) a[1].i;
            byte *b = new byte[n]; memset(b, '*', n);
            int c;
            try { c = m.digest(b, n); } catch (...) { for (int i = 0; i < n; ++i) if (b[i] != 42) { delete[] b; throw std::runtime_error("written"); } delete[] b; throw; }
            r.i(c); for (int i = 0; i < n; ++i) r.i((unsigned char) b[i]);
            delete[] b;
        }
        else if (op == "digestNull") m.digest(nullptr, a.size() > 1 ? (int) a[1].i : 64);
        else if (op == "length") r.i(m.getDigestLength());
        else if (op == "algorithm") { std::string n = m.getAlgorithm().toSTLString(); r.i(n == "MD5" ? 5 : n == "SHA1" ? 1 : 0); }
        else if (op == "copy") { MessageDigest *n = new MessageDigest(m); int d = (int) a[1].i - 1; delete o[d]; o[d] = n; }
        else if (op == "assign") *o[a[1].i - 1] = m;
        else badScript(op);
    }
    void project(Res &s) { s.i(0); }
};
Base *make(int k) { return new Run(k); }
