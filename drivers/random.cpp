#include "seqlib.hpp"
#include <cmath>
#include <cstring>
using namespace Java::Util;
struct Run : Base {
    Random *g[2];
    Run() { for (auto &p : g) p = new Random(0L); }
    ~Run() { for (auto p : g) delete p; }
    void put(int k, Random *x) { delete g[k]; g[k] = x; }
    void step(const std::string &op, const Args &a, Res &r) {
        int k = a[0].i - 1; Random &t = *g[k];
        if (op == "make") put(k, new Random((long) fromLimbs(a[1].s)));
        else if (op == "setSeed") t.setSeed((long) fromLimbs(a[1].s));
        else if (op == "copy") put(k, new Random(*g[a[1].i - 1]));
        else if (op == "nextInt") r.limbs32(t.nextInt());
        else if (op == "nextBoolean") r.i(t.nextBoolean());
        else if (op == "nextFloat") { float f = t.nextFloat() * 16777216.0f; r.i(f == (float) (int) f ? (int) f : -1); }
        else if (op == "nextBelow") r.i(t.nextInt((int) a[1].i));
        else if (op == "nextLong") r.limbs(t.nextLong());
        else if (op == "nextDouble") { double d = t.nextDouble() * 9007199254740992.0; r.limbs(d >= 0 && d == (double) (long) d ? (long) d : -1L); }
        else if (op == "nextBytes") {
            Array<byte> b((int) a[1].i); for (int i = 0; i < b.length; ++i) b[i] = 1;
            t.nextBytes(&b); Ints x; for (int i = 0; i < b.length; ++i) x.push_back(b[i]); r.list(x);
        } else if (op == "nextString") { String s = t.nextString((int) a[1].i); r.str(s.toSTLString()); }
        else if (op == "gaussian") { double v = t.nextGaussian(); unsigned long u; memcpy(&u, &v, 8); r.limbs(u).i(std::isfinite(v) && std::fabs(v) < 12); }
        else badScript(op);
    }
    void project(Res &s) { for (auto p : g) { Random c(*p); s.open(); int x = c.nextInt(), y = c.nextInt(); s.limbs32(x).limbs32(y); s.close(); } }
};
Base *make(int) { return new Run(); }
