#include "seqlib.hpp"
using namespace Java::Util;
static bool faked = false;
static long base = (long) time(nullptr) * 1000000L;          // microseconds; every script starts an hour later
static Ints readings; static size_t used = 0;
extern "C" int gettimeofday(struct timeval *t, void *) {
    if (!faked) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
    long v = used < readings.size() ? readings[used] : readings.back() + (long) (used - readings.size() + 1);
    ++used;
    v += base; t->tv_sec = v / 1000000; t->tv_usec = v % 1000000; return 0;
}
struct Run : Base {
    UUID u[2]; int firstSeq = -1; long node = -1;
    Run() { base += 3600L * 1000000L; }
    static const long epoch = 0x01B21DD213814000L;
    void step(const std::string &op, const Args &a, Res &r) {
        if (op == "time") {
            static bool started = false;                // the generator's very first call takes more readings than the others
            if (!started) { started = true; UUID::timeUUID(); base += 3600L * 1000000L; }
            readings = a[0].s; used = 0; faked = true;
            UUID t; try { t = UUID::timeUUID(); } catch (...) { faked = false; throw; }
            faked = false;
            unsigned long m = t.getMostSignificantBits();
            long ts = (long) (((m & 0xfff) << 48) | (((m >> 16) & 0xffff) << 32) | (m >> 32));
            int seq = t.clockSequence();
            if (firstSeq < 0) { firstSeq = seq; node = t.node(); }
            r.i(ts - epoch - base * 10).i((seq - firstSeq) & 0x3fff).i(t.version()).i(t.variant()).i(t.node() == node);
            return;
        }
        UUID &t = u[a[0].i - 1];
        if (op == "make") t = UUID((long) fromLimbs(a[1].s), (long) fromLimbs(a[2].s));
        else if (op == "none") t = UUID();
        else if (op == "copy") t = u[a[1].i - 1];
        else if (op == "parse") t = UUID::fromString(String(std::string(a[1].str())));
        else if (op == "reparse") t = UUID::fromString(u[a[1].i - 1].toString());
        else if (op == "fields") { r.str(t.toString().toSTLString()).limbs(t.getMostSignificantBits()).limbs(t.getLeastSignificantBits()).i(t.version()).i(t.variant()).i(t.clockSequence()).limbs(t.node()).limbs32(t.hashCode()); }
        else if (op == "compare") r.i(t.compareTo(u[a[1].i - 1])).i(t.equals(u[a[1].i - 1]));
        else if (op == "random") { t = UUID::randomUUID(); r.limbs(t.getMostSignificantBits()).limbs(t.getLeastSignificantBits()); }
        else badScript(op);
    }
    void project(Res &s) { for (auto &t : u) s.limbs(t.getMostSignificantBits()).limbs(t.getLeastSignificantBits()); }
};
Base *make(int) { return new Run(); }
