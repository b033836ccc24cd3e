#include "seqlib.hpp"
#include "library/Java/Text/SimpleDateFormat/SimpleDateFormat.hpp"
using namespace Java::Text;
using namespace Java::Util;
static const char *zones[] = {"UTC0", "EST5EDT,M3.2.0,M11.1.0", "<+0530>-5:30", "PST8", "Asia/Ho_Chi_Minh", "Asia/Singapore"};
static int known(const std::string &id) { for (int k = 0; k < 6; ++k) if (id == zones[k]) return k; return -1; }
struct Run : Base {
    SimpleDateFormat *f[2];
    Run(int k) { if (k == 9) unsetenv("TZ"); else setenv("TZ", zones[k], 1); tzset(); for (auto &p : f) p = new SimpleDateFormat("%F"); }
    ~Run() { for (auto p : f) delete p; }
    void put(int k, SimpleDateFormat *n) { delete f[k]; f[k] = n; }
    void step(const std::string &op, const Args &a, Res &r) {
        int k = a[0].i - 1;
        if (op == "make") { std::string p = a[1].str(); if (p.size() & 1) put(k, new SimpleDateFormat(p.c_str())); else put(k, new SimpleDateFormat(String(p.c_str()))); }
        else if (op == "setZone") {
            int z = a[1].i;
            if (z & 1) { TimeZone t; t.setID("PST8"); t.setID(zones[z]); f[k]->setTimeZone(t); t.setID("CST6"); } else f[k]->setTimeZone(TimeZone::getTimeZone(zones[z]));
        }
        else if (op == "copy") { SimpleDateFormat c(*f[a[1].i - 1]); put(k, new SimpleDateFormat(c)); }
        else if (op == "assign") *f[k] = *f[a[1].i - 1];
        else if (op == "format") { String t = f[k]->format(Date((long) a[1].i * 86400000L + (long) a[2].i * 1000L)); r.str(std::string(t.toCharPointer())); }
        else if (op == "ids") { auto &&x = TimeZone::getTimeZone(zones[a[0].i]); auto &&y = TimeZone::getTimeZone(zones[a[1].i]); r.i(known(x.getID().toCharPointer())).i(known(y.getID().toCharPointer())); }
        else if (op == "local") { Date d((long) a[0].i * 86400000L + (long) a[1].i * 1000L); r.i(d.getYear()).i(d.getMonth()).i(d.getDate()).i(d.getHours()).i(d.getMinutes()).i(d.getSeconds()); }
        else if (op == "wall") { time_t t = (time_t) a[0].i * 86400 + a[1].i; struct tm m; localtime_r(&t, &m); r.i(m.tm_year).i(m.tm_mon).i(m.tm_mday).i(m.tm_hour).i(m.tm_min).i(m.tm_sec); }
        else badScript(op);
    }
    void project(Res &s) { const char *t = getenv("TZ"); s.i(t ? known(t) : 9); }
};
Base *make(int k) { return new Run(k); }
