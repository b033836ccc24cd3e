#include "seqlib.hpp"
#include "library/Java/Util/Date/Date.hpp"
using namespace Java::Util;
static const char *zones[] = {"UTC0", "EST5EDT,M3.2.0,M11.1.0", "<+0530>-5:30", "PST8"};
static const char *months[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
static long floorDiv(long a, long b) { long q = a / b; return q * b > a ? q - 1 : q; }
static void instant(Res &r, long ms) { long s = floorDiv(ms, 1000), d = floorDiv(s, 86400); r.i(d).i(ms - s * 1000 ? -1 : s - d * 86400); }
struct Run : Base {
    Date *o[2];
    Run(int k) { setenv("TZ", zones[k], 1); tzset(); for (auto &p : o) p = new Date(11000L * 86400000L); }
    ~Run() { for (auto p : o) delete p; }
    void put(int k, Date *d) { delete o[k]; o[k] = d; }
    void step(const std::string &op, const Args &a, Res &r) {
        int k = a[0].i - 1; Date &t = *o[k];
        auto I = [&](int p) { return (int) a[p].i; };
        auto ms = [&] { return (long) a[1].i * 86400000L + (long) a[2].i; };
        auto other = [&]() -> Date & { return *o[a[1].i - 1]; };
        char text[200];
        if (op == "make6") put(k, new Date(I(1), I(2), I(3), I(4), I(5), I(6)));
        else if (op == "make5") put(k, new Date(I(1), I(2), I(3), I(4), I(5)));
        else if (op == "make3") put(k, new Date(I(1), I(2), I(3)));
        else if (op == "fromInstant") put(k, new Date(ms()));
        else if (op == "setTime") t.setTime(ms());
        else if (op == "copy") put(k, new Date(other()));
        else if (op == "assign") t = other();
        else if (op == "clone") { Date c = other().clone(); t = c; }
        else if (op == "setYear") t.setYear(I(1));
        else if (op == "setMonth") t.setMonth(I(1));
        else if (op == "setDate") t.setDate(I(1));
        else if (op == "setHours") t.setHours(I(1));
        else if (op == "setMinutes") t.setMinutes(I(1));
        else if (op == "setSeconds") t.setSeconds(I(1));
        else if (op == "utc") instant(r, Date::UTC(I(1), I(2), I(3), I(4), I(5), I(6)));
        else if (op == "texts") { r.str(t.toString().toSTLString()).str(t.toLocaleString().toSTLString()).str(t.toGMTString().toSTLString()); }
        else if (op == "compare") { Date &b = other(); bool e = t.equals(b); r.i(t.before(b)).i(t.after(b)).i(e).i(t.compareTo(b)).i(!e || t.hashCode() == b.hashCode()); }
        else if (op == "parseLong") put(k, new Date(other().toString()));
        else if (op == "parseLocale") put(k, new Date(other().toLocaleString()));
        else if (op == "parseGmt") put(k, new Date(other().toGMTString()));
        else if (op == "parseZoned") {                        // minutes west of Greenwich, and how they are written
            int w = I(7), style = I(8), ab = w < 0 ? -w : w;
            const char *name = w == 0 ? "GMT" : w == 300 ? "EST" : w == 240 ? "edt" : w == 480 ? "PST" : w == 420 ? "Pdt" : nullptr;
            if (name && style == 0) snprintf(text, sizeof text, "%d %.3s %d %02d:%02d:%02d %s", I(3), months[I(2)], I(1) + 1900, I(4), I(5), I(6), name);
            else snprintf(text, sizeof text, "%s %d, %d %d:%02d:%02d %s %c%02d%02d", months[I(2)], I(3), I(1) + 1900, I(4), I(5), I(6), style == 1 ? "UTC" : "gmt", w <= 0 ? '+' : '-', ab / 60, ab % 60);
            put(k, new Date(String(text)));
        } else if (op == "parseLocal") {
            int style = I(7), h = I(4), h12 = h % 12 ? h % 12 : 12;
            if (style == 0) snprintf(text, sizeof text, "%d/%d/%d %d:%02d:%02d", I(2) + 1, I(3), I(1) + 1900, h, I(5), I(6));
            else if (style == 1) snprintf(text, sizeof text, "%s %d, %d %d:%02d:%02d %s", months[I(2)], I(3), I(1) + 1900, h12, I(5), I(6), h < 12 ? "am" : "PM");
            else snprintf(text, sizeof text, "%d %.3s (a note) %d %d:%02d:%02d", I(3), months[I(2)], I(1) + 1900, h, I(5), I(6));
            put(k, new Date(String(text)));
        } else if (op == "parseDate") { snprintf(text, sizeof text, "%d %.3s %d", I(3), months[I(2)], I(1) + 1900); put(k, new Date(String(text))); }
        else if (op == "parseShort") {                        // the year by its last two digits
            snprintf(text, sizeof text, "%d %.3s %02d", I(3), months[I(2)], I(1));
            time_t now = time(nullptr); struct tm f; localtime_r(&now, &f);
            r.i(f.tm_year + 1900);
            put(k, new Date(String(text)));
        }
        else badScript(op);
    }
    void project(Res &s) {
        for (auto p : o) {
            s.open(); instant(s, p->getTime());
            s.i(p->getYear()).i(p->getMonth()).i(p->getDate()).i(p->getDay()).i(p->getHours()).i(p->getMinutes()).i(p->getSeconds()).i(p->getTimezoneOffset()); s.close();
        }
    }
};
Base *make(int k) { return new Run(k); }
