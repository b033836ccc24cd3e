#include "seqlib.hpp"
#include "library/Javax/Ws/Rs/Core/MediaType.hpp"
#include <map>
using namespace Java::Lang; using namespace Java::Util;
using Javax::Ws::Rs::Core::MediaType;
static String S(const Arg &a) { return String(std::string(a.str())); }
struct Run : Base {
    MediaType *o[2];
    Run() { for (auto &p : o) p = new MediaType(); }
    ~Run() { for (auto p : o) delete p; }
    void put(int k, MediaType *m) { delete o[k]; o[k] = m; }
    void step(const std::string &op, const Args &a, Res &r) {
        int k = a[0].i - 1; MediaType &t = *o[k];
        auto other = [&]() -> MediaType & { return *o[a[1].i - 1]; };
        if (op == "make") put(k, new MediaType(S(a[1]), S(a[2])));
        else if (op == "makeP") { HashMap<String, String> m; for (auto &p : a[3].l) m.put(S(p.l[0]), S(p.l[1])); put(k, new MediaType(S(a[1]), S(a[2]), m)); m.put("zz", "zz"); }
        else if (op == "any") put(k, new MediaType());
        else if (op == "copy") put(k, new MediaType(other()));
        else if (op == "assign") t = other();
        else if (op == "parse") { MediaType m = MediaType::valueOf(S(a[1])); t = m; }
        else if (op == "reparse") { MediaType m = MediaType::valueOf(String(other().toString())); t = m; }
        else if (op == "string") r.str(t.toString());
        else if (op == "wild") r.i(t.isWildcardType()).i(t.isWildcardSubtype());
        else if (op == "compatible") r.i(t.isCompatible(other()));
        else badScript(op);
    }
    void project(Res &s) {
        for (auto p : o) {
            s.open(); s.str(String(p->getType()).toSTLString()).str(String(p->getSubtype()).toSTLString());
            std::map<std::string, std::string> m; HashMap<String, String> h = p->getParameters();
            Set<Map<String, String>::Entry> es = h.entrySet();
            for (auto e : es) { m[String(e.getKey()).toSTLString()] = String(e.getValue()).toSTLString(); }
            s.open(); for (auto &e : m) { s.open(); s.str(e.first).str(e.second); s.close(); } s.close(); s.close();
        }
    }
};
Base *make(int) { return new Run(); }
