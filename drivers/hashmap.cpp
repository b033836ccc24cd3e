#include "seqlib.hpp"
#include <map>
using namespace Java::Util;
template <> struct El<int> { static int mk(long long v) { return (int) v; } static long long un(int e) { return e; } };
typedef std::vector<std::pair<long long, long long>> Pairs;
// entrySet and toString need an ordered, printable key and value
template <class K, class V, bool Obj> struct Extra {
    static bool go(HashMap<K, V> &m, const std::string &op, Pairs &p, std::string &t) { return false; }
};
template <class K, class V> struct Extra<K, V, true> {
    static bool go(HashMap<K, V> &m, const std::string &op, Pairs &p, std::string &t) {
        if (op == "entrySet") { for (class Map<K, V>::Entry e : m.entrySet()) p.push_back(std::make_pair(El<K>::un(e.getKey()), El<V>::un(e.getValue()))); }
        else { String s = m.toString(); t = cstr(s); }
        return true;
    }
};
template <class K, class V, bool Obj> struct Run : Base {
    typedef HashMap<K, V> T;
    T *o[2];
    Run() { o[0] = new T(); o[1] = new T(); }
    ~Run() { delete o[0]; delete o[1]; }
    K k(const Arg &a) { return El<K>::mk(a.i); }
    V v(const Arg &a) { return El<V>::mk(a.i); }
    void put(int k, T *n) { delete o[k]; o[k] = n; }
    static void pairs(Pairs p, Res &r) { std::sort(p.begin(), p.end()); for (auto &x : p) { r.open(); r.i(x.first); r.i(x.second); r.close(); } }
    static Pairs iter(const T &m) { Pairs p; for (auto const &x : m) p.push_back(std::make_pair(El<K>::un(x.first), El<V>::un(x.second))); return p; }
    void step(const std::string &op, const Args &a, Res &r) {
        int n = (int) a[0].i - 1;
        T &m = *o[n]; const T &c = m;
        if (op == "put") m.put(k(a[1]), v(a[2]));
        else if (op == "putIfAbsent") r.i(El<V>::un(m.putIfAbsent(k(a[1]), v(a[2]))));
        else if (op == "putAll") o[a[1].i - 1]->putAll(m);
        else if (op == "get") r.i(El<V>::un(c.get(k(a[1]))));
        else if (op == "getOrDefault") r.i(El<V>::un(c.getOrDefault(k(a[1]), v(a[2]))));
        else if (op == "containsKey") r.i(c.containsKey(k(a[1])));
        else if (op == "containsValue") r.i(c.containsValue(v(a[1])));
        else if (op == "remove") r.i(El<V>::un(m.remove(k(a[1]))));
        else if (op == "removeKV") r.i(m.remove(k(a[1]), v(a[2])));
        else if (op == "replace") r.i(El<V>::un(m.replace(k(a[1]), v(a[2]))));
        else if (op == "replaceKV") r.i(m.replace(k(a[1]), v(a[2]), v(a[3])));
        else if (op == "size") r.i(c.size());
        else if (op == "isEmpty") r.i(c.isEmpty());
        else if (op == "clear") m.clear();
        else if (op == "reinitialize") m.reinitialize();
        else if (op == "equals") r.i(m.equals(*o[a[1].i - 1]));
        else if (op == "iterate") pairs(iter(c), r);
        else if (op == "forEach") { int lim = (int) a[1].i, cnt = 0; Pairs p; c.forEach([&](K x, V y) -> boolean { p.push_back(std::make_pair(El<K>::un(x), El<V>::un(y))); return ++cnt < lim; }); pairs(p, r); }
        else if (op == "entrySet" || op == "toString") {
            Pairs p; std::string t;
            if (!Extra<K, V, Obj>::go(m, op, p, t)) { if (op == "entrySet") p = iter(c); else badScript(op); }
            if (op == "entrySet") pairs(p, r); else for (unsigned char ch : t) r.i(ch);
        }
        else if (op == "copy") put((int) a[1].i - 1, new T(m));
        else if (op == "assign") *o[a[1].i - 1] = m;
        else if (op == "clone") *o[a[1].i - 1] = c.clone();
        else if (op == "fromInit") {
            typedef std::tuple<K, V> P; const std::vector<Arg> &l = a[1].l;
            auto q = [&](int i) { return P(El<K>::mk(l[i].s[0]), El<V>::mk(l[i].s[1])); };
            switch (l.size()) {
                case 0: put(n, new T()); break;
                case 1: put(n, new T({q(0)})); break;
                case 2: put(n, new T({q(0), q(1)})); break;
                case 3: put(n, new T({q(0), q(1), q(2)})); break;
                case 4: put(n, new T({q(0), q(1), q(2), q(3)})); break;
                default: badScript("fromInit");
            }
        }
        else badScript(op);
    }
    void project(Res &s) {
        for (int i = 0; i < 2; ++i) { s.open(); pairs(iter(*o[i]), s); s.close(); }
        s.open(); s.i(o[0]->size()); s.i(o[1]->size()); s.close();
    }
};
Base *make(int k) {
    switch (k) {
        case 1: return new Run<String, String, true>();
        case 2: return new Run<String, Integer, true>();
        case 3: return new Run<int, int, false>();
        default: return new Run<Integer, Integer, true>();
    }
}
