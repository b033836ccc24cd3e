// The table starts with four buckets instead of 65536, so that growing and moving elements happen in small scenarios.
#define DEFAULT_SIZE DEFAULT_SIZE_OF_THE_LIBRARY
#include "library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_config.hh"
#undef DEFAULT_SIZE
#include <cstddef>
namespace libcuckoo { constexpr std::size_t DEFAULT_SIZE = 16; }
#include "conc.hpp"
#include "elem.hpp"
#include "library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp"
template <> struct El<int> { static int mk(long long v) { return (int) v; } static long long un(int e) { return e; } };
using Java::Util::Concurrent::ConcurrentHashMap;
const bool timed = false;
typedef std::vector<std::pair<long long, long long>> Pairs;
static void pairs(Pairs p, Res &r) { sched::Quiet q; std::sort(p.begin(), p.end()); for (auto &x : p) { r.open(); r.i(x.first); r.i(x.second); r.close(); } }
struct Any { virtual ~Any() {} virtual void call(const std::string &, const Args &, Res &) = 0; };
template <class K, class V> struct CM : Any {
    ConcurrentHashMap<K, V> m;
    K k(const Arg &a) { return El<K>::mk(a.i); }
    V v(const Arg &a) { return El<V>::mk(a.i); }
    void call(const std::string &op, const Args &a, Res &r) {
        const ConcurrentHashMap<K, V> &c = m;
        if (op == "put") m.put(k(a[1]), v(a[2]));
        else if (op == "putIfAbsent") r.i(El<V>::un(m.putIfAbsent(k(a[1]), v(a[2]))));
        else if (op == "get") r.i(El<V>::un(c.get(k(a[1]))));
        else if (op == "getOrDefault") r.i(El<V>::un(c.getOrDefault(k(a[1]), v(a[2]))));
        else if (op == "containsKey") r.i(c.containsKey(k(a[1])));
        else if (op == "find") r.i(c.find(k(a[1])));
        else if (op == "containsValue") r.i(m.containsValue(v(a[1])));
        else if (op == "remove") r.i(El<V>::un(m.remove(k(a[1]))));
        else if (op == "removeKV") r.i(m.remove(k(a[1]), v(a[2])));
        else if (op == "replace") r.i(El<V>::un(m.replace(k(a[1]), v(a[2]))));
        else if (op == "replaceKV") r.i(m.replace(k(a[1]), v(a[2]), v(a[3])));
        else if (op == "size") r.i(c.size());
        else if (op == "isEmpty") r.i(c.isEmpty());
        else if (op == "clear") m.clear();
        else if (op == "reinitialize") m.reinitialize();
        else if (op == "forEach") { int lim = (int) a[1].i, cnt = 0; Pairs p; m.forEach([&](K x, V y) -> boolean { sched::Quiet q; p.push_back(std::make_pair(El<K>::un(x), El<V>::un(y))); return ++cnt < lim; }); pairs(p, r); }
        else if (op == "iterate") { Pairs p; for (auto const &x : m) p.push_back(std::make_pair(El<K>::un(x.first), El<V>::un(x.second))); pairs(p, r); }
        else if (op == "copyOf") { ConcurrentHashMap<K, V> d(m); Pairs p; for (auto const &x : d) p.push_back(std::make_pair(El<K>::un(x.first), El<V>::un(x.second))); pairs(p, r); }
        else badScript(op);
    }
};
static Any *m[3];
void fresh() { m[0] = new CM<int, int>(); m[1] = new CM<String, String>(); m[2] = new CM<Integer, int>(); }
void drop(bool stuck) { if (!stuck) for (Any *x : m) delete x; }
void call(const std::string &op, const Args &a, Res &r) { m[a[0].i - 1]->call(op, a, r); }
