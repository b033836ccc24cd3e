#include "seqlib.hpp"
using namespace Java::Util;
template <> struct El<int> { static int mk(long long v) { return (int) v; } static long long un(int e) { return e; } };
template <class E> struct Run : Base {
    typedef PriorityQueue<E> T;
    T *o[2];
    Run() { o[0] = new T(); o[1] = new T(); }
    ~Run() { delete o[0]; delete o[1]; }
    E e(const Arg &a) { return El<E>::mk(a.i); }
    void put(int k, T *n) { delete o[k]; o[k] = n; }
    static bool desc(long long x, long long y) { return x > y; }
    void step(const std::string &op, const Args &a, Res &r) {
        int k = (int) a[0].i - 1;
        T &l = *o[k];
        if (op == "add") r.i(l.add(e(a[1])));
        else if (op == "offer") r.i(l.offer(e(a[1])));
        else if (op == "peek") r.i(El<E>::un(l.peek()));
        else if (op == "poll") r.i(El<E>::un(l.poll()));
        else if (op == "remove") r.i(l.remove(e(a[1])));
        else if (op == "contains") r.i(l.contains(e(a[1])));
        else if (op == "size") r.i(l.size());
        else if (op == "clear") l.clear();
        else if (op == "toArray") { Array<E> x = l.toArray(); Ints v; for (int i = 0; i < x.length; ++i) v.push_back(El<E>::un(x.get(i))); std::sort(v.begin(), v.end(), desc); r.flat(v); }
        else if (op == "toArrayInto") {
            Array<E> g; for (int i = 0; i < a[1].i; ++i) g.push(El<E>::mk(77));
            int n = l.size(); bool fits = g.length >= n;
            Array<E> x = l.toArray(g); Ints v; for (int i = 0; i < x.length; ++i) v.push_back(El<E>::un(x.get(i)));
            std::sort(v.begin(), v.begin() + std::min<int>(n, (int) v.size()), desc); r.flat(v);
        }
        else if (op == "drain") { while (l.size() > 0) r.i(El<E>::un(l.poll())); }
        else if (op == "copy") put((int) a[1].i - 1, new T(l));
        else if (op == "assign") *o[a[1].i - 1] = l;
        else if (op == "fromInit") put(k, withList<E>(a[1].s, [](std::initializer_list<E> x) { return new T(x); }));
        else if (op == "sized") put(k, new T((int) a[1].i));
        else badScript(op);
    }
    void project(Res &s) { for (int k = 0; k < 2; ++k) { T c(*o[k]); s.open(); while (c.size() > 0) s.i(El<E>::un(c.poll())); s.close(); } }
};
Base *make(int k) { if (k == 1) return new Run<int>(); return new Run<Integer>(); }
