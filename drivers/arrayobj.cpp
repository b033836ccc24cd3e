#include "seqlib.hpp"
template <class E> struct Ar : El<E> {};
template <> struct Ar<int> { static int mk(long long v) { return (int) v; } static long long un(int v) { return v; } };
typedef Array<int> Row;
template <> struct Ar<Row> {
    static Row mk(long long v) { Row r; for (long long k = 0; k < (v < 0 ? -v : v) % 5; ++k) r.push((int) v); if (v) r.push((int) v); return r; }
    static long long un(const Row &r) { if (r.length == 0) return 0; long long v = r.get(0); if (r.length != (v < 0 ? -v : v) % 5 + 1) return -777777; for (int x : r) if (x != v) return -777777; return v; }
};
template <class E> struct Run : Base {
    Array<E> *o[2];
    typedef Ar<E> V;
    Run() { for (auto &p : o) p = new Array<E>(); }
    ~Run() { for (auto p : o) delete p; }
    void put(int k, Array<E> *n) { delete o[k]; o[k] = n; }
    static void all(const Array<E> &x, Res &r) { for (E e : x) r.i(V::un(e)); }
    static void grow(Array<E> x, long long v, Res &r) { x.push(V::mk(v)); all(x, r); }
    Array<E> *chars(const Ints &, String *) ;
    void step(const std::string &op, const Args &a, Res &r) {
        int k = a[0].i - 1; Array<E> &t = *o[k];
        auto I = [&](int p) { return (int) a[p].i; };
        if (op == "empty") put(k, new Array<E>());
        else if (op == "sized") put(k, new Array<E>((long) I(1)));
        else if (op == "list") {
            const Ints &v = a[1].s;
            #define M_(i) V::mk(v[i])
            switch (v.size()) {
                case 0: put(k, new Array<E>(std::initializer_list<E>{})); break;
                case 1: put(k, new Array<E>(std::initializer_list<E>{M_(0)})); break;
                case 2: put(k, new Array<E>(std::initializer_list<E>{M_(0), M_(1)})); break;
                case 3: put(k, new Array<E>(std::initializer_list<E>{M_(0), M_(1), M_(2)})); break;
                case 4: put(k, new Array<E>(std::initializer_list<E>{M_(0), M_(1), M_(2), M_(3)})); break;
                default: badScript("list");
            }
        }
        else if (op == "chars") put(k, make(a[1].s, (E *) nullptr));
        else if (op == "push") t.push(V::mk(I(1)));
        else if (op == "pushOwn") t.push(t[I(1)]);
        else if (op == "plus") {
            const Ints &v = a[1].s;
            auto add = [&](const std::initializer_list<E> &l) { Array<E> c = (t += l); all(c, r); };
            switch (v.size()) {
                case 0: add({}); break;
                case 1: add({M_(0)}); break;
                case 2: add({M_(0), M_(1)}); break;
                case 3: add({M_(0), M_(1), M_(2)}); break;
                default: badScript("plus");
            }
        }
        else if (op == "set") t[I(1)] = V::mk(I(2));
        else if (op == "get") r.i(V::un(t.get(I(1))));
        else if (op == "at") r.i(V::un(t[I(1)]));
        else if (op == "atConst") { const Array<E> &c = t; r.i(V::un(c[I(1)])); }
        else if (op == "copy") { Array<E> *n = new Array<E>(*o[I(1) - 1]); put(k, n); }
        else if (op == "assign") t = *o[I(1) - 1];
        else if (op == "iterate") all(t, r);
        else if (op == "passed") grow(t, I(1), r);
        else badScript(op);
    }
    template <class T> static Array<T> *make(const Ints &, T *) { badScript("chars"); }
    static Array<String> *make(const Ints &v, String *) {
        std::vector<std::string> s; std::vector<char *> p;
        for (long long x : v) s.push_back(El<String>::mk(x).toCharPointer());
        for (auto &x : s) p.push_back(&x[0]);
        p.push_back(nullptr);
        Array<String> *n = new Array<String>((string *) p.data());
        for (auto &x : s) for (char &c : x) c = '!';                   // the array keeps copies
        return n;
    }
    void project(Res &s) {
        for (auto p : o) {
            s.open().i(p->length); int n = 0;
            for (E e : *p) { if (++n > 4000) break; s.i(V::un(e)); }
            s.close();
        }
    }
};
Base *make(int k) { if (k == 0) return new Run<int>(); if (k == 1) return new Run<String>(); return new Run<Row>(); }
