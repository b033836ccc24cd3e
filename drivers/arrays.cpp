#include "seqlib.hpp"
#include "library/Java/Util/Arrays/Arrays.hpp"
#include <memory>
using namespace Java::Util; using namespace Java::Lang;
template <class T> struct V { static T mk(long long v) { return (T) v; } static long long un(T e) { return e; } };
template <> struct V<long> { static long mk(long long v) { return (long) (v * 3000000019LL); } static long long un(long e) { return e % 3000000019LL ? -777777 : e / 3000000019LL; } };
template <> struct V<float> { static float mk(long long v) { return v * 0.5f; } static long long un(float e) { return (long long) (e * 2); } };
template <> struct V<double> { static double mk(long long v) { return v * 0.25; } static long long un(double e) { return (long long) (e * 4); } };
template <> struct V<Integer> : El<Integer> {};
template <> struct V<String> {
    static String mk(long long v) { return v == 0 ? String("") : String(std::string(1, (char) (64 + v)) + "z"); }
    static long long un(const String &e) { std::string s(e.toCharPointer()); return s.empty() ? 0 : s.size() == 2 && s[1] == 'z' ? s[0] - 64 : -777777; }
};
// numeric: all utilities; boolean: no fill, no sorting of an Array (the library leaves them out); objects: no fill, equals, hashCode
template <class T> struct Num {
    static void fill(Array<T> *x, T v) { Arrays::fill(x, v); }
    static void fill(Array<T> *x, int f, int t, T v) { Arrays::fillByIndex(x, f, t, v); }
    static int hash(const Array<T> &x) { return Arrays::hashCode(x); }
    static bool eq(const Array<T> &x, const Array<T> &y) { return Arrays::equals(x, y); }
};
template <class T> struct Obj {
    static void fill(Array<T> *, T) { badScript("fill"); }
    static void fill(Array<T> *, int, int, T) { badScript("fill"); }
    static int hash(const Array<T> &) { badScript("hash"); return 0; }
    static bool eq(const Array<T> &, const Array<T> &) { badScript("equals"); return false; }
};
template <class T> struct U : Num<T> {};
template <> struct U<Integer> : Obj<Integer> {};
template <> struct U<String> : Obj<String> {};
template <> struct U<boolean> : Obj<boolean> {
    static int hash(const Array<boolean> &x) { return Arrays::hashCode(x); }
    static bool eq(const Array<boolean> &x, const Array<boolean> &y) { return Arrays::equals(x, y); }
};
template <class T> struct W {        // what needs an assignable element
    static void set(Array<T> &x, int k, T v) { x[k] = v; }
    static Array<T> to(const Array<T> &x, int n) { return Arrays::copyOf(x, n, T()); }
    static Array<T> to(const Array<T> &x, int f, int t) { return Arrays::copyOfRange(x, f, t, T()); }
    static int find(const Array<T> &x, T v, int n) { return Arrays::binarySearch(x, v, n); }
    static int find(const Array<T> &x, int f, int t, T v) { return Arrays::binarySearch(x, f, t, v); }
    static void sort(Array<T> *x, int n) { Arrays::sort(x, n); }
    static void sort(Array<T> *x, int f, int t) { Arrays::sort(x, f, t); }
};
template <> struct W<boolean> {
    static void set(Array<boolean> &, int, boolean) { badScript("setAt"); }
    static Array<boolean> to(const Array<boolean> &x, int n) { return Arrays::copyOf(x, n); }
    static Array<boolean> to(const Array<boolean> &x, int f, int t) { return Arrays::copyOfRange(x, f, t); }
    static int find(const Array<boolean> &x, boolean v, int n) { badScript("search"); return 0; }
    static int find(const Array<boolean> &x, int, int, boolean v) { badScript("search"); return 0; }
    static void sort(Array<boolean> *, int) { badScript("sort"); }
    static void sort(Array<boolean> *, int, int) { badScript("sort"); }
};
// the separately named variants
template <class T> struct Named { static void sort(T *b, int n) { Arrays::sort(b, n); } };
template <> struct Named<int> { static void sort(int *b, int n) { Arrays::sortByIndexArraySize(b, 0, n - 1, n); } };
template <> struct Named<short> { static void sort(short *b, int n) { Arrays::sortByArraySize(b, n); } };
template <> struct Named<long> { static void sort(long *b, int n) { Arrays::sortByArraySize(b, n); } };
template <> struct Named<double> { static void sort(double *b, int n) { Arrays::sortByIndex(b, 0, n - 1); } };
template <class T> struct Run : Base {
    Array<T> o[2];
    static Array<T> of(const Ints &v) { Array<T> x; for (auto e : v) x.push(V<T>::mk(e)); return x; }
    static Ints un(const Array<T> &x) { Ints v; for (int k = 0; k < x.length; ++k) v.push_back(V<T>::un(x.get(k))); return v; }
    // a raw array with guards on both sides; the elements are written back to the Array
    template <class F> void raw(Array<T> &x, Res &r, F f) {
        int n = x.length;
        std::unique_ptr<T[]> b(new T[n + 2]);
        b[0] = V<T>::mk(1); b[n + 1] = V<T>::mk(0);
        for (int k = 0; k < n; ++k) b[k + 1] = x.get(k);
        f(b.get() + 1, n);
        if (V<T>::un(b[0]) != 1 || V<T>::un(b[n + 1]) != 0) r.i(-99);
        Array<T> y; for (int k = 0; k < n; ++k) y.push(b[k + 1]);
        x = y;
    }
    void step(const std::string &op, const Args &a, Res &r) {
        if (op == "asList") { withList<T>(a[0].s, r); return; }
        Array<T> &x = o[a[0].i - 1];
        auto n = [&](int k) { return (int) a[k].i; };
        auto v = [&](int k) { return V<T>::mk(a[k].i); };
        if (op == "init") x = of(a[1].s);
        else if (op == "sized") x = Array<T>((long) n(1));
        else if (op == "copy") { Array<T> y(o[n(1) - 1]); x = y; }
        else if (op == "push") x.push(v(1));
        else if (op == "append") {
            const Ints &l = a[1].s; Array<T> y = l.size() == 2 ? (x += {V<T>::mk(l[0]), V<T>::mk(l[1])}) : l.size() == 1 ? (x += {V<T>::mk(l[0])}) : (x += {});
            r.flat(un(y));
        }
        else if (op == "get") { const Array<T> &c = x; T e = c.get(n(1)); if (V<T>::un(c.get(n(1))) != V<T>::un(e)) r.i(-99); r.i(V<T>::un(e)); }
        else if (op == "setAt") W<T>::set(x, n(1), v(2));
        else if (op == "iterate") { const Array<T> &c = x; for (T e : c) r.i(V<T>::un(e)); }
        else if (op == "sortAll") {
            if (n(1) == 0) W<T>::sort(&x, x.length);
            else if (n(1) == 1) raw(x, r, [&](T *b, int m) { Arrays::sort(b, m); });
            else raw(x, r, [&](T *b, int m) { Named<T>::sort(b, m); });
        }
        else if (op == "sort") {
            if (n(3) == 0) W<T>::sort(&x, n(1), n(2));
            else raw(x, r, [&](T *b, int) { Arrays::sort(b, n(1), n(2)); });
        }
        else if (op == "searchAll") {
            if (n(2) == 0) r.i(W<T>::find(x, v(1), x.length));
            else raw(x, r, [&](T *b, int m) { r.i(Arrays::binarySearchByKey(b, v(1), m)); });
        }
        else if (op == "search") {
            if (n(4) == 0) r.i(W<T>::find(x, n(1), n(2), v(3)));
            else if (n(4) == 1) raw(x, r, [&](T *b, int) { r.i(Arrays::binarySearch(b, n(1), n(2), v(3))); });
            else raw(x, r, [&](T *b, int) { r.i(Arrays::binarySearchByIndex(b, n(1), n(2), v(3))); });
        }
        else if (op == "copyOf") o[n(1) - 1] = n(3) == 0 ? Arrays::copyOf(x, n(2)) : W<T>::to(x, n(2));
        else if (op == "copyOfRange") o[n(1) - 1] = n(4) == 0 ? Arrays::copyOfRange(x, n(2), n(3)) : W<T>::to(x, n(2), n(3));
        else if (op == "equals") r.i(U<T>::eq(x, o[n(1) - 1]));
        else if (op == "fillAll") U<T>::fill(&x, v(1));
        else if (op == "fill") U<T>::fill(&x, n(1), n(2), v(3));
        else if (op == "hash") r.limbs32((unsigned) U<T>::hash(x));
        else if (op == "sameHash") r.i(U<T>::hash(x) == U<T>::hash(o[n(1) - 1]));
        else badScript(op);
    }
    template <class E> void withList(const Ints &v, Res &r) {
        #define M_(k) V<E>::mk(v[k])
        ArrayList<E> l = v.size() == 0 ? Arrays::asList<E>({}) : v.size() == 1 ? Arrays::asList<E>({M_(0)}) : v.size() == 2 ? Arrays::asList<E>({M_(0), M_(1)})
            : v.size() == 3 ? Arrays::asList<E>({M_(0), M_(1), M_(2)}) : Arrays::asList<E>({M_(0), M_(1), M_(2), M_(3)});
        for (int k = 0; k < l.size(); ++k) r.i(V<E>::un(l.get(k)));
    }
    void project(Res &s) { for (auto &x : o) { s.list(un(x)); } }
};
template <> template <> void Run<boolean>::withList<boolean>(const Ints &v, Res &) { badScript("asList"); }
Base *make(int k) {
    switch (k) {
        case 1: return new Run<byte>(); case 2: return new Run<short>(); case 3: return new Run<long>(); case 4: return new Run<char>();
        case 5: return new Run<float>(); case 6: return new Run<double>(); case 7: return new Run<boolean>(); case 8: return new Run<Integer>(); case 9: return new Run<String>();
    }
    return new Run<int>();
}
