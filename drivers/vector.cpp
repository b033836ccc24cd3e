#include "elem.hpp"
using namespace Java::Util;
struct Base { virtual ~Base() {} virtual void step(const std::string &op, const Args &a, Res &r) = 0; virtual void project(Res &s) = 0; };

template <class E, class T> struct Run : Base {
    T *o[2];
    Run() { o[0] = new T(); o[1] = new T(); }
    ~Run() { delete o[0]; delete o[1]; }
    E e(const Arg &a) { return El<E>::mk(a.i); }
    void put(int k, T *n) { delete o[k]; o[k] = n; }
    template <class F> auto withList(const Ints &v, F f) -> decltype(f(std::initializer_list<E>{})) {
        #define M(k) El<E>::mk(v[k])
        switch (v.size()) {
            case 0: return f(std::initializer_list<E>{});
            case 1: return f({M(0)});
            case 2: return f({M(0), M(1)});
            case 3: return f({M(0), M(1), M(2)});
            case 4: return f({M(0), M(1), M(2), M(3)});
            case 5: return f({M(0), M(1), M(2), M(3), M(4)});
        }
        badScript("list too long");
    }
    struct RR : T { static void go(T &v, int f, int t) { (v.*(&RR::removeRange))(f, t); } };
    bool removeElem(Vector<Integer> &l, const Integer &v, bool first) { return first ? l.remove((const Object &) v) : l.removeElement(v); }
    // String is not an Object, so a vector of strings has no removal by element: search and remove
    bool removeElem(Vector<String> &l, const String &v, bool) { int i = l.indexOf(v); if (i >= 0) l.remove(i); return i >= 0; }
    bool stackOp(Stack<E> &l, const std::string &op, const Args &a, Res &r) {
        if (op == "push") r.i(El<E>::un(l.push(e(a[1]))));
        else if (op == "pop") r.i(El<E>::un(l.pop()));
        else if (op == "peek") r.i(El<E>::un(l.peek()));
        else if (op == "search") r.i(l.search(e(a[1])));
        else if (op == "empty") r.i(l.empty());
        else return false;
        return true;
    }
    bool vectorOnly(Stack<E> &, const std::string &, const Args &, Res &) { return false; }
    bool stackOp(Vector<E> &, const std::string &, const Args &, Res &) { return false; }
    bool vectorOnly(Vector<E> &l, const std::string &op, const Args &a, Res &r) {
        int k = (int) a[0].i - 1;
        if (op == "clone") { Vector<E> c = l.clone(); put((int) a[1].i - 1, (T *) new Vector<E>(c)); }
        else if (op == "fromInit") withList(a[1].s, [&](std::initializer_list<E> x) { put(k, (T *) new Vector<E>(x)); return 0; });
        else if (op == "assignInit") withList(a[1].s, [&](std::initializer_list<E> x) { l = x; return 0; });
        else if (op == "sized") { Vector<E> *n = a[2].i == 0 && a[1].i % 2 == 0 ? new Vector<E>((int) a[1].i) : new Vector<E>((int) a[1].i, (int) a[2].i); put(k, (T *) n); }
        else return false;
        return true;
    }
    void step(const std::string &op, const Args &a, Res &r) {
        int k = (int) a[0].i - 1;
        T &l = *o[k];
        const T &c = l;
        if (op == "add") r.i(l.add(e(a[1])));
        else if (op == "addElement") l.addElement(e(a[1]));
        else if (op == "addAt") l.add((int) a[1].i, e(a[2]));
        else if (op == "insertElementAt") l.insertElementAt(e(a[2]), (int) a[1].i);
        else if (op == "addAll") r.i(withList(a[1].s, [&](std::initializer_list<E> x) { return (int) l.addAll(x); }));
        else if (op == "addAllAt") r.i(withList(a[2].s, [&](std::initializer_list<E> x) { return (int) l.addAll((int) a[1].i, x); }));
        else if (op == "set") r.i(El<E>::un(l.set((int) a[1].i, e(a[2]))));
        else if (op == "setElementAt") l.setElementAt(e(a[2]), (int) a[1].i);
        else if (op == "setOp") l[(int) a[1].i] = e(a[2]);
        else if (op == "get") r.i(El<E>::un(c.get((int) a[1].i)));
        else if (op == "getOp") r.i(El<E>::un(a[1].i % 2 == 0 ? c[(int) a[1].i] : l[(int) a[1].i]));
        else if (op == "elementAt") r.i(El<E>::un(c.elementAt((int) a[1].i)));
        else if (op == "firstElement") r.i(El<E>::un(l.firstElement()));
        else if (op == "lastElement") r.i(El<E>::un(c.lastElement()));
        else if (op == "removeAt") r.i(El<E>::un(l.remove((int) a[1].i)));
        else if (op == "removeElementAt") l.removeElementAt((int) a[1].i);
        else if (op == "removeElem") r.i(removeElem(l, e(a[1]), a[1].i % 2 != 0));
        else if (op == "removeForeign") { Boolean b(true); r.i(l.remove((const Object &) b)); }
        else if (op == "removeAll") r.i(withList(a[1].s, [&](std::initializer_list<E> x) { return (int) l.removeAll(x); }));
        else if (op == "retainAll") r.i(withList(a[1].s, [&](std::initializer_list<E> x) { return (int) l.retainAll(x); }));
        else if (op == "containsAll") r.i(withList(a[1].s, [&](std::initializer_list<E> x) { return (int) l.containsAll(x); }));
        else if (op == "removeRange") RR::go(l, (int) a[1].i, (int) a[2].i);
        else if (op == "clear") l.clear();
        else if (op == "removeAllElements") l.removeAllElements();
        else if (op == "setSize") l.setSize((int) a[1].i);
        else if (op == "ensureCapacity") l.ensureCapacity((int) a[1].i);
        else if (op == "trimToSize") l.trimToSize();
        else if (op == "capacity") r.i(c.capacity());
        else if (op == "contains") r.i(c.contains(e(a[1])));
        else if (op == "indexOf") r.i(c.indexOf(e(a[1])));
        else if (op == "indexOfFrom") r.i(l.indexOf(e(a[1]), (int) a[2].i));
        else if (op == "lastIndexOf") r.i(c.lastIndexOf(e(a[1])));
        else if (op == "lastIndexOfFrom") r.i(c.lastIndexOf(e(a[1]), (int) a[2].i));
        else if (op == "size") r.i(c.size());
        else if (op == "isEmpty") r.i(c.isEmpty());
        else if (op == "toArray") { Array<E> x = c.toArray(); for (int i = 0; i < x.length; ++i) r.i(El<E>::un(x.get(i))); }
        else if (op == "copyInto") { Array<E> x; for (long long v : a[1].s) x.push(El<E>::mk(v)); c.copyInto(x); for (int i = 0; i < x.length; ++i) r.i(El<E>::un(x.get(i))); }
        else if (op == "iterate") { for (const E &x : c) r.i(El<E>::un(x)); }
        else if (op == "equals") r.i(c.equals(*o[a[1].i - 1]));
        else if (op == "copy") { put((int) a[1].i - 1, new T(l)); }
        else if (op == "assign") { *o[a[1].i - 1] = l; }
        else if (!stackOp(l, op, a, r) && !vectorOnly(l, op, a, r)) badScript(op);
    }
    void project(Res &s) {
        for (int k = 0; k < 2; ++k) { s.open(); for (int i = 0, n = (int) o[k]->size(); i < n; ++i) s.i(El<E>::un(o[k]->get(i))); s.close(); }
        s.open(); s.i(o[0]->capacity()); s.i(o[1]->capacity()); s.close();
    }
};

static CUR Base *cur = nullptr;
void step(const std::string &op, const Args &a, Res &r) {
    if (op == "new") {
        delete cur; cur = nullptr;
        switch (a.empty() ? 0 : a[0].i) {
            case 1: cur = new Run<String, Vector<String>>(); break;
            case 2: cur = new Run<Integer, Stack<Integer>>(); break;
            case 3: cur = new Run<String, Stack<String>>(); break;
            default: cur = new Run<Integer, Vector<Integer>>();
        }
        return;
    }
    cur->step(op, a, r);
}
void project(Res &s) { cur->project(s); }
void finish() { delete cur; cur = nullptr; }
