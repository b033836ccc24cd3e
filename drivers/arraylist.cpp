#include "elem.hpp"
using namespace Java::Util;

struct Base { virtual ~Base() {} virtual void step(const std::string &op, const Args &a, Res &r) = 0; virtual void project(Res &s) = 0; };

// removeRange is for subclasses
template <class E> struct Opened : ArrayList<E> { static void range(ArrayList<E> &l, int f, int t) { (l.*&Opened::removeRange)(f, t); } };
template <class E> struct Run : Base {
    ArrayList<E> *o[2];
    Run() { o[0] = new ArrayList<E>(); o[1] = new ArrayList<E>(); }
    ~Run() { delete o[0]; delete o[1]; }
    E e(const Arg &a) { return El<E>::mk(a.i); }
    void reset(int k, ArrayList<E> *n) { delete o[k]; o[k] = n; }
    void step(const std::string &op, const Args &a, Res &r) {
        int k = (int) a[0].i - 1;
        ArrayList<E> &l = *o[k];
        if (op == "add") r.i(l.add(e(a[1])));
        else if (op == "addAt") l.add((int) a[1].i, e(a[2]));
        else if (op == "set") r.i(El<E>::un(l.set((int) a[1].i, e(a[2]))));
        else if (op == "setOp") { E old = l[(int) a[1].i]; l[(int) a[1].i] = e(a[2]); r.i(El<E>::un(old)); }
        else if (op == "get") { const ArrayList<E> &c = l; r.i(El<E>::un(c.get((int) a[1].i))); }
        else if (op == "removeAt") r.i(El<E>::un(l.remove((int) a[1].i)));
        else if (op == "removeElem") { const E v = e(a[1]); r.i(l.remove(v)); }
        else if (op == "clear") l.clear();
        else if (op == "contains") r.i(l.contains(e(a[1])));
        else if (op == "indexOf") r.i(l.indexOf(e(a[1])));
        else if (op == "lastIndexOf") r.i(l.lastIndexOf(e(a[1])));
        else if (op == "size") r.i(l.size());
        else if (op == "isEmpty") r.i(l.isEmpty());
        else if (op == "toArray") { Array<E> x = l.toArray(); for (int i = 0; i < x.length; ++i) r.i(El<E>::un(x.get(i))); }
        else if (op == "iterate") { const ArrayList<E> &c = l; for (const E &x : c) r.i(El<E>::un(x)); }
        else if (op == "forEach") { int n = (int) a[1].i, cnt = 0; Res &rr = r;
            l.forEach([&](E x) -> boolean { rr.i(El<E>::un(x)); return ++cnt < n; }); }
        else if (op == "trimToSize") l.trimToSize();
        else if (op == "toString") { String s = l.toString(); Ints v; for (unsigned char c : cstr(s)) v.push_back(c); r.flat(v); }
        else if (op == "stream") { std::ostringstream os; os << l; Ints v; for (unsigned char c : os.str()) v.push_back(c); r.flat(v); }
        else if (op == "clone") { *o[a[1].i - 1] = l.clone(); }
        else if (op == "copy") { reset((int) a[1].i - 1, new ArrayList<E>(l)); }
        else if (op == "assign") { *o[a[1].i - 1] = l; }
        else if (op == "fromInit") { const Ints &v = a[1].s;
            switch (v.size()) {
                case 0: { ArrayList<E> n = std::initializer_list<E>{}; reset(k, new ArrayList<E>(n)); break; }
                case 1: { ArrayList<E> n = {El<E>::mk(v[0])}; reset(k, new ArrayList<E>(n)); break; }
                case 2: { ArrayList<E> n = {El<E>::mk(v[0]), El<E>::mk(v[1])}; reset(k, new ArrayList<E>(n)); break; }
                case 3: { ArrayList<E> n = {El<E>::mk(v[0]), El<E>::mk(v[1]), El<E>::mk(v[2])}; reset(k, new ArrayList<E>(n)); break; }
                case 4: { ArrayList<E> n = {El<E>::mk(v[0]), El<E>::mk(v[1]), El<E>::mk(v[2]), El<E>::mk(v[3])}; reset(k, new ArrayList<E>(n)); break; }
                default: badScript("fromInit");
            } }
        else if (op == "fromArray") { Array<E> x; for (long long v : a[1].s) x.push(El<E>::mk(v)); reset(k, new ArrayList<E>(x)); }
        else if (op == "removeRange") Opened<E>::range(l, (int) a[1].i, (int) a[2].i);
        else if (op == "sized") reset(k, new ArrayList<E>((int) a[1].i));
        else badScript(op);
    }
    void project(Res &s) {
        for (int k = 0; k < 2; ++k) { s.open(); for (int i = 0, n = (int) o[k]->size(); i < n; ++i) s.i(El<E>::un(o[k]->get(i))); s.close(); }
    }
};

static CUR Base *cur = nullptr;
void step(const std::string &op, const Args &a, Res &r) {
    if (op == "new") { delete cur; cur = nullptr; if (!a.empty() && a[0].i == 1) cur = new Run<String>(); else cur = new Run<Integer>(); return; }
    cur->step(op, a, r);
}
void project(Res &s) { cur->project(s); }
void finish() { delete cur; cur = nullptr; }
