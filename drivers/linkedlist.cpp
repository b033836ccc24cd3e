#include "seqlib.hpp"
using namespace Java::Util;
template <class E> struct Run : Base {
    typedef LinkedList<E> T;
    T *o[2];
    Run() { o[0] = new T(); o[1] = new T(); }
    ~Run() { delete o[0]; delete o[1]; }
    E e(const Arg &a) { return El<E>::mk(a.i); }
    Node<E> *node(T &l, int i) { for (Node<E> *n : l) if (i-- == 0) return n; badScript("node"); }
    void step(const std::string &op, const Args &a, Res &r) {
        int k = (int) a[0].i - 1;
        T &l = *o[k];
        if (op == "add") r.i(l.add(e(a[1])));
        else if (op == "offer") r.i(l.offer(e(a[1])));
        else if (op == "offerLast") r.i(l.offerLast(e(a[1])));
        else if (op == "offerFirst") r.i(l.offerFirst(e(a[1])));
        else if (op == "addLast") l.addLast(e(a[1]));
        else if (op == "addFirst") l.addFirst(e(a[1]));
        else if (op == "push") l.push(e(a[1]));
        else if (op == "peek") r.i(El<E>::un(l.peek()));
        else if (op == "peekFirst") r.i(El<E>::un(l.peekFirst()));
        else if (op == "peekLast") r.i(El<E>::un(l.peekLast()));
        else if (op == "getFirst") r.i(El<E>::un(l.getFirst()));
        else if (op == "getLast") r.i(El<E>::un(l.getLast()));
        else if (op == "element") r.i(El<E>::un(l.element()));
        else if (op == "poll") r.i(El<E>::un(l.poll()));
        else if (op == "pollFirst") r.i(El<E>::un(l.pollFirst()));
        else if (op == "pollLast") r.i(El<E>::un(l.pollLast()));
        else if (op == "pop") r.i(El<E>::un(l.pop()));
        else if (op == "remove") r.i(El<E>::un(l.remove()));
        else if (op == "removeLast") r.i(El<E>::un(l.removeLast()));
        else if (op == "get") r.i(El<E>::un(l.get((int) a[1].i)));
        else if (op == "set") { E v = e(a[2]); r.i(El<E>::un(l.set((int) a[1].i, v))); }
        else if (op == "removeAt") r.i(l.remove((int) a[1].i));
        else if (op == "removeNode") r.i(l.remove(*node(l, (int) a[1].i)));
        else if (op == "removeForeign") { T &x = *o[a[1].i - 1]; if (&x != &l && x.size() > 0) r.i(l.remove(*node(x, 0))); else { Node<E> n(El<E>::mk(1)); r.i(l.remove(n)); } }
        else if (op == "writeNode") node(l, (int) a[1].i)->element = e(a[2]);
        else if (op == "clear") l.clear();
        else if (op == "size") r.i(l.size());
        else if (op == "iterate") { for (Node<E> *n : l) r.i(El<E>::un(n->element)); }
        else if (op == "forEach") { int n = (int) a[1].i, c = 0; l.forEach([&](Node<E> *x) -> boolean { r.i(El<E>::un(x->element)); return ++c < n; }); }
        else if (op == "forEachRemove") { long long v = a[1].i; l.forEach([&](Node<E> *x) -> boolean { long long y = El<E>::un(x->element); r.i(y); if (y == v) l.remove(*x); return true; }); }
        else if (op == "forEachWrite") { E v = e(a[1]); l.forEach([&](Node<E> *x) -> boolean { x->element = v; return true; }); }
        else if (op == "copy") { T *n = new T(l); int d = (int) a[1].i - 1; delete o[d]; o[d] = n; }
        else if (op == "assign") *o[a[1].i - 1] = l;
        else if (op == "fromInit") { T *n = withList<E>(a[1].s, [](std::initializer_list<E> x) { return new T(x); }); delete o[k]; o[k] = n; }
        else badScript(op);
    }
    void project(Res &s) { for (int k = 0; k < 2; ++k) { s.open(); for (int i = 0, n = (int) o[k]->size(); i < n; ++i) s.i(El<E>::un(o[k]->get(i))); s.close(); } }
};
Base *make(int k) { if (k == 1) return new Run<String>(); return new Run<Integer>(); }
