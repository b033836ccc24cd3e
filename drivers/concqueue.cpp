#include "conc.hpp"
#include "elem.hpp"
#include "library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp"
template <> struct El<int> { static int mk(long long v) { return (int) v; } static long long un(int e) { return e; } };
using Java::Util::Concurrent::ConcurrentLinkedQueue;
const bool timed = false;
struct Any { virtual ~Any() {} virtual void call(const std::string &, const Args &, Res &) = 0; };
template <class E> struct CQ : Any {
    ConcurrentLinkedQueue<E> q;
    E v(const Arg &a) { return El<E>::mk(a.i); }
    void call(const std::string &op, const Args &a, Res &r) {
        if (op == "add") r.i(q.add(v(a[1])));
        else if (op == "offer") r.i(q.offer(v(a[1])));
        else if (op == "addMany") { for (long long k = a[1].i; k < a[2].i; ++k) q.add(El<E>::mk(k)); }
        else if (op == "pollMany") { for (int k = 0; k < a[1].i; ++k) r.i(El<E>::un(q.poll())); }
        else if (op == "poll") r.i(El<E>::un(q.poll()));
        else if (op == "size") r.i(q.size());
        else if (op == "isEmpty") r.i(q.isEmpty());
        else if (op == "clear") q.clear();
        else badScript(op);
    }
};
static Any *m[3];
void fresh() { m[0] = new CQ<int>(); m[1] = new CQ<String>(); m[2] = new CQ<Integer>(); }
void drop(bool stuck) { if (!stuck) for (Any *x : m) delete x; }
void call(const std::string &op, const Args &a, Res &r) { m[a[0].i - 1]->call(op, a, r); }
