#include "conc.hpp"
const bool timed = true;
// Thread number k (from 1); its task marks its beginning and end, writes plain variables and may sleep.
struct Sub : Thread { std::function<void()> f; Sub(std::function<void()> g) : f(g) {} void run() override { f(); } };
struct Job : Runnable { std::function<void()> f; void run() override { f(); } };
static const int N = 4;
struct Slot { Thread *t = nullptr; Job *job = nullptr; long data = 0, ranOn = 0, cur = 0; int delay = 0; int startsOther = 0; };
static Slot *sl = nullptr;
void fresh() { sl = new Slot[N]; }
void drop(bool stuck) { if (stuck) return; for (int k = 0; k < N; ++k) { delete sl[k].t; delete sl[k].job; } delete[] sl; sl = nullptr; }
void call(const std::string &op, const Args &a, Res &r) {
    if (op == "sleep") { sched::sleepMs((long) a[0].i); return; }
    int id = (int) a[0].i;
    Slot *s = &sl[id - 1];
    if (op == "make") {                      // kind, task delay
        s->delay = (int) a[2].i;
        std::function<void()> body = [s, id] {
            int lt = sched::self();
            mark("begin", 100 + lt, id);
            s->data = 1;
            s->ranOn = (long) pthread_self();
            s->cur = Thread::currentThread() == s->t;
            if (s->delay) Thread::sleep(s->delay);
            s->data = 2;
            mark("end", 100 + lt, id);
        };
        if (a[1].i == 0) s->t = new Thread(body);
        else if (a[1].i == 1) { s->job = new Job(); s->job->f = body; s->t = new Thread((Runnable *) s->job); }
        else s->t = new Sub(body);
    }
    else if (op == "start") s->t->start();
    else if (op == "join") s->t->join();
    else if (op == "joinFor") s->t->join((long) a[1].i);
    else if (op == "isAlive") r.i(s->t->isAlive());
    else if (op == "read") r.i(s->data);
    else if (op == "setName") s->t->setName(String(a[1].str()));
    else if (op == "getName") { for (unsigned char c : std::string(s->t->getName().toSTLString())) r.i(c); }
    else if (op == "idIsMine") { r.i(s->t->getId() == (unsigned long) s->ranOn); r.i(s->cur); }     // after a join: the id of the thread the task ran on
    else if (op == "sameId") r.i(s->t->getId() == sl[a[1].i - 1].t->getId());
    else if (op == "delete") { Thread *t = s->t; delete t; s->t = nullptr; }
    else badScript(op);
}
