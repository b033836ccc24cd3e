#include "conc.hpp"
const bool timed = true;
static Semaphore *s = nullptr;
void fresh() { s = nullptr; }
void drop(bool stuck) { if (!stuck) delete s; s = nullptr; }
void call(const std::string &op, const Args &a, Res &r) {
    if (op == "make") s = new Semaphore((int) a[0].i);
    else if (op == "acquire") s->acquire();
    else if (op == "acquireN") s->acquire((int) a[0].i);
    else if (op == "release") s->release();
    else if (op == "releaseN") s->release((int) a[0].i);
    else if (op == "tryAcquire") r.i(s->tryAcquire());
    else if (op == "tryAcquireN") r.i(s->tryAcquire((int) a[0].i));
    else if (op == "tryAcquireFor") r.i(s->tryAcquire((int) a[0].i, (long) a[1].i));
    else if (op == "available") r.i(s->availablePermits());
    else if (op == "sleep") sched::sleepMs((long) a[0].i);
    else badScript(op);
}
