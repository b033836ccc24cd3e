// Deterministic scheduler: exactly one logical thread runs at a time; which one is decided here, at every
// atomic operation, lock, condition variable, thread operation and (in random mode) at plain memory accesses.
// The code under test is compiled with -fsanitize=thread, which makes the compiler call __tsan_* before
// each access; this file provides those functions instead of the sanitizer's run-time.  pthread and time
// functions are interposed.  Time is virtual: it advances only when it must, or when the plan says so.
#include "sched.hpp"
#include <link.h>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <random>
#include <unordered_map>

namespace sched {
typedef long long ll;
struct Thr {
    int id = 0;
    int futex = 0;
    bool done = false, released = false;
    const std::function<bool()> *pred = nullptr;   // blocked until this holds ...
    ll deadline = -1;                              // ... or this time has come (ns, -1: never)
    bool timedOut = false, spuriousOk = false, spurious = false;
    pthread_t real{};
    bool haveReal = false;
    char *lo = nullptr, *hi = nullptr;
    void *(*fn)(void *) = nullptr;
    void *arg = nullptr, *ret = nullptr;
    bool detached = false, joined = false;
    int idle = 0;                                  // atomic operations since one that changed something
};
struct Mx { int owner = -1; int count = 0; };
struct Cv { std::vector<Thr *> waiters; };
struct Rw { int writer = -1; int readers = 0; };
static const ll T_START = 1000000000000000LL;
struct World {
    Plan plan;
    Outcome out;
    std::mt19937_64 rng;
    std::vector<Thr *> thr;
    std::unordered_map<void *, Mx> mx;
    std::unordered_map<void *, Cv> cv;
    std::unordered_map<void *, Rw> rw;
    std::unordered_map<void *, int> sem;
    ll now = T_START;
    bool active = false, stuck = false;
    std::vector<long> at;                          // random preemption places
    size_t nextAt = 0;
    long sinceSwitch = 0;
};
static World *W = nullptr;
static int abandoned = 0;
static __thread Thr *me = nullptr;
static __thread int quiet = 0;
static __thread int inside = 0;                    // running scheduler code: nothing in it is a schedule point
struct In { In() { ++inside; } ~In() { --inside; } };

static void fwait(int *f) { while (!__atomic_load_n(f, __ATOMIC_ACQUIRE)) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(f, 0, __ATOMIC_RELAXED); }
static void fwake(int *f) { __atomic_store_n(f, 1, __ATOMIC_RELEASE); syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

template <class F> static F real(const char *name) { return (F) dlsym(RTLD_NEXT, name); }
static bool on() { return !inside && !quiet && me && W && W->active; }
int self() { return me ? me->id : 0; }
long nowMs() { return W ? (long) ((W->now - T_START) / 1000000) : 0; }
void pause(bool b) { quiet += b ? 1 : -1; }
int liveThreads() { return abandoned; }

static bool enabled(Thr *t) {
    if (t->done) return false;
    if (!t->pred) return true;
    if ((*t->pred)()) return true;
    return t->deadline >= 0 && W->now >= t->deadline;
}
struct Alt { Thr *t; int what; int cost; };   // what 0: run t, 1: let time pass to t's deadline first, 2: spurious wake-up of t
static int pick(std::vector<Alt> &alts) {
    Plan &p = W->plan;
    if (alts.size() == 1) return 0;
    if (p.mode == 0) return 0;
    if (p.mode == 1) {
        size_t i = W->out.choices.size();
        int c = i < p.prefix.size() ? p.prefix[i] : 0;
        if (c >= (int) alts.size()) c = 0;
        Choice ch; ch.n = (int) alts.size(); ch.taken = c;
        for (auto &a : alts) ch.cost.push_back(a.cost);
        W->out.choices.push_back(ch);
        return c;
    }
    return (int) (W->rng() % alts.size());
}
static void go(Thr *next) {
    if (next == me) return;
    W->sinceSwitch = 0;
    Thr *m = me;
    m->idle = 0;
    fwake(&next->futex);
    if (m->done) return;
    fwait(&m->futex);
}
static double uni() { return (W->rng() >> 11) * (1.0 / 9007199254740992.0); }

// Chooses who runs next and passes the baton.  mayStay: the running thread could itself go on.
static void schedule(bool mayStay, bool preferOther) {
    World *w = W;
    for (;;) {
        std::vector<Alt> alts;
        bool sys = w->plan.mode == 1;
        if (mayStay && !preferOther) alts.push_back({me, 0, 0});
        for (Thr *t : w->thr) if (t != me && enabled(t)) alts.push_back({t, 0, mayStay && !preferOther ? 1 : 0});
        if (!mayStay && !me->done && enabled(me)) alts.push_back({me, 0, 0});
        if (mayStay && preferOther && alts.empty()) alts.push_back({me, 0, 0});
        Thr *first = nullptr;                      // the earliest deadline among the blocked
        for (Thr *t : w->thr) if (!t->done && t->pred && t->deadline >= 0 && !enabled(t) && (!first || t->deadline < first->deadline)) first = t;
        bool onlyTime = alts.empty();
        if (onlyTime && !first) {
            w->stuck = true;                       // nothing will ever run again: back to the controller
            if (me->id == 0) return;
            go(w->thr[0]);
            return;
        }
        if (onlyTime) alts.push_back({first, 1, 0});
        bool extra = sys ? w->plan.spurious > 0 : (w->plan.mode == 2 && w->plan.spurious > 0 && uni() < w->plan.spurious);
        if (extra) {                               // early time-outs and spurious wake-ups, never needed to make progress
            for (Thr *t : w->thr) if (!t->done && t->pred && t->spuriousOk && !enabled(t)) alts.push_back({t, 2, 1});
            if (first && !onlyTime) alts.push_back({first, 1, 1});
        }
        Alt a = alts[pick(alts)];
        if (a.what == 1) { w->now = std::max(w->now, a.t->deadline); if (onlyTime) continue; }
        if (a.what == 2) { a.t->spurious = true; }
        go(a.t);
        return;
    }
}
static void hang() {                               // too long: treat as stuck
    W->stuck = true;
    if (me->id != 0) { go(W->thr[0]); for (;;) ::pause(); }
}
// Before an operation other threads can see.
static void visit(bool sync) {
    World *w = W;
    w->out.points++;
    if (sync) w->out.syncs++;
    if (++w->sinceSwitch > 400000) { hang(); return; }
    if (w->out.points > 3000000) { hang(); return; }
    Plan &p = w->plan;
    if (p.mode == 0) return;
    if (p.mode == 1) { if (sync) schedule(true, false); return; }
    if (p.preempt >= 0) {
        if (w->nextAt < w->at.size() && w->out.points >= w->at[w->nextAt]) { w->nextAt++; schedule(true, true); }
    } else if (sync && uni() < p.p) schedule(true, true);
}
static void yieldNow() { me->idle = 0; schedule(true, true); }
// Blocks until pred (or the deadline); returns false on time-out.  A spurious wake-up returns true.
static bool waitUntil(const std::function<bool()> &pred, ll deadline, bool spuriousOk = false) {
    if (deadline < 0 && pred()) return true;
    for (;;) {
        if (pred()) return true;
        if (deadline >= 0 && W->now >= deadline) return false;
        me->pred = &pred; me->deadline = deadline; me->spuriousOk = spuriousOk; me->spurious = false;
        schedule(false, false);
        me->pred = nullptr; me->deadline = -1; me->spuriousOk = false;
        if (W->stuck && me->id == 0) return false;
        if (me->spurious) { me->spurious = false; return true; }
    }
}
void point() { if (!on()) return; In in; visit(true); }
void sleepMs(long ms) { if (!on()) return; In in; visit(true); std::function<bool()> never = [] { return false; }; waitUntil(never, W->now + (ll) ms * 1000000); }

static void finish() { me->done = true; schedule(false, false); }
static void *entry(void *p) {
    Thr *t = (Thr *) p;
    pthread_attr_t at; void *lo; size_t sz;
    if (pthread_getattr_np(pthread_self(), &at) == 0) { pthread_attr_getstack(&at, &lo, &sz); t->lo = (char *) lo; t->hi = t->lo + sz; pthread_attr_destroy(&at); }
    fwait(&t->futex);
    me = t;
    t->ret = t->fn(t->arg);
    quiet = 0;
    inside = 1;
    finish();
    fwait(&t->futex);                              // stays until the execution is over, so that its id stays its own
    me = nullptr;
    return t->ret;
}
typedef int (*CreateF)(pthread_t *, const pthread_attr_t *, void *(*) (void *), void *);
typedef int (*JoinF)(pthread_t, void **);
static Thr *spawn(void *(*fn)(void *), void *arg) {
    static CreateF create = real<CreateF>("pthread_create");
    Thr *t = new Thr();
    t->id = (int) W->thr.size();
    t->fn = fn; t->arg = arg;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
    if (create(&t->real, &at, entry, t)) { perror("pthread_create"); _exit(96); }
    pthread_attr_destroy(&at);
    t->haveReal = true;
    W->thr.push_back(t);
    return t;
}
static Thr *byReal(pthread_t p) { for (Thr *t : W->thr) if (t->haveReal && pthread_equal(t->real, p)) return t; return nullptr; }
static void *bodyEntry(void *p) { (*(const std::function<void()> *) p)(); return nullptr; }

int start(const std::function<void()> &body) { In in; return spawn(bodyEntry, (void *) &body)->id; }
void await(int id) { In in; Thr *t = W->thr[id]; std::function<bool()> p = [t] { return t->done; }; waitUntil(p, -1); }
Outcome run(const Plan &plan, const std::function<void()> &master) {
    In in;
    static JoinF join = real<JoinF>("pthread_join");
    World *w = new World();
    W = w;
    w->plan = plan;
    w->rng.seed(plan.seed * 0x9E3779B97F4A7C15ull + 12345);
    if (plan.mode == 2 && plan.preempt >= 0) {
        for (int i = 0; i < plan.preempt; ++i) w->at.push_back(1 + (long) (w->rng() % (unsigned long) std::max(1L, plan.horizon)));
        std::sort(w->at.begin(), w->at.end());
    }
    Thr ctl; me = &ctl; ctl.haveReal = false;
    w->thr.push_back(&ctl);
    spawn(bodyEntry, (void *) &master);
    w->active = true;
    std::function<bool()> all = [w] { for (size_t i = 1; i < w->thr.size(); ++i) if (!w->thr[i]->done) return false; return true; };
    ctl.pred = &all;
    // the controller only waits: schedule among the others until all are done or stuck
    while (!all() && !w->stuck) { schedule(false, false); }
    ctl.pred = nullptr;
    w->active = false;
    Outcome o = w->out;
    o.stuck = w->stuck;
    for (size_t i = 1; i < w->thr.size(); ++i) {
        Thr *t = w->thr[i];
        if (t->done) { fwake(&t->futex); join(t->real, nullptr); delete t; }
        else abandoned++;
    }
    me = nullptr;
    if (!o.stuck) { delete w; }
    W = nullptr;
    return o;
}
bool nextSystematic(const Outcome &o, int bound, std::vector<int> &prefix) {
    std::vector<int> used(o.choices.size() + 1, 0);
    for (size_t i = 0; i < o.choices.size(); ++i) used[i + 1] = used[i] + o.choices[i].cost[o.choices[i].taken];
    for (size_t i = o.choices.size(); i-- > 0;) {
        for (int c = o.choices[i].taken + 1; c < o.choices[i].n; ++c)
            if (used[i] + o.choices[i].cost[c] <= bound) {
                prefix.clear();
                for (size_t k = 0; k < i; ++k) prefix.push_back(o.choices[k].taken);
                prefix.push_back(c);
                return true;
            }
    }
    return false;
}
} // namespace sched
using namespace sched;

// ------------------------------------------------------------------ pthread
static void lockMx(void *m) {
    Mx &x = W->mx[m];
    if (x.owner == me->id) { x.count++; return; }
    std::function<bool()> freeNow = [m] { return W->mx[m].owner < 0; };
    waitUntil(freeNow, -1);
    Mx &y = W->mx[m];
    y.owner = me->id; y.count = 1;
}
static bool recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
static int acquire(pthread_mutex_t *m, ll deadline, bool try_) {
    visit(true);
    me->idle = 0;
    Mx &x = W->mx[(void *) m];
    if (x.owner == me->id) {
        if (recursive(m)) { x.count++; return 0; }
        if (try_) return EBUSY;
        if ((m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        std::function<bool()> never = [] { return false; };      // self-deadlock
        waitUntil(never, deadline);
        return ETIMEDOUT;
    }
    if (try_) { if (x.owner >= 0) { if (++me->idle > 20) yieldNow(); return EBUSY; } x.owner = me->id; x.count = 1; return 0; }
    std::function<bool()> freeNow = [m] { return W->mx[(void *) m].owner < 0; };
    if (!waitUntil(freeNow, deadline)) return ETIMEDOUT;
    Mx &y = W->mx[(void *) m]; y.owner = me->id; y.count = 1;
    return 0;
}
static ll ns(const struct timespec *t) { return (ll) t->tv_sec * 1000000000LL + t->tv_nsec; }
#define REAL(ret, name, ...) typedef ret (*F_##name)(__VA_ARGS__); static F_##name real_##name() { static F_##name f = real<F_##name>(#name); return f; }
REAL(int, pthread_mutex_lock, pthread_mutex_t *) REAL(int, pthread_mutex_unlock, pthread_mutex_t *) REAL(int, pthread_mutex_trylock, pthread_mutex_t *)
REAL(int, pthread_mutex_timedlock, pthread_mutex_t *, const struct timespec *) REAL(int, pthread_mutex_clocklock, pthread_mutex_t *, clockid_t, const struct timespec *)
REAL(int, pthread_cond_wait, pthread_cond_t *, pthread_mutex_t *) REAL(int, pthread_cond_signal, pthread_cond_t *) REAL(int, pthread_cond_broadcast, pthread_cond_t *)
REAL(int, pthread_cond_timedwait, pthread_cond_t *, pthread_mutex_t *, const struct timespec *)
REAL(int, pthread_cond_clockwait, pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *)
REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*) (void *), void *) REAL(int, pthread_join, pthread_t, void **) REAL(int, pthread_detach, pthread_t)
REAL(int, clock_gettime, clockid_t, struct timespec *) REAL(int, gettimeofday, struct timeval *, void *) REAL(time_t, time, time_t *)
REAL(int, nanosleep, const struct timespec *, struct timespec *) REAL(int, clock_nanosleep, clockid_t, int, const struct timespec *, struct timespec *)
REAL(int, usleep, useconds_t) REAL(unsigned, sleep, unsigned) REAL(int, sched_yield, void)
REAL(int, sem_init, sem_t *, int, unsigned) REAL(int, sem_wait, sem_t *) REAL(int, sem_trywait, sem_t *) REAL(int, sem_post, sem_t *) REAL(int, sem_timedwait, sem_t *, const struct timespec *) REAL(int, sem_getvalue, sem_t *, int *)
REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t *) REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t *) REAL(int, pthread_rwlock_unlock, pthread_rwlock_t *)
REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t *) REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t *)
REAL(int, pthread_spin_lock, pthread_spinlock_t *) REAL(int, pthread_spin_unlock, pthread_spinlock_t *) REAL(int, pthread_spin_trylock, pthread_spinlock_t *)
REAL(int, pthread_once, pthread_once_t *, void (*)(void))

extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) { if (!on()) return real_pthread_mutex_lock()(m); In in; return acquire(m, -1, false); }
int pthread_mutex_trylock(pthread_mutex_t *m) { if (!on()) return real_pthread_mutex_trylock()(m); In in; return acquire(m, -1, true); }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { if (!on()) return real_pthread_mutex_timedlock()(m, t); In in; return acquire(m, ns(t), false); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *t) { if (!on()) return real_pthread_mutex_clocklock()(m, c, t); In in; return acquire(m, ns(t), false); }
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!on()) return real_pthread_mutex_unlock()(m); In in;
    visit(true);
    Mx &x = W->mx[(void *) m];
    if (x.owner == me->id && --x.count == 0) x.owner = -1;
    else if (x.owner != me->id) { x.owner = -1; x.count = 0; }
    me->idle = 0;
    return 0;
}
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, ll deadline) {
    visit(true);
    Thr *t = me;
    Mx &x = W->mx[(void *) m]; x.owner = -1; x.count = 0;
    W->cv[(void *) c].waiters.push_back(t);
    std::function<bool()> woken = [c, t] { auto &w = W->cv[(void *) c].waiters; return std::find(w.begin(), w.end(), t) == w.end(); };
    bool ok = waitUntil(woken, deadline, true);
    auto &w = W->cv[(void *) c].waiters;
    auto it = std::find(w.begin(), w.end(), t);
    if (it != w.end()) w.erase(it);
    lockMx(m);
    return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!on()) return real_pthread_cond_wait()(c, m); In in; return cwait(c, m, -1); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { if (!on()) return real_pthread_cond_timedwait()(c, m, t); In in; return cwait(c, m, std::max(0LL, ns(t))); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { if (!on()) return real_pthread_cond_clockwait()(c, m, k, t); In in; return cwait(c, m, std::max(0LL, ns(t))); }
int pthread_cond_signal(pthread_cond_t *c) {
    if (!on()) return real_pthread_cond_signal()(c); In in;
    visit(true);
    auto &w = W->cv[(void *) c].waiters;
    if (!w.empty()) {
        std::vector<Alt> alts;
        for (Thr *t : w) alts.push_back({t, 0, 0});
        w.erase(w.begin() + pick(alts));
    }
    me->idle = 0;
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) { if (!on()) return real_pthread_cond_broadcast()(c); In in; visit(true); W->cv[(void *) c].waiters.clear(); me->idle = 0; return 0; }
int pthread_create(pthread_t *p, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    if (!on()) return real_pthread_create()(p, a, fn, arg); In in;
    visit(true);
    Thr *t = spawn(fn, arg);
    if (a) { int d; if (pthread_attr_getdetachstate(a, &d) == 0 && d == PTHREAD_CREATE_DETACHED) t->detached = true; }
    *p = t->real;
    return 0;
}
int pthread_join(pthread_t p, void **r) {
    if (!on()) return real_pthread_join()(p, r); In in;
    visit(true);
    Thr *t = byReal(p);
    if (!t || t->detached || t->joined) return EINVAL;
    if (t == me) return EDEADLK;
    std::function<bool()> done = [t] { return t->done; };
    waitUntil(done, -1);
    t->joined = true;
    if (r) *r = t->ret;
    return 0;
}
int pthread_detach(pthread_t p) {
    if (!on()) return real_pthread_detach()(p); In in;
    visit(true);
    Thr *t = byReal(p);
    if (!t || t->detached || t->joined) return EINVAL;
    t->detached = true;
    return 0;
}
// time
int clock_gettime(clockid_t c, struct timespec *t) {
    if (!on()) return real_clock_gettime()(c, t); In in;
    visit(true);
    t->tv_sec = W->now / 1000000000LL; t->tv_nsec = W->now % 1000000000LL;
    return 0;
}
int gettimeofday(struct timeval *t, void *z) { if (!on()) return real_gettimeofday()(t, z); In in; t->tv_sec = W->now / 1000000000LL; t->tv_usec = (W->now % 1000000000LL) / 1000; return 0; }
time_t time(time_t *t) { if (!on()) return real_time()(t); In in; time_t x = W->now / 1000000000LL; if (t) *t = x; return x; }
static void vsleep(ll d) { visit(true); std::function<bool()> never = [] { return false; }; waitUntil(never, W->now + std::max(0LL, d)); }
int nanosleep(const struct timespec *t, struct timespec *r) { if (!on()) return real_nanosleep()(t, r); In in; vsleep(ns(t)); return 0; }
int clock_nanosleep(clockid_t c, int f, const struct timespec *t, struct timespec *r) { if (!on()) return real_clock_nanosleep()(c, f, t, r); In in; vsleep(f & TIMER_ABSTIME ? ns(t) - W->now : ns(t)); return 0; }
int usleep(useconds_t u) { if (!on()) return real_usleep()(u); In in; vsleep((ll) u * 1000); return 0; }
unsigned sleep(unsigned s) { if (!on()) return real_sleep()(s); In in; vsleep((ll) s * 1000000000LL); return 0; }
int sched_yield(void) { if (!on()) return real_sched_yield()(); In in; visit(true); yieldNow(); return 0; }
// semaphores
int sem_init(sem_t *s, int sh, unsigned v) { if (W) W->sem[s] = (int) v; return real_sem_init()(s, sh, v); }
static int &semv(sem_t *s) { auto it = W->sem.find(s); if (it == W->sem.end()) { int v = 0; real_sem_getvalue()(s, &v); it = W->sem.emplace((void *) s, v).first; } return it->second; }
int sem_trywait(sem_t *s) { if (!on()) return real_sem_trywait()(s); In in; visit(true); if (semv(s) > 0) { semv(s)--; return 0; } if (++me->idle > 20) yieldNow(); errno = EAGAIN; return -1; }
static int swait(sem_t *s, ll d) { visit(true); std::function<bool()> p = [s] { return semv(s) > 0; }; if (!waitUntil(p, d)) { errno = ETIMEDOUT; return -1; } semv(s)--; return 0; }
int sem_wait(sem_t *s) { if (!on()) return real_sem_wait()(s); In in; return swait(s, -1); }
int sem_timedwait(sem_t *s, const struct timespec *t) { if (!on()) return real_sem_timedwait()(s, t); In in; return swait(s, ns(t)); }
int sem_post(sem_t *s) { if (!on()) return real_sem_post()(s); In in; visit(true); semv(s)++; return 0; }
int sem_getvalue(sem_t *s, int *v) { if (!on()) return real_sem_getvalue()(s, v); In in; visit(true); *v = semv(s); return 0; }
// read-write locks, spin locks
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { if (!on()) return real_pthread_rwlock_rdlock()(l); In in; visit(true); std::function<bool()> p = [l] { return W->rw[(void *) l].writer < 0; }; waitUntil(p, -1); W->rw[(void *) l].readers++; return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { if (!on()) return real_pthread_rwlock_wrlock()(l); In in; visit(true); std::function<bool()> p = [l] { Rw &r = W->rw[(void *) l]; return r.writer < 0 && r.readers == 0; }; waitUntil(p, -1); W->rw[(void *) l].writer = me->id; return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { if (!on()) return real_pthread_rwlock_tryrdlock()(l); In in; visit(true); Rw &r = W->rw[(void *) l]; if (r.writer >= 0) return EBUSY; r.readers++; return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { if (!on()) return real_pthread_rwlock_trywrlock()(l); In in; visit(true); Rw &r = W->rw[(void *) l]; if (r.writer >= 0 || r.readers) return EBUSY; r.writer = me->id; return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l) { if (!on()) return real_pthread_rwlock_unlock()(l); In in; visit(true); Rw &r = W->rw[(void *) l]; if (r.writer == me->id) r.writer = -1; else if (r.readers > 0) r.readers--; return 0; }
int pthread_spin_lock(pthread_spinlock_t *l) { if (!on()) return real_pthread_spin_lock()(l); In in; visit(true); lockMx((void *) l); return 0; }
int pthread_spin_trylock(pthread_spinlock_t *l) { if (!on()) return real_pthread_spin_trylock()(l); In in; visit(true); Mx &x = W->mx[(void *) l]; if (x.owner >= 0) { yieldNow(); return EBUSY; } x.owner = me->id; x.count = 1; return 0; }
int pthread_spin_unlock(pthread_spinlock_t *l) { if (!on()) return real_pthread_spin_unlock()(l); In in; visit(true); Mx &x = W->mx[(void *) l]; x.owner = -1; x.count = 0; return 0; }
int pthread_once(pthread_once_t *o, void (*f)(void)) { if (!on()) return real_pthread_once()(o, f); In in; if (*o) return 0; *o = 2; f(); return 0; }
// initialisation of function-local statics
int __cxa_guard_acquire(long long *gg) {
    unsigned char *g = (unsigned char *) gg;
    if (__atomic_load_n(g, __ATOMIC_ACQUIRE)) return 0;
    if (on()) { In in; std::function<bool()> p = [g] { return g[1] == 0; }; waitUntil(p, -1); }
    if (*g) return 0;
    g[1] = 1;
    return 1;
}
void __cxa_guard_release(long long *gg) { unsigned char *g = (unsigned char *) gg; g[1] = 0; __atomic_store_n(g, 1, __ATOMIC_RELEASE); }
void __cxa_guard_abort(long long *gg) { ((unsigned char *) gg)[1] = 0; }

// ------------------------------------------------------------------ what the compiler calls
// the writable segments of the program and its libraries, without what is read-only after relocation
struct Seg { char *lo, *hi; };
static std::vector<Seg> segs; static std::vector<Seg> relro;
static int segment(struct dl_phdr_info *i, size_t, void *) {
    for (int k = 0; k < i->dlpi_phnum; ++k) {
        const ElfW(Phdr) &h = i->dlpi_phdr[k]; char *b = (char *) i->dlpi_addr + h.p_vaddr;
        if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) segs.push_back({b, b + h.p_memsz});
        if (h.p_type == PT_GNU_RELRO) relro.push_back({b, b + h.p_memsz});
    }
    return 0;
}
static bool isStatic(char *a) {
    if (segs.empty()) { dl_iterate_phdr(segment, nullptr); }
    for (auto &s : segs) if (a >= s.lo && a < s.hi) { for (auto &r : relro) if (a >= r.lo && a < r.hi) return false; return true; }
    return false;
}
static inline void plain(void *a) {
    if (!on()) return;
    if (W->plan.mode != 2 && W->plan.mode != 0) return;
    if (W->plan.statics) { In in; if (isStatic((char *) a)) visit(true); return; }
    if ((char *) a >= me->lo && (char *) a < me->hi) return;
    In in;
    visit(false);
}
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define P(n) void __tsan_read##n(void *a) { plain(a); } void __tsan_write##n(void *a) { plain(a); } \
    void __tsan_unaligned_read##n(void *a) { plain(a); } void __tsan_unaligned_write##n(void *a) { plain(a); } \
    void __tsan_volatile_read##n(void *a) { plain(a); } void __tsan_volatile_write##n(void *a) { plain(a); } \
    void __tsan_unaligned_volatile_read##n(void *a) { plain(a); } void __tsan_unaligned_volatile_write##n(void *a) { plain(a); } \
    void __tsan_read_write##n(void *a) { plain(a); }
P(1) P(2) P(4) P(8) P(16)
void __tsan_vptr_update(void **a, void *) { plain(a); }
void __tsan_vptr_read(void **a) { plain(a); }
void __tsan_read_range(void *a, unsigned long) { plain(a); }
void __tsan_write_range(void *a, unsigned long) { plain(a); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
static inline void atom(const volatile void *) { if (on()) { In in; visit(true); } }
static inline void noChange(bool same) { if (!on()) return; In in; if (!same) { me->idle = 0; return; } if (++me->idle > 30) yieldNow(); }
#define A(n, T) \
    T __tsan_atomic##n##_load(const volatile T *a, int) { atom(a); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); noChange(true); return v; } \
    void __tsan_atomic##n##_store(volatile T *a, T v, int) { atom(a); T o = __atomic_load_n(a, __ATOMIC_SEQ_CST); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); noChange(o == v); } \
    T __tsan_atomic##n##_exchange(volatile T *a, T v, int) { atom(a); T o = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); noChange(o == v); return o; } \
    T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int) { atom(a); noChange(v == 0); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int) { atom(a); noChange(v == 0); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int) { atom(a); T o = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); noChange((o & v) == o); return o; } \
    T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int) { atom(a); T o = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); noChange((T) (o | v) == o); return o; } \
    T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int) { atom(a); noChange(v == 0); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_nand(volatile T *a, T v, int) { atom(a); noChange(false); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { atom(a); T o = *c; bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); noChange(!ok || o == v); return ok; } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { atom(a); T o = *c; bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); noChange(!ok || o == v); return ok; } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int, int) { atom(a); bool ok = __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); noChange(!ok); return c; }
A(8, unsigned char) A(16, unsigned short) A(32, unsigned int) A(64, unsigned long long)
}
