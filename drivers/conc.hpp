// Script interpreter for the concurrent drivers.  A scenario is a set-up, the calls of each thread and
// calls made after all threads have ended; it is executed under many schedules and every distinct
// history (calls, returns, marks, and whether it got stuck) is printed once.
//   B id / I op args / T thread op args / F op args / G dfs bound max spurious / G rnd count seed spurious / E
#pragma once
#define NO_DRIVER_MAIN
#include "common.hpp"
#include "sched.hpp"
#include <map>
#include <unordered_set>
#include <algorithm>
#include <string.h>
#include <malloc.h>

void fresh();                                                  // a new object under test (the old one is deleted unless keep())
void drop(bool stuck);                                         // the execution is over
void call(const std::string &op, const Args &a, Res &r);       // one call, on whatever thread
extern const bool timed;                                       // record times

struct Ev { char kind; int t; std::string text, tail; };
static std::vector<Ev> *hist = nullptr;
static thread_local int label = -1;                            // 0: set-up and final calls, 1..: the script's threads
static std::string jsonArg(const Arg &a) {
    if (a.isList) { std::string r = "["; for (size_t k = 0; k < a.l.size(); ++k) r += (k ? "," : "") + jsonArg(a.l[k]); return r + "]"; }
    if (a.isStr) { std::string r = "["; for (size_t k = 0; k < a.s.size(); ++k) r += (k ? "," : "") + std::to_string(a.s[k]); return r + "]"; }
    return std::to_string(a.i);
}
struct Call { std::string op; Args a; std::string text; };
static Call parseCall(const std::string &line) {
    Call c; size_t p = line.find(' ');
    c.op = line.substr(0, p);
    while (p != std::string::npos && p < line.size()) {
        while (p < line.size() && line[p] == ' ') ++p;
        if (p >= line.size()) break;
        Arg a; if (!parseArg(line, p, a)) badScript(line);
        c.a.push_back(a);
    }
    c.text = "\"o\":\"" + c.op + "\",\"a\":[";
    for (size_t k = 0; k < c.a.size(); ++k) c.text += (k ? "," : "") + jsonArg(c.a[k]);
    c.text += "]";
    return c;
}
static std::string at() { return ",\"m\":" + std::to_string(timed ? sched::nowMs() : 0); }
static void mark(const std::string &op, int t, long v) {       // something the code under test did, at this very point
    sched::Quiet q;
    hist->push_back({'m', t, "{\"k\":\"mark\",\"t\":" + std::to_string(t) + ",\"o\":\"" + op + "\",\"a\":[" + std::to_string(v) + "]" + at() + "}", ""});
}
static void doCall(const Call &c) {
    sched::point();
    int t = label >= 0 ? label : sched::self();
    { sched::Quiet q; hist->push_back({'c', t, "{\"k\":\"call\",\"t\":" + std::to_string(t) + "," + c.text + at() + "}", ""}); }
    Res r; std::string x;
    try { call(c.op, c.a, r); } CATCHES(x)
    sched::Quiet q;
    if (!x.empty()) r.clear();
    hist->push_back({'r', t, "{\"k\":\"ret\",\"t\":" + std::to_string(t) + ",\"r\":" + r.get() + ",\"x\":\"" + x + "\"" + at() + "}", ""});
}
static std::string curId;
static std::string render(bool sortRuns) {
    std::vector<Ev> h = *hist;
    if (sortRuns) for (size_t i = 0; i < h.size();) {
        size_t j = i + 1;
        if (h[i].kind == 'c' || h[i].kind == 'r') while (j < h.size() && h[j].kind == h[i].kind) ++j;
        std::stable_sort(h.begin() + i, h.begin() + j, [](const Ev &a, const Ev &b) { return a.t < b.t; });
        i = j;
    }
    std::string s = "[";
    for (size_t i = 0; i < h.size(); ++i) s += (i ? "," : "") + h[i].text;
    return s + "]";
}
static std::string schedText;
static void died(int sig) {
    std::string s = "@{\"id\":\"" + curId + "\",\"sch\":\"" + schedText + "\",\"h\":" + render(false);
    s.pop_back();
    s += std::string(hist->empty() ? "" : ",") + "{\"k\":\"" + (sig == SIGALRM ? "hang" : "crash") + "\",\"t\":" + std::to_string(sched::self()) + ",\"m\":0}]}\n";
    if (write(1, s.data(), s.size())) {}
    _exit(98);
}
static std::string planText(const sched::Plan &p) {
    std::string s = p.mode == 1 ? "systematic:" + std::to_string(p.spurious) : "random:" + std::to_string(p.seed) + ":p" + std::to_string(p.p) + ":k" + std::to_string(p.preempt) + ":h" + std::to_string(p.horizon) + ":s" + std::to_string(p.spurious) + ":z" + std::to_string(p.statics);
    for (int c : p.prefix) s += " " + std::to_string(c);
    return s;
}

int main(int argc, char **argv) {
    int each = argc > 1 ? atoi(argv[1]) : 30;
    signal(SIGSEGV, died); signal(SIGABRT, died); signal(SIGFPE, died); signal(SIGBUS, died); signal(SIGILL, died); signal(SIGALRM, died);
    std::ios::sync_with_stdio(false);
    mallopt(M_ARENA_MAX, 1);
    std::string line;
    std::vector<Call> init, fin; std::map<int, std::vector<Call>> th; std::vector<std::string> gs;
    while (std::getline(std::cin, line)) {
        if (line[0] == 'B') { curId = line.substr(2); init.clear(); fin.clear(); th.clear(); gs.clear(); }
        else if (line[0] == 'I') init.push_back(parseCall(line.substr(2)));
        else if (line[0] == 'F') fin.push_back(parseCall(line.substr(2)));
        else if (line[0] == 'G') gs.push_back(line.substr(2));
        else if (line[0] == 'T') { size_t q = line.find(' ', 2); th[atoi(line.c_str() + 2)].push_back(parseCall(line.substr(q + 1))); }
        else if (line[0] == 'E') {
            std::unordered_set<std::string> seen;
            long execs = 0, points = 0; bool complete = true; int stucks = 0;
            std::vector<Ev> events; hist = &events;
            std::vector<std::function<void()>> bodies;
            for (auto &kv : th) { std::vector<Call> *cs = &kv.second; int k = kv.first; bodies.push_back([cs, k] { label = k; for (auto &c : *cs) doCall(c); }); }
            auto once = [&](const sched::Plan &p) {
                schedText = planText(p);
                events.clear();
                alarm(each);
                fresh();
                std::function<void()> master = [&] {
                    label = 0;
                    for (auto &c : init) doCall(c);
                    std::vector<int> ids;
                    for (auto &b : bodies) ids.push_back(sched::start(b));
                    for (int i : ids) sched::await(i);
                    for (auto &c : fin) doCall(c);
                    drop(false);
                };
                sched::Outcome o = sched::run(p, master);
                if (o.stuck) { events.push_back({'s', 0, "{\"k\":\"stuck\",\"t\":0,\"m\":0}", ""}); ++stucks; drop(true); }
                alarm(0);
                ++execs; points += o.points;
                std::string s = render(!timed);
                if (seen.insert(s).second) printf("@{\"id\":\"%s\",\"sch\":\"%s\",\"h\":%s}\n", curId.c_str(), schedText.c_str(), s.c_str());
                return o;
            };
            for (auto &g : gs) {
                std::istringstream is(g); std::string kind; is >> kind;
                if (kind == "dfs") {
                    sched::Plan p; p.mode = 1; long max; double sp; is >> p.bound >> max >> sp; p.spurious = sp;
                    for (long k = 0; k < max && stucks < 40; ++k) {
                        sched::Outcome o = once(p);
                        if (!sched::nextSystematic(o, p.bound, p.prefix)) break;
                        if (k + 1 == max) complete = false;
                    }
                } else if (kind == "one") {          // replay of a single schedule
                    sched::Plan p; std::string m; is >> m; 
                    if (m == "systematic") { p.mode = 1; p.bound = 99; int c; double sp; is >> sp; p.spurious = sp; while (is >> c) p.prefix.push_back(c); }
                    else { p.mode = 2; is >> p.seed >> p.p >> p.preempt >> p.horizon >> p.spurious; int z = 0; is >> z; p.statics = z; }
                    once(p);
                } else if (kind == "sta") {          // around variables with static storage
                    long count; unsigned long seed; is >> count >> seed;
                    for (long k = 0; k < count && stucks < 40; ++k) {
                        sched::Plan p; p.mode = 2; p.statics = true; p.seed = seed * 1000003 + k;
                        static const double ps[] = {0.5, 0.2, 0.9, 0.05};
                        p.p = ps[k % 4];
                        once(p);
                    }
                } else {
                    long count; unsigned long seed; double sp; is >> count >> seed >> sp;
                    sched::Plan p0; long horizon = std::max(20L, once(p0).points);
                    for (long k = 0; k < count && stucks < 40; ++k) {
                        sched::Plan p; p.mode = 2; p.seed = seed * 1000003 + k; p.horizon = horizon * 5 / 4 + 5;
                        static const double ps[] = {0.5, 0.2, 0.05, 0.02};
                        if (k % 2) p.preempt = 1 + (int) (k / 2 % 4); else p.p = ps[k / 2 % 4];
                        p.spurious = k % 3 == 0 ? 0 : k % 3 == 1 ? sp : sp / 5;
                        once(p);
                    }
                }
            }
            printf("={\"id\":\"%s\",\"exec\":%ld,\"complete\":%s,\"points\":%ld,\"distinct\":%ld}\n", curId.c_str(), execs, complete ? "true" : "false", points, (long) seen.size());
            fflush(stdout);
            if (sched::liveThreads() > 300) _exit(95);          // too many threads left behind: a fresh process goes on
        }
    }
    _exit(0);
}
