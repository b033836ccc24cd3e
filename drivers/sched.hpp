// Deterministic scheduler for the concurrent checks.  See sched.cpp.
#pragma once
#include <functional>
#include <string>
#include <vector>
namespace sched {
struct Plan {                    // how one execution is scheduled
    int mode = 0;                // 0: run threads one after the other, 1: replay choices then default (systematic), 2: random
    unsigned long seed = 0;
    double p = 0.1;              // random: switch probability at a synchronisation point
    int preempt = -1;            // random: instead of p, this many preemptions at random places (memory accesses included)
    long horizon = 1000;         // ... chosen among this many points
    bool statics = false;        // random: memory accesses are points only where they touch variables with static storage
    double spurious = 0;         // probability of a spurious wake-up / early time-out at a point where one is possible
    std::vector<int> prefix;     // systematic: choices
    int bound = 2;
};
struct Choice { int n, taken; std::vector<int> cost; };
struct Outcome {
    bool stuck = false;          // no thread can ever run again
    long points = 0, syncs = 0;  // schedule points met
    std::vector<Choice> choices; // systematic mode
};
// Runs the master as logical thread 1; returns when all threads have ended or nothing can run.
Outcome run(const Plan &plan, const std::function<void()> &master);
int start(const std::function<void()> &body);   // a further logical thread (no schedule point); the function must outlive it
void await(int id);              // until it has ended
int self();                      // logical id of the running thread (0: none)
long nowMs();
void sleepMs(long ms);
void point();                    // an explicit schedule point
void pause(bool on);             // no schedule points while on (harness code)
bool nextSystematic(const Outcome &o, int bound, std::vector<int> &prefix);   // next prefix to explore; false when done
int liveThreads();               // abandoned threads so far
struct Quiet { Quiet() { pause(true); } ~Quiet() { pause(false); } };
}
