// Turns a sequential driver into a concurrent one: every thread runs a script of its own on objects of its own.
// The first argument of a call is its key; the recorded result is the call's result, exception and projection.
#pragma once
#define CUR thread_local
#include "conc.hpp"
const bool timed = false;
void step(const std::string &op, const Args &a, Res &r);
void project(Res &s);
void finish();
void fresh() {}
void drop(bool) {}
void call(const std::string &op, const Args &a, Res &r) {
    if (op == "end") { finish(); return; }
    Args b(a.begin() + 1, a.end());
    std::string x;
    try { step(op, b, r); } CATCHES(x)
    if (!x.empty()) r.clear();
    r.str(x);
    project(r);
}
