// Element adapters: scripts speak integers; containers hold Integer or String.
#pragma once
#include "common.hpp"
template <class E> struct El;
template <> struct El<Integer> {
    static Integer mk(long long v) { return Integer((int) v); }
    static long long un(const Integer &e) { return e.intValue(); }
};
template <> struct El<String> {
    static String mk(long long v) { if (v == 0) return String(""); return String(std::to_string(v).c_str()); }
    static long long un(const String &e) {
        std::string s(e.toCharPointer(), e.length());
        if (s.empty()) return 0;                       // a default element
        char *end; long long v = strtoll(s.c_str(), &end, 10);
        if (*end) return -777777;                      // not something the script stored
        return v;
    }
};
inline std::string cstr(const String &s) { return std::string(s.toCharPointer(), s.length()); }
