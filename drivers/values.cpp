#include "seqlib.hpp"
#include "library/Java/Lang/Boolean/Boolean.hpp"
#include "library/Java/Lang/Character/Character.hpp"
#include "library/Java/Lang/Enum/Enum.hpp"
#include <sstream>
using namespace Java::Lang;
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
template <class T> std::string shown(const T &t) { std::ostringstream s; s << t; return s.str(); }
template <class T> struct Two : Base {
    T *o[2];
    ~Two() { for (auto p : o) delete p; }
    void put(int k, T *n) { delete o[k]; o[k] = n; }
    bool common(const std::string &op, const Args &a) {
        if (op == "copy") put(a[0].i - 1, new T(*o[a[1].i - 1]));
        else if (op == "assign") *o[a[0].i - 1] = *o[a[1].i - 1];
        else return false;
        return true;
    }
};
struct Bools : Two<Boolean> {
    Bools() { for (auto &p : o) p = new Boolean(false); }
    void step(const std::string &op, const Args &a, Res &r) {
        if (common(op, a)) return;
        if (op == "parse") { r.i(Boolean::parseBoolean(a[0].str().c_str())); return; }
        if (op == "getBoolean") { r.i(Boolean::getBoolean(a[0].str().c_str())); return; }
        int k = a[0].i - 1; Boolean &t = *o[k];
        auto other = [&]() -> Boolean & { return *o[a[1].i - 1]; };
        if (op == "make") put(k, new Boolean((boolean) a[1].i));
        else if (op == "valueOf") put(k, new Boolean(Boolean::valueOf((boolean) a[1].i)));
        else if (op == "makeText") put(k, new Boolean(a[1].str().c_str()));
        else if (op == "valueOfText") put(k, new Boolean(Boolean::valueOf(a[1].str().c_str())));
        else if (op == "valueOfString") put(k, new Boolean(Boolean::valueOf(String(a[1].str().c_str()))));
        else if (op == "texts") r.str(t.toString().toCharPointer()).str(Boolean::toString(t.booleanValue()).toCharPointer()).str(shown(t));
        else if (op == "again") { String s = other().toString(); put(k, new Boolean((const_string) s.toCharPointer())); }
        else if (op == "compareB") r.i(t.compareTo(other())).i(Boolean::compare(t.booleanValue(), other().booleanValue()));
        else if (op == "equalB") { Boolean &b = other(); bool e = t.equals(b); r.i(e).i(t == b).i(t != b).i(!e || t.hashCode() == b.hashCode()); }
        else badScript(op);
    }
    void project(Res &s) { for (auto p : o) s.open().i(p->booleanValue()).close(); }
};
struct Chars : Two<Character> {
    Chars() { for (auto &p : o) p = new Character(); }
    static Array<char> text(const Arg &a) { Array<char> t; for (long long c : a.s) t.push((char) c); return t; }
    void step(const std::string &op, const Args &a, Res &r) {
        if (common(op, a)) return;
        auto I = [&](int p) { return (int) a[p].i; };
        if (op == "makeC") put(I(0) - 1, new Character((char) I(1)));
        else if (op == "compareC") { Character &x = *o[I(0) - 1], &y = *o[I(1) - 1]; r.i(sgn(x.compareTo(y))).i(sgn(Character::compare(x.charValue(), y.charValue()))); }
        else if (op == "digit") r.i(Character::digit(I(0), I(1)));
        else if (op == "charCount") r.i(o[I(0) - 1]->charCount(I(1)));
        else if (op == "pointAt") r.i(Character::codePointAt(text(a[0]), I(1)));
        else if (op == "pointAtLimit") r.i(Character::codePointAt(text(a[0]), I(1), I(2)));
        else if (op == "pointBefore") r.i(Character::codePointBefore(text(a[0]), I(1)));
        else if (op == "pointBeforeStart") r.i(Character::codePointBefore(text(a[0]), I(1), I(2)));
        else if (op == "pointCount") r.i(Character::codePointCount(text(a[0]), I(1), I(2)));
        else badScript(op);
    }
    void project(Res &s) { for (auto p : o) { std::string t = shown(*p); s.open().i(t.size() == 1 && t[0] == p->charValue() ? (unsigned char) p->charValue() : -1).close(); } }
};
struct Colour : Enum<Colour> { Colour(const_string n, int k) : Enum(n, k) {} Colour(String n, int k) : Enum(n, k) {} Colour(string n, int k) : Enum(n, k) {} };
struct Enums : Two<Colour> {
    Enums() { for (auto &p : o) p = new Colour("A", 0); }
    void step(const std::string &op, const Args &a, Res &r) {
        if (common(op, a)) return;
        auto I = [&](int p) { return (int) a[p].i; };
        Colour &t = *o[I(0) - 1];
        if (op == "makeE") {
            std::string n = a[1].str();
            switch (n.size() % 3) {
                case 0: put(I(0) - 1, new Colour(n.c_str(), I(2))); break;
                case 1: put(I(0) - 1, new Colour(String(n.c_str()), I(2))); break;
                default: put(I(0) - 1, new Colour(&n[0], I(2))); for (char &c : n) c = '!';
            }
        }
        else if (op == "textsE") r.str(t.name().toCharPointer()).str(t.toString().toCharPointer());
        else if (op == "compareE") { Colour &u = *o[I(1) - 1]; r.i(sgn(t.compareTo(u))).i(t.equals(u)); }
        else badScript(op);
    }
    void project(Res &s) { for (auto p : o) s.open().str(p->name().toCharPointer()).i(p->ordinal()).close(); }
};
Base *make(int k) { if (k == 0) return new Bools(); if (k == 1) return new Chars(); return new Enums(); }
