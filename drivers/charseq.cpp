// StringBuilder (kind 0), StringBuffer (kind 1) and StringBufferUnSafe (kind 2) under one script language.
#include "common.hpp"
static std::string cstr(const String &s) { return std::string(s.toSTLString()); }
static Array<char> chars(const std::string &t) { Array<char> a; for (char c : t) a.push(c); return a; }
static String S_(const std::string &t) { return String(t); }
static String S(const Arg &a) { return String(a.str()); }
struct Base { virtual ~Base() {} virtual void step(const std::string &, const Args &, Res &) = 0; virtual void project(Res &) = 0; };

// the calls named differently in the two families
inline void del(StringBuilder &b, int f, int e) { b.deleteRange(f, e); }
inline String sub(StringBuilder &b, int f) { return b.substring(f); }
inline String sub(StringBuilder &b, int f, int e) { return b.substring(f, e); }
inline void appendChars(StringBuilder &b, const std::string &t) { b.append(chars(t)); }
inline void appendPart(StringBuilder &b, const std::string &t, int o, int n) { b.append(chars(t), o, n); }
inline void insertChars(StringBuilder &b, int i, const std::string &t) { b.insert(i, chars(t)); }
inline void insertPart(StringBuilder &b, int i, const std::string &t, int o, int n) { b.insert(i, chars(t), o, n); }
inline void appendOther(StringBuilder &b, const StringBuilder &o) { b.append((const CharSequence &) o); }
inline std::string value(StringBuilder &b) { return String(b).toSTLString(); }
template <class T> void del(T &b, int f, int e) { b.deletes(f, e); }
template <class T> String sub(T &b, int f) { return b.subString(f); }
template <class T> String sub(T &b, int f, int e) { return b.subString(f, e); }
template <class T> void appendChars(T &b, const std::string &t) { b.append((string) t.c_str()); }
inline void appendPart(StringBuffer &b, const std::string &t, int o, int n) { b.append((string) t.c_str(), o, n); }
inline void appendPart(StringBufferUnSafe &b, const std::string &t, int o, int n) { b.append(String(t), o, n); }
inline void insertChars(StringBuffer &b, int i, const std::string &t) { b.insert(i, String(t)); }
inline void insertChars(StringBufferUnSafe &b, int i, const std::string &t) { b.insert(i, (string) t.c_str()); }
template <class T> void insertPart(T &b, int i, const std::string &t, int o, int n) { b.insert(i, String(t), o, n); }
inline void insertSeq(StringBuilder &b, int i, const CharSequence &t) { b.insert(i, t); }
inline void insertSeq(StringBuffer &b, int i, const CharSequence &t) { b.insert(i, t); }
inline void insertSeq(StringBufferUnSafe &b, int i, const CharSequence &t) { b.insert(i, const_cast<CharSequence *>(&t)); }
template <class T> void appendOther(T &b, const T &o) { b.append(o); }
inline std::string value(StringBuffer &b) { return b.getValue().toSTLString(); }
inline std::string value(StringBufferUnSafe &b) { return b.getValue(); }

// values in their boxes, lists of characters and arrays of Character: overloads of StringBuilder only; the others get the plain value
static Array<Character> boxes(const std::string &t) { Array<Character> a; for (char c : t) a.push(Character(c)); return a; }
template <class T> void appendPlain(T &b, int k, long v) {
    switch (k) { case 0: b.append((boolean) v); break; case 1: b.append((char) v); break; case 2: b.append((int) v); break; case 3: b.append(v); break; case 4: b.append(v / 2.0); break; default: b.append(v / 2.0f); }
}
template <class T> void insertPlain(T &b, int i, int k, long v) {
    switch (k) { case 0: b.insert(i, (boolean) v); break; case 1: b.insert(i, (char) v); break; case 2: b.insert(i, (int) v); break; case 3: b.insert(i, v); break; case 4: b.insert(i, v / 2.0); break; default: b.insert(i, v / 2.0f); }
}
template <class T> void appendBox(T &b, int k, long v) { appendPlain(b, k, v); }
template <class T> void insertBox(T &b, int i, int k, long v) { insertPlain(b, i, k, v); }
inline void appendBox(StringBuilder &b, int k, long v) {
    switch (k) { case 0: b.append(Boolean(v != 0)); break; case 1: b.append(Character((char) v)); break; case 2: b.append(Integer((int) v)); break; case 3: b.append(Long(v)); break; case 4: b.append(Double(v / 2.0)); break; default: b.append(Float(v / 2.0f)); }
}
inline void insertBox(StringBuilder &b, int i, int k, long v) {
    switch (k) { case 0: b.insert(i, Boolean(v != 0)); break; case 1: b.insert(i, Character((char) v)); break; case 2: b.insert(i, Integer((int) v)); break; case 3: b.insert(i, Long(v)); break; case 4: b.insert(i, Double(v / 2.0)); break; default: b.insert(i, Float(v / 2.0f)); }
}
template <class T> void appendInit(T &b, const std::string &t) { for (char c : t) b.append(c); }
inline void appendInit(StringBuilder &b, const std::string &t) {
    const char *x = t.data();
    switch (t.size()) { case 0: b.append(std::initializer_list<char>{}); break; case 1: b.append({x[0]}); break; case 2: b.append({x[0], x[1]}); break; case 3: b.append({x[0], x[1], x[2]}); break; default: badScript("list too long"); }
}
template <class T> T *fromInit(T *, const std::string &t) { return new T(S_(t)); }
inline StringBuilder *fromInit(StringBuilder *, const std::string &t) {
    const char *x = t.data();
    switch (t.size()) { case 0: return new StringBuilder(std::initializer_list<char>{}); case 1: return new StringBuilder({x[0]}); case 2: return new StringBuilder({x[0], x[1]}); case 3: return new StringBuilder({x[0], x[1], x[2]}); }
    badScript("list too long");
}
template <class T> void appendBoxes(T &b, const std::string &t) { appendChars(b, t); }
template <class T> void appendBoxesPart(T &b, const std::string &t, int o, int n) { appendPart(b, t, o, n); }
template <class T> void insertBoxes(T &b, int i, const std::string &t) { insertChars(b, i, t); }
template <class T> void insertBoxesPart(T &b, int i, const std::string &t, int o, int n) { insertPart(b, i, t, o, n); }
inline void appendBoxes(StringBuilder &b, const std::string &t) { b.append(boxes(t)); }
inline void appendBoxesPart(StringBuilder &b, const std::string &t, int o, int n) { b.append(boxes(t), o, n); }
inline void insertBoxes(StringBuilder &b, int i, const std::string &t) { b.insert(i, boxes(t)); }
inline void insertBoxesPart(StringBuilder &b, int i, const std::string &t, int o, int n) { b.insert(i, boxes(t), o, n); }
template <class T> void setBox(T &b, int i, char c) { b.setCharAt(i, c); }
inline void setBox(StringBuilder &b, int i, char c) { b.setCharAt(i, Character(c)); }
template <class T> void appendCode(T &b, int c) { b.appendCodePoint(c); }
inline void appendCode(StringBuilder &, int) { badScript("appendCodePoint"); }

template <class T> struct Bufs : Base {
    int kind; T *b[2];
    Bufs(int k) : kind(k) { b[0] = new T(); b[1] = new T(); }
    ~Bufs() { delete b[0]; delete b[1]; }
    void step(const std::string &op, const Args &a, Res &r) override {
        T &t = *b[a[0].i - 1];
        auto I = [&](int k) { return (int) a[k].i; };
        if (op == "make") { T *n = new T(I(1)); delete b[a[0].i - 1]; b[a[0].i - 1] = n; }
        else if (op == "fromText") { T *n = new T(S(a[1])); delete b[a[0].i - 1]; b[a[0].i - 1] = n; }
        else if (op == "append") { if (&t.append(S(a[1])) != &t) throw std::runtime_error("not itself"); }
        else if (op == "appendSeq") t.append((const CharSequence &) S(a[1]));
        else if (op == "appendChars") appendChars(t, a[1].str());
        else if (op == "appendChar") t.append((char) I(1));
        else if (op == "appendInt") t.append(I(1));
        else if (op == "appendLong") t.append((long) a[1].i);
        else if (op == "appendBool") t.append((boolean) I(1));
        else if (op == "appendRange") t.append((const CharSequence &) S(a[1]), I(2), I(3));
        else if (op == "appendPart") appendPart(t, a[1].str(), I(2), I(3));
        else if (op == "appendOther") { if (t.length() % 2) appendOther(t, *b[I(1) - 1]); else t.append((const CharSequence &) *b[I(1) - 1]); }
        else if (op == "appendOtherRange") t.append((const CharSequence &) *b[I(1) - 1], I(2), I(3));
        else if (op == "insert") t.insert(I(1), S(a[2]));
        else if (op == "insertSeq") { String x = S(a[2]); insertSeq(t, I(1), x); }
        else if (op == "insertChars") insertChars(t, I(1), a[2].str());
        else if (op == "insertChar") t.insert(I(1), (char) I(2));
        else if (op == "insertInt") t.insert(I(1), I(2));
        else if (op == "insertLong") t.insert(I(1), (long) a[2].i);
        else if (op == "insertBool") t.insert(I(1), (boolean) I(2));
        else if (op == "insertRange") t.insert(I(1), (const CharSequence &) S(a[2]), I(3), I(4));
        else if (op == "insertPart") insertPart(t, I(1), a[2].str(), I(3), I(4));
        else if (op == "insertOther") insertSeq(t, I(1), *b[I(2) - 1]);
        else if (op == "appendValue") appendPlain(t, I(1), (long) a[2].i);
        else if (op == "insertValue") insertPlain(t, I(1), I(2), (long) a[3].i);
        else if (op == "appendBox") appendBox(t, I(1), (long) a[2].i);
        else if (op == "insertBox") insertBox(t, I(1), I(2), (long) a[3].i);
        else if (op == "appendInit") appendInit(t, a[1].str());
        else if (op == "appendBoxes") appendBoxes(t, a[1].str());
        else if (op == "appendBoxesPart") appendBoxesPart(t, a[1].str(), I(2), I(3));
        else if (op == "insertBoxes") insertBoxes(t, I(1), a[2].str());
        else if (op == "insertBoxesPart") insertBoxesPart(t, I(1), a[2].str(), I(3), I(4));
        else if (op == "setBox") setBox(t, I(1), (char) I(2));
        else if (op == "appendCode") appendCode(t, I(1));
        else if (op == "fromInit") { T *n = fromInit((T *) nullptr, a[1].str()); delete b[a[0].i - 1]; b[a[0].i - 1] = n; }
        else if (op == "fromSeq") { String x = S(a[1]); T *n = new T((const CharSequence &) x); delete b[a[0].i - 1]; b[a[0].i - 1] = n; }
        else if (op == "fromBuffer") { T *n = new T((const CharSequence &) t); delete b[I(1) - 1]; b[I(1) - 1] = n; }
        else if (op == "delete") del(t, I(1), I(2));
        else if (op == "deleteCharAt") t.deleteCharAt(I(1));
        else if (op == "replace") t.replace(I(1), I(2), S(a[3]));
        else if (op == "reverse") t.reverse();
        else if (op == "setCharAt") t.setCharAt(I(1), (char) I(2));
        else if (op == "setLength") t.setLength(I(1));
        else if (op == "ensureCapacity") { t.ensureCapacity(I(1)); r.i(t.capacity()); }
        else if (op == "trimToSize") { t.trimToSize(); r.i(t.capacity()); }
        else if (op == "charAt") r.i((unsigned char) t.charAt(I(1)));
        else if (op == "indexOf") r.i(t.indexOf(S(a[1])));
        else if (op == "indexOfFrom") r.i(t.indexOf(S(a[1]), I(2)));
        else if (op == "lastIndexOf") r.i(t.lastIndexOf(S(a[1])));
        else if (op == "lastIndexOfFrom") r.i(t.lastIndexOf(S(a[1]), I(2)));
        else if (op == "substringFrom") flat(r, cstr(sub(t, I(1))));
        else if (op == "substring") flat(r, cstr(sub(t, I(1), I(2))));
        else if (op == "toString") flat(r, cstr(t.toString()));
        else if (op == "getValue") flat(r, value(t));
        else if (op == "codePointAt") r.i(t.codePointAt(I(1)) & 255);
        else if (op == "codePointBefore") r.i(t.codePointBefore(I(1)) & 255);
        else if (op == "codePointCount") r.i(t.codePointCount(I(1), I(2)));
        else if (op == "copy") { T *n = new T(t); if (&t != b[I(1) - 1]) delete b[I(1) - 1]; else delete &t; b[I(1) - 1] = n; }
        else if (op == "assign") *b[I(1) - 1] = t;
        else badScript(op);
    }
    static void flat(Res &r, const std::string &t) { for (unsigned char c : t) r.i(c); }
    void project(Res &s) override {
        s.i(kind);
        for (T *t : b) {
            std::string x; int n = t->length();
            for (int k = 0; k < n && k < 100000; ++k) x += t->charAt(k);
            s.open().str(x).i(n).str(cstr(t->toString())).i(t->capacity()).close();
        }
    }
};
static CUR Base *cur = nullptr;
void step(const std::string &op, const Args &a, Res &r) {
    if (op == "new") {
        delete cur; cur = nullptr;
        int k = a.empty() ? 0 : (int) a[0].i;
        cur = k == 0 ? (Base *) new Bufs<StringBuilder>(0) : k == 1 ? (Base *) new Bufs<StringBuffer>(1) : (Base *) new Bufs<StringBufferUnSafe>(2);
        return;
    }
    cur->step(op, a, r);
}
void project(Res &s) { cur->project(s); }
void finish() { delete cur; cur = nullptr; }
