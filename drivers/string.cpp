#include "seqlib.hpp"
static String S(const Arg &a) { return String(std::string(a.str())); }
static void put(Res &r, const std::string &s) { for (unsigned char c : s) r.i(c); }
static void give(Res &r, String s) { put(r, s.toSTLString()); s += "!"; }         // changing a result must not change anything else
static Array<char> chars(const Arg &a) { Array<char> x; for (long long c : a.s) x.push((char) c); return x; }
static Array<byte> bytes(const Arg &a) { Array<byte> x; for (long long c : a.s) x.push((byte) c); return x; }
static int sgn(int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }
struct Run : Base {
    String *o[2];
    Run() { o[0] = new String(); o[1] = new String(""); }
    ~Run() { delete o[0]; delete o[1]; }
    void set(int k, String *n) { delete o[k]; o[k] = n; }
    void step(const std::string &op, const Args &a, Res &r) {
        int k = (int) a[0].i - 1;
        String &m = *o[k]; const String &c = m;
        auto I = [&](int q) { return (int) a[q].i; };
        auto D = [&](int q) -> String & { return *o[a[q].i - 1]; };
        if (op == "set") m = S(a[1]);
        else if (op == "fromChars") set(k, new String(chars(a[1])));
        else if (op == "fromBytes") set(k, new String(bytes(a[1])));
        else if (op == "fromStd") set(k, new String(a[1].str()));
        else if (op == "fromCharArray") m = String::fromCharArray(chars(a[1]));
        else if (op == "copyValueOf") m = String::copyValueOf(chars(a[1]));
        else if (op == "fromCharsPart") { String *n = new String(chars(a[1]), I(2), I(3)); set(k, n); }
        else if (op == "fromBytesPart") { String *n = new String(bytes(a[1]), I(2), I(3)); set(k, n); }
        else if (op == "copyValuePart") m = String::copyValueOf(chars(a[1]), I(2), I(3));
        else if (op == "fromPointer") { std::string t = a[1].str(); set(k, new String((const_string) t.data(), I(2))); }
        else if (op == "assign") D(1) = c;
        else if (op == "copy") set(I(1) - 1, new String(c));
        else if (op == "clone") D(1) = m.clone();
        else if (op == "toString") D(1) = c.toString();
        else if (op == "valueOfString") D(1) = String::valueOf(c);
        else if (op == "plusAssign") m += S(a[1]);
        else if (op == "plusAssignChar") m += (char) I(1);
        else if (op == "plusAssignPointer") { std::string t = a[1].str(); m += (const_string) t.c_str(); }
        else if (op == "plusAssignOther") m += D(1);
        else if (op == "setAt") m[I(1)] = (char) I(2);
        else if (op == "concat") give(r, c.concat(S(a[1])));
        else if (op == "plus") { String t = c + S(a[1]), u = m + S(a[1]); if (t.toSTLString() != u.toSTLString()) throw std::runtime_error("+"); give(r, t); }
        else if (op == "charAt") r.i((unsigned char) c.charAt(I(1)));
        else if (op == "at") r.i((unsigned char) c[I(1)]);
        else if (op == "length") r.i(c.length());
        else if (op == "getSize") r.i(c.getSize());
        else if (op == "isEmpty") r.i(c.isEmpty());
        else if (op == "indexOfChar") r.i(c.indexOf((char) I(1)));
        else if (op == "indexOfCharFrom") r.i(c.indexOf((char) I(1), I(2)));
        else if (op == "lastIndexOfChar") r.i(c.lastIndexOf((char) I(1)));
        else if (op == "lastIndexOfCharFrom") r.i(c.lastIndexOf((char) I(1), I(2)));
        else if (op == "indexOf") r.i(c.indexOf(S(a[1])));
        else if (op == "indexOfFrom") r.i(c.indexOf(S(a[1]), I(2)));
        else if (op == "lastIndexOf") r.i(c.lastIndexOf(S(a[1])));
        else if (op == "lastIndexOfFrom") r.i(c.lastIndexOf(S(a[1]), I(2)));
        else if (op == "contains") r.i(c.contains(S(a[1])));
        else if (op == "containsSeq") { StringBuffer b; b.append(S(a[1])); r.i(c.contains((const CharSequence &) b)); }
        else if (op == "startsWith") r.i(c.startsWith(S(a[1])));
        else if (op == "startsWithFrom") r.i(c.startsWith(S(a[1]), I(2)));
        else if (op == "endsWith") r.i(c.endsWith(S(a[1])));
        else if (op == "subStringFrom") give(r, c.subString(I(1)));
        else if (op == "getStringFromIndex") give(r, c.getStringFromIndex(I(1)));
        else if (op == "subString") give(r, c.subString(I(1), I(2)));
        else if (op == "replaceChar") give(r, c.replace((char) I(1), (char) I(2)));
        else if (op == "replace") give(r, c.replace(S(a[1]), S(a[2])));
        else if (op == "replaceAll") give(r, c.replaceAll(S(a[1]), S(a[2])));
        else if (op == "replaceFirst") give(r, c.replaceFirst(S(a[1]), S(a[2])));
        else if (op == "trim") give(r, c.trim());
        else if (op == "toLowerCase") give(r, c.toLowerCase());
        else if (op == "toUpperCase") give(r, c.toUpperCase());
        else if (op == "split" || op == "splitUpTo") { Array<String> x = op == "split" ? c.split(S(a[1])) : c.split(S(a[1]), I(2)); for (int q = 0; q < x.length; ++q) r.str(x.get(q).toSTLString()); }
        else if (op == "join") {
            std::vector<String> v; for (const Arg &t : a[1].l) v.push_back(S(t));
            switch (v.size()) {
                case 1: give(r, String::join(c, v[0])); break;
                case 2: give(r, String::join(c, v[0], v[1])); break;
                case 3: give(r, String::join(c, v[0], v[1], v[2])); break;
                case 4: give(r, String::join(c, v[0], v[1], v[2], v[3])); break;
                default: badScript("join");
            }
        }
        else if (op == "toCharArray") { Array<char> x = c.toCharArray(); for (int q = 0; q < x.length; ++q) { r.i((unsigned char) x.get(q)); x[q] = '!'; } }
        else if (op == "getBytes") { Array<byte> x = c.getBytes(); for (int q = 0; q < x.length; ++q) { r.i((unsigned char) x.get(q)); x[q] = '!'; } }
        else if (op == "toStd") { std::string x = c; put(r, x); }
        else if (op == "getChars") { Array<char> x; for (int q = 0; q < I(3); ++q) x.push('.'); c.getChars(I(1), I(2), x, I(4)); for (int q = 0; q < x.length; ++q) r.i((unsigned char) x.get(q)); }
        else if (op == "regionMatches") { bool t = c.regionMatches((boolean) (I(1) == 1), I(2), S(a[3]), I(4), I(5)); if (I(1) == 0 && t != c.regionMatches(I(2), S(a[3]), I(4), I(5))) throw std::runtime_error("regionMatches"); r.i(t); }
        else if (op == "valueOfChar") give(r, String::valueOf((char) I(1)));
        else if (op == "valueOfInt") { String t = String::valueOf(I(1)); if (t != String::valueOf((long) I(1)) || t != String::valueOf((long long) I(1)) || (I(1) == (short) I(1) && t != String::valueOf((short) I(1)))) throw std::runtime_error("valueOf"); give(r, t); }
        else if (op == "valueOfBool") give(r, String::valueOf((boolean) (I(1) == 1)));
        else if (op == "equals") r.i(c.equals(D(1)));
        else if (op == "eq") r.i(c == D(1));
        else if (op == "ne") r.i(c != D(1));
        else if (op == "contentEquals") r.i(c.contentEquals(D(1)));
        else if (op == "compareTo") r.i(sgn(c.compareTo(D(1))));
        else if (op == "compareToIgnoreCase") r.i(sgn(c.compareToIgnoreCase(D(1))));
        else if (op == "equalsIgnoreCase") r.i(c.equalsIgnoreCase(D(1)));
        else if (op == "lt") r.i(c < D(1));
        else if (op == "gt") r.i(c > D(1));
        else if (op == "le") r.i(c <= D(1));
        else if (op == "ge") r.i(c >= D(1));
        else if (op == "hashCode") { long h = c.hashCode(); if (h != (long) (int) h) throw std::runtime_error("not an int"); r.i((unsigned) h & 0xffff).i((unsigned) h >> 16); }
        else if (op == "stdHash") r.i(std::hash<String>()(c) == std::hash<String>()(D(1)));
        else badScript(op);
    }
    void project(Res &s) {
        for (int k = 0; k < 2; ++k) {
            const String &c = *o[k];
            s.open(); s.open();
            for (int q = 0; q < c.length(); ++q) s.i((unsigned char) c.charAt(q));
            s.close(); s.i(c.length()); s.i(c.isEmpty()); s.str(c.toSTLString()); s.close();
        }
    }
};
Base *make(int) { return new Run(); }
