#include "conc.hpp"
const bool timed = false;
static StringBuffer *b[2];
void fresh() { b[0] = new StringBuffer(); b[1] = new StringBuffer(1); }
void drop(bool stuck) { if (!stuck) { delete b[0]; delete b[1]; } }
static void flat(Res &r, const String &s) { for (unsigned char c : std::string(s.toSTLString())) r.i(c); }
void call(const std::string &op, const Args &a, Res &r) {
    StringBuffer &t = *b[a[0].i - 1];
    auto I = [&](int k) { return (int) a[k].i; };
    auto S = [&](int k) { return String(a[k].str()); };
    if (op == "append") t.append(S(1));
    else if (op == "appendChar") t.append((char) I(1));
    else if (op == "appendInt") t.append(I(1));
    else if (op == "appendLong") t.append((long) a[1].i);
    else if (op == "appendBool") t.append((boolean) I(1));
    else if (op == "insert") t.insert(I(1), S(2));
    else if (op == "insertChar") t.insert(I(1), (char) I(2));
    else if (op == "insertInt") t.insert(I(1), I(2));
    else if (op == "delete") t.deletes(I(1), I(2));
    else if (op == "deleteCharAt") t.deleteCharAt(I(1));
    else if (op == "replace") t.replace(I(1), I(2), S(3));
    else if (op == "reverse") t.reverse();
    else if (op == "setCharAt") t.setCharAt(I(1), (char) I(2));
    else if (op == "setLength") t.setLength(I(1));
    else if (op == "ensureCapacity") t.ensureCapacity(I(1));
    else if (op == "trimToSize") t.trimToSize();
    else if (op == "length") r.i(t.length());
    else if (op == "roomy") r.i(t.capacity() >= 0);
    else if (op == "toString") flat(r, t.toString());
    else if (op == "copyText") { StringBuffer c(t); flat(r, c.toString()); }
    else if (op == "charAt") r.i((unsigned char) t.charAt(I(1)));
    else if (op == "indexOf") r.i(t.indexOf(S(1)));
    else if (op == "lastIndexOf") r.i(t.lastIndexOf(S(1)));
    else if (op == "substring") flat(r, t.subString(I(1), I(2)));
    else if (op == "substringFrom") flat(r, t.subString(I(1)));
    else if (op == "codePointCount") r.i(t.codePointCount(I(1), I(2)));
    else if (op == "appendOther") t.append(*b[I(1) - 1]);
    else if (op == "appendOtherSeq") t.append((const CharSequence &) *b[I(1) - 1]);
    else if (op == "insertOther") t.insert(I(1), (const CharSequence &) *b[I(2) - 1]);
    else if (op == "assign") t = *b[I(1) - 1];
    else badScript(op);
}
