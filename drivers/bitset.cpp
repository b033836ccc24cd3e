#include "seqlib.hpp"
using namespace Java::Util;
struct Run : Base {
    BitSet *o[2];
    Run() { o[0] = new BitSet(); o[1] = new BitSet(); }
    ~Run() { delete o[0]; delete o[1]; }
    void put(int k, BitSet *n) { delete o[k]; o[k] = n; }
    void step(const std::string &op, const Args &a, Res &r) {
        int k = (int) a[0].i - 1;
        BitSet &b = *o[k];
        int i = a.size() > 1 ? (int) a[1].i : 0, j = a.size() > 2 ? (int) a[2].i : 0, v = a.size() > 3 ? (int) a[3].i : 0;
        BitSet *d = i >= 1 && i <= 2 ? o[i - 1] : nullptr;
        if (op == "set") b.set(i);
        else if (op == "clearBit") b.clear(i);
        else if (op == "flip") b.flip(i);
        else if (op == "setVal") b.set(i, (boolean) (j == 1));
        else if (op == "setRange") b.set(i, j);
        else if (op == "clearRange") b.clear(i, j);
        else if (op == "flipRange") b.flip(i, j);
        else if (op == "setRangeVal") b.set(i, j, (boolean) (v == 1));
        else if (op == "clear") b.clear();
        else if (op == "and") b.bitAnd(*d);
        else if (op == "or") b.bitOr(*d);
        else if (op == "xor") b.bitXor(*d);
        else if (op == "andNot") b.andNot(*d);
        else if (op == "get") r.i(b.get(i));
        else if (op == "getRange") *o[v - 1] = b.get(i, j);
        else if (op == "cardinality") r.i(b.cardinality());
        else if (op == "length") r.i(b.length());
        else if (op == "isEmpty") r.i(b.isEmpty());
        else if (op == "intersects") r.i(b.intersects(*d));
        else if (op == "nextSetBit") r.i(b.nextSetBit(i));
        else if (op == "nextClearBit") r.i(b.nextClearBit(i));
        else if (op == "previousSetBit") r.i(b.previousSetBit(i));
        else if (op == "previousClearBit") r.i(b.previousClearBit(i));
        else if (op == "equals") { bool e = b.equals(*d); if (e != (b == *d)) throw std::runtime_error("== differs from equals"); r.i(e); }
        else if (op == "equalsForeign") { Integer x(1); r.i(b.equals(x)); }
        else if (op == "hashCode") { unsigned h = (unsigned) b.hashCode(); r.i(h & 0xffff).i(h >> 16); }
        else if (op == "toByteArray") { Array<byte> x = b.toByteArray(); for (int q = 0; q < x.length; ++q) r.i((unsigned char) x.get(q)); }
        else if (op == "toLongArray") { Array<long> x = b.toLongArray(); for (int q = 0; q < x.length; ++q) r.limbs((unsigned long) x.get(q)); }
        else if (op == "valueOfBytes") { Array<byte> x; for (long long c : a[1].s) x.push((byte) c); put(k, new BitSet(BitSet::valueOf(x))); }
        else if (op == "valueOfLongs") { Array<long> x; for (const Arg &c : a[1].l) x.push((long) fromLimbs(c.s)); put(k, new BitSet(BitSet::valueOf(x))); }
        else if (op == "toString") { String s = b.toString(); for (unsigned char c : cstr(s)) r.i(c); }
        else if (op == "size") r.i(b.size());
        else if (op == "copy") put(i - 1, new BitSet(b));
        else if (op == "assign") *d = b;
        else if (op == "clone") *d = b.clone();
        else if (op == "sized") { BitSet *n = new BitSet(i); put(k, n); }
        else badScript(op);
    }
    void project(Res &s) {
        for (int k = 0; k < 2; ++k) {
            s.open();
            int n = o[k]->size() + 130, from = -1;
            for (int i = 0; i <= n; ++i) {
                bool in = i < n && o[k]->get(i);
                if (in && from < 0) from = i;
                if (!in && from >= 0) { s.open(); s.i(from); s.i(i); s.close(); from = -1; }
            }
            s.close();
        }
        for (int k = 0; k < 2; ++k) { s.open(); s.i(o[k]->length()); s.i(o[k]->cardinality()); s.i(o[k]->isEmpty()); s.close(); }
    }
};
Base *make(int) { return new Run(); }
