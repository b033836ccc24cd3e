#include "conc.hpp"
const bool timed = false;
static Random *g;
void fresh() { g = new Random(0L); }
void drop(bool stuck) { if (!stuck) delete g; }
void call(const std::string &op, const Args &a, Res &r) {
    if (op == "setSeed") g->setSeed((long) fromLimbs(a[0].s));
    else if (op == "nextInt") r.limbs32(g->nextInt());
    else if (op == "nextBoolean") r.i(g->nextBoolean());
    else if (op == "nextFloat") r.i((int) (g->nextFloat() * 16777216.0f));
    else if (op == "nextBelow") r.i(g->nextInt((int) a[0].i));
    else if (op == "nextLong") r.limbs(g->nextLong());
    else if (op == "nextDouble") r.limbs((long) (g->nextDouble() * 9007199254740992.0));
    else badScript(op);
}
