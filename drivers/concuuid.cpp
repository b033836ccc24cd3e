#include "conc.hpp"
const bool timed = false;
using namespace Java::Util;
static std::map<std::pair<long, long>, int> *ids;
void fresh() { sched::Quiet q; UUID::timeUUID(); ids = new std::map<std::pair<long, long>, int>(); }    // (sets the generator to the real time, before which the simulated clock starts)
void drop(bool stuck) { if (!stuck) delete ids; }
void call(const std::string &op, const Args &, Res &r) {
    UUID u = op == "time" ? UUID::timeUUID() : op == "random" ? UUID::randomUUID() : (badScript(op), UUID());
    sched::Quiet q;
    auto k = std::make_pair(u.getMostSignificantBits(), u.getLeastSignificantBits());
    if (!ids->count(k)) { int n = ids->size() + 1; (*ids)[k] = n; }
    r.i((*ids)[k]).i(u.version()).i(u.variant());
}
