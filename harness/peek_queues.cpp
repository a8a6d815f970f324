#include <algorithm>
#include <cstring>
#include <mutex>
#include <mpi.h>
#include "hxhim/hxhim.hpp"
#include "driver.hpp"
#include "peek.hpp"
#ifndef HX_STUB
#include "hxhim/private/hxhim.hpp"
#include "message/Messages.hpp"
#include "transport/backend/MPI/Options.hpp"
#include "datastore/datastores.hpp"
#include "hxhim/config.hpp"
#include "utils/elen.hpp"
#endif
#ifdef HX_STUB
std::string jqueues(hxhim_t *, bool) { emit("{\"e\":\"badscenario\"}"); return "[]"; }
#else
// queue lengths, read from the session (private) - used only by the lifecycle and limit checks
std::string jqueues(hxhim_t *hx, bool sizes) {
    if (!hx->p) return "[]";
    auto &q = hx->p->queues;
    std::lock_guard<std::mutex> lock(q.puts.mutex);
    std::string s = "[";
    auto add = [&](auto &qs) {
        std::string t = "[";
        bool f1 = true;
        for (auto &ds : qs) { t += f1 ? "[" : ",["; f1 = false; bool f2 = true; for (auto *r : ds) { t += (f2 ? "" : ",") + (sizes ? "[" + std::to_string(r->count) + "," + std::to_string(r->size()) + "]" : std::to_string(r->count)); f2 = false; } t += "]"; }
        return t + "]";
    };
    s += add(q.puts.queue) + "," + add(q.gets) + "," + add(q.getops) + "," + add(q.deletes) + "," + add(q.histograms);
    return s + "]";
}
#endif
