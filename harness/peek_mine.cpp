#include <algorithm>
#include <cstring>
#include <mutex>
#include <mpi.h>
#include "hxhim/hxhim.hpp"
#include "driver.hpp"
#include "peek.hpp"
#ifndef HX_STUB
#include "hxhim/private/hxhim.hpp"
#include "message/Messages.hpp"
#include "transport/backend/MPI/Options.hpp"
#include "datastore/datastores.hpp"
#include "hxhim/config.hpp"
#include "utils/elen.hpp"
#endif
#ifdef HX_STUB
std::string jmine(hxhim_t *) { emit("{\"e\":\"badscenario\"}"); return "[]"; }
#else
std::string jmine(hxhim_t *hx) {
    std::string mine = "[";
    if (hx->p) for (std::size_t i = 0; i < hx->p->range_server.datastores.ds.size(); i++) mine += (i ? "," : "") + std::to_string(hx->p->range_server.datastores.ds[i] ? hx->p->range_server.datastores.ds[i]->ID() : -1);
    return mine + "]";
}
#endif
