#include <algorithm>
#include <cstring>
#include <mutex>
#include <mpi.h>
#include "hxhim/hxhim.hpp"
#include "driver.hpp"
#include "peek.hpp"
#ifndef HX_STUB
#include "hxhim/private/hxhim.hpp"
#include "message/Messages.hpp"
#include "transport/backend/MPI/Options.hpp"
#include "datastore/datastores.hpp"
#include "hxhim/config.hpp"
#include "utils/elen.hpp"
#endif
#ifdef HX_STUB
std::string jcfg(hxhim_t *) { emit("{\"e\":\"badscenario\"}"); return "{}"; }
#else
// the options in effect, as far as the private structure shows them
std::string jcfg(hxhim_t *hx) {
    if (!hx->p) return "{}";
    auto clamp = [](std::size_t x) { return std::to_string(x > 1000000000 ? (std::size_t) 1000000000 : x); };
    hxhim_private_t *p = hx->p;
    auto &D = p->range_server.datastores;
    std::string s = "{\"debug\":" + std::to_string(p->debug_level) + ",\"client\":" + clamp(p->range_server.client_ratio) + ",\"server\":" + clamp(p->range_server.server_ratio) +
        ",\"per\":" + clamp(D.per_server) + ",\"openinit\":" + jb(D.open_init) + ",\"prefix\":" + jstr(D.prefix) + ",\"basename\":" + jstr(D.basename) + ",\"postfix\":" + jstr(D.postfix);
    std::string type = "none"; bool create = false;
    if (auto *c = dynamic_cast<Datastore::LevelDB::Config *>(D.config)) { type = "LEVELDB"; create = c->create_if_missing; }
    else if (auto *c = dynamic_cast<Datastore::RocksDB::Config *>(D.config)) { type = "ROCKSDB"; create = c->create_if_missing; }
    else if (dynamic_cast<Datastore::InMemory::Config *>(D.config)) type = "IN_MEMORY";
    s += ",\"type\":\"" + type + "\",\"create\":" + jb(create);
    std::string fn = "?";
    const char *hname = "?", *hname2 = "?"; hxhim_hash_t hfunc = nullptr, hfunc2 = nullptr; void *hargs = nullptr, *hargs2 = nullptr;
    const bool g1 = hxhimGetHash(hx, &hname, &hfunc, &hargs) == HXHIM_SUCCESS, g2 = hxhim::GetHash(hx, &hname2, &hfunc2, &hargs2) == HXHIM_SUCCESS;
    if (!g1 && !g2 && !p->running) { hname = p->hash.name.c_str(); hfunc = p->hash.func; hargs = p->hash.args; } // (only answers on open sessions)
    else if (!g1 || !g2 || !p->running || p->hash.name != hname2 || hfunc != hfunc2 || hargs != hargs2) hname = "?";
    for (auto &h : hxhim::config::HASHES) if (h.second == hfunc) fn = h.first;
    for (const char *n : {"minus", "ssum", "psum", "err", "arg0", "arg1"}) { void *a; if (user_hash(n, &a) == hfunc && a == hargs) fn = n; }
    s += ",\"hash\":" + jstr(hname) + ",\"hashfn\":" + jstr(fn);
    std::string tr = "none"; std::size_t listeners = 0;
    if (auto *m = dynamic_cast<Transport::MPI::Options *>(p->transport.config)) { tr = "MPI"; listeners = m->listeners; }
    else if (p->transport.config) tr = p->transport.config->type == Transport::TRANSPORT_NULL ? "NULL" : "other";
    s += ",\"transport\":\"" + tr + "\",\"listeners\":" + clamp(listeners) + ",\"eps\":[";
    { bool f = true; for (int e : p->transport.endpointgroup) { s += (f ? "" : ",") + std::to_string(e); f = false; } }
    s += "],\"async\":" + jb(p->async_puts.enabled) + ",\"asyncn\":" + clamp(p->async_puts.max_queued) + ",\"ops\":" + clamp(p->queues.max_per_request.ops) + ",\"size\":" + clamp(p->queues.max_per_request.size);
    std::string gen = "?";
    auto &hc = p->histograms.config;
    for (auto &g : hxhim::config::HISTOGRAM_BUCKET_GENERATORS) if (g.second == hc.generator) { void *a = hxhim::config::HISTOGRAM_BUCKET_GENERATOR_EXTRA_ARGS.at(g.first); if (!a || a == hc.extra_args) gen = g.first; } // (the others do not look at the argument)
    if (hc.generator == g_tens) gen = hc.extra_args ? "tens3" : "tens";
    if (hc.generator == g_fail) gen = "fail";
    s += ",\"firstn\":" + clamp(hc.first_n) + ",\"gen\":" + jstr(gen) + ",\"names\":[";
    { std::vector<std::string> N(p->histograms.names.begin(), p->histograms.names.end()); std::sort(N.begin(), N.end());
      bool f = true; for (auto &n : N) { s += (f ? "" : ",") + jstr(n); f = false; } }
    auto &x = D.transform.numeric_extra;
    s += "],\"read\":" + jb(p->histograms.read) + ",\"write\":" + jb(p->histograms.write) + ",\"neg\":" + std::to_string((int) x.neg) + ",\"pos\":" + std::to_string((int) x.pos) +
         ",\"fp\":" + clamp(x.float_precision) + ",\"dp\":" + clamp(x.double_precision) + ",\"xf\":[";
    for (int t = 1; t <= 8; t++) {
        auto it = D.transform.encode.find((hxhim_data_t) t);
        const char *n = it == D.transform.encode.end() ? "" : !it->second.first ? "none" : it->second.first == x_ok ? "xor" : it->second.first == x_fail ? "fail" : "default";
        auto jt = D.transform.decode.find((hxhim_data_t) t);
        const bool pair = (it == D.transform.encode.end()) == (jt == D.transform.decode.end()) &&
                          (jt == D.transform.decode.end() || (jt->second.first == x_ok) == (it->second.first == x_ok || it->second.first == x_fail));
        s += std::string(t > 1 ? "," : "") + "\"" + (pair ? n : "mixed") + "\"";
    }
    return s + "],\"comm\":" + jb(p->bootstrap.comm != MPI_COMM_NULL) + "}";
}
#endif
