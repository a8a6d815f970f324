#include "simmpi.hpp"
#include <atomic>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <random>
#include <set>
#include <sstream>
#include <thread>
#include <unistd.h>

namespace sim {

struct Req {
    enum Kind { SEND, RECV } kind;
    World *w;
    int owner;                // rank
    int peer;                 // dst or (wanted) src
    int tag;
    void *buf;
    std::size_t len;
    bool done = false;
    bool cancelled = false;
    bool detached = false;    // handle freed while still posted: whatever matches it is lost
    int src = -1;             // actual source
    std::size_t got = 0;
    uint64_t id = 0;
};

struct Message {
    int src, dst, tag;
    uint64_t id;
    std::vector<char> data;   // eager copy
    bool eager;
    Req *sender;              // null once the sender may forget it
    std::size_t len;
    uint64_t ready;           // tick at which it may be matched
};

struct Comm { World *w; int rank; };

struct World {
    int size;
    Options o;
    std::mutex m;
    std::condition_variable cv;
    std::mt19937_64 rng;
    std::vector<Comm> comms;
    std::vector<std::list<Message> > inbox;            // per destination, send order
    std::vector<std::list<Req *> > posted;             // per destination, post order
    std::set<Req *> reqs;                              // live requests
    uint64_t next_id = 1;
    // collectives
    int bar_count = 0;
    uint64_t bar_gen = 0;
    std::vector<std::vector<char> > gath;
    std::function<void(const std::string &)> log;
    std::function<std::string(int, const void *, std::size_t)> describe;
    std::vector<std::string> errors;
};

static std::atomic<uint64_t> tick{0};
uint64_t ticks() { return tick.load(); }

static std::mutex comms_m;
static std::map<const void *, Comm *> comms;

static Comm *find(MPI_Comm c) {
    std::lock_guard<std::mutex> l(comms_m);
    auto it = comms.find((const void *) c);
    return it == comms.end() ? nullptr : it->second;
}

World *create(int size, const Options &o) {
    World *w = new World;
    w->size = size; w->o = o; w->rng.seed(o.seed);
    w->comms.resize(size);
    w->inbox.resize(size); w->posted.resize(size); w->gath.resize(size);
    std::lock_guard<std::mutex> l(comms_m);
    for (int i = 0; i < size; i++) { w->comms[i] = {w, i}; comms[&w->comms[i]] = &w->comms[i]; }
    return w;
}
MPI_Comm comm(World *w, int rank) { return (MPI_Comm) &w->comms[rank]; }
void set_log(World *w, std::function<void(const std::string &)> f) { std::lock_guard<std::mutex> l(w->m); w->log = f; }
void set_describe(World *w, std::function<std::string(int, const void *, std::size_t)> f) { std::lock_guard<std::mutex> l(w->m); w->describe = f; }
void destroy(World *w) {
    { std::lock_guard<std::mutex> l(comms_m); for (auto &c : w->comms) comms.erase(&c); }
    delete w;
}
std::vector<std::string> leftovers(World *w) {
    std::lock_guard<std::mutex> l(w->m);
    std::vector<std::string> out;
    for (auto &box : w->inbox) for (auto &m : box) {
        std::stringstream s; s << "{\"src\":" << m.src << ",\"dst\":" << m.dst << ",\"tag\":" << m.tag << ",\"len\":" << m.len << "}";
        out.push_back(s.str());
    }
    return out;
}

static void emit(World *w, const char *ev, int src, int dst, int tag, uint64_t id, std::size_t len, const void *data = nullptr) {
    if (!w->log) return;
    std::stringstream s;
    s << "{\"e\":\"" << ev << "\",\"src\":" << src << ",\"dst\":" << dst << ",\"tag\":" << tag << ",\"id\":" << id << ",\"len\":" << len;
    if (data && len == sizeof(std::size_t)) { std::size_t v; memcpy(&v, data, sizeof v); s << ",\"val\":" << (v > 1000000000 ? 1000000000 : v); }
    if (data) {
        uint32_t h = 2166136261u;
        for (std::size_t i = 0; i < len; i++) h = (h ^ ((const unsigned char *) data)[i]) * 16777619u;
        s << ",\"sum\":" << (h >> 2);
        if (w->describe) s << w->describe(tag, data, len);
    }
    s << "}";
    w->log(s.str());
}

// lock held. try to match everything that can be matched
static void progress(World *w) {
    const uint64_t now = tick.load();
    for (int d = 0; d < w->size; d++) {
        auto &posted = w->posted[d];
        auto &box = w->inbox[d];
        for (auto pit = posted.begin(); pit != posted.end();) {
            Req *r = *pit;
            // candidates: the oldest message of each source with that tag, if it is ready
            std::vector<std::list<Message>::iterator> cand;
            std::set<int> seen;
            for (auto it = box.begin(); it != box.end(); ++it) {
                if (it->tag != r->tag && r->tag != MPI_ANY_TAG) continue;
                if (r->peer != MPI_ANY_SOURCE && it->src != r->peer) continue;
                if (!seen.insert(it->src).second) continue;
                if (it->ready <= now) cand.push_back(it);
            }
            if (cand.empty()) { ++pit; continue; }
            auto it = cand[w->rng() % cand.size()];
            if (r->detached) {
                emit(w, "lost", it->src, d, it->tag, it->id, it->len);
                if (it->sender) it->sender->done = true;
                box.erase(it);
                pit = posted.erase(pit);
                delete r;
                continue;
            }
            const std::size_t n = it->len < r->len ? it->len : r->len;
            if (it->len > r->len) w->errors.push_back("truncated");
            const void *from = it->eager ? (const void *) it->data.data() : it->sender->buf;
            if (n) memcpy(r->buf, from, n);
            if (!it->eager && it->sender) it->sender->done = true;
            else if (it->sender) it->sender->done = true;
            r->done = true; r->src = it->src; r->got = it->len;
            emit(w, it->len > r->len ? "trunc" : "match", it->src, d, it->tag, it->id, it->len, from);
            box.erase(it);
            pit = posted.erase(pit);
        }
    }
}

}

using namespace sim;

extern "C" {

int MPI_Initialized(int *flag) { *flag = 1; return MPI_SUCCESS; }
int MPI_Init_thread(int *, char ***, int, int *provided) { *provided = MPI_THREAD_MULTIPLE; return MPI_SUCCESS; }
int MPI_Init(int *, char ***) { return MPI_SUCCESS; }
int MPI_Finalize(void) { return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm c, int *rank) { Comm *x = find(c); if (!x) { *rank = 0; return c == MPI_COMM_WORLD ? MPI_SUCCESS : MPI_ERR_COMM; } *rank = x->rank; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm c, int *size) { Comm *x = find(c); if (!x) { *size = 1; return c == MPI_COMM_WORLD ? MPI_SUCCESS : MPI_ERR_COMM; } *size = x->w->size; return MPI_SUCCESS; }

int MPI_Barrier(MPI_Comm c) {
    Comm *x = find(c);
    if (!x) return MPI_ERR_COMM;
    World *w = x->w;
    std::unique_lock<std::mutex> l(w->m);
    const uint64_t g = w->bar_gen;
    if (++w->bar_count == w->size) { w->bar_count = 0; w->bar_gen++; w->cv.notify_all(); }
    else w->cv.wait(l, [&] { return w->bar_gen != g; });
    return MPI_SUCCESS;
}

int MPI_Isend(const void *buf, int count, MPI_Datatype, int dst, int tag, MPI_Comm c, MPI_Request *req) {
    Comm *x = find(c);
    if (!x) return MPI_ERR_COMM;
    World *w = x->w;
    if (dst < 0 || dst >= w->size) return MPI_ERR_RANK;
    tick++;
    std::lock_guard<std::mutex> l(w->m);
    Req *r = new Req;
    r->kind = Req::SEND; r->w = w; r->owner = x->rank; r->peer = dst; r->tag = tag; r->buf = (void *) buf; r->len = count;
    r->id = w->next_id++;
    Message m;
    m.src = x->rank; m.dst = dst; m.tag = tag; m.id = r->id; m.len = count;
    m.eager = (int) (w->rng() % 100) >= w->o.rendezvous;
    if (m.eager) { m.data.assign((const char *) buf, (const char *) buf + count); }
    m.sender = r;
    m.ready = tick.load() + (w->o.max_delay ? w->rng() % w->o.max_delay : 0);
    w->inbox[dst].push_back(std::move(m));
    w->reqs.insert(r);
    if (w->inbox[dst].back().eager && (w->rng() & 1)) { // local completion right away
        r->done = true; w->inbox[dst].back().sender = nullptr;
    }
    emit(w, "isend", x->rank, dst, tag, r->id, count, buf);
    *req = (MPI_Request) r;
    progress(w);
    return MPI_SUCCESS;
}

int MPI_Irecv(void *buf, int count, MPI_Datatype, int src, int tag, MPI_Comm c, MPI_Request *req) {
    Comm *x = find(c);
    if (!x) return MPI_ERR_COMM;
    World *w = x->w;
    if (src != MPI_ANY_SOURCE && (src < 0 || src >= w->size)) return MPI_ERR_RANK;
    tick++;
    std::lock_guard<std::mutex> l(w->m);
    Req *r = new Req;
    r->kind = Req::RECV; r->w = w; r->owner = x->rank; r->peer = src; r->tag = tag; r->buf = buf; r->len = count;
    w->posted[x->rank].push_back(r);
    w->reqs.insert(r);
    *req = (MPI_Request) r;
    progress(w);
    return MPI_SUCCESS;
}

int MPI_Test(MPI_Request *req, int *flag, MPI_Status *status) {
    if (*req == MPI_REQUEST_NULL) { *flag = 1; return MPI_SUCCESS; }
    Req *r = (Req *) *req;
    World *w = r->w;
    tick++;
    bool nap = false;
    {
        std::lock_guard<std::mutex> l(w->m);
        progress(w);
        *flag = r->done ? 1 : 0;
        if (r->done) {
            if (status != MPI_STATUS_IGNORE) {
                status->MPI_SOURCE = r->kind == Req::RECV ? r->src : r->owner;
                status->MPI_TAG = r->tag; status->MPI_ERROR = MPI_SUCCESS; status->_ucount = r->got;
            }
            w->reqs.erase(r);
            // a message still queued must not point to this request any more
            if (r->kind == Req::SEND) for (auto &m : w->inbox[r->peer]) if (m.sender == r) m.sender = nullptr;
            delete r;
            *req = MPI_REQUEST_NULL;
        }
        else nap = true;
        if (w->o.yield && (int) (w->rng() % 100) < w->o.yield) nap = true;
    }
    if (nap) usleep(5);
    return MPI_SUCCESS;
}

int MPI_Request_free(MPI_Request *req) {
    if (*req == MPI_REQUEST_NULL) return MPI_SUCCESS;
    Req *r = (Req *) *req;
    World *w = r->w;
    std::lock_guard<std::mutex> l(w->m);
    if (r->kind == Req::RECV) {
        // as in MPI: freeing the handle of a receive that was not cancelled leaves the receive posted
        bool active = false;
        for (Req *p : w->posted[r->owner]) active |= (p == r);
        if (active && !r->cancelled) {
            r->detached = true;
            w->reqs.erase(r);
            *req = MPI_REQUEST_NULL;
            return MPI_SUCCESS;
        }
        w->posted[r->owner].remove(r);
    }
    else for (auto it = w->inbox[r->peer].begin(); it != w->inbox[r->peer].end(); ++it) if (it->sender == r) {
        // the buffer goes away: keep a copy of what was there
        if (!it->eager) { it->data.assign((char *) r->buf, (char *) r->buf + r->len); it->eager = true; }
        it->sender = nullptr;
    }
    w->reqs.erase(r);
    delete r;
    *req = MPI_REQUEST_NULL;
    return MPI_SUCCESS;
}

static std::size_t dt_size(MPI_Datatype t) {
    if (t == MPI_INT || t == MPI_UNSIGNED || t == MPI_FLOAT) return 4;
    if (t == MPI_CHAR || t == MPI_BYTE) return 1;
    return 8;
}

int MPI_Allgather(const void *sb, int sc, MPI_Datatype st, void *rb, int, MPI_Datatype, MPI_Comm c) {
    Comm *x = find(c);
    if (!x) return MPI_ERR_COMM;
    World *w = x->w;
    const std::size_t n = sc * dt_size(st);
    { std::lock_guard<std::mutex> l(w->m); w->gath[x->rank].assign((const char *) sb, (const char *) sb + n); }
    MPI_Barrier(c);
    { std::lock_guard<std::mutex> l(w->m); for (int i = 0; i < w->size; i++) memcpy((char *) rb + i * n, w->gath[i].data(), n); }
    MPI_Barrier(c);
    return MPI_SUCCESS;
}
int MPI_Gather(const void *sb, int sc, MPI_Datatype st, void *rb, int, MPI_Datatype, int root, MPI_Comm c) {
    Comm *x = find(c);
    if (!x) return MPI_ERR_COMM;
    World *w = x->w;
    const std::size_t n = sc * dt_size(st);
    { std::lock_guard<std::mutex> l(w->m); w->gath[x->rank].assign((const char *) sb, (const char *) sb + n); }
    MPI_Barrier(c);
    if (x->rank == root) { std::lock_guard<std::mutex> l(w->m); for (int i = 0; i < w->size; i++) memcpy((char *) rb + i * n, w->gath[i].data(), n); }
    MPI_Barrier(c);
    return MPI_SUCCESS;
}
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm) { return MPI_ERR_OP; }
// other entry points a changed library might use
int MPI_Wait(MPI_Request *req, MPI_Status *status) { int f = 0; while (!f) MPI_Test(req, &f, status); return MPI_SUCCESS; }
int MPI_Send(const void *buf, int count, MPI_Datatype t, int dst, int tag, MPI_Comm c) { MPI_Request r; int rc = MPI_Isend(buf, count, t, dst, tag, c, &r); return rc == MPI_SUCCESS ? MPI_Wait(&r, MPI_STATUS_IGNORE) : rc; }
int MPI_Recv(void *buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *s) { MPI_Request r; int rc = MPI_Irecv(buf, count, t, src, tag, c, &r); return rc == MPI_SUCCESS ? MPI_Wait(&r, s) : rc; }
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *s) { for (int i = 0; i < n; i++) MPI_Wait(&r[i], s == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &s[i]); return MPI_SUCCESS; }
int MPI_Testall(int n, MPI_Request *r, int *flag, MPI_Status *s) { *flag = 1; for (int i = 0; i < n; i++) { int f = 0; MPI_Test(&r[i], &f, s == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &s[i]); if (!f) *flag = 0; } return MPI_SUCCESS; }
int MPI_Cancel(MPI_Request *req) {
    if (*req == MPI_REQUEST_NULL) return MPI_SUCCESS;
    Req *r = (Req *) *req;
    std::lock_guard<std::mutex> l(r->w->m);
    r->cancelled = true;
    if (r->kind == Req::RECV && !r->done) { r->w->posted[r->owner].remove(r); r->done = true; }
    return MPI_SUCCESS;
}
int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n) { *n = (int) (s->_ucount / dt_size(t)); return MPI_SUCCESS; }
}
