// wire: messages built, packed and unpacked
// (HX_STUB: the library parts used here have changed, only what calls them fails)
#include "driver.hpp"
#ifdef HX_STUB
std::string message_header(int, const void *, std::size_t) { return ",\"dir\":-9"; }
bool wire_command(const std::vector<std::string> &w) {
    if (w[0] == "wire") { emit("{\"e\":\"badscenario\"}"); return true; }
    return false;
}
#else
#include "driver.hpp"
#include <cstring>
#include <memory>
#include <stdexcept>
#include "datastore/constants.hpp"
#include "transport/backend/MPI/constants.h"
#include "message/Messages.hpp"
#include "message/Packer.hpp"
#include "message/Unpacker.hpp"
#include "utils/Blob.hpp"
#include "utils/Histogram.hpp"
#include "utils/memory.hpp"

static std::string num(long long x) { return std::to_string(x); }
static std::string jb(bool b) { return b ? "true" : "false"; }

namespace Q = Message::Request;
namespace S = Message::Response;
typedef std::vector<std::string> Words;

static int g_tens(const double *, const size_t, double **b, size_t *n, void *) {
    *n = 3; *b = alloc_array<double>(4);
    for (int i = 0; i < 4; i++) (*b)[i] = 10 * i;
    return HISTOGRAM_SUCCESS;
}

// a value as it is seen: type, contents, length
static std::string jw(int t, const void *p, std::size_t n) { return "{\"t\":" + num(t) + ",\"b\":" + (p && n ? jbytes(p, n) : std::string("[]")) + ",\"l\":" + num(n) + "}"; }
static std::string jw(const Blob &b) { return jw(b.data_type(), b.data(), b.size()); }
// a reference: which buffer, type, length
static const std::string NOVAL = "{\"t\":0,\"b\":[],\"l\":0}";

static std::string jh(Histogram::Histogram *h) {
    std::string name; h->get_name(name);
    std::size_t first, cn, n; double *cache, *b; std::size_t *c;
    h->get_cache(&first, &cache, &cn);
    const bool ready = h->get(&b, &c, &n) == HISTOGRAM_SUCCESS;
    std::string o = "{\"name\":" + jbytes(name.data(), name.size()) + ",\"len\":" + num(name.size()) + ",\"first\":" + num(first) + ",\"cache\":[";
    if (cn <= first) for (std::size_t i = 0; cache && i < cn; i++) o += (i ? "," : "") + dkey(cache[i]);
    o += "],\"n\":" + num(ready ? n : 0) + ",\"b\":[";
    if (ready && b) for (std::size_t i = 0; i <= n; i++) o += (i ? "," : "") + dkey(b[i]);
    o += "],\"c\":[";
    if (ready && c) for (std::size_t i = 0; i < n; i++) o += (i ? "," : "") + num(c[i]);
    return o + "]}";
}
static const std::string NOHIST = "{\"name\":[],\"len\":0,\"first\":0,\"cache\":[],\"n\":0,\"b\":[],\"c\":[]}";

struct Entry {
    Val s, p, o; int ot = 0; std::size_t n = 0; int g = 0; int st = 0;
    std::vector<Val> rec;                                   // s p o s p o ...
    std::shared_ptr<Histogram::Histogram> h;
};
static void *ptr(const Val &v) { return v.null ? nullptr : (void *) v.b.data(); }
static std::size_t len(const Val &v) { return v.null ? v.nlen : v.b.size(); }
static Blob ref(const Val &v) { return ReferenceBlob(ptr(v), len(v), (hxhim_data_t) v.t); }
static Blob own(const Val &v) { return RealBlob(len(v), ptr(v), (hxhim_data_t) v.t); }
static std::string jw(const Val &v) { return jw(v.t, ptr(v), len(v)); }

static std::string entry(const std::string &s, const std::string &p, const std::string &o, bool rs, bool rp, int ot, std::size_t n, int g, int st, const std::string &rec, const std::string &h) {
    return "{\"s\":" + s + ",\"p\":" + p + ",\"o\":" + o + ",\"rs\":" + jb(rs) + ",\"rp\":" + jb(rp) + ",\"ot\":" + num(ot) + ",\"n\":" + num(n) + ",\"g\":" + num(g) + ",\"st\":" + num(st) +
           ",\"rec\":[" + rec + "],\"h\":" + h + "}";
}
static std::string recs(const std::vector<std::string> &v) {
    std::string o;
    for (std::size_t i = 0; i + 2 < v.size(); i += 3) o += (i ? ",[" : "[") + v[i] + "," + v[i + 1] + "," + v[i + 2] + "]";
    return o;
}

// the original request's buffers, referred to by responses
static Blob back(const Val &v) { return ReferenceBlob(ptr(v), len(v), (hxhim_data_t) v.t); }

template <typename R> static R *build(std::vector<Entry> &E, const std::string &how, std::size_t slack, void (*add)(R *, Entry &, bool)) {
    R *r = construct<R>(E.size() + slack);
    for (auto &e : E) add(r, e, how == "late");
    return r;
}
template <typename R> static R *moved(R *from, std::size_t slack, bool cut) {
    R *r = construct<R>(from->count + slack);
    r->src = from->src; r->dst = from->dst;
    for (std::size_t i = 0; i < from->count; i++) r->steal(from, i);
    destruct(from);
    return r;
}

static void wire(const Words &w) {
    const bool req = w.at(1) == "req";
    const std::string k = w.at(2), how = w.at(3);
    const int src = atoi(w.at(4).c_str()), dst = atoi(w.at(5).c_str());
    const std::size_t slack = strtoul(w.at(6).c_str(), nullptr, 10);
    std::vector<Entry> E;
    std::vector<Words> in;
    for (std::size_t i = 7; i < w.size(); i++) { if (w[i] == ";") in.emplace_back(); else in.back().push_back(w[i]); }
    E.reserve(in.size());
    std::string list;
    for (auto &x : in) {
        E.emplace_back();
        Entry &e = E.back();
        std::size_t j = 0;
        auto V = [&]() { return parse_val(x.at(j++)); };
        auto I = [&]() { return atoi(x.at(j++).c_str()); };
        std::string hist = NOHIST;
        if (k == "hist") {
            if (req) e.s = V();
            else {
                e.st = I();
                const std::string hx = x.at(j++); const Bytes nm = hx == "-" ? Bytes() : unhex(hx);
                const std::size_t first = I();
                e.h = std::shared_ptr<Histogram::Histogram>(construct<Histogram::Histogram>(Histogram::Config{first, g_tens, nullptr}, std::string(nm.begin(), nm.end())), Histogram::deleter);
                while (j < x.size()) e.h->add(strtod(x.at(j++).c_str(), nullptr));
                hist = jh(e.h.get());
            }
        }
        else if (k == "getop" && !req) {
            e.st = I();
            while (j < x.size()) e.rec.push_back(V());
            e.n = e.rec.size() / 3;
        }
        else {
            e.s = V(); e.p = V();
            if (k == "put" && req) e.o = V();
            if (k == "get") { if (req) e.ot = I(); else e.o = V(); }
            if (k == "getop") { e.ot = I(); e.n = strtoul(x.at(j++).c_str(), nullptr, 10); e.g = I(); }
            if (!req) e.st = I();
        }
        std::vector<std::string> rv;
        for (auto &v : e.rec) rv.push_back(jw(v));
        list += (list.empty() ? "" : ",") + entry(jw(e.s), jw(e.p), jw(e.o), true, true, e.ot, e.n, e.g, e.st, recs(rv), hist);
    }

    Message::Message *m = nullptr;
    Q::Request *rq = nullptr; S::Response *rs = nullptr;
    const bool steal = how == "steal" || how == "steal2";
    #define RESP(T, ADD) { auto *r = build<S::T>(E, how, slack, [](S::T *r, Entry &e, bool late) { ADD }); r->src = src; r->dst = dst; \
                           if (steal) r = moved(r, slack, false); if (how == "steal2") r = moved(r, 0, false); rs = r; }
    #define REQ(T, ADD) { auto *r = build<Q::T>(E, how, slack, [](Q::T *r, Entry &e, bool) { ADD }); rq = r; }
    if (req) {
        if (k == "put") REQ(BPut, r->add(ref(e.s), ref(e.p), ref(e.o));)
        else if (k == "get") REQ(BGet, r->add(ref(e.s), ref(e.p), (hxhim_data_t) e.ot);)
        else if (k == "getop") REQ(BGetOp, r->add(ref(e.s), ref(e.p), (hxhim_data_t) e.ot, e.n, (hxhim_getop_t) e.g);)
        else if (k == "del") REQ(BDelete, r->add(ref(e.s), ref(e.p));)
        else REQ(BHistogram, r->add(ref(e.s));)
        m = rq;
    }
    else {
        if (k == "put") RESP(BPut, r->add(back(e.s), back(e.p), e.st);)
        else if (k == "get") RESP(BGet, r->add(back(e.s), back(e.p), own(e.o), e.st);)
        else if (k == "del") RESP(BDelete, r->add(back(e.s), back(e.p), e.st);)
        else if (k == "hist") RESP(BHistogram, r->add(e.h, e.st);)
        else RESP(BGetOp,
            const std::size_t cap = e.n ? e.n : 1;
            Blob *s = alloc_array<Blob>(cap); Blob *p = alloc_array<Blob>(cap); Blob *o = alloc_array<Blob>(cap);
            for (std::size_t i = 0; i < e.n; i++) { s[i] = own(e.rec[3 * i]); p[i] = own(e.rec[3 * i + 1]); if (e.st == DATASTORE_SUCCESS) o[i] = own(e.rec[3 * i + 2]); }
            if (late) { // the way the datastores do it
                const std::size_t at = r->count;
                r->add(s, p, o, 0, DATASTORE_UNSET);
                r->num_recs[at] = e.n; r->statuses[at] = e.st; r->update_size(at);
            }
            else r->add(s, p, o, e.n, e.st);)
        m = rs;
    }
    m->src = src; m->dst = dst;

    // pack into buffers with different contents: what is the same afterwards was written
    const std::size_t size = m->size(), room = size + 64;
    std::vector<char> A(room, 0x00), B(room, (char) 0xAA);
    void *a = A.data(), *b = B.data(), *own_ = nullptr;
    std::size_t la = 0, lb = 0, lc = 0;
    bool ok = req ? Message::Packer::pack(rq, &a, &la) == MESSAGE_SUCCESS : Message::Packer::pack(rs, &a, &la) == MESSAGE_SUCCESS;
    ok = (req ? Message::Packer::pack(rq, &b, &lb) : Message::Packer::pack(rs, &b, &lb)) == MESSAGE_SUCCESS && ok;
    ok = (req ? Message::Packer::pack(rq, &own_, &lc) : Message::Packer::pack(rs, &own_, &lc)) == MESSAGE_SUCCESS && ok;
    std::size_t holes = 0, beyond = 0;
    for (std::size_t i = 0; i < room; i++) {
        const bool written = A[i] == B[i];
        if (i < size && !written) holes++;
        if (i >= size && written) beyond++;
    }
    const bool same = own_ && lc == la && lb == la && la <= room && !holes && memcmp(own_, A.data(), la) == 0;

    // unpack
    std::string out;
    bool uok = false, wrong = false;
    int dir = 0, op = 0, osrc = 0, odst = 0; std::size_t cnt = 0;
    if (ok) {
        if (req) {
            Q::Request *u = nullptr;
            uok = Message::Unpacker::unpack(&u, own_, lc) == MESSAGE_SUCCESS && u;
            S::Response *other = nullptr;
            wrong = Message::Unpacker::unpack(&other, own_, lc) == MESSAGE_SUCCESS;
            if (uok) {
                dir = u->direction; op = u->op; osrc = u->src; odst = u->dst; cnt = u->count;
                for (std::size_t i = 0; i < cnt; i++) {
                    const Entry *e = i < E.size() ? &E[i] : nullptr;
                    std::string x;
                    #define SP(T) auto *r = static_cast<Q::T *>(u); const bool s = e && r->orig.subjects[i] == ptr(e->s); const bool p = e && r->orig.predicates[i] == ptr(e->p);
                    if (u->op == HXHIM_PUT) { SP(BPut) x = entry(jw(r->subjects[i]), jw(r->predicates[i]), jw(r->objects[i]), s, p, 0, 0, 0, 0, "", NOHIST); }
                    if (u->op == HXHIM_GET) { SP(BGet) x = entry(jw(r->subjects[i]), jw(r->predicates[i]), NOVAL, s, p, r->object_types[i], 0, 0, 0, "", NOHIST); }
                    if (u->op == HXHIM_GETOP) { auto *r = static_cast<Q::BGetOp *>(u); x = entry(jw(r->subjects[i]), jw(r->predicates[i]), NOVAL, true, true, r->object_types[i], r->num_recs[i], r->ops[i], 0, "", NOHIST); }
                    if (u->op == HXHIM_DELETE) { SP(BDelete) x = entry(jw(r->subjects[i]), jw(r->predicates[i]), NOVAL, s, p, 0, 0, 0, 0, "", NOHIST); }
                    if (u->op == HXHIM_HISTOGRAM) { auto *r = static_cast<Q::BHistogram *>(u); x = entry(jw(r->names[i]), NOVAL, NOVAL, true, true, 0, 0, 0, 0, "", NOHIST); }
                    out += (out.empty() ? "" : ",") + x;
                }
                destruct(u);
            }
        }
        else {
            S::Response *u = nullptr;
            uok = Message::Unpacker::unpack(&u, own_, lc) == MESSAGE_SUCCESS && u;
            Q::Request *other = nullptr;
            wrong = Message::Unpacker::unpack(&other, own_, lc) == MESSAGE_SUCCESS;
            if (uok) {
                dir = u->direction; op = u->op; osrc = u->src; odst = u->dst; cnt = u->count;
                for (std::size_t i = 0; i < cnt; i++) {
                    const Entry *e = i < E.size() ? &E[i] : nullptr;
                    std::string x;
                    auto rf = [&](const Blob &b, const Val *v, bool &same) { same = v && b.data() == ptr(*v) && !b.will_clean(); return same ? jw(b) : NOVAL; };
                    bool s = true, p = true;
                    #define RF(T) auto *r = static_cast<S::T *>(u); const std::string js = rf(r->orig.subjects[i], e ? &e->s : nullptr, s), jp = rf(r->orig.predicates[i], e ? &e->p : nullptr, p);
                    const int st = u->statuses[i];
                    if (u->op == HXHIM_PUT) { RF(BPut) x = entry(js, jp, NOVAL, s, p, 0, 0, 0, st, "", NOHIST); }
                    if (u->op == HXHIM_GET) { RF(BGet) x = entry(js, jp, jw(r->objects[i]), s, p, 0, 0, 0, st, "", NOHIST); }
                    if (u->op == HXHIM_DELETE) { RF(BDelete) x = entry(js, jp, NOVAL, s, p, 0, 0, 0, st, "", NOHIST); }
                    if (u->op == HXHIM_GETOP) {
                        auto *r = static_cast<S::BGetOp *>(u);
                        std::vector<std::string> rv;
                        for (std::size_t j = 0; j < r->num_recs[i]; j++) { rv.push_back(jw(r->subjects[i][j])); rv.push_back(jw(r->predicates[i][j])); rv.push_back(jw(r->objects[i][j])); }
                        x = entry(NOVAL, NOVAL, NOVAL, true, true, 0, r->num_recs[i], 0, st, recs(rv), NOHIST);
                    }
                    if (u->op == HXHIM_HISTOGRAM) { auto *r = static_cast<S::BHistogram *>(u); x = entry(NOVAL, NOVAL, NOVAL, true, true, 0, 0, 0, st, "", r->histograms[i] ? jh(r->histograms[i].get()) : NOHIST); }
                    out += (out.empty() ? "" : ",") + x;
                }
                destruct(u);
            }
        }
    }
    dealloc(own_);
    const std::size_t filled = m->filled();
    if (req) destruct(rq); else destruct(rs);
    emit("{\"e\":\"wire\",\"req\":" + jb(req) + ",\"k\":\"" + k + "\",\"how\":\"" + how + "\",\"src\":" + num(src) + ",\"dst\":" + num(dst) + ",\"ok\":" + jb(ok) + ",\"size\":" + num(size) + ",\"len\":" + num(la) +
         ",\"filled\":" + num(filled) + ",\"holes\":" + num(holes) + ",\"beyond\":" + num(beyond) + ",\"same\":" + jb(same) + ",\"uok\":" + jb(uok) + ",\"wrong\":" + jb(wrong) + ",\"in\":[" + list + "]" +
         ",\"out\":{\"dir\":" + num(dir) + ",\"op\":" + num(op) + ",\"src\":" + num(osrc) + ",\"dst\":" + num(odst) + ",\"cnt\":" + num(cnt) + ",\"entries\":[" + out + "]}}");
}

// what a packed message says about itself
std::string message_header(int tag, const void *data, std::size_t len) {
    std::string o;
    auto of = [&](const ::Message::Message *m) {
        o = ",\"dir\":" + num(m->direction) + ",\"op\":" + num(m->op) + ",\"msrc\":" + num(m->src) + ",\"mdst\":" + num(m->dst) + ",\"cnt\":" + num(m->count);
    };
    if (tag == TRANSPORT_MPI_DATA_REQUEST_TAG) {
        Q::Request *u = nullptr;
        if (Message::Unpacker::unpack(&u, (void *) data, len) == MESSAGE_SUCCESS && u) of(u);
        destruct(u);
    }
    else if (tag == TRANSPORT_MPI_DATA_RESPONSE_TAG) {
        S::Response *u = nullptr;
        if (Message::Unpacker::unpack(&u, (void *) data, len) == MESSAGE_SUCCESS && u) of(u);
        destruct(u);
    }
    return o;
}

bool wire_command(const Words &w) {
    if (w[0] == "wire") { wire(w); return true; }
    return false;
}
#endif
