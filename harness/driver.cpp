// Executes scenario files against the library's public API and records what
// was called and what came back, one JSON event per line.
//   driver SCENARIOS OUTDIR [-j N] [-t SECONDS]
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <list>
#include <memory>
#include <mutex>
#include <random>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <dlfcn.h>
#include <pthread.h>

#include <mpi.h>
#include "hxhim/hxhim.hpp"
#include "hxhim/private/hxhim.hpp"
#include "message/Messages.hpp"
#include "transport/backend/MPI/constants.h"
#include "transport/backend/MPI/Options.hpp"
#include "datastore/datastores.hpp"
#include "hxhim/config.hpp"
#include "utils/memory.hpp"

#include <sanitizer/asan_interface.h>
#include "driver.hpp"
#include "peek.hpp"
#include "simmpi.hpp"

// ---------------------------------------------------------------- helpers
std::vector<std::string> split(const std::string &s, char c) {
    std::vector<std::string> out;
    std::string cur;
    for (char x : s) {
        if (x == c) { if (cur.size() || c != ' ') out.push_back(cur); cur.clear(); }
        else cur += x;
    }
    if (cur.size() || c != ' ') out.push_back(cur);
    return out;
}
static int hexv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
Bytes unhex(const std::string &s) {
    Bytes b;
    // x*N repeats the bytes before it: "ab*100"
    const std::size_t star = s.find('*');
    const std::string h = s.substr(0, star);
    for (std::size_t i = 0; i + 1 < h.size(); i += 2) b.push_back(hexv(h[i]) * 16 + hexv(h[i + 1]));
    if (star != std::string::npos) {
        const int n = atoi(s.c_str() + star + 1);
        Bytes one = b; b.clear();
        for (int i = 0; i < n; i++) b.insert(b.end(), one.begin(), one.end());
    }
    return b;
}
std::string hex(const void *p, std::size_t n) {
    static const char *D = "0123456789abcdef";
    std::string s;
    for (std::size_t i = 0; i < n; i++) { const uint8_t c = ((const uint8_t *) p)[i]; s += D[c >> 4]; s += D[c & 15]; }
    return s;
}
Val parse_val(const std::string &s) {
    Val v;
    std::size_t c = s.find_first_of(":!");
    v.t = atoi(s.c_str());
    if (c == std::string::npos) return v;
    if (s[c] == '!') { v.null = true; v.nlen = atoi(s.c_str() + c + 1); }
    else v.b = unhex(s.substr(c + 1));
    return v;
}
static uint64_t fnv(const uint8_t *p, std::size_t n, uint64_t h) { for (std::size_t i = 0; i < n; i++) { h ^= p[i]; h *= 1099511628211ULL; } return h; }
static const std::size_t LONG = 40;
std::string jbytes(const void *p, std::size_t n) {
    std::string s = "[";
    Bytes tmp;
    if (n > LONG) { // long values are represented by their first bytes, length and digest
        const uint8_t *q = (const uint8_t *) p;
        tmp.assign(q, q + 8);
        for (int i = 0; i < 4; i++) tmp.push_back(n >> (8 * i));
        for (uint64_t seed : {14695981039346656037ULL, 88172645463325252ULL}) {
            uint64_t h = fnv(q, n, seed);
            for (int i = 0; i < 8; i++) tmp.push_back(h >> (8 * i));
        }
        tmp.resize(LONG + 1, 0);
        p = tmp.data(); n = tmp.size();
    }
    for (std::size_t i = 0; i < n; i++) { if (i) s += ','; s += std::to_string((int) ((const uint8_t *) p)[i]); }
    return s + "]";
}
std::string jval(int t, const void *p, std::size_t n) {
    return "{\"t\":" + std::to_string(t) + ",\"b\":" + (p ? jbytes(p, n) : std::string("[]")) + "}";
}
static std::string jval(const Val &v) { return jval(v.t, v.b.data(), v.b.size()); }
static const std::string NOVAL = "{\"t\":-1,\"b\":[]}";
std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char) c < 32 || (unsigned char) c > 126) o += '?'; else o += c; }
    return o + "\"";
}
std::string dkey(double d) {
    if (d == 0) d = 0;  // -0
    uint64_t u; memcpy(&u, &d, 8);
    if (u >> 63) u = ~u; else u |= 1ULL << 63;
    std::string s = "[";
    for (int i = 7; i >= 0; i--) { s += std::to_string((int) ((u >> (8 * i)) & 255)); if (i) s += ','; }
    return s + "]";
}
std::string jb(bool b) { return b ? "true" : "false"; }

// ---------------------------------------------------------------- log
static std::mutex log_m;
static std::deque<std::string> events;
static std::string out_path;
std::size_t slot() { std::lock_guard<std::mutex> l(log_m); events.emplace_back(); return events.size() - 1; }
void fill(std::size_t at, const std::string &j) { std::lock_guard<std::mutex> l(log_m); events[at] = j; }
void emit(const std::string &j) { std::lock_guard<std::mutex> l(log_m); events.push_back(j); }
static std::atomic<bool> dumped{false};
static void dump(const std::string &last) {
    if (dumped.exchange(true)) return;
    bool got = false;
    for (int i = 0; i < 200 && !got; i++) { got = log_m.try_lock(); if (!got) usleep(1000); }
    int fd = open(out_path.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644);
    std::string all;
    for (auto &e : events) if (e.size()) { all += e; all += '\n'; }
    all += last + "\n";
    std::size_t off = 0;
    while (off < all.size()) { ssize_t n = write(fd, all.data() + off, all.size() - off); if (n <= 0) break; off += n; }
    close(fd);
    if (got) log_m.unlock();
}
extern "C" void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" const char *__asan_get_report_description() __attribute__((weak));
static void on_death() {
    std::string d = "asan";
    if (__asan_get_report_description) { const char *x = __asan_get_report_description(); if (x && *x) d = x; }
    dump("{\"e\":\"crash\",\"why\":" + jstr(d) + "}");
}
static void on_signal(int s) { dump("{\"e\":\"crash\",\"why\":\"signal " + std::to_string(s) + "\"}"); _exit(99); }

// ---------------------------------------------------------------- schedule perturbation
static std::atomic<int> perturb{0};          // percentage of lock operations that sleep
static std::atomic<uint64_t> perturb_seed{1};
static thread_local uint64_t tl_rng = 0;
static void maybe_sleep() {
    const int p = perturb.load(std::memory_order_relaxed);
    if (!p) return;
    if (!tl_rng) tl_rng = perturb_seed.fetch_add(0x9E3779B97F4A7C15ULL) | 1;
    tl_rng ^= tl_rng << 13; tl_rng ^= tl_rng >> 7; tl_rng ^= tl_rng << 17;
    if ((int) (tl_rng % 100) < p) usleep((tl_rng >> 20) % 300);
}
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) {
    static int (*real)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *)) dlsym(RTLD_NEXT, "pthread_mutex_lock");
    maybe_sleep();
    return real(m);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m) {
    static int (*real)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *)) dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    const int r = real(m);
    maybe_sleep();
    return r;
}

// ---------------------------------------------------------------- scenario
struct Cmd { int rank; std::vector<std::string> w; };       // rank -1: all
struct Phase { std::vector<Cmd> cmds; };
struct Scenario {
    std::string id;
    int size = 1;
    sim::Options o;
    bool msglog = false, cpp = false, share = false;
    int perturb = 0, warm = 0;
    int timeout = 0;
    std::vector<std::pair<int, std::vector<std::string> > > opts;
    std::vector<std::pair<std::string, std::string> > files;
    std::vector<std::pair<std::string, std::string> > env;
    std::vector<Phase> phases;
};

struct Held { hxhim::Results *cpp = nullptr; hxhim_results_t *c = nullptr; };
struct UserBuf { char *p; Bytes copy; };
struct Rank {
    int id;
    Scenario *sc;
    sim::World *w;
    hxhim_t hx;
    bool open = false;
    std::list<UserBuf> bufs;
    std::list<std::pair<char *, std::size_t> > pool;
    std::map<std::string, Held> held;
    int bulk = 0;
    std::map<std::string, bool> elen_seen;
};

// barrier of the harness (not MPI)
static std::mutex bar_m; static std::condition_variable bar_cv; static int bar_n = 0; static uint64_t bar_g = 0;
static void bar(int size) {
    std::unique_lock<std::mutex> l(bar_m);
    const uint64_t g = bar_g;
    if (++bar_n == size) { bar_n = 0; bar_g++; bar_cv.notify_all(); } else bar_cv.wait(l, [&] { return bar_g != g; });
}

// user supplied hash functions
static int h_minus(hxhim_t *, void *, const size_t, void *, const size_t, void *) { return -1; }
static int h_ssum(hxhim_t *hx, void *s, const size_t n, void *, const size_t, void *) {
    std::size_t count = 0; hxhimGetDatastoreCount(hx, &count);
    unsigned x = 0; for (std::size_t i = 0; i < n; i++) x += ((uint8_t *) s)[i]; return x % count; }
static int h_psum(hxhim_t *hx, void *, const size_t, void *p, const size_t n, void *) {
    std::size_t count = 0; hxhimGetDatastoreCount(hx, &count);
    unsigned x = 0; for (std::size_t i = 0; i < n; i++) x += ((uint8_t *) p)[i]; return x % count; }
static int h_err(hxhim_t *hx, void *s, const size_t n, void *p, const size_t pn, void *a) {
    if (n && ((uint8_t *) s)[0] == 0xEE) return -1; return h_ssum(hx, s, n, p, pn, a); }
static int h_arg(hxhim_t *, void *, const size_t, void *, const size_t, void *a) { return *(int *) a; }
static int arg_zero = 0, arg_one = 1;
hxhim_hash_t user_hash(const std::string &n, void **args) {
    *args = nullptr;
    if (n == "minus") return h_minus;
    if (n == "ssum") return h_ssum;
    if (n == "psum") return h_psum;
    if (n == "err") return h_err;
    if (n == "arg0") { *args = &arg_zero; return h_arg; }
    if (n == "arg1") { *args = &arg_one; return h_arg; }
    if (n == "SUM") return hxhim_hash_SumModDatastores;
    if (n == "ZERO") return hxhim_hash_DatastoreZero;
    if (n == "FNV") return hxhim_hash_uthash_FNV;
    return nullptr;
}
// user supplied transforms: xor with the extra argument
static int x_xor(void *src, const size_t n, void **dst, size_t *dn, void *extra) {
    maybe_sleep();      // callbacks of the user run in the middle of operations
    char *d = (char *) alloc(n);
    for (std::size_t i = 0; i < n; i++) d[i] = ((char *) src)[i] ^ *(char *) extra;
    *dst = d; if (dn) *dn = n; return 22; /* DATASTORE_SUCCESS, replaced below */
}
static char x_key = 0x55;
// fails for values starting with 0xEE
int x_fail(void *src, const size_t n, void **dst, size_t *dn, void *extra) {
    if (n && ((uint8_t *) src)[0] == 0xEE) return DATASTORE_ERROR;
    x_xor(src, n, dst, dn, extra); return DATASTORE_SUCCESS;
}
int x_ok(void *src, const size_t n, void **dst, size_t *dn, void *extra) { x_xor(src, n, dst, dn, extra); return DATASTORE_SUCCESS; }
// user bucket generator: edges 0,10,20,30,40
int g_tens(const double *, const size_t, double **b, size_t *n, void *extra) {
    const int k = extra ? *(int *) extra : 5;
    *n = k; *b = alloc_array<double>(k + 1);  // one more, for the upper bound
    for (int i = 0; i < k; i++) (*b)[i] = i * 10;
    return HISTOGRAM_SUCCESS;
}
int g_fail(const double *, const size_t, double **, size_t *, void *) { return HISTOGRAM_ERROR; }
static int three = 3;

static std::string atext(const std::string &s) { // @text or hex
    if (s.size() && s[0] == '@') return s.substr(1);
    Bytes b = unhex(s); return std::string(b.begin(), b.end());
}

static int apply_option(Rank &R, hxhim_t *hx, const std::vector<std::string> &w) {
    const std::string &k = w[0];
    auto I = [&](std::size_t i) { return i < w.size() ? atol(w[i].c_str()) : 0L; };
    if (k == "client") return hxhim_set_client_ratio(hx, I(1));
    if (k == "server") return hxhim_set_server_ratio(hx, I(1));
    if (k == "dsper") return hxhim_set_datastores_per_server(hx, I(1));
    if (k == "openinit") return hxhim_set_open_init_datastore(hx, I(1));
    if (k == "hists") return hxhim_datastore_histograms(hx, I(1), I(2));
    if (k == "name") return hxhim_set_datastore_name(hx, w[1].c_str(), w[2].c_str(), w.size() > 3 ? w[3].c_str() : "");
    if (k == "mem") return hxhim_set_datastore_in_memory(hx);
    if (k == "level") return hxhim_set_datastore_leveldb(hx, I(1));
    if (k == "rocks") return hxhim_set_datastore_rocksdb(hx, I(1));
    if (k == "hash") return hxhim_set_hash_name(hx, w[1].c_str());
    if (k == "hashfn") { void *a; hxhim_hash_t f = user_hash(w[1], &a); return hxhim_set_hash_function(hx, w[1].c_str(), f, a); }
    if (k == "xform") return hxhim_set_transform_numeric_values(hx, (char) I(1), (char) I(2), I(3), I(4));
    if (k == "xfn") {
        if (w[2] == "xor") return hxhim_set_transform_function(hx, (hxhim_data_t) I(1), x_ok, &x_key, x_ok, &x_key);
        if (w[2] == "fail") return hxhim_set_transform_function(hx, (hxhim_data_t) I(1), x_fail, &x_key, x_ok, &x_key);
        if (w[2] == "none") return hxhim_set_transform_function(hx, (hxhim_data_t) I(1), nullptr, nullptr, nullptr, nullptr);
    }
    if (k == "null") return hxhim_set_transport_null(hx);
    if (k == "mpi") return hxhim_set_transport_mpi(hx, I(1));
    if (k == "ep") {
        if (w[1] == "all") { int rc = HXHIM_SUCCESS; for (int i = 0; i < R.sc->size; i++) rc = hxhim_add_endpoint_to_group(hx, i); return rc; }
        return hxhim_add_endpoint_to_group(hx, I(1));
    }
    if (k == "epclear") return hxhim_clear_endpoint_group(hx);
    if (k == "async") return hxhim_set_start_async_puts_at(hx, I(1));
    if (k == "maxops") return hxhim_set_maximum_ops_per_request(hx, I(1));
    if (k == "maxsize") return hxhim_set_maximum_size_per_request(hx, I(1));
    if (k == "firstn") return hxhim_set_histogram_first_n(hx, I(1));
    if (k == "gen") return hxhim_set_histogram_bucket_gen_name(hx, w[1].c_str());
    if (k == "genfn") {
        if (w[1] == "tens") return hxhim_set_histogram_bucket_gen_function(hx, g_tens, nullptr);
        if (w[1] == "tens3") return hxhim_set_histogram_bucket_gen_function(hx, g_tens, &three);
        if (w[1] == "fail") return hxhim_set_histogram_bucket_gen_function(hx, g_fail, nullptr);
        return hxhim_set_histogram_bucket_gen_function(hx, nullptr, nullptr);
    }
    if (k == "track") { const std::string n = atext(w[1]); return hxhim_add_histogram_track_predicate(hx, n.data(), n.size()); }
    if (k == "debug") return hxhim_set_debug_level(hx, I(1));
    if (k == "boot") return hxhim_set_mpi_bootstrap(hx, w.size() > 1 && w[1] == "null" ? MPI_COMM_NULL : sim::comm(R.w, R.id));
    fprintf(stderr, "bad option %s\n", k.c_str()); exit(3);
}

static char *keep(Rank &R, const Val &v) {
    if (v.null) return nullptr;
    // some callers pass the same buffer again and again
    if (R.sc->share) { int n = 0; for (auto it = R.bufs.rbegin(); it != R.bufs.rend() && n < 24; ++it, ++n) if (it->copy == v.b) return it->p; }
    // and fill the ones that are free again with something else
    char *p = nullptr;
    if (R.sc->share) for (auto it = R.pool.begin(); it != R.pool.end(); ++it) if (it->second == v.b.size()) { p = it->first; R.pool.erase(it); ASAN_UNPOISON_MEMORY_REGION(p, v.b.size()); break; }
    if (!p) p = (char *) malloc(v.b.size() ? v.b.size() : 1);
    if (v.b.size()) memcpy(p, v.b.data(), v.b.size());
    R.bufs.push_back({p, v.b});
    return p;
}
static std::size_t len(const Val &v) { return v.null ? v.nlen : v.b.size(); }

static std::string rankj(Rank &R) { return "\"r\":" + std::to_string(R.id); }

// the stored form of floating point numbers is taken from the library (C16 judges it separately)
static void note_elen(Rank &R, const Val &v) {
    if (v.null || !R.open) return;
    if (!((v.t == 5 && v.b.size() == 4) || (v.t == 6 && v.b.size() == 8))) return;
    const std::string key = std::to_string(v.t) + hex(v.b.data(), v.b.size());
    if (R.elen_seen[key]) return;
    R.elen_seen[key] = true;
    std::string enc; char back[8];
    if (!stored_form(&R.hx, v, enc, back)) { emit("{\"e\":\"badscenario\"}"); return; }
    emit("{\"e\":\"elen\"," + rankj(R) + ",\"v\":" + jval(v) + ",\"enc\":" + jbytes(enc.data(), enc.size()) + ",\"dec\":" + jbytes(back, v.t == 5 ? 4 : 8) + "}");
}

static int hash_of(Rank &R, const Val &a, const Val &b) {
    if (!R.open || a.null || b.null) return -9;
    Bytes x = a.b, y = b.b; x.push_back(0); y.push_back(0);
    return hxhim_hash(&R.hx, x.data(), a.b.size(), y.data(), b.b.size());
}
static int hash_sp(Rank &R, const Val &a, const Val &b) { // what the library sees, null pointers included
    if (!R.open || (a.null && a.nlen) || (b.null && b.nlen)) return -9;
    Bytes x = a.b, y = b.b; x.push_back(0); y.push_back(0);
    return hxhim_hash(&R.hx, a.null ? nullptr : x.data(), a.null ? 0 : a.b.size(), b.null ? nullptr : y.data(), b.null ? 0 : b.b.size());
}

struct OpArgs { std::string k; Val s, p, o; int ot = 0; std::size_t m = 0, n = 0; int g = 0; int ds = -1; std::string name; };
static std::string op_event(Rank &R, const OpArgs &a, const std::vector<int> &h, int rc, int bulk, int bn, const std::string &how) {
    std::string s = "{\"e\":\"op\",\"r\":" + std::to_string(R.id) + ",\"k\":\"" + a.k + "\",\"how\":\"" + how + "\"";
    s += ",\"s\":" + jval(a.s) + ",\"p\":" + jval(a.p) + ",\"o\":" + jval(a.o);
    s += ",\"sz\":" + jb(!a.s.null && a.s.b.size()) + ",\"pz\":" + jb(!a.p.null && a.p.b.size()) + ",\"oz\":" + jb(!a.o.null && a.o.b.size());
    s += ",\"ot\":" + std::to_string(a.ot) + ",\"m\":" + std::to_string(a.m) + ",\"n\":" + std::to_string(a.n > 100000 ? 100000 : a.n) + ",\"g\":" + std::to_string(a.g);
    s += ",\"ds\":" + std::to_string(a.ds) + ",\"name\":" + jbytes(a.name.data(), a.name.size());
    s += ",\"h\":[";
    for (std::size_t i = 0; i < h.size(); i++) s += (i ? "," : "") + std::to_string(h[i]);
    s += "],\"bulk\":" + std::to_string(bulk) + ",\"bn\":" + std::to_string(bn) + ",\"rc\":" + jb(rc == HXHIM_SUCCESS) + ",\"rcv\":" + std::to_string(rc) + ",\"open\":" + jb(R.open) + "}";
    return s;
}
static std::vector<int> hashes(Rank &R, const OpArgs &a) {
    if (a.k == "PUT") return {hash_of(R, a.s, a.p), hash_of(R, a.s, a.o), hash_of(R, a.p, a.s), hash_of(R, a.p, a.o), hash_of(R, a.o, a.s), hash_of(R, a.o, a.p)};
    if (a.k == "HIST") return {a.ds};
    return {hash_sp(R, a.s, a.p)};
}

// ---------------------------------------------------------------- results
static const char *OPN[] = {"PUT", "GET", "GETOP", "DELETE", "SYNC", "HIST", "INVALID"};
static std::string jhist(const char *name, std::size_t nl, const double *b, const std::size_t *c, std::size_t n) {
    std::string s = "{\"name\":" + jbytes(name, nl) + ",\"b\":[";
    for (std::size_t i = 0; i < n; i++) s += (i ? "," : "") + dkey(b[i]);
    s += "],\"c\":[";
    for (std::size_t i = 0; i < n; i++) s += (i ? "," : "") + std::to_string(c[i] > 1000000000 ? 1000000000 : c[i]);
    return s + "]}";
}
static const std::string NOHIST = "{\"name\":[],\"b\":[],\"c\":[]}";
template <typename F> static std::string one_result(F acc, bool sp) {
    enum hxhim_op_t op = HXHIM_INVALID; int st = -1, rs = -1;
    void *p; std::size_t n; hxhim_data_t t;
    std::string s, pr, o, h = NOHIST; bool hok = false;
    acc.op(&op); acc.st(&st); acc.rs(&rs);
    s = pr = o = NOVAL;
    const bool direct = op == HXHIM_GETOP && st == HXHIM_SUCCESS;   // everything else refers to the caller's keys
    if (sp || direct) {
        p = nullptr; n = 0; t = HXHIM_DATA_INVALID; if (acc.subject(&p, &n, &t) == HXHIM_SUCCESS) s = jval(t, p, n);
        p = nullptr; n = 0; t = HXHIM_DATA_INVALID; if (acc.predicate(&p, &n, &t) == HXHIM_SUCCESS) pr = jval(t, p, n);
    }
    p = nullptr; n = 0; t = HXHIM_DATA_INVALID; if (acc.object(&p, &n, &t) == HXHIM_SUCCESS) o = jval(t, p, n);
    const char *name = nullptr; double *b = nullptr; std::size_t *c = nullptr; std::size_t nl = 0, hn = 0;
    if (acc.hist(&name, &nl, &b, &c, &hn) == HXHIM_SUCCESS) { hok = true; h = jhist(name, nl, b, c, hn); }
    return std::string("{\"k\":\"") + OPN[op] + "\",\"st\":" + jb(st == HXHIM_SUCCESS) + ",\"rs\":" + std::to_string(rs) +
           ",\"s\":" + s + ",\"p\":" + pr + ",\"o\":" + o + ",\"hok\":" + jb(hok) + ",\"h\":" + h + "}";
}
struct AccC {
    hxhim_results_t *r;
    int op(hxhim_op_t *x) { return hxhim_result_op(r, x); }
    int st(int *x) { return hxhim_result_status(r, x); }
    int rs(int *x) { return hxhim_result_range_server(r, x); }
    int subject(void **p, size_t *n, hxhim_data_t *t) { return hxhim_result_subject(r, p, n, t); }
    int predicate(void **p, size_t *n, hxhim_data_t *t) { return hxhim_result_predicate(r, p, n, t); }
    int object(void **p, size_t *n, hxhim_data_t *t) { return hxhim_result_object(r, p, n, t); }
    int hist(const char **a, size_t *b, double **c, size_t **d, size_t *e) { return hxhim_result_histogram(r, a, b, c, d, e); }
};
struct AccX {
    hxhim::Results *r;
    int op(hxhim_op_t *x) { return r->Op(x); }
    int st(int *x) { return r->Status(x); }
    int rs(int *x) { return r->RangeServer(x); }
    int subject(void **p, size_t *n, hxhim_data_t *t) { return r->Subject(p, n, t); }
    int predicate(void **p, size_t *n, hxhim_data_t *t) { return r->Predicate(p, n, t); }
    int object(void **p, size_t *n, hxhim_data_t *t) { return r->Object(p, n, t); }
    int hist(const char **a, size_t *b, double **c, size_t **d, size_t *e) { return r->Histogram(a, b, c, d, e); }
};
static std::string read_results(const Held &h, bool sp, bool &null) {
    std::string s = "[";
    bool first = true;
    null = !(h.cpp || h.c);
    if (h.cpp) { HXHIM_CXX_RESULTS_LOOP(h.cpp) { s += (first ? "" : ",") + one_result(AccX{h.cpp}, sp); first = false; } }
    else if (h.c) {
        if (hxhim_results_valid(h.c) != HXHIM_SUCCESS) null = true;
        HXHIM_C_RESULTS_LOOP(h.c) { s += (first ? "" : ",") + one_result(AccC{h.c}, sp); first = false; }
    }
    return s + "]";
}
static void drop(Held &h) { if (h.cpp) hxhim::Results::Destroy(h.cpp); if (h.c) hxhim_results_destroy(h.c); h = Held(); }

static Held do_flush(Rank &R, const std::string &f, const std::vector<std::string> &w) {
    Held h; hxhim_t *hx = &R.hx;
    if (R.sc->cpp) {
        if (f == "flush") h.cpp = hxhim::Flush(hx);
        else if (f == "flushput") h.cpp = hxhim::FlushPuts(hx);
        else if (f == "flushget") h.cpp = hxhim::FlushGets(hx);
        else if (f == "flushgetop") h.cpp = hxhim::FlushGetOps(hx);
        else if (f == "flushdel") h.cpp = hxhim::FlushDeletes(hx);
        else if (f == "flushhist") h.cpp = hxhim::FlushHistograms(hx);
        else if (f == "sync") h.cpp = hxhim::Sync(hx);
        else if (f == "chname") h.cpp = hxhim::ChangeDatastoreName(hx, w[1], atoi(w[2].c_str()), atoi(w[3].c_str()), atoi(w[4].c_str()));
        else if (f == "chhash") { void *a; hxhim_hash_t fn = user_hash(w[2], &a); h.cpp = hxhim::ChangeHash(hx, w[1], fn, a); }
    } else {
        if (f == "flush") h.c = hxhimFlush(hx);
        else if (f == "flushput") h.c = hxhimFlushPuts(hx);
        else if (f == "flushget") h.c = hxhimFlushGets(hx);
        else if (f == "flushgetop") h.c = hxhimFlushGetOps(hx);
        else if (f == "flushdel") h.c = hxhimFlushDeletes(hx);
        else if (f == "flushhist") h.c = hxhimFlushHistograms(hx);
        else if (f == "sync") h.c = hxhimSync(hx);
        else if (f == "chname") h.c = hxhimChangeDatastoreName(hx, w[1].data(), w[1].size(), atoi(w[2].c_str()), atoi(w[3].c_str()), atoi(w[4].c_str()));
        else if (f == "chhash") { void *a; hxhim_hash_t fn = user_hash(w[2], &a); h.c = hxhimChangeHash(hx, w[1].data(), w[1].size(), fn, a); }
    }
    return h;
}

// ---------------------------------------------------------------- commands
static void single(Rank &R, OpArgs a, bool typed) {
    note_elen(R, a.s); note_elen(R, a.p); note_elen(R, a.o);
    const std::vector<int> h = hashes(R, a);
    char *s = keep(R, a.s), *p = keep(R, a.p), *o = keep(R, a.o);
    hxhim_t *hx = &R.hx;
    const bool X = R.sc->cpp;
    auto st = (hxhim_data_t) a.s.t, pt = (hxhim_data_t) a.p.t, ot = (hxhim_data_t) (a.k == "PUT" ? a.o.t : a.ot);
    const std::size_t at = slot();
    int rc = HXHIM_ERROR;
    if (a.k == "PUT") {
        if (!typed) rc = X ? hxhim::Put(hx, s, len(a.s), st, p, len(a.p), pt, o, len(a.o), ot, a.m) : hxhimPut(hx, s, len(a.s), st, p, len(a.p), pt, o, len(a.o), ot, a.m);
        else if (ot == HXHIM_DATA_FLOAT) rc = X ? hxhim::PutFloat(hx, s, len(a.s), st, p, len(a.p), pt, (float *) o, a.m) : hxhimPutFloat(hx, s, len(a.s), st, p, len(a.p), pt, (float *) o, a.m);
        else rc = X ? hxhim::PutDouble(hx, s, len(a.s), st, p, len(a.p), pt, (double *) o, a.m) : hxhimPutDouble(hx, s, len(a.s), st, p, len(a.p), pt, (double *) o, a.m);
    } else if (a.k == "GET") {
        if (!typed) rc = X ? hxhim::Get(hx, s, len(a.s), st, p, len(a.p), pt, ot) : hxhimGet(hx, s, len(a.s), st, p, len(a.p), pt, ot);
        else if (ot == HXHIM_DATA_FLOAT) rc = X ? hxhim::GetFloat(hx, s, len(a.s), st, p, len(a.p), pt) : hxhimGetFloat(hx, s, len(a.s), st, p, len(a.p), pt);
        else rc = X ? hxhim::GetDouble(hx, s, len(a.s), st, p, len(a.p), pt) : hxhimGetDouble(hx, s, len(a.s), st, p, len(a.p), pt);
    } else if (a.k == "GETOP") {
        auto g = (hxhim_getop_t) a.g;
        if (!typed) rc = X ? hxhim::GetOp(hx, s, len(a.s), st, p, len(a.p), pt, ot, a.n, g) : hxhimGetOp(hx, s, len(a.s), st, p, len(a.p), pt, ot, a.n, g);
        else if (ot == HXHIM_DATA_FLOAT) rc = X ? hxhim::GetOpFloat(hx, s, len(a.s), st, p, len(a.p), pt, a.n, g) : hxhimGetOpFloat(hx, s, len(a.s), st, p, len(a.p), pt, a.n, g);
        else rc = X ? hxhim::GetOpDouble(hx, s, len(a.s), st, p, len(a.p), pt, a.n, g) : hxhimGetOpDouble(hx, s, len(a.s), st, p, len(a.p), pt, a.n, g);
    } else if (a.k == "DELETE") rc = X ? hxhim::Delete(hx, s, len(a.s), st, p, len(a.p), pt) : hxhimDelete(hx, s, len(a.s), st, p, len(a.p), pt);
    else if (a.k == "HIST") {
        Val nv; nv.b.assign(a.name.begin(), a.name.end()); const char *nm = keep(R, nv);
        rc = X ? hxhim::Histogram(hx, a.ds, nm, a.name.size()) : hxhimHistogram(hx, a.ds, nm, a.name.size());
    }
    fill(at, op_event(R, a, h, rc, 0, 1, typed ? "typed" : "single"));
}

static void bulk(Rank &R, const std::vector<OpArgs> &as, const std::string &how) {   // how: bulk, typed, same (single type)
    const std::size_t n = as.size();
    hxhim_t *hx = &R.hx; const bool X = R.sc->cpp;
    std::vector<void *> s(n + 1), p(n + 1), o(n + 1);
    std::vector<std::size_t> sl(n + 1), pl(n + 1), ol(n + 1), m(n + 1), nr(n + 1);
    std::vector<hxhim_data_t> st(n + 1), pt(n + 1), ot(n + 1);
    std::vector<hxhim_getop_t> g(n + 1);
    std::vector<float *> of(n + 1); std::vector<double *> od(n + 1);
    std::vector<int> ds(n + 1); std::vector<const char *> nm(n + 1); std::vector<std::size_t> nml(n + 1);
    std::vector<std::vector<int> > h;
    const std::string k = n ? as[0].k : "PUT";
    for (std::size_t i = 0; i < n; i++) {
        const OpArgs &a = as[i];
        note_elen(R, a.s); note_elen(R, a.p); note_elen(R, a.o);
        h.push_back(hashes(R, a));
        s[i] = keep(R, a.s); p[i] = keep(R, a.p); o[i] = keep(R, a.o);
        of[i] = (float *) o[i]; od[i] = (double *) o[i];
        sl[i] = len(a.s); pl[i] = len(a.p); ol[i] = len(a.o);
        st[i] = (hxhim_data_t) a.s.t; pt[i] = (hxhim_data_t) a.p.t; ot[i] = (hxhim_data_t) (k == "PUT" ? a.o.t : a.ot);
        m[i] = a.m; nr[i] = a.n; g[i] = (hxhim_getop_t) a.g;
        ds[i] = a.ds; nml[i] = a.name.size();
        Val nv; nv.b.assign(a.name.begin(), a.name.end()); nm[i] = k == "HIST" ? keep(R, nv) : nullptr;
    }
    const bool isf = n && ot[0] == HXHIM_DATA_FLOAT;
    std::vector<std::size_t> at;
    for (std::size_t i = 0; i < n; i++) at.push_back(slot());
    int rc = HXHIM_ERROR;
    void **S = s.data(), **P = p.data(), **O = o.data();
    std::size_t *SL = sl.data(), *PL = pl.data(), *OL = ol.data();
    hxhim_data_t *ST = st.data(), *PT = pt.data(), *OT = ot.data();
    #define CALL(CXX, C, ...) (X ? hxhim::CXX(__VA_ARGS__) : C(__VA_ARGS__))
    if (k == "PUT") {
        if (how == "bulk") rc = CALL(BPut, hxhimBPut, hx, S, SL, ST, P, PL, PT, O, OL, OT, m.data(), n);
        else if (how == "same") rc = CALL(BPutSingleType, hxhimBPutSingleType, hx, S, SL, ST, P, PL, PT, O, OL, OT[0], m.data(), n);
        else if (isf) rc = CALL(BPutFloat, hxhimBPutFloat, hx, S, SL, ST, P, PL, PT, of.data(), m.data(), n);
        else rc = CALL(BPutDouble, hxhimBPutDouble, hx, S, SL, ST, P, PL, PT, od.data(), m.data(), n);
    } else if (k == "GET") {
        if (how == "bulk") rc = CALL(BGet, hxhimBGet, hx, S, SL, ST, P, PL, PT, OT, n);
        else if (how == "same") rc = CALL(BGetSingleType, hxhimBGetSingleType, hx, S, SL, ST, P, PL, PT, OT[0], n);
        else if (isf) rc = CALL(BGetFloat, hxhimBGetFloat, hx, S, SL, ST, P, PL, PT, n);
        else rc = CALL(BGetDouble, hxhimBGetDouble, hx, S, SL, ST, P, PL, PT, n);
    } else if (k == "GETOP") {
        if (how == "bulk") rc = CALL(BGetOp, hxhimBGetOp, hx, S, SL, ST, P, PL, PT, OT, nr.data(), g.data(), n);
        else if (how == "same") rc = CALL(BGetOpSingleType, hxhimBGetOpSingleType, hx, S, SL, ST, P, PL, PT, OT[0], nr.data(), g.data(), n);
        else if (isf) rc = CALL(BGetOpFloat, hxhimBGetOpFloat, hx, S, SL, ST, P, PL, PT, nr.data(), g.data(), n);
        else rc = CALL(BGetOpDouble, hxhimBGetOpDouble, hx, S, SL, ST, P, PL, PT, nr.data(), g.data(), n);
    } else if (k == "DELETE") rc = CALL(BDelete, hxhimBDelete, hx, S, SL, ST, P, PL, PT, n);
    else if (k == "HIST") rc = CALL(BHistogram, hxhimBHistogram, hx, ds.data(), nm.data(), nml.data(), n);
    R.bulk++;
    for (std::size_t i = 0; i < n; i++) fill(at[i], op_event(R, as[i], h[i], rc, R.bulk, n, how));
}


static void life(Rank &R, const std::string &f, int rc, bool before) {
    emit("{\"e\":\"life\"," + rankj(R) + ",\"f\":\"" + f + "\",\"rc\":" + jb(rc == HXHIM_SUCCESS) + ",\"was\":" + jb(before) + "}");
}

// one cursor movement or access of a kept result list
static void rl(Rank &R, const std::string &name, const std::string &what, bool nul) {
    Held none; Held &h = name == "-" ? none : R.held[name];
    const bool X = h.cpp;
    hxhim_results_t *C = h.c;
    static char mark; void *const MP = &mark; const std::size_t MN = 0x5a5a5a5a;
    bool ok = false, touched = false, haslist = X || (C && hxhim_results_valid(C) == HXHIM_SUCCESS);
    std::string val = NOVAL, v = "0", hist = NOHIST, k = "";
    void *p = MP; std::size_t n = MN; hxhim_data_t t = (hxhim_data_t) 77;
    if (what == "head" || what == "next") {
        if (X) { if (what == "head") h.cpp->GoToHead(); else h.cpp->GoToNext(); ok = h.cpp->ValidIterator(); }
        else ok = (what == "head" ? hxhim_results_goto_head(C) : hxhim_results_goto_next(C)) == HXHIM_SUCCESS;
    } else if (what == "valid") ok = X ? h.cpp->ValidIterator() : hxhim_results_valid_iterator(C) == HXHIM_SUCCESS;
    else if (what == "list") ok = X ? true : hxhim_results_valid(C) == HXHIM_SUCCESS;
    else if (what == "size") {
        if (X) { ok = true; n = h.cpp->Size(); } else ok = hxhim_results_size(C, nul ? nullptr : &n) == HXHIM_SUCCESS;
        if (nul && !X) n = MN;
        touched = n != MN; v = std::to_string(touched ? n : 0);
    } else if (what == "op") {
        hxhim_op_t o = (hxhim_op_t) 77;
        ok = (X ? h.cpp->Op(nul ? nullptr : &o) : hxhim_result_op(C, nul ? nullptr : &o)) == HXHIM_SUCCESS;
        touched = o != (hxhim_op_t) 77; if (touched) k = OPN[o];
    } else if (what == "st" || what == "rs") {
        int x = -7777; int *px = nul ? nullptr : &x;
        ok = (what == "st" ? (X ? h.cpp->Status(px) : hxhim_result_status(C, px)) : (X ? h.cpp->RangeServer(px) : hxhim_result_range_server(C, px))) == HXHIM_SUCCESS;
        touched = x != -7777; v = std::to_string(what == "st" ? (int) (x == HXHIM_SUCCESS) : x);
    } else if (what == "subj" || what == "pred" || what == "obj") {
        void **pp = nul ? nullptr : &p; std::size_t *pn = nul ? nullptr : &n; hxhim_data_t *pt = nul ? nullptr : &t;
        if (what == "subj") ok = (X ? h.cpp->Subject(pp, pn, pt) : hxhim_result_subject(C, pp, pn, pt)) == HXHIM_SUCCESS;
        if (what == "pred") ok = (X ? h.cpp->Predicate(pp, pn, pt) : hxhim_result_predicate(C, pp, pn, pt)) == HXHIM_SUCCESS;
        if (what == "obj") ok = (X ? h.cpp->Object(pp, pn, pt) : hxhim_result_object(C, pp, pn, pt)) == HXHIM_SUCCESS;
        touched = p != MP || n != MN || t != (hxhim_data_t) 77;
        if (ok && !nul) val = jval(t, p, n);
    } else if (what == "hist") {
        const char *nm = &mark; double *b = (double *) MP; std::size_t *c = (std::size_t *) MP; std::size_t nl = MN, hn = MN;
        if (nul) ok = (X ? h.cpp->Histogram(nullptr, nullptr, nullptr, nullptr, nullptr) : hxhim_result_histogram(C, nullptr, nullptr, nullptr, nullptr, nullptr)) == HXHIM_SUCCESS;
        else ok = (X ? h.cpp->Histogram(&nm, &nl, &b, &c, &hn) : hxhim_result_histogram(C, &nm, &nl, &b, &c, &hn)) == HXHIM_SUCCESS;
        touched = nm != &mark || b != (double *) MP || c != (std::size_t *) MP || nl != MN || hn != MN;
        if (ok && !nul) hist = jhist(nm, nl, b, c, hn);
    } else if (what == "histp") {
        if (!X) return;
        Histogram::Histogram *q = (Histogram::Histogram *) MP;
        ok = h.cpp->Histogram(nul ? nullptr : &q) == HXHIM_SUCCESS;
        touched = q != (Histogram::Histogram *) MP;
        if (ok && !nul) { std::string nm; q->get_name(nm); hist = jhist(nm.data(), nm.size(), nullptr, nullptr, 0); }
    } else if (what == "ts") {
        if (!X) return;
        hxhim::Result::Timestamps *q = (hxhim::Result::Timestamps *) MP;
        ok = h.cpp->Timestamps(nul ? nullptr : &q) == HXHIM_SUCCESS;
        touched = (void *) q != MP;
    }
    emit("{\"e\":\"rl\"," + rankj(R) + ",\"hold\":\"" + name + "\",\"what\":\"" + what + "\",\"nul\":" + jb(nul) + ",\"cpp\":" + jb(X) + ",\"list\":" + jb(haslist) + ",\"rc\":" + jb(ok) + ",\"touched\":" + jb(touched) +
         ",\"v\":" + v + ",\"k\":\"" + k + "\",\"x\":" + val + ",\"h\":" + hist + "}");
}

static std::atomic<bool> stop_all{false};

static bool run_cmd(Rank &R, const std::vector<std::string> &w) {
    const std::string &c = w[0];
    auto V = [&](std::size_t i) { return parse_val(w.at(i)); };
    auto I = [&](std::size_t i) { return i < w.size() ? atol(w[i].c_str()) : 0L; };
    auto mk = [&](const std::string &k, std::size_t &i) {
        OpArgs a; a.k = k;
        if (k == "HIST") { a.ds = I(i++); a.name = atext(w.at(i++)); return a; }
        a.s = V(i++); a.p = V(i++);
        if (k == "PUT") { a.o = V(i++); a.ot = a.o.t; a.m = I(i++); }
        if (k == "GET") a.ot = I(i++);
        if (k == "GETOP") { a.ot = I(i++); a.n = strtoul(w.at(i++).c_str(), nullptr, 10); a.g = I(i++); }
        return a;
    };
    static const std::map<std::string, std::string> K = {{"put", "PUT"}, {"get", "GET"}, {"getop", "GETOP"}, {"del", "DELETE"}, {"hist", "HIST"}};
    // [b]kind[t|s]
    {
        std::string n = c; bool b = false; std::string how = "single";
        if (n.size() > 1 && n[0] == 'b' && n != "bar") { b = true; n = n.substr(1); how = "bulk"; }
        if (!K.count(n)) {
            if (n.back() == 't' && K.count(n.substr(0, n.size() - 1))) { how = "typed"; n.pop_back(); }
            else if (n.back() == 's' && K.count(n.substr(0, n.size() - 1))) { how = "same"; n.pop_back(); }
        }
        if (K.count(n)) {
            std::size_t i = 1;
            if (!b) { single(R, mk(K.at(n), i), how == "typed"); return true; }
            std::vector<OpArgs> as; const std::size_t cnt = I(i++);
            for (std::size_t j = 0; j < cnt; j++) as.push_back(mk(K.at(n), i));
            bulk(R, as, how);
            return true;
        }
    }
    if (c.compare(0, 5, "flush") == 0 || c == "sync" || c == "chname" || c == "chhash") {
        std::string hold, args;
        for (std::size_t i = 1; i < w.size(); i++) { if (w[i] == "hold") hold = w.at(i + 1); else if (hold.empty()) args += (args.empty() ? "\"" : ",\"") + w[i] + "\""; }
        emit("{\"e\":\"call\"," + rankj(R) + ",\"f\":\"" + c + "\",\"a\":[" + args + "]}");
        Held h = do_flush(R, c, w);
        bool null = false;
        const std::string res = read_results(h, true, null);
        emit("{\"e\":\"ret\"," + rankj(R) + ",\"f\":\"" + c + "\",\"a\":[" + args + "],\"null\":" + jb(null) + ",\"hold\":\"" + hold + "\",\"res\":" + res + "}");
        if (hold.size()) { drop(R.held[hold]); R.held[hold] = h; } else drop(h);
        return true;
    }
    if (c == "recheck") {
        bool null = false; Held &h = R.held[w.at(1)];
        const std::string res = read_results(h, false, null);
        emit("{\"e\":\"recheck\"," + rankj(R) + ",\"hold\":\"" + w[1] + "\",\"res\":" + res + "}");
        return true;
    }
    if (c == "drop") { drop(R.held[w.at(1)]); return true; }
    if (c == "append") { Held &a = R.held[w.at(1)], &b = R.held[w.at(2)];
        if (a.cpp && b.cpp) { a.cpp->Append(b.cpp);
            bool n1, n2; const std::string r1 = read_results(a, false, n1), r2 = read_results(b, false, n2);
            emit("{\"e\":\"append\"," + rankj(R) + ",\"to\":\"" + w[1] + "\",\"from\":\"" + w[2] + "\",\"res\":" + r1 + ",\"rest\":" + r2 + "}"); }
        return true; }
    if (c == "init") {
        const bool was = R.open;
        const int rc = R.sc->cpp ? hxhim::Init(&R.hx, sim::comm(R.w, R.id)) : hxhimInit(&R.hx, sim::comm(R.w, R.id));
        R.open = false;
        if (rc == HXHIM_SUCCESS && !(w.size() > 1 && w[1] == "raw")) {
            hxhim_set_datastore_name(&R.hx, "./db", "data", "");
            for (auto &o : R.sc->opts) if (o.first < 0 || o.first == R.id)
                if (apply_option(R, &R.hx, o.second) != HXHIM_SUCCESS) emit("{\"e\":\"optfail\"," + rankj(R) + ",\"o\":\"" + o.second[0] + "\"}");
        }
        life(R, "init", rc, was);
        if (w.size() > 1 && w[1] == "raw") emit("{\"e\":\"cfg\"," + rankj(R) + ",\"has\":" + jb(R.hx.p) + ",\"c\":" + jcfg(&R.hx) + "}");
        return true;
    }
    if (c == "open" || c == "openone") {
        const bool was = R.open;
        const std::string db = w.size() > 1 ? w[1] : "";
        emit("{\"e\":\"lifecall\"," + rankj(R) + ",\"f\":\"" + c + "\"}");
        const int rc = c == "open" ? (R.sc->cpp ? hxhim::Open(&R.hx) : hxhimOpen(&R.hx))
                                   : (R.sc->cpp ? hxhim::OpenOne(&R.hx, db) : hxhimOpenOne(&R.hx, db.data(), db.size()));
        if (rc == HXHIM_SUCCESS) R.open = true;
        life(R, c, rc, was);
        return true;
    }
    if (c == "close") {
        const bool was = R.open;
        emit("{\"e\":\"lifecall\"," + rankj(R) + ",\"f\":\"" + c + "\"}");
        const int rc = R.sc->cpp ? hxhim::Close(&R.hx) : hxhimClose(&R.hx);
        R.open = false;
        life(R, "close", rc, was);
        return true;
    }
    if (c == "cfg") { emit("{\"e\":\"cfg\"," + rankj(R) + ",\"has\":" + jb(R.hx.p) + ",\"c\":" + jcfg(&R.hx) + "}"); return true; }
    if (c == "rl") { rl(R, w.at(1), w.at(2), w.size() > 3 && w[3] == "null"); return true; }
    if (c == "newres") { Held h; h.cpp = construct<hxhim::Results>(); drop(R.held[w.at(1)]); R.held[w[1]] = h;
        emit("{\"e\":\"newres\"," + rankj(R) + ",\"hold\":\"" + w[1] + "\"}"); return true; }
    if (c == "rlappend") { Held &a = R.held[w.at(1)], &b = R.held[w.at(2)];
        if (a.cpp) { a.cpp->Append(b.cpp); emit("{\"e\":\"rlappend\"," + rankj(R) + ",\"to\":\"" + w[1] + "\",\"from\":\"" + w[2] + "\"}"); }
        return true; }
    if (c == "set") {
        std::vector<std::string> o(w.begin() + 1, w.end());
        const int rc = apply_option(R, &R.hx, o);
        std::string args;
        for (std::size_t i = 1; i < o.size(); i++) args += (i > 1 ? "," : "") + jstr(o[i]);
        emit("{\"e\":\"set\"," + rankj(R) + ",\"o\":\"" + o[0] + "\",\"a\":[" + args + "],\"rc\":" + jb(rc == HXHIM_SUCCESS) + ",\"has\":" + jb(R.hx.p) + ",\"c\":" + jcfg(&R.hx) + "}");
        return true;
    }
    if (c == "null") { // call through null / never initialised sessions
        hxhim_t z; z.p = nullptr;
        hxhim_t *hx = w.at(1) == "ptr" ? nullptr : &z;
        char b[8] = "abc"; void *bp[1] = {b}; std::size_t l[1] = {3}; hxhim_data_t t[1] = {HXHIM_DATA_BYTE}; std::size_t m[1] = {1}, nr[1] = {1}; hxhim_getop_t g[1] = {HXHIM_GETOP_EQ}; int ds[1] = {0}; const char *nm[1] = {"abc"};
        int bad = 0;
        auto no = [&](int rc) { bad += rc == HXHIM_SUCCESS; };
        no(hxhimPut(hx, b, 3, t[0], b, 3, t[0], b, 3, t[0], 1)); no(hxhimGet(hx, b, 3, t[0], b, 3, t[0], t[0]));
        no(hxhimGetOp(hx, b, 3, t[0], b, 3, t[0], t[0], 1, g[0])); no(hxhimDelete(hx, b, 3, t[0], b, 3, t[0]));
        no(hxhimBPut(hx, bp, l, t, bp, l, t, bp, l, t, m, 1)); no(hxhimBGet(hx, bp, l, t, bp, l, t, t, 1));
        no(hxhimBGetOp(hx, bp, l, t, bp, l, t, t, nr, g, 1)); no(hxhimBDelete(hx, bp, l, t, bp, l, t, 1));
        no(hxhimHistogram(hx, 0, "abc", 3)); no(hxhimBHistogram(hx, ds, nm, l, 1));
        no(hxhimClose(hx));
        std::size_t cnt; int x, y; no(hxhimGetDatastoreCount(hx, &cnt)); no(hxhimGetRangeServerCount(hx, &cnt)); no(hxhimGetDatastoreLocation(hx, 0, &x, &y));
        no(hxhimHaveHistogram(hx, "abc", 3, &x));
        const char *hn; hxhim_hash_t hf; void *ha; MPI_Comm cm; struct timespec ts; std::size_t c1, c2;
        no(hxhimGetHash(hx, &hn, &hf, &ha)); no(hxhimGetMPI(hx, &cm, &x, &y)); no(hxhimGetEpoch(hx, &ts)); no(hxhimGetRangeServerClientToServerRatio(hx, &c1, &c2));
        double d = 1, *dp[1] = {&d}; float f = 1, *fp[1] = {&f};
        no(hxhimPutDouble(hx, b, 3, t[0], b, 3, t[0], &d, 1)); no(hxhimPutFloat(hx, b, 3, t[0], b, 3, t[0], &f, 1));
        no(hxhimGetDouble(hx, b, 3, t[0], b, 3, t[0])); no(hxhimGetFloat(hx, b, 3, t[0], b, 3, t[0]));
        no(hxhimBPutDouble(hx, bp, l, t, bp, l, t, dp, m, 1)); no(hxhimBPutFloat(hx, bp, l, t, bp, l, t, fp, m, 1));
        no(hxhimBGetDouble(hx, bp, l, t, bp, l, t, 1)); no(hxhimBGetFloat(hx, bp, l, t, bp, l, t, 1));
        // no results: nothing, or nothing inside
        auto none = [&](hxhim_results_t *res) { std::size_t n = 0; bad += hxhim_results_size(res, &n) == HXHIM_SUCCESS && n; bad += hxhim_results_goto_head(res) == HXHIM_SUCCESS; hxhim_results_destroy(res); };
        none(hxhimSync(hx)); none(hxhimFlush(hx)); none(hxhimFlushPuts(hx)); none(hxhimFlushGets(hx)); none(hxhimFlushGetOps(hx)); none(hxhimFlushDeletes(hx)); none(hxhimFlushHistograms(hx)); none(hxhimChangeHash(hx, "x", 1, h_ssum, nullptr)); none(hxhimChangeDatastoreName(hx, "x", 1, 0, 0, 0));
        emit("{\"e\":\"nullcalls\"," + rankj(R) + ",\"accepted\":" + std::to_string(bad) + "}");
        return true;
    }
    if (c == "badargs") { // every pointer argument of the bulk calls in turn is null; nothing may be queued
        const std::string before = jqueues(&R.hx);
        hxhim_t *hx = &R.hx;
        char b[8] = "abc"; std::size_t l[1] = {3}; hxhim_data_t t[1] = {HXHIM_DATA_BYTE}; std::size_t m[1] = {1}, nr[1] = {1}; hxhim_getop_t g[1] = {HXHIM_GETOP_EQ}; int ds[1] = {0}; const char *nm[1] = {"abc"}; void *bp[1] = {b};
        int bad = 0, calls = 0;
        auto no = [&](int rc) { calls++; bad += rc == HXHIM_SUCCESS; };
        for (int i = 0; i < 10; i++) no(hxhimBPut(hx, i == 0 ? nullptr : bp, i == 1 ? nullptr : l, i == 2 ? nullptr : t, i == 3 ? nullptr : bp, i == 4 ? nullptr : l, i == 5 ? nullptr : t, i == 6 ? nullptr : bp, i == 7 ? nullptr : l, i == 8 ? nullptr : t, i == 9 ? nullptr : m, 1));
        for (int i = 0; i < 7; i++) no(hxhimBGet(hx, i == 0 ? nullptr : bp, i == 1 ? nullptr : l, i == 2 ? nullptr : t, i == 3 ? nullptr : bp, i == 4 ? nullptr : l, i == 5 ? nullptr : t, i == 6 ? nullptr : t, 1));
        for (int i = 0; i < 9; i++) no(hxhimBGetOp(hx, i == 0 ? nullptr : bp, i == 1 ? nullptr : l, i == 2 ? nullptr : t, i == 3 ? nullptr : bp, i == 4 ? nullptr : l, i == 5 ? nullptr : t, i == 6 ? nullptr : t, i == 7 ? nullptr : nr, i == 8 ? nullptr : g, 1));
        for (int i = 0; i < 6; i++) no(hxhimBDelete(hx, i == 0 ? nullptr : bp, i == 1 ? nullptr : l, i == 2 ? nullptr : t, i == 3 ? nullptr : bp, i == 4 ? nullptr : l, i == 5 ? nullptr : t, 1));
        { int far[2] = {0, -1}; const char *nms[2] = {"abc", "abc"}; std::size_t ls[2] = {3, 3}; no(hxhimBHistogram(hx, far, nms, ls, 2)); far[1] = 1 << 20; no(hxhimBHistogram(hx, far, nms, ls, 2)); no(hxhim::BHistogram(hx, far + 1, nms, ls, 1)); }
        for (int i = 0; i < 3; i++) no(hxhimBHistogram(hx, i == 0 ? nullptr : ds, i == 1 ? nullptr : nm, i == 2 ? nullptr : l, 1));
        for (int i = 0; i < 3; i++) { // null pointer / zero length of single PUTs
            no(hxhimPut(hx, i == 0 ? nullptr : b, 3, t[0], i == 1 ? nullptr : b, 3, t[0], i == 2 ? nullptr : b, 3, t[0], 63));
            no(hxhimPut(hx, b, i == 0 ? 0 : 3, t[0], b, i == 1 ? 0 : 3, t[0], b, i == 2 ? 0 : 3, t[0], 63)); }
        no(hxhimHistogram(hx, -1, "abc", 3)); std::size_t cnt = 0; hxhimGetDatastoreCount(hx, &cnt); no(hxhimHistogram(hx, (int) cnt, "abc", 3)); no(hxhimHistogram(hx, 1 << 30, "abc", 3));
        emit("{\"e\":\"badargs\"," + rankj(R) + ",\"calls\":" + std::to_string(calls) + ",\"accepted\":" + std::to_string(bad) + ",\"before\":" + before + ",\"after\":" + jqueues(&R.hx) + "}");
        return true;
    }
    if (c == "queues") { emit("{\"e\":\"queues\"," + rankj(R) + ",\"q\":" + jqueues(&R.hx, true) + "}"); return true; }
    if (c == "info") {
        std::size_t rs = 999, ds = 999, cr = 999, sr = 999; int rk = -9, of = -9, mr = -9, ms = -9; MPI_Comm cm;
        const bool X = R.sc->cpp; hxhim_t *h = &R.hx;
        const int rc1 = X ? hxhim::GetRangeServerCount(h, &rs) : hxhimGetRangeServerCount(h, &rs), rc2 = X ? hxhim::GetDatastoreCount(h, &ds) : hxhimGetDatastoreCount(h, &ds),
                  rc3 = X ? hxhim::GetRangeServerClientToServerRatio(h, &cr, &sr) : hxhimGetRangeServerClientToServerRatio(h, &cr, &sr);
        if (X) hxhim::GetMPI(h, &cm, &mr, &ms); else hxhimGetMPI(h, &cm, &mr, &ms);
        auto where = [&](int i) { return X ? hxhim::GetDatastoreLocation(h, i, &rk, &of) : hxhimGetDatastoreLocation(h, i, &rk, &of); };
        std::string loc = "[";
        for (int i = 0; rc2 == HXHIM_SUCCESS && i < (int) ds; i++) { const int rc = where(i); loc += (i ? "," : "") + std::string("{\"ok\":") + jb(rc == HXHIM_SUCCESS) + ",\"rank\":" + std::to_string(rk) + ",\"off\":" + std::to_string(of) + "}"; }
        loc += "]";
        const bool neg = where(-1) == HXHIM_SUCCESS;
        const bool over = rc2 == HXHIM_SUCCESS && where((int) ds) == HXHIM_SUCCESS;
        const std::string mine = jmine(&R.hx);
        emit("{\"e\":\"info\"," + rankj(R) + ",\"rc\":" + jb(rc1 == HXHIM_SUCCESS && rc2 == HXHIM_SUCCESS && rc3 == HXHIM_SUCCESS) + ",\"rs\":" + std::to_string(rs) + ",\"ds\":" + std::to_string(ds) + ",\"client\":" + std::to_string(cr) + ",\"server\":" + std::to_string(sr) +
             ",\"rank\":" + std::to_string(mr) + ",\"size\":" + std::to_string(ms) + ",\"loc\":" + loc + ",\"mine\":" + mine + ",\"neg\":" + jb(neg) + ",\"over\":" + jb(over) + "}");
        return true;
    }
    if (c == "hashes") { // hashes S P : what every built-in hash says, twice
        static const std::vector<std::pair<std::string, hxhim_hash_t> > H = {{"ZERO", hxhim_hash_DatastoreZero}, {"RANK", hxhim_hash_RankModDatastores}, {"SUM", hxhim_hash_SumModDatastores}, {"BER", hxhim_hash_uthash_BER}, {"SAX", hxhim_hash_uthash_SAX}, {"FNV", hxhim_hash_uthash_FNV}, {"OAT", hxhim_hash_uthash_OAT}, {"JEN", hxhim_hash_uthash_JEN}, {"SFH", hxhim_hash_uthash_SFH}};
        Val s = V(1), p = V(2);
        std::string o;
        for (auto &f : H) {
            // fresh exact-size copies at different addresses, so that over-reads and address dependence show
            char *a = (char *) malloc(s.b.size() + 1) + 1, *b = (char *) malloc(p.b.size()), *a2 = (char *) malloc(s.b.size()), *b2 = (char *) malloc(p.b.size() + 3) + 3;
            memcpy(a, s.b.data(), s.b.size()); memcpy(a2, s.b.data(), s.b.size()); memcpy(b, p.b.data(), p.b.size()); memcpy(b2, p.b.data(), p.b.size());
            const int x = f.second(&R.hx, a, s.b.size(), b, p.b.size(), nullptr), y = f.second(&R.hx, a2, s.b.size(), b2, p.b.size(), nullptr);
            const bool same = !memcmp(a, s.b.data(), s.b.size()) && !memcmp(b, p.b.data(), p.b.size());
            free(a - 1); free(b); free(a2); free(b2 - 3);
            o += (o.empty() ? "" : ",") + std::string("{\"n\":\"") + f.first + "\",\"x\":" + std::to_string(x) + ",\"y\":" + std::to_string(y) + ",\"ok\":" + jb(same) + "}";
        }
        emit("{\"e\":\"hashes\"," + rankj(R) + ",\"s\":" + jval(s) + ",\"p\":" + jval(p) + ",\"h\":[" + o + "]}");
        return true;
    }
    if (c == "havehist") { int ex = -1; const std::string n = atext(w.at(1)); const int rc = R.sc->cpp ? hxhim::HaveHistogram(&R.hx, n.data(), n.size(), &ex) : hxhimHaveHistogram(&R.hx, n.data(), n.size(), &ex);
        emit("{\"e\":\"havehist\"," + rankj(R) + ",\"name\":" + jbytes(n.data(), n.size()) + ",\"rc\":" + jb(rc == HXHIM_SUCCESS) + ",\"ex\":" + std::to_string(ex) + "}"); return true; }
    if (c == "bar") { bar(R.sc->size); if (R.id == 0) emit("{\"e\":\"bar\"}"); bar(R.sc->size); return true; }
    if (c == "free") {
        bool ok = true;
        for (auto &b : R.bufs) { if (b.copy.size() && memcmp(b.p, b.copy.data(), b.copy.size())) ok = false; memset(b.p, 0xDB, b.copy.size());
            if (R.sc->share && R.pool.size() < 64 && b.copy.size()) { ASAN_POISON_MEMORY_REGION(b.p, b.copy.size()); R.pool.push_back({b.p, b.copy.size()}); } else free(b.p); }
        R.bufs.clear();
        emit("{\"e\":\"bufs\"," + rankj(R) + ",\"ok\":" + jb(ok) + "}");
        return true;
    }
    if (c == "await") { // reads the pair until it is there, without recording the attempts
        const Val s = V(1), p = V(2);
        char *sb = keep(R, s), *pb = keep(R, p);
        static std::atomic<bool> gave_up{false};
        bool ok = false;
        for (int i = 0; i < 2000 && !ok && !(i && gave_up); i++) {
            if (i) usleep(10000);
            hxhim::Get(&R.hx, sb, len(s), (hxhim_data_t) s.t, pb, len(p), (hxhim_data_t) p.t, (hxhim_data_t) I(3));
            hxhim::Results *res = hxhim::FlushGets(&R.hx);
            int st = HXHIM_ERROR;
            HXHIM_CXX_RESULTS_LOOP(res) ok = ok || (res->Status(&st) == HXHIM_SUCCESS && st == HXHIM_SUCCESS);
            hxhim::Results::Destroy(res);
        }
        if (!ok) gave_up = true;
        emit("{\"e\":\"await\"," + rankj(R) + ",\"s\":" + jval(s) + ",\"p\":" + jval(p) + ",\"ok\":" + jb(ok) + "}");
        return true;
    }
    if (c == "sleep") { usleep(1000 * I(1)); return true; }
    if (c == "kill") { dump("{\"e\":\"kill\"}"); _exit(42); }
    return unit_command(R.id, w);
}

// an earlier session of the process, which must not matter (not recorded)
static void warm(Scenario &sc) {
    sim::World *W = sim::create(1, sim::Options());
    Rank R;
    R.id = 0; R.sc = &sc; R.w = W; R.hx.p = nullptr;
    if (hxhim::Init(&R.hx, sim::comm(W, 0)) != HXHIM_SUCCESS) return;
    for (auto &o : sc.opts) if (o.second[0] == "hash") apply_option(R, &R.hx, o.second);
    hxhim_set_transport_null(&R.hx);
    hxhim_set_client_ratio(&R.hx, 1); hxhim_set_server_ratio(&R.hx, 1);
    hxhim_set_datastore_in_memory(&R.hx);
    hxhim_set_datastores_per_server(&R.hx, sc.warm);
    hxhim_set_histogram_first_n(&R.hx, 3);
    hxhim_set_maximum_ops_per_request(&R.hx, 128); // the environment may ask for more than there is memory
    hxhim_set_maximum_size_per_request(&R.hx, 1048576);
    hxhim_set_start_async_puts_at(&R.hx, 0);
    hxhim_add_histogram_track_predicate(&R.hx, "warm", 4);
    if (hxhim::Open(&R.hx) == HXHIM_SUCCESS) {
        char sub[] = "a", pred[] = "warm"; double x[4] = {1, 2, 3, 4};
        for (int i = 0; i < 4; i++) hxhim::PutDouble(&R.hx, sub, 1, HXHIM_DATA_BYTE, pred, 4, HXHIM_DATA_BYTE, &x[i], HXHIM_PUT_ALL);
        hxhim::Get(&R.hx, sub, 1, HXHIM_DATA_BYTE, pred, 4, HXHIM_DATA_BYTE, HXHIM_DATA_DOUBLE);
        hxhim::GetOp(&R.hx, sub, 1, HXHIM_DATA_BYTE, pred, 4, HXHIM_DATA_BYTE, HXHIM_DATA_DOUBLE, 3, HXHIM_GETOP_LOWEST);
        hxhim::Histogram(&R.hx, 0, pred, 4);
        hxhim::Results::Destroy(hxhim::Flush(&R.hx));
        hxhim::Results::Destroy(hxhim::Sync(&R.hx));
    }
    hxhim::Close(&R.hx);
}

static int run_phase(Scenario &sc, std::size_t ph, int timeout) {
    if (sc.warm) warm(sc);
    perturb_seed = sc.o.seed * 7919 + ph + 1;
    perturb = sc.perturb;
    sim::World *W = sim::create(sc.size, sc.o);
    if (sc.msglog) {
        sim::set_log(W, [](const std::string &s) { emit(s); });
        sim::set_describe(W, message_header);
    }
    std::vector<Rank> ranks(sc.size);
    std::thread([timeout] { for (int i = 0; i < timeout * 20; i++) usleep(50000); dump("{\"e\":\"hang\"}"); _exit(98); }).detach();
    std::vector<std::thread> ts;
    for (int r = 0; r < sc.size; r++) {
        ranks[r].id = r; ranks[r].sc = &sc; ranks[r].w = W; ranks[r].hx.p = nullptr;
        ts.emplace_back([&, r] {
            for (auto &c : sc.phases[ph].cmds) if (c.rank < 0 || c.rank == r) {
                if (!run_cmd(ranks[r], c.w)) { fprintf(stderr, "bad command %s\n", c.w[0].c_str()); _exit(3); }
            }
        });
    }
    for (auto &t : ts) t.join();
    for (int r = 0; r < sc.size; r++) {
        for (auto &h : ranks[r].held) drop(h.second);
        run_cmd(ranks[r], {"free"});
    }
    std::string l = "{\"e\":\"leftovers\",\"m\":[";
    bool first = true;
    for (auto &s : sim::leftovers(W)) { l += (first ? "" : ",") + s; first = false; }
    emit(l + "]}");
    dump("{\"e\":\"end\"}");
    return 0;
}

static std::vector<Scenario> parse(const char *path) {
    std::vector<Scenario> out;
    std::ifstream in(path);
    std::string line;
    Scenario *s = nullptr;
    while (std::getline(in, line)) {
        std::vector<std::string> w = split(line);
        if (w.empty() || w[0][0] == '#') continue;
        if (w[0] == "scenario") { out.emplace_back(); s = &out.back(); s->id = w[1]; s->phases.emplace_back(); }
        else if (w[0] == "world") { s->size = atoi(w[1].c_str()); if (w.size() > 2) s->o.seed = strtoull(w[2].c_str(), 0, 10); if (w.size() > 3) s->o.max_delay = atoi(w[3].c_str()); if (w.size() > 4) s->o.rendezvous = atoi(w[4].c_str()); if (w.size() > 5) s->o.yield = atoi(w[5].c_str()); }
        else if (w[0] == "msglog") s->msglog = true;
        else if (w[0] == "cpp") s->cpp = true;
        else if (w[0] == "share") s->share = true;
        else if (w[0] == "warm") s->warm = atoi(w[1].c_str());
        else if (w[0] == "perturb") s->perturb = atoi(w[1].c_str());
        else if (w[0] == "timeout") s->timeout = atoi(w[1].c_str());
        else if (w[0] == "env") s->env.push_back({w[1], w.size() > 2 ? line.substr(line.find(w[1]) + w[1].size() + 1) : ""});
        else if (w[0] == "file") s->files.push_back({w[1], atext(w.size() > 2 ? w[2] : "")});
        else if (w[0].compare(0, 3, "opt") == 0) { int r = w[0].size() > 4 ? atoi(w[0].c_str() + 4) : -1; s->opts.push_back({r, std::vector<std::string>(w.begin() + 1, w.end())}); }
        else if (w[0] == "phase") s->phases.emplace_back();
        else if (w[0] == "r") { Cmd c; c.rank = w[1] == "*" ? -1 : atoi(w[1].c_str()); c.w.assign(w.begin() + 2, w.end()); s->phases.back().cmds.push_back(c); }
        else if (w[0] == "end") s = nullptr;
        else { fprintf(stderr, "bad line %s\n", line.c_str()); exit(3); }
    }
    return out;
}

static void rmtree(const std::string &d) {
    // only ever called with directories this program created below OUTDIR
    pid_t p = fork();
    if (!p) { execlp("rm", "rm", "-rf", "--", d.c_str(), (char *) nullptr); _exit(1); }
    int st; waitpid(p, &st, 0);
}

static void run_scenario(Scenario &sc, const std::string &out, int timeout) {
    if (sc.timeout > timeout) timeout = sc.timeout;
    const std::string dir = out + "/" + sc.id + ".dir";
    const std::string trace = out + "/" + sc.id + ".ndjson";
    unlink(trace.c_str());
    mkdir(dir.c_str(), 0755);
    for (std::size_t ph = 0; ph < sc.phases.size(); ph++) {
        pid_t p = fork();
        if (!p) {
            if (chdir(dir.c_str())) _exit(3);
            int dn = open((out + "/" + sc.id + ".err").c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644);
            dup2(dn, 2); dup2(dn, 1);
            for (auto &e : sc.env) setenv(e.first.c_str(), e.second.c_str(), 1);
            for (auto &f : sc.files) { std::ofstream o(f.first); o << f.second; }
            out_path = trace;
            if (__asan_set_death_callback) __asan_set_death_callback(on_death);
            else { signal(SIGSEGV, on_signal); signal(SIGBUS, on_signal); signal(SIGFPE, on_signal); }
            signal(SIGABRT, on_signal);
            std::set_terminate([] { dump("{\"e\":\"crash\",\"why\":\"terminate\"}"); _exit(97); });
            if (ph) emit("{\"e\":\"phase\"}");
            run_phase(sc, ph, timeout);
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        const int code = WIFEXITED(st) ? WEXITSTATUS(st) : 100 + WTERMSIG(st);
        if (code == 42) continue;
        if (code) {
            std::ifstream in(trace);
            std::string line, last; while (std::getline(in, line)) if (line.size()) last = line;
            if (last.find("\"e\":\"crash\"") == std::string::npos && last.find("\"e\":\"hang\"") == std::string::npos) {
                std::ofstream o(trace, std::ios::app); o << "{\"e\":\"" << (code == 3 ? "badscenario" : "crash") << "\",\"why\":\"exit " << code << "\"}\n";
            }
            break;
        }
    }
    rmtree(dir);
    struct stat sb;
    const std::string err = out + "/" + sc.id + ".err";
    if (!stat(err.c_str(), &sb) && sb.st_size == 0) unlink(err.c_str());
}

int main(int argc, char **argv) {
    int jobs = 8, timeout = 20;
    std::vector<const char *> pos;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "-j")) jobs = atoi(argv[++i]);
        else if (!strcmp(argv[i], "-t")) timeout = atoi(argv[++i]);
        else pos.push_back(argv[i]);
    }
    if (pos.size() < 2) { fprintf(stderr, "usage: driver SCENARIOS OUTDIR\n"); return 2; }
    char *abs = realpath(pos[1], nullptr);
    if (!abs) { fprintf(stderr, "no such directory\n"); return 2; }
    const std::string out = abs;
    std::vector<Scenario> all = parse(pos[0]);
    // workers take scenarios from a shared counter
    int fds[2]; if (pipe(fds)) return 2;
    for (std::size_t i = 0; i < all.size(); i += 1) {}
    std::vector<pid_t> kids;
    // a shared index in a file descriptor: write all indices into the pipe in blocks as workers drain it
    for (int j = 0; j < jobs; j++) {
        pid_t p = fork();
        if (!p) {
            close(fds[1]);
            uint32_t idx;
            while (read(fds[0], &idx, sizeof idx) == sizeof idx) run_scenario(all[idx], out, timeout);
            _exit(0);
        }
        kids.push_back(p);
    }
    close(fds[0]);
    signal(SIGPIPE, SIG_IGN);
    for (uint32_t i = 0; i < all.size(); i++) if (write(fds[1], &i, sizeof i) != sizeof i) break;
    close(fds[1]);
    int bad = 0;
    for (pid_t p : kids) { int st; waitpid(p, &st, 0); if (st) bad = 1; }
    return bad;
}
