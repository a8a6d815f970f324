// Commands that use parts of the library directly.
// (HX_STUB: the library parts used here have changed, only what calls them fails)
#include "driver.hpp"
#ifndef HX_STUB
#include "driver.hpp"
#include <cstring>
#include "hxhim/Datastore.hpp"
#include "hxhim/RangeServer.hpp"
#include "utils/elen.hpp"

static std::string num(long long x) { return std::to_string(x); }

// ids SIZE CLIENT SERVER PER : every id function over its whole domain and a little more
static void ids(const std::vector<std::string> &w) {
    const int size = atoi(w.at(1).c_str());
    const std::size_t c = strtoul(w.at(2).c_str(), nullptr, 10), s = strtoul(w.at(3).c_str(), nullptr, 10), per = strtoul(w.at(4).c_str(), nullptr, 10);
    std::string o = "{\"e\":\"ids\",\"size\":" + num(size) + ",\"c\":" + num(c) + ",\"s\":" + num(s) + ",\"per\":" + num(per);
    auto list = [&](const char *n, int from, int to, auto f) {
        o += std::string(",\"") + n + "\":[";
        for (int i = from; i < to; i++) o += (i > from ? "," : "") + num(f(i));
        o += "]";
    };
    namespace RS = hxhim::RangeServer;
    namespace DS = hxhim::Datastore;
    list("isrs", 0, size + 2, [&](int r) { return RS::is_range_server(r, size, c, s); });
    list("rsid", 0, size + 2, [&](int r) { return RS::get_id(r, size, c, s); });
    list("rsrank", 0, size + 2, [&](int i) { return RS::get_rank(i, size, c, s); });
    list("isrsu", 0, size + 2, [&](int r) { return RS::is_range_server(r, c, s); });
    list("rsidu", 0, size + 2, [&](int r) { return RS::get_id(r, c, s); });
    list("rsranku", 0, size + 2, [&](int i) { return RS::get_rank(i, c, s); });
    const int P = per + 1;
    list("dsid", 0, (size + 2) * P, [&](int i) { return DS::get_id(i / P, i % P, size, c, s, per); });
    list("dsidu", 0, (size + 2) * P, [&](int i) { return DS::get_id(i / P, i % P, c, s, per); });
    list("dsrank", 0, (size + 2) * P, [&](int i) { return DS::get_rank(i, size, c, s, per); });
    list("dsranku", 0, (size + 2) * P, [&](int i) { return DS::get_rank(i, c, s, per); });
    list("bad", 0, 6, [&](int i) {
        switch (i) {
            case 0: return RS::get_rank(-1, size, c, s);
            case 1: return RS::get_id(-1, size, c, s);
            case 2: return DS::get_rank(-1, size, c, s, per);
            case 3: return DS::get_id(-1, 0, size, c, s, per);
            case 4: return DS::get_rank(-1, c, s, per);
            default: return DS::get_id(-1, 0, c, s, per);
        }
    });
    emit(o + "}");
}

// elens NEG POS FLOATPRECISION DOUBLEPRECISION VALUE... : encoding and decoding of numbers
template <typename T, typename E, typename D>
static void one(std::string &o, const Val &v, E e, D d) {
    T x, y;
    if (v.b.size() != sizeof(T)) return;
    memcpy(&x, v.b.data(), sizeof(T));
    std::string enc;
    bool ok = true;
    try { enc = e(x); y = d(enc); } catch (...) { ok = false; y = T(); }
    char back[sizeof(T)];
    memcpy(back, &y, sizeof(T));
    o += std::string(o.empty() ? "" : ",") + "{\"t\":" + num(v.t) + ",\"b\":" + jbytes(v.b.data(), v.b.size()) + ",\"ok\":" + (ok ? "true" : "false") +
         ",\"enc\":" + jbytes(enc.data(), enc.size()) + ",\"dec\":" + jbytes(back, sizeof(T)) + "}";
}

static void elens(const std::vector<std::string> &w) {
    const char neg = atoi(w.at(1).c_str()), pos = atoi(w.at(2).c_str());
    const int fp = atoi(w.at(3).c_str()), dp = atoi(w.at(4).c_str());
    std::string o;
    #define INTS(T) one<T>(o, v, [&](T x) { return elen::encode::integers<T>(x, neg, pos); }, [&](const std::string &s) { return elen::decode::integers<T>(s, nullptr, neg, pos); })
    #define FLTS(T, P) one<T>(o, v, [&](T x) { return elen::encode::floating_point<T>(x, P, neg, pos); }, [&](const std::string &s) { return elen::decode::floating_point<T>(s, neg, pos); })
    for (std::size_t i = 5; i < w.size(); i++) {
        const Val v = parse_val(w[i]);
        switch (v.t) {
            case 1: INTS(int32_t); break;
            case 2: INTS(int64_t); break;
            case 3: INTS(uint32_t); break;
            case 4: INTS(uint64_t); break;
            case 5: FLTS(float, fp); break;
            case 6: FLTS(double, dp); break;
        }
    }
    emit("{\"e\":\"elens\",\"neg\":" + num((unsigned char) neg) + ",\"pos\":" + num((unsigned char) pos) + ",\"fp\":" + num(fp) + ",\"dp\":" + num(dp) + ",\"vs\":[" + o + "]}");
}

#endif

bool wire_command(const std::vector<std::string> &w);
bool unit_command(int, const std::vector<std::string> &w) {
#ifdef HX_STUB
    if (w[0] == "ids" || w[0] == "elens") { emit("{\"e\":\"badscenario\"}"); return true; }
#else
    if (w[0] == "ids") { ids(w); return true; }
    if (w[0] == "elens") { elens(w); return true; }
#endif
    return wire_command(w);
}
