#include <algorithm>
#include <cstring>
#include <mutex>
#include <mpi.h>
#include "hxhim/hxhim.hpp"
#include "driver.hpp"
#include "peek.hpp"
#ifndef HX_STUB
#include "hxhim/private/hxhim.hpp"
#include "message/Messages.hpp"
#include "transport/backend/MPI/Options.hpp"
#include "datastore/datastores.hpp"
#include "hxhim/config.hpp"
#include "utils/elen.hpp"
#endif
#ifdef HX_STUB
bool stored_form(hxhim_t *, const Val &, std::string &, char *) { return false; }
#else
bool stored_form(hxhim_t *hx, const Val &v, std::string &enc, char *back) {
    auto &x = hx->p->range_server.datastores.transform.numeric_extra;
    if (v.t == 5) { float f; memcpy(&f, v.b.data(), 4); enc = elen::encode::floating_point(f, x.float_precision, x.neg, x.pos);
        f = elen::decode::floating_point<float>(enc, x.neg, x.pos); memcpy(back, &f, 4); }
    else { double f; memcpy(&f, v.b.data(), 8); enc = elen::encode::floating_point(f, x.double_precision, x.neg, x.pos);
        f = elen::decode::floating_point<double>(enc, x.neg, x.pos); memcpy(back, &f, 8); }
    return true;
}
#endif
