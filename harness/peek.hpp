#ifndef PEEK_HPP
#define PEEK_HPP
#include "hxhim/hxhim.hpp"
#include "driver.hpp"
// what is read from the private parts of a session; each lives in a file of its own that can be
// replaced by a stub (HX_STUB) when those parts have changed: then only what asks for it fails
std::string jcfg(hxhim_t *hx);
std::string jqueues(hxhim_t *hx, bool sizes = false);
std::string jmine(hxhim_t *hx);
bool stored_form(hxhim_t *hx, const Val &v, std::string &enc, char *back);

std::string jb(bool b);
hxhim_hash_t user_hash(const std::string &n, void **args);
int x_fail(void *src, const size_t n, void **dst, size_t *dn, void *extra);
int x_ok(void *src, const size_t n, void **dst, size_t *dn, void *extra);
int g_tens(const double *, const size_t, double **b, size_t *n, void *extra);
int g_fail(const double *, const size_t, double **, size_t *, void *);
#endif
