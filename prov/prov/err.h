/* Stand-in for libprov's prov/err.h (that submodule is absent here): the five functions gost_prov.c uses, written
 * against the core's dispatch table.  Only error reporting goes through it. */
#pragma once
#include <stdarg.h>
#include <stdlib.h>
#include <openssl/core.h>
#include <openssl/core_dispatch.h>
struct proverr_functions_st { const OSSL_CORE_HANDLE *core; OSSL_FUNC_core_new_error_fn *n; OSSL_FUNC_core_set_error_debug_fn *d; OSSL_FUNC_core_vset_error_fn *v; };
static inline struct proverr_functions_st *proverr_new_handle(const OSSL_CORE_HANDLE *core, const OSSL_DISPATCH *in)
{
    struct proverr_functions_st *h = (struct proverr_functions_st *)calloc(1, sizeof(*h));
    if (!h) return NULL;
    h->core = core;
    for (; in && in->function_id; in++)
        switch (in->function_id) {
        case OSSL_FUNC_CORE_NEW_ERROR: h->n = OSSL_FUNC_core_new_error(in); break;
        case OSSL_FUNC_CORE_SET_ERROR_DEBUG: h->d = OSSL_FUNC_core_set_error_debug(in); break;
        case OSSL_FUNC_CORE_VSET_ERROR: h->v = OSSL_FUNC_core_vset_error(in); break;
        }
    return h;
}
static inline void proverr_free_handle(struct proverr_functions_st *h) { free(h); }
static inline void proverr_new_error(const struct proverr_functions_st *h) { if (h && h->n) h->n(h->core); }
static inline void proverr_set_error_debug(const struct proverr_functions_st *h, const char *file, int line, const char *func) { if (h && h->d) h->d(h->core, file, line, func); }
static inline void proverr_vset(const struct proverr_functions_st *h, uint32_t reason, const char *fmt, va_list ap) { if (h && h->v) h->v(h->core, reason, fmt, ap); }
static inline void proverr_set_error(const struct proverr_functions_st *h, uint32_t reason, const char *fmt, ...) { va_list ap; va_start(ap, fmt); proverr_vset(h, reason, fmt, ap); va_end(ap); }
