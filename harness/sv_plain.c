#undef __SSE2__
#undef HAVE_ADDCARRY_U64
#define VN(x) pvx_##x
#include "streebog_variant.inc"
struct pv pv_plain={mk,upd,fin};
