#undef __SSE2__
#define VN(x) pvp_##x
#include "streebog_variant.inc"
struct pv pv_portable={mk,upd,fin};
