#undef HAVE_ADDCARRY_U64
#define VN(x) pvn_##x
#include "streebog_variant.inc"
struct pv pv_noaddcarry={mk,upd,fin};
