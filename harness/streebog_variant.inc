#include <stdlib.h>
#define init_gost2012_hash_ctx VN(init)
#define gost2012_hash_block VN(block)
#define gost2012_finish_hash VN(finish)
#include "gosthash2012.c"
static void*mk(unsigned b){void*p=aligned_alloc(64,(sizeof(gost2012_hash_ctx)+63)/64*64);memset(p,0xa7,sizeof(gost2012_hash_ctx));VN(init)(p,b);return p;}
static void upd(void*c,const unsigned char*d,size_t n){VN(block)(c,d,n);} static void fin(void*c,unsigned char*o){VN(finish)(c,o);}
struct pv { void*(*mk)(unsigned); void (*upd)(void*,const unsigned char*,size_t); void (*fin)(void*,unsigned char*); };
