#include <stdio.h>
#include <stdint.h>
#include <string.h>
#include "gosthash.h"
static uint64_t mix(uint64_t z){z+=0x9e3779b97f4a7c15ull;z=(z^(z>>30))*0xbf58476d1ce4e5b9ull;z=(z^(z>>27))*0x94d049bb133111ebull;return z^(z>>31);}
static unsigned char b[1<<20];
int main(void){uint64_t s=0x1234567;gost_hash_ctx c;unsigned char h[32];memset(&c,0,sizeof c);for(size_t i=0;i<sizeof b;i+=8){uint64_t v;s+=0x9e3779b97f4a7c15ull;v=mix(s);memcpy(b+i,&v,8);}
 if(!init_gost_hash_ctx(&c,&GostR3411_94_CryptoProParamSet))return 1;start_hash(&c);for(int i=0;i<513;i++)hash_block(&c,b,sizeof b);hash_block(&c,b,77);finish_hash(&c,h);for(int i=0;i<32;i++)printf("%02x",h[i]);puts("");return 0;}
