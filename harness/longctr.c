/* long streams of zero bytes through an uninstrumented engine: longctr CIPHER KEY IV AAD LEN TAIL SECTION [TAG]
 * prints the TAIL bytes of keystream that follow the first LEN bytes; the -mgm ciphers decrypt, after AAD zero bytes of
 * associated data, and print + or - for the outcome of the final step; "refused" when an update is refused */
#include <openssl/evp.h>
#include <openssl/engine.h>
#include <openssl/err.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
void ENGINE_load_gost(void);
static unsigned char zero[(1<<20)+7],out[(1<<20)+7];
static size_t unhex(const char*h,unsigned char*o){size_t n=0;unsigned v;for(;sscanf(h,"%2x",&v)==1;h+=2)o[n++]=v;return n;}
#define OK(x) do{if((x)<=0){fprintf(stderr,"%s failed\n",#x);ERR_print_errors_fp(stderr);return 1;}}while(0)
int main(int c,char**v){
 if(c<8)return 2;
 unsigned char key[64]={0},iv[64]={0},tag[64]={0};unhex(v[2],key);unhex(v[3],iv);unsigned long long a=strtoull(v[4],0,10),n=strtoull(v[5],0,10);int tail=atoi(v[6]),sect=atoi(v[7]),l,mgm=strstr(v[1],"-mgm")!=NULL;
 size_t tl=c>8?unhex(v[8],tag):0;
 ENGINE_load_gost();ENGINE*e=ENGINE_by_id("gost");OK(e!=NULL);OK(ENGINE_init(e));OK(ENGINE_set_default(e,ENGINE_METHOD_ALL));
 const EVP_CIPHER*ci=EVP_get_cipherbyname(v[1]);OK(ci!=NULL);EVP_CIPHER_CTX*x=EVP_CIPHER_CTX_new();
 OK(EVP_CipherInit_ex(x,ci,e,key,iv,mgm?0:1));if(sect)OK(EVP_CIPHER_CTX_ctrl(x,EVP_CTRL_KEY_MESH,sect,NULL));
 for(unsigned i=0;a;i++){size_t k=sizeof zero-(i%5==4?3:i%3);if(k>a)k=a;if(EVP_CipherUpdate(x,NULL,&l,zero,(int)k)<=0){puts("refused");return 0;}a-=k;}
 for(unsigned i=0;n;i++){size_t k=sizeof zero-(i%5==4?3:i%3);if(k>n)k=n;if(EVP_CipherUpdate(x,out,&l,zero,(int)k)<=0){puts("refused");return 0;}n-=k;}
 unsigned char t[256]={0};
 if(tail&&EVP_CipherUpdate(x,t,&l,zero,tail)<=0){puts("refused");return 0;}
 for(int i=0;i<tail;i++)printf("%02x",t[i]);
 if(mgm){OK(EVP_CIPHER_CTX_ctrl(x,EVP_CTRL_AEAD_SET_TAG,(int)tl,tag));printf("%s",EVP_CipherFinal_ex(x,out,&l)>0?"+":"-");}
 puts("");return 0;}
