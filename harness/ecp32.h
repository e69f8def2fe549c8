// generated prototypes of the 32-bit variants
extern "C" {
int v32_point_mul_id_GostR3410_2001_CryptoPro_A_ParamSet(const EC_GROUP*,EC_POINT*,const EC_POINT*,const BIGNUM*,BN_CTX*);int v32_point_mul_g_id_GostR3410_2001_CryptoPro_A_ParamSet(const EC_GROUP*,EC_POINT*,const BIGNUM*,BN_CTX*);int v32_point_mul_two_id_GostR3410_2001_CryptoPro_A_ParamSet(const EC_GROUP*,EC_POINT*,const BIGNUM*,const EC_POINT*,const BIGNUM*,BN_CTX*);
int v32_point_mul_id_GostR3410_2001_CryptoPro_B_ParamSet(const EC_GROUP*,EC_POINT*,const EC_POINT*,const BIGNUM*,BN_CTX*);int v32_point_mul_g_id_GostR3410_2001_CryptoPro_B_ParamSet(const EC_GROUP*,EC_POINT*,const BIGNUM*,BN_CTX*);int v32_point_mul_two_id_GostR3410_2001_CryptoPro_B_ParamSet(const EC_GROUP*,EC_POINT*,const BIGNUM*,const EC_POINT*,const BIGNUM*,BN_CTX*);
int v32_point_mul_id_GostR3410_2001_CryptoPro_C_ParamSet(const EC_GROUP*,EC_POINT*,const EC_POINT*,const BIGNUM*,BN_CTX*);int v32_point_mul_g_id_GostR3410_2001_CryptoPro_C_ParamSet(const EC_GROUP*,EC_POINT*,const BIGNUM*,BN_CTX*);int v32_point_mul_two_id_GostR3410_2001_CryptoPro_C_ParamSet(const EC_GROUP*,EC_POINT*,const BIGNUM*,const EC_POINT*,const BIGNUM*,BN_CTX*);
int v32_point_mul_id_GostR3410_2001_TestParamSet(const EC_GROUP*,EC_POINT*,const EC_POINT*,const BIGNUM*,BN_CTX*);int v32_point_mul_g_id_GostR3410_2001_TestParamSet(const EC_GROUP*,EC_POINT*,const BIGNUM*,BN_CTX*);int v32_point_mul_two_id_GostR3410_2001_TestParamSet(const EC_GROUP*,EC_POINT*,const BIGNUM*,const EC_POINT*,const BIGNUM*,BN_CTX*);
int v32_point_mul_id_tc26_gost_3410_2012_256_paramSetA(const EC_GROUP*,EC_POINT*,const EC_POINT*,const BIGNUM*,BN_CTX*);int v32_point_mul_g_id_tc26_gost_3410_2012_256_paramSetA(const EC_GROUP*,EC_POINT*,const BIGNUM*,BN_CTX*);int v32_point_mul_two_id_tc26_gost_3410_2012_256_paramSetA(const EC_GROUP*,EC_POINT*,const BIGNUM*,const EC_POINT*,const BIGNUM*,BN_CTX*);
int v32_point_mul_id_tc26_gost_3410_2012_512_paramSetA(const EC_GROUP*,EC_POINT*,const EC_POINT*,const BIGNUM*,BN_CTX*);int v32_point_mul_g_id_tc26_gost_3410_2012_512_paramSetA(const EC_GROUP*,EC_POINT*,const BIGNUM*,BN_CTX*);int v32_point_mul_two_id_tc26_gost_3410_2012_512_paramSetA(const EC_GROUP*,EC_POINT*,const BIGNUM*,const EC_POINT*,const BIGNUM*,BN_CTX*);
int v32_point_mul_id_tc26_gost_3410_2012_512_paramSetB(const EC_GROUP*,EC_POINT*,const EC_POINT*,const BIGNUM*,BN_CTX*);int v32_point_mul_g_id_tc26_gost_3410_2012_512_paramSetB(const EC_GROUP*,EC_POINT*,const BIGNUM*,BN_CTX*);int v32_point_mul_two_id_tc26_gost_3410_2012_512_paramSetB(const EC_GROUP*,EC_POINT*,const BIGNUM*,const EC_POINT*,const BIGNUM*,BN_CTX*);
int v32_point_mul_id_tc26_gost_3410_2012_512_paramSetC(const EC_GROUP*,EC_POINT*,const EC_POINT*,const BIGNUM*,BN_CTX*);int v32_point_mul_g_id_tc26_gost_3410_2012_512_paramSetC(const EC_GROUP*,EC_POINT*,const BIGNUM*,BN_CTX*);int v32_point_mul_two_id_tc26_gost_3410_2012_512_paramSetC(const EC_GROUP*,EC_POINT*,const BIGNUM*,const EC_POINT*,const BIGNUM*,BN_CTX*);
}
struct V32{const char*sn;int(*mul)(const EC_GROUP*,EC_POINT*,const EC_POINT*,const BIGNUM*,BN_CTX*);int(*g)(const EC_GROUP*,EC_POINT*,const BIGNUM*,BN_CTX*);int(*two)(const EC_GROUP*,EC_POINT*,const BIGNUM*,const EC_POINT*,const BIGNUM*,BN_CTX*);};
static const V32 v32[]={{"id-GostR3410-2001-CryptoPro-A-ParamSet",v32_point_mul_id_GostR3410_2001_CryptoPro_A_ParamSet,v32_point_mul_g_id_GostR3410_2001_CryptoPro_A_ParamSet,v32_point_mul_two_id_GostR3410_2001_CryptoPro_A_ParamSet},{"id-GostR3410-2001-CryptoPro-B-ParamSet",v32_point_mul_id_GostR3410_2001_CryptoPro_B_ParamSet,v32_point_mul_g_id_GostR3410_2001_CryptoPro_B_ParamSet,v32_point_mul_two_id_GostR3410_2001_CryptoPro_B_ParamSet},{"id-GostR3410-2001-CryptoPro-C-ParamSet",v32_point_mul_id_GostR3410_2001_CryptoPro_C_ParamSet,v32_point_mul_g_id_GostR3410_2001_CryptoPro_C_ParamSet,v32_point_mul_two_id_GostR3410_2001_CryptoPro_C_ParamSet},{"id-GostR3410-2001-TestParamSet",v32_point_mul_id_GostR3410_2001_TestParamSet,v32_point_mul_g_id_GostR3410_2001_TestParamSet,v32_point_mul_two_id_GostR3410_2001_TestParamSet},{"id-tc26-gost-3410-2012-256-paramSetA",v32_point_mul_id_tc26_gost_3410_2012_256_paramSetA,v32_point_mul_g_id_tc26_gost_3410_2012_256_paramSetA,v32_point_mul_two_id_tc26_gost_3410_2012_256_paramSetA},{"id-tc26-gost-3410-2012-512-paramSetA",v32_point_mul_id_tc26_gost_3410_2012_512_paramSetA,v32_point_mul_g_id_tc26_gost_3410_2012_512_paramSetA,v32_point_mul_two_id_tc26_gost_3410_2012_512_paramSetA},{"id-tc26-gost-3410-2012-512-paramSetB",v32_point_mul_id_tc26_gost_3410_2012_512_paramSetB,v32_point_mul_g_id_tc26_gost_3410_2012_512_paramSetB,v32_point_mul_two_id_tc26_gost_3410_2012_512_paramSetB},{"id-tc26-gost-3410-2012-512-paramSetC",v32_point_mul_id_tc26_gost_3410_2012_512_paramSetC,v32_point_mul_g_id_tc26_gost_3410_2012_512_paramSetC,v32_point_mul_two_id_tc26_gost_3410_2012_512_paramSetC}};
