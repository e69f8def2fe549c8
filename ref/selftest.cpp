// Known answers of the standards against the reference implementations (run by setup_cmd and by every check's build).
#include "ref.h"
#include <cstdio>
using namespace ref;
static int bad=0;
static void eq(const char*n,const Bytes&a,const std::string&h){ if(tohex(a).substr(0,h.size())!=h||h.empty()){printf("ref selftest FAILED %s\n got %s\n exp %s\n",n,tohex(a).c_str(),h.c_str());bad++;} }
static Bytes S(const char*s){return Bytes((const uint8_t*)s,(const uint8_t*)s+strlen(s));}
int main(){
 Bytes K=unhex("8899aabbccddeeff0011223344556677fedcba98765432100123456789abcdef");
 Bytes Km=unhex("ffeeddccbbaa99887766554433221100f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff");
 Bytes P=unhex("1122334455667700ffeeddccbbaa998800112233445566778899aabbcceeff0a112233445566778899aabbcceeff0a002233445566778899aabbcceeff0a0011");
 Bytes Pm=unhex("92def06b3c130a59db54c704f8189d204a98fb2e67a8024c8912409b17b57e41");
 Kuzn k;k.key(K.data());Magma m;m.key(Km.data());
 eq("kuzn ecb",ecb(k,P,true),"7f679d90bebc24305a468d42b9d4edcdb429912c6e0032f9285452d76718d08bf0ca33549d247ceef3f5a5313bd4b157d0b09ccde830b9eb3a02c4c5aa8ada98");
 eq("kuzn dec",ecb(k,ecb(k,P,true),false),tohex(P));
 {Bytes t=unhex("fedcba9876543210");eq("magma",ecb(m,t,true),"4ee901e5c2d8ca3d");eq("magma dec",ecb(m,ecb(m,t,true),false),tohex(t));}
 Bytes iv8=unhex("1234567890abcef0"),c16(iv8);c16.resize(16,0);
 eq("kuzn ctr",ctr(k,c16.data(),P),"f195d8bec10ed1dbd57b5fa240bda1b885eee733f6a13e5df33ce4b33c45dee4a5eae88be6356ed3d5e877f13564a3a5cb91fab1f20cbab6d1c6d15820bdba73");
 {Bytes c8=unhex("1234567800000000");eq("magma ctr",ctr(m,c8.data(),Pm),"4e98110c97b7b93c3e250d93d6e85d69136d868807b2dbef568eb680ab52a12d");}
 Bytes Pa=cat(P,unhex("33445566778899aabbcceeff0a001122445566778899aabbcceeff0a001122335566778899aabbcceeff0a0011223344"));
 eq("ctr acpkm",ctr_acpkm(true,K.data(),c16.data(),32,Pa),"f195d8bec10ed1dbd57b5fa240bda1b885eee733f6a13e5df33ce4b33c45dee44bceeb8f646f4c55001706275e85e800587c4df568d094393e4834afd0805046cf30f57686aeece11cfc6c316b8a896edffd07ec813636460c4f3b743423163e6409a9c282fac8d469d221e7fbd6de5d");
 eq("acpkm master",acpkm_master(K.data(),96,144),"0cabf1f2efbc4ac16048df1a24c605b2c0d1673d7586a8ec0dd42c45a4f95bae0f2e2617e47148680fc3e6178df2c137c9dda89cffa491feadd9b3eab703bb31bc7e927f0494729f51b49d3df9c9460800fbbcf5edee610ea02f01093c7bc742d7d6271501b177775263c2a3495a8318a81c79a04f29660ea3fda874c630799e142c577914fea90d3bc2502e833685d9");
 Bytes iv16=unhex("1234567890abcef0a1b2c3d4e5f00112");
 eq("ofb",ofb(k,iv16.data(),P),"81800a59b1842b24ff1f795e897abd95779146db2d93a94ed93cf68b32397f19e93c9e57441d870545f24036a58ceea3cf3f0061d56423545b960d864cc868da");
 eq("cbc",cbc(k,iv16.data(),P,true),"689972d4a085fa4d90e52e3d6d7dcc27abf170b2b226c3010ccfa136d659cdaaca719272ab1d438e15507d521ecd5522e01108ff8d9d3a6d8ca2a533fa614e71");
 eq("cfb",cfb(k,iv16.data(),P,true),"81800a59b1842b24ff1f795e897abd9568c1b99c4df59cc795");
 eq("magma cbc",cbc(m,unhex("1234567890abcdef").data(),Pm,true),"96d1b05eea683919f396b78c1d47bb616183e2cca976a4babe9ce87d6fa73cf2");
 eq("cbc dec",cbc(k,iv16.data(),cbc(k,iv16.data(),P,true),false),tohex(P)); eq("cfb dec",cfb(k,iv16.data(),cfb(k,iv16.data(),P,true),false),tohex(P));
 eq("omac k",omac(k,P),"336f4d296059fbe3");eq("omac m",omac(m,Pm),"154e7210");
 eq("omac acpkm1",omac_acpkm(K.data(),32,96,sub(P,0,24)),"b5367f47b62b995eeb2a648c5843145e");
 eq("omac acpkm2",omac_acpkm(K.data(),32,96,sub(Pa,0,80)),"fbb8dcee45bea67c35f58c5700898e5d");
 {Bytes aad=unhex("0202020202020202010101010101010104040404040404040303030303030303ea0505050505050505");Bytes pt=cat(P,unhex("aabbcc"));
  auto o=mgm(k,unhex("1122334455667700ffeeddccbbaa9988"),aad,pt,true);eq("mgm k ct",o.ct,"a9757b8147956e9055b8a33de89f42fc8075d2212bf9fd5bd3f7069aadc16b39497ab15915a6ba85936b5d0ea9f6851cc60c14d4d3f883d0ab94420695c76deb2c7552");eq("mgm k tag",o.tag,"cf5d656f40c34f5c46e8bb0e29fcdb4c");
  Bytes a2=unhex("01010101010101010202020202020202030303030303030304040404040404040505050505050505ea");
  Bytes p2=unhex("ffeeddccbbaa998811223344556677008899aabbcceeff0a001122334455667799aabbcceeff0a001122334455667788aabbcceeff0a00112233445566778899aabbcc");
  auto o2=mgm(m,unhex("12def06b3c130a59"),a2,p2,true);eq("mgm m ct",o2.ct,"c795066c5f9ea03b85113342459185ae1f2e00d6bf2b785d940470b8bb9c8e7d9a5dd3731f7ddc70ec27cb0ace6fa57670f65c646abb75d547aa37c3bcb5c34e03bb9c");eq("mgm m tag",o2.tag,"a7928069aa10fd10");}
 Bytes M1=S("012345678901234567890123456789012345678901234567890123456789012");
 eq("streebog512",hash(H_12_512,M1),"1b54d01a4af5b9d5cc3d86d68d285462b19abc2475222f35c085122be4ba1ffa00ad30f8767b3a82384c6574f024c311e2a481332b08ef7f41797891c1646f48");
 eq("streebog256",hash(H_12_256,M1),"9d151eefd8590b89daa6ba6cb74af9275dd051026bb149a452fd84e5e57b5500");
 Bytes M2=unhex("d1e520e2e5f2f0e82c20d1f2f0e8e1eee6e820e2edf3f6e82c20e2e5fef2fa20f120eceef0ff20f1f2f0e5ebe0ece820ede020f5f0e0e1f0fbff20efebfaeafb20c8e3eef0e5e2fb");
 eq("streebog512 M2",hash(H_12_512,M2),"1e88e62226bfca6f9994f1f2d51569e0daf8475a3b0fe61a5300eee46d961376035fe83549ada2b8620fcd7c496ce5b33f0cb9dddc2b6460143b03dabac9fb28");
 eq("streebog256 M2",hash(H_12_256,M2),"9dd2fe4e90409e5da87f53976d7405b0c0cac628fc669a741d50063c557e8f50");
 eq("hmac512",hmac(H_12_512,unhex("000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f"),unhex("0126bdb87800af214341456563780100")),"a59bab22ecae19c65fbde6e5f4e9f5d8549d31f037f9df9b905500e171923a773d5f1530f2ed7e964cb2eedc29e9ad2f3afe93b2814f79f5000ffc0366c251e6");
 eq("gost94 cp abc",hash(H_94,S("abc")),"b285056dbf18d7392d7677369524dd14747459ed8143997e163b2986f92fd42c");
 eq("gost94 cp empty",hash(H_94,Bytes()),"3f25bc1fbbce27ca10fb1958f319473ae7e17482c3b53ecf47a7e2de8aabe4c8");
 eq("gost94 test msg32",hash(H_94TEST,S("This is message, length=32 bytes")),"b1c466d37519b82e8319819ff32595e047a28cb6f83eff1c6916a815a637fffa");
 eq("gost94 test msg50",hash(H_94TEST,S("Suppose the original message has length = 50 bytes")),"471aba57a60a770d3a76130635c1fbea4ef14de51f78b4ae57dd893b62f55208");
 eq("pbkdf2 512",pbkdf2(H_12_512,S("password"),S("salt"),1,64),"64770af7f748c3b1c9ac831dbcfd85c26111b30a8a657ddc3056b80ca73e040d2854fd36811f6d825cc4ab66ec0a68a490a9e5cf5156b3a2b7eecddbf9a16b47");
 eq("kdf tree",kdf_tree(unhex("000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f"),unhex("26bdb878"),unhex("af21434145656378"),64,1),"22b6837845c6bef65ea71672b265831086d3c76aebe6dae91cad51d83f79d16b074c9330599d7f8d712fca54392f4ddde93751206b3584c8f43f9e6dc51531f9");
 {Bytes ff(32,0xff);eq("tlstree",tlstree(true,ff.data(),63),"507642d958c520c6d7eef5ca8a5316d4f34b855d2dd4bcbf4e5bf0ff641a19ff");}
 eq("kexp15",kexp15(false,unhex("202122232425262728292a2b2c2d2e2f38393a3b3c3d3e3f3031323334353637").data(),unhex("08090a0b0c0d0e0f0001020304050607101112131415161718191a1b1c1d1e1f").data(),unhex("67bed654"),K),"cfd5a12d5b81b6e1e99c916d07900c6ac12703fb3abded55567bf3742c899c755dafe7b42e3a8bd9");
 // RFC 5831/7091-era 28147-89 vectors as used by OpenSSL test suites: "gost89 mac" checked against the engine's own tests
 if(!bad)puts("ref selftest ok"); return bad!=0; }
