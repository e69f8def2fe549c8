// Tables of the standards, transcribed once when this harness was written (see ref/README).
static const SboxRow SBOXES[]={ // rows k1 (lowest nibble) .. k8 (highest nibble)
 {"GostR3411_94_Test",{"4A92D80E6B1C7F53","EB4C6DFA23810759","581DA342EFC7609B","7DA1089FE46CB253","6C715FD84A9E03B2","4BA0721D36859CFE","DB413F590AE7682C","1FD057A4923E6B8C"}},
 {"GostR3411_94_CryptoPro",{"A4568137DCE092BF","5F402DB91763CEA8","7FCE94103B526A8D","4A7C0F28E165DB93","764B9C2A180EFD35","7624D9F0A15B8EC3","DE41705A3C8F629B","13A95B4F867ED02C"}},
 {"Gost28147_Test",{"42F59108E3BCD7A6","C9FE813A274D60B5","D8EC739A15246F0B","E9B25F710DC6A438","3E59680DAB7C21F4","8F6B19C5D37A0E24","9BC0367548EF1A2D","C652B09D3E7AF418"}},
 {"CryptoPro_A",{"96328B17A4EFC0D5","37E98AF0526CB4D1","E462B3D8CF5A0719","E7ACD13902B4F856","B5198DF0E423C7A6","3ADC120B75948FE6","1D297A608C45F3BE","BAF50CE8623917D4"}},
 {"CryptoPro_B",{"84B135092EACD67F","012A4D5C973FB86E","EC0A92DB758F3614","750DB6123ACF4E98","27CF95AB140D68E3","83264DEBC17FA095","52AB91C374D06F8E","04BE8371A296FD5C"}},
 {"CryptoPro_C",{"1BC29D0F458EA763","017DB4528EFC9A63","825049FA37CD6E1B","36015DA8B297EFC4","8DB0451293CE6FA7","C9B18E247365A0FD","A968DE20F35B41C7","7405A2FEC61BD938"}},
 {"CryptoPro_D",{"FC2A645079ED1B83","B634CFE27D805A91","1CB0FE65AD489372","15ECA70D62B493F8","0C89D2AB73654EF1","80F325EB1A47C9D6","306F1E92D8C4BA57","1A68FB04C3597D2E"}},
 {"TC26_Z",{"C462A5B9E8D703F1","68239A5C1E47BD0F","B3582FADE174C960","C821D4F670A53E9B","7F5A816D093EB42C","5DF692CAB78143E0","8E25691CF4B0DA37","17ED05834FA69CB2"}},
};
static const uint8_t PI[256]={252,238,221,17,207,110,49,22,251,196,250,218,35,197,4,77,
233,119,240,219,147,46,153,186,23,54,241,187,20,205,95,193,
249,24,101,90,226,92,239,33,129,28,60,66,139,1,142,79,
5,132,2,174,227,106,143,160,6,11,237,152,127,212,211,31,
235,52,44,81,234,200,72,171,242,42,104,162,253,58,206,204,
181,112,14,86,8,12,118,18,191,114,19,71,156,183,93,135,
21,161,150,41,16,123,154,199,243,145,120,111,157,158,178,177,
50,117,25,61,255,53,138,126,109,84,198,128,195,189,13,87,
223,245,36,169,62,168,67,201,215,121,214,246,124,34,185,3,
224,15,236,222,122,148,176,188,220,232,40,80,78,51,10,74,
167,151,96,115,30,0,98,68,26,184,56,130,100,159,38,65,
173,69,70,146,39,94,85,47,140,163,165,125,105,213,149,59,
7,88,179,64,134,172,29,247,48,55,107,228,136,217,231,137,
225,27,131,73,76,63,248,254,141,83,170,144,202,216,133,97,
32,113,103,164,45,43,9,91,203,155,37,208,190,229,108,82,
89,166,116,210,230,244,180,192,209,102,175,194,57,75,99,182
};
static const uint8_t LVEC[16]={148,32,133,16,194,192,1,251,1,192,194,16,133,32,148,1,};
static const uint64_t STREEBOG_A[64]={
0x70a6a56e2440598eULL,0x3853dc371220a247ULL,0x1ca76e95091051adULL,0x0edd37c48a08a6d8ULL,0x07e095624504536cULL,0x8d70c431ac02a736ULL,0xc83862965601dd1bULL,0x641c314b2b8ee083ULL,
0xe4fa2054a80b329cULL,0x727d102a548b194eULL,0x39b008152acb8227ULL,0x9258048415eb419dULL,0x492c024284fbaec0ULL,0xaa16012142f35760ULL,0x550b8e9e21f7a530ULL,0xa48b474f9ef5dc18ULL,
0x456c34887a3805b9ULL,0xac361a443d1c8cd2ULL,0x561b0d22900e4669ULL,0x2b838811480723baULL,0x9bcf4486248d9f5dULL,0xc3e9224312c8c1a0ULL,0xeffa11af0964ee50ULL,0xf97d86d98a327728ULL,
0x86275df09ce8aaa8ULL,0x439da0784e745554ULL,0xafc0503c273aa42aULL,0xd960281e9d1d5215ULL,0xe230140fc0802984ULL,0x71180a8960409a42ULL,0xb60c05ca30204d21ULL,0x5b068c651810a89eULL,
0x9d4df05d5f661451ULL,0xc0a878a0a1330aa6ULL,0x60543c50de970553ULL,0x302a1e286fc58ca7ULL,0x18150f14b9ec46ddULL,0x0c84890ad27623e0ULL,0x0642ca05693b9f70ULL,0x0321658cba93c138ULL,
0x90dab52a387ae76fULL,0x486dd4151c3dfdb9ULL,0x24b86a840e90f0d2ULL,0x125c354207487869ULL,0x092e94218d243cbaULL,0x8a174a9ec8121e5dULL,0x4585254f64090fa0ULL,0xaccc9ca9328a8950ULL,
0xa011d380818e8f40ULL,0x5086e740ce47c920ULL,0x2843fd2067adea10ULL,0x14aff010bdd87508ULL,0x0ad97808d06cb404ULL,0x05e23c0468365a02ULL,0x8c711e02341b2d01ULL,0x46b60f011a83988eULL,
0x8e20faa72ba0b470ULL,0x47107ddd9b505a38ULL,0xad08b0e0c3282d1cULL,0xd8045870ef14980eULL,0x6c022c38f90a4c07ULL,0x3601161cf205268dULL,0x1b8e0b0e798c13c8ULL,0x83478b07b2468764ULL,
};
static const uint64_t STREEBOG_C[12][8]={ // least significant word first
{0xdd806559f2a64507ULL,0x05767436cc744d23ULL,0xa2422a08a460d315ULL,0x4b7ce09192676901ULL,0x714eb88d7585c4fcULL,0x2f6a76432e45d016ULL,0xebcb2f81c0657c1fULL,0xb1085bda1ecadae9ULL,},
{0xe679047021b19bb7ULL,0x55dda21bd7cbcd56ULL,0x5cb561c2db0aa7caULL,0x9ab5176b12d69958ULL,0x61d55e0f16b50131ULL,0xf3feea720a232b98ULL,0x4fe39d460f70b5d7ULL,0x6fa3b58aa99d2f1aULL,},
{0x991e96f50aba0ab2ULL,0xc2b6f443867adb31ULL,0xc1c93a376062db09ULL,0xd3e20fe490359eb1ULL,0xf2ea7514b1297b7bULL,0x06f15e5f529c1f8bULL,0x0a39fc286a3d8435ULL,0xf574dcac2bce2fc7ULL,},
{0x220cbebc84e3d12eULL,0x3453eaa193e837f1ULL,0xd8b71333935203beULL,0xa9d72c82ed03d675ULL,0x9d721cad685e353fULL,0x488e857e335c3c7dULL,0xf948e1a05d71e4ddULL,0xef1fdfb3e81566d2ULL,},
{0x601758fd7c6cfe57ULL,0x7a56a27ea9ea63f5ULL,0xdfff00b723271a16ULL,0xbfcd1747253af5a3ULL,0x359e35d7800fffbdULL,0x7f151c1f1686104aULL,0x9a3f410c6ca92363ULL,0x4bea6bacad474799ULL,},
{0xfa68407a46647d6eULL,0xbf71c57236904f35ULL,0x0af21f66c2bec6b6ULL,0xcffaa6b71c9ab7b4ULL,0x187f9ab49af08ec6ULL,0x2d66c4f95142a46cULL,0x6fa4c33b7a3039c0ULL,0xae4faeae1d3ad3d9ULL,},
{0x8886564d3a14d493ULL,0x3517454ca23c4af3ULL,0x06476983284a0504ULL,0x0992abc52d822c37ULL,0xd3473e33197a93c9ULL,0x399ec6c7e6bf87c9ULL,0x51ac86febf240954ULL,0xf4c70e16eeaac5ecULL,},
{0xa47f0dd4bf02e71eULL,0x36acc2355951a8d9ULL,0x69d18d2bd1a5c42fULL,0xf4892bcb929b0690ULL,0x89b4443b4ddbc49aULL,0x4eb7f8719c36de1eULL,0x03e7aa020c6e4141ULL,0x9b1f5b424d93c9a7ULL,},
{0x7261445183235adbULL,0x0e38dc92cb1f2a60ULL,0x7b2b8a9aa6079c54ULL,0x800a440bdbb2ceb1ULL,0x3cd955b7e00d0984ULL,0x3a7d3a1b25894224ULL,0x944c9ad8ec165fdeULL,0x378f5a541631229bULL,},
{0x74b4c7fb98459cedULL,0x3698fad1153bb6c3ULL,0x7a1e6c303b7652f4ULL,0x9fe76702af69334bULL,0x1fffe18a1b336103ULL,0x8941e71cff8a78dbULL,0x382ae548b2e4f3f3ULL,0xabbedea680056f52ULL,},
{0x6bcaa4cd81f32d1bULL,0xdea2594ac06fd85dULL,0xefbacd1d7d476e98ULL,0x8a1d71efea48b9caULL,0x2001802114846679ULL,0xd8fa6bbbebab0761ULL,0x3002c6cd635afe94ULL,0x7bcd9ed0efc889fbULL,},
{0x48bc924af11bd720ULL,0xfaf417d5d9b21b99ULL,0xe71da4aa88e12852ULL,0x5d80ef9d1891cc86ULL,0xf82012d430219f9bULL,0xcda43c32bcdf1d77ULL,0xd21380b00449b17aULL,0x378ee767f11631baULL,},
};
static const uint8_t MESHKEY[32]={0x69,0x00,0x72,0x22,0x64,0xc9,0x04,0x23,0x8d,0x3a,0xdb,0x96,0x46,0xe9,0x2a,0xc4,0x18,0xfe,0xac,0x94,0x00,0xed,0x07,0x12,0xc0,0x86,0xdc,0xc2,0xef,0x4c,0xa9,0x2b,};
static const CurveRow CURVES[]={ // nid,sn,a,b,p,q,x,y,bits,cofactor
 {839,"id-GostR3410-2001-TestParamSet","7","5FBFF498AA938CE739B8E022FBAFEF40563F6E6A3472FC2A514C0CE9DAE23B7E","8000000000000000000000000000000000000000000000000000000000000431","8000000000000000000000000000000150FE8A1892976154C59CFC193ACCF5B3","2","08E2A8A0E65147D4BD6316030E16D19C85C97F0A9CA267122B96ABBCEA7E8FC8","256",1},
 {840,"id-GostR3410-2001-CryptoPro-A-ParamSet","FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFD94","a6","FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFD97","FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF6C611070995AD10045841B09B761B893","1","8D91E471E0989CDA27DF505A453F2B7635294F2DDF23E3B122ACC99C9E9F1E14","256",1},
 {841,"id-GostR3410-2001-CryptoPro-B-ParamSet","8000000000000000000000000000000000000000000000000000000000000C96","3E1AF419A269A5F866A7D3C25C3DF80AE979259373FF2B182F49D4CE7E1BBC8B","8000000000000000000000000000000000000000000000000000000000000C99","800000000000000000000000000000015F700CFFF1A624E5E497161BCC8A198F","1","3FA8124359F96680B83D1C3EB2C070E5C545C9858D03ECFB744BF8D717717EFC","256",1},
 {842,"id-GostR3410-2001-CryptoPro-C-ParamSet","9B9F605F5A858107AB1EC85E6B41C8AACF846E86789051D37998F7B9022D7598","805a","9B9F605F5A858107AB1EC85E6B41C8AACF846E86789051D37998F7B9022D759B","9B9F605F5A858107AB1EC85E6B41C8AA582CA3511EDDFB74F02F3A6598980BB9","0","41ECE55743711A8C3CBF3783CD08C0EE4D4DC440D4641A8F366E550DFDB3BB67","256",1},
 {843,"id-GostR3410-2001-CryptoPro-XchA-ParamSet","FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFD94","a6","FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFD97","FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF6C611070995AD10045841B09B761B893","1","8D91E471E0989CDA27DF505A453F2B7635294F2DDF23E3B122ACC99C9E9F1E14","256",1},
 {844,"id-GostR3410-2001-CryptoPro-XchB-ParamSet","9B9F605F5A858107AB1EC85E6B41C8AACF846E86789051D37998F7B9022D7598","805a","9B9F605F5A858107AB1EC85E6B41C8AACF846E86789051D37998F7B9022D759B","9B9F605F5A858107AB1EC85E6B41C8AA582CA3511EDDFB74F02F3A6598980BB9","0","41ECE55743711A8C3CBF3783CD08C0EE4D4DC440D4641A8F366E550DFDB3BB67","256",1},
 {1148,"id-tc26-gost-3410-2012-256-paramSetA","C2173F1513981673AF4892C23035A27CE25E2013BF95AA33B22C656F277E7335","295F9BAE7428ED9CCC20E7C359A9D41A22FCCD9108E17BF7BA9337A6F8AE9513","FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFD97","400000000000000000000000000000000FD8CDDFC87B6635C115AF556C360C67","91E38443A5E82C0D880923425712B2BB658B9196932E02C78B2582FE742DAA28","32879423AB1A0375895786C4BB46E9565FDE0B5344766740AF268ADB32322E5C","256",4},
 {997,"id-tc26-gost-3410-2012-512-paramSetTest","7","1CFF0806A31116DA29D8CFA54E57EB748BC5F377E49400FDD788B649ECA1AC4361834013B2AD7322480A89CA58E0CF74BC9E540C2ADD6897FAD0A3084F302ADC","4531ACD1FE0023C7550D267B6B2FEE80922B14B2FFB90F04D4EB7C09B5D2D15DF1D852741AF4704A0458047E80E4546D35B8336FAC224DD81664BBF528BE6373","4531ACD1FE0023C7550D267B6B2FEE80922B14B2FFB90F04D4EB7C09B5D2D15DA82F2D7ECB1DBAC719905C5EECC423F1D86E25EDBE23C595D644AAF187E6E6DF","24D19CC64572EE30F396BF6EBBFD7A6C5213B3B3D7057CC825F91093A68CD762FD60611262CD838DC6B60AA7EEE804E28BC849977FAC33B4B530F1B120248A9A","2BB312A43BD2CE6E0D020613C857ACDDCFBF061E91E5F2C3F32447C259F39B2C83AB156D77F1496BF7EB3351E1EE4E43DC1A18B91B24640B6DBB92CB1ADD371E","512",1},
 {998,"id-tc26-gost-3410-2012-512-paramSetA","FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFDC4","E8C2505DEDFC86DDC1BD0B2B6667F1DA34B82574761CB0E879BD081CFD0B6265EE3CB090F30D27614CB4574010DA90DD862EF9D4EBEE4761503190785A71C760","FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFDC7","FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF27E69532F48D89116FF22B8D4E0560609B4B38ABFAD2B85DCACDB1411F10B275","3","7503CFE87A836AE3A61B8816E25450E6CE5E1C93ACF1ABC1778064FDCBEFA921DF1626BE4FD036E93D75E6A50E3A41E98028FE5FC235F5B889A589CB5215F2A4","512",1},
 {999,"id-tc26-gost-3410-2012-512-paramSetB","8000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000006C","687D1B459DC841457E3E06CF6F5E2517B97C7D614AF138BCBF85DC806C4B289F3E965D2DB1416D217F8B276FAD1AB69C50F78BEE1FA3106EFB8CCBC7C5140116","8000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000006F","800000000000000000000000000000000000000000000000000000000000000149A1EC142565A545ACFDB77BD9D40CFA8B996712101BEA0EC6346C54374F25BD","2","1A8F7EDA389B094C2C071E3647A8940F3C123B697578C213BE6DD9E6C8EC7335DCB228FD1EDF4A39152CBCAAF8C0398828041055F94CEEEC7E21340780FE41BD","512",1},
 {1149,"id-tc26-gost-3410-2012-512-paramSetC","DC9203E514A721875485A529D2C722FB187BC8980EB866644DE41C68E143064546E861C0E2C9EDD92ADE71F46FCF50FF2AD97F951FDA9F2A2EB6546F39689BD3","B4C4EE28CEBC6C2C8AC12952CF37F16AC7EFB6A9F69F4B57FFDA2E4F0DE5ADE038CBC2FFF719D2C18DE0284B8BFEF3B52B8CC7A5F5BF0A3C8D2319A5312557E1","FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFDC7","3FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFC98CDBA46506AB004C33A9FF5147502CC8EDA9E7A769A12694623CEF47F023ED","E2E31EDFC23DE7BDEBE241CE593EF5DE2295B7A9CBAEF021D385F7074CEA043AA27272A7AE602BF2A7B9033DB9ED3610C6FB85487EAE97AAC5BC7928C1950148","F5CE40D95B5EB899ABBCCFF5911CB8577939804D6527378B8C108C3D2090FF9BE18E2D33E3021ED2EF32D85822423B6304F726AA854BAE07D0396E9A9ADDC40F","512",4},
};
