#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of every property lives here)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

KAT = "The existing tests compare a few known-answer vectors; "

prop("B01", "Block ciphers compute exactly the standardised permutations",
 "For every key and block, the GOST 28147-89 (every named S-box set), Magma and Kuznyechik block encryptions return exactly the value the standards define, whether reached through the raw block routines or through the ECB ciphers. Decryption is the exact inverse, and re-keying a context leaves no trace of the previous key.",
 ["inputs", "histories"], "all 256-bit keys, all blocks, all nine S-box sets, all sequences of re-keying, encrypting and decrypting on one context",
 KAT + "S-box tables and key schedules have 2^8..2^32 entries per key of which a handful are touched.",
 ["gost89.c", "gost_grasshopper_core.c", "gost_grasshopper_precompiled.c", "gost_grasshopper_galois_precompiled.c", "gost_grasshopper_defines.c", "gost_crypt.c", "gost_grasshopper_cipher.c"],
 [("S-box expansion and 32 rounds", "gost89.c: kboxinit, gostcrypt, gostdecrypt, magma_key, magma_master_key"),
  ("tabulated LS transformation and key schedule", "gost_grasshopper_core.c: grasshopper_encrypt_block, grasshopper_set_encrypt_key")],
 observe=["gostcrypt/gostdecrypt", "EVP ECB ciphers"])

prop("C01", "Unauthenticated cipher modes produce the specified ciphertext",
 "For every registered unauthenticated cipher (GOST 28147-89 CFB, CNT, CNT-12, CBC; Magma ECB, CBC, CTR, CTR-ACPKM; Kuznyechik ECB, CBC, CFB, OFB, CTR, CTR-ACPKM), every key, IV, padding setting and message of any length, the ciphertext delivered through the EVP interface equals the mode as specified (RFC 4357/RFC 5830, GOST R 34.13-2015, RFC 8645), including counter carries and default key meshing. Decrypting that ciphertext in a context set up the same way returns exactly the message.",
 ["inputs"], "all keys, IVs (including those whose derived counters are about to wrap), message lengths from zero to beyond several key-meshing sections and 2^16 counter blocks",
 KAT + "they sample a few fixed keys, IVs and short lengths, so carries, mesh boundaries and odd tails are met by chance only.",
 ["gost_crypt.c", "gost_grasshopper_cipher.c", "gost89.c"],
 [("CFB/CNT/CBC loops and gamma generator", "gost_crypt.c: gost_cipher_do_cfb, gost_cnt_next, gost_cipher_do_cnt, gost_cipher_do_cbc, magma_cipher_do_*"),
  ("Kuznyechik mode loops", "gost_grasshopper_cipher.c: gost_grasshopper_cipher_do_*")])

prop("C02", "Cipher output is independent of how the data is fed",
 "For every registered streaming or block cipher, splitting the input into arbitrary update calls (including empty ones), processing in place or into a separate buffer, and any buffer alignment give the same total output as one call, and decryption under any other split returns the original message. The number of bytes reported by each call is exactly what the mode permits, and no byte outside the reported output is written.",
 ["inputs", "histories"], "all partitions of all messages, all ciphers, both directions, in-place or not, all alignments",
 "The tests feed each vector in one call or in a few fixed chunk sizes; partial-block state combined with mesh or section boundaries needs arbitrary partitions.",
 ["gost_crypt.c", "gost_grasshopper_cipher.c"],
 [("partial block carry-over via the EVP num/buf state", "gost_crypt.c, gost_grasshopper_cipher.c: do_cfb, do_cnt, do_ctr, do_ctracpkm, do_ofb")],
 state=[("num", "bytes of the current gamma block already used", "EVP_CIPHER_CTX num"), ("count", "bytes processed since the last key meshing", "ossl_gost_cipher_ctx.count")])

prop("C03", "Key meshing and ACPKM re-keying happen exactly at section boundaries",
 "With key meshing (CryptoPro) or ACPKM enabled, with the default or any accepted section size, the cipher key is transformed exactly when the section is exhausted and never earlier or later, so the whole stream equals the specification for any message and any split into calls. Section sizes that are not acceptable are refused and leave the context usable and unchanged.",
 ["inputs", "histories", "configurations"], "all section sizes, S-box parameter sets with and without meshing, message lengths around multiples of the section, all partitions",
 "Two or three fixed ACPKM vectors with one section size are tested; the boundary conditions depend on the relation between section, block and chunk sizes.",
 ["gost_crypt.c", "gost89.c", "gost_grasshopper_cipher.c", "gost_grasshopper_core.c"],
 [("CryptoPro key meshing", "gost89.c: cryptopro_key_meshing; gost_crypt.c: gost_crypt_mesh"), ("ACPKM", "gost89.c: acpkm_magma_key_meshing; gost_grasshopper_core.c: acpkm_next / apply_acpkm_grasshopper")])

prop("C04", "A reused or copied cipher context behaves like a fresh one",
 "Whatever was done before with a cipher context, initialising it with a key and IV makes it behave exactly like a newly created context initialised the same way, and re-supplying only the IV or only the key restarts the stream under the retained other value. A copied context continues exactly as the original would, and using, re-keying, or freeing either one afterwards never influences the other.",
 ["histories"], "all sequences of init, re-init (with and without naming the cipher, key or IV), direction changes, updates, finals, copies, resets and frees over several contexts of all ciphers including the authenticated ones",
 "The tests mostly use each context once; the leftover state that matters appears only after particular operation sequences.",
 ["gost_crypt.c", "gost_grasshopper_cipher.c", "gost_gost2015.c"],
 [("init / copy / cleanup callbacks", "gost_crypt.c: gost_cipher_init_*, magma_cipher_init*, magma_cipher_ctl*; gost_grasshopper_cipher.c: gost_grasshopper_cipher_init*, gost_grasshopper_cipher_ctl")])

prop("C05", "Cipher parameters survive AlgorithmIdentifier encoding; malformed ones fail",
 "For every cipher that defines algorithm parameters, encoding the parameters of an initialised context and decoding them into a new context lets the new context, given the same key, decrypt what the first encrypts, and the encoding is the ASN.1 structure the standards define. Decoding any other byte string either fails with an error or yields a usable context; it never crashes, reads out of bounds, or silently keeps unrelated parameters.",
 ["inputs"], "all parameter sets, IVs and UKMs; all well-formed and malformed ASN.1 values offered as parameters",
 "No test offers malformed parameters and only a few round trips occur inside CMS tests.",
 ["gost_crypt.c", "gost_gost2015.c", "gost_grasshopper_cipher.c", "gost_asn1.c"],
 [("parameter encode/decode", "gost_crypt.c: gost89_set_asn1_parameters, gost89_get_asn1_parameters, magma_*_asn1_parameters; gost_gost2015.c: gost2015_*_asn1_params")])

prop("A01", "MGM encryption equals RFC 9058 and round-trips",
 "For Magma-MGM and Kuznyechik-MGM, every key, nonce, associated data and plaintext (each possibly empty and split arbitrarily over calls) yields exactly the ciphertext and tag RFC 9058 defines, with the requested tag length being a prefix of the full tag. Data beyond the RFC's length limit (2^(n/2) bits in total) are refused. Decrypting with the same inputs and that tag returns the plaintext and succeeds.",
 ["inputs", "histories"], "all keys, nonces (including those whose derived counters are about to wrap), AAD and plaintext lengths, partitions and accepted tag lengths, messages up to and past the limit of Magma-MGM",
 KAT + "two or so MGM vectors with fixed chunking exist, none with empty AAD or wrapping counters.",
 ["gost_gost2015.c", "gost_crypt.c", "gost_grasshopper_cipher.c"],
 [("MGM engine", "gost_gost2015.c: gost_mgm128_*"), ("per-cipher glue", "gost_crypt.c: magma_cipher_do_mgm; gost_grasshopper_cipher.c: gost_grasshopper_cipher_do_mgm")])

prop("A02", "MGM decryption never accepts modified data",
 "If any bit of the ciphertext, associated data, nonce, key or tag differs from what encryption used or produced, or bytes are added, dropped or moved between associated data and ciphertext, the final decryption step reports failure. It reports success when nothing differs, however either side split the data.",
 ["inputs", "histories"], "all messages and all non-identical modifications of them, all partitions, all tag lengths",
 "The existing MGM test checks decryption of one or two genuine vectors and at most one corrupted tag.",
 ["gost_gost2015.c", "gost_crypt.c", "gost_grasshopper_cipher.c"],
 [("tag comparison in finish", "gost_gost2015.c: gost_mgm128_finish; do_mgm final branch")])

prop("A03", "CTR-ACPKM-OMAC authenticates and decrypts exactly as specified",
 "The Magma and Kuznyechik CTR-ACPKM-OMAC ciphers derive their encryption and MAC keys from the given key and UKM seed as specified, and produce the CTR-ACPKM ciphertext plus the OMAC tag of the plaintext for any message and split. Decryption returns the message and a matching tag only for unmodified data, and fails the final step otherwise.",
 ["inputs", "histories"], "all keys, IV/UKM values, messages, partitions, and single or multiple modifications of ciphertext or tag",
 "Exercised only indirectly by a few CMS tests with fixed short messages.",
 ["gost_crypt.c", "gost_grasshopper_cipher.c", "gost_gost2015.c"],
 [("key derivation and tag processing", "gost_gost2015.c: init_zero_kdf_seed, gost2015_final_call; *_ctracpkm_omac init/do_cipher/ctrl")])

prop("H01", "GOST R 34.11-2012 digests equal the standard for every message",
 "For every message of any length, fed in any split and at any alignment, the 256- and 512-bit Streebog digests equal the GOST R 34.11-2012 value, including carries in the internal counters and checksum.",
 ["inputs", "histories", "configurations"], "all messages, all partitions, both digest sizes, the SIMD and portable implementations, messages crafted so that 512-bit additions carry through every word",
 KAT + "a dozen fixed messages; carry chains and partial-buffer paths depend on specific contents and chunking.",
 ["gosthash2012.c", "gosthash2012_sse2.h", "gosthash2012_ref.h", "gosthash2012_const.h", "gosthash2012_precalc.h", "gost_md2012.c"],
 [("compression, 512-bit addition, padding", "gosthash2012.c: g, add512, stage2, stage3, gost2012_hash_block")],
 state=[("Sigma, N, bufsize", "checksum, bit counter, buffered bytes", "gost2012_hash_ctx")])

prop("H02", "GOST R 34.11-94 digests equal the standard for every message",
 "For every message of any length, fed in any split, the GOST R 34.11-94 digest (CryptoPro and test parameter sets) equals the value the standard defines, including the length block and the control sum.",
 ["inputs", "histories"], "all messages (including lengths beyond 2^32 bits), all partitions, both parameter sets",
 KAT + "a few fixed messages.",
 ["gosthash.c", "gost_md.c", "gost89.c"],
 [("step function, control sum, length", "gosthash.c: hash_step, add_blocks, hash_block, finish_hash")])

prop("H03", "Digest contexts can be reused, copied and interleaved freely",
 "For all GOST digests, any interleaving of init, update, copy and final over several contexts gives every context the digest of exactly the bytes fed to it since its last init or inherited by copy. HMAC and PBKDF2 built on these digests equal their RFC definitions for any key, salt and message.",
 ["histories", "inputs"], "all interleavings over several contexts; all HMAC key lengths around the block size; PBKDF2 parameters",
 "Tests use one copy pattern and fixed HMAC inputs.",
 ["gost_md.c", "gost_md2012.c", "gosthash.c", "gosthash2012.c"],
 [("digest init/copy/cleanup callbacks", "gost_md.c, gost_md2012.c")])

prop("M01", "GOST 28147-89 MAC equals the standard for every message and split",
 "For every key, parameter set, message and output size from 1 to 8 bytes, gost-mac and gost-mac-12 return the MAC that GOST 28147-89 and RFC 4357 define, with key meshing applied where the parameter set requires it. The result does not depend on how the message was split into updates. The library functions gost_mac and gost_mac_iv return the same MAC, without meshing, cut to any number of bits.",
 ["inputs", "histories"], "all keys, messages (lengths around 8 and 1024 bytes in particular), partitions, MAC sizes, parameter sets",
 KAT + "lengths and splits near one block and near the meshing boundary are not covered.",
 ["gost_crypt.c", "gost89.c", "gost_pmeth.c"],
 [("imit update/final", "gost_crypt.c: gost_imit_update, gost_imit_final, mac_block_mesh; gost89.c: mac_block, get_mac")])

prop("M02", "Magma and Kuznyechik OMAC equal GOST R 34.13-2015 for every input",
 "For every key, message, split and output size from 1 byte to the block size, magma-mac and kuznyechik-mac return the leading bytes of the OMAC (CMAC) that GOST R 34.13-2015 defines.",
 ["inputs", "histories"], "all keys, messages including empty and block multiples, partitions, output sizes",
 KAT + "two vectors per cipher.",
 ["gost_omac.c", "gost_pmeth.c"],
 [("CMAC over the engine's CBC ciphers", "gost_omac.c: omac_imit_update, omac_imit_final, omac_imit_ctrl")])

prop("M03", "OMAC-ACPKM equals RFC 8645 for every input and section setting",
 "For every key, message, split, MAC section size and ACPKM frequency accepted, the kuznyechik-ctr-acpkm-omac MAC equals the OMAC-ACPKM of RFC 8645, truncated to the requested size.",
 ["inputs", "histories", "configurations"], "all keys, messages around section multiples, partitions, section sizes and master-key frequencies, output sizes",
 "Two RFC vectors are tested.",
 ["gost_omac_acpkm.c"],
 [("section key material derivation, last-block handling", "gost_omac_acpkm.c: CMAC_ACPKM_Mesh, CMAC_ACPKM_Update, CMAC_ACPKM_Final")])

prop("M04", "MAC contexts re-key, copy and restart without residue",
 "For every MAC, whatever happened before on a context, re-initialising and setting a key gives the MAC of exactly the bytes fed since; a copied context and its original continue independently; and MAC keys set as raw, as hex, or via a key object give identical MACs of the requested size. Using a MAC without a key, with a key of the wrong length, or with an unsupported size is refused.",
 ["histories", "configurations"], "all sequences of init, set-key, set-size, TLS-tree, update, copy, final over several contexts; all key sources",
 "Each test computes one MAC with one fresh context.",
 ["gost_crypt.c", "gost_omac.c", "gost_omac_acpkm.c", "gost_pmeth.c"],
 [("MAC ctrl and copy callbacks", "gost_imit_ctrl, omac_imit_ctrl, omac_acpkm_imit_ctrl, pkey_gost_mac_ctrl*, pkey_gost_omac_ctrl*")])

prop("K01", "CryptoPro and RFC 4357 key wrapping is exact, reversible and authenticated",
 "Wrapping a 32-byte session key under any key-encryption key and UKM gives exactly the blob RFC 4357 defines (with and without CryptoPro diversification), and unwrapping returns the session key. Unwrapping a blob with any byte of the wrapped key or its MAC altered fails.",
 ["inputs"], "all KEKs, UKMs, session keys, S-box sets, all non-identical modifications of the blob",
 "Key wrapping is exercised only indirectly by encryption tests with random keys; nothing checks the blob or its rejection.",
 ["gost_keywrap.c", "gost89.c"],
 [("diversification, wrap, unwrap", "gost_keywrap.c: keyDiversifyCryptoPro, keyWrapCryptoPro, keyUnwrapCryptoPro")])

prop("K02", "KExp15/KImp15 export is exact, reversible and authenticated",
 "For every shared key, pair of cipher and MAC keys and IV, KExp15 (Magma and Kuznyechik) gives exactly the exported value the recommendation defines, and KImp15, as well as the key-wrap ciphers built on them, return the original key. Import of any altered, truncated or extended value, or under any other key or IV, fails without returning the key and without memory errors.",
 ["inputs"], "all keys, IVs, shared-key lengths, both block ciphers, all modifications and lengths of the exported value",
 "One vector per cipher is tested.",
 ["gost_keyexpimp.c", "gost_crypt.c", "gost_grasshopper_cipher.c"],
 [("export/import", "gost_keyexpimp.c: gost_kexp15, gost_kimp15"), ("wrap ciphers", "gost_crypt.c: magma_cipher_do_wrap; gost_grasshopper_cipher.c: kuznyechik_wrap_*")])

prop("K03", "Key derivation trees match their specifications for every input",
 "KDF_TREE_GOSTR3411_2012_256 gives the specified output for every key, label, seed, output length and counter width, and TLSTREE gives the specified record key for every root key, cipher and 64-bit sequence number; the same derivation applied through the cipher and MAC controls selects the same record keys.",
 ["inputs", "histories"], "all keys, labels, seeds, output lengths that are multiples of the digest size, counter widths 1-4; all sequence numbers, in any order",
 "One KDF vector is tested and the TLSTREE program is not even run by the test suite; sequence numbers beyond the first tree mask are never reached.",
 ["gost_keyexpimp.c", "gost_crypt.c", "gost_grasshopper_cipher.c", "gost_omac.c", "gost_omac_acpkm.c"],
 [("KDF and TLSTREE", "gost_keyexpimp.c: gost_kdftree2012_256, gost_tlstree"), ("EVP_CTRL_TLSTREE handlers", "gost_grasshopper_cipher.c, gost_crypt.c, gost_omac.c")])

prop("E01", "Curve arithmetic agrees with the group law on every supported curve",
 "For every supported parameter set, multiplying the base point, multiplying an arbitrary point, and the two-scalar combination used in verification all return the mathematically correct curve point for every scalar that fits the field width and every point (the arbitrary-point routine, which serves key agreement, includes the cofactor 4 on the two curves that have it), including zero, one, values near, equal to or above the group order, points of small order, and coinciding or opposite points.",
 ["inputs"], "all scalars (including adversarial recodings), all points on all supported curves, including the point at infinity",
 "The curve tests multiply each generator by the order and a few random scalars; recoding edge cases have probability near 2^-w or far less.",
 ["ecp_id_GostR3410_2001_CryptoPro_A_ParamSet.c", "ecp_id_GostR3410_2001_CryptoPro_B_ParamSet.c", "ecp_id_GostR3410_2001_CryptoPro_C_ParamSet.c", "ecp_id_GostR3410_2001_TestParamSet.c", "ecp_id_tc26_gost_3410_2012_256_paramSetA.c", "ecp_id_tc26_gost_3410_2012_512_paramSetA.c", "ecp_id_tc26_gost_3410_2012_512_paramSetB.c", "ecp_id_tc26_gost_3410_2012_512_paramSetC.c", "gost_ec_sign.c", "gost_params.c"],
 [("fixed-base, variable-base and double-scalar ladders", "ecp_id_*.c: point_mul_g, point_mul, point_mul_two"), ("dispatch", "gost_ec_sign.c: gost_ec_point_mul"), ("parameters", "gost_params.c; fill_GOST_EC_params")])

prop("E02", "Generated keys are valid and parameter sets are the standard ones",
 "Every parameter-set name or OID the engine accepts selects exactly the standard curve, base point, order and cofactor, and an object generated with it reports that same parameter set even when aliased sets were used before. Every generated key has a private value in [1, q-1], and its public point is that multiple of the base point, whatever the random source delivers; checking a key succeeds for valid keys only.",
 ["inputs", "configurations", "histories"], "all parameter-set spellings in all orders, all random-source outputs including values at or above the order and zero",
 "Tests generate a key or two per parameter set with the real random source.",
 ["gost_ec_sign.c", "gost_pmeth.c", "gost_params.c"],
 [("keygen", "gost_ec_sign.c: gost_ec_keygen, gost_ec_compute_public, fill_GOST_EC_params"), ("paramset strings", "gost_pmeth.c: pkey_gost_ec_ctrl_str_256/512")],
 state=[("cached EC_GROUP", "shared per parameter set, relabelled for aliases", "R3410_ec_params.group")])

prop("E03", "Every signature produced is valid under the standard, for any digest",
 "For every key, digest value and random-source output, signing succeeds with a signature of the fixed size for the key, in the standard's byte layout, whose r and s lie in [1, q-1] and satisfy the GOST R 34.10 verification equation evaluated independently; it is never produced from an all-zero nonce or with r or s equal to zero. The engine itself always verifies it.",
 ["inputs", "fault_sequences"], "all private keys, all digests (including zero and multiples of the order), all nonces a random source may deliver",
 "A few signatures with random nonces are verified by the same code that made them; short r or s, zero digests and retry paths have negligible probability.",
 ["gost_ec_sign.c", "gost_pmeth.c"],
 [("signing loop", "gost_ec_sign.c: gost_ec_sign"), ("packing", "gost_pmeth.c: pack_sign_cp")])

prop("E04", "Signature verification accepts exactly the valid signatures",
 "Verification succeeds if and only if the signature has the exact size for the key, r and s are in [1, q-1], and the GOST R 34.10 equation holds for that digest and public key; any altered signature, digest or key, out-of-range or re-encoded value is rejected. Verification of hostile input never crashes or reads out of bounds.",
 ["inputs"], "all byte strings offered as signatures, all digests of the right size, all public keys on all curves",
 "Only genuine signatures and one or two corrupted ones are tested.",
 ["gost_ec_sign.c", "gost_pmeth.c"],
 [("range checks and equation", "gost_ec_sign.c: gost_ec_verify"), ("unpacking", "gost_pmeth.c: unpack_cp_signature, pkey_gost_ec_cp_verify")])

prop("E05", "Key agreement is symmetric and equals the specification",
 "For any two key pairs on the same parameter set and any UKM, both parties derive the same shared key, and it equals VKO GOST R 34.10-2001/2012 (256 and 512 bit) or KEG as specified, including the treatment of the cofactor, short or zero UKM values and leading zero bytes. Peer keys on a different parameter set or missing keys are refused.",
 ["inputs", "configurations"], "all key pairs on all curves, all UKM values and lengths, all derivation variants",
 "A handful of fixed derivation vectors are tested.",
 ["gost_ec_keyx.c", "gost_keyexpimp.c", "gost_pmeth.c"],
 [("VKO and KEG", "gost_ec_keyx.c: VKO_compute_key, gost_keg, pkey_gost_ec_derive")])

prop("T01", "Key transport delivers the session key to the right recipient only",
 "Encrypting a 32-byte session key to any GOST public key (CryptoPro/RFC 4490 and the Kuznyechik and Magma PSKeyTransport variants) gives a blob that the matching private key decrypts to exactly that key, in the standard structure. A blob altered in any security-relevant part, or opened with another private key, fails to decrypt or never yields the original key.",
 ["inputs", "configurations"], "all key pairs, curves, session keys, UKMs (given or generated), transport variants, all alterations of the blob",
 "Only a few CMS/S-MIME and pkeyutl runs with default settings are tested.",
 ["gost_ec_keyx.c", "gost_keywrap.c", "gost_keyexpimp.c", "gost_asn1.c", "gost_pmeth.c"],
 [("encrypt/decrypt", "gost_ec_keyx.c: pkey_gost_encrypt, pkey_gost_decrypt, pkey_GOST_ECcp_*, pkey_gost2018_*")])

prop("T02", "Hostile key-transport data is refused without crashing",
 "Decrypting any byte string as a GOST key-transport blob, including structurally valid ASN.1 with fields of wrong length, wrong type, foreign curves or missing parts, ends with an error or a key, and never aborts the process, reads or writes out of bounds, or leaks the caller's output buffer past the reported length.",
 ["inputs"], "all byte strings, in particular all structure-preserving mutations of valid blobs, for all key types and transport variants",
 "No malformed blob is tested.",
 ["gost_ec_keyx.c", "gost_asn1.c", "gost_keywrap.c", "gost_keyexpimp.c"],
 [("ASN.1 decoding and length checks", "gost_ec_keyx.c: pkey_GOST_ECcp_decrypt, pkey_gost2018_decrypt")])

prop("S01", "Keys survive encoding and decoding and use the standard encodings",
 "Encoding any GOST private key, public key or parameters and decoding the result gives an equal key, in every supported private-key format (raw little-endian, OCTET STRING, INTEGER, masked with any number of masks, and the legacy output mode). The produced encodings are byte for byte those RFC 4491, RFC 9215 and RFC 9548 define, including key sizes with leading zero bytes and the presence or absence of the digest parameter for each curve.",
 ["inputs", "configurations"], "all private and public keys on all parameter sets and key types, all supported private-key formats",
 "A few fixed keys are parsed and one key per type is re-encoded; keys with leading zeros and masked keys are rare.",
 ["gost_ameth.c", "gost_asn1.c", "gost_ctl.c"],
 [("PKCS8 and SPKI codecs", "gost_ameth.c: priv_decode_gost, priv_encode_gost, unmask_priv_key, pub_decode_gost_ec, pub_encode_gost_ec, encode_gost_algor_params, decode_gost_algor_params")])

prop("S02", "Hostile key encodings are refused without crashing",
 "Decoding any byte string as a GOST private key, public key or certificate key never crashes, reads out of bounds or loops, and a public key that is accepted lies on the curve of its parameter set. Whatever is accepted can be printed, compared, copied, re-encoded and used without memory errors, and re-encoding and decoding it again gives an equal key.",
 ["inputs"], "all byte strings, in particular structure-preserving mutations of valid PKCS8, SPKI and parameter encodings",
 "No malformed encodings are tested.",
 ["gost_ameth.c", "gost_asn1.c", "gost_ec_sign.c"],
 [("length and type checks in decoders", "gost_ameth.c: priv_decode_gost, pub_decode_gost_ec, decode_gost_algor_params")])

prop("X01", "Certificates, CMS, PKCS#7 and PKCS#12 round-trip for every content",
 "For every GOST key type, parameter set and content, certificates and requests signed with the engine verify and fail to verify when altered; CMS and PKCS#7 signed and enveloped messages (key transport and, where supported, key agreement) open to exactly the original content for the recipient; and PKCS#12 files open with the right password only.",
 ["inputs", "configurations"], "all contents and lengths, key types, parameter sets, recipients, content ciphers, digest and MAC combinations the engine offers",
 "The TCL and Perl tests cover one short file per combination.",
 ["gost_ameth.c", "gost_pmeth.c", "gost_ec_keyx.c", "gost_crypt.c", "gost_md2012.c"],
 [("CMS/PKCS7 controls", "gost_ameth.c: pkey_ctrl_gost, gost_cms_set_shared_info")])

prop("X02", "TLS connections with GOST suites deliver exactly the data sent",
 "For every GOST TLS 1.2 cipher suite and server key type, the handshake completes and any sequence of application writes in both directions is delivered unaltered and in order; a record altered in transit is never delivered as data.",
 ["inputs", "histories", "configurations"], "all suites and curves, all sequences of write sizes in both directions, including enough records to cross key-tree and meshing boundaries; alterations of any record",
 "The TLS test sends one short message per suite.",
 ["gost_crypt.c", "gost_grasshopper_cipher.c", "gost_omac.c", "gost_ec_keyx.c", "gost_keyexpimp.c", "gost_pmeth.c"],
 [("record ciphers, MAC and TLSTREE re-keying", "EVP_CTRL_TLSTREE handlers; gost_tlstree; pkey_gost_encrypt/decrypt")])

prop("U01", "gostsum and gost12sum print and check correct digests for any files",
 "For files of any content, size and name (without line breaks), gostsum and gost12sum print the correct digest followed by the name, and check mode exits successfully exactly when every listed file is readable and matches. Output that cannot be written, input that cannot be read and wrong options end in failure. Malformed or truncated check lists never crash them.",
 ["inputs", "configurations"], "all file contents and sizes (including around buffer sizes), names, options (256/512 bit, test parameter set, stdin list), check lists correct, corrupted or malformed",
 "One TCL script checks a few small files.",
 ["gostsum.c", "gost12sum.c", "gosthash.c", "gosthash2012.c"],
 [("stream hashing and list parsing", "gostsum.c, gost12sum.c: hash_stream, hash_file, get_line")])

prop("P01", "The provider computes the same results as the engine",
 "For every cipher, digest and MAC offered both ways, the OpenSSL 3 provider interface returns the same output, lengths, tags and verdicts as the engine for the same key, IV, data, split and settings, including duplicated contexts and MAC sizes.",
 ["inputs", "histories"], "all algorithms offered by the provider, all inputs, partitions and duplications",
 "The provider is not built by default here (its support library is absent), so nothing tests it.",
 ["gost_prov.c", "gost_prov_cipher.c", "gost_prov_digest.c", "gost_prov_mac.c"],
 [("wrappers over the engine implementations", "gost_prov_cipher.c: cipher_update, cipher_dupctx; gost_prov_mac.c: mac_final, mac_dupctx; gost_prov_digest.c")])

prop("N01", "Control strings and commands take effect exactly or are refused",
 "Every documented control (paramset, ukmhex, vko, key, hexkey, size, engine CRYPT_PARAMS / PBE_PARAMS / GOST_PK_FORMAT, S-box, IV-length and tag controls) given a valid value has exactly the documented effect on following operations. An invalid value is refused with an error, leaves the earlier setting in force, and never crashes or reads out of bounds. Engine settings are looked up when used: the environment takes precedence at the time of setting, an unknown CRYPT_PARAMS makes the ciphers that need it fail, an unknown PBE_PARAMS or GOST_PK_FORMAT means the default.",
 ["inputs", "histories", "configurations"], "all strings and lengths as values, all sequences of valid and invalid controls before an operation",
 "A few valid control values are used by tests; invalid ones almost never.",
 ["gost_pmeth.c", "gost_ctl.c", "gost_crypt.c", "gost_eng.c"],
 [("control parsing", "gost_pmeth.c: *_ctrl_str; gost_ctl.c: gost_control_func, gost_set_default_param; gost_crypt.c: gost_cipher_ctl, gost_cipher_set_param")])

prop("R01", "Every operation cycle releases all the memory it allocated",
 "After any complete cycle of creating, using (successfully or not), copying, re-keying and freeing cipher, digest, MAC and key objects, no memory allocated during the cycle remains allocated beyond one-time caches. Nothing is freed twice or used after being freed.",
 ["histories", "fault_sequences"], "all operation sequences including failing operations, malformed inputs and abandoned contexts",
 "Tests do not look at allocations, and error paths are rarely executed.",
 ["gost_crypt.c", "gost_grasshopper_cipher.c", "gost_ec_keyx.c", "gost_ameth.c", "gost_omac.c", "gost_omac_acpkm.c", "gost_keyexpimp.c", "gost_gost2015.c"],
 [("cleanup callbacks and error paths", "all files above")])

prop("Z01", "Key material is erased before the memory holding it is released",
 "No block of memory that the engine or provider releases (heap memory: context state, key objects, encodings, scratch space) still contains a key: a cipher or MAC key, a key derived from one (ACPKM sections, key trees, TLS records), a private key in any encoding, masked or not, its mask, the one-time secret of a signature, a session key, an agreed key or the shared point it comes from. It holds for every history of creating, using, copying, re-keying, abandoning and releasing objects, and also when an operation fails.",
 ["histories", "faults"], "all histories of operations on cipher, MAC and key objects of every kind, also with a failing allocation; the stack is not covered",
 "Results do not depend on what released memory holds, so no test can notice it.",
 ["gost_crypt.c", "gost_grasshopper_cipher.c", "gost_omac.c", "gost_omac_acpkm.c", "gost_pmeth.c", "gost_ameth.c", "gost_ec_keyx.c", "gost_ec_sign.c", "gost_gost2015.c", "gost_prov_mac.c", "gost_prov_cipher.c"],
 [("erasure of context state", "gost_crypt.c, gost_grasshopper_cipher.c, gost_omac*.c: cleanup functions"), ("erasure of private keys", "gost_ameth.c: priv_decode_gost, priv_encode_gost; gost_ec_sign.c: gost_ec_keygen"), ("erasure of session and MAC keys", "gost_pmeth.c, gost_ec_keyx.c, gost_gost2015.c")])

prop("L01", "Concurrent use of separate objects gives the same results as sequential use",
 "Threads that each use their own contexts, with keys of their own or with keys they share without changing them, through the engine or through the provider (loaded once, or once in a library context of each thread), obtain the same results as when the operations run one after another, and nothing is released twice or left behind because of the order in which they ran.",
 ["schedules"], "all interleavings of threads generating, parsing and using keys, ciphers, digests and MACs, and of threads loading, using and unloading the provider",
 "No test uses threads.",
 ["gost_ec_sign.c", "gost_ctl.c", "gost_grasshopper_core.c", "gost_prov.c", "gost_prov_cipher.c", "gost_prov_digest.c", "gost_prov_mac.c"],
 [("shared caches", "gost_ec_sign.c: fill_GOST_EC_params (params->group); gost_ctl.c: gost_params"), ("shared engine of the provider", "gost_prov.c: populate_gost_engine; gost_prov_cipher.c, gost_prov_digest.c, gost_prov_mac.c: GOST_prov_init_*")])

prop("G01", "The engine and provider can be loaded, shared, released and reloaded",
 "Any sequence of loading the engine (listed or not; a second load while loaded is refused), taking and dropping references, making it default, unregistering, using its digests, ciphers, MACs and keys in contexts that outlive the caller's references, changing settings, releasing it and loading it again leaves the process working with correct results. Once it is unregistered and its last reference is gone its names are no longer offered, nothing released is used, settings are back to their defaults and it can be loaded again. A load that fails for want of memory leaves nothing behind, and a later one succeeds. The provider may be loaded and unloaded in several library contexts in any order, also only in a non-default one, and engine and provider in one process do not disturb each other. After library clean-up nothing they allocated remains.",
 ["histories", "configurations"], "all histories of load, reference, registration, use and release operations, over several generations of the engine and several library contexts with the provider",
 "Tests load the engine once per process and never unload it; nothing loads the provider here.",
 ["gost_eng.c", "gost_prov.c", "gost_prov_cipher.c", "gost_prov_digest.c", "gost_prov_mac.c", "gost_ec_sign.c", "gost_omac.c"],
 [("engine set-up and tear-down", "gost_eng.c: bind_gost_engine, gost_engine_destroy, forget_names"), ("provider set-up and tear-down", "gost_prov.c: OSSL_provider_init, gost_teardown"), ("shared caches", "gost_ec_sign.c: free_cached_groups; gost_ctl.c: gost_param_free")])

prop("F01", "Operations that meet a fault fail cleanly or give the right result",
 "When an allocation made while engine code runs fails (one, or all from some point on), or the random source fails, an operation of the engine or provider (key generation, signing, verification, key transport and agreement, encodings, printing, ciphers, digests, MACs, derivations, certificates and messages, settings) either fails and says so or gives exactly the result it gives without the fault. It never crashes, never accepts what is to be refused, never delivers a value that was not calculated or output with a part missing, leaves the objects of the caller usable and as they were, lets the same operation, also on the same context set up again, succeed afterwards, and leaves nothing behind each time it fails.",
 ["inputs", "faults"], "all operations over all key types, parameter sets, ciphers, digests and MACs, and all points at which an allocation or the random source may fail in them",
 "Tests never run with a failing allocation, so none of the paths behind one is ever taken.",
 ["gost_ec_sign.c", "gost_ec_keyx.c", "gost_ameth.c", "gost_pmeth.c", "gost_crypt.c", "gost_grasshopper_cipher.c", "gost_omac.c", "gost_omac_acpkm.c", "gost_keyexpimp.c", "gost_ctl.c", "gost_prov_cipher.c", "gost_prov_digest.c", "gost_prov_mac.c"],
 [("verification", "gost_ec_sign.c: gost_ec_verify"), ("encodings", "gost_ameth.c: encode_gost_algor_params, priv_encode_gost, pkey_ctrl_gost"), ("MACs", "gost_omac.c: omac_imit_final, gost_omac_acpkm.c"), ("provider contexts", "gost_prov_cipher.c: cipher_dupctx, gost_prov_mac.c: mac_dupctx")])

prop("Q01", "Secrets do not decide what the engine executes",
 "For fixed public inputs (algorithm, parameter set, lengths, points, IVs, ways of splitting the data) the sequence of code blocks the engine executes in key generation, signing, multiplication of points, key agreement, key transport, encoding and decoding of private keys, ciphers, MACs, hashes and key derivations does not depend on the private keys, nonces, symmetric keys or data; neither does the rejection of a forged tag, MAC or wrapped key depend on where it differs from the right one. In multiplication by a secret scalar, signing and key generation on the curves the engine has code of its own for, the memory addresses it accesses do not depend on the secret either. Functions of OpenSSL and the table look-ups of symmetric algorithms are not covered.",
 ["inputs"], "all key types, parameter sets, ciphers, MACs and hashes, and all pairs of secrets of the same size",
 "Tests look at results. Code whose path depends on a key gives the right result for every key; it takes two runs that differ only in the secret to see it.",
 ["ecp_id_GostR3410_2001_CryptoPro_A_ParamSet.c", "ecp_id_GostR3410_2001_CryptoPro_B_ParamSet.c", "ecp_id_GostR3410_2001_CryptoPro_C_ParamSet.c", "ecp_id_GostR3410_2001_TestParamSet.c", "ecp_id_tc26_gost_3410_2012_256_paramSetA.c", "ecp_id_tc26_gost_3410_2012_512_paramSetA.c", "ecp_id_tc26_gost_3410_2012_512_paramSetB.c", "ecp_id_tc26_gost_3410_2012_512_paramSetC.c", "gost_ec_sign.c", "gost_ec_keyx.c", "gost_gost2015.c", "gost_keyexpimp.c", "gost_keywrap.c", "gost_crypt.c", "gost_grasshopper_cipher.c", "gost_grasshopper_math.h", "gost_omac_acpkm.c", "gost89.c"],
 [("multiplication", "ecp_*.c: fixed_smul_cmb, var_smul_rwnaf, scalar_rwnaf"), ("tags and MACs", "gost_gost2015.c: gost2015_final_call, gost_mgm128_finish, gost_keyexpimp.c: gost_kimp15, gost_keywrap.c: keyUnwrapCryptoPro"), ("field of MGM", "gost_crypt.c: gf64_mul, gost_grasshopper_cipher.c: gf128_mul_uint64"), ("subkeys of OMAC-ACPKM", "gost_omac_acpkm.c: make_kn")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
