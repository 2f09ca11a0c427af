//! C13: a key is used only as its attributes allow
use crate::h_aes::{reference, CBC_PAD, ECB};
use crate::keys::*;
use crate::p11::*;
use crate::*;
use std::ptr::null_mut;

/// what is done with the key
#[derive(Clone, Copy, PartialEq)]
enum F { Enc, Dec, Sign, Ver, VerSig, MEnc, MDec, Wrap, Unwrap, Derive }
use F::*;
impl F {
    fn flag(self) -> CK_ATTRIBUTE_TYPE {
        match self { Enc | MEnc => CKA_ENCRYPT, Dec | MDec => CKA_DECRYPT, Sign => CKA_SIGN, Ver | VerSig => CKA_VERIFY, Wrap => CKA_WRAP, Unwrap => CKA_UNWRAP, Derive => CKA_DERIVE }
    }
}
const ECPUB: u64 = 20;
/// function, mechanism, parameter shape, kinds of key that can do it
const OPS: &[(F, CK_ULONG, u8, &[u64])] = &[
    (Enc, CKM_AES_ECB, 0, &[AES]),
    (Dec, CKM_AES_CBC_PAD, 1, &[AES]),
    (Enc, CKM_AES_CTR, 2, &[AES]),
    (Dec, CKM_AES_CTS, 1, &[AES]),
    (MEnc, CKM_AES_GCM, 0, &[AES]),
    (MDec, CKM_AES_GCM, 0, &[AES]),
    (Sign, CKM_AES_CMAC, 0, &[AES]),
    (Ver, CKM_AES_CMAC, 0, &[AES]),
    (VerSig, CKM_AES_CMAC, 0, &[AES]),
    (Sign, CKM_AES_CMAC_GENERAL, 3, &[AES]),
    (Wrap, CKM_AES_CBC_PAD, 1, &[AES]),
    (Unwrap, CKM_AES_CBC_PAD, 1, &[AES]),
    (Derive, CKM_AES_ECB_ENCRYPT_DATA, 4, &[AES]),
    // 13
    (Sign, CKM_SHA256_HMAC, 0, &[GENERIC, HMAC]),
    (Ver, CKM_SHA256_HMAC, 0, &[GENERIC, HMAC]),
    (VerSig, CKM_SHA256_HMAC, 0, &[GENERIC, HMAC]),
    (Sign, CKM_SHA256_HMAC_GENERAL, 3, &[GENERIC, HMAC]),
    (Sign, CKM_SHA512_HMAC, 0, &[GENERIC]),
    (Sign, CKM_HOTP, 5, &[HOTP]),
    (Ver, CKM_HOTP, 5, &[HOTP]),
    // 20
    (Derive, CKM_CONCATENATE_BASE_AND_DATA, 4, &[AES, GENERIC, HKDF, HMAC]),
    (Derive, CKM_XOR_BASE_AND_DATA, 4, &[AES, GENERIC, HKDF, HMAC]),
    (Derive, CKM_SHA256_KEY_DERIVATION, 0, &[AES, GENERIC, HKDF, HMAC]),
    (Derive, CKM_HKDF_DERIVE, 6, &[GENERIC, HKDF]),
    (Derive, CKM_SP800_108_COUNTER_KDF, 7, &[GENERIC, HMAC]),
    (Derive, CKM_EXTRACT_KEY_FROM_KEY, 8, &[AES, GENERIC, HKDF, HMAC]),
    // 26
    (Enc, CKM_RSA_PKCS, 0, &[RSAPUB]),
    (Dec, CKM_RSA_PKCS, 0, &[RSA]),
    (Sign, CKM_RSA_PKCS, 0, &[RSA]),
    (Ver, CKM_RSA_PKCS, 0, &[RSAPUB]),
    (Sign, CKM_SHA256_RSA_PKCS, 0, &[RSA]),
    (Ver, CKM_SHA256_RSA_PKCS, 0, &[RSAPUB]),
    (VerSig, CKM_SHA256_RSA_PKCS, 0, &[RSAPUB]),
    (Enc, CKM_RSA_PKCS_OAEP, 9, &[RSAPUB]),
    (Dec, CKM_RSA_PKCS_OAEP, 9, &[RSA]),
    (Sign, CKM_SHA256_RSA_PKCS_PSS, 10, &[RSA]),
    (Wrap, CKM_RSA_PKCS, 0, &[RSAPUB]),
    (Unwrap, CKM_RSA_PKCS, 0, &[RSA]),
    // 38
    (Sign, CKM_ECDSA, 0, &[EC]),
    (Sign, CKM_ECDSA_SHA256, 0, &[EC]),
    (Ver, CKM_ECDSA, 0, &[ECPUB]),
    (Ver, CKM_ECDSA_SHA256, 0, &[ECPUB]),
    (VerSig, CKM_ECDSA_SHA256, 0, &[ECPUB]),
    (Derive, CKM_ECDH1_DERIVE, 11, &[EC, MONT]),
    (Derive, CKM_DH_PKCS_DERIVE, 12, &[DH]),
];
fn template(k: u64) -> T {
    if k == ECPUB {
        let mut p = vec![0x04, 65, 4];
        p.extend_from_slice(&pat(64, 0x55));
        return T::new().ul(CKA_CLASS, CKO_PUBLIC_KEY).ul(CKA_KEY_TYPE, CKK_EC).bytes(CKA_EC_PARAMS, P256).bytes(CKA_EC_POINT, &p);
    }
    kind(k).t
}
/// usage flags a key of this kind can carry
fn flags(k: u64) -> &'static [CK_ATTRIBUTE_TYPE] {
    match k {
        AES | GENERIC | HKDF | HMAC => &[CKA_ENCRYPT, CKA_DECRYPT, CKA_SIGN, CKA_VERIFY, CKA_WRAP, CKA_UNWRAP, CKA_DERIVE],
        HOTP => &[CKA_SIGN, CKA_VERIFY],
        RSA => &[CKA_DECRYPT, CKA_SIGN, CKA_UNWRAP, CKA_SIGN_RECOVER],
        RSAPUB => &[CKA_ENCRYPT, CKA_VERIFY, CKA_WRAP, CKA_VERIFY_RECOVER],
        ECPUB => &[CKA_VERIFY, CKA_ENCRYPT, CKA_WRAP],
        _ => &[CKA_SIGN, CKA_DERIVE, CKA_UNWRAP],
    }
}
/// p0: first operation; p1: number of operations; p2: CKA_ALLOWED_MECHANISMS given
#[unsafe(no_mangle)]
pub extern "C" fn h_usage() {
    boot("plain0");
    let first = vf::param(0, 0) as usize;
    let cnt = vf::param(1, 1) as u64;
    let with_list = vf::param(2, 0) == 1;
    let s = open(true);
    let rv = login(s, CKU_USER, USER_PIN);
    check!(rv == CKR_OK, "login");
    let (fun, mt, shape, kinds) = OPS[first + vf::choose_z(cnt, z!("op")) as usize];
    const KINDS: [u64; 11] = [AES, GENERIC, HOTP, RSA, EC, DH, MONT, HKDF, HMAC, RSAPUB, ECPUB];
    let k = KINDS[vf::choose_z(11, z!("kind")) as usize];
    // the flag asked for and all the others
    let (mine, others) = (vf::u8_z(z!("flag")), vf::u8_z(z!("others")));
    let mut t = template(k);
    let mut has = false;
    for f in flags(k) {
        let v = if *f == fun.flag() { has = true; mine } else { others };
        t = t.bb(*f, v);
    }
    t = t.b(CKA_TOKEN, false);
    if k != RSAPUB && k != ECPUB { t = t.b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true); }
    if k == HOTP { t = t.ul(CKA_OTP_FORMAT, CK_OTP_FORMAT_DECIMAL).ul(CKA_OTP_LENGTH, 6).ul(CKA_OTP_COUNTER_REQUIREMENT, CK_OTP_PARAM_OPTIONAL); }
    // the list of mechanisms the key is for: up to two, each the one used or another one
    let mut allowed = true;
    if with_list {
        let n = vf::choose_z(3, z!("nlist"));
        let mut l = Vec::new();
        let mut hit = false;
        for _ in 0..n {
            let m = vf::u64_z(z!("listed"));
            hit |= m == mt;
            l.extend_from_slice(&m.to_ne_bytes());
        }
        // an empty list is no list for some kinds of key: not claimed
        if n > 0 { t = t.bytes(CKA_ALLOWED_MECHANISMS, &l); allowed = hit; }
    }
    let mut key = 0;
    let rv = create(s, &mut t, &mut key);
    if with_list && k == HOTP && rv != CKR_OK { return; }
    vf::out(rv as u64); check!(rv == CKR_OK, "create the key");
    if rv != CKR_OK { return; }
    // another AES key with all uses, with the same value
    let mut ot = crate::ops::aes_key(false, false, 0x5a);
    let mut o = 0;
    let rv = create(s, &mut ot, &mut o);
    check!(rv == CKR_OK, "create");
    // parameters
    let mut iv = [3u8; 16];
    let mut ctr = CK_AES_CTR_PARAMS { ulCounterBits: 128, cb: [0; 16] };
    let mut len: CK_ULONG = 12;
    let mut d = [7u8; 16];
    let mut sd = CK_KEY_DERIVATION_STRING_DATA { pData: d.as_mut_ptr(), ulLen: 16 };
    let mut hk = CK_HKDF_PARAMS { bExtract: 1, bExpand: 1, prfHashMechanism: CKM_SHA256, ulSaltType: CKF_HKDF_SALT_NULL, pSalt: null_mut(), ulSaltLen: 0, hSaltKey: 0, pInfo: null_mut(), ulInfoLen: 0 };
    let mut cf = CK_SP800_108_COUNTER_FORMAT { bLittleEndian: 0, ulWidthInBits: 32 };
    let mut dp = [CK_PRF_DATA_PARAM { type_: CK_SP800_108_ITERATION_VARIABLE, pValue: &mut cf as *mut _ as *mut _, ulValueLen: size_of::<CK_SP800_108_COUNTER_FORMAT>() as CK_ULONG }];
    let mut kb = CK_SP800_108_KDF_PARAMS { prfType: CKM_SHA256_HMAC, ulNumberOfDataParams: 1, pDataParams: dp.as_mut_ptr(), ulAdditionalDerivedKeys: 0, pAdditionalDerivedKeys: null_mut() };
    let mut ext: CK_ULONG = 0;
    let mut oaep = CK_RSA_PKCS_OAEP_PARAMS { hashAlg: CKM_SHA256, mgf: CKG_MGF1_SHA256, source: CKZ_DATA_SPECIFIED, pSourceData: null_mut(), ulSourceDataLen: 0 };
    let mut pss = CK_RSA_PKCS_PSS_PARAMS { hashAlg: CKM_SHA256, mgf: CKG_MGF1_SHA256, sLen: 32 };
    // a public value that suits the key, whatever the mechanism
    let mut peer = if k == MONT { pat(32, 0x21) } else if k == DH { pat(256, 0x61) } else { let mut v = vec![4u8]; v.extend_from_slice(&pat(64, 0x21)); v };
    let mut ecdh = CK_ECDH1_DERIVE_PARAMS { kdf: CKD_NULL, ulSharedDataLen: 0, pSharedData: null_mut(), ulPublicDataLen: peer.len() as CK_ULONG, pPublicData: peer.as_mut_ptr() };
    let mut dhpub = if k == MONT || k == EC { peer.clone() } else { pat(256, 0x61) };
    let mut otp = CK_OTP_PARAMS { pParams: null_mut(), ulCount: 0 };
    let mut m = match shape {
        0 => mech(mt),
        1 => mech_b(mt, &mut iv),
        2 => mech_p(mt, &mut ctr),
        3 => mech_p(mt, &mut len),
        4 => mech_p(mt, &mut sd),
        5 => { let _ = &mut otp; mech_p(mt, &mut otp) }
        6 => mech_p(mt, &mut hk),
        7 => mech_p(mt, &mut kb),
        8 => mech_p(mt, &mut ext),
        9 => mech_p(mt, &mut oaep),
        10 => mech_p(mt, &mut pss),
        11 => mech_p(mt, &mut ecdh),
        _ => mech_b(mt, &mut dhpub),
    };
    let mut out = [0u8; 512];
    let mut n: CK_ULONG = 512;
    let mut h: H = 0;
    let rv = match fun {
        Enc => call!(C_EncryptInit(s, &mut m, key)),
        Dec => call!(C_DecryptInit(s, &mut m, key)),
        Sign => call!(C_SignInit(s, &mut m, key)),
        Ver => call!(C_VerifyInit(s, &mut m, key)),
        VerSig => call!(C_VerifySignatureInit(s, &mut m, key, out.as_mut_ptr(), match mt { CKM_AES_CMAC => 16, CKM_SHA256_RSA_PKCS => 128, CKM_ECDSA_SHA256 => 64, _ => 32 })),
        MEnc => call!(C_MessageEncryptInit(s, &mut m, key)),
        MDec => call!(C_MessageDecryptInit(s, &mut m, key)),
        Wrap => call!(C_WrapKey(s, &mut m, key, o, out.as_mut_ptr(), &mut n)),
        Unwrap => {
            let mut w = if mt == CKM_RSA_PKCS {
                let mut w = vec![0x99u8; 128];
                w[..3].copy_from_slice(&[2, 0, 16]);
                w
            } else { reference(CBC_PAD, &pat(16, 0x5a), &[3; 16], &[0; 5], 0, &[1u8; 16]) };
            let _ = ECB;
            let mut t = T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_AES).b(CKA_TOKEN, false);
            call!(C_UnwrapKey(s, &mut m, key, w.as_mut_ptr(), w.len() as CK_ULONG, t.p(), t.n(), &mut h))
        }
        Derive => {
            let mut t = T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_GENERIC_SECRET).ul(CKA_VALUE_LEN, 16).b(CKA_TOKEN, false);
            call!(C_DeriveKey(s, &mut m, key, t.p(), t.n(), &mut h))
        }
    };
    vf::out(rv as u64);
    let can = kinds.contains(&k);
    let expected = can & has & (mine != 0) & allowed;
    // AES wrapping also takes secret keys of other types: not claimed either way
    if mt == CKM_AES_CBC_PAD && (fun == Wrap || fun == Unwrap) && rv == CKR_OK && matches!(k, GENERIC | HKDF | HMAC | HOTP) {
        check!(has & (mine != 0) & allowed, "a key is used only for what it allows");
        return;
    }
    check!((rv == CKR_OK) == expected, "a key is used exactly for what it allows");
    if rv == CKR_OK { cover!("used"); return; }
    cover!("refused");
    crate::ops::untouched(&out);
    check!(h == 0, "no object from a refused call");
    // nothing was started
    let mut b = [0u8; 16];
    let rv = match fun {
        Enc => call!(C_EncryptUpdate(s, b.as_mut_ptr(), 16, out.as_mut_ptr(), &mut n)),
        Dec => call!(C_DecryptUpdate(s, b.as_mut_ptr(), 16, out.as_mut_ptr(), &mut n)),
        Sign => call!(C_Sign(s, b.as_mut_ptr(), 16, out.as_mut_ptr(), &mut n)),
        Ver => call!(C_Verify(s, b.as_mut_ptr(), 16, out.as_mut_ptr(), n)),
        VerSig => call!(C_VerifySignature(s, b.as_mut_ptr(), 16)),
        MEnc | MDec => if fun == MEnc { call!(C_MessageEncryptFinal(s)) } else { call!(C_MessageDecryptFinal(s)) },
        _ => CKR_OPERATION_NOT_INITIALIZED,
    };
    check!(rv == CKR_OPERATION_NOT_INITIALIZED, "a refused call starts nothing");
    expect!("used", "refused");
}

/// CKA_ALWAYS_AUTHENTICATE: every use of the key needs its own context specific login
/// p0: number of operations
#[unsafe(no_mangle)]
pub extern "C" fn h_always() {
    boot("plain0");
    let n = vf::param(0, 3);
    let s = open(true);
    let rv = login(s, CKU_USER, USER_PIN);
    check!(rv == CKR_OK, "login");
    let mut key = [0; 2];
    for i in 0..2 {
        let mut t = kind(RSA).t.b(CKA_TOKEN, false).b(CKA_PRIVATE, true).b(CKA_SIGN, true).b(CKA_DECRYPT, true).b(CKA_ALWAYS_AUTHENTICATE, i == 0);
        let rv = create(s, &mut t, &mut key[i]);
        check!(rv == CKR_OK, "create");
    }
    // per operation (sign, decrypt): 0 none, 1 waits for the PIN, 2 can go on
    let mut st = [0u8; 2];
    // who asked last
    let mut order: Vec<usize> = Vec::new();
    let mut other = false;
    let mut search = false;
    for _ in 0..n {
        let op = vf::choose_z(11, z!("op"));
        let mut b = [5u8; 16];
        let mut c = vec![0x3cu8; 128];
        c[..3].copy_from_slice(&[2, 0, 16]);
        let mut out = [0u8; 128];
        let mut l: CK_ULONG = 128;
        match op {
            0 | 1 => {
                let mut m = mech(CKM_RSA_PKCS);
                let rv = call!(C_SignInit(s, &mut m, key[op as usize]));
                check!((rv == CKR_OK) == (st[0] == 0), "sign init");
                if rv == CKR_OK { st[0] = 1 + (op == 1) as u8; if op == 0 { order.push(0); } }
            }
            2 | 3 => {
                let mut m = mech(CKM_RSA_PKCS);
                let rv = call!(C_DecryptInit(s, &mut m, key[op as usize - 2]));
                check!((rv == CKR_OK) == (st[1] == 0), "decrypt init");
                if rv == CKR_OK { st[1] = 1 + (op == 3) as u8; if op == 2 { order.push(1); } }
            }
            4 => {
                let mut m = mech(CKM_SHA256);
                let rv = call!(C_DigestInit(s, &mut m));
                check!((rv == CKR_OK) == !other, "digest init");
                other = true;
            }
            5 => {
                let mut t = T::new();
                let rv = call!(C_FindObjectsInit(s, t.p(), 0));
                check!(rv == if search { CKR_OPERATION_ACTIVE } else { CKR_OK } || rv == CKR_ARGUMENTS_BAD, "find init");
                let mut t = T::new().ul(CKA_CLASS, CKO_DATA);
                if rv == CKR_ARGUMENTS_BAD { let rv = call!(C_FindObjectsInit(s, t.p(), 1)); check!((rv == CKR_OK) == !search, "find init"); }
                search = true;
            }
            6 => {
                let mut pin = *b"abcdefgh";
                let at = vf::choose_z(2, z!("at")) as usize * 7;
                pin[at] = vf::u8_z(z!("pin"));
                let right = &pin[..] == USER_PIN;
                let rv = login(s, CKU_CONTEXT_SPECIFIC, &pin);
                if order.is_empty() { check!(rv == CKR_OPERATION_NOT_INITIALIZED, "nothing waits for a login"); }
                else {
                    check!((rv == CKR_OK) == right, "the PIN of the user authorises");
                    if right { let i = order.pop().unwrap(); st[i] = 2; cover!("authorised"); } else { check!(rv == CKR_PIN_INCORRECT, "wrong PIN"); cover!("wrong pin"); }
                }
            }
            7 => {
                let rv = call!(C_Sign(s, b.as_mut_ptr(), 16, out.as_mut_ptr(), &mut l));
                used(0, rv, &mut st, &out);
            }
            8 => {
                if st[0] == 2 { continue; }
                let rv = call!(C_SignFinal(s, out.as_mut_ptr(), &mut l));
                { check!(rv == if st[0] == 0 { CKR_OPERATION_NOT_INITIALIZED } else { CKR_USER_NOT_LOGGED_IN }, "no use of the key before the login"); crate::ops::untouched(&out); }
            }
            9 => {
                let rv = call!(C_Decrypt(s, c.as_mut_ptr(), 128, out.as_mut_ptr(), &mut l));
                used(1, rv, &mut st, &out);
            }
            _ => {
                // cancel the signature
                let rv = call!(C_SignInit(s, null_mut(), 0));
                check!(rv == CKR_OK, "cancel");
                st[0] = 0;
                order.retain(|x| *x != 0);
            }
        }
        if st[0] == 1 || st[1] == 1 { cover!("waiting"); }
    }
    cover!("end");
    expect!("end", "waiting", "authorised", "wrong pin");
}
fn used(i: usize, rv: CK_RV, st: &mut [u8; 2], out: &[u8]) {
    match st[i] {
        0 => check!(rv == CKR_OPERATION_NOT_INITIALIZED, "no operation"),
        1 => { check!(rv == CKR_USER_NOT_LOGGED_IN, "no use of the key before the login"); crate::ops::untouched(out); }
        _ => { check!(rv == CKR_OK, "an authorised use succeeds"); st[i] = 0; }
    }
}
