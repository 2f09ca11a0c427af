//! One call of every function that takes a key handle
#![allow(dead_code)]
use crate::p11::*;
use crate::vf;
use crate::*;

pub const AES_GEN_FLAGS: [CK_ATTRIBUTE_TYPE; 7] = [CKA_ENCRYPT, CKA_DECRYPT, CKA_SIGN, CKA_VERIFY, CKA_WRAP, CKA_UNWRAP, CKA_DERIVE];

pub fn aes_key(token: bool, private: bool, fill: u8) -> T {
    let mut t = T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_AES).bytes(CKA_VALUE, &crate::keys::pat(16, fill)).b(CKA_TOKEN, token).b(CKA_PRIVATE, private).b(CKA_EXTRACTABLE, true).b(CKA_SENSITIVE, false);
    for f in AES_GEN_FLAGS { t.add(f, &[1]); }
    t
}

pub const NUSE: u64 = 14;
pub const USE_NAMES: [&str; NUSE as usize] = [
    "encrypt", "decrypt", "sign", "verify", "digest-key", "wrap-with", "wrap", "unwrap", "derive", "derive-add", "hkdf-salt",
    "msg-encrypt", "msg-decrypt", "verify-sig",
];
fn drv(s: H, m: &mut CK_MECHANISM, base: H) -> CK_RV {
    let mut t = T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_GENERIC_SECRET).ul(CKA_VALUE_LEN, 16);
    let mut h: H = 0;
    call!(C_DeriveKey(s, m, base, t.p(), t.n(), &mut h))
}
/// performs use `i` of AES key `k`; `o` is another AES key the caller may use
pub fn use_op(i: u64, s: H, k: H, o: H) -> CK_RV {
    let mut iv = [3u8; 16];
    let mut out = [0u8; 64];
    let mut n: CK_ULONG = 64;
    match i {
        0 => { let mut m = mech(CKM_AES_ECB); call!(C_EncryptInit(s, &mut m, k)) }
        1 => { let mut m = mech_b(CKM_AES_CBC, &mut iv); call!(C_DecryptInit(s, &mut m, k)) }
        2 => { let mut m = mech(CKM_AES_CMAC); call!(C_SignInit(s, &mut m, k)) }
        3 => { let mut m = mech(CKM_AES_CMAC); call!(C_VerifyInit(s, &mut m, k)) }
        4 => {
            let mut m = mech(CKM_SHA256);
            let rv = call!(C_DigestInit(s, &mut m));
            check!(rv == CKR_OK, "digest init");
            call!(C_DigestKey(s, k))
        }
        5 => { let mut m = mech_b(CKM_AES_CBC_PAD, &mut iv); let rv = call!(C_WrapKey(s, &mut m, k, o, out.as_mut_ptr(), &mut n)); if rv != CKR_OK { untouched(&out); } rv }
        6 => { let mut m = mech_b(CKM_AES_CBC_PAD, &mut iv); let rv = call!(C_WrapKey(s, &mut m, o, k, out.as_mut_ptr(), &mut n)); if rv != CKR_OK { untouched(&out); } rv }
        7 => {
            // wrapped under `o`, which has the same value as `k` when both exist
            let mut m = mech_b(CKM_AES_CBC_PAD, &mut iv);
            let rv = call!(C_WrapKey(s, &mut m, o, o, out.as_mut_ptr(), &mut n));
            check!(rv == CKR_OK, "wrap");
            let mut t = T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_AES);
            let mut h: H = 0;
            call!(C_UnwrapKey(s, &mut m, k, out.as_mut_ptr(), n, t.p(), t.n(), &mut h))
        }
        8 => {
            let mut d = [7u8; 16];
            let mut p = CK_KEY_DERIVATION_STRING_DATA { pData: d.as_mut_ptr(), ulLen: 16 };
            let mut m = mech_p(CKM_XOR_BASE_AND_DATA, &mut p);
            drv(s, &mut m, k)
        }
        9 => { let mut hk = k; let mut m = mech_p(CKM_CONCATENATE_BASE_AND_KEY, &mut hk); drv(s, &mut m, o) }
        10 => {
            let mut p = CK_HKDF_PARAMS { bExtract: 1, bExpand: 1, prfHashMechanism: CKM_SHA256, ulSaltType: CKF_HKDF_SALT_KEY, pSalt: std::ptr::null_mut(), ulSaltLen: 0, hSaltKey: k, pInfo: std::ptr::null_mut(), ulInfoLen: 0 };
            let mut m = mech_p(CKM_HKDF_DERIVE, &mut p);
            let mut t = T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_GENERIC_SECRET).bytes(CKA_VALUE, &crate::keys::pat(24, 9)).b(CKA_PRIVATE, false).b(CKA_DERIVE, true);
            let mut g = 0;
            let rv = create(s, &mut t, &mut g);
            check!(rv == CKR_OK, "create a generic key");
            // an AES key is no salt key, but that is only known to those who can access it
            let rv = drv(s, &mut m, g);
            if rv == CKR_KEY_TYPE_INCONSISTENT { CKR_OK } else { rv }
        }
        11 => { let mut m = mech(CKM_AES_GCM); call!(C_MessageEncryptInit(s, &mut m, k)) }
        12 => { let mut m = mech(CKM_AES_GCM); call!(C_MessageDecryptInit(s, &mut m, k)) }
        _ => { let mut m = mech(CKM_AES_CMAC); call!(C_VerifySignatureInit(s, &mut m, k, out.as_mut_ptr(), 16)) }
    }
}
pub fn untouched(b: &[u8]) {
    let mut d = 0u8;
    for x in b { d |= *x; }
    check!(d == 0, "nothing is output by a refused call");
}
