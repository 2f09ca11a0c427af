//! C18, C21: key derivation
use crate::h_aes::*;
use crate::keys::*;
use crate::ossl_stub::*;
use crate::p11::*;
use crate::*;
use kryoptic_lib::pkcs11::vendor::{KR_SSHKDF_PARAMS, KRM_SSHKDF_DERIVE};
use std::ptr::null_mut;

// mechanisms
pub const CAT_KEY: u64 = 0;
pub const CAT_BD: u64 = 1;
pub const CAT_DB: u64 = 2;
pub const XOR: u64 = 3;
pub const EXTRACT: u64 = 4;
pub const SHA: u64 = 5;
pub const HK: u64 = 6;
pub const CTR_KDF: u64 = 7;
pub const FB_KDF: u64 = 8;
pub const AES_E: u64 = 9;
pub const AES_C: u64 = 10;
pub const TLS_M: u64 = 11;
pub const TLS_K: u64 = 12;
pub const TLS_G: u64 = 13;
pub const ECDH: u64 = 14;
pub const FFDH: u64 = 15;
pub const SSH: u64 = 16;
pub const NMECHS: u64 = 17;

pub fn lk<X>(x: X) -> *mut X { Box::leak(Box::new(x)) }
pub fn lb(b: &[u8]) -> *mut u8 { Box::leak(b.to_vec().into_boxed_slice()).as_mut_ptr() }
pub fn mp<P>(m: CK_MECHANISM_TYPE, p: P) -> CK_MECHANISM { CK_MECHANISM { mechanism: m, pParameter: lk(p) as *mut _, ulParameterLen: std::mem::size_of::<P>() as CK_ULONG } }
pub fn strdata(d: &[u8]) -> CK_KEY_DERIVATION_STRING_DATA { CK_KEY_DERIVATION_STRING_DATA { pData: lb(d), ulLen: d.len() as CK_ULONG } }
fn hkdf(extract: bool, expand: bool, salt_type: CK_ULONG, salt: &[u8], key: H, info: &[u8]) -> CK_HKDF_PARAMS {
    CK_HKDF_PARAMS { bExtract: extract as u8, bExpand: expand as u8, prfHashMechanism: CKM_SHA256, ulSaltType: salt_type, pSalt: if salt.is_empty() { null_mut() } else { lb(salt) }, ulSaltLen: salt.len() as CK_ULONG, hSaltKey: key, pInfo: if info.is_empty() { null_mut() } else { lb(info) }, ulInfoLen: info.len() as CK_ULONG }
}
pub fn prf_param(t: CK_ULONG, v: &[u8]) -> CK_PRF_DATA_PARAM { CK_PRF_DATA_PARAM { type_: t, pValue: if v.is_empty() { null_mut() } else { lb(v) as *mut _ }, ulValueLen: v.len() as CK_ULONG } }
pub fn raw<P>(p: P) -> Vec<u8> {
    // padding is to be zero
    let mut b = vec![0u8; std::mem::size_of::<P>()];
    unsafe { std::ptr::copy_nonoverlapping(&p as *const P as *const u8, b.as_mut_ptr(), b.len()) };
    b
}
pub fn tls_rand() -> CK_SSL3_RANDOM_DATA { CK_SSL3_RANDOM_DATA { pClientRandom: lb(&pat(32, 0x11)), ulClientRandomLen: 32, pServerRandom: lb(&pat(32, 0x22)), ulServerRandomLen: 32 } }
pub fn point() -> Vec<u8> { let mut p = vec![4]; p.extend_from_slice(&pat(64, 0x71)); p }

/// kind of base key
pub fn base_kind(i: u64) -> u64 { match i { AES_E | AES_C => AES, ECDH => EC, FFDH => DH, HK => HKDF, _ => GENERIC } }
pub fn base_len(i: u64) -> usize { match i { TLS_M | TLS_K | TLS_G => 48, AES_E | AES_C => 16, _ => 24 } }
pub fn base_t(i: u64, v: &[u8]) -> T {
    let k = base_kind(i);
    let kd = kind(k);
    let mut t = T::new();
    for (j, a) in kd.t.a.iter().enumerate() { if a.type_ == CKA_VALUE { t.add(CKA_VALUE, if v.is_empty() { kd.t.val(j) } else { v }) } else { t.add(a.type_, kd.t.val(j)) } }
    t.b(CKA_TOKEN, false).b(CKA_DERIVE, true)
}
pub struct Mat { pub out: *mut CK_SSL3_KEY_MAT_OUT, iv: (*mut u8, *mut u8) }
/// a working mechanism with ordinary parameters
pub fn simple(i: u64, other: H) -> (CK_MECHANISM, Option<Mat>) {
    let mut mat = None;
    let m = match i {
        CAT_KEY => mp(CKM_CONCATENATE_BASE_AND_KEY, other),
        CAT_BD => mp(CKM_CONCATENATE_BASE_AND_DATA, strdata(&pat(8, 1))),
        CAT_DB => mp(CKM_CONCATENATE_DATA_AND_BASE, strdata(&pat(8, 1))),
        XOR => mp(CKM_XOR_BASE_AND_DATA, strdata(&pat(24, 1))),
        EXTRACT => mp(CKM_EXTRACT_KEY_FROM_KEY, 3 as CK_EXTRACT_PARAMS),
        SHA => mech(CKM_SHA256_KEY_DERIVATION),
        HK => mp(CKM_HKDF_DERIVE, hkdf(true, true, CKF_HKDF_SALT_DATA, &pat(8, 2), 0, &pat(5, 3))),
        CTR_KDF => {
            let c = raw(CK_SP800_108_COUNTER_FORMAT { bLittleEndian: 0, ulWidthInBits: 16 });
            let ps: &'static mut [CK_PRF_DATA_PARAM] = Box::leak(Box::new([prf_param(CK_SP800_108_ITERATION_VARIABLE, &c), prf_param(CK_SP800_108_BYTE_ARRAY, &pat(6, 4))]));
            mp(CKM_SP800_108_COUNTER_KDF, CK_SP800_108_KDF_PARAMS { prfType: CKM_SHA256_HMAC, ulNumberOfDataParams: 2, pDataParams: ps.as_mut_ptr(), ulAdditionalDerivedKeys: 0, pAdditionalDerivedKeys: null_mut() })
        }
        FB_KDF => {
            let ps: &'static mut [CK_PRF_DATA_PARAM] = Box::leak(Box::new([prf_param(CK_SP800_108_ITERATION_VARIABLE, &[]), prf_param(CK_SP800_108_BYTE_ARRAY, &pat(6, 4))]));
            mp(CKM_SP800_108_FEEDBACK_KDF, CK_SP800_108_FEEDBACK_KDF_PARAMS { prfType: CKM_SHA256_HMAC, ulNumberOfDataParams: 2, pDataParams: ps.as_mut_ptr(), ulIVLen: 0, pIV: null_mut(), ulAdditionalDerivedKeys: 0, pAdditionalDerivedKeys: null_mut() })
        }
        AES_E => mp(CKM_AES_ECB_ENCRYPT_DATA, strdata(&pat(16, 1))),
        AES_C => mp(CKM_AES_CBC_ENCRYPT_DATA, CK_AES_CBC_ENCRYPT_DATA_PARAMS { iv: [7; 16], pData: lb(&pat(16, 1)), length: 16 }),
        TLS_M => mp(CKM_TLS12_MASTER_KEY_DERIVE_DH, CK_TLS12_MASTER_KEY_DERIVE_PARAMS { RandomInfo: tls_rand(), pVersion: null_mut(), prfHashMechanism: CKM_SHA256 }),
        TLS_K => {
            let iv = (lb(&[0; 8]), lb(&[0; 8]));
            let out = lk(CK_SSL3_KEY_MAT_OUT { hClientMacSecret: 0, hServerMacSecret: 0, hClientKey: 0, hServerKey: 0, pIVClient: iv.0, pIVServer: iv.1 });
            mat = Some(Mat { out, iv });
            mp(CKM_TLS12_KEY_AND_MAC_DERIVE, CK_TLS12_KEY_MAT_PARAMS { ulMacSizeInBits: 160, ulKeySizeInBits: 128, ulIVSizeInBits: 64, bIsExport: 0, RandomInfo: tls_rand(), pReturnedKeyMaterial: out, prfHashMechanism: CKM_SHA256 })
        }
        TLS_G => mp(CKM_TLS_KDF, CK_TLS_KDF_PARAMS { prfMechanism: CKM_SHA256, pLabel: lb(b"label"), ulLabelLength: 5, RandomInfo: tls_rand(), pContextData: lb(b"ctx"), ulContextDataLength: 3 }),
        ECDH => mp(CKM_ECDH1_DERIVE, CK_ECDH1_DERIVE_PARAMS { kdf: CKD_NULL, ulSharedDataLen: 0, pSharedData: null_mut(), ulPublicDataLen: 65, pPublicData: lb(&point()) }),
        FFDH => { let p = pat(256, 0x21); let b = Box::leak(p.into_boxed_slice()); mech_b(CKM_DH_PKCS_DERIVE, b) }
        _ => mp(KRM_SSHKDF_DERIVE, KR_SSHKDF_PARAMS { prfHashMechanism: CKM_SHA256, derivedKeyType: 0x43, pExchangeHash: lb(&pat(32, 5)), ulExchangeHashLen: 32, pSessionId: lb(&pat(32, 6)), ulSessionIdLen: 32 }),
    };
    (m, mat)
}
pub fn dt(ktype: CK_KEY_TYPE, len: usize) -> T {
    let mut t = T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, ktype).bytes(CKA_LABEL, b"got").b(CKA_TOKEN, false);
    if len > 0 { t = t.ul(CKA_VALUE_LEN, len as CK_ULONG); }
    t
}
fn flag(s: H, h: H, a: CK_ATTRIBUTE_TYPE) -> bool {
    let v = get_bool(s, h, a);
    check!(v.is_some(), "the attribute is there");
    v == Some(true)
}
fn derive(s: H, m: &mut CK_MECHANISM, base: H, t: &mut T, h: &mut H) -> CK_RV { call!(C_DeriveKey(s, m, base, t.p(), t.n(), h)) }
fn got(s: H) -> usize {
    let mut l = [0 as H; 8];
    let mut t = T::new().bytes(CKA_LABEL, b"got");
    let (rv, n) = find(s, &mut t, &mut l);
    check!(rv == CKR_OK, "find");
    n
}

/// p0: mechanism, p1: key type of the result (0 generic, 1 AES)
#[unsafe(no_mangle)]
pub extern "C" fn h_derive_attrs() {
    boot("plain0");
    let i = vf::param(0, 0) as u64;
    let aes = vf::param(1, 0) == 1;
    let s = open(true);
    let rv = login(s, CKU_USER, USER_PIN);
    check!(rv == CKR_OK, "login");
    // the base key comes from outside or was made here
    let local = vf::bool_z(z!("local"));
    let (sens, ext) = (vf::u8_z(z!("sensitive")), vf::u8_z(z!("extractable")));
    let mut base: H = 0;
    let k = base_kind(i);
    if local {
        match k {
            EC | DH => {
                let mut pt = T::new();
                let mut m = mech(if k == EC { CKM_EC_KEY_PAIR_GEN } else { CKM_DH_PKCS_KEY_PAIR_GEN });
                if k == EC { pt.add(CKA_EC_PARAMS, P256) } else { pt.add(CKA_PRIME, &FFDHE2048_P); pt.add(CKA_BASE, &[2]); }
                let mut t = T::new().b(CKA_TOKEN, false).b(CKA_DERIVE, true).bb(CKA_SENSITIVE, sens).bb(CKA_EXTRACTABLE, ext);
                let mut p: H = 0;
                let rv = call!(C_GenerateKeyPair(s, &mut m, pt.p(), pt.n(), t.p(), t.n(), &mut p, &mut base));
                check!(rv == CKR_OK, "generate");
            }
            _ => {
                let mut m = mech(match k { AES => CKM_AES_KEY_GEN, HKDF => CKM_HKDF_KEY_GEN, _ => CKM_GENERIC_SECRET_KEY_GEN });
                let mut t = T::new().b(CKA_TOKEN, false).b(CKA_DERIVE, true).bb(CKA_SENSITIVE, sens).bb(CKA_EXTRACTABLE, ext).ul(CKA_VALUE_LEN, base_len(i) as CK_ULONG);
                let rv = call!(C_GenerateKey(s, &mut m, t.p(), t.n(), &mut base));
                check!(rv == CKR_OK, "generate");
            }
        }
    } else {
        let v = if matches!(k, EC | DH) { vec![] } else { pat(base_len(i), 0x17) };
        let mut t = base_t(i, &v).bb(CKA_SENSITIVE, sens).bb(CKA_EXTRACTABLE, ext);
        let rv = create(s, &mut t, &mut base);
        check!(rv == CKR_OK, "create the base key");
    }
    let (sens, ext) = (sens != 0, ext != 0);
    let (mut b_sens, mut b_ext, mut b_as, mut b_ne) = (sens, ext, local & sens, local & !ext);
    check!((flag(s, base, CKA_ALWAYS_SENSITIVE) == b_as) & (flag(s, base, CKA_NEVER_EXTRACTABLE) == b_ne), "history of the base key");
    let mut other = 0;
    if i == CAT_KEY {
        let (os, oe, ol) = (vf::u8_z(z!("other sensitive")), vf::u8_z(z!("other extractable")), vf::bool_z(z!("other local")));
        if ol {
            let mut m = mech(CKM_GENERIC_SECRET_KEY_GEN);
            let mut t = T::new().b(CKA_TOKEN, false).bb(CKA_SENSITIVE, os).bb(CKA_EXTRACTABLE, oe).ul(CKA_VALUE_LEN, 8);
            let rv = call!(C_GenerateKey(s, &mut m, t.p(), t.n(), &mut other));
            check!(rv == CKR_OK, "generate");
        } else {
            let mut t = base_t(i, &pat(8, 0x18)).bb(CKA_SENSITIVE, os).bb(CKA_EXTRACTABLE, oe);
            let rv = create(s, &mut t, &mut other);
            check!(rv == CKR_OK, "create the other key");
        }
        b_sens |= os != 0;
        b_ext &= oe != 0;
        b_as &= ol & (os != 0);
        b_ne &= ol & (oe == 0);
    }
    let (mut m, mat) = simple(i, other);
    let aes = aes && i != TLS_M;
    let has = vf::choose_z(3, z!("in the template"));
    let (ts, te) = (vf::u8_z(z!("derived sensitive")), vf::u8_z(z!("derived extractable")));
    let mut t = dt(if aes { CKK_AES } else { CKK_GENERIC_SECRET }, if i == TLS_M { 48 } else { 16 });
    if has > 0 { t = t.bb(CKA_SENSITIVE, ts).bb(CKA_EXTRACTABLE, te); }
    if has > 1 { t = t.b(CKA_DERIVE, true).b(CKA_MODIFIABLE, false); }
    let mut h: H = 0;
    let rv = derive(s, &mut m, base, &mut t, &mut h);
    let reveals = i <= EXTRACT;
    // the keys of a TLS session must have the protection of the master secret
    let may = i != TLS_K || has == 0 || ((ts != 0) == b_sens && (te != 0) == b_ext);
    check!((rv == CKR_OK) == may, "a key is derived");
    if rv != CKR_OK {
        check!(got(s) == 0 && h == 0, "nothing is made by a refused derivation");
        cover!("refused");
        return;
    }
    let keys = match &mat {
        Some(m) => unsafe {
            let o = &*m.out;
            vec![(o.hClientKey, true), (o.hServerKey, true), (o.hClientMacSecret, false), (o.hServerMacSecret, false)]
        },
        None => vec![(h, true)],
    };
    for (h, tmpl) in keys {
        let (ds, de) = (flag(s, h, CKA_SENSITIVE), flag(s, h, CKA_EXTRACTABLE));
        if i == TLS_K {
            check!((ds == b_sens) & (de == b_ext), "TLS keys are protected like their master secret");
        } else {
            // what is not asked for takes some default
            check!((has == 0) | (ds == ((ts != 0) | (reveals & b_sens))), "sensitive if asked for, or if a base key that it reveals is");
            check!((has == 0) | (de == ((te != 0) & !(reveals & !b_ext))), "extractable only if asked for, and if all the base keys that it reveals are");
            check!(!reveals | ((ds | !b_sens) & (!de | b_ext)), "at least as protected as the base keys it reveals");
        }
        check!(!flag(s, h, CKA_LOCAL), "a derived key is not local");
        check!(flag(s, h, CKA_ALWAYS_SENSITIVE) == (ds & b_as), "always sensitive only if the base keys were");
        check!(flag(s, h, CKA_NEVER_EXTRACTABLE) == (!de & b_ne), "never extractable only if the base keys were");
        check!(get_ul(s, h, CKA_KEY_GEN_MECHANISM) == Some(CK_UNAVAILABLE_INFORMATION), "a derived key was not generated");
        if tmpl {
            check!(get_ul(s, h, CKA_KEY_TYPE) == Some(if aes { CKK_AES } else { CKK_GENERIC_SECRET }), "the type asked for");
            check!(get_ul(s, h, CKA_VALUE_LEN) == Some(if i == TLS_M { 48 } else { 16 }), "the length asked for");
            if has > 1 { check!(flag(s, h, CKA_DERIVE) && !flag(s, h, CKA_MODIFIABLE), "the attributes asked for"); }
        }
        // what is protected cannot be read
        let mut b = [0u8; 64];
        let (rv, _) = get_attr(s, h, CKA_VALUE, &mut b);
        check!((rv == CKR_OK) == (!ds & de), "only a plain key can be read");
        cover!("derived");
        if ds { cover!("sensitive"); }
        if flag(s, h, CKA_ALWAYS_SENSITIVE) { cover!("always sensitive"); }
    }
    expect!("derived");
    expect!("sensitive");
    expect!("always sensitive");
    if i == TLS_K { expect!("refused"); }
    let _ = mat.map(|m| m.iv);
}

fn sha(m: &[u8]) -> Vec<u8> { ref_hash(b"SHA256", m) }
fn hmac(k: &[u8], m: &[u8]) -> Vec<u8> { ref_hmac(b"SHA256", 64, k, m) }
fn p_hash(k: &[u8], seed: &[u8], n: usize) -> Vec<u8> {
    let mut a = hmac(k, seed);
    let mut o = vec![];
    while o.len() < n {
        let mut x = a.clone();
        x.extend_from_slice(seed);
        o.extend_from_slice(&hmac(k, &x));
        a = hmac(k, &a);
    }
    o.truncate(n);
    o
}
fn value(s: H, h: H) -> Vec<u8> {
    let mut b = vec![0u8; 9000];
    let (rv, n) = get_attr(s, h, CKA_VALUE, &mut b);
    check!(rv == CKR_OK, "the value of a plain key can be read");
    check!(get_ul(s, h, CKA_VALUE_LEN) == Some(n), "the length is that of the value");
    b[..n as usize].to_vec()
}
fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0u8;
    for (x, y) in a.iter().zip(b.iter()) { d |= x ^ y; }
    d == 0
}
fn cat(p: &[&[u8]]) -> Vec<u8> { let mut v = vec![]; for x in p { v.extend_from_slice(x); } v }
/// `v` in `bits` bits
fn enc(v: u64, bits: u64, le: bool) -> Vec<u8> {
    let n = (bits / 8) as usize;
    (0..n).map(|j| (v >> (8 * if le { j } else { n - 1 - j })) as u8).collect()
}

/// p0: mechanism, p1: length asked for (0: none), p2: length of the base key, p3: variant, p4: key type (0 generic, 1 AES)
#[unsafe(no_mangle)]
pub extern "C" fn h_derive_value() {
    boot("plain0");
    let i = vf::param(0, 0) as u64;
    let len = vf::param(1, 0) as usize;
    let blen = vf::param(2, 24) as usize;
    let v = vf::param(3, 0) as u64;
    let aes = vf::param(4, 0) == 1;
    let s = open(true);
    let rv = login(s, CKU_USER, USER_PIN);
    check!(rv == CKR_OK, "login");
    unsafe { ORACLE = !matches!(i, CAT_KEY | CAT_BD | CAT_DB | XOR | EXTRACT | AES_E | AES_C) };
    let exact = unsafe { !ORACLE };
    // the base key
    let k = base_kind(i);
    let mut bv = match k { EC => pat(32, 0x41), DH => pat(40, 0x43), _ => pat(blen, 0x17) };
    if exact { vf::bytes_z(&mut bv, z!("base")); } else { vf::bytes_z(&mut bv[1..2], z!("base")); }
    let mut base: H = 0;
    let mut t = base_t(i, &bv).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true);
    let rv = create(s, &mut t, &mut base);
    check!(rv == CKR_OK, "create the base key");
    let kt = if aes { CKK_AES } else { CKK_GENERIC_SECRET };
    let mut t = dt(kt, len).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true);
    let mut m = mech(0);
    // the longest value, None if there is no bound
    let mut full: Option<usize> = None;
    let mut tail = false;
    let mut want: Vec<u8> = vec![];
    // what is derived when no length is given
    let mut dflt: Option<usize> = None;
    let n = if len == 0 { 32 } else { len };
    let mut extra: Vec<(*mut H, Vec<u8>)> = vec![];
    let mut mat: Option<Mat> = None;
    match i {
        CAT_KEY | CAT_BD | CAT_DB | XOR => {
            let mut d = pat(if v == 1 { 40 } else { 8 }, 0x33);
            vf::bytes_z(&mut d, z!("data"));
            if i == CAT_KEY {
                let mut t = base_t(i, &d).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true);
                let mut o: H = 0;
                let rv = create(s, &mut t, &mut o);
                check!(rv == CKR_OK, "create the other key");
                m = mp(CKM_CONCATENATE_BASE_AND_KEY, o);
            } else {
                m = mp(match i { CAT_BD => CKM_CONCATENATE_BASE_AND_DATA, CAT_DB => CKM_CONCATENATE_DATA_AND_BASE, _ => CKM_XOR_BASE_AND_DATA }, strdata(&d));
            }
            want = match i { CAT_DB => cat(&[&d, &bv]), XOR => d.iter().zip(bv.iter()).map(|(a, b)| a ^ b).collect(), _ => cat(&[&bv, &d]) };
            full = Some(want.len());
            dflt = full;
        }
        EXTRACT => {
            let nb = 8 * blen as u64;
            // all offsets, and some beyond the key
            let off = vf::choose_z(nb + 16, z!("offset"));
            m = mp(CKM_EXTRACT_KEY_FROM_KEY, off as CK_EXTRACT_PARAMS);
            for j in 0..blen as u64 {
                let mut b = 0u8;
                for q in 0..8 {
                    let p = ((off + 8 * j + q) % nb) as usize;
                    b = b << 1 | (bv[p / 8] >> (7 - p % 8)) & 1;
                }
                want.push(b);
            }
            full = Some(if off < nb { blen } else { 0 });
            dflt = full;
        }
        SHA => { m = mech(CKM_SHA256_KEY_DERIVATION); want = sha(&bv); full = Some(32); dflt = full; }
        HK => {
            let mut salt = pat(8, 2);
            vf::bytes_z(&mut salt[..1], z!("salt"));
            let info = pat(5, 3);
            // which phases, which salt, whether there is info
            let (ex, ep, st, inf) = (v & 1 != 0, v & 2 != 0, v >> 2 & 3, v >> 4 & 1 != 0);
            let mut o: H = 0;
            if st == 2 {
                let mut t = base_t(i, &salt);
                let rv = create(s, &mut t, &mut o);
                check!(rv == CKR_OK, "create the salt key");
            }
            let p = hkdf(ex, ep, match st { 0 => CKF_HKDF_SALT_NULL, 1 => CKF_HKDF_SALT_DATA, _ => CKF_HKDF_SALT_KEY }, if st == 1 { &salt } else { &[] }, o, if inf { &info } else { &[] });
            m = mp(CKM_HKDF_DERIVE, p);
            let mode: i32 = if ex && ep { 0 } else if ex { 1 } else { 2 };
            want = vec![0; n];
            let mb = mode.to_le_bytes();
            let mut ps: Vec<(&[u8], &[u8])> = vec![(b"digest", b"SHA2-256"), (b"mode", &mb), (b"key", &bv)];
            if st != 0 { ps.push((b"salt", &salt)); }
            if inf { ps.push((b"info", &info)); }
            if ex || ep { ref_kdf(b"HKDF", &ps, &mut want); } else { want = vec![]; }
            // extraction alone gives one block
            full = if !ex && !ep { Some(0) } else if ex && !ep { if n == 32 { Some(32) } else { Some(0) } } else { None };
            dflt = Some(32);
        }
        CTR_KDF | FB_KDF => {
            let mut label = pat(6, 4);
            vf::bytes_z(&mut label[..1], z!("label"));
            let le = vf::bool_z(z!("little endian"));
            let long = n > 4096;
            let cbits = 8 * (1 + vf::choose_z(if long { 2 } else { 4 }, z!("counter bits")));
            let lbits = if long { 32 } else { 8 * vf::choose_z(9, z!("length bits")) };
            let lle = if lbits > 8 { vf::bool_z(z!("length little endian")) } else { false };
            let segs = lbits > 0 && vf::bool_z(z!("sum of segments"));
            // additional key
            let alen = if v & 1 != 0 { 24usize } else { 0 };
            let iv = if v & 2 != 0 { pat(32, 0x61) } else { vec![] };
            let first = v & 4 != 0;
            let cf = raw(CK_SP800_108_COUNTER_FORMAT { bLittleEndian: le as u8, ulWidthInBits: cbits });
            let lf = raw(CK_SP800_108_DKM_LENGTH_FORMAT { dkmLengthMethod: if segs { CK_SP800_108_DKM_LENGTH_SUM_OF_SEGMENTS } else { CK_SP800_108_DKM_LENGTH_SUM_OF_KEYS }, bLittleEndian: lle as u8, ulWidthInBits: lbits });
            let mut ps: Vec<CK_PRF_DATA_PARAM> = vec![];
            let ctr_in_fb = v & 8 != 0;
            let it = prf_param(CK_SP800_108_ITERATION_VARIABLE, if i == CTR_KDF { &cf } else { &[] });
            if !first { ps.push(it); }
            ps.push(prf_param(CK_SP800_108_BYTE_ARRAY, &label));
            if first { ps.push(it); }
            if i == FB_KDF && ctr_in_fb { ps.push(prf_param(CK_SP800_108_COUNTER, &cf)); }
            if lbits > 0 { ps.push(prf_param(CK_SP800_108_DKM_LENGTH, &lf)); }
            let seg = |x: usize| (x + 31) / 32 * 32;
            let total = seg(n) + seg(alen);
            let l = if segs { total } else { n + alen } as u64;
            let mut prev = iv.clone();
            let mut dkm = vec![];
            let mut c = 1u64;
            while dkm.len() < total {
                let e = enc(c, cbits, le);
                let itv: &[u8] = if i == CTR_KDF { &e } else { &prev };
                let lv = enc(l, lbits, lle);
                let mut x = vec![];
                if !first { x.extend_from_slice(itv); }
                x.extend_from_slice(&label);
                if first { x.extend_from_slice(itv); }
                if i == FB_KDF && ctr_in_fb { x.extend_from_slice(&e); }
                x.extend_from_slice(&lv);
                let b = hmac(&bv, &x);
                dkm.extend_from_slice(&b);
                prev = b;
                c += 1;
            }
            want = dkm[..n].to_vec();
            // a counter never starts over
            if cbits == 8 && total > 255 * 32 && (i == CTR_KDF || ctr_in_fb) { full = Some(0); }
            let mut adk: Vec<CK_DERIVED_KEY> = vec![];
            if alen > 0 {
                let at: &'static mut T = Box::leak(Box::new(dt(CKK_GENERIC_SECRET, alen).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true)));
                let ph = lk(0 as H);
                extra.push((ph, dkm[seg(n)..seg(n) + alen].to_vec()));
                adk.push(CK_DERIVED_KEY { pTemplate: at.p(), ulAttributeCount: at.n(), phKey: ph });
            }
            let ps: &'static mut [CK_PRF_DATA_PARAM] = Box::leak(ps.into_boxed_slice());
            let adk: &'static mut [CK_DERIVED_KEY] = Box::leak(adk.into_boxed_slice());
            let ap = if adk.is_empty() { null_mut() } else { adk.as_mut_ptr() };
            m = if i == CTR_KDF {
                mp(CKM_SP800_108_COUNTER_KDF, CK_SP800_108_KDF_PARAMS { prfType: CKM_SHA256_HMAC, ulNumberOfDataParams: ps.len() as CK_ULONG, pDataParams: ps.as_mut_ptr(), ulAdditionalDerivedKeys: adk.len() as CK_ULONG, pAdditionalDerivedKeys: ap })
            } else {
                mp(CKM_SP800_108_FEEDBACK_KDF, CK_SP800_108_FEEDBACK_KDF_PARAMS { prfType: CKM_SHA256_HMAC, ulNumberOfDataParams: ps.len() as CK_ULONG, pDataParams: ps.as_mut_ptr(), ulIVLen: iv.len() as CK_ULONG, pIV: if iv.is_empty() { null_mut() } else { lb(&iv) }, ulAdditionalDerivedKeys: adk.len() as CK_ULONG, pAdditionalDerivedKeys: ap })
            };
        }
        AES_E | AES_C => {
            let mut d = pat(blen.max(16) / 16 * 16 * (1 + v as usize), 0x33);
            vf::bytes_z(&mut d, z!("data"));
            let mut iv = [0u8; 16];
            vf::bytes_z(&mut iv, z!("iv"));
            m = if i == AES_E { mp(CKM_AES_ECB_ENCRYPT_DATA, strdata(&d)) } else { mp(CKM_AES_CBC_ENCRYPT_DATA, CK_AES_CBC_ENCRYPT_DATA_PARAMS { iv, pData: lb(&d), length: d.len() as CK_ULONG }) };
            want = reference(if i == AES_E { ECB } else { CBC }, &bv, &iv, &[0; 5], 0, &d);
            // the length is not there to be chosen
            full = Some(if len == 0 || len == want.len() { want.len() } else { 0 });
            dflt = Some(want.len());
        }
        TLS_M => {
            let mut r = tls_rand();
            let (c, sv) = (pat(32, 0x11), pat(32, 0x22));
            want = p_hash(&bv, &cat(&[b"master secret", &c, &sv]), 48);
            let ver = lk(CK_VERSION { major: 0, minor: 0 });
            match v {
                0 => m = mp(CKM_TLS12_MASTER_KEY_DERIVE_DH, CK_TLS12_MASTER_KEY_DERIVE_PARAMS { RandomInfo: r, pVersion: null_mut(), prfHashMechanism: CKM_SHA256 }),
                1 => m = mp(CKM_TLS12_MASTER_KEY_DERIVE, CK_TLS12_MASTER_KEY_DERIVE_PARAMS { RandomInfo: r, pVersion: ver, prfHashMechanism: CKM_SHA256 }),
                _ => {
                    let h = pat(32, 0x55);
                    m = mp(CKM_TLS12_EXTENDED_MASTER_KEY_DERIVE_DH, CK_TLS12_EXTENDED_MASTER_KEY_DERIVE_PARAMS { prfHashMechanism: CKM_SHA256, pSessionHash: lb(&h), ulSessionHashLen: 32, pVersion: null_mut() });
                    want = p_hash(&bv, &cat(&[b"extended master secret", &h]), 48);
                }
            }
            r.ulClientRandomLen = 0;
            full = Some(if len == 48 || len == 0 { 48 } else { 0 });
            dflt = Some(48);
        }
        TLS_K => {
            let (mm, ma) = simple(TLS_K, 0);
            m = mm;
            let (c, sv) = (pat(32, 0x11), pat(32, 0x22));
            let d = p_hash(&bv, &cat(&[b"key expansion", &sv, &c]), 2 * (20 + 16 + 8));
            let o = ma.as_ref().unwrap().out;
            unsafe {
                extra.push((&mut (*o).hClientMacSecret, d[..20].to_vec()));
                extra.push((&mut (*o).hServerMacSecret, d[20..40].to_vec()));
                extra.push((&mut (*o).hClientKey, d[40..56].to_vec()));
                extra.push((&mut (*o).hServerKey, d[56..72].to_vec()));
            }
            want = d[72..].to_vec();
            mat = ma;
            full = Some(if len == 16 || len == 0 { 16 } else { 0 });
            dflt = Some(16);
        }
        TLS_G => {
            m = simple(TLS_G, 0).0;
            let (c, sv) = (pat(32, 0x11), pat(32, 0x22));
            want = p_hash(&bv, &cat(&[b"label", &c, &sv, b"ctx"]), n);
        }
        ECDH => {
            // as an octet string holding it, too
            let pt = point();
            let der = v & 1 != 0;
            let kdf = v >> 1 & 3;
            let mut shared = pat(7, 0x19);
            vf::bytes_z(&mut shared[..1], z!("shared"));
            let q = if der { cat(&[&[4, 65], &pt]) } else { pt.clone() };
            m = mp(CKM_ECDH1_DERIVE, CK_ECDH1_DERIVE_PARAMS { kdf: [CKD_NULL, CKD_SHA256_KDF, CKD_SHA256_KDF_SP800, CKD_SHA256_KDF][kdf as usize], ulSharedDataLen: if kdf == 1 || kdf == 2 { 7 } else { 0 }, pSharedData: if kdf == 1 || kdf == 2 { lb(&shared) } else { null_mut() }, ulPublicDataLen: q.len() as CK_ULONG, pPublicData: lb(&q) });
            let mut z = vec![0u8; 32];
            let mut pv = bv.clone();
            pv.reverse();
            ref_agree(false, &pv, &pt, &mut z);
            match kdf {
                0 => { want = z; tail = true; full = Some(32); dflt = full; }
                _ => {
                    want = vec![0; n];
                    let mut ps: Vec<(&[u8], &[u8])> = vec![(b"digest", b"SHA2-256"), (b"key", &z)];
                    if kdf != 3 { ps.push((b"info", &shared)); }
                    ref_kdf(if kdf == 2 { b"SSKDF" } else { b"X963KDF" }, &ps, &mut want);
                }
            }
        }
        FFDH => {
            let p = pat(256, 0x21);
            let short = v == 1;
            unsafe { DH_SHORT = short };
            m = mech_b(CKM_DH_PKCS_DERIVE, Box::leak(p.clone().into_boxed_slice()));
            let mut pv = bv.clone();
            pv.reverse();
            let mut pp = p.clone();
            pp.reverse();
            want = vec![0; if short { 255 } else { 256 }];
            ref_agree(true, &pv, &pp, &mut want);
            tail = true;
            full = Some(want.len());
            dflt = full;
        }
        _ => {
            let (h, id) = (pat(32, 5), pat(32, 6));
            let ty = 0x43 + v as u8;
            m = mp(KRM_SSHKDF_DERIVE, KR_SSHKDF_PARAMS { prfHashMechanism: CKM_SHA256, derivedKeyType: ty, pExchangeHash: lb(&h), ulExchangeHashLen: 32, pSessionId: lb(&id), ulSessionIdLen: 32 });
            let mut d = sha(&cat(&[&bv, &h, &[ty], &id]));
            while d.len() < n { let x = sha(&cat(&[&bv, &h, &d])); d.extend_from_slice(&x); }
            want = d[..n].to_vec();
        }
    }
    let mut h: H = 0;
    let rv = derive(s, &mut m, base, &mut t, &mut h);
    vf::out(rv as u64);
    // the length of the key
    let l = if len > 0 { Some(len) } else if aes { dflt.map(|d| if d >= 32 { 32 } else if d >= 24 { 24 } else if d >= 16 { 16 } else { 0 }) } else { dflt };
    let fits = match (l, full) { (None, _) => false, (Some(l), Some(f)) => l > 0 && l <= f, (Some(l), None) => l > 0 };
    let typed = !aes || matches!(l, Some(16 | 24 | 32));
    if fits && typed { check!(rv == CKR_OK, "a key that can be derived is derived"); }
    if !fits || !typed { check!(rv != CKR_OK, "no key is derived when there is not enough material or it does not suit the type"); }
    if rv != CKR_OK {
        check!(got(s) == 0 && h == 0, "nothing is made by a refused derivation");
        cover!("refused");
        return;
    }
    cover!("derived");
    if i == TLS_K {
        let (a, b) = mat.unwrap().iv;
        unsafe {
            check!(eq(std::slice::from_raw_parts(a, 8), &want[..8]), "client IV");
            check!(eq(std::slice::from_raw_parts(b, 8), &want[8..]), "server IV");
        }
    } else {
        let l = l.unwrap();
        let g = value(s, h);
        let w = if tail { &want[want.len() - l..] } else { &want[..l] };
        check!(eq(&g, w), "the derived value is the one the mechanism defines");
    }
    let n = extra.len();
    for (p, w) in &extra {
        let g = value(s, unsafe { **p });
        check!(eq(&g, w), "the value of the additional key is the one the mechanism defines");
    }
    check!(got(s) == n + (i != TLS_K) as usize - if i == TLS_K { 2 } else { 0 }, "as many keys as asked for");
}

/// C21 password-based derivation: p0: PRF (index), p1: AES key, p2: 1 = bad parameters
#[unsafe(no_mangle)]
pub extern "C" fn h_pbkdf2() {
    unsafe { crate::ossl_stub::ORACLE = true; crate::ossl_stub::SEAL = true; }
    boot("plain0");
    let s = open(true);
    let rv = login(s, CKU_USER, USER_PIN);
    check!(rv == CKR_OK, "login");
    let (prf, name, hl, block): (_, &[u8], usize, usize) = match vf::param(0, 1) {
        0 => (CKP_PKCS5_PBKD2_HMAC_SHA1, b"SHA1", 20, 64),
        1 => (CKP_PKCS5_PBKD2_HMAC_SHA256, b"SHA256", 32, 64),
        2 => (CKP_PKCS5_PBKD2_HMAC_SHA384, b"SHA384", 48, 128),
        3 => (CKP_PKCS5_PBKD2_HMAC_SHA512, b"SHA512", 64, 128),
        _ => (CKP_PKCS5_PBKD2_HMAC_SHA224, b"SHA224", 28, 64),
    };
    let aes = vf::param(1, 0) == 1;
    let bad = vf::param(2, 0) == 1;
    let pl = [1usize, 8, block, block + 1][vf::choose_z(4, z!("password length")) as usize];
    let mut pw = vec![0x70u8; pl];
    vf::bytes_z(&mut pw[..1], z!("password"));
    vf::bytes_z(&mut pw[pl - 1..], z!("password end"));
    let sl = [1usize, 8, 33][vf::choose_z(3, z!("salt length")) as usize];
    let mut salt = vec![0x5au8; sl];
    vf::bytes_z(&mut salt[sl - 1..], z!("salt"));
    let mut iter = 1 + vf::choose_z(3, z!("iterations"));
    let mut len: CK_ULONG = if aes { [0, 16, 24, 32][vf::choose_z(4, z!("length")) as usize] } else { [0, 1, hl as CK_ULONG - 1, hl as CK_ULONG, hl as CK_ULONG + 1, 2 * hl as CK_ULONG + 3][vf::choose_z(6, z!("length")) as usize] };
    let given = len != 0;
    let mut p = CK_PKCS5_PBKD2_PARAMS2 { saltSource: CKZ_SALT_SPECIFIED, pSaltSourceData: salt.as_mut_ptr() as *mut _, ulSaltSourceDataLen: sl as CK_ULONG, iterations: 0, prf, pPrfData: null_mut(), ulPrfDataLen: 0, pPassword: pw.as_mut_ptr(), ulPasswordLen: pl as CK_ULONG };
    let mut huge = false;
    if bad {
        match vf::choose_z(6, z!("defect")) {
            0 => iter = 0,
            1 => { p.prf = vf::u64_z(z!("prf")); vf::assume(p.prf == 0 || p.prf > 8); }
            2 => { p.saltSource = vf::u64_z(z!("source")); vf::assume(p.saltSource != CKZ_SALT_SPECIFIED); }
            3 => { p.pPrfData = salt.as_mut_ptr() as *mut _; p.ulPrfDataLen = 1; }
            4 => p.ulSaltSourceDataLen = 0,
            _ => { len = [1 << 32, 1 << 33, 1 << 62, u64::MAX][vf::choose_z(4, z!("huge")) as usize]; huge = true; }
        }
    }
    p.iterations = iter;
    let mut m = mech_p(CKM_PKCS5_PBKD2, &mut p);
    let mut t = T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, if aes { CKK_AES } else { CKK_GENERIC_SECRET }).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true);
    if given || huge { t = t.ul(CKA_VALUE_LEN, len); }
    let mut h: H = 0;
    let rv = call!(C_GenerateKey(s, &mut m, t.p(), t.n(), &mut h));
    vf::out(rv as u64);
    if bad {
        check!(rv != CKR_OK && h == 0, "no key is made from parameters that are not valid");
        check!(got(s) == 0, "nothing is left");
        cover!("refused");
        return;
    }
    if rv != CKR_OK {
        check!(aes && !given && hl < 16, "a key that can be derived is derived");
        return;
    }
    let l = if given { len as usize } else if aes { if hl >= 32 { 32 } else if hl >= 24 { 24 } else { 16 } } else { hl };
    let mut want = vec![];
    let mut b = 1u32;
    while want.len() < l {
        let mut u = crate::ossl_stub::ref_hmac(name, block, &pw, &cat(&[&salt, &b.to_be_bytes()]));
        let mut x = u.clone();
        for _ in 1..iter {
            u = crate::ossl_stub::ref_hmac(name, block, &pw, &u);
            for i in 0..hl { x[i] ^= u[i]; }
        }
        want.extend_from_slice(&x);
        b += 1;
    }
    let g = value(s, h);
    check!(eq(&g, &want[..l]), "the derived value is the one the mechanism defines");
    check!(get_ul(s, h, CKA_KEY_GEN_MECHANISM) == Some(CKM_PKCS5_PBKD2), "the mechanism is recorded");
    cover!("derived");
}
