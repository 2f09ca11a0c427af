//! Templates for one object of every kind the module stores
#![allow(dead_code)]
use crate::p11::*;

pub const FFDHE2048_P: [u8; 256] = [ 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xAD, 0xF8, 0x54, 0x58, 0xA2, 0xBB, 0x4A, 0x9A, 0xAF, 0xDC, 0x56, 0x20, 0x27, 0x3D, 0x3C, 0xF1, 0xD8, 0xB9, 0xC5, 0x83, 0xCE, 0x2D, 0x36, 0x95, 0xA9, 0xE1, 0x36, 0x41, 0x14, 0x64, 0x33, 0xFB, 0xCC, 0x93, 0x9D, 0xCE, 0x24, 0x9B, 0x3E, 0xF9, 0x7D, 0x2F, 0xE3, 0x63, 0x63, 0x0C, 0x75, 0xD8, 0xF6, 0x81, 0xB2, 0x02, 0xAE, 0xC4, 0x61, 0x7A, 0xD3, 0xDF, 0x1E, 0xD5, 0xD5, 0xFD, 0x65, 0x61, 0x24, 0x33, 0xF5, 0x1F, 0x5F, 0x06, 0x6E, 0xD0, 0x85, 0x63, 0x65, 0x55, 0x3D, 0xED, 0x1A, 0xF3, 0xB5, 0x57, 0x13, 0x5E, 0x7F, 0x57, 0xC9, 0x35, 0x98, 0x4F, 0x0C, 0x70, 0xE0, 0xE6, 0x8B, 0x77, 0xE2, 0xA6, 0x89, 0xDA, 0xF3, 0xEF, 0xE8, 0x72, 0x1D, 0xF1, 0x58, 0xA1, 0x36, 0xAD, 0xE7, 0x35, 0x30, 0xAC, 0xCA, 0x4F, 0x48, 0x3A, 0x79, 0x7A, 0xBC, 0x0A, 0xB1, 0x82, 0xB3, 0x24, 0xFB, 0x61, 0xD1, 0x08, 0xA9, 0x4B, 0xB2, 0xC8, 0xE3, 0xFB, 0xB9, 0x6A, 0xDA, 0xB7, 0x60, 0xD7, 0xF4, 0x68, 0x1D, 0x4F, 0x42, 0xA3, 0xDE, 0x39, 0x4D, 0xF4, 0xAE, 0x56, 0xED, 0xE7, 0x63, 0x72, 0xBB, 0x19, 0x0B, 0x07, 0xA7, 0xC8, 0xEE, 0x0A, 0x6D, 0x70, 0x9E, 0x02, 0xFC, 0xE1, 0xCD, 0xF7, 0xE2, 0xEC, 0xC0, 0x34, 0x04, 0xCD, 0x28, 0x34, 0x2F, 0x61, 0x91, 0x72, 0xFE, 0x9C, 0xE9, 0x85, 0x83, 0xFF, 0x8E, 0x4F, 0x12, 0x32, 0xEE, 0xF2, 0x81, 0x83, 0xC3, 0xFE, 0x3B, 0x1B, 0x4C, 0x6F, 0xAD, 0x73, 0x3B, 0xB5, 0xFC, 0xBC, 0x2E, 0xC2, 0x20, 0x05, 0xC5, 0x8E, 0xF1, 0x83, 0x7D, 0x16, 0x83, 0xB2, 0xC6, 0xF3, 0x4A, 0x26, 0xC1, 0xB2, 0xEF, 0xFA, 0x88, 0x6B, 0x42, 0x38, 0x61, 0x28, 0x5C, 0x97, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, ];
pub const P256: &[u8] = &[0x06, 0x08, 0x2a, 0x86, 0x48, 0xce, 0x3d, 0x03, 0x01, 0x07];
pub const X25519: &[u8] = &[0x06, 0x03, 0x2b, 0x65, 0x6e];

pub const AES: u64 = 0;
pub const GENERIC: u64 = 1;
pub const HOTP: u64 = 2;
pub const RSA: u64 = 3;
pub const EC: u64 = 4;
pub const DH: u64 = 5;
pub const MONT: u64 = 6;
pub const HKDF: u64 = 7;
pub const HMAC: u64 = 8;
/// first kind without secrets
pub const DATA: u64 = 9;
pub const CERT: u64 = 10;
pub const RSAPUB: u64 = 11;
pub const NKINDS: u64 = 12;

pub struct Kind {
    pub t: T,
    /// components that must never be readable unless non-sensitive and extractable
    pub secrets: Vec<(CK_ATTRIBUTE_TYPE, Vec<u8>)>,
}
pub fn pat(n: usize, s: u8) -> Vec<u8> {
    (0..n).map(|i| s ^ (i as u8).wrapping_mul(29) | 1).collect()
}
pub fn kind(k: u64) -> Kind {
    let mut sec: Vec<(CK_ATTRIBUTE_TYPE, Vec<u8>)> = Vec::new();
    let mut t = T::new();
    let (class, ty) = match k {
        AES => (CKO_SECRET_KEY, CKK_AES),
        GENERIC => (CKO_SECRET_KEY, CKK_GENERIC_SECRET),
        HKDF => (CKO_SECRET_KEY, CKK_HKDF),
        HMAC => (CKO_SECRET_KEY, CKK_SHA256_HMAC),
        HOTP => (CKO_OTP_KEY, CKK_HOTP),
        RSA => (CKO_PRIVATE_KEY, CKK_RSA),
        EC => (CKO_PRIVATE_KEY, CKK_EC),
        DH => (CKO_PRIVATE_KEY, CKK_DH),
        MONT => (CKO_PRIVATE_KEY, CKK_EC_MONTGOMERY),
        DATA => (CKO_DATA, 0),
        CERT => (CKO_CERTIFICATE, CKC_X_509),
        _ => (CKO_PUBLIC_KEY, CKK_RSA),
    };
    t = t.ul(CKA_CLASS, class);
    if k == CERT { t = t.ul(CKA_CERTIFICATE_TYPE, ty); } else if k != DATA { t = t.ul(CKA_KEY_TYPE, ty); }
    match k {
        AES | GENERIC | HKDF | HMAC | HOTP => {
            let n = match k { AES => 16, HOTP => 20, HMAC => 32, _ => 24 };
            sec.push((CKA_VALUE, pat(n, 0x5a)));
        }
        RSA => {
            t = t.bytes(CKA_MODULUS, &pat(128, 0xc3)).bytes(CKA_PUBLIC_EXPONENT, &[1, 0, 1]);
            sec.push((CKA_PRIVATE_EXPONENT, pat(128, 0x31)));
            sec.push((CKA_PRIME_1, pat(64, 0x32)));
            sec.push((CKA_PRIME_2, pat(64, 0x33)));
            sec.push((CKA_EXPONENT_1, pat(64, 0x34)));
            sec.push((CKA_EXPONENT_2, pat(64, 0x35)));
            sec.push((CKA_COEFFICIENT, pat(64, 0x36)));
        }
        EC => { t = t.bytes(CKA_EC_PARAMS, P256); sec.push((CKA_VALUE, pat(32, 0x41))); }
        MONT => {
            let mut spki = vec![0x30, 0x2a, 0x30, 0x05, 0x06, 0x03, 0x2b, 0x65, 0x6e, 0x03, 0x21, 0x00];
            spki.extend_from_slice(&pat(32, 0x77));
            t = t.bytes(CKA_EC_PARAMS, X25519).bytes(CKA_PUBLIC_KEY_INFO, &spki); sec.push((CKA_VALUE, pat(32, 0x42))); }
        DH => {
            t = t.bytes(CKA_PRIME, &FFDHE2048_P).bytes(CKA_BASE, &[2]);
            sec.push((CKA_VALUE, pat(40, 0x43)));
        }
        DATA => t = t.bytes(CKA_VALUE, &pat(9, 0x44)),
        CERT => t = t.bytes(CKA_SUBJECT, b"subj").bytes(CKA_VALUE, &pat(12, 0x45)),
        _ => t = t.bytes(CKA_MODULUS, &pat(128, 0xc3)).bytes(CKA_PUBLIC_EXPONENT, &[1, 0, 1]),
    }
    for (a, v) in &sec { t.add(*a, v); }
    Kind { t, secrets: sec }
}
