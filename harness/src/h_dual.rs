//! C31: dual-function calls are two calls in one, and the output may replace the input
use crate::h_aes::{aeskey, init, mk, reference, M};
use crate::ossl_stub::*;
use crate::p11::*;
use crate::*;
use std::ptr::null_mut;

/// p0: 0 digest-encrypt, 1 decrypt-digest, 2 sign-encrypt, 3 decrypt-verify; p1: AES mode;
/// p2: where the input is (0 apart, n + 1: n bytes into the output); p3: steps; p4: sizes up to
#[unsafe(no_mangle)]
pub extern "C" fn h_dual() {
    boot("plain0");
    unsafe { ORACLE = true };
    let kind = vf::param(0, 0);
    let mode = vf::param(1, 1) as u64;
    let same = vf::param(2, 0) as usize;
    let steps = vf::param(3, 3);
    let enc = kind == 0 || kind == 2;
    let s = open(true);
    let kv = [0x11u8; 16];
    let iv = [0x22u8; 16];
    let aad = [0x33u8; 5];
    let k = aeskey(s, &kv);
    let hk = [0x44u8; 20];
    let mut t = T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_GENERIC_SECRET).bytes(CKA_VALUE, &hk).b(CKA_PRIVATE, false).b(CKA_SIGN, true).b(CKA_VERIFY, true);
    let mut g = 0;
    let rv = create(s, &mut t, &mut g);
    check!(rv == CKR_OK, "create a key");
    // everything that is to be encrypted
    let n = 32usize;
    let mut data = vec![0x5au8; n];
    vf::bytes_z(&mut data[..2], z!("data"));
    vf::bytes_z(&mut data[15..18], z!("data2"));
    let ct = reference(mode, &kv, &iv, &aad, 12, &data);
    let src = if enc { data.clone() } else { ct.clone() };
    let total = src.len();
    let mut m: M = mk(mode, iv, aad, n, 128, 12);
    let rv = init(s, enc, &mut m, k);
    check!(rv == CKR_OK, "init");
    let companion = |on: bool| -> CK_RV {
        let mut h = mech(CKM_SHA256);
        let mut a = mech(CKM_SHA256_HMAC);
        match (kind, on) {
            (0 | 1, true) => call!(C_DigestInit(s, &mut h)),
            (2, true) => call!(C_SignInit(s, &mut a, g)),
            (_, true) => call!(C_VerifyInit(s, &mut a, g)),
            (0 | 1, false) => call!(C_DigestInit(s, null_mut())),
            (2, false) => call!(C_SignInit(s, null_mut(), 0)),
            (_, false) => call!(C_VerifyInit(s, null_mut(), 0)),
        }
    };
    let rv = companion(true);
    check!(rv == CKR_OK, "init of the other operation");
    let mut out: Vec<u8> = Vec::new();
    let mut hashed: Vec<u8> = Vec::new();
    let mut at = 0;
    let mut i = 0;
    while i < steps {
        i += 1;
        let left = total - at;
        let l = if i == steps { left } else { match vf::choose_z(5, z!("len")) { 0 => 1, 1 => 7, 2 => 15, 3 => 16, _ => 17 }.min(left) };
        if l == 0 { continue; }
        let how = vf::choose_z(if same > 0 { 2 } else { 5 }, z!("how"));
        let cap = l + 48;
        let mut b = vec![0xEEu8; cap + same];
        let mut d = src[at..at + l].to_vec();
        let mut dp = d.as_mut_ptr();
        if same > 0 {
            b[same - 1..same - 1 + l].copy_from_slice(&d);
            dp = b[same - 1..].as_mut_ptr();
        }
        let mut w = cap as CK_ULONG;
        let dual = |p: *mut u8, w: &mut CK_ULONG, dp: *mut u8| -> CK_RV {
            match kind {
                0 => call!(C_DigestEncryptUpdate(s, dp, l as CK_ULONG, p, w)),
                1 => call!(C_DecryptDigestUpdate(s, dp, l as CK_ULONG, p, w)),
                2 => call!(C_SignEncryptUpdate(s, dp, l as CK_ULONG, p, w)),
                _ => call!(C_DecryptVerifyUpdate(s, dp, l as CK_ULONG, p, w)),
            }
        };
        let mut both = true;
        match how {
            // the cipher alone
            1 => {
                let rv = if enc { call!(C_EncryptUpdate(s, dp, l as CK_ULONG, b.as_mut_ptr(), &mut w)) } else { call!(C_DecryptUpdate(s, dp, l as CK_ULONG, b.as_mut_ptr(), &mut w)) };
                check!(rv == CKR_OK, "the cipher alone");
                both = false;
                cover!("cipher alone");
            }
            // a length query first, and too little space
            2 => {
                let mut q: CK_ULONG = 0;
                let rv = dual(null_mut(), &mut q, dp);
                check!(rv == CKR_OK, "length query");
                if q > 0 {
                    let mut c = q - 1;
                    let rv = dual(b.as_mut_ptr(), &mut c, dp);
                    if rv == CKR_OK {
                        w = c;
                    } else {
                        check!(rv == CKR_BUFFER_TOO_SMALL, "too little space");
                        cover!("too small");
                        w = q;
                        let rv = dual(b.as_mut_ptr(), &mut w, dp);
                        check!(rv == CKR_OK, "the space asked for is enough");
                    }
                } else {
                    let rv = dual(b.as_mut_ptr(), &mut w, dp);
                    check!(rv == CKR_OK, "both in one call");
                }
            }
            // without the other operation nothing happens
            3 => {
                if !hashed.is_empty() { return; }
                let rv = companion(false);
                check!(rv == CKR_OK, "cancel the other operation");
                let rv = dual(b.as_mut_ptr(), &mut w, dp);
                check!(rv == CKR_OPERATION_NOT_INITIALIZED, "both operations have to be there");
                let mut x = 0u8;
                for y in &b { x |= *y ^ 0xEE; }
                check!(x == 0, "no output of a refused call");
                let rv = companion(true);
                check!(rv == CKR_OK, "init of the other operation");
                w = cap as CK_ULONG;
                let rv = dual(b.as_mut_ptr(), &mut w, dp);
                check!(rv == CKR_OK, "both in one call");
                cover!("other missing");
            }
            // without the cipher nothing happens
            4 => {
                if at > 0 { return; }
                let rv = if enc { call!(C_EncryptInit(s, null_mut(), 0)) } else { call!(C_DecryptInit(s, null_mut(), 0)) };
                check!(rv == CKR_OK, "cancel the cipher");
                let rv = dual(b.as_mut_ptr(), &mut w, dp);
                check!(rv == CKR_OPERATION_NOT_INITIALIZED, "both operations have to be there");
                let rv = init(s, enc, &mut m, k);
                check!(rv == CKR_OK, "init");
                w = cap as CK_ULONG;
                let rv = dual(b.as_mut_ptr(), &mut w, dp);
                check!(rv == CKR_OK, "both in one call");
                cover!("cipher missing");
            }
            _ => {
                let rv = dual(b.as_mut_ptr(), &mut w, dp);
                check!(rv == CKR_OK, "both in one call");
            }
        }
        check!(w as usize <= cap, "no more output than space");
        if w as usize > cap { return; }
        if both { hashed.extend_from_slice(if enc { &src[at..at + l] } else { &b[..w as usize] }); }
        out.extend_from_slice(&b[..w as usize]);
        at += l;
    }
    // the ends, in either order
    let order = vf::bool_z(z!("order"));
    for e in 0..2 {
        if (e == 0) == order {
            let mut b = [0u8; 64];
            let mut w: CK_ULONG = 64;
            let rv = if enc { call!(C_EncryptFinal(s, b.as_mut_ptr(), &mut w)) } else { call!(C_DecryptFinal(s, b.as_mut_ptr(), &mut w)) };
            check!(rv == CKR_OK, "end of the cipher");
            out.extend_from_slice(&b[..(w as usize).min(64)]);
        } else {
            let exp = if kind < 2 { ref_hash(b"SHA256", &hashed) } else { ref_hmac(b"SHA256", 64, &hk, &hashed) };
            let mut b = [0u8; 64];
            let mut w: CK_ULONG = 64;
            if hashed.is_empty() { cover!("nothing hashed"); continue; }
            if kind == 3 {
                let mut sg = exp.clone();
                let x = vf::u8_z(z!("flip"));
                sg[3] ^= x;
                let rv = call!(C_VerifyFinal(s, sg.as_mut_ptr(), sg.len() as CK_ULONG));
                check!((rv == CKR_OK) == (x == 0), "verified is what was decrypted");
            } else {
                let rv = if kind == 2 { call!(C_SignFinal(s, b.as_mut_ptr(), &mut w)) } else { call!(C_DigestFinal(s, b.as_mut_ptr(), &mut w)) };
                check!(rv == CKR_OK, "end of the other operation");
                check!(b[..(w as usize).min(64)] == exp[..], "the result covers the data of the calls for both");
            }
        }
    }
    check!(out == if enc { ct } else { data }, "the cipher covers all data");
    cover!("end");
    expect!("end");
}
