//! C15 AES: the result does not depend on how the data is split or how output
//! space is asked for; C14 output buffer conventions; C16 integrity
use crate::ossl_stub::*;
use crate::p11::*;
use crate::*;
use std::ptr::{null, null_mut};

pub const ECB: u64 = 0;
pub const CBC: u64 = 1;
pub const CBC_PAD: u64 = 2;
pub const CTR: u64 = 3;
pub const CTS: u64 = 4;
pub const GCM: u64 = 5;
pub const CCM: u64 = 6;
pub const OFB: u64 = 7;
pub const CFB8: u64 = 8;
pub const CFB128: u64 = 9;
pub const WRAP: u64 = 10;
pub const KWP: u64 = 11;
const TAG: usize = 12;

/// mechanism parameters that stay alive with the mechanism
pub struct M { pub m: CK_MECHANISM, iv: Box<[u8; 16]>, aad: Box<[u8; 5]>, gcm: Box<CK_GCM_PARAMS>, ccm: Box<CK_CCM_PARAMS>, ctr: Box<CK_AES_CTR_PARAMS>, pub tag: usize }
pub fn mk(mode: u64, iv: [u8; 16], aad: [u8; 5], n: usize, ctrbits: u64, tag: usize) -> M {
    let mut r = M { m: mech(0), iv: Box::new(iv), aad: Box::new(aad), gcm: Box::new(CK_GCM_PARAMS { pIv: null_mut(), ulIvLen: 12, ulIvBits: 96, pAAD: null_mut(), ulAADLen: 5, ulTagBits: tag as CK_ULONG * 8 }),
        ccm: Box::new(CK_CCM_PARAMS { ulDataLen: n as CK_ULONG, pNonce: null_mut(), ulNonceLen: 12, pAAD: null_mut(), ulAADLen: 5, ulMACLen: tag as CK_ULONG }),
        ctr: Box::new(CK_AES_CTR_PARAMS { ulCounterBits: ctrbits, cb: iv }), tag };
    r.m = match mode {
        ECB => mech(CKM_AES_ECB),
        CBC => mech_b(CKM_AES_CBC, &mut r.iv[..]),
        CBC_PAD => mech_b(CKM_AES_CBC_PAD, &mut r.iv[..]),
        CTS => mech_b(CKM_AES_CTS, &mut r.iv[..]),
        OFB => mech_b(CKM_AES_OFB, &mut r.iv[..]),
        CFB8 => mech_b(CKM_AES_CFB8, &mut r.iv[..]),
        CFB128 => mech_b(CKM_AES_CFB128, &mut r.iv[..]),
        WRAP => mech_b(CKM_AES_KEY_WRAP, &mut r.iv[..8]),
        KWP => mech_b(CKM_AES_KEY_WRAP_KWP, &mut r.iv[..4]),
        CTR => mech_p(CKM_AES_CTR, &mut *r.ctr),
        GCM => { r.gcm.pIv = r.iv.as_mut_ptr(); r.gcm.pAAD = r.aad.as_mut_ptr(); mech_p(CKM_AES_GCM, &mut *r.gcm) }
        _ => { r.ccm.pNonce = r.iv.as_mut_ptr(); r.ccm.pAAD = r.aad.as_mut_ptr(); mech_p(CKM_AES_CCM, &mut *r.ccm) }
    };
    r
}
/// what libcrypto makes of the whole data in one go
pub fn reference(mode: u64, key: &[u8], iv: &[u8; 16], aad: &[u8; 5], tag: usize, data: &[u8]) -> Vec<u8> {
    let nm: &[u8] = match (mode, key.len()) {
        (ECB, 16) => b"AES-128-ECB\0", (CBC | CBC_PAD, 16) => b"AES-128-CBC\0", (CTR, 16) => b"AES-128-CTR\0", (CTS, 16) => b"AES-128-CBC-CTS\0", (GCM, 16) => b"AES-128-GCM\0", (CCM, 16) => b"AES-128-CCM\0",
        (OFB, 16) => b"AES-128-OFB\0", (CFB8, 16) => b"AES-128-CFB8\0", (CFB128, 16) => b"AES-128-CFB\0", (WRAP, 16) => b"AES-128-WRAP\0", (KWP, 16) => b"AES-128-WRAP-PAD\0",
        (ECB, 32) => b"AES-256-ECB\0", (CBC | CBC_PAD, 32) => b"AES-256-CBC\0", (CTR, 32) => b"AES-256-CTR\0", (CTS, 32) => b"AES-256-CBC-CTS\0", (GCM, 32) => b"AES-256-GCM\0", (CCM, 32) => b"AES-256-CCM\0",
        (OFB, 32) => b"AES-256-OFB\0", (CFB8, 32) => b"AES-256-CFB8\0", (CFB128, 32) => b"AES-256-CFB\0", (WRAP, 32) => b"AES-256-WRAP\0", _ => b"AES-256-WRAP-PAD\0",
    };
    unsafe {
        let ci = EVP_CIPHER_fetch(null_mut(), nm.as_ptr() as *const _, null());
        let c = EVP_CIPHER_CTX_new() as *mut CCtx;
        EVP_CipherInit_ex2(c, ci as *const Cipher, null(), null(), 1, null());
        let aead = mode == GCM || mode == CCM;
        if aead { EVP_CIPHER_CTX_ctrl(c, 9, 12, null_mut()); }
        if mode == CCM { EVP_CIPHER_CTX_ctrl(c, 17, tag as i32, null_mut()); }
        EVP_CipherInit_ex2(c, null(), key.as_ptr(), if mode == ECB { null() } else { iv.as_ptr() }, 1, null());
        let mut n = 0;
        if mode == CCM { EVP_CipherUpdate(c, null_mut(), &mut n, null(), data.len() as i32); }
        if aead { EVP_CipherUpdate(c, null_mut(), &mut n, aad.as_ptr(), 5); }
        EVP_CIPHER_CTX_set_padding(c, (mode == CBC_PAD) as i32);
        let mut out = vec![0u8; data.len() + 48];
        assert!(EVP_CipherUpdate(c, out.as_mut_ptr(), &mut n, data.as_ptr(), data.len() as i32) == 1);
        let mut w = n as usize;
        assert!(EVP_CipherFinal_ex(c, out.as_mut_ptr().add(w), &mut n) == 1);
        w += n as usize;
        if aead { assert!(EVP_CIPHER_CTX_ctrl(c, 16, tag as i32, out.as_mut_ptr().add(w)) == 1); w += tag; }
        out.truncate(w);
        EVP_CIPHER_CTX_free(c as *mut _);
        EVP_CIPHER_free(ci);
        out
    }
}
pub fn aeskey(s: H, v: &[u8]) -> H {
    let mut t = T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_AES).bytes(CKA_VALUE, v).b(CKA_TOKEN, false).b(CKA_PRIVATE, false).b(CKA_ENCRYPT, true).b(CKA_DECRYPT, true).b(CKA_WRAP, true).b(CKA_UNWRAP, true);
    let mut h = 0;
    let rv = create(s, &mut t, &mut h);
    check!(rv == CKR_OK, "create an AES key");
    h
}
/// 0: input and output are apart; n + 1: the input starts n bytes into the output
pub static mut INPLACE: u8 = 0;
pub fn init(s: H, enc: bool, m: &mut M, k: H) -> CK_RV {
    if enc { call!(C_EncryptInit(s, &mut m.m, k)) } else { call!(C_DecryptInit(s, &mut m.m, k)) }
}
/// one call of kind 0 = one-shot, 1 = update, 2 = final with output space `cap` (None: a length query)
fn step(s: H, enc: bool, kind: u64, d: &mut [u8], cap: Option<usize>, out: &mut Vec<u8>) -> (CK_RV, usize) {
    // an exact allocation: the engine reports any write beyond the space announced
    // (with the data in the same place: room for the larger of the two)
    let same = unsafe { INPLACE };
    let mut b = vec![0xEEu8; cap.unwrap_or(0).max(if same > 0 { d.len() + same as usize - 1 } else { 0 })].into_boxed_slice();
    let p = if cap.is_some() { b.as_mut_ptr() } else { null_mut() };
    let mut n = cap.unwrap_or(0) as CK_ULONG;
    let dn = d.len() as CK_ULONG;
    let mut dp = d.as_mut_ptr();
    if same > 0 && kind < 2 {
        let at = same as usize - 1;
        b[at..at + d.len()].copy_from_slice(d);
        dp = b[at..].as_mut_ptr();
    }
    let rv = match (kind, enc) {
        (0, true) => call!(C_Encrypt(s, dp, dn, p, &mut n)),
        (0, false) => call!(C_Decrypt(s, dp, dn, p, &mut n)),
        (1, true) => call!(C_EncryptUpdate(s, dp, dn, p, &mut n)),
        (1, false) => call!(C_DecryptUpdate(s, dp, dn, p, &mut n)),
        (_, true) => call!(C_EncryptFinal(s, p, &mut n)),
        _ => call!(C_DecryptFinal(s, p, &mut n)),
    };
    let n = n as usize;
    if let Some(c) = cap {
        if rv == CKR_OK {
            check!(n <= c, "no more output than space");
            out.extend_from_slice(&b[..n.min(c)]);
        }
    }
    (rv, n)
}
/// proto 0: plenty of space; 1: ask for the length first and give exactly that; 2: too little space first (`cut` bytes)
fn full(s: H, enc: bool, kind: u64, d: &mut [u8], proto: u64, cut: usize, out: &mut Vec<u8>) -> CK_RV {
    if proto == 0 { return step(s, enc, kind, d, Some(d.len() + 64), out).0; }
    let (rv, q) = step(s, enc, kind, d, None, out);
    if rv != CKR_OK { return rv; }
    check!(q <= d.len() + 64, "sane length");
    if proto == 2 && q > 0 {
        let c = if cut < q { cut } else { q - 1 };
        let l0 = out.len();
        let (rv, _) = step(s, enc, kind, d, Some(c), out);
        if rv == CKR_OK { check!(out.len() - l0 <= c, "fits"); cover!("smaller space was enough"); return rv; }
        check!(rv == CKR_BUFFER_TOO_SMALL, "too little space is reported as such");
        cover!("too small");
        let (rv, q2) = step(s, enc, kind, d, None, out);
        check!((rv == CKR_OK) & (q2 == q), "the operation survives CKR_BUFFER_TOO_SMALL");
    }
    step(s, enc, kind, d, Some(q), out).0
}
fn valid_len(mode: u64, n: usize) -> bool {
    match mode { ECB | CBC => n % 16 == 0, CTS => n >= 16, WRAP => n % 8 == 0 && n >= 16, KWP | CCM => n > 0, _ => true }
}
/// p0: mode; p1: 1 = decrypt; p2: output protocol; p3: number of pieces (0 = one-shot); p4: largest length; p5: key length; p6: smallest length; p7: where the input is (INPLACE)
#[unsafe(no_mangle)]
pub extern "C" fn h_aes_stream() {
    boot("plain0");
    let mode = vf::param(0, 0) as u64;
    let enc = vf::param(1, 0) == 0;
    let proto = vf::param(2, 0) as u64;
    let parts = vf::param(3, 0) as usize;
    let max = vf::param(4, 35) as u64;
    let min = vf::param(6, 0) as u64;
    unsafe { INPLACE = vf::param(7, 0) as u8 };
    let s = open(true);
    let mut kv = vec![0x11u8; vf::param(5, 16) as usize];
    vf::bytes_z(&mut kv[..2], z!("key"));
    let mut iv = [0x22u8; 16];
    vf::bytes_z(&mut iv[..2], z!("iv"));
    let mut aad = [0x33u8; 5];
    vf::bytes_z(&mut aad[..2], z!("aad"));
    let n = (min + vf::choose_z(max - min + 1, z!("n"))) as usize;
    let mut data = vec![0u8; n];
    vf::bytes_z(&mut data, z!("data"));
    let ok = valid_len(mode, n);
    let k = aeskey(s, &kv);
    let mut m = mk(mode, iv, aad, n, 128, TAG);
    let rv = init(s, enc, &mut m, k);
    if mode == CCM && n == 0 { check!(rv == CKR_MECHANISM_PARAM_INVALID, "no data"); cover!("end"); return; }
    check!(rv == CKR_OK, "init");
    // a NULL data pointer is refused: nothing to do for no data in one go
    let (mut inp, exp) = if enc {
        let e = if ok { reference(mode, &kv, &iv, &aad, TAG, &data) } else { vec![] };
        (data, e)
    } else {
        if !ok { cover!("end"); return; }
        (reference(mode, &kv, &iv, &aad, TAG, &data), data)
    };
    let total = inp.len();
    let cut = if proto == 2 { vf::choose_z(17, z!("cut")) as usize } else { 0 };
    let mut out: Vec<u8> = Vec::new();
    let mut rv;
    if parts == 0 {
        rv = full(s, enc, 0, &mut inp, proto, cut, &mut out);
    } else {
        let mut at = 0;
        rv = CKR_OK;
        for i in 0..parts {
            let l = if i + 1 == parts { total - at } else { vf::choose_z((total - at + 1) as u64, z!("split")) as usize };
            rv = full(s, enc, 1, &mut inp[at..at + l], proto, cut, &mut out);
            if rv != CKR_OK { break; }
            at += l;
        }
        if rv == CKR_OK { rv = full(s, enc, 2, &mut [], proto, cut, &mut out); }
    }
    vf::out(rv as u64);
    if ok {
        check!(rv == CKR_OK, "the operation succeeds");
        if rv == CKR_OK {
            check!(out.len() == exp.len(), "output length");
            if out.len() == exp.len() { check!(out == exp, "output as if processed in one go"); }
        }
        cover!("done");
    } else {
        check!(rv != CKR_OK, "data of invalid length is refused");
    }
    // the operation is over either way
    let mut one = [0u8; 16];
    let (rv, _) = step(s, enc, 1, &mut one, Some(64), &mut vec![]);
    check!(rv == CKR_OPERATION_NOT_INITIALIZED, "the operation is over");
    cover!("end");
    expect!("end", "done");
}

/// AES-CTR: the counter never leaves its ulCounterBits, however the data is split
/// p0: 1 = decrypt; p1: counter bits (0 = 1..=12)
#[unsafe(no_mangle)]
pub extern "C" fn h_aes_ctr() {
    boot("plain0");
    let enc = vf::param(0, 0) == 0;
    let bits = 1 + vf::choose_z(12, z!("bits"));
    let s = open(true);
    let kv = [0x11u8; 16];
    let k = aeskey(s, &kv);
    let mut iv = [0x22u8; 16];
    vf::bytes_z(&mut iv[14..], z!("ctr"));
    // the counter value and the number of blocks before it wraps
    let ctr = (((iv[14] as u64) << 8) | iv[15] as u64) & ((1 << bits) - 1);
    let room = (1u64 << bits) - ctr;
    let mut m = mk(CTR, iv, [0; 5], 0, bits, 0);
    let rv = init(s, enc, &mut m, k);
    if rv != CKR_OK { check!(room < 2, "a counter with room is accepted"); return; }
    let mut total = 0usize;
    let mut out = Vec::new();
    let data = [0u8; 40];
    let mut rv = CKR_OK;
    let mut n = 0;
    while n < 3 {
        let l = match vf::choose_z(6, z!("len")) { 0 => 1, 1 => 15, 2 => 16, 3 => 17, 4 => 32, _ => 33 };
        let mut d = data;
        rv = step(s, enc, 1, &mut d[..l], Some(40), &mut out).0;
        total += l;
        if rv != CKR_OK { break; }
        n += 1;
    }
    let need = ((total + 15) / 16) as u64;
    if rv == CKR_OK {
        check!(need <= room, "the counter does not wrap");
        check!(out == reference(CTR, &kv, &iv, &[0; 5], 0, &vec![0u8; total]), "output");
        let rv = step(s, enc, 2, &mut [], Some(0), &mut out).0;
        check!(rv == CKR_OK, "data that fits is processed to the end");
        cover!("done");
    } else {
        check!(need >= room, "data that fits is accepted");
        cover!("refused");
    }
    expect!("done", "refused");
}

/// integrity: with a random oracle for a tag, nothing but what was encrypted decrypts
/// p0: mode GCM, CCM; p1: tag length; p2: 0 one-shot, 1 two pieces, 2 C_UnwrapKey
#[unsafe(no_mangle)]
pub extern "C" fn h_aes_tamper() {
    boot("plain0");
    let mode = vf::param(0, GCM as i64) as u64;
    let tag = vf::param(1, 12) as usize;
    let how = vf::param(2, 0);
    let n = vf::param(3, 17) as usize;
    let s = open(true);
    let mut kv = [0x11u8; 16];
    vf::bytes_z(&mut kv[..1], z!("key"));
    let k = aeskey(s, &kv);
    unsafe { ORACLE = true };
    let iv = [0x22u8; 16];
    let aad = [0x33u8; 5];
    let mut data = vec![0x44u8; n];
    vf::bytes_z(&mut data[..2], z!("data"));
    let mut out = Vec::new();
    let mut m = mk(mode, iv, aad, n, 0, tag);
    if init(s, true, &mut m, k) != CKR_OK { check!(false, "init"); return; }
    let rv = step(s, true, 0, &mut data, Some(n + tag), &mut out).0;
    check!((rv == CKR_OK) & (out.len() == n + tag), "encrypt");
    // what arrives
    let mut len = n + tag;
    let (mut iv2, mut aad2, mut c2) = (iv, aad, out.clone());
    // (a forged body together with a forged tag is a guess of the tag: outside)
    match vf::choose_z(6, z!("what")) {
        0 => vf::bytes_z(&mut c2[..n], z!("ct")),
        5 => vf::bytes_z(&mut c2[n..], z!("tag")),
        1 => { vf::bytes_z(&mut iv2[..12], z!("iv")); }
        2 => vf::bytes_z(&mut aad2, z!("aad")),
        3 => { len = vf::choose_z((n + tag) as u64, z!("len")) as usize; c2.truncate(len); }
        _ => { c2.push(vf::u8_z(z!("extra"))); len += 1; }
    }
    let same = (len == n + tag) & (iv2 == iv) & (aad2 == aad) & (c2 == out);
    let mut m = mk(mode, iv2, aad2, n, 0, tag);
    let mut dec = Vec::new();
    let rv = if how == 2 {
        let mut t = T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_GENERIC_SECRET).b(CKA_TOKEN, false).b(CKA_EXTRACTABLE, true).b(CKA_SENSITIVE, false).b(CKA_PRIVATE, false);
        let mut h = 0;
        if len == 0 { return; }
        let rv = call!(C_UnwrapKey(s, &mut m.m, k, c2.as_mut_ptr(), len as CK_ULONG, t.p(), t.n(), &mut h));
        if rv == CKR_OK {
            let mut b = [0u8; 64];
            let (rv, l) = get_attr(s, h, CKA_VALUE, &mut b);
            check!(rv == CKR_OK, "value");
            dec = b[..l as usize].to_vec();
        } else { check!(h == 0, "no object"); }
        rv
    } else {
        if init(s, false, &mut m, k) != CKR_OK { check!(false, "init"); return; }
        if how == 0 {
            step(s, false, 0, &mut c2, Some(n + tag + 1), &mut dec).0
        } else {
            let at = vf::choose_z(len as u64 + 1, z!("split")) as usize;
            let mut rv = step(s, false, 1, &mut c2[..at], Some(n + tag + 1), &mut dec).0;
            if rv == CKR_OK { rv = step(s, false, 1, &mut c2[at..], Some(n + tag + 1), &mut dec).0; }
            if rv == CKR_OK { rv = step(s, false, 2, &mut [], Some(16), &mut dec).0; }
            rv
        }
    };
    if same { check!((rv == CKR_OK) & (dec == data), "what was encrypted decrypts"); cover!("same"); }
    else { check!(rv != CKR_OK, "nothing else decrypts"); cover!("tampered"); }
    expect!("same", "tampered");
}

/// key wrap and padding: a modified wrapped key is refused, a padded plaintext comes back exactly
/// p0: mode WRAP/KWP; p1: length; p2: 1 = C_UnwrapKey
#[unsafe(no_mangle)]
pub extern "C" fn h_aes_kw() {
    boot("plain0");
    let mode = vf::param(0, WRAP as i64) as u64;
    let n = vf::param(1, 16) as usize;
    let s = open(true);
    let kv = [0x11u8; 16];
    let k = aeskey(s, &kv);
    let iv = [0xa6u8; 16];
    let mut data = vec![0x44u8; n];
    vf::bytes_z(&mut data, z!("data"));
    let exp = reference(mode, &kv, &iv, &[0; 5], 0, &data);
    // wrap by C_WrapKey and by C_Encrypt agree with libcrypto
    let mut t = T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_GENERIC_SECRET).bytes(CKA_VALUE, &data).b(CKA_TOKEN, false).b(CKA_EXTRACTABLE, true).b(CKA_PRIVATE, false);
    let mut g = 0;
    let rv = create(s, &mut t, &mut g);
    check!(rv == CKR_OK, "create");
    let mut m = mk(mode, iv, [0; 5], n, 0, 0);
    let mut q: CK_ULONG = 0;
    let rv = call!(C_WrapKey(s, &mut m.m, k, g, null_mut(), &mut q));
    check!(rv == CKR_OK, "length query");
    let mut b = vec![0u8; q as usize];
    let mut l = q;
    let rv = call!(C_WrapKey(s, &mut m.m, k, g, b.as_mut_ptr(), &mut l));
    check!(rv == CKR_OK, "wrap");
    check!((l <= q) & (b[..l as usize] == exp[..]), "wrapped key");
    // too little space
    let cut = vf::choose_z(q, z!("cut"));
    let mut b2 = vec![0u8; cut as usize];
    let mut l2 = cut;
    if cut > 0 {
        let rv = call!(C_WrapKey(s, &mut m.m, k, g, b2.as_mut_ptr(), &mut l2));
        check!((rv == CKR_BUFFER_TOO_SMALL) | ((rv == CKR_OK) & (l2 <= cut)), "too small");
    }
    // a modified one
    let i = vf::choose_z(exp.len() as u64, z!("at")) as usize;
    let x = vf::u8_z(z!("xor"));
    let mut c = exp.clone();
    c[i] ^= x;
    let mut t = T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_GENERIC_SECRET).b(CKA_TOKEN, false).b(CKA_EXTRACTABLE, true).b(CKA_SENSITIVE, false).b(CKA_PRIVATE, false);
    let mut h = 0;
    let rv = call!(C_UnwrapKey(s, &mut m.m, k, c.as_mut_ptr(), c.len() as CK_ULONG, t.p(), t.n(), &mut h));
    if x == 0 {
        check!(rv == CKR_OK, "unwrap");
        let mut b = [0u8; 64];
        let (rv, l) = get_attr(s, h, CKA_VALUE, &mut b);
        check!((rv == CKR_OK) & (l as usize == n) & (b[..n] == data[..]), "the key comes back");
        cover!("same");
    } else {
        check!((rv != CKR_OK) & (h == 0), "a modified wrapped key is refused");
        cover!("modified");
    }
    expect!("same", "modified");
}

// ---------------------------------------------------------------- message-based
struct Msg { gcm: Box<CK_GCM_MESSAGE_PARAMS>, ccm: Box<CK_CCM_MESSAGE_PARAMS>, iv: Box<[u8; 12]>, tag: Box<[u8; 16]>, mode: u64 }
impl Msg {
    fn new(mode: u64, iv: [u8; 12], n: usize, fixed: u64, gen_: CK_ULONG, tag: usize) -> Msg {
        let mut m = Msg { iv: Box::new(iv), tag: Box::new([0; 16]), mode,
            gcm: Box::new(CK_GCM_MESSAGE_PARAMS { pIv: null_mut(), ulIvLen: 12, ulIvFixedBits: fixed, ivGenerator: gen_, pTag: null_mut(), ulTagBits: tag as CK_ULONG * 8 }),
            ccm: Box::new(CK_CCM_MESSAGE_PARAMS { ulDataLen: n as CK_ULONG, pNonce: null_mut(), ulNonceLen: 12, ulNonceFixedBits: fixed, nonceGenerator: gen_, pMAC: null_mut(), ulMACLen: tag as CK_ULONG }) };
        m.gcm.pIv = m.iv.as_mut_ptr();
        m.gcm.pTag = m.tag.as_mut_ptr();
        m.ccm.pNonce = m.iv.as_mut_ptr();
        m.ccm.pMAC = m.tag.as_mut_ptr();
        m
    }
    fn p(&mut self) -> (*mut std::ffi::c_void, CK_ULONG) {
        if self.mode == GCM { (&mut *self.gcm as *mut _ as *mut _, size_of::<CK_GCM_MESSAGE_PARAMS>() as CK_ULONG) } else { (&mut *self.ccm as *mut _ as *mut _, size_of::<CK_CCM_MESSAGE_PARAMS>() as CK_ULONG) }
    }
}
fn crypt_one(s: H, enc: bool, m: &mut Msg, aad: &mut [u8], d: &mut [u8], cap: Option<usize>, out: &mut Vec<u8>) -> (CK_RV, usize) {
    let same = unsafe { INPLACE };
    let c = cap.unwrap_or(0);
    let mut b = vec![0xEEu8; c.max(if same > 0 { d.len() + same as usize - 1 } else { 0 })].into_boxed_slice();
    let p = if cap.is_some() { b.as_mut_ptr() } else { null_mut() };
    let mut n = c as CK_ULONG;
    let (pp, pl) = m.p();
    let mut dp = d.as_mut_ptr();
    if same > 0 {
        let at = same as usize - 1;
        b[at..at + d.len()].copy_from_slice(d);
        dp = b[at..].as_mut_ptr();
    }
    let rv = if enc { call!(C_EncryptMessage(s, pp, pl, aad.as_mut_ptr(), aad.len() as CK_ULONG, dp, d.len() as CK_ULONG, p, &mut n)) }
        else { call!(C_DecryptMessage(s, pp, pl, aad.as_mut_ptr(), aad.len() as CK_ULONG, dp, d.len() as CK_ULONG, p, &mut n)) };
    if rv == CKR_OK && cap.is_some() { check!(n as usize <= c, "no more output than space"); out.extend_from_slice(&b[..(n as usize).min(c)]); }
    (rv, n as usize)
}
/// one message: how 0 = one-shot with queried space, 1 = one-shot after too little space, 2 = begin/next in two pieces
fn crypt_msg(s: H, enc: bool, how: u64, m: &mut Msg, aad: &mut [u8], d: &mut [u8], out: &mut Vec<u8>) -> CK_RV {
    if how < 2 {
        let (rv, q) = crypt_one(s, enc, m, aad, d, None, out);
        check!((rv == CKR_OK) & (q == d.len()), "length query");
        if how == 1 {
            let (rv, _) = crypt_one(s, enc, m, aad, d, Some(d.len() - 1), out);
            check!(rv == CKR_BUFFER_TOO_SMALL, "too little space");
        }
        return crypt_one(s, enc, m, aad, d, Some(q), out).0;
    }
    let (pp, pl) = m.p();
    let rv = if enc { call!(C_EncryptMessageBegin(s, pp, pl, aad.as_mut_ptr(), aad.len() as CK_ULONG)) } else { call!(C_DecryptMessageBegin(s, pp, pl, aad.as_mut_ptr(), aad.len() as CK_ULONG)) };
    if rv != CKR_OK { return rv; }
    // (a piece without data is refused)
    let at = 1 + vf::choose_z(d.len() as u64, z!("split")) as usize;
    let all = [(0, at, if at == d.len() { CKF_END_OF_MESSAGE } else { 0 }), (at, d.len(), CKF_END_OF_MESSAGE)];
    for (a, e, fl) in &all[..if at == d.len() { 1 } else { 2 }] {
        let b = vec![0xEEu8; d.len()].into_boxed_slice();
        let mut n = b.len() as CK_ULONG;
        let mut dp = unsafe { d.as_mut_ptr().add(*a) };
        let same = unsafe { INPLACE };
        let mut b = if same == 0 { b } else {
            n += same as CK_ULONG - 1;
            let at = same as usize - 1;
            let mut b = vec![0xEEu8; d.len() + at].into_boxed_slice();
            b[at..at + *e - *a].copy_from_slice(&d[*a..*e]);
            dp = b[at..].as_mut_ptr();
            b
        };
        let rv = if enc { call!(C_EncryptMessageNext(s, pp, pl, dp, (*e - *a) as CK_ULONG, b.as_mut_ptr(), &mut n, *fl)) } else { call!(C_DecryptMessageNext(s, pp, pl, dp, (*e - *a) as CK_ULONG, b.as_mut_ptr(), &mut n, *fl)) };
        if rv != CKR_OK { return rv; }
        check!(n as usize <= b.len(), "no more output than space");
        out.extend_from_slice(&b[..(n as usize).min(b.len())]);
    }
    CKR_OK
}
/// p0: GCM/CCM; p1: number of messages (0: one that is tampered with); p2: where the input is (INPLACE)
#[unsafe(no_mangle)]
pub extern "C" fn h_msg() {
    boot("plain0");
    let mode = vf::param(0, GCM as i64) as u64;
    let cnt = vf::param(1, 2);
    unsafe { INPLACE = vf::param(2, 0) as u8 };
    let s = open(true);
    let mut kv = [0x11u8; 16];
    vf::bytes_z(&mut kv[..2], z!("key"));
    let k = aeskey(s, &kv);
    let mut mm = mech(if mode == GCM { CKM_AES_GCM } else { CKM_AES_CCM });
    let rv = call!(C_MessageEncryptInit(s, &mut mm, k));
    let rv2 = call!(C_MessageDecryptInit(s, &mut mm, k));
    check!((rv == CKR_OK) & (rv2 == CKR_OK), "init");
    for i in 0..cnt {
        let n = if i > 0 { 5 } else { match vf::choose_z(4, z!("n")) { 0 => 1usize, 1 => 5, 2 => 16, _ => 18 } };
        let mut d = vec![0u8; n];
        vf::bytes_z(&mut d, z!("data"));
        let mut iv = [0x55u8; 12];
        vf::bytes_z(&mut iv[..2], z!("iv"));
        let mut aad = [0x33u8; 5];
        vf::bytes_z(&mut aad[..2], z!("aad"));
        let mut m = Msg::new(mode, iv, n, 0, CKG_NO_GENERATE, 12);
        let mut out = Vec::new();
        let how = vf::choose_z(3, z!("how"));
        let rv = crypt_msg(s, true, how, &mut m, &mut aad, &mut d, &mut out);
        check!(rv == CKR_OK, "encrypt");
        let mut iv16 = [0u8; 16];
        iv16[..12].copy_from_slice(&iv);
        let exp = reference(mode, &kv, &iv16, &aad, 12, &d);
        check!((out[..] == exp[..n]) & (m.tag[..12] == exp[n..]), "ciphertext and tag");
        check!(*m.iv == iv, "the IV is as given");
        let mut back = Vec::new();
        let how = vf::choose_z(3, z!("how2"));
        let rv = crypt_msg(s, false, how, &mut m, &mut aad, &mut out, &mut back);
        check!((rv == CKR_OK) & (back == d), "decrypt");
        cover!("message");
    }
    if cnt > 0 { expect!("message"); return; }
    // a tampered message
    unsafe { ORACLE = true };
    let n = 5;
    let mut d = vec![0x77u8; n];
    let mut aad = [0x33u8; 5];
    let mut m = Msg::new(mode, [9; 12], n, 0, CKG_NO_GENERATE, 12);
    let mut out = Vec::new();
    let rv = crypt_msg(s, true, 0, &mut m, &mut aad, &mut d, &mut out);
    check!(rv == CKR_OK, "encrypt");
    let mut mask = [0u8; 4];
    vf::bytes_z(&mut mask, z!("mask"));
    let at = vf::choose_z(12, z!("at")) as usize;
    m.tag[at] ^= mask[0];
    m.iv[at] ^= mask[1];
    aad[at % 5] ^= mask[2];
    out[at % 5] ^= mask[3];
    let mut back = Vec::new();
    let how = vf::choose_z(3, z!("how3"));
    let rv = crypt_msg(s, false, how, &mut m, &mut aad, &mut out, &mut back);
    if mask == [0; 4] { check!((rv == CKR_OK) & (back == d), "decrypt"); cover!("same"); } else { check!(rv != CKR_OK, "a tampered message is refused"); cover!("tampered"); }
    expect!("same", "tampered");
}
/// generated IVs. p0: GCM/CCM; p1: generator; p2: messages
#[unsafe(no_mangle)]
pub extern "C" fn h_msg_iv() {
    boot("plain0");
    let mode = vf::param(0, GCM as i64) as u64;
    let g = match vf::param(1, 0) { 0 => CKG_GENERATE, 1 => CKG_GENERATE_COUNTER, 2 => CKG_GENERATE_COUNTER_XOR, _ => CKG_GENERATE_RANDOM };
    let cnt = vf::param(2, 4);
    let s = open(true);
    let kv = [0x11u8; 16];
    let k = aeskey(s, &kv);
    let mut mm = mech(if mode == GCM { CKM_AES_GCM } else { CKM_AES_CCM });
    let rv = call!(C_MessageEncryptInit(s, &mut mm, k));
    check!(rv == CKR_OK, "init");
    let mut base = [0x55u8; 12];
    vf::bytes_z(&mut base[2..5], z!("base"));
    vf::bytes_z(&mut base[11..], z!("base2"));
    let mut seen: Vec<([u8; 12], u64)> = Vec::new();
    let mut aad = [0x33u8; 5];
    for i in 0..cnt {
        let fixed = if g == CKG_GENERATE_RANDOM { match vf::choose_z(4, z!("fixed")) { 0 => 0, 1 => 4, 2 => 25, _ => 32 } } else { match vf::choose_z(7, z!("fixed")) { 0 => 0, 1 => 20, 2 => 32, 3 => 35, 4 => 88, 5 => 94, _ => 95 } };
        let mut m = Msg::new(mode, base, 1, fixed, g, 12);
        let mut out = Vec::new();
        let rv = crypt_one(s, true, &mut m, &mut aad, &mut [1], Some(1), &mut out).0;
        if rv != CKR_OK {
            // only when the generated bits are used up
            check!(g != CKG_GENERATE_RANDOM && fixed >= 64 && (i as u64) >= 1 << (96 - fixed), "an IV can be generated");
            cover!("exhausted");
            continue;
        }
        let mut iv16 = [0u8; 16];
        iv16[..12].copy_from_slice(&*m.iv);
        let exp = reference(mode, &kv, &iv16, &aad, 12, &[1]);
        check!((out[..] == exp[..1]) & (m.tag[..12] == exp[1..]), "the IV used is the IV returned");
        let mut d = 0u8;
        for b in 0..12 {
            let keep = (fixed as usize).saturating_sub(b * 8).min(8);
            let mask = if keep == 0 { 0 } else { 0xffu8 << (8 - keep) };
            d |= (m.iv[b] ^ base[b]) & mask;
        }
        check!(d == 0, "the fixed bits are kept");
        if g != CKG_GENERATE_RANDOM {
            for (o, f) in &seen { if *f == fixed { check!(*o != *m.iv, "an IV is never used twice"); } }
        }
        seen.push((*m.iv, fixed));
        cover!("generated");
    }
    expect!("generated");
}
