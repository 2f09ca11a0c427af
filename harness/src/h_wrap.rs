//! C17: wrapping and unwrapping
use crate::h_aes::*;
use crate::keys::*;
use crate::p11::*;
use crate::*;
use kryoptic_lib::verif;
use std::ptr::null_mut;

pub const NMECH: u64 = 9;
/// wrapping mechanisms: AES modes, then RSA
const W: [u64; 9] = [ECB, CBC, CBC_PAD, WRAP, KWP, GCM, CCM, 100, 101];
struct Wm { aes: Option<M>, mode: u64, oaep: Box<CK_RSA_PKCS_OAEP_PARAMS> }
impl Wm {
    fn new(i: u64, n: usize) -> Wm {
        let mode = W[i as usize];
        Wm { aes: if mode < 100 { Some(mk(mode, [3; 16], [9; 5], n, 128, 16)) } else { None }, mode, oaep: Box::new(CK_RSA_PKCS_OAEP_PARAMS { hashAlg: CKM_SHA256, mgf: CKG_MGF1_SHA256, source: CKZ_DATA_SPECIFIED, pSourceData: null_mut(), ulSourceDataLen: 0 }) }
    }
    fn m(&mut self) -> CK_MECHANISM {
        match &mut self.aes {
            Some(m) => CK_MECHANISM { mechanism: m.m.mechanism, pParameter: m.m.pParameter, ulParameterLen: m.m.ulParameterLen },
            None => if self.mode == 100 { mech(CKM_RSA_PKCS) } else { mech_p(CKM_RSA_PKCS_OAEP, &mut *self.oaep) },
        }
    }
}
/// template of the key that wraps and the one that unwraps
fn wkeys(i: u64, s: H, wrap: u8, token: bool) -> (H, H) {
    let (mut w, mut u) = (0, 0);
    if W[i as usize] < 100 {
        let mut t = kind(AES).t.bb(CKA_WRAP, wrap).b(CKA_UNWRAP, true).b(CKA_TOKEN, token).bytes(CKA_LABEL, b"wkey");
        let rv = create(s, &mut t, &mut w);
        check!(rv == CKR_OK, "wrapping key");
        u = w;
    } else {
        let mut t = kind(RSAPUB).t.bb(CKA_WRAP, wrap).b(CKA_TOKEN, token).bytes(CKA_LABEL, b"wkey");
        let rv = create(s, &mut t, &mut w);
        check!(rv == CKR_OK, "wrapping key");
        let mut t = kind(RSA).t.b(CKA_UNWRAP, true).b(CKA_TOKEN, false);
        let rv = create(s, &mut t, &mut u);
        check!(rv == CKR_OK, "unwrapping key");
    }
    (w, u)
}
fn class_of(k: u64) -> (CK_OBJECT_CLASS, CK_KEY_TYPE) {
    match k {
        AES => (CKO_SECRET_KEY, CKK_AES), GENERIC => (CKO_SECRET_KEY, CKK_GENERIC_SECRET), HKDF => (CKO_SECRET_KEY, CKK_HKDF), HMAC => (CKO_SECRET_KEY, CKK_SHA256_HMAC),
        HOTP => (CKO_OTP_KEY, CKK_HOTP), RSA => (CKO_PRIVATE_KEY, CKK_RSA), EC => (CKO_PRIVATE_KEY, CKK_EC), DH => (CKO_PRIVATE_KEY, CKK_DH), _ => (CKO_PRIVATE_KEY, CKK_EC_MONTGOMERY),
    }
}
fn ut(k: u64) -> T {
    let (c, t) = class_of(k);
    let mut t = T::new().ul(CKA_CLASS, c).ul(CKA_KEY_TYPE, t).b(CKA_TOKEN, false);
    if k == HOTP { t = t.ul(CKA_OTP_FORMAT, CK_OTP_FORMAT_DECIMAL).ul(CKA_OTP_LENGTH, 6).ul(CKA_OTP_COUNTER_REQUIREMENT, CK_OTP_PARAM_OPTIONAL); }
    t
}
fn strip(v: &[u8]) -> &[u8] {
    let mut i = 0;
    while i < v.len() && v[i] == 0 { i += 1; }
    &v[i..]
}
fn no_key(s: H, s2: H) {
    // nothing but the objects made before
    let mut l = [0 as H; 8];
    let mut t = T::new().bytes(CKA_LABEL, b"got");
    let (rv, n) = find(s, &mut t, &mut l);
    check!(rv == CKR_OK && n == 0, "no key comes out of a refused unwrapping");
    let _ = s2;
}

/// p0: mechanism, p1: kind of key, p2: secret key length (0: default), p3: 1 = who may wrap (flags symbolic), 0 = the value round trip
#[unsafe(no_mangle)]
pub extern "C" fn h_wrap() {
    boot("plain0");
    let i = vf::param(0, 0) as u64;
    let k = vf::param(1, 0) as u64;
    let len = vf::param(2, 0) as usize;
    let gates = vf::param(3, 0) == 1;
    let s = open(true);
    let rv = login(s, CKU_USER, USER_PIN);
    check!(rv == CKR_OK, "login");
    let (ext, sens, wwt, wrap, trusted) = if gates { (vf::u8_z(z!("extractable")), vf::u8_z(z!("sensitive")), vf::u8_z(z!("with trusted")), vf::u8_z(z!("wrap")), vf::bool_z(z!("trusted"))) } else { (1, 0, 0, 1, false) };
    let (wk, uk) = wkeys(i, s, wrap, true);
    if trusted { verif::raw_set_bool(0, 0, CKA_TRUSTED, true); }
    // what the wrapping key asks for itself makes no difference
    if gates { let own = vf::bool_z(z!("its own")); verif::raw_set_bool(0, 0, CKA_WRAP_WITH_TRUSTED, own); }
    if k >= DATA {
        let mut t = kind(k).t.b(CKA_TOKEN, false);
        let mut h = 0;
        let rv = create(s, &mut t, &mut h);
        check!(rv == CKR_OK, "create");
        let mut out = [0u8; 1024];
        let mut n: CK_ULONG = 1024;
        let mut mw = Wm::new(i, 16);
        let mut m = mw.m();
        let rv = call!(C_WrapKey(s, &mut m, wk, h, out.as_mut_ptr(), &mut n));
        check!(rv != CKR_OK, "only keys with secrets are wrapped");
        crate::ops::untouched(&out);
        cover!("refused");
        expect!("refused");
        return;
    }
    // the key
    let mut kd = kind(k);
    if len > 0 { kd.secrets[0].1 = pat(len, 0x6b); }
    if !gates {
        for (_, v) in kd.secrets.iter_mut() {
            let n = v.len();
            // first and last byte matter for encodings
            if k != RSA { vf::bytes_z(&mut v[..1], z!("first")); }
            vf::bytes_z(&mut v[n - 1..], z!("last"));
        }
        if k == RSA { let v = &mut kd.secrets[0].1; vf::bytes_z(&mut v[..1], z!("first")); }
    }
    let mut t = T::new();
    for (j, a) in kd.t.a.iter().enumerate() {
        match kd.secrets.iter().find(|x| x.0 == a.type_) { Some(x) => t.add(a.type_, &x.1), None => t.add(a.type_, kd.t.val(j)) }
    }
    t = t.b(CKA_TOKEN, false).bb(CKA_EXTRACTABLE, ext).bb(CKA_SENSITIVE, sens).bb(CKA_WRAP_WITH_TRUSTED, wwt).bytes(CKA_LABEL, b"key");
    if k == HOTP { t = t.ul(CKA_OTP_FORMAT, CK_OTP_FORMAT_DECIMAL).ul(CKA_OTP_LENGTH, 6).ul(CKA_OTP_COUNTER_REQUIREMENT, CK_OTP_PARAM_OPTIONAL); }
    let mut h = 0;
    let rv = create(s, &mut t, &mut h);
    check!(rv == CKR_OK, "create the key");
    let secret = matches!(k, AES | GENERIC | HKDF | HMAC | HOTP);
    let mut mw = Wm::new(i, kd.secrets[0].1.len());
    let mode = mw.mode;
    if gates {
        let mut out = [0u8; 2048];
        // asking for the length or for the key
        let query = vf::bool_z(z!("query"));
        let mut n: CK_ULONG = 2048;
        let mut m = mw.m();
        let rv = call!(C_WrapKey(s, &mut m, wk, h, if query { null_mut() } else { out.as_mut_ptr() }, &mut n));
        let can = k != DH && (mode != WRAP || kd.secrets[0].1.len() % 8 == 0) && (mode < 100 || k != RSA || query);
        let may = can & (ext != 0) & (wrap != 0) & ((wwt == 0) | trusted);
        // whether the encoding of a private key fits depends on its length
        let maybe = !secret && (mode == WRAP || mode == CCM || mode >= 100);
        check!((rv == CKR_OK) == may || maybe && rv != CKR_OK, "a key is wrapped exactly if it may leave and the wrapping key may take it");
        if rv != CKR_OK { crate::ops::untouched(&out); check!(n == 2048, "not even its length"); cover!("refused"); } else { cover!("wrapped"); }
        if can && !maybe { expect!("wrapped"); }
        expect!("refused");
        return;
    }
    // how much space it takes
    let mut n: CK_ULONG = 0;
    let mut m = mw.m();
    let rv = call!(C_WrapKey(s, &mut m, wk, h, null_mut(), &mut n));
    vf::out(rv as u64);
    if rv != CKR_OK {
        // what is not supported at all
        check!(k == DH || (mode == WRAP && kd.secrets[0].1.len() % 8 != 0) || (!secret && (mode == CCM || mode == WRAP)), "every other key can be wrapped");
        cover!("not supported");
        return;
    }
    let need = n as usize;
    check!(need < 1400, "a plausible length");
    let mut out = vec![0xEEu8; need + 16];
    if need > 1 {
        let mut short = vec![1, need / 2, need - 1];
        let c = short.swap_remove(vf::choose_z(3, z!("short")) as usize).max(1);
        let mut n = c as CK_ULONG;
        let mut m = mw.m();
        let rv = call!(C_WrapKey(s, &mut m, wk, h, out.as_mut_ptr(), &mut n));
        check!(rv == CKR_BUFFER_TOO_SMALL, "too little space");
        for x in &out[c..] { check!(*x == 0xEE, "no byte beyond the buffer"); }
        out.fill(0xEE);
    }
    let extra = vf::choose_z(2, z!("spare")) as usize * 9;
    let mut n = (need + extra) as CK_ULONG;
    let mut m = mw.m();
    let rv = call!(C_WrapKey(s, &mut m, wk, h, out.as_mut_ptr(), &mut n));
    if mode >= 100 && k == RSA { check!(rv != CKR_OK, "too long for RSA"); cover!("not supported"); return; }
    check!(rv == CKR_OK, "wrapping succeeds");
    check!(n as usize <= need, "the promised length suffices");
    for x in &out[need + extra..] { check!(*x == 0xEE, "no byte beyond the buffer"); }
    let blob = &mut out[..n as usize];
    if secret && mode < 100 {
        let mut v = kd.secrets[0].1.clone();
        if mode == ECB || mode == CBC { while v.len() % 16 != 0 { v.push(0); } }
        let r = reference(mode, &pat(16, 0x5a), &[3; 16], &[9; 5], 16, &v);
        check!(r == *blob, "the value is encrypted with the wrapping key");
    }
    // and back
    let padded = (mode == ECB || mode == CBC) && kd.secrets[0].1.len() % 16 != 0;
    let with_len = secret && vf::bool_z(z!("with length"));
    let shape = vf::choose_z(4, z!("template"));
    let flag = vf::u8_z(z!("flag"));
    let mut tt = ut(k).bytes(CKA_LABEL, b"got").b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true).bb(CKA_SIGN, flag);
    if with_len { tt = tt.ul(CKA_VALUE_LEN, kd.secrets[0].1.len() as CK_ULONG); }
    let mut refuse = false;
    match shape {
        0 => {}
        1 => {
            // as another kind of key
            let o = if secret { EC } else { match k { RSA => EC, EC => MONT, _ => RSA } };
            tt = ut(o).bytes(CKA_LABEL, b"got");
            refuse = true;
        }
        // what the caller may not decide: refused or without effect
        2 => { tt = tt.bytes(if k == RSA { CKA_PRIVATE_EXPONENT } else { CKA_VALUE }, &pat(16, 1)); }
        _ => { tt = tt.b(CKA_LOCAL, true).b(CKA_ALWAYS_SENSITIVE, true).b(CKA_NEVER_EXTRACTABLE, true); }
    }
    let mut g = 0;
    // CCM is told how much there is to decrypt
    let mut m = mw.m();
    let rv = call!(C_UnwrapKey(s, &mut m, uk, blob.as_mut_ptr(), blob.len() as CK_ULONG, tt.p(), tt.n(), &mut g));
    vf::out(rv as u64);
    if refuse {
        check!(rv != CKR_OK, "an unsuitable template is refused");
        check!(g == 0, "no handle");
        no_key(s, s);
        cover!("refused");
        return;
    }
    // nobody knows how much of it is padding
    if padded && !with_len { return; }
    if rv != CKR_OK { check!(g == 0, "no handle"); no_key(s, s); if shape != 0 { cover!("refused"); return; } }
    check!(rv == CKR_OK, "unwrapping succeeds");
    for (a, v) in &kd.secrets {
        let mut b = [0u8; 160];
        let (rv, l) = get_attr(s, g, *a, &mut b);
        check!(rv == CKR_OK, "the value can be read");
        if secret || k == EC || k == MONT { check!(b[..l as usize] == v[..], "the same value"); } else { check!(strip(&b[..l as usize]) == strip(v), "the same value"); }
    }
    if k == RSA {
        for (a, v) in [(CKA_MODULUS, pat(128, 0xc3)), (CKA_PUBLIC_EXPONENT, vec![1, 0, 1])] {
            let mut b = [0u8; 160];
            let (rv, l) = get_attr(s, g, a, &mut b);
            check!(rv == CKR_OK && b[..l as usize] == v[..], "the public components");
        }
    }
    if k == EC || k == MONT {
        let mut b = [0u8; 16];
        let (rv, l) = get_attr(s, g, CKA_EC_PARAMS, &mut b);
        check!(rv == CKR_OK && b[..l as usize] == *(if k == EC { P256 } else { X25519 }), "the curve");
    }
    if secret { check!(get_ul(s, g, CKA_VALUE_LEN) == Some(kd.secrets[0].1.len() as CK_ULONG), "the length"); }
    check!(get_bool(s, g, CKA_SIGN) == Some(flag != 0), "attributes of the template");
    let (c, ty) = class_of(k);
    check!(get_ul(s, g, CKA_CLASS) == Some(c) && get_ul(s, g, CKA_KEY_TYPE) == Some(ty), "class and type");
    for a in [CKA_LOCAL, CKA_ALWAYS_SENSITIVE, CKA_NEVER_EXTRACTABLE, CKA_WRAP_WITH_TRUSTED] { check!(get_bool(s, g, a) == Some(false), "the origin of the key"); }
    cover!("back");
}
