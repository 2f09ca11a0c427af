//! C12: the life cycle of operations
use crate::h_aes::{mk, CBC_PAD, ECB, GCM, M};
use crate::keys::*;
use crate::p11::*;
use crate::*;
use std::ptr::null_mut;

#[derive(Clone, Copy, PartialEq)]
enum K { Dig, Enc, Dec, Sign, Ver, VerSig, Find, MEnc, MDec }
use K::*;
const B: usize = 16;
/// kind, mechanism, works in parts
const V: &[(K, CK_ULONG, bool)] = &[
    (Find, 0, true),
    (Dig, CKM_SHA256, true),
    (Enc, CKM_AES_CBC_PAD, true),
    (Dec, CKM_AES_CBC_PAD, true),
    (Sign, CKM_SHA256_HMAC, true),
    (Ver, CKM_SHA256_HMAC, true),
    (VerSig, CKM_SHA256_HMAC, true),
    (MEnc, CKM_AES_GCM, true),
    (MDec, CKM_AES_GCM, true),
    // 9
    (Sign, CKM_AES_CMAC, true),
    (Ver, CKM_AES_CMAC, true),
    (VerSig, CKM_AES_CMAC, true),
    (Sign, CKM_SHA256_RSA_PKCS, true),
    (Ver, CKM_SHA256_RSA_PKCS, true),
    (VerSig, CKM_SHA256_RSA_PKCS, true),
    // 15
    (Sign, CKM_RSA_PKCS, false),
    (Ver, CKM_RSA_PKCS, false),
    (VerSig, CKM_RSA_PKCS, false),
    (Enc, CKM_RSA_PKCS, false),
    (Dec, CKM_RSA_PKCS, false),
    // 20
    (Sign, CKM_ECDSA_SHA256, true),
    (Ver, CKM_ECDSA_SHA256, true),
    (VerSig, CKM_ECDSA_SHA256, true),
    (Sign, CKM_ECDSA, false),
    (Ver, CKM_ECDSA, false),
    (VerSig, CKM_ECDSA, false),
    // 26
    (Enc, CKM_AES_ECB, true),
    (Dec, CKM_AES_ECB, true),
    (Enc, CKM_AES_GCM, true),
    (Dec, CKM_AES_GCM, true),
    (Sign, CKM_SHA256_RSA_PKCS_PSS, true),
    (Ver, CKM_SHA256_RSA_PKCS_PSS, true),
    (Dig, CKM_SHA512, true),
];

/// what a variant needs and what it should come to
struct Var {
    k: K,
    mt: CK_ULONG,
    multi: bool,
    key: H,
    // AES parameters
    aes: Option<M>,
    pss: Box<CK_RSA_PKCS_PSS_PARAMS>,
    /// input of the one-shot call and of the k-th update (1 based)
    one: Vec<u8>,
    part: Vec<Vec<u8>>,
    /// result of the one-shot call; after k updates: result of the whole operation, None if it fails
    res: Vec<u8>,
    whole: Vec<Option<Vec<u8>>>,
    bad: Vec<u8>,
}
fn mech_of(v: &mut Var) -> CK_MECHANISM {
    if v.mt == CKM_SHA256_RSA_PKCS_PSS { return mech_p(v.mt, &mut *v.pss); }
    if v.k == MEnc || v.k == MDec { return mech(v.mt); }
    match &mut v.aes { Some(m) => CK_MECHANISM { mechanism: m.m.mechanism, pParameter: m.m.pParameter, ulParameterLen: m.m.ulParameterLen }, None => mech(v.mt) }
}
fn find_t() -> T { T::new().ul(CKA_CLASS, CKO_DATA) }

fn init(s: H, v: &mut Var) -> CK_RV {
    let mut m = mech_of(v);
    match v.k {
        Find => { let mut t = find_t(); call!(C_FindObjectsInit(s, t.p(), t.n())) }
        Dig => call!(C_DigestInit(s, &mut m)),
        Enc => call!(C_EncryptInit(s, &mut m, v.key)),
        Dec => call!(C_DecryptInit(s, &mut m, v.key)),
        Sign => call!(C_SignInit(s, &mut m, v.key)),
        Ver => call!(C_VerifyInit(s, &mut m, v.key)),
        VerSig => { let mut g = v.res.clone(); call!(C_VerifySignatureInit(s, &mut m, v.key, g.as_mut_ptr(), g.len() as CK_ULONG)) }
        MEnc => call!(C_MessageEncryptInit(s, &mut m, v.key)),
        MDec => call!(C_MessageDecryptInit(s, &mut m, v.key)),
    }
}
fn cancel(s: H, v: &Var) -> CK_RV {
    match v.k {
        Find => call!(C_FindObjectsFinal(s)),
        Dig => call!(C_DigestInit(s, null_mut())),
        Enc => call!(C_EncryptInit(s, null_mut(), 0)),
        Dec => call!(C_DecryptInit(s, null_mut(), 0)),
        Sign => call!(C_SignInit(s, null_mut(), 0)),
        Ver => call!(C_VerifyInit(s, null_mut(), 0)),
        VerSig => call!(C_VerifySignatureInit(s, null_mut(), 0, null_mut(), 0)),
        MEnc => call!(C_MessageEncryptInit(s, null_mut(), 0)),
        MDec => call!(C_MessageDecryptInit(s, null_mut(), 0)),
    }
}
/// one-shot call: cap None asks for the length
fn oneshot(s: H, v: &Var, bad: bool, cap: Option<usize>, out: &mut Vec<u8>) -> CK_RV {
    let mut d = if bad && v.k != Ver { v.bad.clone() } else { v.one.clone() };
    let mut b = vec![0u8; cap.unwrap_or(0)];
    let p = if cap.is_some() { b.as_mut_ptr() } else { null_mut() };
    let mut n = b.len() as CK_ULONG;
    let (dp, dn) = (d.as_mut_ptr(), d.len() as CK_ULONG);
    let rv = match v.k {
        Dig => call!(C_Digest(s, dp, dn, p, &mut n)),
        Enc => call!(C_Encrypt(s, dp, dn, p, &mut n)),
        Dec => call!(C_Decrypt(s, dp, dn, p, &mut n)),
        Sign => call!(C_Sign(s, dp, dn, p, &mut n)),
        Ver => { let mut g = if bad { v.bad.clone() } else { v.res.clone() }; n = 0; call!(C_Verify(s, dp, dn, g.as_mut_ptr(), g.len() as CK_ULONG)) }
        VerSig => { n = 0; call!(C_VerifySignature(s, dp, dn)) }
        _ => 0,
    };
    if rv == CKR_OK && cap.is_some() { out.extend_from_slice(&b[..n as usize]); }
    rv
}
fn update(s: H, v: &Var, k: usize, out: &mut Vec<u8>) -> CK_RV {
    let mut d = v.part[k].clone();
    let mut b = [0u8; 256];
    let p = b.as_mut_ptr();
    let mut n = 256;
    let (dp, dn) = (d.as_mut_ptr(), d.len() as CK_ULONG);
    let rv = match v.k {
        Dig => { n = 0; call!(C_DigestUpdate(s, dp, dn)) }
        Enc => call!(C_EncryptUpdate(s, dp, dn, p, &mut n)),
        Dec => call!(C_DecryptUpdate(s, dp, dn, p, &mut n)),
        Sign => { n = 0; call!(C_SignUpdate(s, dp, dn)) }
        Ver => { n = 0; call!(C_VerifyUpdate(s, dp, dn)) }
        VerSig => { n = 0; call!(C_VerifySignatureUpdate(s, dp, dn)) }
        _ => 0,
    };
    if rv == CKR_OK { out.extend_from_slice(&b[..n as usize]); }
    rv
}
fn finish(s: H, v: &Var, k: usize, bad: bool, out: &mut Vec<u8>) -> CK_RV {
    let mut b = [0u8; 256];
    let p = b.as_mut_ptr();
    let mut n = 256;
    let rv = match v.k {
        Dig => call!(C_DigestFinal(s, p, &mut n)),
        Enc => call!(C_EncryptFinal(s, p, &mut n)),
        Dec => call!(C_DecryptFinal(s, p, &mut n)),
        Sign => call!(C_SignFinal(s, p, &mut n)),
        Ver => {
            n = 0;
            let mut g = match (&v.whole[k], bad) { (Some(g), false) => g.clone(), _ => v.bad.clone() };
            call!(C_VerifyFinal(s, g.as_mut_ptr(), g.len() as CK_ULONG))
        }
        VerSig => { n = 0; call!(C_VerifySignatureFinal(s)) }
        _ => 0,
    };
    if rv == CKR_OK { out.extend_from_slice(&b[..n as usize]); }
    rv
}

const N: u8 = 1; // nothing active
const F: u8 = 2; // initialised
const U: u8 = 4; // has been given data
/// the states an operation may be in
struct St { may: u8, k: usize, out: Vec<u8>, known: bool }
const NI: CK_RV = CKR_OPERATION_NOT_INITIALIZED;
const MAXK: usize = 5;

fn none() -> St { St { may: N, k: 0, out: vec![], known: true } }

/// what is left of the states in `may` if action rules (state, outcome accepted, next states) hold
fn rules(st: &mut St, r: &[(u8, bool, u8)]) {
    let mut next = 0;
    for (s, ok, n) in r { if st.may & s != 0 && *ok { next |= n; } }
    check!(next != 0, "the outcome fits the state of the operation");
    st.may = next;
    if next == N { st.k = 0; st.out.clear(); st.known = true; }
}
const NACT: u64 = 9;
fn act(a: u64, s: H, v: &mut Var, st: &mut St) {
    let mut o = vec![];
    if v.k == Find { return act_find(a, s, v, st); }
    if v.k == MEnc || v.k == MDec { return act_msg(a, s, v, st); }
    let verify = v.k == Ver || v.k == VerSig;
    match a {
        0 => {
            let rv = init(s, v);
            rules(st, &[(N, rv == CKR_OK, F), (F | U, rv == CKR_OPERATION_ACTIVE, st.may & (F | U))]);
            cover!("init");
        }
        1 => { let rv = cancel(s, v); rules(st, &[(N | F | U, rv == CKR_OK, N)]); }
        2 => {
            let rv = oneshot(s, v, false, Some(256), &mut o);
            // in the middle of an operation: not claimed for AES, which takes it for the last part
            let (k, exact, fresh, mut sofar) = (st.k, st.known && st.may == U, st.may & U == 0, std::mem::take(&mut st.out));
            let aes = v.aes.is_some();
            rules(st, &[(N, rv == NI, N), (F, rv == CKR_OK, N), (U, aes && rv == CKR_OK, N), (U, rv != CKR_OK, N | U)]);
            if exact {
                sofar.extend_from_slice(&o);
                if v.k == Enc && rv == CKR_OK && k < MAXK { check!(sofar == *v.whole[k + 1].as_ref().unwrap(), "the result of the parts"); }
            } else if fresh && rv == CKR_OK && !verify && !(v.k == Enc && v.mt == CKM_RSA_PKCS) { check!(o == v.res, "the one-shot result"); cover!("one-shot"); }
            if st.may & U != 0 { st.known = false; }
        }
        3 => {
            // data that makes the call fail; the operation ends
            if v.bad.is_empty() { return; }
            let aes = v.aes.is_some();
            let rv = oneshot(s, v, true, Some(256), &mut o);
            rules(st, &[(N, rv == NI, N), (F, rv != CKR_OK && rv != NI, N), (U, aes || rv != CKR_OK, N | U)]);
            if st.may & U != 0 { st.known = false; }
            cover!("failure");
        }
        4 => {
            if !v.multi || st.k + 1 > MAXK { return; }
            let k = st.k;
            let rv = update(s, v, k, &mut st.out);
            rules(st, &[(N, rv == NI, N), (F | U, rv == CKR_OK, U)]);
            if rv == CKR_OK { st.k += 1; cover!("update"); }
        }
        5 | 6 => {
            if !v.multi || (a == 6 && v.k != Ver) { return; }
            let mut out = std::mem::take(&mut st.out);
            let (k, known) = (st.k, st.known);
            let rv = finish(s, v, k, a == 6, &mut out);
            let good = a == 5 && v.whole[k].is_some() && (v.k != VerSig || k == 1);
            let exact = known && st.may & N == 0;
            // ending an operation that was given nothing: not claimed for ciphers; most of the others refuse it
            if v.k == Dec && k == 0 && st.may & U == 0 { rules(st, &[(N, rv == NI, N), (F, true, N | F)]); return; }
            rules(st, &[(N, rv == NI, N), (F, rv != CKR_OK, N | F), (F | U, (rv == CKR_OK) == good || !exact, N)]);
            if rv == CKR_OK && exact && !verify { check!(out == *v.whole[k].as_ref().unwrap(), "the result of the parts"); cover!("final"); }
        }
        7 => {
            // a length query changes nothing
            if verify { return; }
            let rv = oneshot(s, v, false, None, &mut o);
            rules(st, &[(N, rv == NI, N), (F, rv == CKR_OK, F), (U, true, U)]);
        }
        _ => {
            // neither does too small a buffer
            if verify { return; }
            let rv = oneshot(s, v, false, Some(3), &mut o);
            rules(st, &[(N, rv == NI, N), (F, rv == CKR_BUFFER_TOO_SMALL, F), (U, v.aes.is_some() || rv != CKR_OK, N | U)]);
            if st.may & N != 0 && st.may & U != 0 { st.known = false; }
        }
    }
}
fn act_find(a: u64, s: H, v: &mut Var, st: &mut St) {
    let mut o = [0; 4];
    let mut n = 9;
    match a {
        0 => { let rv = init(s, v); rules(st, &[(N, rv == CKR_OK, F), (F, rv == CKR_OPERATION_ACTIVE, F)]); if rv == CKR_OK { st.k = 0; } }
        1 | 5 => { let rv = cancel(s, v); rules(st, &[(N, true, N), (F, rv == CKR_OK, N)]); }
        2 | 4 | 7 => {
            let want = if a == 2 { 4 } else if a == 4 { 1 } else { 0 };
            let rv = call!(C_FindObjects(s, o.as_mut_ptr(), want as CK_ULONG, &mut n));
            if want == 0 { rules(st, &[(N, rv != CKR_OK, N), (F, true, F)]); return; }
            let k = st.k;
            rules(st, &[(N, rv == NI, N), (F, rv == CKR_OK, F)]);
            if rv == CKR_OK {
                let left = if st.known { 2 - k } else { 9 };
                check!(n as usize == left.min(want), "as many results as are left");
                st.k = k + n as usize;
                cover!("find");
            }
        }
        _ => {}
    }
}
fn act_msg(a: u64, s: H, v: &mut Var, st: &mut St) {
    // F: between messages, U: in a message
    let mut iv = [3u8; 12];
    let mut tag = [0u8; 16];
    if v.k == MDec { tag.copy_from_slice(&v.bad); }
    let mut p = CK_GCM_MESSAGE_PARAMS { pIv: iv.as_mut_ptr(), ulIvLen: 12, ulIvFixedBits: 0, ivGenerator: CKG_NO_GENERATE, pTag: tag.as_mut_ptr(), ulTagBits: 128 };
    let (pp, pl) = (&mut p as *mut _ as *mut std::ffi::c_void, size_of::<CK_GCM_MESSAGE_PARAMS>() as CK_ULONG);
    let mut out = [0u8; 64];
    let o = out.as_mut_ptr();
    let mut n: CK_ULONG = 64;
    let mut d = v.one.clone();
    let (dp, dn) = (d.as_mut_ptr(), d.len() as CK_ULONG);
    let enc = v.k == MEnc;
    match a {
        0 => { let rv = init(s, v); rules(st, &[(N, rv == CKR_OK, F), (F | U, rv == CKR_OPERATION_ACTIVE, st.may & (F | U))]); cover!("init"); }
        1 => { let rv = cancel(s, v); rules(st, &[(N | F | U, rv == CKR_OK, N)]); }
        2 | 3 => {
            if a == 3 { if enc { return; } tag[15] ^= 1; }
            let rv = if enc { call!(C_EncryptMessage(s, pp, pl, null_mut(), 0, dp, dn, o, &mut n)) } else { call!(C_DecryptMessage(s, pp, pl, null_mut(), 0, dp, dn, o, &mut n)) };
            rules(st, &[(N, rv == NI, N), (F, (rv == CKR_OK) == (a == 2), if rv == CKR_OK { F } else { N | F }), (U, rv != CKR_OK, N | F | U)]);
            if rv == CKR_OK { check!(n as usize == B && out[..B] == v.res[..], "the message"); cover!("one-shot"); }
        }
        4 => {
            let rv = if enc { call!(C_EncryptMessageBegin(s, pp, pl, null_mut(), 0)) } else { call!(C_DecryptMessageBegin(s, pp, pl, null_mut(), 0)) };
            rules(st, &[(N, rv == NI, N), (F, rv == CKR_OK, U), (U, rv != CKR_OK, F | U)]);
            cover!("update");
        }
        5 | 6 => {
            let fl = if a == 6 { CKF_END_OF_MESSAGE } else { 0 };
            let rv = if enc { call!(C_EncryptMessageNext(s, pp, pl, dp, dn, o, &mut n, fl)) } else { call!(C_DecryptMessageNext(s, pp, pl, dp, dn, o, &mut n, fl)) };
            // the tag is that of one block, so decryption ends well after exactly one
            let done = enc || st.k == 0;
            let exact = st.known && st.may == U;
            let k = st.k;
            rules(st, &[(N, rv == NI, N), (F, rv != CKR_OK, F), (U, a == 5 && rv == CKR_OK || !exact, if exact { U } else { F | U }), (U, a == 6 && (rv == CKR_OK) == done || !exact, if rv == CKR_OK { F } else { N | F })]);
            st.k = if a == 6 { 0 } else { k + 1 };
            if st.may != U { st.k = 0; }
            if !exact { st.known = st.may & U == 0; }
        }
        7 => {
            let rv = if enc { call!(C_MessageEncryptFinal(s)) } else { call!(C_MessageDecryptFinal(s)) };
            rules(st, &[(N, rv == NI, N), (F, rv == CKR_OK, N), (U, rv == CKR_OK, N), (U, rv != CKR_OK, U)]);
            cover!("final");
        }
        _ => {}
    }
    if st.may & U == 0 { st.known = true; st.k = 0; }
}

fn build(i: usize, s: H, keys: &[H; 7]) -> Var {
    let (k, mt, multi) = V[i];
    let [aes, gen_, rsa, rsapub, ec, ecpub, _] = *keys;
    let key = match mt {
        CKM_SHA256_HMAC => gen_,
        CKM_RSA_PKCS | CKM_SHA256_RSA_PKCS | CKM_SHA256_RSA_PKCS_PSS => if matches!(k, Enc | Ver | VerSig) { rsapub } else { rsa },
        CKM_ECDSA | CKM_ECDSA_SHA256 => if k == Sign { ec } else { ecpub },
        _ => aes,
    };
    let mode = match mt { CKM_AES_CBC_PAD => Some(CBC_PAD), CKM_AES_ECB => Some(ECB), CKM_AES_GCM => Some(GCM), _ => None };
    let mut v = Var { k, mt, multi, key, aes: mode.map(|m| mk(m, [3; 16], [0; 5], 0, 128, 16)), pss: Box::new(CK_RSA_PKCS_PSS_PARAMS { hashAlg: CKM_SHA256, mgf: CKG_MGF1_SHA256, sLen: 32 }),
        one: vec![0x77; B], part: vec![vec![0x77; B]; MAXK + 1], res: vec![], whole: vec![None; MAXK + 1], bad: vec![] };
    let val = pat(16, 0x5a);
    let refr = |m: u64, n: usize| crate::h_aes::reference(m, &val, &[3; 16], &[0; 5], 16, &vec![0x77u8; n]);
    match k {
        Find => {}
        Enc | Dec if mode.is_some() => {
            let m = mode.unwrap();
            let ct: Vec<Vec<u8>> = (0..MAXK + 1).map(|n| refr(m, B * n)).collect();
            if k == Enc {
                v.res = ct[1].clone();
                for n in 0..=MAXK { v.whole[n] = Some(ct[n].clone()); }
                if m == ECB { v.bad = vec![5; 15]; }
            } else {
                v.one = ct[1].clone();
                v.res = vec![0x77; B];
                v.bad = if m == ECB { vec![5; 15] } else if m == GCM { let mut b = ct[1].clone(); b[0] ^= 1; b } else { vec![5; 17] };
                if m == ECB { for n in 0..=MAXK { v.part[n] = ct[1].clone(); v.whole[n] = Some(vec![0x77; B * n]); } } else {
                    // ciphertext in two parts, then more than there is
                    v.part[0] = ct[1][..16].to_vec();
                    v.part[1] = ct[1][16..].to_vec();
                    for n in 2..=MAXK { v.part[n] = vec![0x11; 16]; }
                    v.whole[2] = Some(vec![0x77; B]);
                }
            }
        }
        Enc => { v.res = vec![]; v.bad = vec![5; 128]; }
        Dec => { let mut c = vec![0x3cu8; 128]; c[..3].copy_from_slice(&[2, 0, 16]); v.one = c; v.res = vec![]; v.bad = vec![5; 100]; }
        MEnc | MDec => {
            let ct = refr(GCM, B);
            // without additional data
            let _ = ct;
        }
        _ => {}
    }
    // results of fresh operations, in one call
    match k {
        MEnc | MDec => {
            let mut e = Var { k: MEnc, mt, multi, key, aes: None, pss: Box::new(CK_RSA_PKCS_PSS_PARAMS { hashAlg: 0, mgf: 0, sLen: 0 }), one: vec![], part: vec![], res: vec![], whole: vec![], bad: vec![] };
            let rv = init(s, &mut e);
            check!(rv == CKR_OK, "message encryption");
            let mut iv = [3u8; 12];
            let mut tag = [0u8; 16];
            let mut p = CK_GCM_MESSAGE_PARAMS { pIv: iv.as_mut_ptr(), ulIvLen: 12, ulIvFixedBits: 0, ivGenerator: CKG_NO_GENERATE, pTag: tag.as_mut_ptr(), ulTagBits: 128 };
            let mut d = [0x77u8; B];
            let mut o = [0u8; B];
            let mut n = B as CK_ULONG;
            let rv = call!(C_EncryptMessage(s, &mut p as *mut _ as *mut _, size_of::<CK_GCM_MESSAGE_PARAMS>() as CK_ULONG, null_mut(), 0, d.as_mut_ptr(), B as CK_ULONG, o.as_mut_ptr(), &mut n));
            check!(rv == CKR_OK, "message encryption");
            let rv = call!(C_MessageEncryptFinal(s));
            check!(rv == CKR_OK, "message encryption");
            if k == MEnc { v.one = d.to_vec(); v.res = o.to_vec(); v.bad = tag.to_vec(); } else { v.one = o.to_vec(); v.res = d.to_vec(); v.bad = tag.to_vec(); }
        }
        Dig | Sign | Ver | VerSig => {
            let skey = match key { x if x == rsapub => rsa, x if x == ecpub => ec, x => x };
            let mut g = Var { k: if k == Dig { Dig } else { Sign }, mt, multi, key: skey, aes: None, pss: Box::new(CK_RSA_PKCS_PSS_PARAMS { hashAlg: CKM_SHA256, mgf: CKG_MGF1_SHA256, sLen: 32 }), one: vec![], part: vec![], res: vec![], whole: vec![], bad: vec![] };
            for n in 0..=MAXK {
                if n != 1 && !multi { continue; }
                g.one = vec![0x77; B * n];
                if n == 0 { g.one.reserve(1); }
                let rv = init(s, &mut g);
                check!(rv == CKR_OK, "reference init");
                let mut o = vec![];
                let rv = oneshot(s, &g, false, Some(256), &mut o);
                check!(rv == CKR_OK, "reference result");
                if n == 1 { v.res = o.clone(); }
                v.whole[n] = Some(o);
            }
            if k == Ver { v.bad = v.res.clone(); v.bad[0] ^= 1; }
            if k == VerSig { v.bad = vec![5; 17]; }
        }
        Dec if mt == CKM_RSA_PKCS => {
            let rv = init(s, &mut v);
            check!(rv == CKR_OK, "reference init");
            let mut o = vec![];
            let rv = oneshot(s, &v, false, Some(256), &mut o);
            check!(rv == CKR_OK, "reference result");
            v.res = o;
        }
        _ => {}
    }
    v
}

/// p0, p1: the variants (p1 < 0: the first one again, in another session);
/// p2: steps; p3: initial state of the first (0 none, 1 initialised, 2 given data)
#[unsafe(no_mangle)]
pub extern "C" fn h_ops() {
    boot("plain0");
    let (va, vb) = (vf::param(0, 2), vf::param(1, 4));
    let steps = vf::param(2, 3);
    let start = vf::param(3, 0);
    let mut s = [open(true), open(true)];
    let rv = login(s[0], CKU_USER, USER_PIN);
    check!(rv == CKR_OK, "login");
    let s3 = open(true);
    let mut keys = [0; 7];
    for (i, k) in [AES, GENERIC, RSA, RSAPUB, EC, 20].iter().enumerate() {
        let mut t = if *k == 20 { ecpub() } else if *k == AES { crate::ops::aes_key(false, true, 0x5a) } else { kind(*k).t.b(CKA_TOKEN, false) };
        if *k != AES {
            let f: &[CK_ATTRIBUTE_TYPE] = match *k { RSA => &[CKA_DECRYPT, CKA_SIGN], RSAPUB => &[CKA_ENCRYPT, CKA_VERIFY], 20 => &[CKA_VERIFY], EC => &[CKA_SIGN], _ => &[CKA_SIGN, CKA_VERIFY] };
            for f in f { t = t.b(*f, true); }
        }
        let rv = create(s3, &mut t, &mut keys[i]);
        check!(rv == CKR_OK, "create a key");
    }
    for _ in 0..2 { let mut t = kind(DATA).t.b(CKA_TOKEN, false); let mut h = 0; let rv = create(s3, &mut t, &mut h); check!(rv == CKR_OK, "create"); }
    check!(vb < 0 || V[va as usize].0 != V[vb as usize].0, "two kinds of operation");
    let mut v = [build(va as usize, s3, &keys), build(if vb < 0 { va } else { vb } as usize, s3, &keys)];
    let other = (vb < 0) as usize;
    let mut st = [none(), none()];
    if start > 0 { act(0, s[0], &mut v[0], &mut st[0]); }
    if start > 1 { act(4, s[0], &mut v[0], &mut st[0]); }
    for _ in 0..steps {
        let op = vf::choose_z(2 * NACT + 2, z!("op"));
        if op < 2 * NACT {
            let i = (op / NACT) as usize;
            let h = s[if i == 1 { other } else { 0 }];
            act(op % NACT, h, &mut v[i], &mut st[i]);
        } else if op == 2 * NACT {
            // cancel what the flags name
            let fl = vf::u64_z(z!("flags"));
            vf::assume(fl & !(flag(&v[0]) | flag(&v[1]) | CKF_DERIVE | CKF_MESSAGE_SIGN) == 0);
            let rv = call!(C_SessionCancel(s[0], fl));
            if fl & (CKF_MESSAGE_SIGN | CKF_MESSAGE_VERIFY) == 0 { check!(rv == CKR_OK, "session cancel"); }
            for i in 0..2 {
                if i == 1 && other == 1 { continue; }
                if fl & flag(&v[i]) != 0 {
                    if v[i].k == VerSig { if st[i].may != N { st[i].may |= N; st[i].known = false; } } else { st[i] = none(); }
                    cover!("session cancel");
                }
            }
        } else {
            // a new session has no operations
            let rv = close(s[0]);
            check!(rv == CKR_OK, "close");
            let old = s[0];
            s[0] = open(true);
            check!(s[0] != old, "new handle");
            st[0] = none();
            if other == 0 { st[1] = none(); }
        }
    }
    cover!("end");
    expect!("end", "session cancel");
}
fn flag(v: &Var) -> CK_FLAGS {
    match v.k { Find => CKF_FIND_OBJECTS, Dig => CKF_DIGEST, Enc => CKF_ENCRYPT, Dec => CKF_DECRYPT, Sign => CKF_SIGN, Ver => CKF_VERIFY, MEnc => CKF_MESSAGE_ENCRYPT, MDec => CKF_MESSAGE_DECRYPT, VerSig => CKF_VERIFY }
}
fn ecpub() -> T {
    let mut p = vec![0x04, 65, 4];
    p.extend_from_slice(&pat(64, 0x55));
    T::new().ul(CKA_CLASS, CKO_PUBLIC_KEY).ul(CKA_KEY_TYPE, CKK_EC).bytes(CKA_EC_PARAMS, P256).bytes(CKA_EC_POINT, &p).b(CKA_TOKEN, false)
}
