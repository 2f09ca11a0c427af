//! C24 calls with missing or nonsensical arguments
use crate::keys;
use crate::ops::*;
use crate::p11::*;
use crate::*;
use std::ptr::null_mut;

/// which argument of the call is wrong
struct W { which: u64, k: u64, must: bool, hit: bool }
impl W {
    fn turn(&mut self) -> bool { self.k += 1; let h = self.k == self.which; self.hit |= h; h }
    /// a pointer that has to be there
    fn p<P>(&mut self, p: *mut P) -> *mut P { if self.turn() { self.must = true; null_mut() } else { p } }
    /// a pointer that may be missing
    fn o<P>(&mut self, p: *mut P) -> *mut P { if self.turn() { null_mut() } else { p } }
    /// data with its length: NULL with a length, NULL without
    fn d<P>(&mut self, p: *mut P, n: CK_ULONG) -> (*mut P, CK_ULONG) {
        if self.turn() { self.must = true; return (null_mut(), n); }
        // no data at all: some functions accept that
        if self.turn() { return (null_mut(), 0); }
        (p, n)
    }
    /// a handle: anything that is none
    fn h(&mut self, h: H) -> H { if self.turn() { self.must = true; [h + 1000, h + 0x10000, u64::MAX][vf::choose_z(3, z!("handle")) as usize] } else { h } }
    /// data that may be missing
    fn od<P>(&mut self, p: *mut P, n: CK_ULONG) -> (*mut P, CK_ULONG) {
        if self.turn() { return (null_mut(), n); }
        if self.turn() { return (null_mut(), 0); }
        (p, n)
    }
    /// mechanism of an operation: none means that the operation is given up
    fn mi(&mut self, m: &mut CK_MECHANISM) -> *mut CK_MECHANISM { self.m2(m, false) }
    fn m(&mut self, m: &mut CK_MECHANISM) -> *mut CK_MECHANISM { self.m2(m, true) }
    /// mechanism
    fn m2(&mut self, m: &mut CK_MECHANISM, needed: bool) -> *mut CK_MECHANISM {
        if self.turn() { self.must |= needed; return null_mut(); }
        if self.turn() { self.must = true; m.mechanism = 0x8000_0000 | vf::u8_z(z!("mechanism")) as CK_ULONG; }
        if m.ulParameterLen != 0 {
            if self.turn() { self.must = true; m.pParameter = null_mut(); }
            if self.turn() { self.must = true; m.pParameter = null_mut(); m.ulParameterLen = 0; }
            if self.turn() { self.must = true; m.ulParameterLen -= 1; }
            if self.turn() { self.must = true; m.ulParameterLen = 1; }
        }
        m
    }
}
fn start(op: u64, s: H, k: &[H; 4]) {
    let mut iv = [3u8; 16];
    let mut cbc = mech_b(CKM_AES_CBC_PAD, &mut iv);
    let mut mac = mech(CKM_AES_CMAC);
    let mut sha = mech(CKM_SHA256);
    let mut gcm = mech(CKM_AES_GCM);
    let mut sig = [0u8; 16];
    let mut t = T::new();
    let rv = match op {
        0 => call!(C_EncryptInit(s, &mut cbc, k[0])),
        1 => call!(C_DecryptInit(s, &mut cbc, k[0])),
        2 => call!(C_DigestInit(s, &mut sha)),
        3 => call!(C_SignInit(s, &mut mac, k[0])),
        4 => call!(C_VerifyInit(s, &mut mac, k[0])),
        5 => call!(C_MessageEncryptInit(s, &mut gcm, k[0])),
        6 => call!(C_MessageDecryptInit(s, &mut gcm, k[0])),
        7 => call!(C_VerifySignatureInit(s, &mut mac, k[0], sig.as_mut_ptr(), 16)),
        _ => call!(C_FindObjectsInit(s, t.p(), 0)),
    };
    check!(rv == CKR_OK, "init");
}
pub const NCALLS: u64 = 73;
fn one(i: u64, w: &mut W, s: H, k: &[H; 4]) -> CK_RV {
    let mut iv = [3u8; 16];
    let mut d = [7u8; 16];
    let mut out = [0u8; 600];
    let mut n: CK_ULONG = 64;
    let mut o: H = 0;
    let mut o2: H = 0;
    let mut t = T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_GENERIC_SECRET).bytes(CKA_VALUE, b"value");
    let mut t0 = T::new().ul(CKA_VALUE_LEN, 16);
    let (tp, tn) = (t.p(), t.n());
    let dp = d.as_mut_ptr();
    let op = out.as_mut_ptr();
    let mut lab = *b"label                           ";
    let mut pin: Vec<u8> = USER_PIN.to_vec();
    let mut pin2: Vec<u8> = USER_PIN.to_vec();
    let mut so: Vec<u8> = SO_PIN.to_vec();
    macro_rules! d { ($p:expr, $n:expr) => { w.d($p, $n as CK_ULONG) } }
    let mut gp = CK_GCM_MESSAGE_PARAMS { pIv: iv.as_mut_ptr(), ulIvLen: 12, ulIvFixedBits: 0, ivGenerator: 0, pTag: null_mut(), ulTagBits: 128 };
    let mut tag = [0u8; 16];
    gp.pTag = tag.as_mut_ptr();
    let gl = std::mem::size_of::<CK_GCM_MESSAGE_PARAMS>() as CK_ULONG;
    let gpp = &mut gp as *mut _ as *mut std::ffi::c_void;
    // the message functions take the parameters of one message
    macro_rules! msgp { ($tag:expr) => { {
        let (mut a, mut b) = (gpp, gl);
        if w.turn() { w.must = true; a = null_mut(); }
        if w.turn() { w.must = true; a = null_mut(); b = 0; }
        if w.turn() { w.must = true; b -= 1; }
        if w.turn() { w.must = true; gp.pIv = null_mut(); }
        if w.turn() { w.must = $tag; gp.pTag = null_mut(); }
        (a, b)
    } } }
    let hdr = |op: u64| start(op, s, k);
    match i {
        0 => { let mut x: CK_INFO = unsafe { std::mem::zeroed() }; call!(C_GetInfo(w.p(&mut x))) }
        1 => { let mut l = [0; 4]; let mut c = 4; call!(C_GetSlotList(1, w.o(l.as_mut_ptr()), w.p(&mut c))) }
        2 => { let mut x: CK_SLOT_INFO = unsafe { std::mem::zeroed() }; call!(C_GetSlotInfo(w.h(SLOT), w.p(&mut x))) }
        3 => { let mut x: CK_TOKEN_INFO = unsafe { std::mem::zeroed() }; call!(C_GetTokenInfo(w.h(SLOT), w.p(&mut x))) }
        4 => { let mut l = [0; 256]; let mut c = 256; call!(C_GetMechanismList(w.h(SLOT), w.o(l.as_mut_ptr()), w.p(&mut c))) }
        5 => { let mut x: CK_MECHANISM_INFO = unsafe { std::mem::zeroed() }; let m = if w.turn() { w.must = true; 0x8765_0000 } else { CKM_AES_CBC }; call!(C_GetMechanismInfo(w.h(SLOT), m, w.p(&mut x))) }
        6 => { let rv = call!(C_CloseAllSessions(SLOT)); check!(rv == CKR_OK, "close all"); let (a, b) = d!(so.as_mut_ptr(), so.len()); if w.hit { w.must = true; } call!(C_InitToken(w.h(SLOT), a, b, w.o(lab.as_mut_ptr()))) }
        7 => { let rv = logout(s); check!(rv == CKR_OK, "logout"); let rv = login(s, CKU_SO, SO_PIN); check!(rv == CKR_OK, "login"); let (a, b) = d!(pin.as_mut_ptr(), pin.len()); call!(C_InitPIN(w.h(s), a, b)) }
        8 => { let (a, b) = d!(pin.as_mut_ptr(), pin.len()); if w.hit { w.must = true; } let (c, e) = d!(pin2.as_mut_ptr(), pin2.len()); call!(C_SetPIN(w.h(s), a, b, c, e)) }
        9 => { let mut h = 0; call!(C_OpenSession(w.h(SLOT), CKF_SERIAL_SESSION, w.o(gpp), None, w.p(&mut h))) }
        10 => { let mut x: CK_SESSION_INFO = unsafe { std::mem::zeroed() }; call!(C_GetSessionInfo(w.h(s), w.p(&mut x))) }
        11 => { hdr(2); w.must = true; call!(C_GetOperationState(w.h(s), w.o(op), w.p(&mut n))) }
        12 => { w.must = true; let (a, b) = d!(dp, 16); call!(C_SetOperationState(w.h(s), a, b, 0, 0)) }
        13 => { let rv = logout(s); check!(rv == CKR_OK, "logout"); let (a, b) = d!(pin.as_mut_ptr(), pin.len()); if w.hit { w.must = true; } call!(C_Login(w.h(s), CKU_USER, a, b)) }
        14 => call!(C_Logout(w.h(s))),
        15 => call!(C_CloseSession(w.h(s))),
        16 => { let (a, b) = d!(tp, tn); if w.hit { w.must = true; } call!(C_CreateObject(w.h(s), a, b, w.p(&mut o))) }
        17 => { let mut t = T::new().bytes(CKA_LABEL, b"x"); let (a, b) = d!(t.p(), 1); call!(C_CopyObject(w.h(s), w.h(k[0]), a, b, w.p(&mut o))) }
        18 => call!(C_DestroyObject(w.h(s), w.h(k[0]))),
        19 => call!(C_GetObjectSize(w.h(s), w.h(k[0]), w.p(&mut n))),
        20 => { let mut a = CK_ATTRIBUTE { type_: CKA_VALUE, pValue: w.o(op as *mut _), ulValueLen: 64 }; let (a, b) = d!(&mut a as *mut CK_ATTRIBUTE, 1); call!(C_GetAttributeValue(w.h(s), w.h(k[0]), a, b)) }
        21 => { let mut a = CK_ATTRIBUTE { type_: CKA_LABEL, pValue: dp as *mut _, ulValueLen: 5 }; d = *b"label label labe"; if w.turn() { w.must = true; a.pValue = null_mut(); } let (a, b) = d!(&mut a as *mut CK_ATTRIBUTE, 1); call!(C_SetAttributeValue(w.h(s), w.h(k[0]), a, b)) }
        22 => { let mut a = CK_ATTRIBUTE { type_: CKA_LABEL, pValue: dp as *mut _, ulValueLen: 5 }; if w.turn() { a.pValue = null_mut(); } let (a, b) = d!(&mut a as *mut CK_ATTRIBUTE, 1); call!(C_FindObjectsInit(w.h(s), a, b)) }
        23 => { hdr(8); let mut l = [0; 4]; let (a, b) = d!(l.as_mut_ptr(), 4); call!(C_FindObjects(w.h(s), a, b, w.p(&mut n))) }
        24 => { hdr(8); call!(C_FindObjectsFinal(w.h(s))) }
        25 => { let mut m = mech_b(CKM_AES_CBC, &mut iv); call!(C_EncryptInit(w.h(s), w.mi(&mut m), w.h(k[0]))) }
        26 => { hdr(0); let (a, b) = d!(dp, 16); call!(C_Encrypt(w.h(s), a, b, w.o(op), w.p(&mut n))) }
        27 => { hdr(0); let (a, b) = d!(dp, 16); call!(C_EncryptUpdate(w.h(s), a, b, w.o(op), w.p(&mut n))) }
        28 => { hdr(0); let rv = call!(C_EncryptUpdate(s, dp, 16, op, &mut n)); check!(rv == CKR_OK, "update"); n = 64; call!(C_EncryptFinal(w.h(s), w.o(op), w.p(&mut n))) }
        29 => { let mut m = mech_b(CKM_AES_CBC, &mut iv); call!(C_DecryptInit(w.h(s), w.mi(&mut m), w.h(k[0]))) }
        30 => { hdr(1); let (a, b) = d!(dp, 16); let rv = call!(C_Decrypt(w.h(s), a, b, w.o(op), w.p(&mut n))); if w.hit { rv } else { CKR_OK } }
        31 => { hdr(1); let (a, b) = d!(dp, 16); call!(C_DecryptUpdate(w.h(s), a, b, w.o(op), w.p(&mut n))) }
        32 => { hdr(1); w.must = true; call!(C_DecryptFinal(w.h(s), op, w.p(&mut n))) }
        33 => { let mut m = mech(CKM_SHA256); call!(C_DigestInit(w.h(s), w.mi(&mut m))) }
        34 => { hdr(2); let (a, b) = d!(dp, 16); call!(C_Digest(w.h(s), a, b, w.o(op), w.p(&mut n))) }
        35 => { hdr(2); let (a, b) = d!(dp, 16); call!(C_DigestUpdate(w.h(s), a, b)) }
        36 => { hdr(2); call!(C_DigestKey(w.h(s), w.h(k[0]))) }
        37 => { hdr(2); call!(C_DigestFinal(w.h(s), w.o(op), w.p(&mut n))) }
        38 => { let mut m = mech(CKM_AES_CMAC); call!(C_SignInit(w.h(s), w.mi(&mut m), w.h(k[0]))) }
        39 => { hdr(3); let (a, b) = d!(dp, 16); call!(C_Sign(w.h(s), a, b, w.o(op), w.p(&mut n))) }
        40 => { hdr(3); let (a, b) = d!(dp, 16); call!(C_SignUpdate(w.h(s), a, b)) }
        41 => { hdr(3); call!(C_SignFinal(w.h(s), w.o(op), w.p(&mut n))) }
        42 => { let mut m = mech(CKM_AES_CMAC); call!(C_VerifyInit(w.h(s), w.mi(&mut m), w.h(k[0]))) }
        43 => { hdr(4); w.must = true; let (a, b) = d!(dp, 16); let (c, e) = d!(op, 16); call!(C_Verify(w.h(s), a, b, c, e)) }
        44 => { hdr(4); let (a, b) = d!(dp, 16); call!(C_VerifyUpdate(w.h(s), a, b)) }
        45 => { hdr(4); w.must = true; let (c, e) = d!(op, 16); call!(C_VerifyFinal(w.h(s), c, e)) }
        46 => { hdr(0); hdr(2); let (a, b) = d!(dp, 16); call!(C_DigestEncryptUpdate(w.h(s), a, b, w.o(op), w.p(&mut n))) }
        47 => { hdr(1); hdr(2); let (a, b) = d!(dp, 16); call!(C_DecryptDigestUpdate(w.h(s), a, b, w.o(op), w.p(&mut n))) }
        48 => { hdr(0); hdr(3); let (a, b) = d!(dp, 16); call!(C_SignEncryptUpdate(w.h(s), a, b, w.o(op), w.p(&mut n))) }
        49 => { hdr(1); hdr(4); let (a, b) = d!(dp, 16); call!(C_DecryptVerifyUpdate(w.h(s), a, b, w.o(op), w.p(&mut n))) }
        50 => { let mut m = mech(CKM_AES_KEY_GEN); let (a, b) = d!(t0.p(), 1); if w.hit { w.must = true; } call!(C_GenerateKey(w.h(s), w.m(&mut m), a, b, w.p(&mut o))) }
        51 => { let mut m = mech(CKM_EC_KEY_PAIR_GEN); let mut t = T::new().bytes(CKA_EC_PARAMS, keys::P256); let mut u = T::new().b(CKA_SIGN, true); let (a, b) = d!(t.p(), 1); if w.hit { w.must = true; } let (c, e) = d!(u.p(), 1); call!(C_GenerateKeyPair(w.h(s), w.m(&mut m), a, b, c, e, w.p(&mut o), w.p(&mut o2))) }
        52 => { let mut m = mech_b(CKM_AES_CBC_PAD, &mut iv); call!(C_WrapKey(w.h(s), w.m(&mut m), w.h(k[0]), w.h(k[0]), w.o(op), w.p(&mut n))) }
        53 => { w.must = true; let mut m = mech_b(CKM_AES_CBC_PAD, &mut iv); let (c, e) = d!(dp, 16); let (a, b) = d!(tp, 2); call!(C_UnwrapKey(w.h(s), w.m(&mut m), w.h(k[0]), c, e, a, b, w.p(&mut o))) }
        54 => { let mut p = CK_KEY_DERIVATION_STRING_DATA { pData: dp, ulLen: 16 }; if w.turn() { w.must = true; p.pData = null_mut(); } let mut m = mech_p(CKM_XOR_BASE_AND_DATA, &mut p); let (a, b) = d!(tp, 2); call!(C_DeriveKey(w.h(s), w.m(&mut m), w.h(k[0]), a, b, w.o(&mut o))) }
        55 => { let (a, b) = d!(dp, 16); call!(C_SeedRandom(w.h(s), a, b)) }
        56 => { let (a, b) = d!(op, 16); call!(C_GenerateRandom(w.h(s), a, b)) }
        57 => { w.must = true; call!(C_WaitForSlotEvent(1, w.p(&mut n), null_mut())) }
        58 => { let mut m = mech(CKM_AES_GCM); call!(C_MessageEncryptInit(w.h(s), w.mi(&mut m), w.h(k[0]))) }
        59 => { hdr(5); let (p, l) = msgp!(true); let (a, b) = w.od(dp, 16); let (c, e) = d!(dp, 16); call!(C_EncryptMessage(w.h(s), p, l, a, b, c, e, w.o(op), w.p(&mut n))) }
        60 => { hdr(5); let (p, l) = msgp!(false); let (a, b) = w.od(dp, 16); call!(C_EncryptMessageBegin(w.h(s), p, l, a, b)) }
        61 => { hdr(5); let rv = call!(C_EncryptMessageBegin(s, gpp, gl, null_mut(), 0)); check!(rv == CKR_OK, "begin"); let (p, l) = msgp!(true); let (c, e) = d!(dp, 16); call!(C_EncryptMessageNext(w.h(s), p, l, c, e, w.o(op), w.p(&mut n), CKF_END_OF_MESSAGE)) }
        62 => { let mut m = mech(CKM_AES_GCM); call!(C_MessageDecryptInit(w.h(s), w.mi(&mut m), w.h(k[0]))) }
        63 => { hdr(6); w.must = true; let (p, l) = msgp!(true); let (a, b) = w.od(dp, 16); let (c, e) = d!(dp, 16); call!(C_DecryptMessage(w.h(s), p, l, a, b, c, e, op, w.p(&mut n))) }
        64 => { hdr(6); let (p, l) = msgp!(false); let (a, b) = w.od(dp, 16); call!(C_DecryptMessageBegin(w.h(s), p, l, a, b)) }
        65 => { hdr(6); w.must = true; let rv = call!(C_DecryptMessageBegin(s, gpp, gl, null_mut(), 0)); check!(rv == CKR_OK, "begin"); let (p, l) = msgp!(true); let (c, e) = d!(dp, 16); call!(C_DecryptMessageNext(w.h(s), p, l, c, e, op, w.p(&mut n), CKF_END_OF_MESSAGE)) }
        66 => { let mut m = mech(CKM_AES_CMAC); let (a, b) = d!(op, 16); if w.hit { w.must = true; } call!(C_VerifySignatureInit(w.h(s), w.mi(&mut m), w.h(k[0]), a, b)) }
        67 => { hdr(7); w.must = true; let (a, b) = d!(dp, 16); call!(C_VerifySignature(w.h(s), a, b)) }
        68 => { hdr(7); let (a, b) = d!(dp, 16); call!(C_VerifySignatureUpdate(w.h(s), a, b)) }
        69 => { let mut c: CK_ULONG = 8; let mut l: [CK_INTERFACE; 8] = unsafe { std::mem::zeroed() }; call!(C_GetInterfaceList(w.o(l.as_mut_ptr()), w.p(&mut c))) }
        70 => { let mut nm = *b"PKCS 11\0"; let mut v = CK_VERSION { major: 3, minor: 0 }; let mut p: CK_INTERFACE_PTR = null_mut(); call!(C_GetInterface(w.o(nm.as_mut_ptr()), w.o(&mut v), w.p(&mut p), 0)) }
        71 => { let mut p = null_mut(); call!(C_GetFunctionList(w.p(&mut p))) }
        _ => { let mut f: CK_FLAGS = 0; w.hit = true; call!(C_GetSessionValidationFlags(w.h(s), 1, w.p(&mut f))) }
    }
}

/// how long a key is asked for: short, or longer than anything could be
fn length(max: u64) -> u64 {
    let l = vf::u64_z(z!("length of the key"));
    vf::assume(l <= max || l > u32::MAX as u64);
    l
}

/// one wrong argument per call. p0: first call, p1: number of calls
#[unsafe(no_mangle)]
pub extern "C" fn h_args() {
    boot("plain0");
    let s = open(true);
    let rv = login(s, CKU_USER, USER_PIN);
    check!(rv == CKR_OK, "login");
    let mut k: [H; 4] = [0; 4];
    let rv = create(s, &mut aes_key(false, false, 0x31), &mut k[0]);
    check!(rv == CKR_OK, "create");
    let i = vf::param(0, 0) as u64 + vf::choose_z(vf::param(1, 1) as u64, z!("call"));
    vf::assume(i < NCALLS);
    let mut w = W { which: vf::choose_z(16, z!("argument")), k: 0, must: false, hit: false };
    let s0 = s;
    let rv = one(i, &mut w, s, &k);
    vf::assume(w.which <= w.k);
    log!("call", i); log!("which", w.which); log!("rv", rv);
    if w.which == 0 && !w.must { check!(rv == CKR_OK || i == 57 || i == 72, "a call with all its arguments succeeds"); cover!("good"); }
    if w.must { check!(rv != CKR_OK, "a call without an argument it needs is refused"); if w.which != 0 { cover!("bad"); } }
    // the library is still there
    let mut h2 = 0;
    let rv = call!(C_OpenSession(SLOT, CKF_SERIAL_SESSION | CKF_RW_SESSION, null_mut(), None, &mut h2));
    check!(rv == CKR_OK, "later calls work");
    let (rv, x) = session_info(h2);
    check!(rv == CKR_OK && x.slotID == SLOT, "later calls work");
    if i != 6 && i != 15 { let (rv, _) = session_info(s0); check!(rv == CKR_OK, "the session is still there"); }
    let (rv, _) = token_info();
    check!(rv == CKR_OK, "the token is still there");
    expect!("bad");
}

use crate::h_derive::*;
/// words of a parameter: p pointer, l length, f free value, h handle, - left alone
type Part = (*mut u64, &'static str);
fn part<P>(p: *mut P, s: &'static str) -> Part { (p as *mut u64, s) }
fn spoil(ps: &[Part]) {
    let total: usize = ps.iter().map(|p| p.1.len()).sum();
    // up to two words at a time
    let a = vf::choose_z(total as u64 + 1, z!("word")) as usize;
    for round in 0..2 {
        let x = if round == 0 { a } else if vf::param(2, 0) == 1 { let b = vf::choose_z(total as u64 + 1, z!("word 2")) as usize; vf::assume(b < a); b } else { break };
        let mut j = 0;
        for (p, s) in ps {
            for (q, c) in s.bytes().enumerate() {
                if j == x {
                    let w = unsafe { &mut *p.add(q) };
                    match c {
                        b'p' => *w = 0,
                        b'l' => *w = match vf::choose_z(3, z!("length")) { 0 => 0, 1 => (*w).min(1), _ => w.saturating_sub(1) },
                        b'f' => *w = vf::u64_z(z!("value")),
                        b'h' => *w = [0, 12345, u64::MAX][vf::choose_z(3, z!("handle")) as usize],
                        _ => (),
                    }
                }
                j += 1;
            }
        }
    }
}
const NP: u64 = 42;
/// p0: mechanism, p1: 1 = all lengths of the result, p2: 1 = two values at a time
#[unsafe(no_mangle)]
pub extern "C" fn h_params() {
    boot("plain0");
    let i = vf::param(0, 0) as u64;
    let s = open(true);
    let rv = login(s, CKU_USER, USER_PIN);
    check!(rv == CKR_OK, "login");
    let mut iv = [3u8; 16];
    let mut d = keys::pat(32, 0x17);
    let mut out = [0u8; 600];
    let mut n: CK_ULONG = 300;
    let mut h: H = 0;
    let mut k: H = 0;
    let kd = match i { 20..=22 => keys::RSAPUB, 23 | 24 => keys::RSA, 30 => keys::HOTP, 25 | 27 | 28 => keys::GENERIC, _ => keys::AES };
    let rv = if i < 17 {
        let v = if matches!(base_kind(i), keys::EC | keys::DH) { vec![] } else { keys::pat(base_len(i), 0x17) };
        let mut t = base_t(i, &v).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true);
        create(s, &mut t, &mut k)
    } else {
        let mut t = keys::kind(kd).t;
        t.put(CKA_TOKEN, &[0]);
        for f in AES_GEN_FLAGS { if !(kd == keys::RSAPUB && matches!(f, CKA_DECRYPT | CKA_SIGN | CKA_UNWRAP | CKA_DERIVE) || kd == keys::RSA && matches!(f, CKA_ENCRYPT | CKA_VERIFY | CKA_WRAP) || kd == keys::HOTP) { t.put(f, &[1]); } }
        if kd == keys::HOTP { t.put(CKA_SIGN, &[1]); t.put(CKA_VERIFY, &[1]); }
        create(s, &mut t, &mut k)
    };
    check!(rv == CKR_OK, "create");
    let rv = match i {
        0..=16 => {
            let mut o: H = 0;
            if i == CAT_KEY || i == HK { let mut t = base_t(i, &keys::pat(8, 0x18)); let rv = create(s, &mut t, &mut o); check!(rv == CKR_OK, "create"); }
            let (mut m, mat) = simple(i, o);
            if i == HK && vf::bool_z(z!("salt key")) { let p = unsafe { &mut *(m.pParameter as *mut CK_HKDF_PARAMS) }; p.ulSaltType = CKF_HKDF_SALT_KEY; p.hSaltKey = o; }
            let mut ps: Vec<Part> = vec![];
            let desc = match i {
                CAT_KEY => "h", CAT_BD | CAT_DB | XOR | AES_E => "pl", EXTRACT => "f", HK => "fffplhpl", CTR_KDF => "flplp", FB_KDF => "flplplp",
                AES_C => "--pl", TLS_M => "plplpf", TLS_K => "ffffplplpf", TLS_G => "fplplplpl", ECDH => "flplp", SSH => "ffplpl", _ => "",
            };
            if i == CTR_KDF || i == FB_KDF {
                // a parameter of every kind
                let c: &'static mut [u64; 2] = Box::leak(Box::new([0, 16]));
                let l: &'static mut [u64; 3] = Box::leak(Box::new([CK_SP800_108_DKM_LENGTH_SUM_OF_KEYS, 0, 16]));
                let mut dp: Vec<CK_PRF_DATA_PARAM> = vec![];
                dp.push(CK_PRF_DATA_PARAM { type_: CK_SP800_108_ITERATION_VARIABLE, pValue: if i == CTR_KDF { c.as_mut_ptr() as *mut _ } else { null_mut() }, ulValueLen: if i == CTR_KDF { 16 } else { 0 } });
                dp.push(prf_param(CK_SP800_108_BYTE_ARRAY, &keys::pat(6, 4)));
                if i == FB_KDF { dp.push(CK_PRF_DATA_PARAM { type_: CK_SP800_108_COUNTER, pValue: c.as_mut_ptr() as *mut _, ulValueLen: 16 }); }
                dp.push(CK_PRF_DATA_PARAM { type_: CK_SP800_108_DKM_LENGTH, pValue: l.as_mut_ptr() as *mut _, ulValueLen: 24 });
                let dp: &'static mut [CK_PRF_DATA_PARAM] = Box::leak(dp.into_boxed_slice());
                for x in dp.iter_mut() { ps.push(part(x, "fpl")); }
                ps.push(part(c.as_mut_ptr(), "-f"));
                ps.push(part(l.as_mut_ptr(), "f-f"));
                let tt: &'static mut T = Box::leak(Box::new(dt(CKK_GENERIC_SECRET, 16)));
                let ad: &'static mut [CK_DERIVED_KEY; 1] = Box::leak(Box::new([CK_DERIVED_KEY { pTemplate: tt.p(), ulAttributeCount: tt.n(), phKey: lk(0 as H) }]));
                ps.push(part(ad.as_mut_ptr(), "plp"));
                if i == CTR_KDF {
                    let p = unsafe { &mut *(m.pParameter as *mut CK_SP800_108_KDF_PARAMS) };
                    p.pDataParams = dp.as_mut_ptr(); p.ulNumberOfDataParams = dp.len() as CK_ULONG; p.pAdditionalDerivedKeys = ad.as_mut_ptr(); p.ulAdditionalDerivedKeys = 1;
                } else {
                    let p = unsafe { &mut *(m.pParameter as *mut CK_SP800_108_FEEDBACK_KDF_PARAMS) };
                    p.pDataParams = dp.as_mut_ptr(); p.ulNumberOfDataParams = dp.len() as CK_ULONG; p.pAdditionalDerivedKeys = ad.as_mut_ptr(); p.ulAdditionalDerivedKeys = 1;
                    p.pIV = lb(&keys::pat(32, 0x61)); p.ulIVLen = 32;
                }
            }
            if i == TLS_K { ps.push(part(mat.as_ref().unwrap().out, "----pp")); }
            if m.pParameter.is_null() || i == FFDH { ps.push(part(&mut m.pParameter, if i == FFDH { "pl" } else { "" })); } else { ps.push(part(m.pParameter as *mut u64, desc)); }
            let mut t = T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, if vf::bool_z(z!("AES")) { CKK_AES } else { CKK_GENERIC_SECRET }).b(CKA_SENSITIVE, false);
            if vf::param(1, 0) == 1 { t = t.ul(CKA_VALUE_LEN, length(64)); } else { t = t.ul(CKA_VALUE_LEN, if i == TLS_M { 48 } else { 16 }); spoil(&ps); }
            if i == TLS_K { let p = unsafe { &*(m.pParameter as *const CK_TLS12_KEY_MAT_PARAMS) }; for x in [p.ulMacSizeInBits, p.ulKeySizeInBits, p.ulIVSizeInBits] { vf::assume(x <= 64 || x > 1 << 20); } }
            let rv = call!(C_DeriveKey(s, &mut m, k, t.p(), t.n(), &mut h));
            let _ = mat;
            rv
        }
        17..=19 | 29 => {
            let mut gcm = CK_GCM_PARAMS { pIv: iv.as_mut_ptr(), ulIvLen: 12, ulIvBits: 96, pAAD: d.as_mut_ptr(), ulAADLen: 5, ulTagBits: 128 };
            let mut ccm = CK_CCM_PARAMS { ulDataLen: 16, pNonce: iv.as_mut_ptr(), ulNonceLen: 7 + 6 * vf::choose_z(2, z!("nonce")), pAAD: d.as_mut_ptr(), ulAADLen: 5, ulMACLen: 16 };
            let mut ctr = CK_AES_CTR_PARAMS { ulCounterBits: 128, cb: [0xff; 16] };
            vf::bytes_z(&mut ctr.cb[14..], z!("counter"));
            let (mut m, p) = match i {
                17 => (mech_p(CKM_AES_GCM, &mut gcm), part(&mut gcm, "plfplf")),
                18 => (mech_p(CKM_AES_CCM, &mut ccm), part(&mut ccm, "fplplf")),
                19 => (mech_p(CKM_AES_CTR, &mut ctr), part(&mut ctr, "f--")),
                _ => { let (a, b) = [(CKM_AES_CTS, 16), (CKM_AES_CBC, 16), (CKM_AES_KEY_WRAP, 8), (CKM_AES_KEY_WRAP_KWP, 4), (CKM_AES_ECB, 0)][vf::choose_z(5, z!("mode")) as usize]; (mech_b(a, &mut iv[..b]), part(std::ptr::null_mut::<u8>(), "")) }
            };
            if i == 29 { spoil(&[part(&mut m.pParameter, "pl")]); } else { spoil(&[p]); }
            let dec = vf::bool_z(z!("decrypt"));
            let wrap = vf::bool_z(z!("wrap"));
            if wrap {
                let mut t = T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_GENERIC_SECRET);
                if dec { call!(C_UnwrapKey(s, &mut m, k, d.as_mut_ptr(), 32, t.p(), t.n(), &mut h)) } else { call!(C_WrapKey(s, &mut m, k, k, out.as_mut_ptr(), &mut n)) }
            } else {
                let rv = if dec { call!(C_DecryptInit(s, &mut m, k)) } else { call!(C_EncryptInit(s, &mut m, k)) };
                if rv == CKR_OK {
                    cover!("started");
                    let q = vf::bool_z(z!("ask"));
                    let o = if q { null_mut() } else { out.as_mut_ptr() };
                    if vf::bool_z(z!("parts")) {
                        if dec { let _ = call!(C_DecryptUpdate(s, d.as_mut_ptr(), 16, o, &mut n)); } else { let _ = call!(C_EncryptUpdate(s, d.as_mut_ptr(), 16, o, &mut n)); }
                        n = 300;
                        if dec { let _ = call!(C_DecryptFinal(s, o, &mut n)); } else { let _ = call!(C_EncryptFinal(s, o, &mut n)); }
                    } else if dec { let _ = call!(C_Decrypt(s, d.as_mut_ptr(), 16, o, &mut n)); } else { let _ = call!(C_Encrypt(s, d.as_mut_ptr(), 16, o, &mut n)); }
                }
                rv
            }
        }
        20 | 23 => {
            let hash = [CKM_SHA_1, CKM_SHA256, CKM_SHA512][vf::choose_z(3, z!("hash")) as usize];
            let mut p = CK_RSA_PKCS_OAEP_PARAMS { hashAlg: hash, mgf: CKG_MGF1_SHA256, source: CKZ_DATA_SPECIFIED, pSourceData: d.as_mut_ptr() as *mut _, ulSourceDataLen: 5 };
            let mut m = mech_p(CKM_RSA_PKCS_OAEP, &mut p);
            spoil(&[part(&mut p, "fffpl")]);
            let rv = if i == 20 { call!(C_EncryptInit(s, &mut m, k)) } else { call!(C_DecryptInit(s, &mut m, k)) };
            if rv == CKR_OK {
                let o = if vf::bool_z(z!("ask")) { null_mut() } else { out.as_mut_ptr() };
                if i == 20 { let _ = call!(C_Encrypt(s, d.as_mut_ptr(), 16, o, &mut n)); } else { let _ = call!(C_Decrypt(s, out.clone().as_mut_ptr(), 128, o, &mut n)); }
            }
            rv
        }
        21 | 24 => {
            let mm = [CKM_RSA_PKCS_PSS, CKM_SHA1_RSA_PKCS_PSS, CKM_SHA256_RSA_PKCS_PSS, CKM_SHA512_RSA_PKCS_PSS][vf::choose_z(4, z!("mechanism")) as usize];
            let mut p = CK_RSA_PKCS_PSS_PARAMS { hashAlg: match mm { CKM_SHA1_RSA_PKCS_PSS => CKM_SHA_1, CKM_SHA512_RSA_PKCS_PSS => CKM_SHA512, _ => CKM_SHA256 }, mgf: CKG_MGF1_SHA256, sLen: 20 };
            let mut m = mech_p(mm, &mut p);
            spoil(&[part(&mut p, "fff")]);
            let rv = if i == 21 { call!(C_VerifyInit(s, &mut m, k)) } else { call!(C_SignInit(s, &mut m, k)) };
            if rv == CKR_OK {
                if i == 21 { let _ = call!(C_Verify(s, d.as_mut_ptr(), 32, out.as_mut_ptr(), 128)); } else { let _ = call!(C_Sign(s, d.as_mut_ptr(), 32, out.as_mut_ptr(), &mut n)); }
            }
            rv
        }
        25 | 26 | 27 => {
            let mut l: CK_ULONG = 8;
            let mut p = CK_TLS_MAC_PARAMS { prfHashMechanism: CKM_SHA256, ulMacLength: 12, ulServerOrClient: 1 };
            let mut m = match i { 25 => mech_p(CKM_SHA256_HMAC_GENERAL, &mut l), 26 => mech_p([CKM_AES_CMAC_GENERAL, CKM_AES_MAC_GENERAL][vf::choose_z(2, z!("mac")) as usize], &mut l), _ => mech_p(CKM_TLS12_MAC, &mut p) };
            spoil(&[if i == 27 { part(&mut p, "fff") } else { part(&mut l, "f") }, part(&mut m.pParameter, "pl")]);
            let ver = vf::bool_z(z!("verify"));
            let sl = vf::choose_z(40, z!("signature length"));
            let rv = if ver { call!(C_VerifyInit(s, &mut m, k)) } else { call!(C_SignInit(s, &mut m, k)) };
            if rv == CKR_OK {
                if ver { let rv = call!(C_Verify(s, d.as_mut_ptr(), 32, out.as_mut_ptr(), sl)); check!(sl > 0 || rv != CKR_OK, "an empty MAC does not verify"); } else { n = sl; let _ = call!(C_Sign(s, d.as_mut_ptr(), 32, out.as_mut_ptr(), &mut n)); }
            }
            rv
        }
        28 => {
            let mut p = CK_PKCS5_PBKD2_PARAMS2 { saltSource: CKZ_SALT_SPECIFIED, pSaltSourceData: d.as_mut_ptr() as *mut _, ulSaltSourceDataLen: 8, iterations: 2, prf: CKP_PKCS5_PBKD2_HMAC_SHA256, pPrfData: null_mut(), ulPrfDataLen: 0, pPassword: iv.as_mut_ptr(), ulPasswordLen: 6 };
            let mut m = mech_p(CKM_PKCS5_PBKD2, &mut p);
            let mut t = T::new().ul(CKA_KEY_TYPE, CKK_GENERIC_SECRET);
            if vf::param(1, 0) == 1 { t = t.ul(CKA_VALUE_LEN, length(64)); } else { t = t.ul(CKA_VALUE_LEN, 16); spoil(&[part(&mut p, "fplff-lpl")]); }
            call!(C_GenerateKey(s, &mut m, t.p(), t.n(), &mut h))
        }
        30 => {
            let mut c = [0u8; 8];
            let mut l: CK_ULONG = 6;
            let mut f = 1u8;
            let mut ps = [CK_OTP_PARAM { type_: CK_OTP_COUNTER, pValue: c.as_mut_ptr() as *mut _, ulValueLen: 8 }, CK_OTP_PARAM { type_: CK_OTP_OUTPUT_LENGTH, pValue: &mut l as *mut _ as *mut _, ulValueLen: 8 }, CK_OTP_PARAM { type_: CK_OTP_OUTPUT_FORMAT, pValue: &mut f as *mut _ as *mut _, ulValueLen: 1 }];
            let mut p = CK_OTP_PARAMS { pParams: ps.as_mut_ptr(), ulCount: 3 };
            let mut m = mech_p(CKM_HOTP, &mut p);
            let (a, rest) = ps.split_at_mut(1);
            let (b, cc) = rest.split_at_mut(1);
            spoil(&[part(&mut p, "pl"), part(a.as_mut_ptr(), "fpl"), part(b.as_mut_ptr(), "fpl"), part(cc.as_mut_ptr(), "fpl"), part(&mut l, "f")]);
            let rv = call!(C_SignInit(s, &mut m, k));
            if rv == CKR_OK { let _ = call!(C_Sign(s, d.as_mut_ptr(), 0, out.as_mut_ptr(), &mut n)); }
            rv
        }
        31 | 32 => {
            // messages
            let mut tag = [0u8; 16];
            let mut gp = CK_GCM_MESSAGE_PARAMS { pIv: iv.as_mut_ptr(), ulIvLen: 12, ulIvFixedBits: 32, ivGenerator: CKG_GENERATE_COUNTER, pTag: tag.as_mut_ptr(), ulTagBits: 128 };
            let mut cp = CK_CCM_MESSAGE_PARAMS { ulDataLen: 16, pNonce: iv.as_mut_ptr(), ulNonceLen: 12, ulNonceFixedBits: 32, nonceGenerator: CKG_GENERATE_COUNTER, pMAC: tag.as_mut_ptr(), ulMACLen: 16 };
            let mut m = mech(if i == 31 { CKM_AES_GCM } else { CKM_AES_CCM });
            let dec = vf::bool_z(z!("decrypt"));
            let parts = vf::bool_z(z!("parts"));
            let rv = if dec { call!(C_MessageDecryptInit(s, &mut m, k)) } else { call!(C_MessageEncryptInit(s, &mut m, k)) };
            check!(rv == CKR_OK, "init");
            if !dec && vf::bool_z(z!("begun")) { let (p, l) = if i == 31 { (&mut gp as *mut _ as *mut std::ffi::c_void, 48) } else { (&mut cp as *mut _ as *mut std::ffi::c_void, 56) }; let rv = call!(C_EncryptMessageBegin(s, p, l, null_mut(), 0)); check!(rv == CKR_OK, "begin"); }
            spoil(&[if i == 31 { part(&mut gp, "plffpf") } else { part(&mut cp, "fplffpf") }]);
            let (p, l) = if i == 31 { (&mut gp as *mut _ as *mut std::ffi::c_void, 48) } else { (&mut cp as *mut _ as *mut std::ffi::c_void, 56) };
            let dp = d.as_mut_ptr();
            let o = out.as_mut_ptr();
            match (dec, parts) {
                (false, false) => call!(C_EncryptMessage(s, p, l, dp, 16, dp, 16, o, &mut n)),
                (true, false) => call!(C_DecryptMessage(s, p, l, dp, 16, dp, 16, o, &mut n)),
                (false, true) => { let rv = call!(C_EncryptMessageBegin(s, p, l, dp, 16)); let _ = call!(C_EncryptMessageNext(s, p, l, dp, 16, o, &mut n, CKF_END_OF_MESSAGE)); rv }
                (true, true) => { let rv = call!(C_DecryptMessageBegin(s, p, l, dp, 16)); let _ = call!(C_DecryptMessageNext(s, p, l, dp, 16, o, &mut n, CKF_END_OF_MESSAGE)); rv }
            }
        }
        33 | 34 | 35 => {
            // how long a key may be asked for
            let l = length(if i == 35 { 511 } else { 40 });
            if i == 35 {
                let mut m = mech(CKM_RSA_PKCS_KEY_PAIR_GEN);
                let mut t = T::new().ul(CKA_MODULUS_BITS, l);
                let mut u = T::new();
                let mut h2 = 0;
                let ve = vf::bool_z(z!("exponent"));
                let mut e = [0u8; 3];
                vf::bytes_z(&mut e, z!("exponent"));
                if ve { t.add(CKA_PUBLIC_EXPONENT, &e); }
                call!(C_GenerateKeyPair(s, &mut m, t.p(), t.n(), u.p(), 0, &mut h, &mut h2))
            } else {
                let mut m = mech(if i == 33 { CKM_AES_KEY_GEN } else { [CKM_GENERIC_SECRET_KEY_GEN, CKM_HKDF_KEY_GEN, CKM_HOTP_KEY_GEN][vf::choose_z(3, z!("mechanism")) as usize] });
                let mut t = T::new().ul(CKA_VALUE_LEN, l);
                call!(C_GenerateKey(s, &mut m, t.p(), t.n(), &mut h))
            }
        }
        _ => CKR_OK,
    };
    log!("rv", rv);
    if rv == CKR_OK { cover!("accepted"); } else { cover!("refused"); }
    let (rv, _) = session_info(s);
    check!(rv == CKR_OK, "the session is still there");
    if i != 5 { expect!("refused"); }
}
