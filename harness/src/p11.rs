//! Minimal PKCS#11 client used by the harnesses: everything goes through the
//! function list the module hands out.
#![allow(dead_code, static_mut_refs)]
use kryoptic_lib::fns::general::{fn_get_function_list, fn_get_interface};
pub use kryoptic_lib::pkcs11::*;
use kryoptic_lib::verif;
use std::ptr::null_mut;

pub type H = CK_ULONG;
pub const SLOT: CK_SLOT_ID = 0;
pub const SO_PIN: &[u8] = b"12345678";
pub const USER_PIN: &[u8] = b"abcdefgh";

static mut FL: *const CK_FUNCTION_LIST_3_2 = std::ptr::null();

pub fn f() -> &'static CK_FUNCTION_LIST_3_2 {
    unsafe { &*FL }
}
pub fn load() {
    let mut i: *mut CK_INTERFACE = null_mut();
    let mut v = CK_VERSION { major: 3, minor: 2 };
    let rv = fn_get_interface(null_mut(), &mut v, &mut i as *mut _ as *mut _, 0);
    assert!(rv == CKR_OK);
    unsafe { FL = (*i).pFunctionList as *const CK_FUNCTION_LIST_3_2 };
    let mut l: CK_FUNCTION_LIST_PTR = std::ptr::null();
    assert!(fn_get_function_list(&mut l as *mut _ as *mut _) == CKR_OK);
}
macro_rules! call {
    ($n:ident ( $($a:expr),* )) => { (unsafe { ($crate::p11::f().$n.unwrap())($($a),*) }) };
}
pub(crate) use call;

/// One template under construction; owns its values.
pub struct T {
    pub a: Vec<CK_ATTRIBUTE>,
    own: Vec<Box<[u8]>>,
}
impl T {
    pub fn new() -> T { T { a: Vec::new(), own: Vec::new() } }
    pub fn bytes(mut self, t: CK_ULONG, v: &[u8]) -> T { self.add(t, v); self }
    pub fn ul(self, t: CK_ULONG, v: CK_ULONG) -> T { self.bytes(t, &v.to_ne_bytes()) }
    pub fn b(self, t: CK_ULONG, v: bool) -> T { self.bytes(t, &[v as u8]) }
    /// boolean given as a symbolic byte
    pub fn bb(self, t: CK_ULONG, v: u8) -> T { self.bytes(t, &[v]) }
    pub fn add(&mut self, t: CK_ULONG, v: &[u8]) {
        let mut o: Box<[u8]> = v.to_vec().into_boxed_slice();
        let p = if v.is_empty() { null_mut() } else { o.as_mut_ptr() };
        self.a.push(CK_ATTRIBUTE { type_: t, pValue: p as *mut _, ulValueLen: v.len() as CK_ULONG });
        self.own.push(o);
    }
    /// replaces or adds
    pub fn put(&mut self, t: CK_ULONG, v: &[u8]) {
        if let Some(i) = self.a.iter().position(|a| a.type_ == t) { self.a.remove(i); self.own.remove(i); }
        self.add(t, v);
    }
    pub fn with(mut self, t: CK_ULONG, v: &[u8]) -> T { self.put(t, v); self }
    pub fn set(mut self, t: CK_ULONG, v: bool) -> T { self.put(t, &[v as u8]); self }
    pub fn p(&mut self) -> *mut CK_ATTRIBUTE { self.a.as_mut_ptr() }
    pub fn n(&self) -> CK_ULONG { self.a.len() as CK_ULONG }
    pub fn val(&self, i: usize) -> &[u8] { &self.own[i] }
}

/// parameter 9: the mock databases are replaced by the sqlite back end over the toy SQL engine
fn store(args: &str) -> &str {
    if crate::vf::param(9, 0) == 0 { return args; }
    match args { "enc0" => "sql0", "plain0" => "sqlplain0", "enc1" => "sql1", "plain1" => "sqlplain1", a => a }
}
pub fn cfg(slot: u32, args: &str) {
    let args = store(args);
    assert!(verif::config_slot(slot, "vmock", Some(args), None) == CKR_OK);
}
pub fn cfg_mechs(slot: u32, args: &str, m: &[&str]) {
    let args = store(args);
    assert!(verif::config_slot(slot, "vmock", Some(args), Some(m.iter().map(|x| x.to_string()).collect())) == CKR_OK);
}
pub fn initialize() -> CK_RV { call!(C_Initialize(null_mut())) }
pub fn finalize() -> CK_RV { call!(C_Finalize(null_mut())) }
/// module restart: everything volatile is lost, the raw store stays
pub fn restart(slot: u32, args: &str) {
    assert!(finalize() == CKR_OK);
    cfg(slot, args);
    assert!(initialize() == CKR_OK);
}
pub fn init_token(pin: &[u8], label: &[u8; 32]) -> CK_RV {
    let mut l = *label;
    let mut p = pin.to_vec();
    call!(C_InitToken(SLOT, p.as_mut_ptr(), p.len() as CK_ULONG, l.as_mut_ptr()))
}
pub fn open(rw: bool) -> H {
    let mut h = 0;
    let rv = open_rv(SLOT, rw, &mut h);
    assert!(rv == CKR_OK);
    h
}
pub fn open_rv(slot: CK_SLOT_ID, rw: bool, h: &mut H) -> CK_RV {
    let fl = CKF_SERIAL_SESSION | if rw { CKF_RW_SESSION } else { 0 };
    call!(C_OpenSession(slot, fl, null_mut(), None, h))
}
pub fn close(h: H) -> CK_RV { call!(C_CloseSession(h)) }
pub fn login(h: H, u: CK_USER_TYPE, pin: &[u8]) -> CK_RV {
    let mut p = pin.to_vec();
    call!(C_Login(h, u, p.as_mut_ptr(), p.len() as CK_ULONG))
}
pub fn logout(h: H) -> CK_RV { call!(C_Logout(h)) }
pub fn init_pin(h: H, pin: &[u8]) -> CK_RV {
    let mut p = pin.to_vec();
    call!(C_InitPIN(h, p.as_mut_ptr(), p.len() as CK_ULONG))
}
pub fn set_pin(h: H, o: &[u8], n: &[u8]) -> CK_RV {
    let mut p = o.to_vec();
    let mut q = n.to_vec();
    call!(C_SetPIN(h, p.as_mut_ptr(), p.len() as CK_ULONG, q.as_mut_ptr(), q.len() as CK_ULONG))
}
pub fn session_info(h: H) -> (CK_RV, CK_SESSION_INFO) {
    let mut i = CK_SESSION_INFO { slotID: 0, state: 0xdead, flags: 0, ulDeviceError: 0 };
    let rv = call!(C_GetSessionInfo(h, &mut i));
    (rv, i)
}
pub fn token_info() -> (CK_RV, CK_TOKEN_INFO) {
    let mut i: CK_TOKEN_INFO = unsafe { std::mem::zeroed() };
    let rv = call!(C_GetTokenInfo(SLOT, &mut i));
    (rv, i)
}
pub fn create(h: H, t: &mut T, o: &mut H) -> CK_RV { call!(C_CreateObject(h, t.p(), t.n(), o)) }
pub fn copy(h: H, k: H, t: &mut T, o: &mut H) -> CK_RV { call!(C_CopyObject(h, k, t.p(), t.n(), o)) }
pub fn destroy(h: H, k: H) -> CK_RV { call!(C_DestroyObject(h, k)) }
pub fn set_attrs(h: H, k: H, t: &mut T) -> CK_RV { call!(C_SetAttributeValue(h, k, t.p(), t.n())) }
/// reads one attribute into `buf`; returns (rv, ulValueLen)
pub fn get_attr(h: H, k: H, ty: CK_ULONG, buf: &mut [u8]) -> (CK_RV, CK_ULONG) {
    let mut a = CK_ATTRIBUTE { type_: ty, pValue: buf.as_mut_ptr() as *mut _, ulValueLen: buf.len() as CK_ULONG };
    let rv = call!(C_GetAttributeValue(h, k, &mut a, 1));
    (rv, a.ulValueLen)
}
/// boolean attribute: None if not readable
pub fn get_bool(h: H, k: H, ty: CK_ULONG) -> Option<bool> {
    let mut b = [0xAAu8; 1];
    let (rv, l) = get_attr(h, k, ty, &mut b);
    if rv == CKR_OK && l == 1 { Some(b[0] != 0) } else { None }
}
pub fn get_ul(h: H, k: H, ty: CK_ULONG) -> Option<CK_ULONG> {
    let mut b = [0u8; 8];
    let (rv, l) = get_attr(h, k, ty, &mut b);
    if rv == CKR_OK && l == 8 { Some(CK_ULONG::from_ne_bytes(b)) } else { None }
}
pub fn find(h: H, t: &mut T, out: &mut [H]) -> (CK_RV, usize) {
    let rv = call!(C_FindObjectsInit(h, t.p(), t.n()));
    if rv != CKR_OK { return (rv, 0); }
    let mut n = 0;
    let rv = call!(C_FindObjects(h, out.as_mut_ptr(), out.len() as CK_ULONG, &mut n));
    let rv2 = call!(C_FindObjectsFinal(h));
    (if rv != CKR_OK { rv } else { rv2 }, n as usize)
}
pub fn mech(m: CK_ULONG) -> CK_MECHANISM { CK_MECHANISM { mechanism: m, pParameter: null_mut(), ulParameterLen: 0 } }
pub fn mech_p<P>(m: CK_ULONG, p: &mut P) -> CK_MECHANISM {
    CK_MECHANISM { mechanism: m, pParameter: p as *mut P as *mut _, ulParameterLen: std::mem::size_of::<P>() as CK_ULONG }
}
pub fn mech_b(m: CK_ULONG, p: &mut [u8]) -> CK_MECHANISM {
    CK_MECHANISM { mechanism: m, pParameter: p.as_mut_ptr() as *mut _, ulParameterLen: p.len() as CK_ULONG }
}

/// C_Initialize on one mock slot + C_InitToken + user PIN; nobody logged in.
pub fn boot(args: &str) {
    load();
    cfg(SLOT as u32, args);
    assert!(initialize() == CKR_OK);
    assert!(init_token(SO_PIN, b"label                           ") == CKR_OK);
    let h = open(true);
    assert!(login(h, CKU_SO, SO_PIN) == CKR_OK);
    assert!(init_pin(h, USER_PIN) == CKR_OK);
    assert!(logout(h) == CKR_OK);
    assert!(close(h) == CKR_OK);
}
/// 0: encrypted mock, 1: plain mock, 2: sqlite back end over the toy SQL engine (encrypted), 3: the same without encryption
pub fn db(p: i64) -> &'static str {
    match p { 1 => "plain0", 2 => "sql0", 3 => "sqlplain0", _ => "enc0" }
}
