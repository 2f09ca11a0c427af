//! C06 PIN lockout, C07 PIN management
use crate::p11::*;
use crate::*;

/// reference model: 0 = SO, 1 = user
struct M { pin: [Option<Vec<u8>>; 2], cnt: [u64; 2], logged: Option<usize>, h: H, ro: H }
const MAX: u64 = 10;

impl M {
    /// outcome of presenting `p` for user `u`; updates the counter
    fn present(&mut self, u: usize, p: &[u8]) -> CK_RV {
        let pin = match &self.pin[u] { Some(x) => x, None => return CKR_USER_PIN_NOT_INITIALIZED };
        if self.cnt[u] >= MAX { return CKR_PIN_LOCKED; }
        if same(pin, p) { self.cnt[u] = 0; return CKR_OK; }
        self.cnt[u] += 1;
        if self.cnt[u] >= MAX { CKR_PIN_LOCKED } else { CKR_PIN_INCORRECT }
    }
    fn flags(&self, u: usize) -> CK_FLAGS {
        let (l, f, c) = if u == 0 { (CKF_SO_PIN_LOCKED, CKF_SO_PIN_FINAL_TRY, CKF_SO_PIN_COUNT_LOW) } else { (CKF_USER_PIN_LOCKED, CKF_USER_PIN_FINAL_TRY, CKF_USER_PIN_COUNT_LOW) };
        match MAX - self.cnt[u] { 0 => l, 1 => f, 2 | 3 => c, _ => 0 }
    }
    fn verify(&self) {
        let (rv, i) = token_info();
        check!(rv == CKR_OK, "token info is available");
        let m0 = CKF_SO_PIN_LOCKED | CKF_SO_PIN_FINAL_TRY | CKF_SO_PIN_COUNT_LOW;
        let m1 = CKF_USER_PIN_LOCKED | CKF_USER_PIN_FINAL_TRY | CKF_USER_PIN_COUNT_LOW;
        check!(i.flags & m0 == self.flags(0), "token flags tell the SO attempts left");
        check!(i.flags & m1 == self.flags(1), "token flags tell the user attempts left");
        check!((i.flags & CKF_USER_PIN_INITIALIZED != 0) == self.pin[1].is_some(), "token flags tell whether the user PIN is set");
    }
    fn reopen(&mut self) {
        self.h = open(true);
        self.ro = 0;
    }
}
/// PBKDF2-HMAC zero-pads short passwords: trailing NUL bytes are immaterial
fn same(a: &[u8], b: &[u8]) -> bool {
    let n = a.len().max(b.len());
    let mut x = a.to_vec();
    let mut y = b.to_vec();
    x.resize(n, 0);
    y.resize(n, 0);
    x == y
}
fn symp(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    vf::bytes_z(&mut v, z!("pin"));
    v
}
fn step(m: &mut M, plen: usize) {
    match vf::choose_z(6, z!("op")) {
        0 => {
            let u = vf::choose_z(2, z!("user")) as usize;
            let p = symp(plen);
            let rv = login(m.h, if u == 0 { CKU_SO } else { CKU_USER }, &p);
            match m.logged {
                Some(x) if x == u => check!(rv == CKR_USER_ALREADY_LOGGED_IN, "login twice"),
                Some(_) => check!(rv == CKR_USER_ANOTHER_ALREADY_LOGGED_IN, "login over another user"),
                None => {
                    let want = m.present(u, &p);
                    check!(rv == want, "login follows the PIN and the attempt counter");
                    if want == CKR_OK { m.logged = Some(u); cover!("login-ok"); }
                    if want == CKR_PIN_LOCKED { cover!("locked"); }
                }
            }
        }
        1 => {
            let rv = logout(m.h);
            check!((rv == CKR_OK) == m.logged.is_some(), "logout");
            m.logged = None;
        }
        2 => {
            let o = symp(plen);
            let n = symp(plen);
            let rv = set_pin(m.h, &o, &n);
            let u = m.logged.unwrap_or(1);
            let want = m.present(u, &o);
            check!(rv == want, "C_SetPIN succeeds exactly with the current PIN of an unlocked user");
            if want == CKR_OK { m.pin[u] = Some(n); cover!("setpin-ok"); }
        }
        3 => {
            let n = symp(plen);
            let rv = init_pin(m.h, &n);
            if m.logged == Some(0) {
                check!(rv == CKR_OK, "the SO sets the user PIN");
                m.pin[1] = Some(n);
                m.cnt[1] = 0;
                cover!("initpin-ok");
            } else {
                check!(rv == CKR_USER_NOT_LOGGED_IN, "only the SO sets the user PIN");
            }
        }
        4 => {
            restart(SLOT as u32, "enc0");
            m.logged = None;
            m.reopen();
            cover!("restart");
        }
        _ => {
            let p = symp(plen);
            let l = b"label                           ";
            check!(init_token(&p, l) == CKR_SESSION_EXISTS, "no C_InitToken while sessions exist");
            check!(call!(C_CloseAllSessions(SLOT)) == CKR_OK, "close all");
            m.logged = None;
            let rv = init_token(&p, l);
            let want = m.present(0, &p);
            check!(rv == want, "C_InitToken needs the SO PIN");
            if want == CKR_OK {
                m.pin = [Some(p), None];
                m.cnt = [0, 0];
                cover!("inittoken-ok");
            }
            m.reopen();
        }
    }
    m.verify();
}
/// params: 0 steps, 1 wrong user logins before, 2 wrong SO logins before, 3 PIN length of the symbolic PINs, 4 initially logged in (1 user, 2 SO)
#[unsafe(no_mangle)]
pub extern "C" fn h_pin() {
    unsafe { ossl_stub::ORACLE = true };
    boot("enc0");
    let mut m = M { pin: [Some(SO_PIN.to_vec()), Some(USER_PIN.to_vec())], cnt: [0, 0], logged: None, h: 0, ro: 0 };
    m.reopen();
    for (u, ut) in [(1usize, CKU_USER), (0, CKU_SO)] {
        for _ in 0..vf::param(2 - u as i32, 0) {
            let rv = login(m.h, ut, b"wrongpin");
            let want = m.present(u, b"wrongpin");
            check!(rv == want, "wrong PIN is counted");
        }
    }
    match vf::param(4, 0) {
        1 => { assert!(login(m.h, CKU_USER, USER_PIN) == CKR_OK); m.logged = Some(1); m.cnt[1] = 0; }
        2 => { assert!(login(m.h, CKU_SO, SO_PIN) == CKR_OK); m.logged = Some(0); m.cnt[0] = 0; }
        _ => (),
    }
    m.verify();
    for _ in 0..vf::param(0, 2) {
        step(&mut m, vf::param(3, 8) as usize);
    }
    cover!("end");
    vf::expect_z(z!("end"));
}

/// C_SetPIN through a read-only session, with symbolic PINs; params: 0 logged in (0/1)
#[unsafe(no_mangle)]
pub extern "C" fn h_pin_ro() {
    unsafe { ossl_stub::ORACLE = true };
    boot("enc0");
    let ro = open(false);
    if vf::param(0, 0) == 1 { assert!(login(ro, CKU_USER, USER_PIN) == CKR_OK); }
    let (o, n) = (symp(8), symp(8));
    check!(set_pin(ro, &o, &n) == CKR_SESSION_READ_ONLY, "C_SetPIN needs a read-write session");
    check!(init_pin(ro, &n) == CKR_USER_NOT_LOGGED_IN, "C_InitPIN needs the SO");
    // nothing changed
    assert!(call!(C_CloseAllSessions(SLOT)) == CKR_OK);
    let h = open(true);
    check!(login(h, CKU_USER, USER_PIN) == CKR_OK, "the user PIN is unchanged");
    check!(logout(h) == CKR_OK, "logout");
    check!(login(h, CKU_SO, SO_PIN) == CKR_OK, "the SO PIN is unchanged");
    cover!("end");
    vf::expect_z(z!("end"));
}
