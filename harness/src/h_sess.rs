//! C05 session / login state machine
use crate::p11::*;
use crate::*;

struct S { h: H, rw: bool, open: bool }
/// reference model of one token's sessions
struct M { s: Vec<S>, logged: CK_ULONG }
const NOBODY: CK_ULONG = CK_ULONG::MAX;

impl M {
    fn any_ro(&self) -> bool { self.s.iter().any(|x| x.open && !x.rw) }
    fn any(&self) -> bool { self.s.iter().any(|x| x.open) }
    fn state(&self, rw: bool) -> CK_STATE {
        match (self.logged, rw) {
            (CKU_USER, true) => CKS_RW_USER_FUNCTIONS,
            (CKU_USER, false) => CKS_RO_USER_FUNCTIONS,
            (CKU_SO, true) => CKS_RW_SO_FUNCTIONS,
            (_, true) => CKS_RW_PUBLIC_SESSION,
            (_, false) => CKS_RO_PUBLIC_SESSION,
        }
    }
    fn verify(&self) {
        for x in &self.s {
            let (rv, i) = session_info(x.h);
            if x.open {
                check!(rv == CKR_OK, "an open session answers C_GetSessionInfo");
                check!(i.state == self.state(x.rw), "session state matches the login state");
                check!(i.slotID == SLOT, "session reports its slot");
                check!((i.flags & CKF_RW_SESSION != 0) == x.rw, "session reports its access mode");
            } else {
                check!(rv == CKR_SESSION_HANDLE_INVALID, "a closed session handle is invalid");
            }
        }
    }
}

fn pick(m: &M) -> usize {
    // a session, the last one or the first one
    if m.s.len() > 1 && vf::bool_z(z!("which")) { 0 } else { m.s.len() - 1 }
}

fn step(m: &mut M, ops: u64) {
    match vf::choose_z(ops, z!("op")) {
        0 => {
            let fl = vf::u64_z(z!("flags"));
            let mut h = 0;
            let rv = call!(C_OpenSession(SLOT, fl, std::ptr::null_mut(), None, &mut h));
            let serial = fl & CKF_SERIAL_SESSION != 0;
            let rw = fl & CKF_RW_SESSION != 0;
            if !serial {
                check!(rv != CKR_OK, "a session needs CKF_SERIAL_SESSION");
            } else if m.logged == CKU_SO && !rw {
                check!(rv == CKR_SESSION_READ_WRITE_SO_EXISTS, "no read-only session while the SO is logged in");
            } else {
                check!(rv == CKR_OK, "opening a session succeeds");
                check!(m.s.iter().all(|x| x.h != h), "session handles are never reused");
                check!(h != 0, "session handle is not the invalid handle");
                m.s.push(S { h, rw, open: true });
            }
        }
        1 => {
            let i = pick(m);
            let rv = close(m.s[i].h);
            if m.s[i].open {
                check!(rv == CKR_OK, "closing an open session succeeds");
                m.s[i].open = false;
                if !m.any() { m.logged = NOBODY; }
            } else {
                check!(rv == CKR_SESSION_HANDLE_INVALID, "closing a closed session is refused");
            }
        }
        2 => {
            let i = pick(m);
            let ut = vf::u64_z(z!("user_type"));
            let mut pin = [0u8; 8];
            vf::bytes_z(&mut pin, z!("pin"));
            let rv = login(m.s[i].h, ut, &pin);
            if !m.s[i].open {
                check!(rv == CKR_SESSION_HANDLE_INVALID, "login on a closed session is refused");
            } else if ut == CKU_SO && m.any_ro() {
                check!(rv == CKR_SESSION_READ_ONLY_EXISTS, "no SO login while a read-only session exists");
            } else if ut == CKU_SO || ut == CKU_USER {
                if m.logged == ut {
                    check!(rv == CKR_USER_ALREADY_LOGGED_IN, "second login of the same user");
                } else if m.logged != NOBODY {
                    check!(rv == CKR_USER_ANOTHER_ALREADY_LOGGED_IN, "login while another user is logged in");
                } else {
                    let good = pin[..] == *if ut == CKU_SO { SO_PIN } else { USER_PIN };
                    if good {
                        check!(rv == CKR_OK, "the right PIN logs in");
                        m.logged = ut;
                        if ut == CKU_SO { cover!("so-login"); } else { cover!("user-login"); }
                    } else {
                        check!(rv == CKR_PIN_INCORRECT, "a wrong PIN is refused");
                    }
                }
            } else {
                check!(rv != CKR_OK, "login of an unknown user type (or without a pending operation) is refused");
            }
        }
        3 => {
            let i = pick(m);
            let rv = logout(m.s[i].h);
            if !m.s[i].open {
                check!(rv == CKR_SESSION_HANDLE_INVALID, "logout on a closed session is refused");
            } else if m.logged == NOBODY {
                check!(rv == CKR_USER_NOT_LOGGED_IN, "logout without login");
            } else {
                check!(rv == CKR_OK, "logout succeeds");
                m.logged = NOBODY;
                cover!("logout");
            }
        }
        _ => {
            let rv = call!(C_CloseAllSessions(SLOT));
            check!(rv == CKR_OK, "closing all sessions succeeds");
            for x in m.s.iter_mut() { x.open = false; }
            m.logged = NOBODY;
        }
    }
    m.verify();
}

/// params: 0 = number of symbolic steps, 1 = initial login (0 none, 1 user, 2 SO)
#[unsafe(no_mangle)]
pub extern "C" fn h_sess() {
    unsafe { ossl_stub::ORACLE = true };
    boot("enc0");
    let h = open(true);
    let mut m = M { s: vec![S { h, rw: true, open: true }], logged: NOBODY };
    match vf::param(1, 0) {
        1 => { assert!(login(h, CKU_USER, USER_PIN) == CKR_OK); m.logged = CKU_USER; }
        2 => { assert!(login(h, CKU_SO, SO_PIN) == CKR_OK); m.logged = CKU_SO; }
        _ => (),
    }
    m.verify();
    for _ in 0..vf::param(0, 3) {
        step(&mut m, 5);
    }
    cover!("end");
    vf::expect_z(z!("end"));
}
