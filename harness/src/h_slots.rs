//! C30 slots do not affect each other
use crate::h_store::{equal, read_obj, snap, Obj};
use crate::keys;
use crate::ops::*;
use crate::p11::*;
use crate::*;
use kryoptic_lib::verif;

const S: [CK_SLOT_ID; 2] = [0, 1];
const SOP: [&[u8]; 2] = [SO_PIN, b"87654321"];
const USP: [&[u8]; 2] = [USER_PIN, b"hgfedcba"];

fn init(slot: usize, pin: &[u8], l: u8) -> CK_RV {
    let mut lab = [l; 32];
    let mut p = pin.to_vec();
    call!(C_InitToken(S[slot], p.as_mut_ptr(), p.len() as CK_ULONG, lab.as_mut_ptr()))
}
fn open_on(slot: usize, rw: bool) -> H {
    let mut h = 0;
    let rv = open_rv(S[slot], rw, &mut h);
    check!(rv == CKR_OK, "open");
    h
}
/// two initialized tokens with different PINs
fn boot2(enc: bool) {
    load();
    cfg(0, if enc { "enc0" } else { "plain0" });
    cfg(1, if enc { "enc1" } else { "plain1" });
    assert!(initialize() == CKR_OK);
    for i in 0..2 {
        assert!(init(i, SOP[i], b'a' + i as u8) == CKR_OK);
        let h = open_on(i, true);
        assert!(login(h, CKU_SO, SOP[i]) == CKR_OK);
        assert!(init_pin(h, USP[i]) == CKR_OK);
        assert!(logout(h) == CKR_OK);
        assert!(close(h) == CKR_OK);
    }
}

/// sessions and logins of two slots in any order. p0: steps
#[unsafe(no_mangle)]
pub extern "C" fn h_slots_seq() {
    boot2(false);
    let steps = vf::param(0, 4);
    // sessions: (slot, read-write, handle); user logged in
    let mut ss: Vec<(usize, bool, H)> = vec![];
    let mut user = [false; 2];
    let mut seen: Vec<H> = vec![];
    for i in 0..2 {
        let rw = i == 0;
        let h = open_on(i, rw);
        seen.push(h);
        ss.push((i, rw, h));
    }
    for _ in 0..steps {
        let i = vf::choose_z(2, z!("slot")) as usize;
        let last = ss.iter().rposition(|x| x.0 == i);
        match vf::choose_z(5, z!("action")) {
            0 => {
                let rw = seen.len() % 2 == 0;
                let h = open_on(i, rw);
                check!(!seen.contains(&h), "a new session has a handle of its own");
                seen.push(h);
                ss.push((i, rw, h));
            }
            1 => if let Some(l) = last {
                let rv = close(ss[l].2);
                check!(rv == CKR_OK, "close");
                ss.remove(l);
                cover!("closed");
            },
            2 => {
                let rv = call!(C_CloseAllSessions(S[i]));
                check!(rv == CKR_OK, "close all");
                ss.retain(|x| x.0 != i);
            }
            3 => if let Some(l) = last {
                // with the PIN of either token
                let w = vf::choose_z(2, z!("pin")) as usize;
                let rv = login(ss[l].2, CKU_USER, USP[w]);
                check!(rv == if user[i] { CKR_USER_ALREADY_LOGGED_IN } else if w != i { CKR_PIN_INCORRECT } else { CKR_OK }, "only the PIN of the token itself logs in");
                if rv == CKR_OK { user[i] = true; cover!("login"); }
            },
            _ => if let Some(l) = last {
                let rv = logout(ss[l].2);
                check!(rv == if user[i] { CKR_OK } else { CKR_USER_NOT_LOGGED_IN }, "logout");
                user[i] = false;
            },
        }
        for j in 0..2 {
            if !ss.iter().any(|x| x.0 == j) { user[j] = false; }
        }
        for h in &seen {
            let (rv, si) = session_info(*h);
            match ss.iter().find(|x| x.2 == *h) {
                Some(x) => {
                    let st = match (user[x.0], x.1) {
                        (false, false) => CKS_RO_PUBLIC_SESSION,
                        (false, true) => CKS_RW_PUBLIC_SESSION,
                        (true, false) => CKS_RO_USER_FUNCTIONS,
                        (true, true) => CKS_RW_USER_FUNCTIONS,
                    };
                    check!(rv == CKR_OK && si.slotID == S[x.0] && si.state == st, "sessions change with what happens on their own slot only");
                }
                None => check!(rv == CKR_SESSION_HANDLE_INVALID, "a closed session is gone"),
            }
        }
    }
    // what is left of the logins when a session is opened again
    for j in 0..2 {
        let h = open_on(j, true);
        let (_, si) = session_info(h);
        check!(si.state == if user[j] { CKS_RW_USER_FUNCTIONS } else { CKS_RW_PUBLIC_SESSION }, "closing a slot's last session logs out of that slot");
    }
    expect!("closed", "login");
}

struct View { st: CK_STATE, st2: CK_STATE, objs: Vec<Obj>, sess: Obj, flags: CK_FLAGS, label: [u8; 32], writes: u64 }
fn view(i: usize, s: H, s2: H, o: H) -> View {
    let mut ti: CK_TOKEN_INFO = unsafe { std::mem::zeroed() };
    let rv = call!(C_GetTokenInfo(S[i], &mut ti));
    check!(rv == CKR_OK, "token info");
    let (rv, a) = session_info(s);
    let (rv2, b) = session_info(s2);
    check!(rv == CKR_OK && rv2 == CKR_OK && a.slotID == S[i] && b.slotID == S[i], "the sessions of the other slot stay open");
    View { st: a.state, st2: b.state, objs: if a.state == CKS_RW_USER_FUNCTIONS { snap(s) } else { vec![] }, sess: read_obj(s2, o), flags: ti.flags, label: ti.label, writes: verif::RAW.get()[i].writes }
}

/// one slot in use, anything done on the other. p0: login on the slot watched (0 none, 1 user), p1: login on the other (0 none, 1 user, 2 SO, 3 no sessions), p2: which slot is watched
#[unsafe(no_mangle)]
pub extern "C" fn h_slots() {
    boot2(true);
    let lw = vf::param(0, 1);
    let lo = vf::param(1, 1);
    let w = vf::param(2, 0) as usize;
    let x = 1 - w;
    // the slot watched
    let s = open_on(w, true);
    let s2 = open_on(w, true);
    let rv = login(s, CKU_USER, USP[w]);
    check!(rv == CKR_OK, "login");
    let mut k: [H; 4] = [0; 4];
    for (i, (token, private)) in [(true, true), (false, lw == 1), (true, false), (true, false)].iter().enumerate() {
        let mut t = aes_key(*token, *private, 0x30 + i as u8);
        t.put(CKA_LABEL, b"watch");
        let rv = create(s, &mut t, &mut k[i]);
        check!(rv == CKR_OK, "create");
    }
    if lw == 0 { assert!(logout(s) == CKR_OK); }
    // the other one
    let mut o = 0;
    let mut ok: [H; 3] = [0; 3];
    if lo != 3 {
        o = open_on(x, true);
        let rv = login(o, CKU_USER, USP[x]);
        check!(rv == CKR_OK, "login");
        for (i, (token, private)) in [(true, true), (false, true), (true, false)].iter().enumerate() {
            let rv = create(o, &mut aes_key(*token, *private, 0x50 + i as u8), &mut ok[i]);
            check!(rv == CKR_OK, "create");
        }
        if lo != 1 { assert!(logout(o) == CKR_OK); }
        if lo == 2 { assert!(login(o, CKU_SO, SOP[x]) == CKR_OK); }
    }
    // an operation and a search under way
    let mut iv = [3u8; 16];
    let mut m = mech_b(CKM_AES_CBC, &mut iv);
    let rv = call!(C_EncryptInit(s, &mut m, k[1]));
    check!(rv == CKR_OK, "init");
    let mut d = keys::pat(16, 0x41);
    let mut c = [0u8; 32];
    let mut l: CK_ULONG = 32;
    let rv = call!(C_EncryptUpdate(s, d.as_mut_ptr(), 16, c.as_mut_ptr(), &mut l));
    check!(rv == CKR_OK && l == 16, "update");
    let v0 = view(w, s, s2, k[1]);
    let rv = call!(C_FindObjectsInit(s2, std::ptr::null_mut(), 0));
    check!(rv == CKR_OK, "search");
    // anything on the other slot
    let (act, rv) = if lo == 3 {
        let a = vf::choose_z(3, z!("action"));
        (a + 100, match a {
            0 => init(x, SOP[x], b'z'),
            1 => init(x, SOP[w], b'z'),
            _ => { let h = open_on(x, true); login(h, CKU_USER, USP[x]) }
        })
    } else {
        let mut h: H = 0;
        let a = vf::choose_z(15, z!("action"));
        (a, match a {
            0 => close(o),
            1 => call!(C_CloseAllSessions(S[x])),
            2 => logout(o),
            3 => login(o, if vf::bool_z(z!("so")) { CKU_SO } else { CKU_USER }, [USP[x], USP[w], SOP[x], SOP[w]][vf::choose_z(4, z!("pin")) as usize]),
            4 => set_pin(o, if lo == 2 { SOP[x] } else { USP[x] }, b"newpinnewpin"),
            5 => init_pin(o, b"newpinnewpin"),
            6 => init(x, SOP[x], b'z'),
            7 => destroy(o, ok[vf::choose_z(3, z!("object")) as usize]),
            8 => set_attrs(o, ok[vf::choose_z(3, z!("object")) as usize], &mut T::new().bytes(CKA_LABEL, b"new")),
            9 => copy(o, ok[vf::choose_z(3, z!("object")) as usize], &mut T::new().b(CKA_TOKEN, vf::bool_z(z!("token"))), &mut h),
            10 => create(o, &mut aes_key(vf::bool_z(z!("token")), false, 0x77), &mut h),
            11 => {
                let mut m = mech(CKM_AES_KEY_GEN);
                let mut t = T::new().ul(CKA_VALUE_LEN, 32).b(CKA_TOKEN, vf::bool_z(z!("token"))).b(CKA_PRIVATE, false);
                call!(C_GenerateKey(o, &mut m, t.p(), t.n(), &mut h))
            }
            12 => call!(C_SessionCancel(o, CKF_ENCRYPT | CKF_FIND_OBJECTS | CKF_DECRYPT)),
            13 => {
                // objects of the slot watched are not reachable from this one
                let mut l = [0 as H; 16];
                let (rv, n) = find(o, &mut T::new(), &mut l);
                for i in 0..n {
                    let mut b = [0u8; 64];
                    let (rv, len) = get_attr(o, l[i], CKA_LABEL, &mut b);
                    check!(rv != CKR_OK || len != 5 || &b[..5] != b"watch", "objects are found on their own slot only");
                }
                rv
            }
            _ => {
                let mut m = mech_b(CKM_AES_CBC, &mut iv);
                let rv = call!(C_EncryptInit(o, &mut m, ok[2]));
                let mut l: CK_ULONG = 32;
                if rv == CKR_OK { call!(C_Encrypt(o, d.as_mut_ptr(), 16, c[16..].as_mut_ptr(), &mut l)) } else { rv }
            }
        })
    };
    if rv == CKR_OK { cover!("done"); }
    let _ = act;
    // nothing has changed
    let mut l16 = [0 as H; 16];
    let mut n: CK_ULONG = 0;
    let rv = call!(C_FindObjects(s2, l16.as_mut_ptr(), 16, &mut n));
    check!(rv == CKR_OK && n >= 2, "a search on the other slot goes on");
    let rv = call!(C_FindObjectsFinal(s2));
    check!(rv == CKR_OK, "and can be ended");
    let v1 = view(w, s, s2, k[1]);
    check!(v0.st == v1.st && v0.st2 == v1.st2, "the login state of the other slot stays");
    check!(v0.flags == v1.flags && v0.label == v1.label, "the token information of the other slot stays");
    check!(v0.writes == v1.writes, "the storage of the other slot is left alone");
    equal(&v0.objs, &v1.objs, true, "the token objects of the other slot stay");
    check!(crate::h_store::same(&v0.sess, &v1.sess), "the session objects of the other slot stay");
    let mut l: CK_ULONG = 16;
    let rv = call!(C_EncryptUpdate(s, d.as_mut_ptr(), 16, c[16..].as_mut_ptr(), &mut l));
    check!(rv == CKR_OK && l == 16, "an operation on the other slot goes on");
    let mut m = mech_b(CKM_AES_CBC, &mut iv);
    let rv = call!(C_EncryptInit(s2, &mut m, k[1]));
    check!(rv == CKR_OK, "init");
    let mut c2 = [0u8; 32];
    let mut dd = [&d[..], &d[..]].concat();
    let mut l: CK_ULONG = 32;
    let rv = call!(C_Encrypt(s2, dd.as_mut_ptr(), 32, c2.as_mut_ptr(), &mut l));
    check!(rv == CKR_OK && c == c2, "with the right result");
    // PINs of the slot watched
    if lw == 1 { assert!(logout(s) == CKR_OK); }
    let rv = login(s, CKU_USER, USP[w]);
    check!(rv == CKR_OK, "the PINs of the other slot stay");
    expect!("done");
}
