//! C26 token initialization
use crate::h_store::{equal, snap};
use crate::ops::*;
use crate::p11::*;
use crate::*;
use kryoptic_lib::verif;

fn init(pin: &[u8], label: *mut u8) -> CK_RV {
    let mut p = pin.to_vec();
    call!(C_InitToken(SLOT, p.as_mut_ptr(), p.len() as CK_ULONG, label))
}
const NEWPIN: &[u8] = b"zyxwvuts";
const ONCE: CK_FLAGS = CKF_USER_PIN_INITIALIZED | CKF_USER_PIN_LOCKED | CKF_USER_PIN_FINAL_TRY | CKF_USER_PIN_COUNT_LOW | CKF_SO_PIN_LOCKED | CKF_SO_PIN_FINAL_TRY | CKF_SO_PIN_COUNT_LOW;

/// p0: 1 = database without encryption, p1: failed SO logins before, p2: failed user logins before
#[unsafe(no_mangle)]
pub extern "C" fn h_init() {
    let cf = db(vf::param(0, 0));
    unsafe { crate::ossl_stub::ORACLE = true; crate::ossl_stub::SEAL = true; }
    let (fs, fu) = (vf::param(1, 0), vf::param(2, 0));
    boot(cf);
    // a token in use: two PINs (both changed), objects, failed attempts
    let s = open(true);
    let rv = login(s, CKU_USER, USER_PIN);
    check!(rv == CKR_OK, "login");
    let mut k: [H; 3] = [0; 3];
    for (i, (token, private)) in [(true, true), (true, false), (false, true)].iter().enumerate() {
        let rv = create(s, &mut aes_key(*token, *private, 0x30 + i as u8), &mut k[i]);
        check!(rv == CKR_OK, "create");
    }
    let v0 = snap(s);
    let rv = logout(s);
    check!(rv == CKR_OK, "logout");
    for _ in 0..fs { let rv = login(s, CKU_SO, NEWPIN); check!(rv != CKR_OK, "a wrong PIN"); }
    for _ in 0..fu { let rv = login(s, CKU_USER, NEWPIN); check!(rv != CKR_OK, "a wrong PIN"); }
    let keep = vf::bool_z(z!("session open"));
    if !keep { let rv = call!(C_CloseAllSessions(SLOT)); check!(rv == CKR_OK, "close"); }
    if vf::bool_z(z!("restart")) && !keep { restart(0, cf); }
    let (_, t0) = token_info();
    // the PIN given: any of the right length, or another length
    let mut pin = SO_PIN.to_vec();
    match vf::choose_z(5, z!("pin")) {
        0 => (),
        1 => { let i = [0, 3, 7][vf::choose_z(3, z!("position")) as usize]; let x = vf::u8_z(z!("byte")); pin[i] = x; }
        2 => { pin.pop(); }
        3 => pin = USER_PIN.to_vec(),
        _ => { pin.remove(0); }
    }
    let right = pin == SO_PIN;
    let mut label = [b' '; 32];
    let ll = [0usize, 4, 32][vf::choose_z(3, z!("label")) as usize];
    for i in 0..ll { label[i] = b'A' + (i % 26) as u8; }
    let given = ll > 0 || vf::bool_z(z!("blank"));
    let w0 = verif::RAW.get()[0].writes;
    let rv = init(&pin, if given { label.as_mut_ptr() } else { std::ptr::null_mut() });
    if keep {
        check!(rv == CKR_SESSION_EXISTS, "a token in use is not initialized");
        check!(verif::RAW.get()[0].writes == w0, "and not touched");
        let (rv, t) = token_info();
        check!(rv == CKR_OK && t.flags == t0.flags && t.label == t0.label, "its information stays");
        let rv = login(s, CKU_USER, USER_PIN);
        check!(rv == CKR_OK, "its PINs stay");
        equal(&v0, &snap(s), true, "its objects stay");
        cover!("in use");
        return;
    }
    let locked = fs >= 10;
    check!((rv == CKR_OK) == (right && !locked), "exactly the SO PIN of an initialized token initializes it again");
    if rv != CKR_OK {
        check!(rv == if locked || fs == 9 { CKR_PIN_LOCKED } else { CKR_PIN_INCORRECT }, "the refusal tells why");
        let (_, t) = token_info();
        check!(t.label == t0.label && t.flags & CKF_TOKEN_INITIALIZED != 0 && t.flags & CKF_USER_PIN_INITIALIZED != 0, "a refused initialization leaves the token as it was");
        let n = fs + if locked { 0 } else { 1 };
        let want = match n { 0..=6 => 0, 7 | 8 => CKF_SO_PIN_COUNT_LOW, 9 => CKF_SO_PIN_FINAL_TRY, _ => CKF_SO_PIN_LOCKED };
        check!(t.flags & (CKF_SO_PIN_COUNT_LOW | CKF_SO_PIN_FINAL_TRY | CKF_SO_PIN_LOCKED) == want, "a wrong PIN is counted like one given to C_Login");
        let s = open(true);
        let rv = login(s, CKU_USER, USER_PIN);
        check!(rv == CKR_OK, "the user PIN stays");
        equal(&v0, &snap(s), false, "the objects stay");
        cover!("refused");
        return;
    }
    cover!("initialized");
    for pass in 0..2 {
        let (rv, t) = token_info();
        check!(rv == CKR_OK && t.label == label, "the label is the one given");
        check!(t.flags & CKF_TOKEN_INITIALIZED != 0 && t.flags & ONCE == 0, "no user PIN is left, and no failed attempts");
        let s = open(true);
        let rv = login(s, CKU_USER, USER_PIN);
        check!(rv == CKR_USER_PIN_NOT_INITIALIZED, "the former user PIN is gone");
        let rv = login(s, CKU_SO, USER_PIN);
        check!(rv == CKR_PIN_INCORRECT, "another PIN is not the SO PIN");
        let rv = login(s, CKU_SO, SO_PIN);
        check!(rv == CKR_OK, "the SO PIN is the one given");
        if pass == 0 && vf::bool_z(z!("restart then")) {
            let rv = logout(s);
            check!(rv == CKR_OK, "logout");
            restart(0, cf);
            cover!("restart");
            continue;
        }
        let rv = init_pin(s, NEWPIN);
        check!(rv == CKR_OK, "the SO sets the user PIN");
        let rv = logout(s);
        check!(rv == CKR_OK, "logout");
        let rv = login(s, CKU_USER, NEWPIN);
        check!(rv == CKR_OK, "which is then valid");
        check!(snap(s).is_empty(), "no object of the former token is left");
        let mut b = [0u8; 32];
        for h in k.iter() {
            let (rv, _) = get_attr(s, *h, CKA_CLASS, &mut b);
            check!(rv != CKR_OK || snap(s).iter().all(|o| o.h != *h), "its handles are no longer valid");
        }
        let mut h: H = 0;
        let rv = create(s, &mut aes_key(true, true, 0x66), &mut h);
        check!(rv == CKR_OK, "the token can be used");
        check!(snap(s).len() == 1, "and holds the new object");
        break;
    }
    for o in verif::RAW.get()[0].objs.iter() {
        for v in v0.iter() {
            let uid = verif::uid_of(o);
            check!(uid.is_none() || uid.unwrap().as_bytes() != &v.a[0].1[..], "nothing of the former objects is left in the storage");
        }
    }
    expect!("initialized");
}
