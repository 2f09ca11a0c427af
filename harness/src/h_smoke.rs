use crate::p11::*;
use crate::*;

#[unsafe(no_mangle)]
pub extern "C" fn h_smoke() {
    let x = vf::u32_z(z!("x"));
    let y = x.wrapping_mul(3);
    vf::assume(x < 1000);
    if y > 600 {
        cover!("big");
    }
    check!(y != 42 || x == 14, "mul");
    vf::out(y as u64);
}

#[unsafe(no_mangle)]
pub extern "C" fn h_flow() {
    boot("enc0");
    let h = open(true);
    let r = login(h, CKU_USER, USER_PIN);
    vf::out(r);
    let mut t = T::new()
        .ul(CKA_CLASS, CKO_SECRET_KEY)
        .ul(CKA_KEY_TYPE, CKK_AES)
        .b(CKA_TOKEN, true)
        .b(CKA_SENSITIVE, true)
        .b(CKA_EXTRACTABLE, false)
        .bytes(CKA_VALUE, b"0123456789abcdef");
    let mut o = 0;
    let r = create(h, &mut t, &mut o);
    vf::out(r);
    vf::out(o);
    let mut buf = [0u8; 32];
    let (r, l) = get_attr(h, o, CKA_VALUE, &mut buf);
    vf::out(r);
    vf::out(l);
    let (r, l) = get_attr(h, o, CKA_KEY_TYPE, &mut buf);
    vf::out(r);
    vf::out(l);
    let mut f = [0; 8];
    let (r, n) = find(h, &mut T::new().ul(CKA_CLASS, CKO_SECRET_KEY), &mut f);
    vf::out(r);
    vf::out(n as u64);
    vf::out(f[0]);
    cover!("end");
}
