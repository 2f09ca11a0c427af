#![allow(dead_code)]
mod ossl_stub;
mod p11;
mod vf;
mod keys;
mod h_life;
mod h_find;
mod ops;
mod h_access;
mod h_aes;
mod h_attr;
mod h_smoke;
mod h_pin;
mod h_usage;
mod h_ops;
mod h_sess;
mod h_wrap;
mod h_derive;
mod h_rest;
mod h_store;
mod h_sign;
mod h_otp;
mod h_slots;
mod h_init;
mod h_mech;
mod h_args;
mod h_tmpl;
mod h_dual;
mod h_rng;
mod sql_stub;
mod h_sql;

macro_rules! entries {
    ($($m:ident :: $f:ident),* $(,)?) => {
        static ENTRIES: &[(&str, extern "C" fn())] = &[ $( (stringify!($f), $m::$f) ),* ];
    };
}
entries! {
    h_smoke::h_smoke,
    h_sql::h_sql_vals,
    h_sql::h_crash,
    h_smoke::h_flow,
    h_sess::h_sess,
    h_attr::h_attr,
    h_life::h_life,
    h_find::h_find, h_find::h_find_secret,
    h_aes::h_aes_stream, h_aes::h_aes_ctr, h_aes::h_aes_tamper, h_aes::h_aes_kw, h_aes::h_msg, h_aes::h_msg_iv,
    h_access::h_private, h_access::h_readonly,
    h_usage::h_usage, h_usage::h_always,
    h_ops::h_ops,
    h_wrap::h_wrap,
    h_derive::h_derive_attrs, h_derive::h_derive_value,
    h_rest::h_rest, h_rest::h_rest_gen, h_rest::h_rest_tamper,
    h_sign::h_sign, h_sign::h_digest, h_sign::h_rsa_enc,
    h_otp::h_otp, h_otp::h_otp_seq,
    h_slots::h_slots, h_slots::h_slots_seq,
    h_init::h_init, h_mech::h_mech_flags, h_mech::h_mech_list, h_args::h_args, h_args::h_params, h_dual::h_dual, h_rng::h_rng, h_rng::h_rng_store, h_rng::h_rng_fail, h_derive::h_pbkdf2, h_tmpl::h_tmpl, h_tmpl::h_tmpl_bad, h_tmpl::h_tmpl_gen,
    h_store::h_persist, h_store::h_fault, h_store::h_fault_init,
    h_pin::h_pin, h_pin::h_pin_ro,
}

fn main() {
    let n = std::env::args().nth(1).unwrap_or_default();
    for (k, f) in ENTRIES {
        if *k == n {
            f();
            println!("VF_DONE");
            return;
        }
    }
    for (k, _) in ENTRIES {
        println!("{}", k);
    }
    std::process::exit(64);
}
