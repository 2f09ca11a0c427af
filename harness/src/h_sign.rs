//! C19 signatures, MACs and digests, C34 RSA encryption
#![allow(static_mut_refs)]
use crate::keys;
use crate::ossl_stub::*;
use crate::p11::*;
use crate::*;

/// name for the stub, digest, HMAC, HMAC general, RSA PKCS#1, RSA PSS, ECDSA, MGF, size, block
struct Md { n: &'static [u8], h: CK_ULONG, mac: CK_ULONG, gen_: CK_ULONG, rsa: CK_ULONG, pss: CK_ULONG, ec: CK_ULONG, mgf: CK_ULONG, size: usize, block: usize }
const MDS: [Md; 11] = [
    Md { n: b"SHA1", h: CKM_SHA_1, mac: CKM_SHA_1_HMAC, gen_: CKM_SHA_1_HMAC_GENERAL, rsa: CKM_SHA1_RSA_PKCS, pss: CKM_SHA1_RSA_PKCS_PSS, ec: CKM_ECDSA_SHA1, mgf: CKG_MGF1_SHA1, size: 20, block: 64 },
    Md { n: b"SHA224", h: CKM_SHA224, mac: CKM_SHA224_HMAC, gen_: CKM_SHA224_HMAC_GENERAL, rsa: CKM_SHA224_RSA_PKCS, pss: CKM_SHA224_RSA_PKCS_PSS, ec: CKM_ECDSA_SHA224, mgf: CKG_MGF1_SHA224, size: 28, block: 64 },
    Md { n: b"SHA256", h: CKM_SHA256, mac: CKM_SHA256_HMAC, gen_: CKM_SHA256_HMAC_GENERAL, rsa: CKM_SHA256_RSA_PKCS, pss: CKM_SHA256_RSA_PKCS_PSS, ec: CKM_ECDSA_SHA256, mgf: CKG_MGF1_SHA256, size: 32, block: 64 },
    Md { n: b"SHA384", h: CKM_SHA384, mac: CKM_SHA384_HMAC, gen_: CKM_SHA384_HMAC_GENERAL, rsa: CKM_SHA384_RSA_PKCS, pss: CKM_SHA384_RSA_PKCS_PSS, ec: CKM_ECDSA_SHA384, mgf: CKG_MGF1_SHA384, size: 48, block: 128 },
    Md { n: b"SHA512", h: CKM_SHA512, mac: CKM_SHA512_HMAC, gen_: CKM_SHA512_HMAC_GENERAL, rsa: CKM_SHA512_RSA_PKCS, pss: CKM_SHA512_RSA_PKCS_PSS, ec: CKM_ECDSA_SHA512, mgf: CKG_MGF1_SHA512, size: 64, block: 128 },
    Md { n: b"SHA3-224", h: CKM_SHA3_224, mac: CKM_SHA3_224_HMAC, gen_: CKM_SHA3_224_HMAC_GENERAL, rsa: CKM_SHA3_224_RSA_PKCS, pss: CKM_SHA3_224_RSA_PKCS_PSS, ec: CKM_ECDSA_SHA3_224, mgf: CKG_MGF1_SHA3_224, size: 28, block: 144 },
    Md { n: b"SHA3-256", h: CKM_SHA3_256, mac: CKM_SHA3_256_HMAC, gen_: CKM_SHA3_256_HMAC_GENERAL, rsa: CKM_SHA3_256_RSA_PKCS, pss: CKM_SHA3_256_RSA_PKCS_PSS, ec: CKM_ECDSA_SHA3_256, mgf: CKG_MGF1_SHA3_256, size: 32, block: 136 },
    Md { n: b"SHA3-384", h: CKM_SHA3_384, mac: CKM_SHA3_384_HMAC, gen_: CKM_SHA3_384_HMAC_GENERAL, rsa: CKM_SHA3_384_RSA_PKCS, pss: CKM_SHA3_384_RSA_PKCS_PSS, ec: CKM_ECDSA_SHA3_384, mgf: CKG_MGF1_SHA3_384, size: 48, block: 104 },
    Md { n: b"SHA3-512", h: CKM_SHA3_512, mac: CKM_SHA3_512_HMAC, gen_: CKM_SHA3_512_HMAC_GENERAL, rsa: CKM_SHA3_512_RSA_PKCS, pss: CKM_SHA3_512_RSA_PKCS_PSS, ec: CKM_ECDSA_SHA3_512, mgf: CKG_MGF1_SHA3_512, size: 64, block: 72 },
    Md { n: b"SHA2-512/224", h: CKM_SHA512_224, mac: CKM_SHA512_224_HMAC, gen_: CKM_SHA512_224_HMAC_GENERAL, rsa: 0, pss: 0, ec: 0, mgf: 0, size: 28, block: 128 },
    Md { n: b"SHA2-512/256", h: CKM_SHA512_256, mac: CKM_SHA512_256_HMAC, gen_: CKM_SHA512_256_HMAC_GENERAL, rsa: 0, pss: 0, ec: 0, mgf: 0, size: 32, block: 128 },
];
const HMAC: i64 = 0;
const HMAC_G: i64 = 1;
const RSA: i64 = 2;
const PSS: i64 = 3;
const EC: i64 = 4;
const CMAC: i64 = 5;
const TLS: i64 = 6;
const RAW_PKCS: i64 = 7;
const RAW_PSS: i64 = 8;
const RAW_EC: i64 = 9;
const AESMAC: i64 = 10;
const RAW_X509: i64 = 11;

fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0u8;
    for (x, y) in a.iter().zip(b.iter()) { d |= x ^ y; }
    d == 0
}
fn cat(p: &[&[u8]]) -> Vec<u8> { let mut v = vec![]; for x in p { v.extend_from_slice(x); } v }
fn key_t(k: CK_ULONG, v: &[u8]) -> T {
    T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, k).b(CKA_TOKEN, false).b(CKA_PRIVATE, false).b(CKA_SIGN, true).b(CKA_VERIFY, true).b(CKA_DERIVE, true).bytes(CKA_VALUE, v)
}
pub fn rsa_pair(s: H, n: &[u8]) -> (H, H) {
    let (mut sk, mut pk) = (0, 0);
    let mut t = keys::kind(keys::RSA).t.set(CKA_TOKEN, false).set(CKA_PRIVATE, false).set(CKA_SIGN, true).set(CKA_DECRYPT, true).set(CKA_UNWRAP, true);
    t.put(CKA_MODULUS, n);
    let rv = create(s, &mut t, &mut sk);
    check!(rv == CKR_OK, "private key");
    let mut t = keys::kind(keys::RSAPUB).t.set(CKA_TOKEN, false).set(CKA_PRIVATE, false).set(CKA_VERIFY, true).set(CKA_ENCRYPT, true).set(CKA_WRAP, true);
    t.put(CKA_MODULUS, n);
    let rv = create(s, &mut t, &mut pk);
    check!(rv == CKR_OK, "public key");
    (sk, pk)
}
const P384: &[u8] = &[0x06, 0x05, 0x2b, 0x81, 0x04, 0x00, 0x22];
const P521: &[u8] = &[0x06, 0x05, 0x2b, 0x81, 0x04, 0x00, 0x23];
fn ec_pair(s: H, curve: u64, b: u8) -> (H, H) {
    let (oid, l) = [(keys::P256, 32), (P384, 48), (P521, 66)][curve as usize];
    let (mut sk, mut pk) = (0, 0);
    let mut v = vec![b; l];
    if curve == 2 { v[0] = 1; }
    let mut t = T::new().ul(CKA_CLASS, CKO_PRIVATE_KEY).ul(CKA_KEY_TYPE, CKK_EC).b(CKA_TOKEN, false).b(CKA_PRIVATE, false).b(CKA_SIGN, true).bytes(CKA_EC_PARAMS, oid).bytes(CKA_VALUE, &v);
    let rv = create(s, &mut t, &mut sk);
    check!(rv == CKR_OK, "private key");
    let n = 2 * l + 1;
    let mut p = if n < 128 { vec![4, n as u8] } else { vec![4, 0x81, n as u8] };
    p.push(4);
    p.extend(vec![b; 2 * l]);
    let mut t = T::new().ul(CKA_CLASS, CKO_PUBLIC_KEY).ul(CKA_KEY_TYPE, CKK_EC).b(CKA_TOKEN, false).b(CKA_PRIVATE, false).b(CKA_VERIFY, true).bytes(CKA_EC_PARAMS, oid).bytes(CKA_EC_POINT, &p);
    let rv = create(s, &mut t, &mut pk);
    check!(rv == CKR_OK, "public key");
    (sk, pk)
}
fn sign_one(s: H, m: &mut CK_MECHANISM, k: H, d: &[u8], n: usize) -> Result<Vec<u8>, CK_RV> {
    let rv = call!(C_SignInit(s, m, k));
    if rv != CKR_OK { return Err(rv); }
    let mut d = d.to_vec();
    if d.is_empty() { d.reserve(1); }
    let mut l: CK_ULONG = 0;
    let rv = call!(C_Sign(s, d.as_mut_ptr(), d.len() as CK_ULONG, std::ptr::null_mut(), &mut l));
    check!(rv == CKR_OK && l as usize == n, "the length of the signature");
    let mut o = vec![0x5Au8; n + 2];
    let mut l = (n + 2) as CK_ULONG;
    let rv = call!(C_Sign(s, d.as_mut_ptr(), d.len() as CK_ULONG, o.as_mut_ptr(), &mut l));
    if rv != CKR_OK { return Err(rv); }
    check!(l as usize == n && o[n] == 0x5A && o[n + 1] == 0x5A, "exactly the signature is written");
    o.truncate(n);
    Ok(o)
}
fn parts<'a>(d: &'a [u8], a: usize, b: usize) -> [&'a [u8]; 3] { [&d[..a], &d[a..b], &d[b..]] }
fn sign_multi(s: H, m: &mut CK_MECHANISM, k: H, d: &[u8], cut: (usize, usize), n: usize) -> Result<Vec<u8>, CK_RV> {
    let rv = call!(C_SignInit(s, m, k));
    if rv != CKR_OK { return Err(rv); }
    for p in parts(d, cut.0, cut.1) {
        let mut p = p.to_vec();
        if p.is_empty() { p.reserve(1); }
        let rv = call!(C_SignUpdate(s, p.as_mut_ptr(), p.len() as CK_ULONG));
        if rv != CKR_OK { return Err(rv); }
    }
    let mut o = vec![0x5Au8; n + 2];
    let mut l = (n + 2) as CK_ULONG;
    let rv = call!(C_SignFinal(s, o.as_mut_ptr(), &mut l));
    if rv != CKR_OK { return Err(rv); }
    check!(l as usize == n && o[n] == 0x5A && o[n + 1] == 0x5A, "exactly the signature is written");
    o.truncate(n);
    Ok(o)
}
/// how: 0 one call, 1 in parts, 2 pre-set signature and one call, 3 pre-set signature and parts
fn verify(how: u64, s: H, m: &mut CK_MECHANISM, k: H, d: &[u8], cut: (usize, usize), sig: &[u8]) -> CK_RV {
    let mut sig = sig.to_vec();
    if sig.is_empty() { sig.reserve(1); }
    let mut d = d.to_vec();
    if d.is_empty() { d.reserve(1); }
    let (sp, sl) = (sig.as_mut_ptr(), sig.len() as CK_ULONG);
    let rv = if how < 2 { call!(C_VerifyInit(s, m, k)) } else { call!(C_VerifySignatureInit(s, m, k, sp, sl)) };
    if rv != CKR_OK { return rv; }
    match how {
        0 => call!(C_Verify(s, d.as_mut_ptr(), d.len() as CK_ULONG, sp, sl)),
        2 => call!(C_VerifySignature(s, d.as_mut_ptr(), d.len() as CK_ULONG)),
        _ => {
            for p in parts(&d, cut.0, cut.1) {
                let mut p = p.to_vec();
                if p.is_empty() { p.reserve(1); }
                let (pp, pn) = (p.as_mut_ptr(), p.len() as CK_ULONG);
                let rv = if how == 1 { call!(C_VerifyUpdate(s, pp, pn)) } else { call!(C_VerifySignatureUpdate(s, pp, pn)) };
                if rv != CKR_OK { return rv; }
            }
            if how == 1 { call!(C_VerifyFinal(s, sp, sl)) } else { call!(C_VerifySignatureFinal(s)) }
        }
    }
}
fn hmac(d: &Md, k: &[u8], m: &[u8]) -> Vec<u8> { ref_hmac(d.n, d.block, k, m) }

/// p0: family, p1: digest, p2: curve, length of the AES key or number of mask functions, p3: 1 = alter every byte of the signature
#[unsafe(no_mangle)]
pub extern "C" fn h_sign() {
    boot("plain0");
    let fam = vf::param(0, 0);
    let md = &MDS[vf::param(1, 2) as usize];
    let curve = vf::param(2, 0) as u64;
    let s = open(true);
    let rv = login(s, CKU_USER, USER_PIN);
    check!(rv == CKR_OK, "login");
    unsafe { ORACLE = true; BLOCK_ORACLE = true; }
    // data
    let lens: &[usize] = match fam { AESMAC => &[1, 15, 16, 17, 32, 40], RAW_PSS => &[0], RAW_EC => &[20, 32, 64], RAW_PKCS => &[1, 35, 117], RAW_X509 => &[128], _ => &[1, 16, 33] };
    let mut n = lens[vf::choose_z(lens.len() as u64, z!("length")) as usize];
    if fam == RAW_PSS { n = md.size; }
    let mut data = keys::pat(n, 0x21);
    vf::bytes_z(&mut data[n / 2..n / 2 + 1], z!("data"));
    let cut = if n < 3 { (vf::choose_z(n as u64 + 1, z!("cut")) as usize, n) } else {
        [(0, 0), (0, 1), (1, n - 1), (n - 1, n), (n / 2, n / 2), (1, n.min(17)), (n.min(16), n)][vf::choose_z(7, z!("cut")) as usize]
    };
    // key and mechanism
    let mut m = mech(0);
    let mut want = vec![];
    let mut siglen = 0;
    let mut glen: CK_ULONG = 0;
    let mut wmd = 0;
    let mut pssp = CK_RSA_PKCS_PSS_PARAMS { hashAlg: md.h, mgf: md.mgf, sLen: 0 };
    let mut tlsp = CK_TLS_MAC_PARAMS { prfHashMechanism: md.h, ulMacLength: 12, ulServerOrClient: 1 };
    let (mut sk, mut vk, mut wk): (H, H, H) = (0, 0, 0);
    let raw = matches!(fam, RAW_PKCS | RAW_PSS | RAW_EC | RAW_X509);
    match fam {
        HMAC | HMAC_G => {
            let kl = [1, md.size, md.block - 1, md.block, md.block + 1, 200][vf::choose_z(6, z!("key length")) as usize];
            let mut kv = keys::pat(kl, 0x77);
            vf::bytes_z(&mut kv[kl - 1..], z!("key"));
            let rv = create(s, &mut key_t(CKK_GENERIC_SECRET, &kv), &mut sk);
            check!(rv == CKR_OK, "create");
            vk = sk;
            let mut w = kv.clone();
            w[0] ^= 0x40;
            let rv = create(s, &mut key_t(CKK_GENERIC_SECRET, &w), &mut wk);
            check!(rv == CKR_OK, "create");
            m.mechanism = md.mac;
            siglen = md.size;
            if fam == HMAC_G {
                m.mechanism = md.gen_;
                siglen = [1, md.size / 2, md.size - 1, md.size][vf::choose_z(4, z!("MAC length")) as usize];
                glen = siglen as CK_ULONG;
            }
            want = hmac(md, &kv, &data);
            want.truncate(siglen);
        }
        CMAC | AESMAC => {
            let kl = [16, 24, 32][curve as usize];
            let kv = keys::pat(kl, 0x33);
            let rv = create(s, &mut key_t(CKK_AES, &kv).b(CKA_ENCRYPT, true), &mut sk);
            check!(rv == CKR_OK, "create");
            vk = sk;
            let w: Vec<u8> = kv.iter().enumerate().map(|(i, b)| b ^ (0x11 + 7 * i as u8)).collect();
            let rv = create(s, &mut key_t(CKK_AES, &w), &mut wk);
            check!(rv == CKR_OK, "create");
            let gen_ = vf::bool_z(z!("general"));
            m.mechanism = if fam == CMAC { CKM_AES_CMAC } else { CKM_AES_MAC };
            siglen = if fam == CMAC { 16 } else { 8 };
            if gen_ {
                m.mechanism = if fam == CMAC { CKM_AES_CMAC_GENERAL } else { CKM_AES_MAC_GENERAL };
                siglen = [1, 4, 15, 16][vf::choose_z(4, z!("MAC length")) as usize];
                glen = siglen as CK_ULONG;
            }
            if fam == CMAC { want = ref_cmac(&kv, &data); } else {
                // the last block of CBC encryption of the data padded with zeroes
                let mut p = data.clone();
                while p.len() % 16 != 0 { p.push(0); }
                let mut iv = [0u8; 16];
                let mut c = mech_b(CKM_AES_CBC, &mut iv);
                let mut o = vec![0u8; p.len()];
                let mut l = o.len() as CK_ULONG;
                let rv = call!(C_EncryptInit(s, &mut c, sk));
                check!(rv == CKR_OK, "encrypt init");
                let rv = call!(C_Encrypt(s, p.as_mut_ptr(), p.len() as CK_ULONG, o.as_mut_ptr(), &mut l));
                check!(rv == CKR_OK, "encrypt");
                want = o[o.len() - 16..].to_vec();
            }
            want.truncate(siglen);
        }
        TLS => {
            let kv = keys::pat(48, 0x55);
            let rv = create(s, &mut key_t(CKK_GENERIC_SECRET, &kv), &mut sk);
            check!(rv == CKR_OK, "create");
            vk = sk;
            let rv = create(s, &mut key_t(CKK_GENERIC_SECRET, &keys::pat(48, 0x56)), &mut wk);
            check!(rv == CKR_OK, "create");
            siglen = [1, 12, md.size, md.size + 1][vf::choose_z(4, z!("MAC length")) as usize];
            let client = vf::bool_z(z!("client"));
            tlsp.ulMacLength = siglen as CK_ULONG;
            tlsp.ulServerOrClient = 1 + client as CK_ULONG;
            m.mechanism = CKM_TLS12_MAC;
            let seed = cat(&[if client { b"client finished" } else { b"server finished" }, &data]);
            let mut a = hmac(md, &kv, &seed);
            while want.len() < siglen {
                want.extend(hmac(md, &kv, &cat(&[&a, &seed])));
                a = hmac(md, &kv, &a);
            }
            want.truncate(siglen);
        }
        RSA | PSS | RAW_PKCS | RAW_PSS | RAW_X509 => {
            let nn = keys::pat(128, 0x91);
            (sk, vk) = rsa_pair(s, &nn);
            wk = rsa_pair(s, &keys::pat(128, 0x93)).1;
            siglen = 128;
            let mut sp = SigP::new();
            m.mechanism = match fam { RSA => md.rsa, PSS => md.pss, RAW_PKCS => CKM_RSA_PKCS, RAW_X509 => CKM_RSA_X_509, _ => CKM_RSA_PKCS_PSS };
            if !raw || fam == RAW_PSS { sp.md = md_id(md.n); }
            if fam == RAW_X509 { sp.pad = 2; }
            if fam == PSS || fam == RAW_PSS {
                sp.pad = 4;
                // p2: how many mask functions
                let g = &MDS[(vf::param(1, 2) as usize + 4 * vf::choose_z(if curve == 0 { 2 } else { curve }, z!("mask")) as usize) % 9];
                pssp.mgf = g.mgf;
                sp.mgf = md_id(g.n);
                pssp.sLen = [0, md.size as CK_ULONG, 11][vf::choose_z(3, z!("salt")) as usize];
                sp.salt = pssp.sLen as i64;
            }
            want = vec![0; 128];
            let mut id = nn;
            id.reverse();
            ref_sign(&sp, raw, &id, &data, &mut want);
        }
        _ => {
            let l = [32, 48, 66][curve as usize];
            (sk, vk) = ec_pair(s, curve, 0x35);
            wk = ec_pair(s, curve, 0x36).1;
            siglen = 2 * l;
            let mut sp = SigP::new();
            m.mechanism = if raw { CKM_ECDSA } else { md.ec };
            if !raw { sp.md = md_id(md.n); }
            want = vec![0; siglen];
            let sh = vf::choose_z(6, z!("shape"));
            unsafe { EC_SHAPE = [[(0, true), (0, false)], [(1, true), (0, true)], [(0, false), (1, false)], [(2, false), (3, true)], [(l - 1, true), (1, true)], [(0, false), (l - 1, false)]][sh as usize]; }
            ref_sign(&sp, raw, &[7, 0x35], &data, &mut want);
            ec_shape(l, &mut want);
        }
    }
    if glen != 0 { m.pParameter = &mut glen as *mut _ as *mut _; m.ulParameterLen = 8; }
    if fam == PSS || fam == RAW_PSS { m.pParameter = &mut pssp as *mut _ as *mut _; m.ulParameterLen = std::mem::size_of_val(&pssp) as CK_ULONG; }
    if fam == TLS { m.pParameter = &mut tlsp as *mut _ as *mut _; m.ulParameterLen = std::mem::size_of_val(&tlsp) as CK_ULONG; }

    let how = if raw { 2 * vf::choose_z(2, z!("how")) } else if fam == TLS { vf::choose_z(2, z!("how")) } else { vf::choose_z(4, z!("how")) };
    let sig = if how % 2 == 0 { sign_one(s, &mut m, sk, &data, siglen) } else { sign_multi(s, &mut m, sk, &data, cut, siglen) };
    let sig = match sig {
        Ok(v) => v,
        Err(_) => { check!(false, "signing succeeds"); return; }
    };
    check!(eq(&sig, &want), "the signature is the one its mechanism defines");
    cover!("signed");
    // verification
    let mut d = data.clone();
    let mut v = sig.clone();
    let mut k = vk;
    let what = vf::choose_z(8, z!("altered"));
    match what {
        0 => (),
        1 => {
            let i = if vf::param(3, 0) == 1 { vf::choose_z(siglen as u64, z!("byte")) as usize } else { [0, siglen / 2, siglen - 1][vf::choose_z(3, z!("byte")) as usize] };
            let x = vf::u8_z(z!("mask of the signature"));
            vf::assume(x != 0);
            v[i] ^= x;
        }
        2 => v.truncate(siglen - 1),
        3 => v.push(0),
        4 => {
            let i = [0, n / 2, n - 1][vf::choose_z(3, z!("byte")) as usize];
            let x = vf::u8_z(z!("mask of the data"));
            vf::assume(x != 0);
            d[i] ^= x;
        }
        5 => { d.pop(); if fam == AESMAC { vf::assume(n % 16 == 1); } }
        // zero padding hides zeroes at the end of the data
        6 => { d.push(0x80); if raw && fam == RAW_PKCS { vf::assume(n < 117); } }
        _ => {
            k = wk;
            if (fam == PSS || fam == RAW_PSS) && vf::bool_z(z!("parameters")) {
                k = vk;
                wmd = vf::choose_z(2, z!("which"));
                if wmd == 0 { pssp.sLen += 1 } else { pssp.mgf = if pssp.mgf == CKG_MGF1_SHA384 { CKG_MGF1_SHA256 } else { CKG_MGF1_SHA384 } }
            }
        }
    }
    let _ = wmd;
    let c = (cut.0.min(d.len()), cut.1.min(d.len()).max(cut.0.min(d.len())));
    let rv = verify(how, s, &mut m, k, &d, c, &v);
    if what == 0 {
        check!(rv == CKR_OK, "the signature verifies");
        cover!("verified");
    } else {
        check!(rv != CKR_OK, "nothing else verifies");
        cover!("refused");
    }
    // nothing is left over
    let mut l: CK_ULONG = 0;
    if what != 2 && what != 3 {
        check!(call!(C_SignFinal(s, std::ptr::null_mut(), &mut l)) == CKR_OPERATION_NOT_INITIALIZED, "the signature operation is over");
    }
    expect!("signed", "verified", "refused");
}

/// p0: digest
#[unsafe(no_mangle)]
pub extern "C" fn h_digest() {
    boot("plain0");
    let md = &MDS[vf::param(0, 2) as usize];
    let s = open(true);
    let rv = login(s, CKU_USER, USER_PIN);
    check!(rv == CKR_OK, "login");
    unsafe { ORACLE = true; }
    let n = [0, 1, 16, 33, 200][vf::choose_z(5, z!("length")) as usize];
    let mut data = keys::pat(n, 0x21);
    if n > 0 { vf::bytes_z(&mut data[n / 2..n / 2 + 1], z!("data")); }
    let cut = if n < 3 { (0, vf::choose_z(n as u64 + 1, z!("cut")) as usize) } else { [(0, 0), (0, 1), (1, n - 1), (n - 1, n), (n / 2, n / 2)][vf::choose_z(5, z!("cut")) as usize] };
    let kv = keys::pat(40, 0x77);
    let mut key: H = 0;
    let rv = create(s, &mut key_t(CKK_GENERIC_SECRET, &kv), &mut key);
    check!(rv == CKR_OK, "create");
    let mut m = mech(md.h);
    let rv = call!(C_DigestInit(s, &mut m));
    check!(rv == CKR_OK, "init");
    let mut o = [0x5Au8; 70];
    let mut l: CK_ULONG = 70;
    let mut d = data.clone();
    d.reserve(1);
    let mut want = data.clone();
    let query = vf::bool_z(z!("query"));
    if vf::bool_z(z!("one call")) {
        if query {
            let rv = call!(C_Digest(s, d.as_mut_ptr(), n as CK_ULONG, std::ptr::null_mut(), &mut l));
            check!(rv == CKR_OK && l as usize == md.size, "the length of the digest");
        }
        let rv = call!(C_Digest(s, d.as_mut_ptr(), n as CK_ULONG, o.as_mut_ptr(), &mut l));
        check!(rv == CKR_OK, "digest");
        cover!("one call");
    } else {
        // a key may come in between
        let at = vf::choose_z(5, z!("key")) as usize;
        want.clear();
        for (i, p) in parts(&data, cut.0, cut.1).iter().enumerate() {
            if at == i {
                let rv = call!(C_DigestKey(s, key));
                check!(rv == CKR_OK, "digest a key");
                want.extend_from_slice(&kv);
                cover!("key");
            }
            let mut p = p.to_vec();
            want.extend_from_slice(&p);
            p.reserve(1);
            let rv = call!(C_DigestUpdate(s, p.as_mut_ptr(), p.len() as CK_ULONG));
            check!(rv == CKR_OK, "update");
        }
        if query {
            let rv = call!(C_DigestFinal(s, std::ptr::null_mut(), &mut l));
            check!(rv == CKR_OK && l as usize == md.size, "the length of the digest");
            l = md.size as CK_ULONG;
        }
        let rv = call!(C_DigestFinal(s, o.as_mut_ptr(), &mut l));
        check!(rv == CKR_OK, "final");
    }
    check!(l as usize == md.size && o[md.size] == 0x5A, "exactly the digest is written");
    check!(eq(&o[..md.size], &ref_hash(md.n, &want)), "the digest is that of the data");
    let mut m = mech(md.h);
    check!(call!(C_DigestInit(s, &mut m)) == CKR_OK, "the operation is over");
    expect!("one call", "key");
}

/// p0: 0 PKCS#1, 1 OAEP, p1: digest
#[unsafe(no_mangle)]
pub extern "C" fn h_rsa_enc() {
    boot("plain0");
    let oaep = vf::param(0, 0) == 1;
    let md = &MDS[vf::param(1, 0) as usize];
    let s = open(true);
    let rv = login(s, CKU_USER, USER_PIN);
    check!(rv == CKR_OK, "login");
    unsafe { ORACLE = true; }
    const N: usize = 256;
    let nn = keys::pat(N, 0x91);
    let (sk, pk) = rsa_pair(s, &nn);
    let other = rsa_pair(s, &keys::pat(N, 0x93)).0;
    let max = if oaep { N - 2 - 2 * md.size } else { N - 11 };
    let n = [1, 16, max, max + 1, N][vf::choose_z(5, z!("length")) as usize];
    let mut data = keys::pat(n, 0x21);
    vf::bytes_z(&mut data[..1], z!("data"));
    let mut label = keys::pat(5, 0x61);
    let mut p = CK_RSA_PKCS_OAEP_PARAMS { hashAlg: md.h, mgf: md.mgf, source: 0, pSourceData: std::ptr::null_mut(), ulSourceDataLen: 0 };
    let mut sp = SigP::new();
    let mut m = mech(CKM_RSA_PKCS);
    if oaep {
        let g = &MDS[vf::choose_z(9, z!("mask")) as usize];
        p.mgf = g.mgf;
        sp.pad = 3;
        sp.md = md_id(md.n);
        sp.mgf = md_id(g.n);
        match vf::choose_z(3, z!("label")) {
            0 => (),
            1 => p.source = CKZ_DATA_SPECIFIED,
            _ => {
                let k = 1 + vf::choose_z(5, z!("label length")) as usize;
                p.source = CKZ_DATA_SPECIFIED;
                p.pSourceData = label.as_mut_ptr() as *mut _;
                p.ulSourceDataLen = k as CK_ULONG;
                sp.label = label[..k].to_vec();
            }
        }
        m.mechanism = CKM_RSA_PKCS_OAEP;
        m.pParameter = &mut p as *mut _ as *mut _;
        m.ulParameterLen = std::mem::size_of_val(&p) as CK_ULONG;
    }
    let rv = call!(C_EncryptInit(s, &mut m, pk));
    check!(rv == CKR_OK, "encrypt init");
    let mut c = [0x5Au8; N + 1];
    let mut l: CK_ULONG = 0;
    let rv = call!(C_Encrypt(s, data.as_mut_ptr(), n as CK_ULONG, std::ptr::null_mut(), &mut l));
    check!(rv == CKR_OK && l as usize == N, "the length of the ciphertext");
    let rv = call!(C_Encrypt(s, data.as_mut_ptr(), n as CK_ULONG, c.as_mut_ptr(), &mut l));
    if n > max {
        check!(rv != CKR_OK && eq(&c, &[0x5A; N + 1]), "a message longer than the padding allows is refused");
        cover!("too long");
        return;
    }
    check!(rv == CKR_OK && l as usize == N && c[N] == 0x5A, "encrypt");
    let mut want = [0u8; N];
    let mut id = nn;
    id.reverse();
    ref_rsa_enc(&sp, &id, &data, &mut want);
    check!(eq(&c[..N], &want), "the ciphertext is the one the mechanism and its parameters define");
    cover!("encrypted");
    let what = vf::choose_z(if oaep { 7 } else { 4 }, z!("altered"));
    let mut cl = N;
    let mut k = sk;
    match what {
        0 => (),
        1 => {
            let x = vf::u8_z(z!("mask"));
            vf::assume(x != 0);
            c[[0, 77, N - 1][vf::choose_z(3, z!("byte")) as usize]] ^= x;
        }
        2 => cl = N - 1,
        3 => k = other,
        4 => p.hashAlg = if p.hashAlg == CKM_SHA384 { CKM_SHA256 } else { CKM_SHA384 },
        5 => p.mgf = if p.mgf == CKG_MGF1_SHA384 { CKG_MGF1_SHA256 } else { CKG_MGF1_SHA384 },
        _ => {
            p.source = CKZ_DATA_SPECIFIED;
            p.pSourceData = label.as_mut_ptr() as *mut _;
            p.ulSourceDataLen = if p.ulSourceDataLen == 3 { 2 } else { 3 };
        }
    }
    let rv = call!(C_DecryptInit(s, &mut m, k));
    check!(rv == CKR_OK, "decrypt init");
    let mut o = [0x5Au8; N + 1];
    let mut l = N as CK_ULONG;
    if vf::bool_z(z!("query")) {
        let rv = call!(C_Decrypt(s, c.as_mut_ptr(), cl as CK_ULONG, std::ptr::null_mut(), &mut l));
        check!((rv == CKR_OK && l as usize >= n && l as usize <= N) || what == 2, "the length of the plaintext");
        l = N as CK_ULONG;
    }
    let rv = call!(C_Decrypt(s, c.as_mut_ptr(), cl as CK_ULONG, o.as_mut_ptr(), &mut l));
    if what == 0 {
        check!(rv == CKR_OK && l as usize == n && eq(&o[..n], &data) && o[n] == 0x5A, "decryption gives the plaintext");
        cover!("decrypted");
    } else {
        check!(rv != CKR_OK, "nothing else decrypts");
        check!(o.iter().all(|b| *b == 0x5A), "a refused decryption writes nothing");
        cover!("refused");
    }
    expect!("encrypted", "decrypted", "refused", "too long");
}
