//! C interface to the Rust library, so that one harness can drive both implementations.
//! Return codes: 0 ok, 1 refused with an error, 2 panicked, 3 argument not representable (text that is not UTF-8).
#![allow(clippy::missing_safety_doc)]
use qrllib::rust_wrapper::dilithium::dilithium::Dilithium;
use qrllib::rust_wrapper::kyber::kyber::Kyber;
use qrllib::rust_wrapper::qrl::qrl_address_format::AddrFormatType;
use qrllib::rust_wrapper::qrl::qrl_descriptor::{QRLDescriptor, SignatureType};
use qrllib::rust_wrapper::qrl::wordlist::WORDLIST;
use qrllib::rust_wrapper::qrl::xmss_base::{Sign, XMSSBase, XMSSBaseTrait};
use qrllib::rust_wrapper::qrl::xmss_basic::XMSSBasic;
use qrllib::rust_wrapper::qrl::xmss_fast::XMSSFast;
use qrllib::rust_wrapper::qrl::xmss_pool::XMSSPool;
use qrllib::rust_wrapper::qrl::{hashing, misc, qrl_helper};
use qrllib::rust_wrapper::xmss_alt::algsxmss::xmss_update_sk;
use qrllib::rust_wrapper::xmss_alt::algsxmss_fast::{xmss_fast_sign_msg, xmss_fast_update, BDSState, TreeHashInst};
use qrllib::rust_wrapper::xmss_alt::xmss_common::XMSSParams;
use qrllib::rust_wrapper::xmss_alt::hash_functions::HashFunction;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn hf(n: u32) -> HashFunction {
    match n {
        0 => HashFunction::SHA2_256,
        1 => HashFunction::Shake128,
        _ => HashFunction::Shake256,
    }
}
unsafe fn bytes(p: *const u8, n: usize) -> Vec<u8> {
    if n == 0 { Vec::new() } else { std::slice::from_raw_parts(p, n).to_vec() }
}
pub struct Out(Vec<u8>);
fn guard<F: FnOnce() -> Result<Vec<u8>, ()>>(out: *mut *mut Out, f: F) -> i32 {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| std::panic::set_hook(Box::new(|_| {})));
    match catch_unwind(AssertUnwindSafe(f)) {
        Err(_) => 2,
        Ok(Err(())) => 1,
        Ok(Ok(v)) => {
            if !out.is_null() { unsafe { *out = Box::into_raw(Box::new(Out(v))) } }
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn rs_out_len(o: *const Out) -> usize { (&(*o).0).len() }
#[no_mangle]
pub unsafe extern "C" fn rs_out_data(o: *const Out) -> *const u8 { (&(*o).0).as_ptr() }
#[no_mangle]
pub unsafe extern "C" fn rs_out_free(o: *mut Out) { drop(Box::from_raw(o)) }

pub enum Signer { Basic(XMSSBasic), Fast(XMSSFast) }
macro_rules! on {
    ($s:expr, $x:ident, $e:expr) => { match $s { Signer::Basic($x) => $e, Signer::Fast($x) => $e } };
}
#[no_mangle]
pub unsafe extern "C" fn rs_new(kind: u32, seed: *const u8, n: usize, height: u8, hash: u32, w: u32, out: *mut *mut Signer) -> i32 {
    let seed = bytes(seed, n);
    guard(std::ptr::null_mut(), || {
        // kinds 2 and 3: every argument that has a default is left to it
        let s = if kind == 2 {
            Signer::Basic(XMSSBasic::new(seed, height, hf(hash), AddrFormatType::SHA256_2X, None).map_err(|_| ())?)
        } else if kind == 3 {
            Signer::Fast(XMSSFast::new(seed, height, None, None, None).map_err(|_| ())?)
        } else if kind == 0 {
            Signer::Basic(XMSSBasic::new(seed, height, hf(hash), AddrFormatType::SHA256_2X, Some(w)).map_err(|_| ())?)
        } else {
            Signer::Fast(XMSSFast::new(seed, height, Some(hf(hash)), Some(AddrFormatType::SHA256_2X), Some(w)).map_err(|_| ())?)
        };
        *out = Box::into_raw(Box::new(s));
        Ok(vec![])
    })
}
#[no_mangle]
pub unsafe extern "C" fn rs_from_extended(seed: *const u8, n: usize, out: *mut *mut Signer) -> i32 {
    let seed = bytes(seed, n);
    guard(std::ptr::null_mut(), || {
        let s = Signer::Fast(XMSSFast::from_extended_seed(&seed).map_err(|_| ())?);
        *out = Box::into_raw(Box::new(s));
        Ok(vec![])
    })
}
#[no_mangle]
pub unsafe extern "C" fn rs_free(s: *mut Signer) { drop(Box::from_raw(s)) }
#[no_mangle]
pub unsafe extern "C" fn rs_sign(s: *mut Signer, msg: *const u8, n: usize, out: *mut *mut Out) -> i32 {
    let msg = bytes(msg, n);
    guard(out, || on!(&mut *s, x, x.sign(&msg).map_err(|_| ())))
}
#[no_mangle]
pub unsafe extern "C" fn rs_set_index(s: *mut Signer, idx: u32, got: *mut u32) -> i32 {
    guard(std::ptr::null_mut(), || {
        *got = on!(&mut *s, x, x.set_index(idx).map_err(|_| ()))?;
        Ok(vec![])
    })
}
#[no_mangle]
pub unsafe extern "C" fn rs_init_tree(s: *mut Signer, w: u32) -> i32 {
    guard(std::ptr::null_mut(), || match &mut *s {
        Signer::Fast(x) => x.initialize_tree(Some(w)).map(|_| vec![]).map_err(|_| ()),
        _ => Err(()),
    })
}
#[no_mangle]
pub unsafe extern "C" fn rs_get(s: *mut Signer, what: u32, out: *mut *mut Out) -> i32 {
    guard(out, || {
        on!(&*s, x, match what {
            0 => Ok(x.get_pk()),
            1 => Ok(x.get_sk().clone()),
            2 => Ok(x.get_seed().clone()),
            3 => Ok(x.get_extended_seed()),
            4 => x.get_address().map_err(|_| ()),
            5 => Ok(x.get_root()),
            6 => Ok(x.get_pk_seed()),
            7 => Ok(x.get_sk_seed()),
            8 => Ok(x.get_sk_prf()),
            _ => Ok(x.get_descriptor_bytes()),
        })
    })
}
#[no_mangle]
pub unsafe extern "C" fn rs_num(s: *mut Signer, what: u32, arg: u32) -> i64 {
    let mut v: i64 = 0;
    let r = guard(std::ptr::null_mut(), || {
        v = on!(&*s, x, match what {
            0 => x.get_index() as i64,
            1 => x.get_height() as i64,
            2 => x.get_number_signatures() as i64,
            3 => x.get_remaining_signatures() as i64,
            _ => { let n = x.get_signature_size(Some(arg)) as i64; if arg == 16 && n != x.get_signature_size(None) as i64 { -9 } else { n } }
        });
        Ok(vec![])
    });
    if r == 0 { v } else { -(r as i64) }
}
#[no_mangle]
pub unsafe extern "C" fn rs_verify(m: *const u8, mn: usize, s: *const u8, sn: usize, k: *const u8, kn: usize, w: u32, changed: *mut u32) -> i32 {
    let (m0, s, k) = (bytes(m, mn), bytes(s, sn), bytes(k, kn));
    let mut m = m0.clone();
    let r = guard(std::ptr::null_mut(), || XMSSFast::verify(&mut m, &s, &k, Some(w)).map(|_| vec![]).map_err(|_| ()));
    if w == 16 { // the default parameter is 16, and both signer types verify alike
        let r2 = guard(std::ptr::null_mut(), || XMSSBasic::verify(&mut m, &s, &k, None).map(|_| vec![]).map_err(|_| ()));
        if r2 != r { return 4; }
    }
    *changed = (m != m0) as u32;
    r
}
#[no_mangle]
pub unsafe extern "C" fn rs_height_from_sig_size(size: usize, w: u32, got: *mut u32) -> i32 {
    guard(std::ptr::null_mut(), || {
        let h = XMSSFast::get_height_from_sig_size(size, Some(w)).map_err(|_| ());
        if w == 16 && h != XMSSBasic::get_height_from_sig_size(size, None).map_err(|_| ()) { panic!("the default parameter is not 16") }
        *got = h? as u32;
        Ok(vec![])
    })
}
#[no_mangle]
pub unsafe extern "C" fn rs_update_sk(sk: *mut u8, k: u64) -> i32 {
    let s = std::slice::from_raw_parts_mut(sk, 132);
    match catch_unwind(AssertUnwindSafe(|| xmss_update_sk(s, k))) { Ok(v) => v, Err(_) => 2 }
}
/// The index arithmetic of a key of any height, whose tree is never built. op 0: set the index to arg and return it,
/// 1: number of signatures, 2: remaining signatures, 3: index. The key is written back.
#[no_mangle]
pub unsafe extern "C" fn rs_base(height: u8, sk: *mut u8, op: u32, arg: u32, got: *mut u32) -> i32 {
    let s = std::slice::from_raw_parts_mut(sk, 132);
    guard(std::ptr::null_mut(), || {
        let mut x = XMSSBase::new(HashFunction::Shake128, AddrFormatType::SHA256_2X, height, s.to_vec(), vec![7; 48]).map_err(|_| ())?;
        let r = match op { 0 => x.set_index(arg).map_err(|_| ()), 1 => Ok(x.get_number_signatures()), 2 => Ok(x.get_remaining_signatures()), _ => Ok(x.get_index()) };
        s.copy_from_slice(x.get_sk());
        *got = r?;
        Ok(vec![])
    })
}
/// The fast signer's primitives on a blank traversal state of any height: move to index arg (unless it is 2^32-1), then sign
/// (unless n is 2^32-1). The key is written back.
#[no_mangle]
pub unsafe extern "C" fn rs_tall(height: u32, hash: u32, w: u32, sk: *mut u8, arg: u64, m: *const u8, n: usize, out: *mut *mut Out) -> i32 {
    let s = std::slice::from_raw_parts_mut(sk, 132);
    let msg = if n == u32::MAX as usize { Vec::new() } else { bytes(m, n) };
    guard(out, || {
        let p = XMSSParams::new(32, height, w, 2).map_err(|_| ())?;
        let mut st = BDSState {
            stack: vec![0; ((height + 1) * 32) as usize], stackoffset: 0, stacklevels: vec![0; (height + 1) as usize], auth: vec![0; (height * 32) as usize],
            keep: vec![0; ((height >> 1) * 32) as usize], treehash: vec![TreeHashInst::default(); (height - 2) as usize], retain: vec![0; 32], next_leaf: 0,
        };
        for t in st.treehash.iter_mut() { t.node = vec![0; 32]; }
        let h = hf(hash);
        if arg <= u32::MAX as u64 { xmss_fast_update(&h, &p, s, &mut st, arg as u32).map_err(|_| ())?; }
        if n == u32::MAX as usize { return Ok(vec![]); }
        let mut sig = vec![0; (4 + 32 + p.wots_par.keysize + height * 32) as usize];
        xmss_fast_sign_msg(&h, &p, s, &mut st, &mut sig, &msg, msg.len());
        Ok(sig)
    })
}
/// Stateless operations. a and b are numeric arguments.
#[no_mangle]
pub unsafe extern "C" fn rs_op(op: u32, a: u64, b: u64, p: *const u8, n: usize, out: *mut *mut Out) -> i32 {
    let v = bytes(p, n);
    let text = matches!(op, 5 | 7 | 8 | 9);
    let s = match String::from_utf8(v.clone()) { Ok(s) => s, Err(_) if text => return 3, Err(_) => String::new() };
    guard(out, || match op {
        0 => Ok(hashing::shake128(a as usize, &v)),
        1 => Ok(hashing::shake256(a as usize, &v)),
        2 => Ok(hashing::sha2_256(&v)),
        3 => hashing::sha2_256_n(&v, a as usize).map_err(|_| ()),
        4 => Ok(misc::bin2hstr(&v, a as u32).into_bytes()),
        5 => misc::hstr2bin(&s).map_err(|_| ()),
        6 => misc::bin2mnemonic(&v).map(|s| s.into_bytes()).map_err(|_| ()),
        7 => misc::mnemonic2bin(&s).map_err(|_| ()),
        8 => Ok(misc::str2bin(&s)),
        9 => Ok(misc::binstr2hstr(&s, a as u32).into_bytes()),
        10 => qrl_helper::get_address(&v).map_err(|_| ()),
        11 => Ok(vec![qrl_helper::address_is_valid(&v) as u8]),
        12 => {
            let d = QRLDescriptor::from_bytes(&v).map_err(|_| ())?;
            let mut r = vec![*d.get_hash_function() as u8, *d.get_signature_type() as u8, d.get_height(), *d.get_addr_format_type() as u8];
            r.extend(d.get_bytes());
            Ok(r)
        }
        13 => {
            let d = QRLDescriptor::new(hf(a as u32), SignatureType::XMSS, b as u8, AddrFormatType::SHA256_2X);
            Ok(d.get_bytes())
        }
        14 => QRLDescriptor::from_extended_seed(&v).map(|d| d.get_bytes()).map_err(|_| ()),
        15 => QRLDescriptor::from_extended_pk(&v).map(|d| d.get_bytes()).map_err(|_| ()),
        16 => Ok(misc::get_hash_chain_seed(&v, a as u32, b as u32).concat()),
        17 => Ok(WORDLIST.get(a as usize).ok_or(())?.as_bytes().to_vec()),
        18 => Ok((WORDLIST.len() as u32).to_le_bytes().to_vec()),
        19 => Ok(misc::get_random_seed(a as u32, &String::from_utf8_lossy(&v).into_owned())),
        _ => Err(()),
    })
}
/// Dilithium and Kyber wrappers (over stand-in crates with a transparent scheme).
#[no_mangle]
pub unsafe extern "C" fn rs_pq(op: u32, p: *const u8, n: usize, q: *const u8, m: usize, out: *mut *mut Out) -> i32 {
    use pqcrypto_traits::kem::{Ciphertext as KC, PublicKey as KP, SecretKey as KS, SharedSecret as KH};
    use pqcrypto_traits::sign::{PublicKey as DP, SecretKey as DS, SignedMessage as DM};
    let (v, u) = (bytes(p, n), bytes(q, m));
    guard(out, || match op {
        0 => { let d = Dilithium::new(&v, &u).map_err(|_| ())?; let mut r = d.get_pk().as_bytes().to_vec(); r.extend(d.get_sk().as_bytes()); Ok(r) }
        1 => Dilithium::extract_message(&v).map_err(|_| ()),
        2 => Dilithium::extract_signature(&v).map_err(|_| ()),
        3 => { // sign v with a fresh key; pk || sk || signed
            let d = Dilithium::default();
            let mut r = d.get_pk().as_bytes().to_vec(); r.extend(d.get_sk().as_bytes()); r.extend(d.sign(&v).as_bytes()); Ok(r) }
        4 => { // open v under public key u
            let pk = pqcrypto_dilithium::dilithium5::PublicKey::from_bytes(&u).map_err(|_| ())?;
            let sm = pqcrypto_dilithium::dilithium5::SignedMessage::from_bytes(&v).map_err(|_| ())?;
            Dilithium::sign_open(&sm, &pk).map_err(|_| ()) }
        5 => Ok([Dilithium::get_public_key_size() as u32, Dilithium::get_secret_key_size() as u32].iter().flat_map(|x| x.to_le_bytes()).collect()),
        6 => { let k = Kyber::new(&v, &u).map_err(|_| ())?; let mut r = k.get_pk().as_bytes().to_vec(); r.extend(k.get_sk().as_bytes()); Ok(r) }
        7 => { // full exchange: equal secrets -> 32 bytes
            let mut a = Kyber::default(); let mut b = Kyber::default();
            b.kem_encode(a.get_pk()); a.kem_decode(b.get_cipher_text());
            if a.get_shared_secret().as_bytes() != b.get_shared_secret().as_bytes() { return Err(()); }
            let mut ct = b.get_cipher_text().as_bytes().to_vec(); ct.extend(a.get_shared_secret().as_bytes());
            ct.extend(a.get_sk().as_bytes());
            Ok(ct) }
        8 => { // decode ciphertext v with secret key u (public key derived by stand-in is irrelevant)
            let k0 = Kyber::default();
            let mut k = Kyber::new(k0.get_pk().as_bytes(), &u).map_err(|_| ())?;
            let ct = pqcrypto_kyber::kyber768::Ciphertext::from_bytes(&v).map_err(|_| ())?;
            k.kem_decode(ct);
            Ok(k.get_shared_secret().as_bytes().to_vec()) }
        _ => Err(()),
    })
}
/// Pool. rs_pool_next: 1 if the pool reports an error; otherwise seed and public key of the tree.
#[no_mangle]
pub unsafe extern "C" fn rs_pool_new(seed: *const u8, n: usize, height: u8, start: u64, size: u64, out: *mut *mut XMSSPool) -> i32 {
    let seed = bytes(seed, n);
    guard(std::ptr::null_mut(), || {
        let p = XMSSPool::new(seed, height, start as usize, size as usize).map_err(|_| ())?;
        *out = Box::into_raw(Box::new(p));
        Ok(Vec::new())
    })
}
#[no_mangle]
pub unsafe extern "C" fn rs_pool_free(p: *mut XMSSPool) { drop(Box::from_raw(p)) }
#[no_mangle]
pub unsafe extern "C" fn rs_pool_next(p: *mut XMSSPool, out: *mut *mut Out) -> i32 {
    guard(out, || {
        let mut t = (*p).get_next_tree().map_err(|_| ())?;
        let mut r = t.get_seed().clone();
        r.extend(t.get_pk());
        r.extend(t.sign(&vec![1, 2, 3]).map_err(|_| ())?);
        Ok(r)
    })
}
#[no_mangle]
pub unsafe extern "C" fn rs_pool_index(p: *mut XMSSPool) -> u64 { (*p).get_current_index() as u64 }
#[no_mangle]
pub unsafe extern "C" fn rs_pool_available(p: *mut XMSSPool) -> i32 { (*p).is_available() as i32 }
