//@module pb3::cmd::ntrukem
//@file pb3/cmd/ntrukem.rs
//@deps mem ring trits::util trits::slice trits::trits spongos prng poly ntru pb3::spec pb3::err pb3::typ::trytes pb3::msg
//@map ntru::PublicKey crate::ntru::PublicKey
//@map ntru::PublicKey:: crate::ntru::PublicKey::
//@map ntru::PrivateKey crate::ntru::PrivateKey
//@map ntru::EKEY_SIZE 9216
//@map ntru::KEY_SIZE 243
//@map ntru::PK_SIZE 9216
//@map ntru::PKID_SIZE 81
//@prelude
use crate::mem::*;
use crate::trits::defs::*;
use crate::trits::util::*;
use crate::trits::b1t1::*;
use crate::trits::slice::*;
use crate::trits::trits::*;
use crate::spongos::*;
use crate::prng::*;
use crate::ntru::*;
use crate::pb3::spec::*;
use crate::pb3::msg::*;
use crate::pb3::typ::trytes::*;
use crate::pb3::err::{Err, Result, guard};

/// the encapsulation of `k` for the public key `pk`
pub open spec fn kem_r(pk: Seq<u8>, key: Seq<u8>, nonce: Seq<u8>, k: Seq<u8>) -> Seq<u8> { prng_out(key, pk + k + nonce, 1024) }
pub open spec fn kem_h(pk: Seq<u8>) -> Seq<int> { crate::ring::s_ntt(crate::poly::untr9(pk)) }
pub open spec fn kem_out(a: SP, pk: Seq<u8>, key: Seq<u8>, nonce: Seq<u8>, k: Seq<u8>) -> Seq<u8> { n_enc(a, kem_h(pk), kem_r(pk, key, nonce, k), k) }
pub open spec fn kem_end(a: SP, pk: Seq<u8>, key: Seq<u8>, nonce: Seq<u8>, k: Seq<u8>) -> SP { n_enc_sp(a, kem_h(pk), kem_r(pk, key, nonce, k), k) }
/// what the owner of the private key reads
pub open spec fn kem_ok(a: SP, sk: Seq<u8>, x: Seq<u8>) -> bool { x.len() >= 9216 && n_dok(a, n_f(sk), x.take(9216)) }
pub open spec fn kem_key(a: SP, sk: Seq<u8>, x: Seq<u8>) -> Seq<u8> { n_dk(a, n_f(sk), x.take(9216)) }
pub open spec fn kem_dsp(a: SP, sk: Seq<u8>, x: Seq<u8>) -> SP { n_dsp(a, n_f(sk), x.take(9216)) }
pub proof fn lemma_kem_len(a: SP, pk: Seq<u8>, key: Seq<u8>, nonce: Seq<u8>, k: Seq<u8>)
    ensures kem_out(a, pk, key, nonce, k).len() == 9216,
{
    let (h, r) = (kem_h(pk), kem_r(pk, key, nonce, k));
    reveal(n_enc);
    let t = n_rh(h, r);
    crate::poly::lemma_tr9_len(crate::ring::padd(t, sm(n_ae(a, crate::poly::tr9(t, 1024), k))), 1024);
}
pub proof fn lemma_kem_end_ok(a: SP, pk: Seq<u8>, key: Seq<u8>, nonce: Seq<u8>, k: Seq<u8>)
    requires sp_ok(a), is_trits(k),
    ensures sp_ok(kem_end(a, pk, key, nonce, k)), sp_ok(sp_commit(kem_end(a, pk, key, nonce, k))),
{
    let t = n_rh(kem_h(pk), kem_r(pk, key, nonce, k));
    let c = crate::poly::tr9(t, 1024);
    crate::poly::lemma_tr9_len(t, 1024);
    lemma_run_ok(Op::Absorb, a, c);
    lemma_adv_ok(sp_absorb(a, c));
    lemma_run_ok(Op::Encr, n_a1(a, c), k);
    lemma_zeros_ok(781);
    lemma_run_ok(Op::Squeeze, sp_encr(n_a1(a, c), k), zeros(781));
    lemma_adv_ok(kem_end(a, pk, key, nonce, k));
}
pub proof fn lemma_kem_key(a: SP, sk: Seq<u8>, x: Seq<u8>)
    requires sp_ok(a),
    ensures kem_key(a, sk, x).len() == 243, is_trits(kem_key(a, sk, x)),
{ lemma_n_dk_ok(a, n_f(sk), x.take(9216)); }
impl Info for PublicKey {
    open spec fn iok(&self, h: Heap) -> bool { self.inv(h) }
    open spec fn iv(&self, h: Heap) -> Seq<u8> { self.pk.val(h) }
    open spec fn off(&self, b: int) -> bool { self.pk.b() != b }
    proof fn lemma_info(&self, h1: Heap, h2: Heap, z: Set<int>) { assert(h1.dom().contains(self.pk.b())); if z.contains(self.pk.b()) { assert(self.off(self.pk.b())); } }
}
//@end
//@fn sizeof_ntrukem props=C08,C10
    ensures r == 9216,
//@fn wrap_ntrukem mem=rw props=C08,C10,C11
    requires can_wrap(*old(s), *old(b), old(mem)@, 9216), pk.inv(old(mem)@), prng.inv(old(mem)@), nonce.ok(old(mem)@), key.ok(old(mem)@), key.len() == 243, key.b() != old(s).b(), key.b() != old(b).b(),
    ensures ({ let g = old(mem)@; let (a, p, q, n, k) = (old(s).sp(g), pk.pk.val(g), prng.key(g), nonce.val(g), key.val(g));
        wrote(*old(s), *old(b), g, *final(s), *final(b), final(mem)@, kem_out(a, p, q, n, k), kem_end(a, p, q, n, k), set![old(s).b(), old(b).b()]) }),
//@hint entry
hide(n_enc); hide(n_enc_sp); hide(prng_out); hide(PublicKey::inv); hide(PRNG::inv);
let ghost o = kem_out(s.sp(mem@), pk.pk.val(mem@), prng.key(mem@), nonce.val(mem@), key.val(mem@));
proof { assert(pk.h.val() == kem_h(pk.pk.val(mem@))) by { reveal(PublicKey::inv); } assert(o.len() == 9216) by { reveal(n_enc); lemma_kem_len(s.sp(mem@), pk.pk.val(mem@), prng.key(mem@), nonce.val(mem@), key.val(mem@)); } }
//@hint exit
proof { lemma_ext_s2(old(mem)@, mem@, old(s).b(), old(b).b(), set![old(s).b(), old(b).b()]); }
//@fn unwrap_ntrukem mem=rw props=C08,C09,C10,C11
    requires can_unwrap(*old(s), *old(b), old(mem)@), sk.inv(old(mem)@), key.inv(old(mem)@), key.len() == 243, key.b() != old(s).b(), key.b() != old(b).b(),
    ensures keptx(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, key.b()),
        ({ let (a, f, x) = (old(s).sp(old(mem)@), sk.sk.val(old(mem)@), old(b).val(old(mem)@));
            &&& r.is_ok() == kem_ok(a, f, x)
            &&& r.is_ok() ==> *final(b) == old(b).s_drop(9216) && final(s).sp(final(mem)@) == kem_dsp(a, f, x) && final(mem)@[key.b()] == key.put(old(mem)@, kem_key(a, f, x))[key.b()] }),
//@hint before decr_with_s 0
proof {
    let x = old(b).val(old(mem)@);
    assert(old(b).s_take(9216).val(mem@) =~= x.take(9216));
    assert forall|i: int| 0 <= i < 9216 implies #[trigger] x.take(9216)[i] < 3 by { assert(x[i] < 3); }
}
