//@module pb3::cmd::mssig
//@file pb3/cmd/mssig.rs
//@deps mem trits::util trits::slice trits::trits spongos prng wots mss::mt mss::mtcomplete mss::mss pb3::spec pb3::err pb3::msg
//@map mss::PrivateKey crate::mss::mss::PrivateKeyT<crate::mss::mtcomplete::MT<TritsT>>
//@map mss::PublicKey crate::mss::mss::PublicKey
//@map mss::PublicKey:: crate::mss::mss::PublicKey::
//@map mss::sig_size crate::mss::mss::sig_size
//@map mss::recover crate::mss::mss::recover
//@map mss::PK_SIZE 243
//@map mss::HASH_SIZE 234
//@prelude
use crate::mem::*;
use crate::trits::defs::*;
use crate::trits::util::*;
use crate::trits::b1t1::*;
use crate::trits::slice::*;
use crate::trits::trits::*;
use crate::spongos::*;
use crate::prng::*;
use crate::mss::mt::*;
use crate::mss::mss::*;
use crate::pb3::spec::*;
use crate::pb3::msg::*;
use crate::pb3::err::{Err, Result, guard};

/// the hash value to be signed in a sponge state, and the state after
pub open spec fn mss_tag(a: SP) -> Seq<u8> { sp_sqout(sp_commit(a), 234) }
pub open spec fn mss_end(a: SP) -> SP { sp_squeeze(sp_commit(a), 234) }
impl<MT: TraversableMerkleTree<TritsT>> PrivateKeyT<MT> {
    /// a valid key, nothing of which is stored in the blocks `z`
    pub open spec fn steady(&self, h: Heap, z: Set<int>) -> bool {
        &&& self.inv(h) && !z.contains(self.sk.prng.secret_key.b()) && !z.contains(self.sk.nonce.b()) && !z.contains(self.mt.troot().b())
        &&& forall|h2: Heap| #[trigger] ext_s(h, h2, z) ==> self.mt.tinv(h2, m_leaves(self.sk.key(h), self.sk.nv(h)), m_mg())
    }
    pub proof fn lemma_steady_sub(&self, h: Heap, z: Set<int>, z2: Set<int>)
        requires self.steady(h, z), forall|c: int| #[trigger] z2.contains(c) ==> z.contains(c),
        ensures self.steady(h, z2),
    { assert forall|h2: Heap| #[trigger] ext_s(h, h2, z2) implies self.mt.tinv(h2, m_leaves(self.sk.key(h), self.sk.nv(h)), m_mg()) by { assert(ext_s(h, h2, z)); } }
    pub proof fn lemma_steady(&self, h: Heap, h2: Heap, z: Set<int>)
        requires self.steady(h, z), ext_s(h, h2, z),
        ensures self.steady(h2, z), self.sk.key(h2) == self.sk.key(h), self.sk.nv(h2) == self.sk.nv(h), self.rootv(h2) == self.rootv(h), self.mt.troot().nok(h2), self.mt.troot().val(h2) == self.rootv(h),
            forall|hash: Seq<u8>| #[trigger] self.sigv(h2, hash) == self.sigv(h, hash), 0 <= self.mt.theight() <= 20,
            forall|c: int| z.contains(c) ==> #[trigger] self.avoids(h2, c),
    {
        assert(h.dom().contains(self.sk.prng.secret_key.b())); assert(h.dom().contains(self.sk.nonce.b()));
        assert(self.sk.key(h2) =~= self.sk.key(h)); assert(self.sk.nv(h2) =~= self.sk.nv(h));
        assert forall|h3: Heap| #[trigger] ext_s(h2, h3, z) implies self.mt.tinv(h3, m_leaves(self.sk.key(h), self.sk.nv(h)), m_mg()) by { lemma_ext_s(h, h2, h3, z); }
        self.lemma_inv(h); self.lemma_inv(h2);
        assert forall|c: int| z.contains(c) implies #[trigger] self.avoids(h2, c) by {
            assert forall|h3: Heap| #[trigger] extends_but(h2, h3, c) implies self.mt.tinv(h3, m_leaves(self.sk.key(h2), self.sk.nv(h2)), m_mg()) by { lemma_ext_s2(h2, h3, c, c, z); }
        }
    }
}
impl PublicKey {
    /// Expansion of the derived PartialEq
    pub fn partial_eq(&self, other: &PublicKey, mem: &Mem) -> (r: bool)
        requires self.pk.inv(mem@), other.pk.inv(mem@),
        ensures r == (self.pk.val(mem@) == other.pk.val(mem@)),
    { self.pk.partial_eq(&other.pk, mem) }
}
impl Info for PublicKey {
    open spec fn iok(&self, h: Heap) -> bool { self.ok(h) }
    open spec fn iv(&self, h: Heap) -> Seq<u8> { self.pk.val(h) }
    open spec fn off(&self, b: int) -> bool { self.pk.b() != b }
    proof fn lemma_info(&self, h1: Heap, h2: Heap, z: Set<int>) { assert(h1.dom().contains(self.pk.b())); if z.contains(self.pk.b()) { assert(self.off(self.pk.b())); } }
}
/// C11: `x` starts with a signature of `tag` for the public key `pk`
pub open spec fn signed(x: Seq<u8>, tag: Seq<u8>, pk: Seq<u8>) -> bool { m_valid(x) && m_rec(x, tag) == pk }
/// C08/C11: what is signed verifies
pub proof fn lemma_signed(key: Seq<u8>, nonce: Seq<u8>, d: int, skn: int, tag: Seq<u8>, rest: Seq<u8>)
    requires is_trits(key), is_trits(nonce), 0 <= d <= 20, 0 <= skn < p2(d), is_trits(tag), tag.len() == 234, is_trits(rest),
    ensures signed(m_sig(key, nonce, d, skn, tag) + rest, tag, tn(m_leaves(key, nonce), m_mg(), d, 0)), m_d(m_sig(key, nonce, d, skn, tag) + rest) == d, m_sig(key, nonce, d, skn, tag).len() == m_size(d),
{
    lemma_sign_recover(key, nonce, d, skn, tag);
    let sig = m_sig(key, nonce, d, skn, tag);
    let x = sig + rest;
    assert(x.take(4) =~= sig.take(4));
    assert(x.subrange(4, 18) =~= sig.subrange(4, 18));
    assert(x.subrange(18, 13140) =~= sig.subrange(18, 13140));
    assert forall|i: int| 0 <= i < d implies #[trigger] chunks(x.skip(13140), d)[i] == chunks(sig.skip(13140), d)[i] by {
        assert(chunk(x.skip(13140), i) =~= chunk(sig.skip(13140), i));
    }
    assert(chunks(x.skip(13140), d) =~= chunks(sig.skip(13140), d));
}
pub proof fn lemma_sig_len<MT: TraversableMerkleTree<TritsT>>(sk: PrivateKeyT<MT>, h: Heap, tag: Seq<u8>)
    requires sk.inv(h), !sk.exhausted(), is_trits(tag), tag.len() == 234,
    ensures sk.sigv(h, tag).len() == m_size(sk.mt.theight()), is_trits(sk.sigv(h, tag)),
{ sk.lemma_inv(h); lemma_sign_recover(sk.sk.key(h), sk.sk.nv(h), sk.mt.theight(), sk.mt.tskn(), tag); }
pub proof fn lemma_signed_size(x: Seq<u8>, tag: Seq<u8>, pk: Seq<u8>)
    requires signed(x, tag, pk),
    ensures 0 <= m_size(m_d(x)) <= x.len(),
{}
pub proof fn lemma_tag_ok(a: SP)
    requires sp_ok(a),
    ensures is_trits(mss_tag(a)), mss_tag(a).len() == 234,
{ lemma_adv_ok(a); lemma_zeros_ok(234); lemma_run_ok(Op::Squeeze, sp_commit(a), zeros(234)); }
/// only the sponge was changed
pub proof fn lemma_after(s0: Spongos, s1: Spongos, b: TritSliceT, h0: Heap, h1: Heap)
    requires can_unwrap(s0, b, h0), extends_but(h0, h1, s0.b()), s1.inv(h1), s1.same(s0),
    ensures kept(s0, b, h0, s1, b, h1), can_unwrap(s1, b, h1), b.val(h1) == b.val(h0),
{ assert(h0.dom().contains(b.b())); }
/// nothing but fresh allocations
pub proof fn lemma_quiet(s: Spongos, b: TritSliceT, h0: Heap, h1: Heap)
    requires can_unwrap(s, b, h0), extends(h0, h1),
    ensures kept(s, b, h0, s, b, h1), s.inv(h1), s.sp(h1) == s.sp(h0),
{ assert(h0.dom().contains(s.b())); lemma_sp_same(s, h0, h1); }
//@end
//@fn sizeof_mssig props=C08,C10
    requires 0 <= sk.mt.theight() <= 20,
    ensures r == m_size(sk.mt.theight()),
//@fn wrap_mssig mem=rw props=C08,C10,C11
    requires can_wrap(*old(_s), *old(b), old(mem)@, m_size(sk.mt.theight())), sk.inv(old(mem)@), sk.avoids(old(mem)@, old(b).b()), tag.ok(old(mem)@), tag.len() == 234, tag.b() != old(b).b(),
    ensures !sk.exhausted(), *final(_s) == *old(_s), final(_s).inv(final(mem)@), final(_s).sp(final(mem)@) == old(_s).sp(old(mem)@),
        *final(b) == old(b).s_drop(m_size(sk.mt.theight())), extends_but(old(mem)@, final(mem)@, old(b).b()),
        final(mem)@[old(b).b()] == old(b).put(old(mem)@, sk.sigv(old(mem)@, tag.val(old(mem)@)))[old(b).b()],
//@hint entry
proof { sk.lemma_inv(mem@); }
//@hint exit
proof { assert(old(mem)@.dom().contains(_s.b())); lemma_sp_same(*_s, old(mem)@, mem@); }
//@fn unwrap_mssig_recover mem=rw props=C08,C09,C10,C11
    requires can_unwrap(*old(_s), *old(b), old(mem)@), tag.ok(old(mem)@), tag.len() == 234,
    ensures extends(old(mem)@, final(mem)@), *final(_s) == *old(_s), kept(*old(_s), *old(b), old(mem)@, *final(_s), *final(b), final(mem)@), final(_s).sp(final(mem)@) == old(_s).sp(old(mem)@),
        r.is_ok() == m_valid(old(b).val(old(mem)@)),
        r.is_ok() ==> *final(b) == old(b).s_drop(m_size(m_d(old(b).val(old(mem)@)))) && m_size(m_d(old(b).val(old(mem)@))) <= old(b).len()
            && (r->Ok_0).ok(final(mem)@) && (r->Ok_0).pk.fresh(old(mem)@) && (r->Ok_0).pk.val(final(mem)@) == m_rec(old(b).val(old(mem)@), tag.val(old(mem)@)),
//@hint before recover 0
let ghost m0 = old(mem)@;
let ghost m1 = mem@;
proof {
    assert(tag.val(m1) =~= tag.val(m0)); assert(b.val(m1) =~= b.val(m0)); lemma_fresh_all(m0, m1, apk.b());
    assert forall|h2: Heap| #[trigger] extends(m0, h2) implies kept(*_s, *b, m0, *_s, *b, h2) && _s.sp(h2) == _s.sp(m0) by { lemma_quiet(*_s, *b, m0, h2); }
}
//@hint after recover 0
proof {
    assert(extends_but(m1, mem@, apk.b()));
    assert(extends(m0, mem@));
    if m_valid(b.val(m0)) {
        lemma_rec_ok(b.val(m0), tag.val(m0));
        assert(m1.dom().contains(apk.b()));
        lemma_put_val(apk.slice_mut_spec(), m1, mem@, m_rec(b.val(m0), tag.val(m0)));
    }
}
//@fn unwrap_mssig_verify mem=rw cmp:trits=apk props=C08,C09,C10,C11
    requires can_unwrap(*old(s), *old(b), old(mem)@), tag.ok(old(mem)@), tag.len() == 234, pk.ok(old(mem)@),
    ensures extends(old(mem)@, final(mem)@), *final(s) == *old(s), kept(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@), final(s).sp(final(mem)@) == old(s).sp(old(mem)@),
        r.is_ok() == signed(old(b).val(old(mem)@), tag.val(old(mem)@), pk.pk.val(old(mem)@)),
        r.is_ok() ==> *final(b) == old(b).s_drop(m_size(m_d(old(b).val(old(mem)@)))) && m_size(m_d(old(b).val(old(mem)@))) <= old(b).len(),
//@fn squeeze_mss_hash mem=rw props=C08,C10,C11
    requires old(s).inv(old(mem)@),
    ensures final(s).inv(final(mem)@), final(s).same(*old(s)), extends_but(old(mem)@, final(mem)@, old(s).b()), r.fresh(old(mem)@), r.ok(final(mem)@), r.n == 234,
        r.val(final(mem)@) == mss_tag(old(s).sp(old(mem)@)), final(s).sp(final(mem)@) == mss_end(old(s).sp(old(mem)@)),
//@hint before commit 0
let ghost h1 = mem@;
proof { lemma_sp_same(*s, old(mem)@, h1); }
//@hint exit
proof {
    let a = sp_commit(old(s).sp(old(mem)@));
    lemma_sp_ok(*old(s), old(mem)@);
    lemma_adv_ok(old(s).sp(old(mem)@));
    lemma_zeros_ok(234);
    lemma_run_ok(Op::Squeeze, a, zeros(234));
    assert(tag.val(mem@) =~= mss_tag(old(s).sp(old(mem)@)));
    assert forall|c: int| #[trigger] old(mem)@.dom().contains(c) implies mem@.dom().contains(c) && (c != s.b() ==> mem@[c] == old(mem)@[c]) by { assert(h1.dom().contains(c)); }
}
//@fn squeeze_wrap_mssig mem=rw props=C08,C10,C11
    requires can_wrap(*old(s), *old(b), old(mem)@, m_size(sk.mt.theight())), sk.steady(old(mem)@, set![old(s).b(), old(b).b()]),
    ensures !sk.exhausted(), wrote(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, sk.sigv(old(mem)@, mss_tag(old(s).sp(old(mem)@))), mss_end(old(s).sp(old(mem)@)), set![old(s).b(), old(b).b()]),
//@hint before wrap_mssig 0
let ghost h0 = old(mem)@;
let ghost h1 = mem@;
let ghost z = set![old(s).b(), old(b).b()];
let ghost tg = mss_tag(old(s).sp(h0));
proof {
    lemma_ext_s2(h0, h1, s.b(), s.b(), z);
    sk.lemma_steady(h0, h1, z);
    assert(z.contains(b.b()));
    assert(sk.avoids(h1, b.b()));
    assert(h0.dom().contains(b.b()));
    assert(tag.slice_spec().val(h1) =~= tg);
}
//@hint exit
proof {
    let v = sk.sigv(h0, tg);
    sk.lemma_inv(h0);
    lemma_sign_recover(sk.sk.key(h0), sk.sk.nv(h0), sk.mt.theight(), sk.mt.tskn(), tg);
    assert(old(b).put(h1, v)[b.b()] =~= old(b).put(h0, v)[b.b()]);
    assert forall|c: int| #[trigger] h0.dom().contains(c) implies mem@.dom().contains(c) && (!z.contains(c) ==> mem@[c] == h0[c]) by { assert(h1.dom().contains(c)); }
}
//@fn squeeze_unwrap_mssig_recover mem=rw props=C08,C09,C10,C11
    requires can_unwrap(*old(s), *old(b), old(mem)@),
    ensures kept(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@),
        r.is_ok() == m_valid(old(b).val(old(mem)@)),
        r.is_ok() ==> read(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, m_size(m_d(old(b).val(old(mem)@))), mss_end(old(s).sp(old(mem)@)))
            && (r->Ok_0).ok(final(mem)@) && (r->Ok_0).pk.fresh(old(mem)@) && (r->Ok_0).pk.val(final(mem)@) == m_rec(old(b).val(old(mem)@), mss_tag(old(s).sp(old(mem)@))),
//@hint before unwrap_mssig_recover 0
let ghost h0 = old(mem)@;
let ghost h1 = mem@;
let ghost s1 = *s;
proof { lemma_after(*old(s), s1, *b, h0, h1); assert(tag.slice_spec().val(h1) =~= mss_tag(old(s).sp(h0))); }
//@hint exit
proof { lemma_kept_cat(*old(s), *old(b), h0, s1, *old(b), h1, *s, *b, mem@); }
//@fn squeeze_unwrap_mssig_verify mem=rw props=C08,C09,C10,C11
    requires can_unwrap(*old(s), *old(b), old(mem)@), pk.ok(old(mem)@), pk.pk.b() != old(s).b(),
    ensures kept(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@),
        r.is_ok() == signed(old(b).val(old(mem)@), mss_tag(old(s).sp(old(mem)@)), pk.pk.val(old(mem)@)),
        r.is_ok() ==> read(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, m_size(m_d(old(b).val(old(mem)@))), mss_end(old(s).sp(old(mem)@))),
//@hint before unwrap_mssig_verify 0
let ghost h0 = old(mem)@;
let ghost h1 = mem@;
let ghost s1 = *s;
proof {
    lemma_after(*old(s), s1, *b, h0, h1); assert(tag.slice_spec().val(h1) =~= mss_tag(old(s).sp(h0)));
    assert(h0.dom().contains(pk.pk.b()));
    assert(pk.pk.val(h1) =~= pk.pk.val(h0));
}
//@hint exit
proof { lemma_kept_cat(*old(s), *old(b), h0, s1, *old(b), h1, *s, *b, mem@); }
