//@module app::channel::msg::change_key
//@file app/channel/msg/change_key.rs
//@deps mem trits::util trits::slice trits::trits spongos pb3::spec pb3::err pb3::typ::trytes pb3::cmd::join pb3::cmd::mac pb3::msg app::core app::spec mss::mt mss::mtcomplete mss::mss pb3::cmd::mssig pb3::typ::msspk
//@prelude
use crate::mem::*;
use crate::trits::defs::*;
use crate::trits::util::*;
use crate::trits::b1t1::*;
use crate::trits::slice::*;
use crate::trits::trits::*;
use crate::spongos::*;
use crate::app::core::{MsgId, MSGID_SIZE};
use crate::app::spec::*;
use crate::pb3::spec::*;
use crate::pb3::msg::*;
use crate::pb3::err::{Err, Result, guard};
use crate::pb3::typ::size::*;
use crate::pb3::typ::trytes::*;
use crate::pb3::cmd::mac::*;
use crate::pb3::cmd::join::*;
use crate::mss::mt::*;
use crate::mss::mss::{PublicKey, m_sig, m_size, m_d, m_valid, m_rec, m_leaves, m_mg};
use crate::pb3::cmd::mssig::*;

/// the new key linked to `id` in the state `l`, and both signatures
pub open spec fn ck_out(id: Seq<u8>, pk: Seq<u8>, sig: Seq<u8>, sig2: Seq<u8>) -> Seq<u8> { id + pk + sig + sig2 }
pub open spec fn ck_mid(a: SP, l: SP, pk: Seq<u8>) -> SP { sp_absorb(sp_join(a, l), pk) }
/// C11: `x` starts with a new key, linked to a known message, signed with the new key and with the key of the linked message
pub open spec fn ck_pk(x: Seq<u8>) -> Seq<u8> { x.skip(81).take(243) }
pub open spec fn ck_rest(x: Seq<u8>) -> Seq<u8> { x.skip(324) }
pub open spec fn ck_rest2(x: Seq<u8>) -> Seq<u8> { x.skip(324).skip(m_size(m_d(x.skip(324)))) }
pub open spec fn ck_is<L: Lookup<PublicKey>>(f: L, a: SP, x: Seq<u8>) -> bool {
    let id = x.take(81); let tag = mss_tag(ck_mid(a, f.state(id), ck_pk(x)));
    linked::<PublicKey, L>(f, x) && x.len() >= 324 && signed(ck_rest(x), tag, ck_pk(x)) && signed(ck_rest2(x), tag, f.info(id))
}
/// C10: what the owner of both keys sends is accepted and announces the new key
pub proof fn lemma_ck_round<L: Lookup<PublicKey>>(f: L, a: SP, l: SP, id: Seq<u8>, x: Seq<u8>, key: Seq<u8>, nonce: Seq<u8>, d: int, skn: int, key2: Seq<u8>, nonce2: Seq<u8>, d2: int, skn2: int)
    requires id.len() == 81, f.known(id), f.state(id) == l, sp_ok(sp_join(a, l)), is_trits(x), is_trits(key), is_trits(nonce), 0 <= d <= 20, 0 <= skn < p2(d),
        is_trits(key2), is_trits(nonce2), 0 <= d2 <= 20, 0 <= skn2 < p2(d2), f.info(id) == tn(m_leaves(key2, nonce2), m_mg(), d2, 0), tn(m_leaves(key, nonce), m_mg(), d, 0).len() == 243,
        ({ let pk = tn(m_leaves(key, nonce), m_mg(), d, 0); let tag = mss_tag(ck_mid(a, l, pk)); is_trits(pk) && starts(x, ck_out(id, pk, m_sig(key, nonce, d, skn, tag), m_sig(key2, nonce2, d2, skn2, tag))) }),
    ensures ck_is(f, a, x), ck_pk(x) == tn(m_leaves(key, nonce), m_mg(), d, 0), m_d(ck_rest(x)) == d, m_d(ck_rest2(x)) == d2,
{
    let pk = tn(m_leaves(key, nonce), m_mg(), d, 0);
    let tag = mss_tag(ck_mid(a, l, pk));
    lemma_absorb_ok(sp_join(a, l), pk);
    lemma_tag_ok(ck_mid(a, l, pk));
    let sig = m_sig(key, nonce, d, skn, tag);
    let sig2 = m_sig(key2, nonce2, d2, skn2, tag);
    lemma_starts_cat(x, id + pk + sig, sig2);
    lemma_starts_cat(x, id + pk, sig);
    lemma_starts_cat(x, id, pk);
    let y = x.skip(324);
    assert(y.take(sig.len() as int) == sig);
    let rest = y.skip(sig.len() as int);
    assert(y =~= sig + rest);
    lemma_skip_trits(x, 324); lemma_skip_trits(y, sig.len() as int);
    lemma_signed(key, nonce, d, skn, tag, rest);
    assert(rest =~= x.skip(324 + sig.len() as int));
    assert(rest.take(sig2.len() as int) == sig2);
    assert(rest =~= sig2 + rest.skip(sig2.len() as int));
    lemma_skip_trits(rest, sig2.len() as int);
    lemma_signed(key2, nonce2, d2, skn2, tag, rest.skip(sig2.len() as int));
}
//@end
//@fn sizeof props=C10
    requires 0 <= mss_sk.mt.theight() <= 20, 0 <= linked_mss_sk.mt.theight() <= 20,
    ensures forall|id: Seq<u8>, pk: Seq<u8>, sig: Seq<u8>, sig2: Seq<u8>| id.len() == 81 && pk.len() == 243 && sig.len() == m_size(mss_sk.mt.theight()) && sig2.len() == m_size(linked_mss_sk.mt.theight()) ==> r == (#[trigger] ck_out(id, pk, sig, sig2)).len(),
//@fn wrap mem=rw props=C10,C11
    requires old(slink).inv(old(mem)@), old(slink).b() != old(s).b(), old(slink).b() != old(b).b(),
        msgid.ok(old(mem)@), msgid.len() == 81, msgid.b() != old(s).b(), msgid.b() != old(b).b(), msgid.b() != old(slink).b(),
        mss_sk.steady(old(mem)@, set![old(s).b(), old(b).b(), old(slink).b()]), linked_mss_sk.steady(old(mem)@, set![old(s).b(), old(b).b(), old(slink).b()]),
        can_wrap(*old(s), *old(b), old(mem)@, 324 + m_size(mss_sk.mt.theight()) + m_size(linked_mss_sk.mt.theight())),
    ensures final(slink).inv(final(mem)@), final(slink).same(*old(slink)), final(slink).sp(final(mem)@) == sp_squeeze(old(slink).sp(old(mem)@), 243), !mss_sk.exhausted(), !linked_mss_sk.exhausted(),
        ({ let (a, l, pk) = (old(s).sp(old(mem)@), old(slink).sp(old(mem)@), mss_sk.rootv(old(mem)@)); let tag = mss_tag(ck_mid(a, l, pk));
            wrote(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, ck_out(msgid.val(old(mem)@), pk, mss_sk.sigv(old(mem)@, tag), linked_mss_sk.sigv(old(mem)@, tag)), mss_end(ck_mid(a, l, pk)), set![old(s).b(), old(b).b(), old(slink).b()]) }),
//@hint entry
let ghost (h0, s0, b0) = (mem@, *s, *b);
let ghost z = set![s.b(), b.b(), slink.b()];
let ghost id = msgid.val(h0);
let ghost pk = mss_sk.rootv(h0);
let ghost a1 = sp_join(s0.sp(h0), slink.sp(h0));
//@hint after wrap_join 0
let ghost (h1, s1, b1) = (mem@, *s, *b);
proof { lemma_wrote_next(s0, b0, h0, s1, b1, h1, id, a1, z); mss_sk.lemma_steady(h0, h1, z); }
//@hint after wrap_absorb 0
let ghost (h2, s2, b2) = (mem@, *s, *b);
proof { lemma_w_field(Mode::Absorb, s0, b0, h0, s1, b1, h1, s2, b2, h2, id, a1, pk, z); }
//@hint after squeeze_mss_hash 0
let ghost (h3, s3) = (mem@, *s);
let ghost a2 = sp_absorb(a1, pk);
let ghost tag = mss_tag(a2);
let ghost e = mss_end(a2);
proof {
    lemma_ext_s2(h2, h3, s0.b(), s0.b(), z); lemma_ext_s(h0, h2, h3, z);
    assert(h0.dom().contains(b0.b())); assert(h2.dom().contains(b0.b()));
    mss_sk.lemma_steady(h0, h3, z); assert(z.contains(b2.b())); assert(mss_sk.avoids(h3, b2.b()));
    assert(hash.slice_spec().val(h3) =~= tag);
    assert(wrote(s0, b0, h0, s3, b2, h3, id + pk, e, z));
    lemma_wrote_next(s0, b0, h0, s3, b2, h3, id + pk, e, z);
}
//@hint after wrap_mssig 0
let ghost (h4, s4, b4) = (mem@, *s, *b);
let ghost sig = mss_sk.sigv(h0, tag);
proof {
    mss_sk.lemma_inv(h0); lemma_tag_ok(a2);
    lemma_ext_s2(h3, h4, b0.b(), b0.b(), z); lemma_sp_same(s3, h3, h4);
    lemma_sig_len(*mss_sk, h0, tag);
    assert(wrote(s3, b2, h3, s4, b4, h4, sig, e, z));
    lemma_wrote_cat(s0, b0, h0, s3, b2, h3, s4, b4, h4, id + pk, e, sig, e, z);
    lemma_wrote_next(s0, b0, h0, s4, b4, h4, id + pk + sig, e, z);
    linked_mss_sk.lemma_steady(h0, h4, z); assert(linked_mss_sk.avoids(h4, b4.b()));
    assert(h3.dom().contains(hash.b()));
    assert(hash.slice_spec().val(h4) =~= tag);
}
//@hint exit
proof {
    let sig2 = linked_mss_sk.sigv(h0, tag);
    lemma_sig_len(*linked_mss_sk, h0, tag);
    lemma_ext_s2(h4, mem@, b0.b(), b0.b(), z); lemma_sp_same(s4, h4, mem@);
    assert(wrote(s4, b4, h4, *s, *b, mem@, sig2, e, z));
    lemma_wrote_cat(s0, b0, h0, s4, b4, h4, *s, *b, mem@, id + pk + sig, e, sig2, e, z);
    assert(h0.dom().contains(slink.b())); assert(h1.dom().contains(slink.b())); assert(h2.dom().contains(slink.b())); assert(h3.dom().contains(slink.b())); assert(h4.dom().contains(slink.b()));
    lemma_sp_same(*slink, h1, mem@);
}
//@fn unwrap mem=rw props=C09,C10,C11
    requires can_unwrap(*old(s), *old(b), old(mem)@),
    ensures kept(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@), r.is_ok() == ck_is(lookup_link, old(s).sp(old(mem)@), old(b).val(old(mem)@)),
        r.is_ok() ==> ({ let (a, x) = (old(s).sp(old(mem)@), old(b).val(old(mem)@)); let id = x.take(81);
            &&& (r->Ok_0).ok(final(mem)@) && (r->Ok_0).pk.fresh(old(mem)@) && (r->Ok_0).pk.val(final(mem)@) == ck_pk(x)
            &&& read(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, 324 + m_size(m_d(ck_rest(x))) + m_size(m_d(ck_rest2(x))), mss_end(ck_mid(a, lookup_link.state(id), ck_pk(x)))) }),
//@hint entry
hide(kept); hide(signed); hide(m_d); hide(m_size);
let ghost (h0, s0, b0) = (mem@, *s, *b);
let ghost x = b.val(mem@);
let ghost id = x.take(81);
let ghost pk = ck_pk(x);
let ghost a1 = sp_join(s.sp(h0), lookup_link.state(id));
//@hint let linked_mss_pk 0
let ghost (h1, s1, b1) = (mem@, *s, *b);
proof { lemma_read_next(s0, b0, h0, s1, b1, h1, 81, a1); assert(input(Mode::Absorb, s1, b1, h1) == x.skip(81)); }
//@hint let mss_pk 0
let ghost (h2, s2, b2) = (mem@, *s, *b);
let ghost a2 = sp_absorb(a1, pk);
proof { lemma_r_field(Mode::Absorb, s0, b0, h0, s1, b1, h1, s2, b2, h2, 81, a1, 243); assert(h0.dom().contains(s0.b())); assert(linked_mss_pk.off(s0.b())); linked_mss_pk.lemma_info(h1, h2, set![s0.b()]); }
//@hint let hash 0
let ghost (h3, s3) = (mem@, *s);
let ghost tag = mss_tag(a2);
let ghost e = mss_end(a2);
proof {
    lemma_after(s2, s3, b2, h2, h3);
    lemma_ext_s2(h2, h3, s0.b(), s0.b(), set![s0.b()]);
    linked_mss_pk.lemma_info(h2, h3, set![s0.b()]);
    lemma_trits_ext(mss_pk.pk, h2, h3, set![s0.b()]);
    assert(hash.slice_spec().val(h3) =~= tag);
    assert(read(s2, b2, h2, s3, b2, h3, 0, e));
    lemma_read_cat(s0, b0, h0, s2, b2, h2, s3, b2, h3, 324, a2, 0, e);
    lemma_read_next(s0, b0, h0, s3, b2, h3, 324, e);
}
//@hint after unwrap_mssig_verify 0
let ghost (h4, s4, b4) = (mem@, *s, *b);
let ghost n1 = m_size(m_d(x.skip(324)));
proof {
    assert(read(s3, b2, h3, s4, b4, h4, n1, e)) by { lemma_signed_size(x.skip(324), tag, pk); }
    lemma_read_cat(s0, b0, h0, s3, b2, h3, s4, b4, h4, 324, e, n1, e);
    lemma_read_next(s0, b0, h0, s4, b4, h4, 324 + n1, e);
    assert(x.skip(324 + n1) =~= ck_rest2(x));
    lemma_ext_s2(h3, h4, s0.b(), s0.b(), set![s0.b()]);
    linked_mss_pk.lemma_info(h3, h4, set![s0.b()]);
    assert(h3.dom().contains(hash.b())); assert(h3.dom().contains(mss_pk.pk.b()));
    assert(hash.slice_spec().val(h4) =~= tag);
}
//@hint exit
proof {
    let n2 = m_size(m_d(ck_rest2(x)));
    assert(read(s4, b4, h4, *s, *b, mem@, n2, e)) by { lemma_signed_size(ck_rest2(x), tag, lookup_link.info(id)); }
    lemma_read_cat(s0, b0, h0, s4, b4, h4, *s, *b, mem@, 324 + n1, e, n2, e);
    assert(h4.dom().contains(mss_pk.pk.b()));
    assert(mss_pk.pk.val(mem@) =~= pk);
}
