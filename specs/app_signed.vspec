//@module app::channel::msg::signed_packet
//@file app/channel/msg/signed_packet.rs
//@deps mem trits::util trits::slice trits::trits spongos pb3::spec pb3::err pb3::typ::trytes pb3::cmd::join pb3::cmd::mac pb3::msg app::core app::spec mss::mt mss::mtcomplete mss::mss pb3::cmd::mssig
//@prelude
use crate::mem::*;
use crate::trits::defs::*;
use crate::trits::util::*;
use crate::trits::b1t1::*;
use crate::trits::slice::*;
use crate::trits::trits::*;
use crate::spongos::*;
use crate::app::core::{MsgId, MSGID_SIZE};
use crate::app::spec::*;
use crate::pb3::spec::*;
use crate::pb3::msg::*;
use crate::pb3::err::{Err, Result, guard};
use crate::pb3::typ::size::*;
use crate::pb3::typ::trytes::*;
use crate::pb3::cmd::mac::*;
use crate::pb3::cmd::join::*;
use crate::mss::mt::*;
use crate::mss::mss::*;
use crate::pb3::cmd::mssig::*;

/// the codeword linked to `id` in the state `l`, signed with `sig`
pub open spec fn sg_out(a: SP, l: SP, id: Seq<u8>, p: Seq<u8>, q: Seq<u8>, sig: Seq<u8>) -> Seq<u8> { id + pl_out(sp_join(a, l), p, q) + sig }
/// the hash to be signed, and the state after it
pub open spec fn sg_tag(a: SP, l: SP, p: Seq<u8>, q: Seq<u8>) -> Seq<u8> { mss_tag(pl_end(sp_join(a, l), p, q)) }
pub open spec fn sg_end(a: SP, l: SP, p: Seq<u8>, q: Seq<u8>) -> SP { mss_end(pl_end(sp_join(a, l), p, q)) }
/// where the signature begins
pub open spec fn sg_rest(x: Seq<u8>, p: Seq<u8>, q: Seq<u8>) -> Seq<u8> { x.skip(81).skip(s_trytes(p).len() as int + s_trytes(q).len()) }
/// C11: `x` starts with the payloads `p` and `q`, linked to a known message
pub open spec fn sg_is<L: Lookup<()>>(f: L, a: SP, x: Seq<u8>, p: Seq<u8>, q: Seq<u8>) -> bool {
    linked::<(), L>(f, x) && pl_is(sp_join(a, f.state(x.take(81))), x.skip(81), p, q)
}
/// and a signature from which a public key is recovered
pub open spec fn sg_rec<L: Lookup<()>>(f: L, a: SP, x: Seq<u8>, p: Seq<u8>, q: Seq<u8>) -> bool { sg_is(f, a, x, p, q) && m_valid(sg_rest(x, p, q)) }
/// and a signature of the transcript for `pk`
pub open spec fn sg_ver<L: Lookup<()>>(f: L, a: SP, x: Seq<u8>, p: Seq<u8>, q: Seq<u8>, pk: Seq<u8>) -> bool { sg_is(f, a, x, p, q) && signed(sg_rest(x, p, q), sg_tag(a, f.state(x.take(81)), p, q), pk) }
pub proof fn lemma_sg_parts<L: Lookup<()>>(f: L, a: SP, x: Seq<u8>, p: Seq<u8>, q: Seq<u8>)
    requires sg_is(f, a, x, p, q),
    ensures linked::<(), L>(f, x), trytes_ok(p), trytes_ok(q), pl_is(sp_join(a, f.state(x.take(81))), x.skip(81), p, q),
{}
/// C10: what the owner of the key signs is accepted as the owner's
pub proof fn lemma_sg_round<L: Lookup<()>>(f: L, a: SP, l: SP, id: Seq<u8>, x: Seq<u8>, p: Seq<u8>, q: Seq<u8>, key: Seq<u8>, nonce: Seq<u8>, d: int, skn: int)
    requires id.len() == 81, f.known(id), f.state(id) == l, sp_ok(sp_join(a, l)), trytes_ok(p), trytes_ok(q), is_trits(x), is_trits(key), is_trits(nonce), 0 <= d <= 20, 0 <= skn < p2(d),
        starts(x, sg_out(a, l, id, p, q, m_sig(key, nonce, d, skn, sg_tag(a, l, p, q)))),
    ensures sg_ver(f, a, x, p, q, tn(m_leaves(key, nonce), m_mg(), d, 0)), sg_rec(f, a, x, p, q), m_d(sg_rest(x, p, q)) == d, m_rec(sg_rest(x, p, q), sg_tag(a, l, p, q)) == tn(m_leaves(key, nonce), m_mg(), d, 0),
        sg_out(a, l, id, p, q, m_sig(key, nonce, d, skn, sg_tag(a, l, p, q))).len() == 81 + pl_out(sp_join(a, l), p, q).len() + m_size(d),
{
    let a1 = sp_join(a, l);
    let tag = sg_tag(a, l, p, q);
    let sig = m_sig(key, nonce, d, skn, tag);
    lemma_pl_len(a1, p, q);
    lemma_absorb_ok(a1, s_trytes(p)); lemma_absorb_ok(pl_mid(a1, p), s_trytes(q));
    lemma_tag_ok(pl_end(a1, p, q));
    lemma_starts_cat(x, id + pl_out(a1, p, q), sig);
    lemma_starts_cat(x, id, pl_out(a1, p, q));
    assert(x.take(81) == id);
    let n = 81 + pl_out(a1, p, q).len() as int;
    let y = x.skip(n);
    assert(y =~= sg_rest(x, p, q));
    let rest = y.skip(sig.len() as int);
    assert(y.take(sig.len() as int) == sig);
    assert(y =~= sig + rest);
    lemma_skip_trits(x, n); lemma_skip_trits(y, sig.len() as int);
    lemma_signed(key, nonce, d, skn, tag, rest);
}
//@end
//@fn sizeof props=C10
    requires public_trytes <= size_max(), masked_trytes <= size_max(), 0 <= sk.mt.theight() <= 20, s_size(public_trytes as int).len() + 3 * public_trytes + s_size(masked_trytes as int).len() + 3 * masked_trytes + 81 + m_size(sk.mt.theight()) <= usize::MAX,
    ensures forall|a: SP, l: SP, id: Seq<u8>, p: Seq<u8>, q: Seq<u8>, sig: Seq<u8>| id.len() == 81 && trytes_ok(p) && trytes_ok(q) && p.len() == 3 * public_trytes && q.len() == 3 * masked_trytes && sig.len() == m_size(sk.mt.theight()) ==> r == (#[trigger] sg_out(a, l, id, p, q, sig)).len(),
//@hint exit
proof {
    assert forall|a: SP, l: SP, id: Seq<u8>, p: Seq<u8>, q: Seq<u8>, sig: Seq<u8>| id.len() == 81 && trytes_ok(p) && trytes_ok(q) && p.len() == 3 * public_trytes && q.len() == 3 * masked_trytes && sig.len() == m_size(sk.mt.theight()) implies tail__ == (#[trigger] sg_out(a, l, id, p, q, sig)).len() by {
        lemma_pl_len(sp_join(a, l), p, q);
    }
}
//@fn wrap mem=rw props=C10,C11
    requires msgid.id.ok(old(mem)@), msgid.id.n == 81, old(slink).inv(old(mem)@), old(slink).b() != old(s).b(), old(slink).b() != old(b).b(),
        msgid.id.b() != old(s).b(), msgid.id.b() != old(b).b(), msgid.id.b() != old(slink).b(),
        public_payload.0.ok(old(mem)@), public_payload.0.n % 3 == 0, public_payload.0.n / 3 <= size_max(), public_payload.0.b() != old(s).b(), public_payload.0.b() != old(b).b(), public_payload.0.b() != old(slink).b(),
        masked_payload.0.ok(old(mem)@), masked_payload.0.n % 3 == 0, masked_payload.0.n / 3 <= size_max(), masked_payload.0.b() != old(s).b(), masked_payload.0.b() != old(b).b(), masked_payload.0.b() != old(slink).b(),
        sk.steady(old(mem)@, set![old(s).b(), old(b).b(), old(slink).b()]),
        can_wrap(*old(s), *old(b), old(mem)@, 81 + s_trytes(public_payload.0.val(old(mem)@)).len() + s_trytes(masked_payload.0.val(old(mem)@)).len() + m_size(sk.mt.theight())),
    ensures final(slink).inv(final(mem)@), final(slink).same(*old(slink)), final(slink).sp(final(mem)@) == sp_squeeze(old(slink).sp(old(mem)@), 243), !sk.exhausted(),
        ({ let (a, l, p, q) = (old(s).sp(old(mem)@), old(slink).sp(old(mem)@), public_payload.0.val(old(mem)@), masked_payload.0.val(old(mem)@));
            wrote(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, sg_out(a, l, msgid.id.val(old(mem)@), p, q, sk.sigv(old(mem)@, sg_tag(a, l, p, q))), sg_end(a, l, p, q), set![old(s).b(), old(b).b(), old(slink).b()]) }),
//@hint entry
let ghost h0 = mem@;
let ghost s0 = *s;
let ghost b0 = *b;
let ghost z = set![s.b(), b.b(), slink.b()];
let ghost id = msgid.id.val(mem@);
let ghost (p, q) = (public_payload.0.val(mem@), masked_payload.0.val(mem@));
let ghost a1 = sp_join(s.sp(mem@), slink.sp(mem@));
proof { lemma_pl_len(a1, p, q); lemma_s_trytes(p); lemma_s_trytes(q); assert(msgid.id.slice_spec().val(h0) =~= id); }
//@hint after wrap_join 0
let ghost h1 = mem@;
let ghost s1 = *s;
let ghost b1 = *b;
proof { lemma_wrote_next(s0, b0, h0, s1, b1, h1, id, a1, z); lemma_trits_ext(public_payload.0, h0, h1, z); }
//@hint after wrap_absorb 0
let ghost h2 = mem@;
let ghost s2 = *s;
let ghost b2 = *b;
proof { lemma_w_field(Mode::Absorb, s0, b0, h0, s1, b1, h1, s2, b2, h2, id, a1, s_trytes(p), z); lemma_trits_ext(masked_payload.0, h0, h2, z); }
//@hint after wrap_mask 0
let ghost h3 = mem@;
let ghost s3 = *s;
let ghost b3 = *b;
let ghost o3 = id + pl_out(a1, p, q);
let ghost a3 = pl_end(a1, p, q);
proof {
    lemma_w_field(Mode::Mask, s0, b0, h0, s2, b2, h2, s3, b3, h3, id + s_trytes(p), pl_mid(a1, p), s_trytes(q), z);
    assert(id + s_trytes(p) + sp_enc(pl_mid(a1, p), s_trytes(q)) =~= o3);
    sk.lemma_steady(h0, h3, z);
    sk.lemma_steady_sub(h3, z, set![s3.b(), b3.b()]);
    assert(can_wrap(s3, b3, h3, m_size(sk.mt.theight())));
}
//@hint exit
proof {
    let sig = sk.sigv(h0, mss_tag(a3));
    lemma_w_more(s0, b0, h0, s3, b3, h3, *s, *b, mem@, o3, a3, sig, mss_end(a3), z, set![s3.b(), b3.b()]);
    assert(h0.dom().contains(slink.b())); assert(h1.dom().contains(slink.b())); assert(h2.dom().contains(slink.b())); assert(h3.dom().contains(slink.b()));
    lemma_sp_same(*slink, h1, mem@);
}
//@fn unwrap_recover mem=rw props=C09,C10,C11
    requires can_unwrap(*old(s), *old(b), old(mem)@),
    ensures kept(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@),
        r.is_ok() == exists|p: Seq<u8>, q: Seq<u8>| #[trigger] sg_rec(lookup_link, old(s).sp(old(mem)@), old(b).val(old(mem)@), p, q),
        r.is_ok() ==> ({ let (a, x, p, q) = (old(s).sp(old(mem)@), old(b).val(old(mem)@), (r->Ok_0).1.0.val(final(mem)@), (r->Ok_0).2.0.val(final(mem)@)); let id = x.take(81);
            &&& (r->Ok_0).1.0.ok(final(mem)@) && (r->Ok_0).1.0.fresh(old(mem)@) && (r->Ok_0).2.0.ok(final(mem)@) && (r->Ok_0).2.0.fresh(old(mem)@) && sg_rec(lookup_link, a, x, p, q)
            &&& read(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, 81 + pl_out(sp_join(a, lookup_link.state(id)), p, q).len() + m_size(m_d(sg_rest(x, p, q))), sg_end(a, lookup_link.state(id), p, q))
            &&& (r->Ok_0).0.ok(final(mem)@) && (r->Ok_0).0.pk.fresh(old(mem)@) && (r->Ok_0).0.pk.val(final(mem)@) == m_rec(sg_rest(x, p, q), sg_tag(a, lookup_link.state(id), p, q)) }),
//@hint entry
hide(kept); hide(pl_is); hide(is_trytes); hide(trytes_ok); hide(starts); hide(sg_is); hide(m_valid); hide(m_rec); hide(m_d);
let ghost h0 = mem@;
let ghost s0 = *s;
let ghost b0 = *b;
let ghost a0 = s.sp(mem@);
let ghost x = b.val(mem@);
let ghost id = x.take(81);
let ghost y = x.skip(81);
proof { assert forall|p: Seq<u8>, q: Seq<u8>| #[trigger] sg_rec(lookup_link, a0, x, p, q) implies linked::<(), Dyn0>(lookup_link, x) by { lemma_sg_parts(lookup_link, a0, x, p, q); } }
//@hint after unwrap_join 0
let ghost h1 = mem@;
let ghost s1 = *s;
let ghost b1 = *b;
let ghost a1 = sp_join(a0, lookup_link.state(id));
proof {
    lemma_read_next(s0, b0, h0, s1, b1, h1, 81, a1); lemma_sp_ok(s1, h1); lemma_skip_trits(x, 81);
    assert forall|p: Seq<u8>, q: Seq<u8>| #[trigger] sg_rec(lookup_link, a0, x, p, q) implies is_trytes(y, p) && pl_mid_ok(a1, y, p, q) by { lemma_sg_parts(lookup_link, a0, x, p, q); lemma_pl(a1, y, p, q); }
    assert(input(Mode::Absorb, s1, b1, h1) == y);
}
//@hint let public_payload 0
let ghost h2 = mem@;
let ghost s2 = *s;
let ghost b2 = *b;
let ghost p = public_payload.0.val(h2);
let ghost l = s_trytes(p).len() as int;
let ghost a2 = pl_mid(a1, p);
proof {
    lemma_is_trytes_ok(y, p);
    lemma_r_field(Mode::Absorb, s0, b0, h0, s1, b1, h1, s2, b2, h2, 81, a1, l);
    assert forall|p2: Seq<u8>, q2: Seq<u8>| #[trigger] sg_rec(lookup_link, a0, x, p2, q2) implies p2 == p && is_trytes(rd_out(Mode::Mask, a2, y.skip(l)), q2) by { lemma_trytes_unique(y, p, p2); }
    assert(input(Mode::Mask, s2, b2, h2) == rd_out(Mode::Mask, a2, y.skip(l)));
}
//@hint let masked_payload 0
let ghost h3 = mem@;
let ghost s3 = *s;
let ghost b3 = *b;
let ghost q = masked_payload.0.val(h3);
let ghost k = s_trytes(q).len() as int;
let ghost a3 = pl_end(a1, p, q);
let ghost w = rd_out(Mode::Mask, a2, y.skip(l));
proof {
    lemma_skip_trits(y, l);
    lemma_sp_ok(s2, h2);
    lemma_rd_ok(Mode::Mask, a2, y.skip(l));
    lemma_is_trytes_ok(w, q);
    lemma_r_field(Mode::Mask, s0, b0, h0, s2, b2, h2, s3, b3, h3, 81 + l, a2, k);
    lemma_pl(a1, y, p, q); lemma_pl_len(a1, p, q);
    assert forall|p2: Seq<u8>, q2: Seq<u8>| #[trigger] sg_rec(lookup_link, a0, x, p2, q2) implies p2 == p && q2 == q by { lemma_pl_unique(a1, y, p, q, p2, q2); }
    assert(h1.dom().contains(s0.b())); assert(h2.dom().contains(s0.b()));
    lemma_trits_ext(public_payload.0, h2, h3, set![s0.b()]);
    assert(x.skip(81 + l + k) =~= y.skip(l + k));
    assert(b3.val(h3) == sg_rest(x, p, q)) by { assert(y.skip(l).skip(k) =~= y.skip(l + k)); }
    assert(sg_is(lookup_link, a0, x, p, q)) by { reveal(sg_is); }
    assert forall|p2: Seq<u8>, q2: Seq<u8>| #[trigger] sg_rec(lookup_link, a0, x, p2, q2) implies m_valid(b3.val(h3)) by { }
    assert(m_valid(b3.val(h3)) ==> sg_rec(lookup_link, a0, x, p, q));
}
//@hint exit
proof {
    let n = m_size(m_d(sg_rest(x, p, q)));
    lemma_read_cat(s0, b0, h0, s3, b3, h3, *s, *b, mem@, 81 + l + k, a3, n, mss_end(a3));
    lemma_read_next(s3, b3, h3, *s, *b, mem@, n, mss_end(a3));
    lemma_trits_ext(public_payload.0, h3, mem@, set![s0.b()]);
    lemma_trits_ext(masked_payload.0, h3, mem@, set![s0.b()]);
}
//@fn unwrap_verify mem=rw props=C09,C10,C11
    requires can_unwrap(*old(s), *old(b), old(mem)@), mss_pk.ok(old(mem)@), mss_pk.pk.b() != old(s).b(),
    ensures kept(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@),
        r.is_ok() == exists|p: Seq<u8>, q: Seq<u8>| #[trigger] sg_ver(lookup_link, old(s).sp(old(mem)@), old(b).val(old(mem)@), p, q, mss_pk.pk.val(old(mem)@)),
        r.is_ok() ==> ({ let (a, x, p, q) = (old(s).sp(old(mem)@), old(b).val(old(mem)@), (r->Ok_0).0.0.val(final(mem)@), (r->Ok_0).1.0.val(final(mem)@)); let id = x.take(81);
            &&& (r->Ok_0).0.0.ok(final(mem)@) && (r->Ok_0).0.0.fresh(old(mem)@) && (r->Ok_0).1.0.ok(final(mem)@) && (r->Ok_0).1.0.fresh(old(mem)@) && sg_ver(lookup_link, a, x, p, q, mss_pk.pk.val(old(mem)@))
            &&& read(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, 81 + pl_out(sp_join(a, lookup_link.state(id)), p, q).len() + m_size(m_d(sg_rest(x, p, q))), sg_end(a, lookup_link.state(id), p, q)) }),
//@hint entry
hide(kept); hide(pl_is); hide(is_trytes); hide(trytes_ok); hide(starts); hide(sg_is); hide(m_valid); hide(m_rec); hide(m_d);
let ghost h0 = mem@;
let ghost s0 = *s;
let ghost b0 = *b;
let ghost a0 = s.sp(mem@);
let ghost x = b.val(mem@);
let ghost id = x.take(81);
let ghost y = x.skip(81);
proof { assert forall|p: Seq<u8>, q: Seq<u8>| #[trigger] sg_ver(lookup_link, a0, x, p, q, mss_pk.pk.val(h0)) implies linked::<(), Dyn0>(lookup_link, x) by { lemma_sg_parts(lookup_link, a0, x, p, q); } }
//@hint after unwrap_join 0
let ghost h1 = mem@;
let ghost s1 = *s;
let ghost b1 = *b;
let ghost a1 = sp_join(a0, lookup_link.state(id));
proof {
    lemma_read_next(s0, b0, h0, s1, b1, h1, 81, a1); lemma_sp_ok(s1, h1); lemma_skip_trits(x, 81);
    assert forall|p: Seq<u8>, q: Seq<u8>| #[trigger] sg_ver(lookup_link, a0, x, p, q, mss_pk.pk.val(h0)) implies is_trytes(y, p) && pl_mid_ok(a1, y, p, q) by { lemma_sg_parts(lookup_link, a0, x, p, q); lemma_pl(a1, y, p, q); }
    assert(input(Mode::Absorb, s1, b1, h1) == y);
}
//@hint let public_payload 0
let ghost h2 = mem@;
let ghost s2 = *s;
let ghost b2 = *b;
let ghost p = public_payload.0.val(h2);
let ghost l = s_trytes(p).len() as int;
let ghost a2 = pl_mid(a1, p);
proof {
    lemma_is_trytes_ok(y, p);
    lemma_r_field(Mode::Absorb, s0, b0, h0, s1, b1, h1, s2, b2, h2, 81, a1, l);
    assert forall|p2: Seq<u8>, q2: Seq<u8>| #[trigger] sg_ver(lookup_link, a0, x, p2, q2, mss_pk.pk.val(h0)) implies p2 == p && is_trytes(rd_out(Mode::Mask, a2, y.skip(l)), q2) by { lemma_trytes_unique(y, p, p2); }
    assert(input(Mode::Mask, s2, b2, h2) == rd_out(Mode::Mask, a2, y.skip(l)));
}
//@hint let masked_payload 0
let ghost h3 = mem@;
let ghost s3 = *s;
let ghost b3 = *b;
let ghost q = masked_payload.0.val(h3);
let ghost k = s_trytes(q).len() as int;
let ghost a3 = pl_end(a1, p, q);
let ghost w = rd_out(Mode::Mask, a2, y.skip(l));
proof {
    lemma_skip_trits(y, l);
    lemma_sp_ok(s2, h2);
    lemma_rd_ok(Mode::Mask, a2, y.skip(l));
    lemma_is_trytes_ok(w, q);
    lemma_r_field(Mode::Mask, s0, b0, h0, s2, b2, h2, s3, b3, h3, 81 + l, a2, k);
    lemma_pl(a1, y, p, q); lemma_pl_len(a1, p, q);
    assert forall|p2: Seq<u8>, q2: Seq<u8>| #[trigger] sg_ver(lookup_link, a0, x, p2, q2, mss_pk.pk.val(h0)) implies p2 == p && q2 == q by { lemma_pl_unique(a1, y, p, q, p2, q2); }
    assert(h1.dom().contains(s0.b())); assert(h2.dom().contains(s0.b()));
    lemma_trits_ext(public_payload.0, h2, h3, set![s0.b()]);
    assert(x.skip(81 + l + k) =~= y.skip(l + k));
    assert(b3.val(h3) == sg_rest(x, p, q)) by { assert(y.skip(l).skip(k) =~= y.skip(l + k)); }
    assert(sg_is(lookup_link, a0, x, p, q)) by { reveal(sg_is); }
    assert forall|p2: Seq<u8>, q2: Seq<u8>| #[trigger] sg_ver(lookup_link, a0, x, p2, q2, mss_pk.pk.val(h0)) implies signed(b3.val(h3), mss_tag(a3), mss_pk.pk.val(h0)) by { }
    assert(signed(b3.val(h3), mss_tag(a3), mss_pk.pk.val(h0)) ==> sg_ver(lookup_link, a0, x, p, q, mss_pk.pk.val(h0)));
    lemma_trits_ext(mss_pk.pk, h0, h3, set![s0.b()]);
}
//@hint exit
proof {
    let n = m_size(m_d(sg_rest(x, p, q)));
    lemma_read_cat(s0, b0, h0, s3, b3, h3, *s, *b, mem@, 81 + l + k, a3, n, mss_end(a3));
    lemma_read_next(s3, b3, h3, *s, *b, mem@, n, mss_end(a3));
    lemma_trits_ext(public_payload.0, h3, mem@, set![s0.b()]);
    lemma_trits_ext(masked_payload.0, h3, mem@, set![s0.b()]);
}
