//@module app::channel::msg::tagged_packet
//@file app/channel/msg/tagged_packet.rs
//@deps mem trits::util trits::slice trits::trits spongos pb3::spec pb3::err pb3::typ::trytes pb3::cmd::join pb3::cmd::mac pb3::msg app::core app::spec
//@prelude
use crate::mem::*;
use crate::trits::defs::*;
use crate::trits::util::*;
use crate::trits::b1t1::*;
use crate::trits::slice::*;
use crate::trits::trits::*;
use crate::spongos::*;
use crate::app::core::{MsgId, MSGID_SIZE};
use crate::app::spec::*;
use crate::pb3::spec::*;
use crate::pb3::msg::*;
use crate::pb3::err::{Err, Result, guard};
use crate::pb3::typ::size::*;
use crate::pb3::typ::trytes::*;
use crate::pb3::cmd::mac::*;
use crate::pb3::cmd::join::*;

/// the codeword linked to `id` in the state `l` and the state after it
pub open spec fn tp_out(a: SP, l: SP, id: Seq<u8>, p: Seq<u8>, q: Seq<u8>) -> Seq<u8> { id + (pl_out(sp_join(a, l), p, q) + mac_tag(pl_end(sp_join(a, l), p, q))) }
pub open spec fn tp_end(a: SP, l: SP, p: Seq<u8>, q: Seq<u8>) -> SP { mac_end(pl_end(sp_join(a, l), p, q)) }
/// C11: `x` starts with the message with the payloads `p` and `q`, linked to a known message
pub open spec fn tp_is<L: Lookup<()>>(f: L, a: SP, x: Seq<u8>, p: Seq<u8>, q: Seq<u8>) -> bool {
    linked::<(), L>(f, x) && trytes_ok(p) && trytes_ok(q) && starts(x, tp_out(a, f.state(x.take(81)), x.take(81), p, q))
}
pub proof fn lemma_tp<L: Lookup<()>>(f: L, a: SP, x: Seq<u8>, p: Seq<u8>, q: Seq<u8>)
    requires linked::<(), L>(f, x), trytes_ok(p), trytes_ok(q),
    ensures ({ let a1 = sp_join(a, f.state(x.take(81)));
        tp_is(f, a, x, p, q) == (pl_is(a1, x.skip(81), p, q) && starts(x.skip(81).skip(s_trytes(p).len() as int + s_trytes(q).len()), mac_tag(pl_end(a1, p, q)))) }),
        tp_out(a, f.state(x.take(81)), x.take(81), p, q).len() == 81 + s_trytes(p).len() + s_trytes(q).len() + 243,
{
    let a1 = sp_join(a, f.state(x.take(81)));
    let t = mac_tag(pl_end(a1, p, q));
    lemma_pl_len(a1, p, q);
    lemma_outs_len(Op::Squeeze, sp_commit(pl_end(a1, p, q)), zeros(243));
    lemma_starts_cat(x, x.take(81), pl_out(a1, p, q) + t);
    lemma_starts_cat(x.skip(81), pl_out(a1, p, q), t);
}
pub proof fn lemma_tp_parts<L: Lookup<()>>(f: L, a: SP, x: Seq<u8>, p: Seq<u8>, q: Seq<u8>)
    requires tp_is(f, a, x, p, q),
    ensures ({ let a1 = sp_join(a, f.state(x.take(81)));
        linked::<(), L>(f, x) && trytes_ok(p) && trytes_ok(q) && pl_is(a1, x.skip(81), p, q) && starts(x.skip(81).skip(s_trytes(p).len() as int + s_trytes(q).len()), mac_tag(pl_end(a1, p, q))) }),
{ lemma_tp(f, a, x, p, q); }
/// C10: a recipient whose lookup gives the sender's linked state accepts what was sent; together with the contract of `unwrap` the payloads and the final state are the sender's
pub proof fn lemma_tp_round<L: Lookup<()>>(f: L, a: SP, l: SP, id: Seq<u8>, x: Seq<u8>, p: Seq<u8>, q: Seq<u8>)
    requires id.len() == 81, f.known(id), f.state(id) == l, trytes_ok(p), trytes_ok(q), starts(x, tp_out(a, l, id, p, q)),
    ensures tp_is(f, a, x, p, q),
{ lemma_starts_cat(x, id, pl_out(sp_join(a, l), p, q) + mac_tag(pl_end(sp_join(a, l), p, q))); assert(x.take(81) == id); }
/// the payloads are determined by the buffer and the states
pub proof fn lemma_tp_unique<L: Lookup<()>>(f: L, a: SP, x: Seq<u8>, p: Seq<u8>, q: Seq<u8>, p2: Seq<u8>, q2: Seq<u8>)
    requires sp_ok(sp_join(a, f.state(x.take(81)))), is_trits(x), tp_is(f, a, x, p, q), tp_is(f, a, x, p2, q2),
    ensures p == p2, q == q2,
{
    let a1 = sp_join(a, f.state(x.take(81)));
    lemma_tp(f, a, x, p, q); lemma_tp(f, a, x, p2, q2); lemma_skip_trits(x, 81);
    lemma_pl(a1, x.skip(81), p, q); lemma_pl(a1, x.skip(81), p2, q2);
    lemma_pl_unique(a1, x.skip(81), p, q, p2, q2);
}
//@end
//@fn sizeof props=C10
    requires public_trytes <= size_max(), masked_trytes <= size_max(), s_size(public_trytes as int).len() + 3 * public_trytes + s_size(masked_trytes as int).len() + 3 * masked_trytes + 324 <= usize::MAX,
    ensures forall|a: SP, l: SP, id: Seq<u8>, p: Seq<u8>, q: Seq<u8>| id.len() == 81 && trytes_ok(p) && trytes_ok(q) && p.len() == 3 * public_trytes && q.len() == 3 * masked_trytes ==> r == (#[trigger] tp_out(a, l, id, p, q)).len(),
//@hint exit
proof {
    assert forall|a: SP, l: SP, id: Seq<u8>, p: Seq<u8>, q: Seq<u8>| id.len() == 81 && trytes_ok(p) && trytes_ok(q) && p.len() == 3 * public_trytes && q.len() == 3 * masked_trytes implies tail__ == (#[trigger] tp_out(a, l, id, p, q)).len() by {
        lemma_pl_len(sp_join(a, l), p, q); lemma_outs_len(Op::Squeeze, sp_commit(pl_end(sp_join(a, l), p, q)), zeros(243));
    }
}
//@fn wrap mem=rw props=C10,C11
    requires msgid.id.ok(old(mem)@), msgid.id.n == 81, old(slink).inv(old(mem)@), old(slink).b() != old(s).b(), old(slink).b() != old(b).b(),
        msgid.id.b() != old(s).b(), msgid.id.b() != old(b).b(), msgid.id.b() != old(slink).b(),
        public_payload.0.ok(old(mem)@), public_payload.0.n % 3 == 0, public_payload.0.n / 3 <= size_max(), public_payload.0.b() != old(s).b(), public_payload.0.b() != old(b).b(), public_payload.0.b() != old(slink).b(),
        masked_payload.0.ok(old(mem)@), masked_payload.0.n % 3 == 0, masked_payload.0.n / 3 <= size_max(), masked_payload.0.b() != old(s).b(), masked_payload.0.b() != old(b).b(), masked_payload.0.b() != old(slink).b(),
        can_wrap(*old(s), *old(b), old(mem)@, (324 + s_trytes(public_payload.0.val(old(mem)@)).len() + s_trytes(masked_payload.0.val(old(mem)@)).len()) as int),
    ensures final(slink).inv(final(mem)@), final(slink).same(*old(slink)), final(slink).sp(final(mem)@) == sp_squeeze(old(slink).sp(old(mem)@), 243),
        ({ let (a, l, p, q) = (old(s).sp(old(mem)@), old(slink).sp(old(mem)@), public_payload.0.val(old(mem)@), masked_payload.0.val(old(mem)@));
            wrote(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, tp_out(a, l, msgid.id.val(old(mem)@), p, q), tp_end(a, l, p, q), set![old(s).b(), old(b).b(), old(slink).b()]) }),
//@hint entry
let ghost h0 = mem@;
let ghost s0 = *s;
let ghost b0 = *b;
let ghost z = set![s.b(), b.b(), slink.b()];
let ghost id = msgid.id.val(mem@);
let ghost (p, q) = (public_payload.0.val(mem@), masked_payload.0.val(mem@));
let ghost a1 = sp_join(s.sp(mem@), slink.sp(mem@));
proof { lemma_pl_len(a1, p, q); lemma_s_trytes(p); lemma_s_trytes(q); assert(msgid.id.slice_spec().val(h0) =~= id); }
//@hint after wrap_join 0
let ghost h1 = mem@;
let ghost s1 = *s;
let ghost b1 = *b;
proof { lemma_wrote_next(s0, b0, h0, s1, b1, h1, id, a1, z); lemma_trits_ext(public_payload.0, h0, h1, z); }
//@hint after wrap_absorb 0
let ghost h2 = mem@;
let ghost s2 = *s;
let ghost b2 = *b;
proof { lemma_w_field(Mode::Absorb, s0, b0, h0, s1, b1, h1, s2, b2, h2, id, a1, s_trytes(p), z); lemma_trits_ext(masked_payload.0, h0, h2, z); }
//@hint after wrap_mask 0
let ghost h3 = mem@;
let ghost s3 = *s;
let ghost b3 = *b;
let ghost o3 = id + pl_out(a1, p, q);
let ghost a3 = pl_end(a1, p, q);
proof {
    lemma_w_field(Mode::Mask, s0, b0, h0, s2, b2, h2, s3, b3, h3, id + s_trytes(p), pl_mid(a1, p), s_trytes(q), z);
    assert(id + s_trytes(p) + sp_enc(pl_mid(a1, p), s_trytes(q)) =~= o3);
}
//@hint exit
proof {
    lemma_w_mac(s0, b0, h0, s3, b3, h3, *s, *b, mem@, o3, a3, z);
    assert(o3 + mac_tag(a3) =~= id + (pl_out(a1, p, q) + mac_tag(a3)));
    assert(h0.dom().contains(slink.b())); assert(h1.dom().contains(slink.b())); assert(h2.dom().contains(slink.b())); assert(h3.dom().contains(slink.b()));
    lemma_sp_same(*slink, h1, mem@);
}
//@fn unwrap mem=rw props=C09,C10,C11
    requires can_unwrap(*old(s), *old(b), old(mem)@),
    ensures kept(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@),
        r.is_ok() == exists|p: Seq<u8>, q: Seq<u8>| #[trigger] tp_is(lookup_link, old(s).sp(old(mem)@), old(b).val(old(mem)@), p, q),
        r.is_ok() ==> ({ let (a, x, p, q) = (old(s).sp(old(mem)@), old(b).val(old(mem)@), (r->Ok_0).0.0.val(final(mem)@), (r->Ok_0).1.0.val(final(mem)@)); let id = x.take(81);
            &&& (r->Ok_0).0.0.ok(final(mem)@) && (r->Ok_0).0.0.fresh(old(mem)@) && (r->Ok_0).1.0.ok(final(mem)@) && (r->Ok_0).1.0.fresh(old(mem)@) && tp_is(lookup_link, a, x, p, q)
            &&& read(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, tp_out(a, lookup_link.state(id), id, p, q).len() as int, tp_end(a, lookup_link.state(id), p, q)) }),
//@hint entry
hide(kept); hide(pl_is); hide(is_trytes); hide(trytes_ok); hide(starts); hide(tp_is); hide(tp_out);
let ghost h0 = mem@;
let ghost s0 = *s;
let ghost b0 = *b;
let ghost a0 = s.sp(mem@);
let ghost x = b.val(mem@);
let ghost id = x.take(81);
let ghost y = x.skip(81);
proof { assert forall|p: Seq<u8>, q: Seq<u8>| #[trigger] tp_is(lookup_link, a0, x, p, q) implies linked::<(), Dyn0>(lookup_link, x) by { lemma_tp_parts(lookup_link, a0, x, p, q); } }
//@hint after unwrap_join 0
let ghost h1 = mem@;
let ghost s1 = *s;
let ghost b1 = *b;
let ghost a1 = sp_join(a0, lookup_link.state(id));
proof {
    lemma_read_next(s0, b0, h0, s1, b1, h1, 81, a1); lemma_sp_ok(s1, h1); lemma_skip_trits(x, 81);
    assert forall|p: Seq<u8>, q: Seq<u8>| #[trigger] tp_is(lookup_link, a0, x, p, q) implies is_trytes(y, p) && pl_mid_ok(a1, y, p, q) by { lemma_tp_parts(lookup_link, a0, x, p, q); lemma_pl(a1, y, p, q); }
    assert(input(Mode::Absorb, s1, b1, h1) == y);
}
//@hint let public_payload 0
let ghost h2 = mem@;
let ghost s2 = *s;
let ghost b2 = *b;
let ghost p = public_payload.0.val(h2);
let ghost l = s_trytes(p).len() as int;
let ghost a2 = pl_mid(a1, p);
proof {
    lemma_is_trytes_ok(y, p);
    lemma_r_field(Mode::Absorb, s0, b0, h0, s1, b1, h1, s2, b2, h2, 81, a1, l);
    assert forall|p2: Seq<u8>, q2: Seq<u8>| #[trigger] tp_is(lookup_link, a0, x, p2, q2) implies p2 == p && is_trytes(rd_out(Mode::Mask, a2, y.skip(l)), q2) by { lemma_trytes_unique(y, p, p2); }
    assert(input(Mode::Mask, s2, b2, h2) == rd_out(Mode::Mask, a2, y.skip(l)));
}
//@hint let masked_payload 0
let ghost h3 = mem@;
let ghost s3 = *s;
let ghost b3 = *b;
let ghost q = masked_payload.0.val(h3);
let ghost k = s_trytes(q).len() as int;
let ghost a3 = pl_end(a1, p, q);
let ghost w = rd_out(Mode::Mask, a2, y.skip(l));
proof {
    lemma_skip_trits(y, l);
    lemma_sp_ok(s2, h2);
    lemma_rd_ok(Mode::Mask, a2, y.skip(l));
    lemma_is_trytes_ok(w, q);
    lemma_r_field(Mode::Mask, s0, b0, h0, s2, b2, h2, s3, b3, h3, 81 + l, a2, k);
    lemma_pl(a1, y, p, q); lemma_pl_len(a1, p, q);
    assert forall|p2: Seq<u8>, q2: Seq<u8>| #[trigger] tp_is(lookup_link, a0, x, p2, q2) implies p2 == p && q2 == q by { lemma_pl_unique(a1, y, p, q, p2, q2); }
    assert(h1.dom().contains(s0.b())); assert(h2.dom().contains(s0.b()));
    lemma_trits_ext(public_payload.0, h2, h3, set![s0.b()]);
    assert(x.skip(81 + l + k) =~= y.skip(l + k));
    lemma_tp(lookup_link, a0, x, p, q);
    assert forall|p2: Seq<u8>, q2: Seq<u8>| #[trigger] tp_is(lookup_link, a0, x, p2, q2) implies starts(b3.val(h3), mac_tag(a3)) by { lemma_tp_parts(lookup_link, a0, x, p2, q2); }
}
//@hint exit
proof {
    lemma_r_mac(s0, b0, h0, s3, b3, h3, *s, *b, mem@, 81 + l + k, a3);
    lemma_trits_ext(public_payload.0, h3, mem@, set![s0.b()]);
    lemma_trits_ext(masked_payload.0, h3, mem@, set![s0.b()]);
}
