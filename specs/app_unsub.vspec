//@module app::channel::msg::unsubscribe
//@file app/channel/msg/unsubscribe.rs
//@deps mem trits::util trits::slice trits::trits spongos pb3::spec pb3::err pb3::typ::trytes pb3::cmd::join pb3::cmd::mac pb3::msg app::core app::spec ntru pb3::cmd::ntrukem
//@map spongos::MAC_SIZE 243
//@prelude
use crate::mem::*;
use crate::trits::defs::*;
use crate::trits::util::*;
use crate::trits::b1t1::*;
use crate::trits::slice::*;
use crate::trits::trits::*;
use crate::spongos::*;
use crate::app::core::{MsgId, MSGID_SIZE};
use crate::app::spec::*;
use crate::pb3::spec::*;
use crate::pb3::msg::*;
use crate::pb3::err::{Err, Result, guard};
use crate::pb3::typ::size::*;
use crate::pb3::typ::trytes::*;
use crate::pb3::cmd::mac::*;
use crate::pb3::cmd::join::*;

/// the codeword linked to `id` in the state `l` and the state after it
pub open spec fn us_out(a: SP, l: SP, id: Seq<u8>) -> Seq<u8> { id + mac_tag(sp_join(a, l)) }
pub open spec fn us_end(a: SP, l: SP) -> SP { mac_end(sp_join(a, l)) }
/// C11: `x` starts with the message linked to a known one
pub open spec fn us_is<L: Lookup<crate::ntru::PublicKey>>(f: L, a: SP, x: Seq<u8>) -> bool {
    linked::<crate::ntru::PublicKey, L>(f, x) && starts(x, us_out(a, f.state(x.take(81)), x.take(81)))
}
pub proof fn lemma_us<L: Lookup<crate::ntru::PublicKey>>(f: L, a: SP, x: Seq<u8>)
    requires linked::<crate::ntru::PublicKey, L>(f, x),
    ensures us_is(f, a, x) == starts(x.skip(81), mac_tag(sp_join(a, f.state(x.take(81))))),
{ lemma_starts_cat(x, x.take(81), mac_tag(sp_join(a, f.state(x.take(81))))); }
/// C10: what was sent is accepted
pub proof fn lemma_us_round<L: Lookup<crate::ntru::PublicKey>>(f: L, a: SP, l: SP, id: Seq<u8>, x: Seq<u8>)
    requires id.len() == 81, f.known(id), f.state(id) == l, starts(x, us_out(a, l, id)),
    ensures us_is(f, a, x), us_out(a, l, id).len() == 324,
{ lemma_outs_len(Op::Squeeze, sp_commit(sp_join(a, l)), zeros(243)); lemma_starts_cat(x, id, mac_tag(sp_join(a, l))); assert(x.take(81) == id); }
//@end
//@fn sizeof props=C10
    ensures forall|a: SP, l: SP, id: Seq<u8>| id.len() == 81 ==> r == (#[trigger] us_out(a, l, id)).len(),
//@hint exit
proof {
    assert forall|a: SP, l: SP, id: Seq<u8>| id.len() == 81 implies tail__ == (#[trigger] us_out(a, l, id)).len() by { lemma_outs_len(Op::Squeeze, sp_commit(sp_join(a, l)), zeros(243)); }
}
//@fn wrap mem=rw props=C10,C11
    requires can_wrap(*old(s), *old(b), old(mem)@, 324), old(slink).inv(old(mem)@), old(slink).b() != old(s).b(), old(slink).b() != old(b).b(),
        msgid.ok(old(mem)@), msgid.len() == 81, msgid.b() != old(s).b(), msgid.b() != old(b).b(), msgid.b() != old(slink).b(),
    ensures final(slink).inv(final(mem)@), final(slink).same(*old(slink)), final(slink).sp(final(mem)@) == sp_squeeze(old(slink).sp(old(mem)@), 243),
        ({ let (a, l) = (old(s).sp(old(mem)@), old(slink).sp(old(mem)@));
            wrote(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, us_out(a, l, msgid.val(old(mem)@)), us_end(a, l), set![old(s).b(), old(b).b(), old(slink).b()]) }),
//@hint after wrap_join 0
let ghost (h0, s0, b0) = (old(mem)@, *old(s), *old(b));
let ghost h1 = mem@;
let ghost s1 = *s;
let ghost b1 = *b;
let ghost z = set![old(s).b(), old(b).b(), old(slink).b()];
let ghost id = msgid.val(h0);
let ghost a1 = sp_join(s0.sp(h0), old(slink).sp(h0));
proof { lemma_wrote_next(s0, b0, h0, s1, b1, h1, id, a1, z); }
//@hint exit
proof {
    lemma_w_mac(s0, b0, h0, s1, b1, h1, *s, *b, mem@, id, a1, z);
    assert(h0.dom().contains(slink.b())); assert(h1.dom().contains(slink.b()));
    lemma_sp_same(*slink, h1, mem@);
}
//@fn unwrap mem=rw props=C09,C10,C11
    requires can_unwrap(*old(s), *old(b), old(mem)@),
    ensures kept(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@), r.is_ok() == us_is(lookup_link, old(s).sp(old(mem)@), old(b).val(old(mem)@)),
        r.is_ok() ==> ({ let (a, id) = (old(s).sp(old(mem)@), old(b).val(old(mem)@).take(81));
            &&& (r->Ok_0).iok(final(mem)@) && (r->Ok_0).iv(final(mem)@) == lookup_link.info(id) && forall|c: int| old(mem)@.dom().contains(c) ==> #[trigger] (r->Ok_0).off(c)
            &&& read(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, 324, us_end(a, lookup_link.state(id))) }),
//@hint entry
let ghost (h0, s0, b0) = (mem@, *s, *b);
let ghost x = b.val(mem@);
//@hint let sub_pk 0
let ghost h1 = mem@;
let ghost s1 = *s;
let ghost b1 = *b;
let ghost a1 = sp_join(s0.sp(h0), lookup_link.state(x.take(81)));
proof {
    lemma_read_next(s0, b0, h0, s1, b1, h1, 81, a1);
    lemma_us(lookup_link, s0.sp(h0), x);
}
//@hint exit
proof {
    lemma_r_mac(s0, b0, h0, s1, b1, h1, *s, *b, mem@, 81, a1);
    assert(h0.dom().contains(s0.b())); assert(sub_pk.off(s0.b()));
    sub_pk.lemma_info(h1, mem@, set![s0.b()]);
}
