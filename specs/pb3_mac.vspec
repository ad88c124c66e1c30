//@module pb3::cmd::mac
//@file pb3/cmd/mac.rs
//@deps mem trits::util trits::slice trits::trits spongos pb3::spec pb3::err
//@prelude
use crate::mem::*;
use crate::trits::defs::*;
use crate::trits::util::*;
use crate::trits::b1t1::*;
use crate::trits::slice::*;
use crate::trits::trits::*;
use crate::spongos::*;
use crate::pb3::spec::*;
use crate::pb3::err::{Err, Result, guard};
/// the tag of a sponge state
pub open spec fn mac_tag(a: SP) -> Seq<u8> { sp_sqout(sp_commit(a), 243) }
pub open spec fn mac_end(a: SP) -> SP { sp_squeeze(sp_commit(a), 243) }
//@end
//@fn sizeof_mac props=C08
    ensures r == 243,
//@fn wrap_mac mem=rw props=C08,C10,C11
    requires can_wrap(*old(s), *old(b), old(mem)@, 243),
    ensures final(s).inv(final(mem)@), final(s).same(*old(s)), *final(b) == old(b).s_drop(243), extends2(old(mem)@, final(mem)@, old(b).b(), old(s).b()),
        final(mem)@[old(b).b()] == old(b).put(old(mem)@, mac_tag(old(s).sp(old(mem)@)))[old(b).b()],
        final(s).sp(final(mem)@) == mac_end(old(s).sp(old(mem)@)),
//@hint before squeeze 0
let ghost h1 = mem@;
//@hint exit
proof {
    let t = mac_tag(old(s).sp(old(mem)@));
    assert(old(b).put(h1, t)[b.b()] =~= old(b).put(old(mem)@, t)[b.b()]);
}
//@fn unwrap_mac mem=rw cmp:trits=t.slice() props=C08,C09,C11
    requires can_unwrap(*old(s), *old(b), old(mem)@),
    ensures kept(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@),
        r.is_ok() == starts(old(b).val(old(mem)@), mac_tag(old(s).sp(old(mem)@))),
        r.is_ok() ==> *final(b) == old(b).s_drop(243) && final(s).sp(final(mem)@) == mac_end(old(s).sp(old(mem)@)),
//@hint entry
proof { lemma_outs_len(Op::Squeeze, sp_commit(s.sp(mem@)), zeros(243)); }
//@hint before squeeze 0
let ghost h1 = mem@;
proof { lemma_sp_same(*s, h1, mem@); }
//@hint before partial_eq 0
proof {
    let a = old(s).sp(old(mem)@);
    assert(t.slice_spec().val(mem@) =~= mac_tag(a));
    assert(old(b).s_take(243).val(mem@) =~= old(b).val(old(mem)@).take(243));
}
