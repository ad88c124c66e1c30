//@module app::core
//@file app/core/mod.rs
//@deps mem trits::util trits::slice trits::trits spongos pb3::spec pb3::err pb3::typ::trytes pb3::msg
//@struct AppInst
//@struct MsgId
//@prelude
use crate::mem::*;
use crate::trits::defs::*;
use crate::trits::util::*;
use crate::trits::b1t1::*;
use crate::trits::slice::*;
use crate::trits::trits::*;
use crate::spongos::*;
use crate::pb3::spec::*;
use crate::pb3::err::{Err, Result, guard};
use crate::pb3::typ::trytes::*;
//@end
//@fn MsgId.Absorb::wrap_absorb mem=rw props=C08,C10
    requires self.id.ok(old(mem)@), self.id.n == 81, self.id.b() != old(s).b(), self.id.b() != old(b).b(), can_wrap(*old(s), *old(b), old(mem)@, 81),
    ensures wrapped(Mode::Absorb, *old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, self.id.val(old(mem)@)),
//@fn MsgId.Absorb::unwrap_absorb_sized mem=rw props=C08,C09,C10
    requires can_unwrap(*old(s), *old(b), old(mem)@),
    ensures kept(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@), r.is_ok() == (81 <= old(b).len()),
        r.is_ok() ==> unwrapped(Mode::Absorb, *old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, 81) && (r->Ok_0).id.ok(final(mem)@) && (r->Ok_0).id.fresh(old(mem)@) && (r->Ok_0).id.n == 81
            && (r->Ok_0).id.val(final(mem)@) == input(Mode::Absorb, *old(s), *old(b), old(mem)@).take(81),
//@hint let id 0
let ghost h0 = old(mem)@;
let ghost h1 = mem@;
let ghost id0 = id;
proof {
    lemma_sp_same(*s, h0, h1); lemma_val_same(*b, h0, h1);
    assert forall|s1: Spongos, bb: TritSliceT, hh: Heap| keptx(*s, *b, h1, s1, bb, hh, id0.b()) implies kept(*s, *b, h0, s1, bb, hh) by { lemma_fresh_x(Mode::Absorb, *s, *b, h0, h1, s1, bb, hh, id0); }
}
//@hint exit
proof { lemma_fresh_x(Mode::Absorb, *old(s), *old(b), h0, h1, *s, *b, mem@, id0); }
//@fn MsgId.Hash::hash mem=ro rename=msgid_hash meth:hash=trits_hash memcall=hash mono=H=crate::mem::HState props=C05
    requires self.id.ok(mem@),
    ensures final(state)@ == old(state)@ + hashed(self.id.val(mem@)),
