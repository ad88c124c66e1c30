//@module pb3::typ::ntrupk
//@file pb3/typ/ntrupk.rs
//@deps mem trits::util trits::slice trits::trits spongos ntru pb3::spec pb3::err pb3::typ::trytes pb3::cmd::ntrukem
//@prelude
use crate::mem::*;
use crate::trits::defs::*;
use crate::trits::util::*;
use crate::trits::b1t1::*;
use crate::trits::slice::*;
use crate::trits::trits::*;
use crate::spongos::*;
use crate::ntru::pk_valid;
use crate::pb3::spec::*;
use crate::pb3::msg::*;
use crate::pb3::err::{Err, Result, guard};
use crate::pb3::typ::trytes::*;
//@end
//@foreach absorb|Absorb mask|Mask
//@fn PublicKey.$U::wrap_$T selfty=crate::ntru::PublicKey mem=rw props=C08,C10
    requires self.inv(old(mem)@), self.pk.b() != old(s).b(), self.pk.b() != old(b).b(), can_wrap(*old(s), *old(b), old(mem)@, 9216),
    ensures wrapped(Mode::$U, *old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, self.pk.val(old(mem)@)),
//@fn PublicKey.$U::unwrap_$T selfty=crate::ntru::PublicKey mem=rw props=C08,C09,C10
    requires old(self).inv(old(mem)@), old(self).pk.b() != old(s).b(), old(self).pk.b() != old(b).b(), can_unwrap(*old(s), *old(b), old(mem)@),
    ensures final(self).pk == old(self).pk, keptx(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, old(self).pk.b()),
        r.is_ok() == (9216 <= old(b).len() && pk_valid(input(Mode::$U, *old(s), *old(b), old(mem)@).take(9216))),
        r.is_ok() ==> final(self).inv(final(mem)@) && unwrappedx(Mode::$U, *old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, old(self).pk.slice_mut_spec()),
//@hint after unwrap_$T 0
proof {
    let v = input(Mode::$U, *old(s), *old(b), old(mem)@);
    if 9216 <= old(b).len() {
        lemma_sp_ok(*old(s), old(mem)@);
        lemma_rd_ok(Mode::$U, old(s).sp(old(mem)@), old(b).val(old(mem)@));
        assert(old(mem)@.dom().contains(self.pk.b()));
        assert(self.pk.val(mem@) =~= v.take(9216));
        assert forall|i: int| 0 <= i < 9216 implies #[trigger] self.pk.val(mem@)[i] < 3 by { assert(v[i] < 3); }
    }
}
//@fn PublicKey.$U::unwrap_$T_sized selfty=crate::ntru::PublicKey mem=rw props=C08,C09,C10
    requires can_unwrap(*old(s), *old(b), old(mem)@),
    ensures kept(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@), r.is_ok() == (9216 <= old(b).len() && pk_valid(input(Mode::$U, *old(s), *old(b), old(mem)@).take(9216))),
        r.is_ok() ==> unwrapped(Mode::$U, *old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, 9216) && (r->Ok_0).inv(final(mem)@) && (r->Ok_0).pk.fresh(old(mem)@)
            && (r->Ok_0).pk.val(final(mem)@) == input(Mode::$U, *old(s), *old(b), old(mem)@).take(9216),
//@hint let t 0
let ghost h0 = old(mem)@;
let ghost h1 = mem@;
let ghost t0 = t;
proof {
    lemma_sp_same(*s, h0, h1); lemma_val_same(*b, h0, h1);
    assert forall|s1: Spongos, bb: TritSliceT, hh: Heap| keptx(*s, *b, h1, s1, bb, hh, t0.b()) implies kept(*s, *b, h0, s1, bb, hh) by { lemma_fresh_x(Mode::$U, *s, *b, h0, h1, s1, bb, hh, t0); }
}
//@hint after unwrap_$T 0
proof { if 9216 <= old(b).len() { lemma_fresh_x(Mode::$U, *old(s), *old(b), h0, h1, *s, *b, mem@, t0); } }
//@endfor
