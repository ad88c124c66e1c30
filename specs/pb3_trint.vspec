//@module pb3::typ::trint
//@file pb3/typ/trint.rs
//@deps mem trits::util trits::slice trits::trits spongos pb3::spec pb3::err pb3::cmd::absorb pb3::cmd::mask
//@struct Trint3 derive(Clone, Copy, PartialEq, Eq, Structural)
//@struct Trint6 derive(Clone, Copy)
//@struct Trint9 derive(Clone, Copy)
//@struct Trint18 derive(Clone, Copy)
//@prelude
use crate::mem::*;
use crate::trits::util::*;
use crate::trits::b1t1::*;
use crate::trits::slice::*;
use crate::trits::trits::*;
use crate::spongos::*;
use crate::pb3::spec::*;
use crate::pb3::err::{Err, Result, guard};
//@end
//@fn tryte props=C08
    ensures r.0 == t,
//@fn sizeof_tryte props=C08,C10
    ensures r == 3,
//@fn sizeof_trint props=C08
    ensures r == 6,
//@fn sizeof_trint9 props=C08
    ensures r == 9,
//@foreach Trint3|3|13 Trint6|6|364 Trint9|9|9841 Trint18|18|193710244
//@fn $T.TrintField::sizeof props=C08,C10
    ensures r == $U,
//@fn $T.TrintField::encode mem=rw props=C08,C10
    requires old(b).inv(old(mem)@), old(b).len() >= $U, -$V <= self.0 <= $V,
    ensures *final(b) == old(b).s_drop($U), final(mem)@ == old(b).put(old(mem)@, bt($U, self.0 as int)),
//@fn $T.TrintField::decode_sized mem=ro props=C08,C09,C10
    requires old(b).ok(mem@),
    ensures suffix(*old(b), *final(b)), r.is_ok() == (old(b).len() >= $U),
        r.is_ok() ==> *final(b) == old(b).s_drop($U) && -$V <= (r->Ok_0).0 <= $V && (r->Ok_0).0 as int == ival(old(b).val(mem@).take($U)),
//@hint before advance 0
proof {
    let v = old(b).val(mem@);
    assert(old(b).s_take($U).val(mem@) =~= v.take($U));
    assert(v.take($U).take($U) =~= v.take($U));
    assert forall|i: int| 0 <= i < $U implies #[trigger] v.take($U)[i] < 3 by { assert(v[i] < 3); }
}
//@fn TrintField::decode mem=ro selfty=$T props=C08,C09,C10
    requires old(b).ok(mem@),
    ensures suffix(*old(b), *final(b)), r.is_ok() == (old(b).len() >= $U), r.is_err() ==> *final(self) == *old(self),
        r.is_ok() ==> *final(b) == old(b).s_drop($U) && -$V <= final(self).0 <= $V && final(self).0 as int == ival(old(b).val(mem@).take($U)),
//@fn T.Absorb::wrap_absorb mem=rw mono=T=$T selfty=$T props=C08,C10
    requires can_wrap(*old(s), *old(b), old(mem)@, $U), -$V <= self.0 <= $V,
    ensures wrapped(Mode::Absorb, *old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, bt($U, self.0 as int)),
//@hint entry
proof { lemma_bt_len($U, self.0 as int); }
//@hint before absorb 0
let ghost h1 = mem@;
proof {
    lemma_sp_same(*s, old(mem)@, h1);
    assert(old(b).s_take($U).as_const_spec().val(h1) =~= bt($U, self.0 as int));
}
//@fn T.Absorb::unwrap_absorb_sized mem=rw mono=T=$T selfty=$T props=C08,C09,C10
    requires can_unwrap(*old(s), *old(b), old(mem)@),
    ensures kept(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@), r.is_ok() == (old(b).len() >= $U),
        r.is_ok() ==> unwrapped(Mode::Absorb, *old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, $U)
            && -$V <= (r->Ok_0).0 <= $V && (r->Ok_0).0 as int == ival(input(Mode::Absorb, *old(s), *old(b), old(mem)@).take($U)),
//@hint before absorb 0
proof {
    let v = old(b).val(mem@);
    let d = old(b).s_take($U);
    assert(d.val(mem@) =~= v.take($U));
    assert forall|i: int| 0 <= i < $U implies #[trigger] v.take($U)[i] < 3 by { assert(v[i] < 3); }
}
//@fn Absorb::unwrap_absorb from=pb3::cmd::absorb mem=rw selfty=$T props=C08,C09,C10
    requires can_unwrap(*old(s), *old(b), old(mem)@),
    ensures kept(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@), r.is_ok() == (old(b).len() >= $U), r.is_err() ==> *final(self) == *old(self),
        r.is_ok() ==> unwrapped(Mode::Absorb, *old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, $U)
            && -$V <= final(self).0 <= $V && final(self).0 as int == ival(input(Mode::Absorb, *old(s), *old(b), old(mem)@).take($U)),
//@fn T.Mask::wrap_mask mem=rw mono=T=$T selfty=$T props=C08,C10
    requires can_wrap(*old(s), *old(b), old(mem)@, $U), -$V <= self.0 <= $V,
    ensures wrapped(Mode::Mask, *old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, bt($U, self.0 as int)),
//@hint entry
let ghost v = bt($U, self.0 as int);
let ghost h0 = mem@;
let ghost mut h1 = mem@;
proof { lemma_bt_len($U, self.0 as int); }
//@hint before encr 0
proof {
    h1 = mem@;
    lemma_sp_same(*s, h0, h1);
    assert(old(b).s_take($U).as_const_spec().val(h1) =~= v);
}
//@hint exit
proof {
    let a = old(s).sp(h0);
    let e = sp_enc(a, v);
    lemma_encr_absorb(a, v);
    lemma_outs_len(Op::Encr, a, v);
    lemma_wr_over(h0, b.b(), old(b).o(), v, e);
}
//@fn T.Mask::unwrap_mask_sized mem=rw mono=T=$T selfty=$T props=C08,C09,C10
    requires can_unwrap(*old(s), *old(b), old(mem)@),
    ensures kept(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@), r.is_ok() == (old(b).len() >= $U),
        r.is_ok() ==> unwrapped(Mode::Mask, *old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, $U)
            && -$V <= (r->Ok_0).0 <= $V && (r->Ok_0).0 as int == ival(input(Mode::Mask, *old(s), *old(b), old(mem)@).take($U)),
//@hint entry
let ghost h0 = mem@;
let ghost a = s.sp(h0);
let ghost c = b.val(h0).take($U);
//@hint before decr 0
proof {
    lemma_sp_same(*s, h0, mem@);
    let x = old(b).s_take($U);
    assert(x.val(mem@) =~= c);
    assert forall|i: int| 0 <= i < $U implies #[trigger] c[i] < 3 by { assert(old(b).val(h0)[i] < 3); }
    lemma_sp_ok(*s, h0);
    lemma_rd_ok(Mode::Mask, a, c);
    lemma_decr_absorb(a, c);
    lemma_rd_split(Mode::Mask, a, old(b).val(h0), $U);
}
//@hint before decode_sized 0
proof { assert(t.slice_spec().val(mem@) =~= sp_dec(a, c)); assert(sp_dec(a, c).take($U) =~= sp_dec(a, c)); }
//@fn Mask::unwrap_mask from=pb3::cmd::mask mem=rw selfty=$T props=C08,C09,C10
    requires can_unwrap(*old(s), *old(b), old(mem)@),
    ensures kept(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@), r.is_ok() == (old(b).len() >= $U), r.is_err() ==> *final(self) == *old(self),
        r.is_ok() ==> unwrapped(Mode::Mask, *old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, $U)
            && -$V <= final(self).0 <= $V && final(self).0 as int == ival(input(Mode::Mask, *old(s), *old(b), old(mem)@).take($U)),
//@endfor
