//@module pb3::cmd::absorb
//@file pb3/cmd/absorb.rs
//@deps mem trits::util trits::slice trits::trits spongos pb3::spec pb3::err
//@skip WrapAbsorb
//@prelude
use crate::mem::*;
use crate::trits::defs::*;
use crate::trits::util::*;
use crate::trits::b1t1::*;
use crate::trits::slice::*;
use crate::trits::trits::*;
use crate::spongos::*;
use crate::pb3::spec::*;
use crate::pb3::err::{Err, Result, guard};

pub struct WrapAbsorb<'a> { pub s: &'a mut Spongos }
impl<'a> Wrap for WrapAbsorb<'a> {
    open spec fn mode(self) -> Mode { Mode::Absorb }
    open spec fn cur(self) -> Spongos { *self.s }
    #[verifier::prophetic]
    open spec fn fin(self) -> Spongos { *final(self.s) }
    fn wrap3(&mut self, b: &mut TritSliceMutT, d: i8, mem: &mut Mem) { self.wrap3(b, d, mem) }
}
impl<'a> Unwrap for WrapAbsorb<'a> {
    open spec fn mode(self) -> Mode { Mode::Absorb }
    open spec fn cur(self) -> Spongos { *self.s }
    #[verifier::prophetic]
    open spec fn fin(self) -> Spongos { *final(self.s) }
    fn unwrap3(&mut self, b: &mut TritSliceT, mem: &mut Mem) -> (r: core::result::Result<i8, Err>) { self.unwrap3(b, mem) }
}
//@end
//@fn WrapAbsorb.Wrap::wrap3 mem=rw selfty=WrapAbsorb<'_> props=C07,C08,C10
    requires can_wrap(*old(self).s, *old(b), old(mem)@, 3), -13 <= d <= 13,
    ensures *final(final(self).s) == *final(old(self).s),
        wrapped(Mode::Absorb, *old(self).s, *old(b), old(mem)@, *final(self).s, *final(b), final(mem)@, bt(3, d as int)),
//@hint before absorb 0
let ghost h1 = mem@;
proof {
    lemma_bt_len(3, d as int);
    assert(h1 == old(b).put(old(mem)@, bt(3, d as int)));
    assert(b0.as_const_spec().val(h1) =~= bt(3, d as int));
    lemma_sp_same(*self.s, old(mem)@, h1);
}
//@fn WrapAbsorb.Unwrap::unwrap3 mem=rw selfty=WrapAbsorb<'_> props=C07,C08,C09,C10
    requires can_unwrap(*old(self).s, *old(b), old(mem)@),
    ensures *final(final(self).s) == *final(old(self).s),
        kept(*old(self).s, *old(b), old(mem)@, *final(self).s, *final(b), final(mem)@),
        r.is_ok() == (old(b).len() >= 3),
        r.is_ok() ==> unwrapped(Mode::Absorb, *old(self).s, *old(b), old(mem)@, *final(self).s, *final(b), final(mem)@, 3)
            && -13 <= (r->Ok_0) <= 13 && (r->Ok_0) as int == ival(input(Mode::Absorb, *old(self).s, *old(b), old(mem)@).take(3)),
//@hint before absorb 0
let ghost v = b0.val(mem@);
proof {
    assert(v =~= old(b).val(mem@).take(3));
    assert(is_trits(v));
}
//@hint before get3 0
proof { assert(b0.val(mem@) =~= v); assert(v.take(3) =~= v); }
//@fn WrapAbsorb.Wrap::wrapn mem=rw selfty=WrapAbsorb<'_> props=C08,C10
    requires t.ok(old(mem)@), t.b() != old(self).s.b(), t.b() != old(b).b(), can_wrap(*old(self).s, *old(b), old(mem)@, t.len()),
    ensures *final(final(self).s) == *final(old(self).s),
        wrapped(Mode::Absorb, *old(self).s, *old(b), old(mem)@, *final(self).s, *final(b), final(mem)@, t.val(old(mem)@)),
//@hint after absorb 0
let ghost h1 = mem@;
proof { lemma_val_same(t, old(mem)@, mem@); }
//@hint exit
proof { lemma_sp_same(*self.s, h1, mem@); }
//@fn WrapAbsorb.Unwrap::unwrapn mem=rw selfty=WrapAbsorb<'_> props=C08,C09,C10
    requires t.inv(old(mem)@), t.b() != old(self).s.b(), t.b() != old(b).b(), can_unwrap(*old(self).s, *old(b), old(mem)@),
    ensures *final(final(self).s) == *final(old(self).s),
        keptx(*old(self).s, *old(b), old(mem)@, *final(self).s, *final(b), final(mem)@, t.b()), r.is_ok() == (t.len() <= old(b).len()),
        r.is_ok() ==> unwrappedx(Mode::Absorb, *old(self).s, *old(b), old(mem)@, *final(self).s, *final(b), final(mem)@, t),
//@hint entry
let ghost c = b.val(mem@).take(t.len());
//@hint before absorb 0
proof {
    lemma_sp_same(*self.s, old(mem)@, mem@);
    assert(old(b).s_take(t.len()).val(old(mem)@) =~= c);
    assert(t.as_const_spec().val(mem@) =~= c);
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] < 3 by { assert(old(b).val(old(mem)@)[i] < 3); }
}
//@hint exit
proof { soft(t.as_const_spec().val(mem@) =~= c); }
