//@module pb3::cmd::mask
//@file pb3/cmd/mask.rs
//@deps mem trits::util trits::slice trits::trits spongos pb3::spec pb3::err
//@skip WrapMask
//@prelude
use crate::mem::*;
use crate::trits::defs::*;
use crate::trits::util::*;
use crate::trits::b1t1::*;
use crate::trits::slice::*;
use crate::trits::trits::*;
use crate::spongos::*;
use crate::pb3::spec::*;
use crate::pb3::err::{Err, Result, guard};

pub struct WrapMask<'a> { pub s: &'a mut Spongos }
impl<'a> Wrap for WrapMask<'a> {
    open spec fn mode(self) -> Mode { Mode::Mask }
    open spec fn cur(self) -> Spongos { *self.s }
    #[verifier::prophetic]
    open spec fn fin(self) -> Spongos { *final(self.s) }
    fn wrap3(&mut self, b: &mut TritSliceMutT, d: i8, mem: &mut Mem) { self.wrap3(b, d, mem) }
}
impl<'a> Unwrap for WrapMask<'a> {
    open spec fn mode(self) -> Mode { Mode::Mask }
    open spec fn cur(self) -> Spongos { *self.s }
    #[verifier::prophetic]
    open spec fn fin(self) -> Spongos { *final(self.s) }
    fn unwrap3(&mut self, b: &mut TritSliceT, mem: &mut Mem) -> (r: core::result::Result<i8, Err>) { self.unwrap3(b, mem) }
}
//@end
//@fn WrapMask.Wrap::wrap3 mem=rw selfty=WrapMask<'_> props=C07,C08,C10
    requires can_wrap(*old(self).s, *old(b), old(mem)@, 3), -13 <= d <= 13,
    ensures *final(final(self).s) == *final(old(self).s),
        wrapped(Mode::Mask, *old(self).s, *old(b), old(mem)@, *final(self).s, *final(b), final(mem)@, bt(3, d as int)),
//@hint before encr 0
let ghost h0 = old(mem)@;
let ghost h1 = mem@;
let ghost s0 = *self.s;
let ghost v = bt(3, d as int);
proof {
    lemma_bt_len(3, d as int);
    assert(h1 == old(b).put(h0, v));
    assert(b0.as_const_spec().val(h1) =~= v);
    lemma_sp_same(s0, h0, h1);
}
//@hint exit
proof {
    let e = sp_enc(s0.sp(h0), v);
    lemma_encr_absorb(s0.sp(h0), v);
    lemma_outs_len(Op::Encr, s0.sp(h0), v);
    lemma_wr_over(h0, b0.b(), b0.o(), v, e);
    assert(mem@[b.b()] == b0.put(h1, e)[b.b()]);
}
//@fn WrapMask.Unwrap::unwrap3 mem=rw selfty=WrapMask<'_> props=C07,C08,C09,C10
    requires can_unwrap(*old(self).s, *old(b), old(mem)@),
    ensures *final(final(self).s) == *final(old(self).s),
        kept(*old(self).s, *old(b), old(mem)@, *final(self).s, *final(b), final(mem)@),
        r.is_ok() == (old(b).len() >= 3),
        r.is_ok() ==> unwrapped(Mode::Mask, *old(self).s, *old(b), old(mem)@, *final(self).s, *final(b), final(mem)@, 3)
            && -13 <= (r->Ok_0) <= 13 && (r->Ok_0) as int == ival(input(Mode::Mask, *old(self).s, *old(b), old(mem)@).take(3)),
//@hint before decr 0
let ghost h0 = old(mem)@;
let ghost s0 = *old(self).s;
let ghost h1 = mem@;
let ghost v = b0.val(h0);
proof {
    assert(v =~= old(b).val(h0).take(3));
    assert(b0.val(h1) =~= v);
    assert(is_trits(v));
    lemma_sp_same(s0, h0, h1);
}
//@hint before get3 0
proof {
    let a = s0.sp(h0);
    lemma_sp_ok(s0, h0);
    lemma_rd_ok(Mode::Mask, a, v);
    lemma_decr_absorb(a, v);
    lemma_rd_split(Mode::Mask, a, old(b).val(h0), 3);
    assert(d.slice_spec().val(mem@) =~= sp_dec(a, v));
    assert(sp_dec(a, v).take(3) =~= sp_dec(a, v));
}
//@fn WrapMask.Wrap::wrapn mem=rw selfty=WrapMask<'_> props=C08,C10
    requires t.ok(old(mem)@), t.b() != old(self).s.b(), t.b() != old(b).b(), can_wrap(*old(self).s, *old(b), old(mem)@, t.len()),
    ensures *final(final(self).s) == *final(old(self).s),
        wrapped(Mode::Mask, *old(self).s, *old(b), old(mem)@, *final(self).s, *final(b), final(mem)@, t.val(old(mem)@)),
//@hint entry
proof { lemma_encr_absorb(self.s.sp(mem@), t.val(mem@)); lemma_wr_len(Mode::Mask, self.s.sp(mem@), t.val(mem@)); }
//@fn WrapMask.Unwrap::unwrapn mem=rw selfty=WrapMask<'_> props=C08,C09,C10
    requires t.inv(old(mem)@), t.b() != old(self).s.b(), t.b() != old(b).b(), can_unwrap(*old(self).s, *old(b), old(mem)@),
    ensures *final(final(self).s) == *final(old(self).s),
        keptx(*old(self).s, *old(b), old(mem)@, *final(self).s, *final(b), final(mem)@, t.b()), r.is_ok() == (t.len() <= old(b).len()),
        r.is_ok() ==> unwrappedx(Mode::Mask, *old(self).s, *old(b), old(mem)@, *final(self).s, *final(b), final(mem)@, t),
//@hint before decr 0
proof {
    let a = self.s.sp(mem@);
    let v = old(b).val(mem@);
    let c = v.take(t.len());
    assert(old(b).s_take(t.len()).val(mem@) =~= c);
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] < 3 by { assert(v[i] < 3); }
    lemma_sp_ok(*self.s, mem@);
    lemma_decr_absorb(a, c);
    lemma_rd_len(Mode::Mask, a, c);
    lemma_rd_split(Mode::Mask, a, v, t.len());
}
