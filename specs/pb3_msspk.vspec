//@module pb3::typ::msspk
//@file pb3/typ/msspk.rs
//@deps mem trits::util trits::slice trits::trits spongos mss::mss pb3::spec pb3::err pb3::typ::trytes pb3::cmd::mssig
//@prelude
use crate::mem::*;
use crate::trits::defs::*;
use crate::trits::util::*;
use crate::trits::b1t1::*;
use crate::trits::slice::*;
use crate::trits::trits::*;
use crate::spongos::*;
use crate::pb3::spec::*;
use crate::pb3::msg::*;
use crate::pb3::err::{Err, Result, guard};
use crate::pb3::typ::trytes::*;
//@end
//@foreach absorb|Absorb mask|Mask
//@fn PublicKey.$U::wrap_$T selfty=crate::mss::mss::PublicKey mem=rw props=C08,C10
    requires self.ok(old(mem)@), self.pk.b() != old(s).b(), self.pk.b() != old(b).b(), can_wrap(*old(s), *old(b), old(mem)@, 243),
    ensures wrapped(Mode::$U, *old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, self.pk.val(old(mem)@)),
//@fn PublicKey.$U::unwrap_$T selfty=crate::mss::mss::PublicKey mem=rw props=C08,C09,C10
    requires old(self).ok(old(mem)@), old(self).pk.b() != old(s).b(), old(self).pk.b() != old(b).b(), can_unwrap(*old(s), *old(b), old(mem)@),
    ensures *final(self) == *old(self), keptx(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, old(self).pk.b()), r.is_ok() == (243 <= old(b).len()),
        r.is_ok() ==> unwrappedx(Mode::$U, *old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, old(self).pk.slice_mut_spec()),
//@fn PublicKey.$U::unwrap_$T_sized selfty=crate::mss::mss::PublicKey mem=rw props=C08,C09,C10
    requires can_unwrap(*old(s), *old(b), old(mem)@),
    ensures kept(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@), r.is_ok() == (243 <= old(b).len()),
        r.is_ok() ==> unwrapped(Mode::$U, *old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, 243) && (r->Ok_0).ok(final(mem)@) && (r->Ok_0).pk.fresh(old(mem)@)
            && (r->Ok_0).pk.val(final(mem)@) == input(Mode::$U, *old(s), *old(b), old(mem)@).take(243),
//@hint let pk 0
let ghost h0 = old(mem)@;
let ghost h1 = mem@;
let ghost pk0 = pk;
proof {
    lemma_sp_same(*s, h0, h1); lemma_val_same(*b, h0, h1);
    assert forall|s1: Spongos, bb: TritSliceT, hh: Heap| keptx(*s, *b, h1, s1, bb, hh, pk0.b()) implies kept(*s, *b, h0, s1, bb, hh) by { lemma_fresh_x(Mode::$U, *s, *b, h0, h1, s1, bb, hh, pk0); }
}
//@hint exit
proof { lemma_fresh_x(Mode::$U, *old(s), *old(b), h0, h1, *s, *b, mem@, pk0); }
//@endfor
