//@module pb3::typ::trytes
//@file pb3/typ/trytes.rs
//@deps mem trits::util trits::slice trits::trits spongos pb3::spec pb3::err pb3::cmd::absorb pb3::cmd::mask pb3::typ::size
//@struct Trytes
//@prelude
use crate::mem::*;
use crate::trits::defs::*;
use crate::trits::util::*;
use crate::trits::b1t1::*;
use crate::trits::slice::*;
use crate::trits::trits::*;
use crate::spongos::*;
use crate::pb3::spec::*;
use crate::pb3::err::{Err, Result, guard};
use crate::pb3::typ::size::*;

/// C08: encoding of `trytes`
pub open spec fn s_trytes(v: Seq<u8>) -> Seq<u8> { s_size(v.len() as int / 3) + v }
pub open spec fn is_trytes(x: Seq<u8>, v: Seq<u8>) -> bool { v.len() % 3 == 0 && v.len() / 3 <= size_max() && starts(x, s_trytes(v)) }
/// storage allocated by the callee
pub proof fn lemma_fresh_x(m: Mode, s0: Spongos, b0: TritSliceT, h0: Heap, g: Heap, s1: Spongos, b1: TritSliceT, h1: Heap, t: TritsT)
    requires can_unwrap(s0, b0, h0), t.fresh(h0), g == h0.insert(t.b(), g[t.b()]), t.inv(g), keptx(s0, b0, g, s1, b1, h1, t.b()),
    ensures kept(s0, b0, h0, s1, b1, h1),
        unwrappedx(m, s0, b0, g, s1, b1, h1, t.slice_mut_spec()) ==> unwrapped(m, s0, b0, h0, s1, b1, h1, t.n as int) && t.ok(h1) && t.val(h1) == input(m, s0, b0, h0).take(t.n as int),
{
    lemma_sp_same(s0, h0, g);
    lemma_val_same(b0, h0, g);
    assert forall|c: int| #[trigger] h0.dom().contains(c) implies h1.dom().contains(c) && (c != s0.b() ==> h1[c] == h0[c]) by { assert(g.dom().contains(c)); }
    if unwrappedx(m, s0, b0, g, s1, b1, h1, t.slice_mut_spec()) {
        let v = input(m, s0, b0, h0);
        lemma_sp_ok(s0, h0);
        lemma_rd_ok(m, s0.sp(h0), b0.val(h0));
        assert(t.val(h1) =~= v.take(t.n as int));
        assert(g.dom().contains(t.b()));
        assert forall|i: int| 0 <= i < t.n implies #[trigger] t.val(h1)[i] < 3 by { assert(v[i] < 3); }
    }
}
/// the encoding determines the trytes
pub proof fn lemma_trytes(x: Seq<u8>, n: int)
    requires is_trits(x), is_size(x, n),
    ensures forall|v: Seq<u8>| #[trigger] is_trytes(x, v) ==> v.len() == 3 * n && s_size(n).len() + 3 * n <= x.len() && v == x.subrange(s_size(n).len() as int, s_size(n).len() + 3 * n),
        s_size(n).len() + 3 * n <= x.len() ==> is_trytes(x, x.subrange(s_size(n).len() as int, s_size(n).len() + 3 * n)),
{
    let l = s_size(n).len() as int;
    assert forall|v: Seq<u8>| #[trigger] is_trytes(x, v) implies v.len() == 3 * n && l + 3 * n <= x.len() && v == x.subrange(l, l + 3 * n) by {
        let k = v.len() as int / 3;
        let w = s_trytes(v);
        assert(x.take(s_size(k).len() as int) =~= x.take(w.len() as int).take(s_size(k).len() as int));
        assert(w.take(s_size(k).len() as int) =~= s_size(k));
        assert(is_size(x, k));
        lemma_size_inj(x, n, k);
        assert(w.skip(l) =~= v);
        assert(x.take(w.len() as int).skip(l) =~= x.subrange(l, l + 3 * n));
    }
    if l + 3 * n <= x.len() {
        let v = x.subrange(l, l + 3 * n);
        assert(v.len() as int / 3 == n);
        assert(x.take(l + 3 * n) =~= s_size(n) + v);
    }
}
pub proof fn lemma_trytes_size(x: Seq<u8>, v: Seq<u8>)
    requires is_trytes(x, v),
    ensures is_size(x, v.len() as int / 3),
{
    let n = v.len() as int / 3;
    assert(x.take(s_size(n).len() as int) =~= x.take(s_trytes(v).len() as int).take(s_size(n).len() as int));
    assert(s_trytes(v).take(s_size(n).len() as int) =~= s_size(n));
}
//@end
//@fn Trytes::size props=C08
    ensures r == self.0.n,
//@fn sizeof_ntrytes props=C08,C10
    requires 3 * n <= usize::MAX,
    ensures r == 3 * n,
//@fn sizeof_trytes props=C08,C10
    requires n <= size_max(),
    ensures r == s_size(n as int).len() + 3 * n,
//@hint entry
proof { lemma_size_len(n as int); }
//@fn Trytes::sizeof props=C08,C10
    requires n <= size_max(),
    ensures r == s_size(n as int).len() + 3 * n,
//@hint entry
proof { lemma_size_len(n as int); }
//@fn wrap_absorb_trits mem=rw props=C08,C10
    requires x.ok(old(mem)@), x.b() != old(s).b(), x.b() != old(b).b(), can_wrap(*old(s), *old(b), old(mem)@, x.len()),
    ensures wrapped(Mode::Absorb, *old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, x.val(old(mem)@)),
//@hint before absorb 0
proof { lemma_sp_same(*s, old(mem)@, mem@); lemma_val_same(x, old(mem)@, mem@); }
//@fn unwrap_absorb_trits mem=rw props=C08,C09,C10
    requires x.inv(old(mem)@), x.b() != old(s).b(), x.b() != old(b).b(), can_unwrap(*old(s), *old(b), old(mem)@),
    ensures keptx(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, x.b()), r.is_ok() == (x.len() <= old(b).len()),
        r.is_ok() ==> unwrappedx(Mode::Absorb, *old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, x),
//@hint entry
let ghost c = b.val(mem@).take(x.len());
//@hint before absorb 0
proof {
    lemma_sp_same(*s, old(mem)@, mem@);
    assert(t.val(old(mem)@) =~= c);
    assert(x.as_const_spec().val(mem@) =~= c);
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] < 3 by { assert(old(b).val(old(mem)@)[i] < 3); }
}
//@hint exit
proof { soft(x.as_const_spec().val(mem@) =~= c); }
//@fn unwrap_absorb_n mem=rw props=C08,C09,C10
    requires can_unwrap(*old(s), *old(b), old(mem)@),
    ensures kept(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@), r.is_ok() == (n <= old(b).len()),
        r.is_ok() ==> unwrapped(Mode::Absorb, *old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, n as int),
//@hint before absorb 0
proof {
    let v = old(b).val(mem@);
    let d = old(b).s_take(n as int);
    assert(d.val(mem@) =~= v.take(n as int));
    assert forall|i: int| 0 <= i < n implies #[trigger] v.take(n as int)[i] < 3 by { assert(v[i] < 3); }
}
//@fn wrap_mask_trits mem=rw props=C08,C10
    requires x.ok(old(mem)@), x.b() != old(s).b(), x.b() != old(b).b(), can_wrap(*old(s), *old(b), old(mem)@, x.len()),
    ensures wrapped(Mode::Mask, *old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, x.val(old(mem)@)),
//@hint entry
proof { lemma_encr_absorb(s.sp(mem@), x.val(mem@)); lemma_wr_len(Mode::Mask, s.sp(mem@), x.val(mem@)); }
//@fn unwrap_mask_trits mem=rw props=C08,C09,C10
    requires x.inv(old(mem)@), x.b() != old(s).b(), x.b() != old(b).b(), can_unwrap(*old(s), *old(b), old(mem)@),
    ensures keptx(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, x.b()), r.is_ok() == (x.len() <= old(b).len()),
        r.is_ok() ==> unwrappedx(Mode::Mask, *old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, x),
//@hint before decr 0
proof {
    let a = s.sp(mem@);
    let v = old(b).val(mem@);
    let c = v.take(x.len());
    assert(t.val(mem@) =~= c);
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] < 3 by { assert(v[i] < 3); }
    lemma_sp_ok(*s, mem@);
    lemma_decr_absorb(a, c);
    lemma_rd_len(Mode::Mask, a, c);
    lemma_rd_split(Mode::Mask, a, v, x.len());
}
//@foreach absorb|Absorb mask|Mask
//@fn wrap_$T_trytes mem=rw props=C08,C10
    requires x.ok(old(mem)@), x.n % 3 == 0, x.n / 3 <= size_max(), x.b() != old(s).b(), x.b() != old(b).b(), can_wrap(*old(s), *old(b), old(mem)@, s_trytes(x.val(old(mem)@)).len() as int),
    ensures wrapped(Mode::$U, *old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, s_trytes(x.val(old(mem)@))),
//@hint after wrap_$T 0
let ghost s1 = *s;
let ghost b1 = *b;
let ghost h1 = mem@;
proof {
    lemma_wrapped_next(Mode::$U, *old(s), *old(b), old(mem)@, s1, b1, h1, s_size(x.n as int / 3));
    lemma_val_same(x.slice_spec(), old(mem)@, h1);
    assert(x.slice_spec().val(h1) =~= x.val(old(mem)@));
}
//@hint exit
proof { lemma_wrapped_cat(Mode::$U, *old(s), *old(b), old(mem)@, s1, b1, h1, *s, *b, mem@, s_size(x.n as int / 3), x.val(old(mem)@)); }
//@fn unwrap_$T_trytes mem=rw props=C08,C09,C10
    requires can_unwrap(*old(s), *old(b), old(mem)@),
    ensures kept(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@),
        r.is_ok() == exists|v: Seq<u8>| #[trigger] is_trytes(input(Mode::$U, *old(s), *old(b), old(mem)@), v),
        r.is_ok() ==> r->Ok_0.fresh(old(mem)@) && r->Ok_0.ok(final(mem)@) && is_trytes(input(Mode::$U, *old(s), *old(b), old(mem)@), r->Ok_0.val(final(mem)@))
            && unwrapped(Mode::$U, *old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, s_trytes(r->Ok_0.val(final(mem)@)).len() as int),
//@hint entry
let ghost s0 = *s;
let ghost b0 = *b;
let ghost h0 = mem@;
let ghost i0 = input(Mode::$U, s0, b0, h0);
proof {
    lemma_unwrapped_none(Mode::$U, s0, b0, h0); lemma_unwrapped_next(Mode::$U, s0, b0, h0, s0, b0, h0, 0);
    assert forall|v: Seq<u8>| #[trigger] is_trytes(i0, v) implies is_size(i0, v.len() as int / 3) by { lemma_trytes_size(i0, v); }
}
//@hint let n 0
let ghost s1 = *s;
let ghost b1 = *b;
let ghost h1 = mem@;
let ghost l = s_size(n.0 as int).len() as int;
proof {
    lemma_unwrapped_next(Mode::$U, s0, b0, h0, s1, b1, h1, l);
    lemma_trytes(i0, n.0 as int);
    assert forall|s: Spongos, bb: TritSliceT, hh: Heap| kept(s1, b1, h1, s, bb, hh) implies kept(s0, b0, h0, s, bb, hh) by { lemma_kept_cat(s0, b0, h0, s1, b1, h1, s, bb, hh); }
    lemma_unwrapped_none(Mode::$U, s1, b1, h1);
}
//@hint before zero 0
proof { assert(3 * n.0 <= b.len()); } // no allocation beyond the input
//@hint after zero 0
let ghost h2 = mem@;
let ghost xx = x;
proof {
    lemma_sp_same(s1, h1, h2);
    lemma_val_same(b1, h1, h2);
    assert(xx.slice_mut_spec().len() == 3 * n.0);
    assert forall|s: Spongos, bb: TritSliceT, hh: Heap| keptx(s1, b1, h2, s, bb, hh, xx.b()) implies kept(s0, b0, h0, s, bb, hh) by {
        lemma_fresh_x(Mode::$U, s1, b1, h1, h2, s, bb, hh, xx);
        lemma_kept_cat(s0, b0, h0, s1, b1, h1, s, bb, hh);
    }
}
//@hint exit
proof {
    lemma_fresh_x(Mode::$U, s1, b1, h1, h2, *s, *b, mem@, xx);
    lemma_unwrapped_cat(Mode::$U, s0, b0, h0, s1, b1, h1, *s, *b, mem@, l, 3 * n.0 as int);
    assert(i0.skip(l).take(3 * n.0 as int) =~= i0.subrange(l, l + 3 * n.0));
    assert(xx.val(mem@).len() as int / 3 == n.0);
}
//@fn NTrytes.$U::wrap_$T mem=rw selfty=TritsT props=C08,C10
    requires self.ok(old(mem)@), self.b() != old(s).b(), self.b() != old(b).b(), can_wrap(*old(s), *old(b), old(mem)@, self.n as int),
    ensures wrapped(Mode::$U, *old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, self.val(old(mem)@)),
//@hint entry
proof { assert(self.slice_spec().val(mem@) =~= self.val(mem@)); }
//@fn NTrytes.$U::unwrap_$T mem=rw selfty=TritsT props=C08,C09,C10
    requires old(self).inv(old(mem)@), old(self).b() != old(s).b(), old(self).b() != old(b).b(), can_unwrap(*old(s), *old(b), old(mem)@),
    ensures *final(self) == *old(self), keptx(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, old(self).b()), r.is_ok() == (old(self).n <= old(b).len()),
        r.is_ok() ==> unwrappedx(Mode::$U, *old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, old(self).slice_mut_spec()),
//@fn NTrytes.$U::unwrap_$T_sized mem=rw selfty=TritsT props=C09
    ensures r.is_err(), *final(_s) == *old(_s), *final(_b) == *old(_b), final(mem)@ == old(mem)@,
//@fn Trytes.$U::wrap_$T mem=rw props=C08,C10
    requires self.0.ok(old(mem)@), self.0.n % 3 == 0, self.0.n / 3 <= size_max(), self.0.b() != old(s).b(), self.0.b() != old(b).b(), can_wrap(*old(s), *old(b), old(mem)@, s_trytes(self.0.val(old(mem)@)).len() as int),
    ensures wrapped(Mode::$U, *old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, s_trytes(self.0.val(old(mem)@))),
//@fn Trytes.$U::unwrap_$T mem=rw props=C08,C09,C10
    requires can_unwrap(*old(s), *old(b), old(mem)@),
    ensures kept(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@), r.is_err() ==> *final(self) == *old(self),
        r.is_ok() == exists|v: Seq<u8>| #[trigger] is_trytes(input(Mode::$U, *old(s), *old(b), old(mem)@), v),
        r.is_ok() ==> final(self).0.fresh(old(mem)@) && final(self).0.ok(final(mem)@) && is_trytes(input(Mode::$U, *old(s), *old(b), old(mem)@), final(self).0.val(final(mem)@))
            && unwrapped(Mode::$U, *old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, s_trytes(final(self).0.val(final(mem)@)).len() as int),
//@fn Trytes.$U::unwrap_$T_sized mem=rw props=C08,C09,C10
    requires can_unwrap(*old(s), *old(b), old(mem)@),
    ensures kept(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@),
        r.is_ok() == exists|v: Seq<u8>| #[trigger] is_trytes(input(Mode::$U, *old(s), *old(b), old(mem)@), v),
        r.is_ok() ==> (r->Ok_0).0.fresh(old(mem)@) && (r->Ok_0).0.ok(final(mem)@) && is_trytes(input(Mode::$U, *old(s), *old(b), old(mem)@), (r->Ok_0).0.val(final(mem)@))
            && unwrapped(Mode::$U, *old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, s_trytes((r->Ok_0).0.val(final(mem)@)).len() as int),
//@endfor
