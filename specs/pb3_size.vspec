//@module pb3::typ::size
//@file pb3/typ/size.rs
//@deps mem trits::util trits::slice trits::trits spongos pb3::spec pb3::err pb3::cmd::absorb pb3::cmd::mask
//@struct Size derive(Clone, Copy)
//@prelude
use crate::mem::*;
use crate::trits::defs::*;
use crate::trits::util::*;
use crate::trits::b1t1::*;
use crate::trits::slice::*;
use crate::trits::trits::*;
use crate::spongos::*;
use crate::pb3::spec::*;
use crate::pb3::err::{Err, Result, guard};
use crate::pb3::cmd::absorb::*;
use crate::pb3::cmd::mask::*;

/// number of trytes of a size
pub open spec fn ntr(n: int, d: int) -> int decreases 13 - d { if d >= 13 || n <= half3((3 * d) as nat) { d } else { ntr(n, d + 1) } }
pub open spec fn nt(n: int) -> int { ntr(n, 0) }
pub open spec fn size_max() -> int { 2_026_277_576_509_488_133 }
/// C07: the one encoding of a size
pub open spec fn s_size(n: int) -> Seq<u8> { bt(3, nt(n)) + bt((3 * nt(n)) as nat, n) }
/// how a size is read
pub open spec fn tail_ok(v: Seq<u8>) -> bool { v.len() == 0 || ival(v.skip(v.len() - 3)) > 0 }
pub open spec fn s_d(x: Seq<u8>) -> int { ival(x.take(3)) }
pub open spec fn s_dec(x: Seq<u8>) -> bool { x.len() >= 3 && 0 <= s_d(x) <= 13 && x.len() >= 3 + 3 * s_d(x) && tail_ok(x.subrange(3, 3 + 3 * s_d(x))) }
pub open spec fn s_val(x: Seq<u8>) -> int { ival(x.subrange(3, 3 + 3 * s_d(x))) }
pub open spec fn is_size(x: Seq<u8>, n: int) -> bool { 0 <= n <= size_max() && starts(x, s_size(n)) }

pub proof fn lemma_halfs()
    ensures half3(0) == 0, half3(3) == 13, half3(36) == 75_047_317_648_499_560, half3(39) == size_max(), pow3(0) == 1, pow3(36) == 150_094_635_296_999_121,
{
    assert(half3(0) == 0) by(compute); assert(half3(3) == 13) by(compute); assert(half3(36) == 75_047_317_648_499_560) by(compute);
    assert(half3(39) == 2_026_277_576_509_488_133) by(compute); assert(pow3(36) == 150_094_635_296_999_121) by(compute);
}
pub proof fn lemma_pow_step(d: int)
    requires d >= 0,
    ensures pow3((3 * (d + 1)) as nat) == 27 * pow3((3 * d) as nat), pow3((3 * d) as nat) >= 1, half3((3 * d) as nat) * 2 + 1 == pow3((3 * d) as nat),
        half3((3 * (d + 1)) as nat) == 27 * half3((3 * d) as nat) + 13,
{
    let k = (3 * d) as nat;
    lemma_half3(k); lemma_half3((k + 1) as nat); lemma_half3((k + 2) as nat); lemma_half3((k + 3) as nat);
    reveal_with_fuel(pow3, 4);
    assert((3 * (d + 1)) as nat == (k + 3) as nat);
}
pub proof fn lemma_half_mono(d: int, e: int)
    requires 0 <= d <= e,
    ensures half3((3 * d) as nat) <= half3((3 * e) as nat), pow3((3 * d) as nat) <= pow3((3 * e) as nat), half3((3 * d) as nat) >= 0,
    decreases e - d,
{ lemma_pow_step(d); if d < e { lemma_pow_step(e - 1); lemma_half_mono(d, e - 1); } }
/// the least number of trytes
pub proof fn lemma_ntr(n: int, d: int)
    requires 0 <= d <= 13, 0 <= n <= size_max(),
    ensures d <= ntr(n, d) <= 13, n <= half3((3 * ntr(n, d)) as nat), forall|e: int| d <= e < ntr(n, d) ==> n > #[trigger] half3((3 * e) as nat),
    decreases 13 - d,
{
    lemma_halfs();
    if !(d >= 13 || n <= half3((3 * d) as nat)) { lemma_ntr(n, d + 1); }
}
pub proof fn lemma_nt_unique(n: int, d: int)
    requires 0 <= d <= 13, 0 <= n <= half3((3 * d) as nat), d > 0 ==> n > half3((3 * (d - 1)) as nat),
    ensures nt(n) == d, n <= size_max(),
{
    lemma_half_mono(d, 13); lemma_halfs();
    lemma_ntr(n, 0);
    if nt(n) < d { lemma_half_mono(nt(n), d - 1); }
}
pub proof fn lemma_size_len(n: int)
    requires 0 <= n <= size_max(),
    ensures 0 <= nt(n) <= 13, s_size(n).len() == 3 * (nt(n) + 1), is_trits(s_size(n)),
{ lemma_ntr(n, 0); lemma_bt_len(3, nt(n)); lemma_bt_len((3 * nt(n)) as nat, n); }
/// the leading tryte is positive exactly when the number of trytes is the least
pub proof fn lemma_top(v: Seq<u8>, d: int)
    requires v.len() == 3 * d, d > 0, is_trits(v),
    ensures ival(v.skip(3 * d - 3)) > 0 <==> ival(v) > half3((3 * (d - 1)) as nat),
        -half3((3 * d) as nat) <= ival(v) <= half3((3 * d) as nat),
{
    let k = 3 * d - 3;
    let lo = v.take(k); let hi = v.skip(k);
    assert(v =~= lo + hi);
    assert forall|i: int| 0 <= i < lo.len() implies #[trigger] lo[i] < 3 by { assert(v[i] < 3); }
    assert forall|i: int| 0 <= i < hi.len() implies #[trigger] hi[i] < 3 by { assert(v[k + i] < 3); }
    lemma_ival_cat(lo, hi);
    lemma_bt_ival(lo); lemma_bt_ival(v);
    let p = pow3(k as nat); let h = half3(k as nat); let t = ival(hi); let a = ival(lo);
    assert(k == 3 * (d - 1));
    lemma_pow_step(d - 1);
    assert(p == 2 * h + 1 && -h <= a <= h);
    if t > 0 { assert(p * t >= p) by(nonlinear_arith) requires t >= 1, p >= 1; } else { assert(p * t <= 0) by(nonlinear_arith) requires t <= 0, p >= 1; }
}
/// C07: exactly the canonical encodings are accepted, and the value is the encoded one
pub proof fn lemma_size_dec(x: Seq<u8>)
    requires is_trits(x),
    ensures s_dec(x) <==> exists|n: int| #[trigger] is_size(x, n), forall|n: int| #[trigger] is_size(x, n) ==> s_val(x) == n && 3 + 3 * s_d(x) == s_size(n).len(),
        s_dec(x) ==> is_size(x, s_val(x)),
{
    assert forall|n: int| #[trigger] is_size(x, n) implies s_dec(x) && s_val(x) == n && 3 + 3 * s_d(x) == s_size(n).len() by {
        let d = nt(n);
        lemma_size_len(n); lemma_halfs(); lemma_ntr(n, 0);
        let w = s_size(n);
        lemma_bt_len(3, d); lemma_bt_len((3 * d) as nat, n);
        lemma_ival_bt(3, d); lemma_half_mono(d, 13); lemma_half_mono(0, d);
        lemma_ival_bt((3 * d) as nat, n);
        assert(x.take(3) =~= w.take(3)) by { assert(x.take(3) =~= x.take(w.len() as int).take(3)); }
        assert(w.take(3) =~= bt(3, d));
        let v = x.subrange(3, 3 + 3 * d);
        assert(v =~= x.take(w.len() as int).skip(3));
        assert(w.skip(3) =~= bt((3 * d) as nat, n));
        if d > 0 { lemma_top(v, d); }
    }
    if s_dec(x) {
        let d = s_d(x);
        let v = x.subrange(3, 3 + 3 * d);
        let n = ival(v);
        let h = x.take(3);
        assert forall|i: int| 0 <= i < h.len() implies #[trigger] h[i] < 3 by { assert(x[i] < 3); }
        assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] < 3 by { assert(x[3 + i] < 3); }
        lemma_bt_ival(h); lemma_bt_ival(v); lemma_halfs();
        if d > 0 { lemma_top(v, d); lemma_half_mono(0, d - 1); } else { assert(v =~= Seq::<u8>::empty()); }
        lemma_nt_unique(n, d);
        assert(x.take(3 + 3 * d) =~= h + v);
        assert(is_size(x, n));
    }
}
/// C07: sizes are encoded injectively
pub proof fn lemma_size_inj(x: Seq<u8>, n: int, k: int)
    requires is_trits(x), is_size(x, n), is_size(x, k),
    ensures n == k,
{ lemma_size_dec(x); }
//@end
//@fn size_trytes props=C07,C08,C10
    requires n <= size_max(),
    ensures r == nt(n as int), r <= 13,
//@hint entry
proof { lemma_halfs(); lemma_ntr(n as int, 0); lemma_pow_step(0); assert forall|e: int| 0 <= e <= 12 implies #[trigger] half3((3 * e) as nat) <= half3(36) by { lemma_half_mono(e, 12); } assert(half3((3 * 12int) as nat) == half3(36)); }
//@loop 0
    invariant n <= 75_047_317_648_499_560, d <= 12, m == pow3((3 * d) as nat), m >= 1, ntr(n as int, 0) == ntr(n as int, d as int), half3(36) == 75_047_317_648_499_560,
    decreases 12 - d,
//@hint loop 0 start
proof {
    lemma_pow_step(d as int);
    if d >= 12 { assert((3 * d) as nat == 36); assert(false); }
    lemma_half_mono(d + 1, 12); lemma_halfs();
}
//@hint exit
proof { lemma_pow_step(d as int); }
//@fn sizeof_sizet props=C07,C08,C10
    requires n <= size_max(),
    ensures r == s_size(n as int).len(),
//@hint entry
proof { lemma_size_len(n as int); }
//@fn Size::sizeof props=C07,C08,C10
    requires self.0 <= size_max(),
    ensures r == s_size(self.0 as int).len(),
//@fn Size::wrap_head mem=rw props=C07,C08,C10
    requires can_wrap(old(w).cur(), *old(b), old(mem)@, 3), d <= 13,
    ensures final(w).fin() == old(w).fin(), final(w).mode() == old(w).mode(),
        wrapped(old(w).mode(), old(w).cur(), *old(b), old(mem)@, final(w).cur(), *final(b), final(mem)@, bt(3, d as int)),
//@fn Size::wrap_tail mem=rw props=C07,C08,C10
    requires can_wrap(old(w).cur(), *old(b), old(mem)@, 3 * d), d <= 13, n <= size_max(),
    ensures final(w).fin() == old(w).fin(), final(w).mode() == old(w).mode(),
        wrapped(old(w).mode(), old(w).cur(), *old(b), old(mem)@, final(w).cur(), *final(b), final(mem)@, bt((3 * d) as nat, n as int)),
//@hint entry
let ghost w0 = *w;
let ghost b0 = *b;
let ghost h0 = mem@;
let ghost mut done = Seq::<u8>::empty();
proof { lemma_wrapped_none(w.mode(), w.cur(), *b, mem@); assert(done + bt((3 * d) as nat, n as int) =~= bt((3 * d) as nat, n as int)); }
//@loop 0
    invariant end0 == d, it0 <= d, 0 <= d <= 13, n <= size_max(), n_m <= size_max(), can_wrap(w0.cur(), b0, h0, 3 * d), w.fin() == w0.fin(), w.mode() == w0.mode(),
        wrapped(w0.mode(), w0.cur(), b0, h0, w.cur(), *b, mem@, done), done.len() == 3 * it0, done + bt((3 * (d - it0)) as nat, n_m as int) == bt((3 * d) as nat, n as int),
    decreases end0 - it0,
//@hint loop 0 start
let ghost w1 = *w;
let ghost b1 = *b;
let ghost h1 = mem@;
let ghost nn = n_m;
proof { lemma_wrapped_next(w0.mode(), w0.cur(), b0, h0, w1.cur(), b1, h1, done); lemma_halfs(); }
//@hint after wrap3 0
proof {
    let k = (3 * (d - it0)) as nat;
    assert(pow3(3) == 27) by(compute);
    assert(half3(3) == 13) by(compute);
    assert(nn as int == r as int + 27 * (q as int));
    assert(r as int + pow3(3) * (q as int) == nn as int);
    lemma_bt_split(3, k, r as int, q as int);
    assert((3 + k) as nat == (3 * (d - (it0 - 1))) as nat);
    assert(bt((3 + k) as nat, nn as int) == bt(3, r as int) + bt(k, q as int));
    assert(done + bt((3 + k) as nat, nn as int) == bt((3 * d) as nat, n as int));
    lemma_wrapped_cat(w0.mode(), w0.cur(), b0, h0, w1.cur(), b1, h1, w.cur(), *b, mem@, done, bt(3, r as int));
    assert(done + (bt(3, r as int) + bt(k, q as int)) =~= (done + bt(3, r as int)) + bt(k, q as int));
    lemma_bt_len(3, r as int);
    done = done + bt(3, r as int);
}
//@hint loop 0 post
proof { assert(done + bt(0, n_m as int) =~= done); assert((3 * (d - it0)) as nat == 0); }
//@fn Size::wrap mem=rw props=C07,C08,C10
    requires self.0 <= size_max(), can_wrap(old(w).cur(), *old(b), old(mem)@, s_size(self.0 as int).len() as int),
    ensures final(w).fin() == old(w).fin(), final(w).mode() == old(w).mode(),
        wrapped(old(w).mode(), old(w).cur(), *old(b), old(mem)@, final(w).cur(), *final(b), final(mem)@, s_size(self.0 as int)),
//@hint entry
let ghost w0 = *w;
let ghost b0 = *b;
let ghost h0 = mem@;
proof { lemma_size_len(self.0 as int); }
//@hint after wrap_head 0
let ghost w1 = *w;
let ghost b1 = *b;
let ghost h1 = mem@;
proof { lemma_bt_len(3, d as int); lemma_wrapped_next(w0.mode(), w0.cur(), b0, h0, w1.cur(), b1, h1, bt(3, d as int)); }
//@hint after wrap_tail 0
proof { lemma_wrapped_cat(w0.mode(), w0.cur(), b0, h0, w1.cur(), b1, h1, w.cur(), *b, mem@, bt(3, d as int), bt((3 * d) as nat, n as int)); }
//@fn Size::unwrap_head mem=rw props=C07,C08,C09,C10
    requires can_unwrap(old(w).cur(), *old(b), old(mem)@),
    ensures final(w).fin() == old(w).fin(), final(w).mode() == old(w).mode(), kept(old(w).cur(), *old(b), old(mem)@, final(w).cur(), *final(b), final(mem)@),
        r.is_ok() == ({ let x = input(old(w).mode(), old(w).cur(), *old(b), old(mem)@); x.len() >= 3 && 0 <= s_d(x) <= 13 }),
        r.is_ok() ==> unwrapped(old(w).mode(), old(w).cur(), *old(b), old(mem)@, final(w).cur(), *final(b), final(mem)@, 3)
            && (r->Ok_0) as int == s_d(input(old(w).mode(), old(w).cur(), *old(b), old(mem)@)),
//@hint entry
proof { lemma_unwrapped_none(w.mode(), w.cur(), *b, mem@); lemma_unwrapped_next(w.mode(), w.cur(), *b, mem@, w.cur(), *b, mem@, 0); }
//@fn Size::unwrap_tail mem=rw props=C07,C08,C09,C10
    requires can_unwrap(old(w).cur(), *old(b), old(mem)@), d <= 13,
    ensures final(w).fin() == old(w).fin(), final(w).mode() == old(w).mode(), kept(old(w).cur(), *old(b), old(mem)@, final(w).cur(), *final(b), final(mem)@),
        r.is_ok() == ({ let x = input(old(w).mode(), old(w).cur(), *old(b), old(mem)@); x.len() >= 3 * d && tail_ok(x.take(3 * d)) }),
        r.is_ok() ==> unwrapped(old(w).mode(), old(w).cur(), *old(b), old(mem)@, final(w).cur(), *final(b), final(mem)@, 3 * d)
            && (r->Ok_0) as int == ival(input(old(w).mode(), old(w).cur(), *old(b), old(mem)@).take(3 * d)),
//@hint entry
let ghost w0 = *w;
let ghost b0 = *b;
let ghost h0 = mem@;
let ghost x = input(w.mode(), w.cur(), *b, mem@);
let ghost md = w.mode();
let ghost mut k: int = 0;
let ghost mut w1 = *w;
let ghost mut b1 = *b;
let ghost mut h1 = mem@;
proof {
    lemma_unwrapped_none(md, w.cur(), *b, mem@); lemma_unwrapped_next(md, w.cur(), *b, mem@, w.cur(), *b, mem@, 0); lemma_halfs();
    assert(x.take(0) =~= Seq::<u8>::empty());
}
//@hint after unwrap3 0
proof {
    assert(b0.len() >= 3);
    lemma_unwrapped_next(md, w0.cur(), b0, h0, w.cur(), *b, mem@, 3);
    k = 1;
    assert(x.skip(0) =~= x);
    assert(x.take(3).skip(0) =~= x.take(3));
}
//@loop 0
    invariant 0 <= d_m, d_m + k == d, d <= 13, 1 <= k, w.mode() == md, md == w0.mode(), w.fin() == w0.fin(), can_unwrap(w0.cur(), b0, h0), x == input(md, w0.cur(), b0, h0), x.len() == b0.len(), is_trits(x), 3 * d <= b0.len(),
        unwrapped(md, w0.cur(), b0, h0, w.cur(), *b, mem@, 3 * k), r == pow3((3 * (k - 1)) as nat), m as int == ival(x.take(3 * k)), -half3((3 * k) as nat) <= m <= half3((3 * k) as nat),
        t as int == ival(x.take(3 * k).skip(3 * k - 3)),
    decreases d_m,
//@hint loop 0 start
proof {
    w1 = *w; b1 = *b; h1 = mem@;
    lemma_unwrapped_next(md, w0.cur(), b0, h0, w1.cur(), b1, h1, 3 * k);
    lemma_pow_step(k - 1); lemma_half_mono(k, 12); lemma_half_mono(k - 1, 12); lemma_halfs();
    assert((3 * 12int) as nat == 36);
    lemma_half_mono(k + 1, 13);
    assert((3 * 13int) as nat == 39);
}
//@hint after unwrap3 1
proof {
    lemma_unwrapped_cat(md, w0.cur(), b0, h0, w1.cur(), b1, h1, w.cur(), *b, mem@, 3 * k, 3);
    let lo = x.take(3 * k); let hi = x.skip(3 * k).take(3);
    assert(x.take(3 * k + 3) =~= lo + hi);
    assert(x.take(3 * k + 3).skip(3 * k) =~= hi);
    lemma_ival_cat(lo, hi);
    let y = x.take(3 * k + 3);
    assert forall|i: int| 0 <= i < y.len() implies #[trigger] y[i] < 3 by { assert(x[i] < 3); }
    lemma_bt_ival(y);
    let p = pow3((3 * k) as nat);
    assert(lo.len() == 3 * k);
    assert(p * t <= p * 13 && -(p * 13) <= p * t) by(nonlinear_arith) requires -13 <= t <= 13, p >= 1;
    assert((3 * (k + 1)) as nat == (3 * k + 3) as nat);
    k = k + 1;
}
//@hint loop 0 post
proof {
    let v = x.take(3 * d);
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] < 3 by { assert(x[i] < 3); }
    assert(k == d);
    lemma_top(v, d as int); lemma_half_mono(0, d - 1); lemma_half_mono(d as int, 13); lemma_halfs();
    assert((3 * 13int) as nat == 39);
}
//@hint exit
proof { if d == 0 { assert(x.take(0) =~= Seq::<u8>::empty()); } }
//@fn Size::unwrap mem=rw props=C07,C08,C09,C10
    requires can_unwrap(old(w).cur(), *old(b), old(mem)@),
    ensures final(w).fin() == old(w).fin(), final(w).mode() == old(w).mode(), kept(old(w).cur(), *old(b), old(mem)@, final(w).cur(), *final(b), final(mem)@),
        r.is_ok() == s_dec(input(old(w).mode(), old(w).cur(), *old(b), old(mem)@)),
        r.is_ok() ==> ({ let x = input(old(w).mode(), old(w).cur(), *old(b), old(mem)@);
            unwrapped(old(w).mode(), old(w).cur(), *old(b), old(mem)@, final(w).cur(), *final(b), final(mem)@, 3 + 3 * s_d(x)) && (r->Ok_0).0 as int == s_val(x) }),
//@hint entry
let ghost w0 = *w;
let ghost b0 = *b;
let ghost h0 = mem@;
let ghost x = input(w.mode(), w.cur(), *b, mem@);
let ghost md = w.mode();
proof { lemma_unwrapped_none(md, w.cur(), *b, mem@); lemma_unwrapped_next(md, w.cur(), *b, mem@, w.cur(), *b, mem@, 0); }
//@hint let d 0
let ghost w1 = *w;
let ghost b1 = *b;
let ghost h1 = mem@;
proof {
    lemma_unwrapped_next(md, w0.cur(), b0, h0, w1.cur(), b1, h1, 3);
    if x.len() >= 3 + 3 * d { assert(x.skip(3).take(3 * d as int) =~= x.subrange(3, 3 + 3 * d)); }
    assert forall|s: Spongos, bb: TritSliceT, hh: Heap| kept(w1.cur(), b1, h1, s, bb, hh) implies kept(w0.cur(), b0, h0, s, bb, hh) by { lemma_kept_cat(w0.cur(), b0, h0, w1.cur(), b1, h1, s, bb, hh); }
}
//@hint exit
proof { lemma_unwrapped_cat(md, w0.cur(), b0, h0, w1.cur(), b1, h1, w.cur(), *b, mem@, 3, 3 * d as int); }
//@foreach absorb|Absorb mask|Mask
//@fn Size.$U::wrap_$T mem=rw props=C07,C08,C10
    requires self.0 <= size_max(), can_wrap(*old(s), *old(b), old(mem)@, s_size(self.0 as int).len() as int),
    ensures wrapped(Mode::$U, *old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, s_size(self.0 as int)),
//@fn Size.$U::unwrap_$T_sized mem=rw props=C07,C08,C09,C10
    requires can_unwrap(*old(s), *old(b), old(mem)@),
    ensures kept(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@),
        r.is_ok() == exists|n: int| #[trigger] is_size(input(Mode::$U, *old(s), *old(b), old(mem)@), n),
        r.is_ok() ==> is_size(input(Mode::$U, *old(s), *old(b), old(mem)@), (r->Ok_0).0 as int)
            && unwrapped(Mode::$U, *old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, s_size((r->Ok_0).0 as int).len() as int),
//@hint entry
proof {
    lemma_unwrapped_none(Mode::$U, *s, *b, mem@); lemma_unwrapped_next(Mode::$U, *s, *b, mem@, *s, *b, mem@, 0);
    lemma_size_dec(input(Mode::$U, *s, *b, mem@));
}
//@fn $U::unwrap_$T from=pb3::cmd::$T selfty=Size mem=rw props=C07,C08,C09,C10
    requires can_unwrap(*old(s), *old(b), old(mem)@),
    ensures kept(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@),
        r.is_ok() == exists|n: int| #[trigger] is_size(input(Mode::$U, *old(s), *old(b), old(mem)@), n), r.is_err() ==> *final(self) == *old(self),
        r.is_ok() ==> is_size(input(Mode::$U, *old(s), *old(b), old(mem)@), final(self).0 as int)
            && unwrapped(Mode::$U, *old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, s_size(final(self).0 as int).len() as int),
//@endfor
