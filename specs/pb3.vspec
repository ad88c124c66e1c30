//@module pb3::spec
//@deps mem trits::util trits::slice trits::trits spongos
//@map trits::Trint3 crate::trits::defs::Trint3
//@map trits::Trint6 crate::trits::defs::Trint6
//@map trits::Trint9 crate::trits::defs::Trint9
//@map trits::Trint18 crate::trits::defs::Trint18
//@map trits::mods3_usize crate::trits::util::mods3_usize
//@map trits::Trits crate::trits::trits::TritsT
//@map trits::Trits:: crate::trits::trits::TritsT::
//@prelude
use crate::mem::*;
use crate::trits::defs::*;
use crate::trits::util::*;
use crate::trits::b1t1::*;
use crate::trits::slice::*;
use crate::trits::trits::*;
use crate::spongos::*;
use crate::troika::*;

/// the two sponge modes of a field
pub enum Mode { Absorb, Mask }
/// the codeword of plain trits `v`
pub open spec fn wr_out(m: Mode, a: SP, v: Seq<u8>) -> Seq<u8> { match m { Mode::Absorb => v, Mode::Mask => sp_enc(a, v) } }
/// the plain trits of a codeword
pub open spec fn rd_out(m: Mode, a: SP, t: Seq<u8>) -> Seq<u8> { match m { Mode::Absorb => t, Mode::Mask => sp_dec(a, t) } }
pub open spec fn can_wrap(s: Spongos, b: TritSliceMutT, h: Heap, n: int) -> bool { s.inv(h) && b.inv(h) && b.b() != s.b() && 0 <= n <= b.len() }
pub open spec fn can_unwrap(s: Spongos, b: TritSliceT, h: Heap) -> bool { s.inv(h) && b.ok(h) && b.b() != s.b() }
/// plain trits `v` were wrapped: exactly their codeword is written, the buffer advances by its length
pub open spec fn wrapped(m: Mode, s0: Spongos, b0: TritSliceMutT, h0: Heap, s1: Spongos, b1: TritSliceMutT, h1: Heap, v: Seq<u8>) -> bool {
    s1.inv(h1) && s1.same(s0) && b1 == b0.s_drop(v.len() as int) && v.len() <= b0.len()
    && h1[b0.b()] == b0.put(h0, wr_out(m, s0.sp(h0), v))[b0.b()] && extends2(h0, h1, b0.b(), s0.b())
    && s1.sp(h1) == sp_absorb(s0.sp(h0), v)
}
pub open spec fn suffix(b0: TritSliceT, b1: TritSliceT) -> bool { b1.p == b0.p && b1.r.n == b0.r.n && b0.r.d <= b1.r.d <= b0.r.n }
/// whatever the outcome of unwrapping: valid sponge, the rest of the buffer, nothing else touched
pub open spec fn kept(s0: Spongos, b0: TritSliceT, h0: Heap, s1: Spongos, b1: TritSliceT, h1: Heap) -> bool {
    s1.inv(h1) && s1.same(s0) && suffix(b0, b1) && extends_but(h0, h1, s0.b())
}
/// the plain trits of the whole rest of the buffer
pub open spec fn input(m: Mode, s0: Spongos, b0: TritSliceT, h0: Heap) -> Seq<u8> { rd_out(m, s0.sp(h0), b0.val(h0)) }
/// `n` plain trits were unwrapped
pub open spec fn unwrapped(m: Mode, s0: Spongos, b0: TritSliceT, h0: Heap, s1: Spongos, b1: TritSliceT, h1: Heap, n: int) -> bool {
    kept(s0, b0, h0, s1, b1, h1) && 0 <= n <= b0.len() && b1 == b0.s_drop(n)
    && s1.sp(h1) == sp_absorb(s0.sp(h0), input(m, s0, b0, h0).take(n))
}
/// outcome of unwrapping into caller's storage `xb`
pub open spec fn keptx(s0: Spongos, b0: TritSliceT, h0: Heap, s1: Spongos, b1: TritSliceT, h1: Heap, xb: int) -> bool {
    s1.inv(h1) && s1.same(s0) && suffix(b0, b1) && extends2(h0, h1, s0.b(), xb) && h1[xb].len() == h0[xb].len()
}
pub open spec fn unwrappedx(m: Mode, s0: Spongos, b0: TritSliceT, h0: Heap, s1: Spongos, b1: TritSliceT, h1: Heap, x: TritSliceMutT) -> bool {
    keptx(s0, b0, h0, s1, b1, h1, x.b()) && x.len() <= b0.len() && b1 == b0.s_drop(x.len()) && s1.sp(h1) == sp_absorb(s0.sp(h0), input(m, s0, b0, h0).take(x.len()))
    && h1[x.b()] == x.put(h0, input(m, s0, b0, h0).take(x.len()))[x.b()]
}
pub open spec fn starts(x: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= x.len() && x.take(p.len() as int) == p }

/// wrapping and unwrapping traits (the bodies of `Wrap`/`Unwrap` implementations are under contract as inherent functions)
pub trait Wrap: Sized {
    spec fn mode(self) -> Mode;
    spec fn cur(self) -> Spongos;
    #[verifier::prophetic]
    spec fn fin(self) -> Spongos;
    fn wrap3(&mut self, b: &mut TritSliceMutT, d: i8, mem: &mut Mem)
        requires can_wrap(old(self).cur(), *old(b), old(mem)@, 3), -13 <= d <= 13,
        ensures final(self).fin() == old(self).fin(), final(self).mode() == old(self).mode(),
            wrapped(old(self).mode(), old(self).cur(), *old(b), old(mem)@, final(self).cur(), *final(b), final(mem)@, bt(3, d as int));
}
pub trait Unwrap: Sized {
    spec fn mode(self) -> Mode;
    spec fn cur(self) -> Spongos;
    #[verifier::prophetic]
    spec fn fin(self) -> Spongos;
    fn unwrap3(&mut self, b: &mut TritSliceT, mem: &mut Mem) -> (r: core::result::Result<i8, crate::pb3::err::Err>)
        requires can_unwrap(old(self).cur(), *old(b), old(mem)@),
        ensures final(self).fin() == old(self).fin(), final(self).mode() == old(self).mode(),
            kept(old(self).cur(), *old(b), old(mem)@, final(self).cur(), *final(b), final(mem)@),
            r.is_ok() == (old(b).len() >= 3),
            r.is_ok() ==> unwrapped(old(self).mode(), old(self).cur(), *old(b), old(mem)@, final(self).cur(), *final(b), final(mem)@, 3)
                && -13 <= (r->Ok_0) <= 13 && (r->Ok_0) as int == ival(input(old(self).mode(), old(self).cur(), *old(b), old(mem)@).take(3));
}

// ---- lemmas
/// masking absorbs the plain text
pub proof fn lemma_encr_absorb(a: SP, xs: Seq<u8>)
    ensures sp_encr(a, xs) == sp_absorb(a, xs),
    decreases xs.len(),
{ if xs.len() > 0 { assert(sp_step(Op::Encr, a, xs[0]) == sp_step(Op::Absorb, a, xs[0])); lemma_encr_absorb(sp_step(Op::Encr, a, xs[0]), xs.skip(1)); } }
/// so does unmasking
pub proof fn lemma_decr_absorb(a: SP, t: Seq<u8>)
    ensures sp_decr(a, t) == sp_absorb(a, sp_dec(a, t)),
    decreases t.len(),
{
    if t.len() > 0 {
        let d = sp_dec(a, t);
        let b = sp_step(Op::Decr, a, t[0]);
        lemma_decr_absorb(b, t.skip(1));
        assert(d.skip(1) =~= sp_dec(b, t.skip(1)));
        assert(d[0] == op_out(Op::Decr, t[0], a.w[a.pos]));
        assert(sp_step(Op::Absorb, a, d[0]) == b);
    }
}
pub proof fn lemma_wr_len(m: Mode, a: SP, v: Seq<u8>)
    ensures wr_out(m, a, v).len() == v.len(),
{ lemma_outs_len(Op::Encr, a, v); }
pub proof fn lemma_rd_len(m: Mode, a: SP, t: Seq<u8>)
    ensures rd_out(m, a, t).len() == t.len(),
{ lemma_outs_len(Op::Decr, a, t); }
pub proof fn lemma_rd_ok(m: Mode, a: SP, t: Seq<u8>)
    requires sp_ok(a), is_trits(t),
    ensures is_trits(rd_out(m, a, t)), rd_out(m, a, t).len() == t.len(),
{ lemma_run_ok(Op::Decr, a, t); }
/// the plain text of a prefix and of the rest
pub proof fn lemma_rd_split(m: Mode, a: SP, t: Seq<u8>, n: int)
    requires 0 <= n <= t.len(),
    ensures rd_out(m, a, t).take(n) == rd_out(m, a, t.take(n)), rd_out(m, a, t).skip(n) == rd_out(m, sp_absorb(a, rd_out(m, a, t.take(n))), t.skip(n)),
{
    assert(t =~= t.take(n) + t.skip(n));
    lemma_cat(Op::Decr, a, t.take(n), t.skip(n));
    lemma_outs_len(Op::Decr, a, t.take(n));
    lemma_decr_absorb(a, t.take(n));
    assert(rd_out(m, a, t).take(n) =~= rd_out(m, a, t.take(n)));
    assert(rd_out(m, a, t).skip(n) =~= rd_out(m, sp_absorb(a, rd_out(m, a, t.take(n))), t.skip(n)));
}
pub proof fn lemma_sp_same(s: Spongos, h1: Heap, h2: Heap)
    requires s.inv(h1), h2.dom().contains(s.b()), h1[s.b()] == h2[s.b()],
    ensures s.inv(h2), s.sp(h2) == s.sp(h1),
{ assert(s.sp(h2).w =~= s.sp(h1).w); }
pub proof fn lemma_val_same(b: TritSliceT, h1: Heap, h2: Heap)
    requires b.inv(h1), h2.dom().contains(b.b()), h1[b.b()] == h2[b.b()],
    ensures b.inv(h2), b.val(h2) == b.val(h1),
{}
pub proof fn lemma_wrapped_none(m: Mode, s: Spongos, b: TritSliceMutT, h: Heap)
    requires can_wrap(s, b, h, 0),
    ensures wrapped(m, s, b, h, s, b, h, Seq::empty()),
{
    let v = wr_out(m, s.sp(h), Seq::empty());
    assert(v =~= Seq::<u8>::empty());
    assert(b.put(h, v)[b.b()] =~= h[b.b()]);
}
/// two fields one after the other
pub proof fn lemma_wrapped_cat(m: Mode, s0: Spongos, b0: TritSliceMutT, h0: Heap, s1: Spongos, b1: TritSliceMutT, h1: Heap, s2: Spongos, b2: TritSliceMutT, h2: Heap, v: Seq<u8>, w: Seq<u8>)
    requires can_wrap(s0, b0, h0, 0), wrapped(m, s0, b0, h0, s1, b1, h1, v), wrapped(m, s1, b1, h1, s2, b2, h2, w),
    ensures wrapped(m, s0, b0, h0, s2, b2, h2, v + w),
{
    let a = s0.sp(h0);
    lemma_cat(Op::Absorb, a, v, w); lemma_cat(Op::Encr, a, v, w); lemma_encr_absorb(a, v);
    lemma_wr_len(m, a, v); lemma_wr_len(m, s1.sp(h1), w); lemma_wr_len(m, a, v + w);
    assert(wr_out(m, a, v + w) =~= wr_out(m, a, v) + wr_out(m, s1.sp(h1), w));
    assert(h2[b0.b()] =~= b0.put(h0, wr_out(m, a, v + w))[b0.b()]);
    assert forall|c: int| #[trigger] h0.dom().contains(c) implies h2.dom().contains(c) && (c != b0.b() && c != s0.b() ==> h2[c] == h0[c]) by { assert(h1.dom().contains(c)); }
}
/// what can be wrapped next
pub proof fn lemma_wrapped_next(m: Mode, s0: Spongos, b0: TritSliceMutT, h0: Heap, s1: Spongos, b1: TritSliceMutT, h1: Heap, v: Seq<u8>)
    requires can_wrap(s0, b0, h0, 0), wrapped(m, s0, b0, h0, s1, b1, h1, v),
    ensures can_wrap(s1, b1, h1, b0.len() - v.len()),
{ assert(h0.dom().contains(b0.b())); lemma_wr_len(m, s0.sp(h0), v); }
pub proof fn lemma_unwrapped_none(m: Mode, s: Spongos, b: TritSliceT, h: Heap)
    requires can_unwrap(s, b, h),
    ensures unwrapped(m, s, b, h, s, b, h, 0),
{ assert(input(m, s, b, h).take(0) =~= Seq::<u8>::empty()); }
/// what is left after unwrapping
pub proof fn lemma_unwrapped_next(m: Mode, s0: Spongos, b0: TritSliceT, h0: Heap, s1: Spongos, b1: TritSliceT, h1: Heap, n: int)
    requires can_unwrap(s0, b0, h0), unwrapped(m, s0, b0, h0, s1, b1, h1, n),
    ensures can_unwrap(s1, b1, h1), input(m, s1, b1, h1) == input(m, s0, b0, h0).skip(n), input(m, s0, b0, h0).len() == b0.len(), is_trits(input(m, s0, b0, h0)),
{
    let t = b0.val(h0);
    assert(h0.dom().contains(b0.b()));
    lemma_sp_ok(s0, h0);
    lemma_rd_ok(m, s0.sp(h0), t);
    lemma_rd_split(m, s0.sp(h0), t, n);
    assert(b1.val(h1) =~= t.skip(n));
    assert forall|i: int| 0 <= i < b1.val(h1).len() implies #[trigger] b1.val(h1)[i] < 3 by { assert(t[n + i] < 3); }
}
pub proof fn lemma_kept_next(s0: Spongos, b0: TritSliceT, h0: Heap, s1: Spongos, b1: TritSliceT, h1: Heap)
    requires can_unwrap(s0, b0, h0), kept(s0, b0, h0, s1, b1, h1),
    ensures can_unwrap(s1, b1, h1),
{
    let t = b0.val(h0);
    assert(h0.dom().contains(b0.b()));
    assert forall|i: int| 0 <= i < b1.val(h1).len() implies #[trigger] b1.val(h1)[i] < 3 by { assert(t[b1.r.d - b0.r.d + i] < 3); }
}
pub proof fn lemma_kept_cat(s0: Spongos, b0: TritSliceT, h0: Heap, s1: Spongos, b1: TritSliceT, h1: Heap, s2: Spongos, b2: TritSliceT, h2: Heap)
    requires kept(s0, b0, h0, s1, b1, h1), kept(s1, b1, h1, s2, b2, h2),
    ensures kept(s0, b0, h0, s2, b2, h2),
{ assert forall|c: int| #[trigger] h0.dom().contains(c) implies h2.dom().contains(c) && (c != s0.b() ==> h2[c] == h0[c]) by { assert(h1.dom().contains(c)); } }
pub proof fn lemma_unwrapped_cat(m: Mode, s0: Spongos, b0: TritSliceT, h0: Heap, s1: Spongos, b1: TritSliceT, h1: Heap, s2: Spongos, b2: TritSliceT, h2: Heap, n: int, k: int)
    requires can_unwrap(s0, b0, h0), unwrapped(m, s0, b0, h0, s1, b1, h1, n), unwrapped(m, s1, b1, h1, s2, b2, h2, k),
    ensures unwrapped(m, s0, b0, h0, s2, b2, h2, n + k),
{
    lemma_kept_cat(s0, b0, h0, s1, b1, h1, s2, b2, h2);
    lemma_unwrapped_next(m, s0, b0, h0, s1, b1, h1, n);
    let i = input(m, s0, b0, h0);
    lemma_cat(Op::Absorb, s0.sp(h0), i.take(n), i.skip(n).take(k));
    assert(i.take(n) + i.skip(n).take(k) =~= i.take(n + k));
}
/// C08: a reader in the writer's state that finds the codeword sees the plain text
pub proof fn lemma_read_written(m: Mode, a: SP, v: Seq<u8>, s: Spongos, b: TritSliceT, h: Heap)
    requires sp_ok(a), is_trits(v), can_unwrap(s, b, h), s.sp(h) == a, starts(b.val(h), wr_out(m, a, v)),
    ensures starts(input(m, s, b, h), v),
{
    lemma_wr_len(m, a, v);
    lemma_rd_len(m, a, b.val(h));
    lemma_rd_split(m, a, b.val(h), v.len() as int);
    lemma_decr_encr(a, v);
}
//@end
