//@module pb3::msg
//@deps mem trits::util trits::slice trits::trits spongos pb3::spec pb3::err pb3::typ::size pb3::typ::trytes
//@map impl:Fn(TritSlice)->Option<(Spongos, gen:crate::pb3::msg::Lookup<$T>
//@map pb3::sizeof_tryte crate::pb3::typ::trint::sizeof_tryte
//@map pb3::sizeof_trytes crate::pb3::typ::trytes::sizeof_trytes
//@map pb3::sizeof_ntrytes crate::pb3::typ::trytes::sizeof_ntrytes
//@map pb3::sizeof_oneof crate::pb3::typ::oneof::sizeof_oneof
//@map pb3::sizeof_repeated crate::pb3::typ::repeated::sizeof_repeated
//@map pb3::tryte crate::pb3::typ::trint::tryte
//@map pb3::oneof crate::pb3::typ::oneof::oneof
//@map pb3::repeated crate::pb3::typ::repeated::repeated
//@map pb3::Tryte:: crate::pb3::typ::trint::Trint3::
//@map pb3::Trytes crate::pb3::typ::trytes::Trytes
//@map pb3::Trytes:: crate::pb3::typ::trytes::Trytes::
//@map pb3::Repeated:: crate::pb3::typ::size::Size::
//@map pb3::wrap_absorb_trits crate::pb3::typ::trytes::wrap_absorb_trits
//@map pb3::unwrap_absorb_n crate::pb3::typ::trytes::unwrap_absorb_n
//@map pb3::join:: crate::pb3::cmd::join::
//@map pb3::mac:: crate::pb3::cmd::mac::
//@map pb3::mssig:: crate::pb3::cmd::mssig::
//@map pb3::ntrukem:: crate::pb3::cmd::ntrukem::
//@prelude
use crate::mem::*;
use crate::trits::defs::*;
use crate::trits::util::*;
use crate::trits::b1t1::*;
use crate::trits::slice::*;
use crate::trits::trits::*;
use crate::spongos::*;
use crate::pb3::spec::*;
use crate::pb3::typ::size::*;
use crate::pb3::typ::trytes::*;

/// every allocation of `h1` outside `z` is kept
pub open spec fn ext_s(h1: Heap, h2: Heap, z: Set<int>) -> bool { forall|c: int| #[trigger] h1.dom().contains(c) ==> h2.dom().contains(c) && (!z.contains(c) ==> h2[c] == h1[c]) }
/// `o` was written, the sponge went to the state `e`
pub open spec fn wrote(s0: Spongos, b0: TritSliceMutT, h0: Heap, s1: Spongos, b1: TritSliceMutT, h1: Heap, o: Seq<u8>, e: SP, z: Set<int>) -> bool {
    s1.inv(h1) && s1.same(s0) && b1 == b0.s_drop(o.len() as int) && o.len() <= b0.len() && h1[b0.b()] == b0.put(h0, o)[b0.b()] && ext_s(h0, h1, z) && s1.sp(h1) == e
}
/// `n` trits were read, the sponge went to the state `e`
pub open spec fn read(s0: Spongos, b0: TritSliceT, h0: Heap, s1: Spongos, b1: TritSliceT, h1: Heap, n: int, e: SP) -> bool {
    kept(s0, b0, h0, s1, b1, h1) && 0 <= n <= b0.len() && b1 == b0.s_drop(n) && s1.sp(h1) == e
}
/// values that live in allocations
pub trait Info: Sized {
    spec fn iok(&self, h: Heap) -> bool;
    spec fn iv(&self, h: Heap) -> Seq<u8>;
    /// not in block `b`
    spec fn off(&self, b: int) -> bool;
    proof fn lemma_info(&self, h1: Heap, h2: Heap, z: Set<int>)
        requires self.iok(h1), forall|b: int| z.contains(b) ==> #[trigger] self.off(b), ext_s(h1, h2, z),
        ensures self.iok(h2), self.iv(h2) == self.iv(h1);
}
impl Info for () {
    open spec fn iok(&self, h: Heap) -> bool { true }
    open spec fn iv(&self, h: Heap) -> Seq<u8> { Seq::empty() }
    open spec fn off(&self, b: int) -> bool { true }
    proof fn lemma_info(&self, h1: Heap, h2: Heap, z: Set<int>) {}
}
/// the caller's lookup of linked messages: a fixed function of the identifier
pub trait Lookup<T: Info>: Sized {
    spec fn known(&self, id: Seq<u8>) -> bool;
    spec fn state(&self, id: Seq<u8>) -> SP;
    spec fn info(&self, id: Seq<u8>) -> Seq<u8>;
    fn lookup(&self, id: TritSliceT, mem: &mut Mem) -> (r: Option<(Spongos, T)>)
        requires id.ok(old(mem)@),
        ensures extends(old(mem)@, final(mem)@), r.is_some() == self.known(id.val(old(mem)@)),
            r.is_some() ==> ({ let (j, t) = r.unwrap(); let v = id.val(old(mem)@);
                &&& j.inv(final(mem)@) && !old(mem)@.dom().contains(j.b()) && j.sp(final(mem)@) == self.state(v)
                &&& t.iok(final(mem)@) && t.iv(final(mem)@) == self.info(v) && t.off(j.b()) && forall|c: int| old(mem)@.dom().contains(c) ==> #[trigger] t.off(c) });
}

pub proof fn lemma_ext_s(h0: Heap, h1: Heap, h2: Heap, z: Set<int>)
    requires ext_s(h0, h1, z), ext_s(h1, h2, z),
    ensures ext_s(h0, h2, z),
{ assert forall|c: int| #[trigger] h0.dom().contains(c) implies h2.dom().contains(c) && (!z.contains(c) ==> h2[c] == h0[c]) by { assert(h1.dom().contains(c)); } }
pub proof fn lemma_ext_s2(h0: Heap, h1: Heap, a: int, b: int, z: Set<int>)
    requires extends2(h0, h1, a, b) || extends_but(h0, h1, a) || extends(h0, h1), z.contains(a), z.contains(b),
    ensures ext_s(h0, h1, z),
{ assert forall|c: int| #[trigger] h0.dom().contains(c) implies h1.dom().contains(c) && (!z.contains(c) ==> h1[c] == h0[c]) by { } }
pub proof fn lemma_val_ext(x: TritSliceT, h0: Heap, h1: Heap, z: Set<int>)
    requires x.ok(h0), ext_s(h0, h1, z), !z.contains(x.b()),
    ensures x.ok(h1), x.val(h1) == x.val(h0),
{ assert(h0.dom().contains(x.b())); }
pub proof fn lemma_wrote(m: Mode, s0: Spongos, b0: TritSliceMutT, h0: Heap, s1: Spongos, b1: TritSliceMutT, h1: Heap, v: Seq<u8>, z: Set<int>)
    requires wrapped(m, s0, b0, h0, s1, b1, h1, v), z.contains(s0.b()), z.contains(b0.b()),
    ensures wrote(s0, b0, h0, s1, b1, h1, wr_out(m, s0.sp(h0), v), sp_absorb(s0.sp(h0), v), z),
{ lemma_wr_len(m, s0.sp(h0), v); lemma_ext_s2(h0, h1, s0.b(), b0.b(), z); }
pub proof fn lemma_wrote_cat(s0: Spongos, b0: TritSliceMutT, h0: Heap, s1: Spongos, b1: TritSliceMutT, h1: Heap, s2: Spongos, b2: TritSliceMutT, h2: Heap, o: Seq<u8>, e: SP, o2: Seq<u8>, e2: SP, z: Set<int>)
    requires can_wrap(s0, b0, h0, 0), wrote(s0, b0, h0, s1, b1, h1, o, e, z), wrote(s1, b1, h1, s2, b2, h2, o2, e2, z),
    ensures wrote(s0, b0, h0, s2, b2, h2, o + o2, e2, z),
{
    lemma_ext_s(h0, h1, h2, z);
    assert(h2[b0.b()] =~= b0.put(h0, o + o2)[b0.b()]);
}
pub proof fn lemma_wrote_next(s0: Spongos, b0: TritSliceMutT, h0: Heap, s1: Spongos, b1: TritSliceMutT, h1: Heap, o: Seq<u8>, e: SP, z: Set<int>)
    requires can_wrap(s0, b0, h0, 0), wrote(s0, b0, h0, s1, b1, h1, o, e, z),
    ensures can_wrap(s1, b1, h1, b0.len() - o.len()), s1.sp(h1) == e,
{ assert(h0.dom().contains(b0.b())); }
pub proof fn lemma_read(m: Mode, s0: Spongos, b0: TritSliceT, h0: Heap, s1: Spongos, b1: TritSliceT, h1: Heap, n: int)
    requires unwrapped(m, s0, b0, h0, s1, b1, h1, n),
    ensures read(s0, b0, h0, s1, b1, h1, n, sp_absorb(s0.sp(h0), input(m, s0, b0, h0).take(n))),
{}
pub proof fn lemma_read_cat(s0: Spongos, b0: TritSliceT, h0: Heap, s1: Spongos, b1: TritSliceT, h1: Heap, s2: Spongos, b2: TritSliceT, h2: Heap, n: int, e: SP, n2: int, e2: SP)
    requires read(s0, b0, h0, s1, b1, h1, n, e), read(s1, b1, h1, s2, b2, h2, n2, e2),
    ensures read(s0, b0, h0, s2, b2, h2, n + n2, e2),
{ lemma_kept_cat(s0, b0, h0, s1, b1, h1, s2, b2, h2); }
/// what is left to read, and that a failure later keeps what a failure now would
pub proof fn lemma_read_next(s0: Spongos, b0: TritSliceT, h0: Heap, s1: Spongos, b1: TritSliceT, h1: Heap, n: int, e: SP)
    requires can_unwrap(s0, b0, h0), read(s0, b0, h0, s1, b1, h1, n, e),
    ensures can_unwrap(s1, b1, h1), b1.val(h1) == b0.val(h0).skip(n), s1.sp(h1) == e, s1.b() == s0.b(), ext_s(h0, h1, set![s0.b()]),
        forall|s: Spongos, bb: TritSliceT, hh: Heap| kept(s1, b1, h1, s, bb, hh) ==> #[trigger] kept(s0, b0, h0, s, bb, hh),
{
    lemma_kept_next(s0, b0, h0, s1, b1, h1);
    lemma_ext_s2(h0, h1, s0.b(), s0.b(), set![s0.b()]);
    assert(h0.dom().contains(b0.b()));
    assert(b1.val(h1) =~= b0.val(h0).skip(n));
    assert forall|s: Spongos, bb: TritSliceT, hh: Heap| kept(s1, b1, h1, s, bb, hh) implies #[trigger] kept(s0, b0, h0, s, bb, hh) by { lemma_kept_cat(s0, b0, h0, s1, b1, h1, s, bb, hh); }
}
/// C08: finding the codeword and reading the plain text are the same
pub proof fn lemma_starts(m: Mode, a: SP, x: Seq<u8>, v: Seq<u8>)
    requires sp_ok(a), is_trits(x), is_trits(v),
    ensures starts(rd_out(m, a, x), v) == starts(x, wr_out(m, a, v)),
{
    let n = v.len() as int;
    lemma_wr_len(m, a, v); lemma_rd_len(m, a, x);
    if n <= x.len() {
        lemma_rd_split(m, a, x, n);
        let y = x.take(n);
        assert forall|i: int| 0 <= i < y.len() implies #[trigger] y[i] < 3 by { assert(x[i] < 3); }
        lemma_decr_encr(a, v); lemma_encr_decr(a, y);
    }
}
/// C08: a reader in the writer's state gets the value and ends in the writer's final state
pub proof fn lemma_round(m: Mode, a: SP, v: Seq<u8>, s: Spongos, b: TritSliceT, h: Heap, s1: Spongos, b1: TritSliceT, h1: Heap)
    requires sp_ok(a), is_trits(v), can_unwrap(s, b, h), s.sp(h) == a, starts(b.val(h), wr_out(m, a, v)), unwrapped(m, s, b, h, s1, b1, h1, v.len() as int),
    ensures input(m, s, b, h).take(v.len() as int) == v, s1.sp(h1) == sp_absorb(a, v), b1 == b.s_drop(v.len() as int),
{ lemma_read_written(m, a, v, s, b, h); }
pub proof fn lemma_starts_cat(x: Seq<u8>, p: Seq<u8>, q: Seq<u8>)
    ensures starts(x, p + q) == (starts(x, p) && starts(x.skip(p.len() as int), q)),
{
    let n = p.len() as int; let k = q.len() as int;
    if n + k <= x.len() {
        assert(x.take(n + k) =~= x.take(n) + x.skip(n).take(k));
        if x.take(n + k) == p + q { assert(x.take(n) =~= (p + q).take(n)); assert(x.skip(n).take(k) =~= (p + q).skip(n)); assert((p + q).take(n) =~= p); assert((p + q).skip(n) =~= q); }
    }
}
/// the trytes that were read are unique
pub proof fn lemma_trytes_unique(x: Seq<u8>, v: Seq<u8>, w: Seq<u8>)
    requires is_trits(x), is_trytes(x, v), is_trytes(x, w),
    ensures v == w,
{ lemma_trytes_size(x, v); lemma_trytes_size(x, w); lemma_size_inj(x, v.len() as int / 3, w.len() as int / 3); lemma_trytes(x, v.len() as int / 3); }
pub proof fn lemma_s_trytes(v: Seq<u8>)
    requires is_trits(v), v.len() / 3 <= size_max(),
    ensures is_trits(s_trytes(v)), s_trytes(v).len() == s_size(v.len() as int / 3).len() + v.len(),
{
    let n = v.len() as int / 3;
    lemma_size_len(n);
    let t = s_trytes(v); let l = s_size(n).len();
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] < 3 by { if i < l { assert(t[i] == s_size(n)[i]); } else { assert(t[i] == v[i - l]); } }
}
//@end
