//@module app::spec
//@deps mem trits::util trits::slice trits::trits spongos pb3::spec pb3::err pb3::typ::size pb3::typ::trytes pb3::msg pb3::cmd::mac
//@prelude
use crate::mem::*;
use crate::trits::defs::*;
use crate::trits::util::*;
use crate::trits::b1t1::*;
use crate::trits::slice::*;
use crate::trits::trits::*;
use crate::spongos::*;
use crate::pb3::spec::*;
use crate::pb3::msg::*;
use crate::pb3::typ::size::*;
use crate::pb3::typ::trytes::*;
use crate::pb3::cmd::mac::*;

pub proof fn lemma_trits_ext(t: TritsT, h0: Heap, h1: Heap, z: Set<int>)
    requires t.ok(h0), ext_s(h0, h1, z), !z.contains(t.b()),
    ensures t.ok(h1), t.val(h1) == t.val(h0),
{ assert(h0.dom().contains(t.b())); assert(t.val(h1) =~= t.val(h0)); }
pub proof fn lemma_wrote_none(s: Spongos, b: TritSliceMutT, h: Heap, z: Set<int>)
    requires can_wrap(s, b, h, 0),
    ensures wrote(s, b, h, s, b, h, Seq::empty(), s.sp(h), z),
{ assert(b.put(h, Seq::empty())[b.b()] =~= h[b.b()]); }
pub proof fn lemma_read_none(s: Spongos, b: TritSliceT, h: Heap)
    requires can_unwrap(s, b, h),
    ensures read(s, b, h, s, b, h, 0, s.sp(h)), b.val(h).skip(0) == b.val(h),
        forall|s1: Spongos, bb: TritSliceT, hh: Heap| kept(s, b, h, s1, bb, hh) ==> #[trigger] kept(s, b, h, s1, bb, hh),
{ assert(b.val(h).skip(0) =~= b.val(h)); }
/// a field wrapped after others
pub proof fn lemma_w_field(m: Mode, s0: Spongos, b0: TritSliceMutT, h0: Heap, s1: Spongos, b1: TritSliceMutT, h1: Heap, s2: Spongos, b2: TritSliceMutT, h2: Heap, o: Seq<u8>, a: SP, v: Seq<u8>, z: Set<int>)
    requires can_wrap(s0, b0, h0, 0), wrote(s0, b0, h0, s1, b1, h1, o, a, z), wrapped(m, s1, b1, h1, s2, b2, h2, v), z.contains(s0.b()), z.contains(b0.b()),
    ensures wrote(s0, b0, h0, s2, b2, h2, o + wr_out(m, a, v), sp_absorb(a, v), z), can_wrap(s2, b2, h2, b0.len() - o.len() - v.len()),
{
    lemma_wr_len(m, a, v);
    lemma_wrote(m, s1, b1, h1, s2, b2, h2, v, z);
    lemma_wrote_cat(s0, b0, h0, s1, b1, h1, s2, b2, h2, o, a, wr_out(m, a, v), sp_absorb(a, v), z);
    lemma_wrote_next(s0, b0, h0, s2, b2, h2, o + wr_out(m, a, v), sp_absorb(a, v), z);
}
/// the tag after the fields
pub proof fn lemma_w_mac(s0: Spongos, b0: TritSliceMutT, h0: Heap, s1: Spongos, b1: TritSliceMutT, h1: Heap, s2: Spongos, b2: TritSliceMutT, h2: Heap, o: Seq<u8>, a: SP, z: Set<int>)
    requires can_wrap(s0, b0, h0, 0), wrote(s0, b0, h0, s1, b1, h1, o, a, z), z.contains(s0.b()), z.contains(b0.b()), b1.len() >= 243,
        s2.inv(h2), s2.same(s1), b2 == b1.s_drop(243), extends2(h1, h2, b1.b(), s1.b()), h2[b1.b()] == b1.put(h1, mac_tag(a))[b1.b()], s2.sp(h2) == mac_end(a),
    ensures wrote(s0, b0, h0, s2, b2, h2, o + mac_tag(a), mac_end(a), z),
{
    lemma_outs_len(Op::Squeeze, sp_commit(a), zeros(243));
    lemma_ext_s2(h1, h2, s1.b(), b1.b(), z);
    lemma_wrote_cat(s0, b0, h0, s1, b1, h1, s2, b2, h2, o, a, mac_tag(a), mac_end(a), z);
}
/// anything after the fields, in fewer blocks
pub proof fn lemma_w_more(s0: Spongos, b0: TritSliceMutT, h0: Heap, s1: Spongos, b1: TritSliceMutT, h1: Heap, s2: Spongos, b2: TritSliceMutT, h2: Heap, o: Seq<u8>, a: SP, v: Seq<u8>, e: SP, z: Set<int>, y: Set<int>)
    requires can_wrap(s0, b0, h0, 0), wrote(s0, b0, h0, s1, b1, h1, o, a, z), wrote(s1, b1, h1, s2, b2, h2, v, e, y), forall|c: int| #[trigger] y.contains(c) ==> z.contains(c),
    ensures wrote(s0, b0, h0, s2, b2, h2, o + v, e, z),
{
    assert(ext_s(h1, h2, z));
    lemma_wrote_cat(s0, b0, h0, s1, b1, h1, s2, b2, h2, o, a, v, e, z);
}
/// a field read after others
pub proof fn lemma_r_field(m: Mode, s0: Spongos, b0: TritSliceT, h0: Heap, s1: Spongos, b1: TritSliceT, h1: Heap, s2: Spongos, b2: TritSliceT, h2: Heap, n: int, a: SP, k: int)
    requires can_unwrap(s0, b0, h0), read(s0, b0, h0, s1, b1, h1, n, a), unwrapped(m, s1, b1, h1, s2, b2, h2, k),
    ensures ({ let v = rd_out(m, a, b0.val(h0).skip(n)).take(k);
        &&& s2.b() == s0.b() && s1.b() == s0.b() && ext_s(h0, h2, set![s0.b()]) && ext_s(h1, h2, set![s0.b()])
        &&& read(s0, b0, h0, s2, b2, h2, n + k, sp_absorb(a, v)) && can_unwrap(s2, b2, h2) && b2.val(h2) == b0.val(h0).skip(n).skip(k) && b2.val(h2) == b0.val(h0).skip(n + k)
        &&& forall|s: Spongos, bb: TritSliceT, hh: Heap| kept(s2, b2, h2, s, bb, hh) ==> #[trigger] kept(s0, b0, h0, s, bb, hh) }),
{
    lemma_read_next(s0, b0, h0, s1, b1, h1, n, a);
    lemma_read(m, s1, b1, h1, s2, b2, h2, k);
    let e = sp_absorb(a, rd_out(m, a, b0.val(h0).skip(n)).take(k));
    lemma_read_cat(s0, b0, h0, s1, b1, h1, s2, b2, h2, n, a, k, e);
    lemma_read_next(s0, b0, h0, s2, b2, h2, n + k, e);
    assert(b0.val(h0).skip(n).skip(k) =~= b0.val(h0).skip(n + k));
    lemma_kept_ext(s0, b0, h0, s2, b2, h2); lemma_kept_ext(s1, b1, h1, s2, b2, h2);
}
/// the tag read after the fields
pub proof fn lemma_r_mac(s0: Spongos, b0: TritSliceT, h0: Heap, s1: Spongos, b1: TritSliceT, h1: Heap, s2: Spongos, b2: TritSliceT, h2: Heap, n: int, a: SP)
    requires can_unwrap(s0, b0, h0), read(s0, b0, h0, s1, b1, h1, n, a), kept(s1, b1, h1, s2, b2, h2), starts(b1.val(h1), mac_tag(a)), b2 == b1.s_drop(243), s2.sp(h2) == mac_end(a),
    ensures read(s0, b0, h0, s2, b2, h2, n + 243, mac_end(a)), s2.b() == s0.b(), s1.b() == s0.b(), ext_s(h0, h2, set![s0.b()]), ext_s(h1, h2, set![s0.b()]),
{
    lemma_outs_len(Op::Squeeze, sp_commit(a), zeros(243));
    lemma_read_cat(s0, b0, h0, s1, b1, h1, s2, b2, h2, n, a, 243, mac_end(a));
    lemma_kept_ext(s0, b0, h0, s2, b2, h2); lemma_kept_ext(s1, b1, h1, s2, b2, h2);
}
pub proof fn lemma_kept_ext(s0: Spongos, b0: TritSliceT, h0: Heap, s1: Spongos, b1: TritSliceT, h1: Heap)
    requires kept(s0, b0, h0, s1, b1, h1),
    ensures ext_s(h0, h1, set![s0.b()]),
{ lemma_ext_s2(h0, h1, s0.b(), s0.b(), set![s0.b()]); }
pub proof fn lemma_skip_trits(x: Seq<u8>, n: int)
    requires is_trits(x), 0 <= n <= x.len(),
    ensures is_trits(x.skip(n)), is_trits(x.take(n)),
{
    assert forall|i: int| 0 <= i < x.skip(n).len() implies #[trigger] x.skip(n)[i] < 3 by { assert(x[n + i] < 3); }
    assert forall|i: int| 0 <= i < n implies #[trigger] x.take(n)[i] < 3 by { assert(x[i] < 3); }
}
/// C10/C11: finding a codeword and the rest, field by field
pub proof fn lemma_field(m: Mode, a: SP, x: Seq<u8>, v: Seq<u8>, rest: Seq<u8>)
    requires sp_ok(a), is_trits(x), is_trits(v),
    ensures starts(x, wr_out(m, a, v) + rest) == (starts(rd_out(m, a, x), v) && starts(x.skip(v.len() as int), rest)),
{ lemma_wr_len(m, a, v); lemma_starts(m, a, x, v); lemma_starts_cat(x, wr_out(m, a, v), rest); }
pub open spec fn trytes_ok(v: Seq<u8>) -> bool { is_trits(v) && v.len() % 3 == 0 && v.len() / 3 <= size_max() }
pub proof fn lemma_trytes_field(m: Mode, a: SP, x: Seq<u8>, v: Seq<u8>, rest: Seq<u8>)
    requires sp_ok(a), is_trits(x), trytes_ok(v),
    ensures starts(x, wr_out(m, a, s_trytes(v)) + rest) == (is_trytes(rd_out(m, a, x), v) && starts(x.skip(s_trytes(v).len() as int), rest)),
{ lemma_s_trytes(v); lemma_field(m, a, x, s_trytes(v), rest); }
pub proof fn lemma_is_trytes_ok(x: Seq<u8>, v: Seq<u8>)
    requires is_trits(x), is_trytes(x, v),
    ensures trytes_ok(v), is_trits(s_trytes(v)), s_trytes(v).len() <= x.len(), x.take(s_trytes(v).len() as int) == s_trytes(v),
{
    let l = s_size(v.len() as int / 3).len() as int;
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] < 3 by { assert(s_trytes(v)[l + i] == v[i]); assert(x.take(s_trytes(v).len() as int)[l + i] == x[l + i]); assert(x[l + i] < 3); }
    lemma_s_trytes(v);
}
/// the payloads of a packet after the link: a public and a masked one
pub open spec fn pl_mid(a: SP, p: Seq<u8>) -> SP { sp_absorb(a, s_trytes(p)) }
pub open spec fn pl_end(a: SP, p: Seq<u8>, q: Seq<u8>) -> SP { sp_absorb(pl_mid(a, p), s_trytes(q)) }
pub open spec fn pl_out(a: SP, p: Seq<u8>, q: Seq<u8>) -> Seq<u8> { s_trytes(p) + sp_enc(pl_mid(a, p), s_trytes(q)) }
pub open spec fn pl_is(a: SP, x: Seq<u8>, p: Seq<u8>, q: Seq<u8>) -> bool { trytes_ok(p) && trytes_ok(q) && starts(x, pl_out(a, p, q)) }
pub open spec fn pl_mid_ok(a: SP, x: Seq<u8>, p: Seq<u8>, q: Seq<u8>) -> bool { is_trytes(x, p) && is_trytes(rd_out(Mode::Mask, pl_mid(a, p), x.skip(s_trytes(p).len() as int)), q) }
pub proof fn lemma_pl_len(a: SP, p: Seq<u8>, q: Seq<u8>)
    requires trytes_ok(p), trytes_ok(q),
    ensures pl_out(a, p, q).len() == s_trytes(p).len() + s_trytes(q).len(), is_trits(s_trytes(p)), is_trits(s_trytes(q)),
        s_trytes(p).len() == s_size(p.len() as int / 3).len() + p.len(), s_trytes(q).len() == s_size(q.len() as int / 3).len() + q.len(),
{ lemma_s_trytes(p); lemma_s_trytes(q); lemma_outs_len(Op::Encr, pl_mid(a, p), s_trytes(q)); }
/// C10/C11: the codeword is there exactly when both fields read as the payloads; then the payloads are unique
pub proof fn lemma_pl(a: SP, x: Seq<u8>, p: Seq<u8>, q: Seq<u8>)
    requires sp_ok(a), is_trits(x),
    ensures pl_is(a, x, p, q) == pl_mid_ok(a, x, p, q),
{
    let l = s_trytes(p).len() as int;
    let e = wr_out(Mode::Mask, pl_mid(a, p), s_trytes(q));
    assert(pl_out(a, p, q) == wr_out(Mode::Absorb, a, s_trytes(p)) + e);
    assert(e + Seq::<u8>::empty() =~= e);
    if is_trytes(x, p) { lemma_is_trytes_ok(x, p); }
    if trytes_ok(p) && l <= x.len() {
        lemma_trytes_field(Mode::Absorb, a, x, p, e);
        lemma_s_trytes(p);
        lemma_absorb_ok(a, s_trytes(p));
        lemma_skip_trits(x, l);
        let y = x.skip(l);
        lemma_rd_ok(Mode::Mask, pl_mid(a, p), y);
        if is_trytes(rd_out(Mode::Mask, pl_mid(a, p), y), q) { lemma_is_trytes_ok(rd_out(Mode::Mask, pl_mid(a, p), y), q); }
        if trytes_ok(q) {
            lemma_trytes_field(Mode::Mask, pl_mid(a, p), y, q, Seq::empty());
            assert(y.skip(s_trytes(q).len() as int).take(0) =~= Seq::<u8>::empty());
        }
    }
}
pub proof fn lemma_absorb_ok(a: SP, v: Seq<u8>)
    requires sp_ok(a), is_trits(v),
    ensures sp_ok(sp_absorb(a, v)),
{ lemma_run_ok(Op::Absorb, a, v); }
pub proof fn lemma_pl_unique(a: SP, x: Seq<u8>, p: Seq<u8>, q: Seq<u8>, p2: Seq<u8>, q2: Seq<u8>)
    requires sp_ok(a), is_trits(x), pl_mid_ok(a, x, p, q), pl_mid_ok(a, x, p2, q2),
    ensures p == p2, q == q2,
{
    lemma_trytes_unique(x, p, p2);
    lemma_is_trytes_ok(x, p);
    lemma_absorb_ok(a, s_trytes(p));
    lemma_skip_trits(x, s_trytes(p).len() as int);
    let y = x.skip(s_trytes(p).len() as int);
    lemma_rd_ok(Mode::Mask, pl_mid(a, p), y);
    lemma_trytes_unique(rd_out(Mode::Mask, pl_mid(a, p), y), q, q2);
}
//@end
