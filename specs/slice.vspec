//@module trits::slice
//@file trits/slice.rs
//@deps trits::b1t1 trits::trits
//@mem none
//@struct SliceRange derive(Clone, Copy)
//@struct TritSliceT derive(Clone, Copy)
//@struct TritSliceMutT derive(Clone, Copy)
//@ext TritSliceT::fmt_display ro
//@cmp ptr .p.add( $.p
//@cmp trits .as_const()
//@prelude
use crate::mem::*;
use crate::trits::defs::*;
use crate::trits::util::*;
use crate::trits::b1t1::*;
use crate::trits::trits::*;

pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
/// unsigned value of a trit sequence, least significant first
pub open spec fn unat(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { s[0] + 3 * unat(s.skip(1)) } }
pub open spec fn all2(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 2 }
pub open spec fn inc_seq(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { s } else if s[0] == 2 { seq![0u8] + inc_seq(s.skip(1)) } else { seq![((s[0] + 1) % 3) as u8] + s.skip(1) }
}
pub open spec fn cyc(s: Seq<u8>, n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| s[i % (s.len() as int)]) }
/// text of a trit sequence
pub open spec fn text(s: Seq<u8>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else {
        seq![val_char(ival(s.take(imin(3, s.len() as int))))] + text(s.skip(imin(3, s.len() as int)))
    }
}
/// trits of a text
pub open spec fn str_trits(s: Seq<char>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { bt(3, char_val(s[0])) + str_trits(s.skip(1)) }
}
pub open spec fn str_ok(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_tryte_char(#[trigger] s[i]) }
/// `s` is accepted by a slice of `n` trits
pub open spec fn str_fits(s: Seq<char>, n: int) -> bool {
    str_ok(s) && forall|i: int| n <= i < str_trits(s).len() ==> #[trigger] str_trits(s)[i] == 0
}

pub proof fn lemma_inc(s: Seq<u8>)
    requires is_trits(s),
    ensures inc_seq(s).len() == s.len(), is_trits(inc_seq(s)),
        all2(s) ==> inc_seq(s) == zeros(s.len() as int) && unat(s) == pow3(s.len()) - 1 && unat(inc_seq(s)) == 0,
        !all2(s) ==> unat(inc_seq(s)) == unat(s) + 1,
    decreases s.len(),
{
    if s.len() == 0 { assert(inc_seq(s) =~= zeros(0)); } else {
        let t = s.skip(1);
        assert(s[0] < 3);
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] < 3 by { assert(t[i] == s[i + 1]); }
        lemma_inc(t);
        if s[0] == 2 {
            assert(inc_seq(s).skip(1) =~= inc_seq(t));
            if all2(s) {
                assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == 2 by { assert(s[i + 1] == 2); }
                assert(inc_seq(s) =~= zeros(s.len() as int));
            } else {
                assert(!all2(t)) by { if all2(t) { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] == 2 by { if i > 0 { assert(t[i - 1] == 2); } } } }
            }
        } else {
            assert(inc_seq(s).skip(1) =~= t);
        }
    }
}
pub proof fn lemma_unat_inj(s: Seq<u8>, t: Seq<u8>)
    requires is_trits(s), is_trits(t), s.len() == t.len(), unat(s) == unat(t),
    ensures s == t,
    decreases s.len(),
{
    if s.len() > 0 {
        assert(s[0] < 3 && t[0] < 3);
        assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] s.skip(1)[i] < 3 by { assert(s[i + 1] < 3); }
        assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] t.skip(1)[i] < 3 by { assert(t[i + 1] < 3); }
        lemma_unat_inj(s.skip(1), t.skip(1));
        assert(s =~= seq![s[0]] + s.skip(1));
        assert(t =~= seq![t[0]] + t.skip(1));
    } else { assert(s =~= t); }
}
/// inc on a prefix of twos
proof fn lemma_inc_prefix(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(), all2(s.take(k)),
    ensures inc_seq(s) == zeros(k) + inc_seq(s.skip(k)),
    decreases k,
{
    if k == 0 { assert(s.skip(0) =~= s); assert(zeros(0) + inc_seq(s) =~= inc_seq(s)); } else {
        assert(s.take(k)[0] == 2);
        let t = s.skip(1);
        assert forall|i: int| 0 <= i < k - 1 implies #[trigger] t.take(k - 1)[i] == 2 by { assert(s.take(k)[i + 1] == 2); }
        lemma_inc_prefix(t, k - 1);
        assert(t.skip(k - 1) =~= s.skip(k));
        assert(seq![0u8] + (zeros(k - 1) + inc_seq(s.skip(k))) =~= zeros(k) + inc_seq(s.skip(k)));
    }
}
pub proof fn lemma_str_trits_len(s: Seq<char>)
    requires str_ok(s),
    ensures str_trits(s).len() == 3 * s.len(), is_trits(str_trits(s)),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.len() - 1 implies is_tryte_char(#[trigger] s.skip(1)[i]) by { assert(is_tryte_char(s[i + 1])); }
        lemma_str_trits_len(s.skip(1));
        lemma_bt_len(3, char_val(s[0]));
    }
}
/// adding a char at the end
proof fn lemma_str_trits_push(s: Seq<char>, c: char)
    ensures str_trits(s.push(c)) == str_trits(s) + bt(3, char_val(c)),
    decreases s.len(),
{
    let p = s.push(c);
    if s.len() == 0 {
        assert(p.skip(1) =~= Seq::<char>::empty());
        assert(str_trits(p.skip(1)) =~= Seq::<u8>::empty());
        assert(p[0] == c);
        assert(str_trits(p) =~= bt(3, char_val(c)));
        assert(str_trits(s) + bt(3, char_val(c)) =~= bt(3, char_val(c)));
    } else {
        assert(p.skip(1) =~= s.skip(1).push(c));
        lemma_str_trits_push(s.skip(1), c);
        assert(str_trits(p) =~= str_trits(s) + bt(3, char_val(c)));
    }
}
/// text and trits are inverse on whole trytes
pub proof fn lemma_text_trits(s: Seq<char>)
    requires str_ok(s),
    ensures text(str_trits(s)) == s,
    decreases s.len(),
{
    if s.len() > 0 {
        assert(is_tryte_char(s[0]));
        assert forall|i: int| 0 <= i < s.len() - 1 implies is_tryte_char(#[trigger] s.skip(1)[i]) by { assert(is_tryte_char(s[i + 1])); }
        lemma_text_trits(s.skip(1));
        lemma_str_trits_len(s);
        lemma_bt_len(3, char_val(s[0]));
        lemma_pow3_vals();
        lemma_ival_bt(3, char_val(s[0]));
        lemma_chars(s[0], 0);
        assert(str_trits(s).take(3) =~= bt(3, char_val(s[0])));
        assert(str_trits(s).skip(3) =~= str_trits(s.skip(1)));
        assert(text(str_trits(s)) =~= s);
    }
}
pub proof fn lemma_trits_text(s: Seq<u8>)
    requires is_trits(s), s.len() % 3 == 0,
    ensures str_trits(text(s)) == s, str_ok(text(s)), 3 * text(s).len() == s.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        let a = s.take(3);
        let t = s.skip(3);
        assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] < 3 by { assert(s[i] < 3); }
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] < 3 by { assert(s[i + 3] < 3); }
        lemma_trits_text(t);
        lemma_bt_ival(a);
        lemma_pow3_vals();
        lemma_chars('9', ival(a));
        assert(text(s)[0] == val_char(ival(a)));
        assert(text(s).skip(1) =~= text(t));
        assert forall|i: int| 0 <= i < text(s).len() implies is_tryte_char(#[trigger] text(s)[i]) by { if i > 0 { assert(is_tryte_char(text(t)[i - 1])); } }
        assert(s =~= a + t);
    } else { assert(text(s) =~= Seq::<char>::empty()); assert(s =~= Seq::<u8>::empty()); }
}

impl SliceRange {
    pub open spec fn wf(self) -> bool { self.d <= self.n && self.n <= MAXSZ }
    pub open spec fn s_take(self, n: int) -> Self { SliceRange { n: (self.d + n) as usize, d: self.d } }
    pub open spec fn s_drop(self, n: int) -> Self { SliceRange { n: self.n, d: (self.d + n) as usize } }
    pub open spec fn len(self) -> int { self.n - self.d }
}
//@end
//@foreach TritSliceT TritSliceMutT
//@postlude
impl $T {
    pub open spec fn inv(self, h: Heap) -> bool {
        self.r.wf() && self.p.off + self.r.n <= MAXSZ && valid(h, self.p.base@, self.p.off as int, self.r.n as int)
    }
    pub open spec fn b(self) -> int { self.p.base@ }
    pub open spec fn o(self) -> int { self.p.off + self.r.d }
    pub open spec fn len(self) -> int { self.r.n - self.r.d }
    pub open spec fn val(self, h: Heap) -> Seq<u8> { rd(h, self.b(), self.o(), self.len()) }
    pub open spec fn ok(self, h: Heap) -> bool { self.inv(h) && is_trits(self.val(h)) }
    pub open spec fn put(self, h: Heap, v: Seq<u8>) -> Heap { wr(h, self.b(), self.o(), v) }
    pub open spec fn s_take(self, n: int) -> Self { $T { r: self.r.s_take(n), p: self.p } }
    pub open spec fn s_drop(self, n: int) -> Self { $T { r: self.r.s_drop(n), p: self.p } }
    pub open spec fn as_const_spec(self) -> TritSliceT { TritSliceT { r: self.r, p: self.p } }
}
//@end
//@endfor
//@fn SliceRange::new props=C05
    ensures r == (SliceRange { n, d }),
//@fn SliceRange::is_empty props=C05
    ensures r == (self.len() == 0),
//@fn SliceRange::total_size props=C05
    ensures r == self.n,
//@fn SliceRange::dropped_size props=C05
    ensures r == self.d,
//@fn SliceRange::avail_size props=C05
    requires self.d <= self.n,
    ensures r == self.len(),
//@fn SliceRange::size props=C05
    requires self.d <= self.n,
    ensures r == self.len(),
//@fn SliceRange::size_min props=C05
    requires self.d <= self.n,
    ensures r == imin(self.len(), s as int),
//@fn SliceRange::take props=C05
    requires self.d + n <= self.n,
    ensures r == self.s_take(n as int),
//@fn SliceRange::take_min props=C05
    requires self.wf(), self.d + n <= usize::MAX,
    ensures r == self.s_take(imin(n as int, self.len())),
//@fn SliceRange::drop props=C05
    requires self.d + n <= self.n,
    ensures r == self.s_drop(n as int),
//@fn SliceRange::drop_min props=C05
    requires self.wf(), self.d + n <= usize::MAX,
    ensures r == self.s_drop(imin(n as int, self.len())),
//@fn SliceRange::split_at props=C05
    requires self.d + n <= self.n,
    ensures r.0 == self.s_take(n as int), r.1 == self.s_drop(n as int),
//@fn SliceRange::split_at_min props=C05
    requires self.wf(), self.d + n <= usize::MAX,
    ensures r.0 == self.s_take(imin(n as int, self.len())), r.1 == self.s_drop(imin(n as int, self.len())),
//@fn SliceRange::pickup props=C05
    requires n <= self.d,
    ensures r.n == self.n, r.d == self.d - n,
//@fn SliceRange::pickup_all props=C05
    ensures r.n == self.n, r.d == 0,
//@fn SliceRange::drop_all props=C05
    ensures r.n == self.n, r.d == self.n,
//@fn SliceRange::dropped props=C05
    ensures r.n == self.d, r.d == 0,
//@fn SliceRange::diff props=C05
    requires s.d <= self.d <= s.n,
    ensures r.n == self.d, r.d == s.d,
//@foreach TritSliceT TritSliceMutT
//@fn $T::from_raw_ptr props=C05
    ensures r == ($T { r: SliceRange { n, d: 0 }, p }),
//@fn $T::is_same cmp:ptr=.p.add( props=C05,C01
    requires self.p.off + self.r.d <= usize::MAX, x.p.off + x.r.d <= usize::MAX,
    ensures r == (self.b() == x.b() && self.o() == x.o()),
//@fn $T::is_overlapped cmp:ptr==begin,=end props=C05
    requires self.r.wf(), x.r.wf(), self.p.off + self.r.n <= usize::MAX, x.p.off + x.r.n <= usize::MAX,
    ensures self.b() == x.b() ==> r == !(x.o() + x.len() <= self.o() || self.o() + self.len() <= x.o()),
//@fn $T::is_empty props=C05
    ensures r == (self.len() == 0),
//@fn $T::total_size props=C05
    ensures r == self.r.n,
//@fn $T::dropped_size props=C05
    ensures r == self.r.d,
//@fn $T::avail_size props=C05
    requires self.r.d <= self.r.n,
    ensures r == self.len(),
//@fn $T::size props=C05
    requires self.r.d <= self.r.n,
    ensures r == self.len(),
//@fn $T::size_min props=C05
    requires self.r.d <= self.r.n,
    ensures r == imin(self.len(), s as int),
//@fn $T::with_range props=C05
//@ret out
    ensures out.r == r, out.p == self.p,
//@fn $T::take props=C05
    requires self.r.d + n <= self.r.n,
    ensures r == self.s_take(n as int),
//@fn $T::take_min props=C05
    requires self.r.wf(), self.r.d + n <= usize::MAX,
    ensures r == self.s_take(imin(n as int, self.len())),
//@fn $T::drop props=C05
    requires self.r.d + n <= self.r.n,
    ensures r == self.s_drop(n as int),
//@fn $T::drop_min props=C05
    requires self.r.wf(), self.r.d + n <= usize::MAX,
    ensures r == self.s_drop(imin(n as int, self.len())),
//@fn $T::split_at props=C05
    requires self.r.d + n <= self.r.n,
    ensures r.0 == self.s_take(n as int), r.1 == self.s_drop(n as int),
//@fn $T::split_at_min props=C05
    requires self.r.wf(), self.r.d + n <= usize::MAX,
    ensures r.0 == self.s_take(imin(n as int, self.len())), r.1 == self.s_drop(imin(n as int, self.len())),
//@fn $T::pickup props=C05
    requires n <= self.r.d,
    ensures r.p == self.p, r.r.n == self.r.n, r.r.d == self.r.d - n,
//@fn $T::pickup_all props=C05
    ensures r.p == self.p, r.r.n == self.r.n, r.r.d == 0,
//@fn $T::drop_all props=C05
    ensures r.p == self.p, r.r.n == self.r.n, r.r.d == self.r.n,
//@fn $T::dropped props=C05
    ensures r.p == self.p, r.r.n == self.r.d, r.r.d == 0,
//@fn $T::advance props=C05
    requires old(self).r.d + n <= old(self).r.n,
    ensures r == old(self).s_take(n as int), *final(self) == old(self).s_drop(n as int),
//@fn $T::diff props=C05
    requires self.p.base == s.p.base, self.p.off == s.p.off, s.r.d <= self.r.d <= s.r.n,
    ensures r.p == self.p, r.r.n == self.r.d, r.r.d == s.r.d,
//@fn $T::eq mem=ro props=C05
    requires self.inv(mem@), other.inv(mem@), self.len() == other.len(),
    ensures r == (self.val(mem@) == other.val(mem@)),
//@fn $T::eq_min mem=ro props=C05
    requires self.inv(mem@), other.inv(mem@),
    ensures r.1 == imin(self.len(), other.len()), r.0 == (self.val(mem@).take(r.1 as int) == other.val(mem@).take(r.1 as int)),
//@hint exit
proof {
    let n = imin(self.len(), other.len());
    assert(self.val(mem@).take(n) =~= rd(mem@, self.b(), self.o(), n));
    assert(other.val(mem@).take(n) =~= rd(mem@, other.b(), other.o(), n));
}
//@fn $T.PartialEq::eq mem=ro rename=partial_eq props=C05
    requires self.inv(mem@), other.inv(mem@),
    ensures r == (self.val(mem@) == other.val(mem@)),
//@hint entry
proof { assert(self.val(mem@).len() == self.len() && other.val(mem@).len() == other.len()); }
//@endfor
//@fn TritSliceT::from_slice mem=none ty:t=&Buf props=C05
    requires n <= t.len,
    ensures r == (TritSliceT { r: SliceRange { n, d: 0 }, p: t.ptr }),
//@fn TritSliceMutT::from_slice_mut mem=none ty:t=&mut_Buf props=C05
    requires n <= old(t).len,
    ensures r == (TritSliceMutT { r: SliceRange { n, d: 0 }, p: old(t).ptr }), *final(t) == *old(t),
//@fn TritSliceT::from_trits mem=none props=C05
    ensures r == t.slice_spec(),
//@fn TritSliceT::clone_trits mem=rw props=C05
    requires self.inv(old(mem)@),
    ensures r.fresh(old(mem)@), r.n == self.len(), final(mem)@ == old(mem)@.insert(r.b(), self.val(old(mem)@)),
//@fn TritSliceT::get_trit mem=ro props=C05
    requires self.inv(mem@), self.len() > 0,
    ensures r == self.val(mem@)[0],
//@fn TritSliceT::get_trits mem=ro formut=0 props=C05
    requires self.inv(mem@), self.len() >= old(trits).len(),
    ensures final(trits)@ == self.val(mem@).take(old(trits).len() as int),
//@loop 0
    invariant end0 == trits.len(), end0 == old(trits).len(), it0 <= end0, self.inv(mem@), self.len() >= end0, self_m == self.s_drop(it0 as int),
        forall|j: int| 0 <= j < it0 ==> #[trigger] trits@[j] == self.val(mem@)[j],
    decreases end0 - it0,
//@hint exit
proof { assert(trits@ =~= self.val(mem@).take(trits.len() as int)); }
//@fn TritSliceT::get_tryte mem=ro props=C04
    requires self.ok(mem@), self.len() >= 3,
    ensures r < 27, tryte3(r as int) == self.val(mem@).take(3),
//@hint entry
proof { lemma_sub_ok(self.val(mem@), rd(mem@, self.b(), self.o(), 3), 3); }
//@fn TritSliceT::get1s mem=ro formut=0 props=C03,C04
    requires self.ok(mem@), self.len() >= old(t1s).len(),
    ensures final(t1s).len() == old(t1s).len(), forall|j: int| 0 <= j < final(t1s).len() ==> #[trigger] final(t1s)@[j] as int == tv(self.val(mem@)[j]),
//@loop 0
    invariant end0 == t1s.len(), end0 == old(t1s).len(), it0 <= end0, self.ok(mem@), self.len() >= end0, self_m == self.s_drop(it0 as int),
        forall|j: int| 0 <= j < it0 ==> #[trigger] t1s@[j] as int == tv(self.val(mem@)[j]),
    decreases end0 - it0,
//@hint loop 0 start
proof {
    assert forall|i: int| 0 <= i < self_m.len() implies #[trigger] self_m.val(mem@)[i] < 3 by { assert(self.val(mem@)[it0 - 1 + i] < 3); }
    assert(self_m.val(mem@)[0] == self.val(mem@)[it0 - 1]);
}
//@foreach get1|1|1 get3|3|13 get6|6|364 get9|9|9841 get18|18|193710244
//@fn TritSliceT::$T mem=ro props=C03
    requires self.ok(mem@), self.len() >= $U,
    ensures -$V <= r <= $V, r as int == ival(self.val(mem@).take($U)), r as int == ival(rd(mem@, self.b(), self.o(), $U)), $U == 1 ==> r as int == tv(self.val(mem@)[0]),
//@hint entry
proof { lemma_sub_ok(self.val(mem@), rd(mem@, self.b(), self.o(), $U), $U); }
//@endfor
//@fn TritSliceT::get_char mem=ro props=C04
    requires self.ok(mem@), self.len() > 0,
    ensures r == val_char(ival(self.val(mem@).take(imin(3, self.len())))), is_tryte_char(r),
//@hint let t 0
proof {
    let s = self.val(mem@).take(imin(3, self.len()));
    assert(s[0] < 3) by { assert(self.val(mem@)[0] < 3); }
    if s.len() > 1 { assert(s[1] < 3) by { assert(self.val(mem@)[1] < 3); } }
    if s.len() > 2 { assert(s[2] < 3) by { assert(self.val(mem@)[2] < 3); } }
    reveal_with_fuel(ival, 4);
}
//@fn TritSliceT::to_str mem=ro props=C04
    requires self.ok(mem@),
    ensures r@ == text(self.val(mem@)),
//@loop 0
    invariant self.ok(mem@), self_m.p == self.p, self_m.r.n == self.r.n, self.r.d <= self_m.r.d <= self.r.n,
        s@ + text(self_m.val(mem@)) == text(self.val(mem@)),
    decreases self_m.len(),
//@hint loop 0 pre
proof { assert(s@ + text(self_m.val(mem@)) =~= text(self.val(mem@))); }
//@hint loop 0 start
let ghost s0 = s@;
let ghost v0 = self_m.val(mem@);
proof {
    assert forall|i: int| 0 <= i < self_m.len() implies #[trigger] self_m.val(mem@)[i] < 3 by { assert(self.val(mem@)[self_m.r.d - self.r.d + i] < 3); }
}
//@hint loop 0 end
proof {
    assert(self_m.val(mem@) =~= v0.skip(imin(3, v0.len() as int)));
    assert(s@ + text(self_m.val(mem@)) =~= s0 + text(v0));
}
//@hint exit
proof { assert(s@ =~= text(self.val(mem@))); }
//@fn TritSliceT.Display::fmt mem=ro rename=fmt_display props=C04
    requires self.ok(mem@),
    ensures r.is_ok() ==> final(f)@ == old(f)@ + text(self.val(mem@)),
//@loop 0
    invariant self.ok(mem@), this.p == self.p, this.r.n == self.r.n, self.r.d <= this.r.d <= self.r.n,
        f@ + text(this.val(mem@)) == old(f)@ + text(self.val(mem@)),
    decreases this.len(),
//@hint loop 0 start
let ghost s0 = f@;
let ghost v0 = this.val(mem@);
proof {
    assert forall|i: int| 0 <= i < this.len() implies #[trigger] this.val(mem@)[i] < 3 by { assert(self.val(mem@)[this.r.d - self.r.d + i] < 3); }
}
//@hint loop 0 end
proof {
    assert(this.val(mem@) =~= v0.skip(imin(3, v0.len() as int)));
    assert(f@ + text(this.val(mem@)) =~= s0 + text(v0));
}
//@hint exit
proof { assert(f@ =~= old(f)@ + text(self.val(mem@))); }
//@fn TritSliceMutT.Display::fmt mem=ro rename=fmt_display props=C04
    requires self.ok(mem@),
    ensures r.is_ok() ==> final(f)@ == old(f)@ + text(self.val(mem@)),
//@fn TritSliceT::chunks mem=rw lety:v=Vec<TritsT> props=C05
    requires self.inv(old(mem)@), s > 0, self.len() + s <= usize::MAX, self.r.n + s <= usize::MAX,
    ensures extends(old(mem)@, final(mem)@),
        r.len() == (self.len() + s - 1) / (s as int),
        forall|i: int| 0 <= i < r.len() ==> (#[trigger] r@[i]).inv(final(mem)@) && r@[i].val(final(mem)@) == self.val(old(mem)@).subrange(i * s, imin((i + 1) * s, self.len())),
//@hint entry
let ghost h = mem@;
//@loop 0
    invariant self.inv(h), s > 0, self.r.n + s <= usize::MAX, self_m.p == self.p, self_m.r.n == self.r.n, self.r.d <= self_m.r.d <= self.r.n,
        h == old(mem)@, extends(h, mem@), self.r.n + s <= usize::MAX,
        self_m.r.d - self.r.d == imin(v.len() * s, self.len()), v.len() > 0 ==> (v.len() - 1) * s < self.len(),
        forall|i: int| 0 <= i < v.len() ==> (#[trigger] v@[i]).inv(mem@) && v@[i].val(mem@) == self.val(h).subrange(i * s, imin((i + 1) * s, self.len())),
    decreases self_m.len(),
//@hint loop 0 pre
proof { assert(v.len() * s == 0) by(nonlinear_arith) requires v.len() == 0; }
//@hint loop 0 start
let ghost k = v.len() as int;
let ghost m0 = mem@;
proof {
    assert((k + 1) * s == k * s + s) by(nonlinear_arith);
    assert(k * s >= 0) by(nonlinear_arith) requires k >= 0, s > 0;
    assert(k * s < self.len());
    assert(self_m.val(m0).len() == self_m.len());
}
//@hint loop 0 end
proof {
    assert(v@[k].val(mem@) =~= self.val(h).subrange(k * s, imin((k + 1) * s, self.len())));
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v@[i]).inv(mem@) && v@[i].val(mem@) == self.val(h).subrange(i * s, imin((i + 1) * s, self.len())) by {
        if i < k { assert(m0.dom().contains(v@[i].b())); }
    }
}
//@hint exit
proof {
    let (a, l, n) = (v.len() as int, s as int, self.len());
    assert((n + l - 1) / l == a) by(nonlinear_arith) requires l > 0, a > 0 ==> (a - 1) * l < n, a * l >= n, a >= 0, n >= 0, a == 0 ==> n == 0;
}
//@fn TritSliceT::copy mem=rw props=C05
    requires self.inv(old(mem)@), to.inv(old(mem)@), self.len() == to.len(),
    ensures final(mem)@ == to.put(old(mem)@, self.val(old(mem)@)),
//@fn TritSliceT::copy_min mem=rw props=C05
    requires self.inv(old(mem)@), to.inv(old(mem)@),
    ensures r == imin(self.len(), to.len()), final(mem)@ == to.put(old(mem)@, self.val(old(mem)@).take(r as int)),
//@hint exit
proof { assert(rd(old(mem)@, self.b(), self.o(), n as int) =~= self.val(old(mem)@).take(n as int)); }
//@fn TritSliceT::copy_add mem=rw props=C01,C05
    requires self.ok(old(mem)@), s.ok(old(mem)@), y.inv(old(mem)@), self.len() == y.len(), self.len() == s.len(), self.b() != s.b(), y.b() != s.b(),
        self.b() != y.b() || self.o() + self.len() <= y.o() || y.o() + self.len() <= self.o(),
    ensures final(mem)@ == s.put(y.put(old(mem)@, sadd(self.val(old(mem)@), s.val(old(mem)@))), self.val(old(mem)@)),
//@fn TritSliceT::copy_add_min mem=rw props=C01,C05
    requires self.ok(old(mem)@), s.ok(old(mem)@), y.inv(old(mem)@), self.len() == y.len(), self.b() != s.b(), y.b() != s.b(),
        self.b() != y.b() || self.o() + self.len() <= y.o() || y.o() + self.len() <= self.o(),
    ensures r == imin(self.len(), s.len()),
        ({ let (vx, vs) = (self.val(old(mem)@).take(r as int), s.val(old(mem)@).take(r as int));
        final(mem)@ == s.put(y.put(old(mem)@, sadd(vx, vs)), vx) }),
//@hint entry
proof {
    let n = imin(self.len(), s.len());
    lemma_sub_ok(self.val(mem@), rd(mem@, self.b(), self.o(), n), n);
    lemma_sub_ok(s.val(mem@), rd(mem@, s.b(), s.o(), n), n);
}
//@fn TritSliceT::copy_sub mem=rw props=C01,C05
    requires self.ok(old(mem)@), s.ok(old(mem)@), y.inv(old(mem)@), self.len() == y.len(), self.len() == s.len(), self.b() != s.b(), y.b() != s.b(),
        self.b() != y.b() || self.o() + self.len() <= y.o() || y.o() + self.len() <= self.o(),
    ensures ({ let v = ssub(self.val(old(mem)@), s.val(old(mem)@)); final(mem)@ == s.put(y.put(old(mem)@, v), v) }),
//@fn TritSliceT::copy_sub_min mem=rw props=C01,C05
    requires self.ok(old(mem)@), s.ok(old(mem)@), y.inv(old(mem)@), self.len() == y.len(), self.b() != s.b(), y.b() != s.b(),
        self.b() != y.b() || self.o() + self.len() <= y.o() || y.o() + self.len() <= self.o(),
    ensures r == imin(self.len(), s.len()),
        ({ let v = ssub(self.val(old(mem)@).take(r as int), s.val(old(mem)@).take(r as int));
        final(mem)@ == s.put(y.put(old(mem)@, v), v) }),
//@hint entry
proof {
    let n = imin(self.len(), s.len());
    lemma_sub_ok(self.val(mem@), rd(mem@, self.b(), self.o(), n), n);
    lemma_sub_ok(s.val(mem@), rd(mem@, s.b(), s.o(), n), n);
}
//@fn TritSliceMutT::from_trits_mut props=C05
    ensures r.p == old(t).buf.ptr, r.r.n == old(t).n, r.r.d == 0, *final(t) == *old(t),
//@fn TritSliceMutT::cycle mem=rw props=C05
    requires self.inv(old(mem)@), ts.inv(old(mem)@), self.b() != ts.b(),
    ensures final(mem)@ == if ts.len() == 0 { old(mem)@ } else { self.put(old(mem)@, cyc(ts.val(old(mem)@), self.len())) },
//@hint entry
let ghost h = mem@;
let ghost v = ts.val(h);
let ghost m = self.len();
//@loop 0
    invariant self.inv(h), ts.inv(h), self.b() != ts.b(), v == ts.val(h), v.len() > 0, m == self.len(),
        self_m.p == self.p, self_m.r.n == self.r.n, self.r.d <= self_m.r.d <= self.r.n,
        (self_m.r.d - self.r.d) % (v.len() as int) == 0 || self_m.len() == 0,
        mem@ == self.put(h, cyc(v, m).take(self_m.r.d - self.r.d)),
    decreases self_m.len(),
//@hint loop 0 pre
proof { lemma_wr_empty(h, self.b(), self.o()); assert(cyc(v, m).take(0) =~= Seq::<u8>::empty()); vstd::arithmetic::div_mod::lemma_small_mod(0, v.len()); }
//@hint loop 0 start
let ghost k = self_m.r.d - self.r.d;
let ghost h1 = mem@;
//@hint loop 0 end
proof {
    let k2 = self_m.r.d - self.r.d;
    let c = k2 - k;
    assert(ts.val(h1) =~= v);
    assert(v.take(c) =~= cyc(v, m).subrange(k, k2)) by {
        assert forall|j: int| 0 <= j < c implies #[trigger] v.take(c)[j] == cyc(v, m).subrange(k, k2)[j] by {
            let l = v.len() as int;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, l);
            assert((k + j) % l == j) by {
                vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(k / l, j, l);
                assert(l * (k / l) + j == k + j);
                vstd::arithmetic::div_mod::lemma_small_mod(j as nat, l as nat);
            }
        }
    }
    assert(cyc(v, m).take(k) + cyc(v, m).subrange(k, k2) =~= cyc(v, m).take(k2));
    lemma_wr_adj(h, self.b(), self.o(), cyc(v, m).take(k), cyc(v, m).subrange(k, k2));
    if c == v.len() {
        let l = v.len() as int;
        vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(k, l);
        assert(k2 % l == 0);
    }
}
//@hint loop 0 post
proof { assert(cyc(v, m).take(m) =~= cyc(v, m)); }
//@fn TritSliceMutT::as_const props=C05
    ensures r.p == self.p, r.r == self.r,
//@fn TritSliceMutT::put_trit mem=rw props=C05
    requires self.inv(old(mem)@), self.len() > 0,
    ensures final(mem)@ == self.put(old(mem)@, seq![t]),
//@fn TritSliceMutT::put_trits mem=rw props=C05
    requires self.inv(old(mem)@), self.len() >= trits.len(),
    ensures final(mem)@ == self.put(old(mem)@, trits@),
//@hint entry
let ghost h = mem@;
proof { lemma_wr_empty(h, self.b(), self.o()); assert(trits@.take(0) =~= Seq::<u8>::empty()); }
//@loop 0
    invariant seq0@ == trits@, end0 == trits.len(), it0 <= end0, self.inv(h), self.len() >= end0, self_m == self.s_drop(it0 as int),
        mem@ == self.put(h, trits@.take(it0 as int)),
    decreases end0 - it0,
//@hint loop 0 end
proof {
    lemma_wr_adj(h, self.b(), self.o(), trits@.take(it0 - 1), seq![trits@[it0 - 1]]);
    assert(trits@.take(it0 - 1) + seq![trits@[it0 - 1]] =~= trits@.take(it0 as int));
}
//@hint exit
proof { assert(trits@.take(trits.len() as int) =~= trits@); }
//@fn TritSliceMutT::put_tryte mem=rw props=C04
    requires self.inv(old(mem)@), self.len() >= 3, t < 27,
    ensures final(mem)@ == self.put(old(mem)@, tryte3(t as int)),
//@fn TritSliceMutT::put1s mem=rw props=C03,C04
    requires self.inv(old(mem)@), self.len() >= t1s.len(), forall|j: int| 0 <= j < t1s.len() ==> -1 <= #[trigger] t1s@[j] <= 1,
    ensures final(mem)@ == self.put(old(mem)@, enc1s(t1s@)),
//@hint entry
let ghost h = mem@;
proof { lemma_wr_empty(h, self.b(), self.o()); assert(enc1s(t1s@).take(0) =~= Seq::<u8>::empty()); }
//@loop 0
    invariant seq0@ == t1s@, end0 == t1s.len(), it0 <= end0, self.inv(h), self.len() >= end0, self_m == self.s_drop(it0 as int),
        forall|j: int| 0 <= j < t1s.len() ==> -1 <= #[trigger] t1s@[j] <= 1,
        mem@ == self.put(h, enc1s(t1s@).take(it0 as int)),
    decreases end0 - it0,
//@hint loop 0 end
proof {
    let e = enc1s(t1s@);
    let b1 = bt(1, t1s@[it0 - 1] as int);
    lemma_bt_len(1, t1s@[it0 - 1] as int);
    assert(b1 =~= seq![e[it0 - 1]]) by { reveal_with_fuel(bt, 2); }
    lemma_wr_adj(h, self.b(), self.o(), e.take(it0 - 1), b1);
    assert(e.take(it0 - 1) + b1 =~= e.take(it0 as int));
}
//@hint exit
proof { assert(enc1s(t1s@).take(t1s.len() as int) =~= enc1s(t1s@)); }
//@foreach put1|1|1 put3|3|13 put6|6|364 put9|9|9841 put18|18|193710244
//@fn TritSliceMutT::$T mem=rw props=C03
    requires self.inv(old(mem)@), self.len() >= $U, -$V <= t <= $V,
    ensures final(mem)@ == self.put(old(mem)@, bt($U, t as int)),
//@endfor
//@fn TritSliceMutT::put_char mem=rw props=C04
    requires self.inv(old(mem)@), self.len() >= 0,
    ensures
        r == (is_tryte_char(c) && forall|j: int| imin(3, self.len()) <= j < 3 ==> #[trigger] bt(3, char_val(c))[j] == 0),
        final(mem)@ == if r { self.put(old(mem)@, bt(3, char_val(c)).take(imin(3, self.len()))) } else { old(mem)@ },
//@hint let ts 0
let ghost e = bt(3, char_val(c));
proof {
    reveal_with_fuel(bt, 4);
    assert(t as int == char_val(c));
    assert(e =~= seq![(t0 as int % 3) as u8, (t1 as int % 3) as u8, (t2 as int % 3) as u8]);
}
//@loop 0
    invariant self.inv(old(mem)@), mem@ == old(mem)@, it0 <= end0 == 3, it0 >= imin(3, self.len()), -1 <= t0 <= 1, -1 <= t1 <= 1, -1 <= t2 <= 1, ts@ == seq![t0, t1, t2],
        e == bt(3, char_val(c)), e == seq![(t0 as int % 3) as u8, (t1 as int % 3) as u8, (t2 as int % 3) as u8],
        forall|j: int| imin(3, self.len()) <= j < it0 ==> #[trigger] e[j] == 0,
    decreases end0 - it0,
//@hint before put1s 0
proof {
    let n = imin(3, self.len());
    assert(enc1s(ts@.subrange(0, n)) =~= e.take(n));
}
//@fn TritSliceMutT::from_str mem=rw props=C04
    requires self.inv(old(mem)@),
    ensures r == str_fits(s@, self.len()),
        r ==> final(mem)@ == self.put(old(mem)@, str_trits(s@).take(imin(self.len(), 3 * s@.len() as int))),
        only(old(mem)@, final(mem)@, self.b(), self.o(), self.len()),
//@hint entry
let ghost h = mem@;
let ghost (b, o, n) = (self.b(), self.o(), self.len());
proof { lemma_wr_empty(h, b, o); assert(str_trits(s@.take(0)) =~= Seq::<u8>::empty()); assert(Seq::<u8>::empty().take(0) =~= Seq::<u8>::empty()); }
//@loop 0
    invariant h == old(mem)@, seq0@ == s@, end0 == s@.len(), it0 <= end0, self.inv(h), b == self.b(), o == self.o(), n == self.len(),
        self_m == self.s_drop(imin(n, 3 * it0)), str_fits(s@.take(it0 as int), n), str_trits(s@.take(it0 as int)).len() == 3 * it0,
        mem@ == wr(h, b, o, str_trits(s@.take(it0 as int)).take(imin(n, 3 * it0))),
    decreases end0 - it0,
//@hint loop 0 start
let ghost k = it0 - 1;
let ghost pre = s@.take(k);
let ghost e = bt(3, char_val(s@[k]));
//@hint return 0
proof {
    lemma_bt_len(3, char_val(s@[k]));
    lemma_wr_only(h, b, o, str_trits(pre).take(imin(n, 3 * k)));
    lemma_from_str_fail(s@, k, n);
}
//@hint loop 0 end
proof { lemma_from_str_step(h, b, o, n, s@, k); }
//@hint exit
proof {
    assert(s@.take(s@.len() as int) =~= s@);
    lemma_wr_only(h, b, o, str_trits(s@).take(imin(n, 3 * s@.len() as int)));
}
//@fn TritSliceMutT::inc mem=rw props=C06 isolate
    requires self.ok(old(mem)@),
    ensures r == !all2(self.val(old(mem)@)), final(mem)@ == self.put(old(mem)@, inc_seq(self.val(old(mem)@))),
//@hint entry
let ghost h = mem@;
let ghost v = self.val(h);
proof { lemma_wr_empty(h, self.b(), self.o()); assert(zeros(0) =~= Seq::<u8>::empty()); }
//@loop 0
    invariant h == old(mem)@, self.ok(h), v == self.val(h), self_m.p == self.p, self_m.r.n == self.r.n, self.r.d <= self_m.r.d <= self.r.n,
        all2(v.take(self_m.r.d - self.r.d)), mem@ == self.put(h, zeros(self_m.r.d - self.r.d)),
    decreases self_m.len(),
//@hint loop 0 start
let ghost k = self_m.r.d - self.r.d;
proof { assert(v[k] < 3); assert(self_m.val(mem@)[0] == v[k]); }
//@hint return 0
proof {
    lemma_inc_prefix(v, k);
    let w = v.skip(k);
    lemma_wr_adj(h, self.b(), self.o(), zeros(k), seq![t]);
    assert(inc_seq(w) =~= seq![t] + w.skip(1));
    let a = self.put(h, zeros(k) + seq![t]);
    let c = self.put(h, inc_seq(v));
    assert(a[self.b()] =~= c[self.b()]) by {
        assert(forall|i: int| 0 <= i < v.len() ==> v[i] == h[self.b()][self.o() + i]);
    }
    assert(a =~= c);
    assert(v[k] != 2);
}
//@hint loop 0 end
proof {
    lemma_wr_adj(h, self.b(), self.o(), zeros(k), seq![t]);
    assert(zeros(k) + seq![t] =~= zeros(k + 1));
    assert forall|i: int| 0 <= i < k + 1 implies #[trigger] v.take(k + 1)[i] == 2 by { if i < k { assert(v.take(k)[i] == 2); } }
}
//@hint exit
proof { assert(v.take(v.len() as int) =~= v); lemma_inc_prefix(v, v.len() as int); lemma_inc(v); }
//@fn TritSliceMutT::set_trit mem=rw props=C05
    requires self.inv(old(mem)@), t < 3,
    ensures final(mem)@ == self.put(old(mem)@, Seq::new(self.len() as nat, |i: int| t)),
//@hint entry
let ghost h = mem@;
let ghost v = Seq::new(self.len() as nat, |i: int| t);
proof { lemma_wr_empty(h, self.b(), self.o()); assert(v.take(0) =~= Seq::<u8>::empty()); }
//@loop 0
    invariant self.inv(h), v == Seq::new(self.len() as nat, |i: int| t), self_m.p == self.p, self_m.r.n == self.r.n, self.r.d <= self_m.r.d <= self.r.n, t < 3,
        mem@ == self.put(h, v.take(self_m.r.d - self.r.d)),
    decreases self_m.len(),
//@hint loop 0 end
proof {
    let k = self_m.r.d - self.r.d - 1;
    lemma_wr_adj(h, self.b(), self.o(), v.take(k), seq![t]);
    assert(v.take(k) + seq![t] =~= v.take(k + 1));
}
//@hint exit
proof { assert(v.take(self.len()) =~= v); }
//@fn TritSliceMutT::set_zero mem=rw props=C05
    requires self.inv(old(mem)@),
    ensures final(mem)@ == self.put(old(mem)@, zeros(self.len())),
//@fn TritSliceMutT::swap_add mem=rw props=C01,C05
    requires self.ok(old(mem)@), s.ok(old(mem)@), self.len() == s.len(), self.b() != s.b(),
    ensures ({ let (vx, vs) = (self.val(old(mem)@), s.val(old(mem)@)); final(mem)@ == s.put(self.put(old(mem)@, sadd(vx, vs)), vx) }),
//@fn TritSliceMutT::swap_add_min mem=rw props=C01,C05
    requires self.ok(old(mem)@), s.ok(old(mem)@), self.b() != s.b(),
    ensures r == imin(self.len(), s.len()),
        ({ let (vx, vs) = (self.val(old(mem)@).take(r as int), s.val(old(mem)@).take(r as int)); final(mem)@ == s.put(self.put(old(mem)@, sadd(vx, vs)), vx) }),
//@hint entry
proof {
    let n = imin(self.len(), s.len());
    lemma_sub_ok(self.val(mem@), rd(mem@, self.b(), self.o(), n), n);
    lemma_sub_ok(s.val(mem@), rd(mem@, s.b(), s.o(), n), n);
}
//@fn TritSliceMutT::swap_sub mem=rw props=C01,C05
    requires self.ok(old(mem)@), s.ok(old(mem)@), self.len() == s.len(), self.b() != s.b(),
    ensures ({ let v = ssub(self.val(old(mem)@), s.val(old(mem)@)); final(mem)@ == s.put(self.put(old(mem)@, v), v) }),
//@fn TritSliceMutT::swap_sub_min mem=rw props=C01,C05
    requires self.ok(old(mem)@), s.ok(old(mem)@), self.b() != s.b(),
    ensures r == imin(self.len(), s.len()),
        ({ let v = ssub(self.val(old(mem)@).take(r as int), s.val(old(mem)@).take(r as int)); final(mem)@ == s.put(self.put(old(mem)@, v), v) }),
//@hint entry
proof {
    let n = imin(self.len(), s.len());
    lemma_sub_ok(self.val(mem@), rd(mem@, self.b(), self.o(), n), n);
    lemma_sub_ok(s.val(mem@), rd(mem@, s.b(), s.o(), n), n);
}
//@postlude
/// a prefix of valid trits
pub proof fn lemma_sub_ok(v: Seq<u8>, w: Seq<u8>, n: int)
    requires is_trits(v), 0 <= n <= v.len(), w.len() == n, forall|i: int| 0 <= i < n ==> w[i] == v[i],
    ensures is_trits(w), w == v.take(n),
{
    assert forall|i: int| 0 <= i < n implies #[trigger] w[i] < 3 by { assert(v[i] < 3); }
    assert(w =~= v.take(n));
}
pub open spec fn enc1s(s: Seq<i8>) -> Seq<u8> { Seq::new(s.len(), |i: int| (s[i] as int % 3) as u8) }
proof fn lemma_from_str_step(h: Heap, b: int, o: int, n: int, s: Seq<char>, k: int)
    requires h.dom().contains(b), n >= 0, 0 <= k < s.len(), str_fits(s.take(k), n), str_trits(s.take(k)).len() == 3 * k, is_tryte_char(s[k]),
        forall|j: int| imin(3, n - imin(n, 3 * k)) <= j < 3 ==> #[trigger] bt(3, char_val(s[k]))[j] == 0,
    ensures str_fits(s.take(k + 1), n), str_trits(s.take(k + 1)).len() == 3 * (k + 1), ({
        let m0 = imin(n, 3 * k);
        let c = imin(3, n - m0);
        wr(wr(h, b, o, str_trits(s.take(k)).take(m0)), b, o + m0, bt(3, char_val(s[k])).take(c)) == wr(h, b, o, str_trits(s.take(k + 1)).take(imin(n, 3 * (k + 1))))
    }),
{
    let pre = s.take(k);
    let e = bt(3, char_val(s[k]));
    assert(s.take(k + 1) =~= pre.push(s[k]));
    lemma_str_trits_push(pre, s[k]);
    lemma_bt_len(3, char_val(s[k]));
    let all = str_trits(s.take(k + 1));
    let m0 = imin(n, 3 * k);
    let m1 = imin(n, 3 * (k + 1));
    assert(str_trits(pre).take(m0) + e.take(m1 - m0) =~= all.take(m1));
    lemma_wr_adj(h, b, o, str_trits(pre).take(m0), e.take(m1 - m0));
    assert forall|i: int| 0 <= i < k + 1 implies is_tryte_char(#[trigger] s.take(k + 1)[i]) by { if i < k { assert(is_tryte_char(pre[i])); } }
    assert forall|i: int| n <= i < all.len() implies #[trigger] all[i] == 0 by {
        if i < 3 * k { assert(str_trits(pre)[i] == 0); } else { assert(e[i - 3 * k] == 0); }
    }
}
proof fn lemma_from_str_fail(s: Seq<char>, k: int, n: int)
    requires 0 <= k < s.len(), n >= 0, str_trits(s.take(k)).len() == 3 * k,
        !(is_tryte_char(s[k]) && forall|j: int| imin(3, n - imin(n, 3 * k)) <= j < 3 ==> #[trigger] bt(3, char_val(s[k]))[j] == 0),
    ensures !str_fits(s, n),
{
    if str_fits(s, n) {
        assert(is_tryte_char(s[k]));
        let e = bt(3, char_val(s[k]));
        let pre = s.take(k);
        assert(s.take(k + 1) =~= pre.push(s[k]));
        lemma_str_trits_push(pre, s[k]);
        lemma_str_split(s, k + 1);
        lemma_bt_len(3, char_val(s[k]));
        let j = choose|j: int| imin(3, n - imin(n, 3 * k)) <= j < 3 && #[trigger] e[j] != 0;
        assert(str_trits(s)[3 * k + j] == e[j]);
        assert(false);
    }
}
/// the trits of a prefix are a prefix of the trits
proof fn lemma_str_split(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures str_trits(s) == str_trits(s.take(k)) + str_trits(s.skip(k)),
    decreases k,
{
    if k == 0 {
        assert(s.skip(0) =~= s);
        assert(str_trits(s.take(0)) =~= Seq::<u8>::empty());
        assert(str_trits(s) =~= str_trits(s.take(0)) + str_trits(s.skip(0)));
    } else {
        lemma_str_split(s.skip(1), k - 1);
        assert(s.skip(1).take(k - 1) =~= s.take(k).skip(1));
        assert(s.skip(1).skip(k - 1) =~= s.skip(k));
        assert(s.take(k)[0] == s[0]);
        assert(str_trits(s) =~= str_trits(s.take(k)) + str_trits(s.skip(k)));
    }
}
//@end
