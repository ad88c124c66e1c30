//@module trits::trits
//@file trits/trits.rs
//@deps trits::slice
//@mem none
//@field TritsT.buf Buf
//@skip DefaultTritWord
//@cmp trits .slice()
//@prelude
use crate::mem::*;
use crate::trits::defs::*;
use crate::trits::util::*;
use crate::trits::slice::*;

impl TritsT {
    pub open spec fn wf(self) -> bool { self.buf.ptr.off == 0 && self.n == self.buf.len && self.n <= MAXSZ }
    pub open spec fn b(self) -> int { self.buf.ptr.base@ }
    pub open spec fn inv(self, h: Heap) -> bool { self.wf() && h.dom().contains(self.b()) && h[self.b()].len() == self.n }
    pub open spec fn val(self, h: Heap) -> Seq<u8> { h[self.b()] }
    pub open spec fn ok(self, h: Heap) -> bool { self.inv(h) && is_trits(self.val(h)) }
    pub open spec fn fresh(self, h: Heap) -> bool { self.wf() && !h.dom().contains(self.b()) }
    pub open spec fn slice_spec(self) -> TritSliceT { TritSliceT { r: SliceRange { n: self.n, d: 0 }, p: self.buf.ptr } }
    pub open spec fn slice_mut_spec(self) -> TritSliceMutT { TritSliceMutT { r: SliceRange { n: self.n, d: 0 }, p: self.buf.ptr } }
}
/// what hashing a container feeds to the hasher: determined by its length and trits
pub open spec fn hashed(v: Seq<u8>) -> Seq<HItem> { seq![HItem::N(v.len() as int), HItem::S(v)] }
//@end
//@fn TritsT.Clone::clone mem=rw props=C05
    requires self.inv(old(mem)@),
    ensures r.fresh(old(mem)@), r.n == self.n, final(mem)@ == old(mem)@.insert(r.b(), self.val(old(mem)@)),
//@hint exit
proof { assert(rd(old(mem)@, self.b(), 0, self.n as int) =~= self.val(old(mem)@)); }
//@fn TritsT::zero mem=rw vec=crate::mem::buf_alloc props=C05
    requires n <= MAXSZ,
    ensures r.fresh(old(mem)@), r.n == n, final(mem)@ == old(mem)@.insert(r.b(), zeros(n as int)),
//@hint exit
proof { assert(zeros(n as int) =~= Seq::new(n as nat, |i: int| 0u8)); }
//@fn TritsT::from_slice mem=rw props=C05
    requires t.inv(old(mem)@),
    ensures r.fresh(old(mem)@), r.n == t.len(), final(mem)@ == old(mem)@.insert(r.b(), t.val(old(mem)@)),
//@hint exit
proof {
    let h = old(mem)@;
    let v = t.val(h);
    assert(t.val(h.insert(tail__.b(), zeros(t.len()))) =~= v);
    assert(mem@[tail__.b()] =~= v);
    assert(mem@ =~= h.insert(tail__.b(), v));
}
//@fn TritsT::cycle_trits mem=rw props=C04
    requires t.inv(old(mem)@), n <= MAXSZ,
    ensures r.fresh(old(mem)@), r.n == n,
        final(mem)@ == old(mem)@.insert(r.b(), if t.n == 0 { zeros(n as int) } else { cyc(t.val(old(mem)@), n as int) }),
//@hint exit
proof {
    let h = old(mem)@;
    let v = if t.n == 0 { zeros(n as int) } else { cyc(t.val(h), n as int) };
    let h1 = h.insert(tail__.b(), zeros(n as int));
    assert(t.slice_spec().val(h1) =~= t.val(h));
    assert(mem@[tail__.b()] =~= v);
    assert(mem@ =~= h.insert(tail__.b(), v));
}
//@fn TritsT::from_str mem=rw recvmap:s.len=crate::mem::str_len props=C04
    requires 12 * s@.len() <= MAXSZ,
    ensures r.is_some() == str_ok(s@),
        r.is_some() ==> r.unwrap().fresh(old(mem)@) && r.unwrap().n == 3 * s@.len() && final(mem)@ == old(mem)@.insert(r.unwrap().b(), str_trits(s@)),
        extends(old(mem)@, final(mem)@),
//@hint exit
proof {
    let h = old(mem)@;
    if str_ok(s@) {
        assert forall|i: int| 0 <= i < s@.len() implies 128 > (#[trigger] s@[i]) as int by { assert(is_tryte_char(s@[i])); }
        lemma_str_trits_len(s@);
        assert(str_trits(s@).take(3 * s@.len() as int) =~= str_trits(s@));
        assert(tail__.is_some());
        let t = tail__.unwrap();
        assert(mem@[t.b()] =~= str_trits(s@));
        assert(mem@ =~= h.insert(t.b(), str_trits(s@)));
    }
}
//@fn TritsT::cycle_str mem=rw props=C04
    requires 12 * s@.len() <= MAXSZ, n <= MAXSZ,
    ensures extends(old(mem)@, final(mem)@), r.fresh(old(mem)@), r.n == n, r.inv(final(mem)@),
        r.val(final(mem)@) == if str_ok(s@) && s@.len() > 0 { cyc(str_trits(s@), n as int) } else { zeros(n as int) },
//@hint entry
proof { if str_ok(s@) { lemma_str_trits_len(s@); } }
//@fn TritsT::to_str mem=ro props=C04
    requires self.ok(mem@),
    ensures r@ == text(self.val(mem@)),
//@hint entry
proof { assert(self.slice_spec().val(mem@) =~= self.val(mem@)); }
//@fn TritsT::slice props=C05
    ensures r == self.slice_spec(),
//@fn TritsT::slice_mut props=C05
    ensures r == old(self).slice_mut_spec(), *final(self) == *old(self),
//@fn TritsT::buf_len props=C05
    ensures r == self.buf.len,
//@fn TritsT::size props=C05
    ensures r == self.n,
//@fn TritsT::is_empty props=C05
    ensures r == (self.n == 0),
//@fn TritsT.PartialEq::eq mem=ro rename=partial_eq props=C05
    requires self.inv(mem@), other.inv(mem@),
    ensures r == (self.val(mem@) == other.val(mem@)),
//@hint entry
proof { assert(self.slice_spec().val(mem@) =~= self.val(mem@)); assert(other.slice_spec().val(mem@) =~= other.val(mem@)); }
//@fn TritsT.Display::fmt mem=ro rename=fmt_display meth:fmt=fmt_display props=C04
    requires self.ok(mem@),
    ensures r.is_ok() ==> final(f)@ == old(f)@ + text(self.val(mem@)),
//@hint entry
proof { assert(self.slice_spec().val(mem@) =~= self.val(mem@)); }
//@fn TritsT.Hash::hash mem=ro rename=trits_hash meth:hash=hash_in mono=H=crate::mem::HState props=C05
    requires self.ok(mem@),
    ensures final(state)@ == old(state)@ + hashed(self.val(mem@)),
//@hint exit
proof { assert(rd(mem@, self.buf.ptr.base@, 0, self.buf.len as int) =~= self.val(mem@)); }
